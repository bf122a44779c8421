//! The scheduler: real threads, exactly one of which holds the baton at any moment. Who holds it
//! next, and for how many basic blocks, is read from the plan.

use std::sync::atomic::{AtomicU32, Ordering};

use crate::seams::{EXIT_DEADLOCK, G, T};
use crate::sys::*;

pub const MAX_THREADS: usize = 4;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    /// Finished its part of the phase.
    Done,
    Gone,
}

pub struct Sched {
    active: bool,
    n: usize,
    cur: usize,
    st: [St; MAX_THREADS],
    words: [AtomicU32; MAX_THREADS],
    exiting: AtomicU32,
    handoff: u32,
    decisions: Vec<(u32, u8)>,
    pos: usize,
    tail: u32,
    idle: u64,
    pub switches: u64,
    pub phase: usize,
}

static mut S: Sched = Sched {
    active: false,
    n: 0,
    cur: 0,
    st: [St::Done; MAX_THREADS],
    words: [AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0)],
    exiting: AtomicU32::new(0),
    handoff: 0,
    decisions: Vec::new(),
    pos: 0,
    tail: 0,
    idle: 0,
    switches: 0,
    phase: 0,
};

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { &mut S }
}

pub fn switches() -> u64 {
    s().switches
}

/// Starts a simulation of `n` threads; the caller then starts them and gives thread 0 the baton.
pub fn start(n: usize, decisions: &[(u32, u8)], tail: u32) {
    let s = s();
    s.active = true;
    s.n = n;
    s.decisions = decisions.to_vec();
    s.pos = 0;
    s.tail = tail.max(100);
    s.idle = 0;
    s.switches = 0;
    s.phase = 0;
    for i in 0..n {
        s.st[i] = St::Ready;
    }
    next_budget();
}

fn next_budget() {
    let s = s();
    unsafe {
        G.budget = if s.n <= 1 {
            i64::MAX
        } else if let Some(d) = s.decisions.get(s.pos) {
            d.0.max(1) as i64
        } else {
            s.tail as i64
        };
    }
}

/// Picks one of the ready threads other than `me` (or `me` if it is the only one).
fn pick(me: usize) -> Option<usize> {
    let s = s();
    let choice = s.decisions.get(s.pos).map_or(0, |d| d.1);
    if s.pos < s.decisions.len() {
        s.pos += 1;
    }
    let mut ready = [0usize; MAX_THREADS];
    let mut k = 0;
    for i in 1..s.n {
        let t = (me + i) % s.n;
        if s.st[t] == St::Ready {
            ready[k] = t;
            k += 1;
        }
    }
    if k == 0 {
        return (s.st[me] == St::Ready).then_some(me);
    }
    Some(ready[choice as usize % k])
}

unsafe fn wait_baton(me: usize) {
    let w = &s().words[me];
    loop {
        if w.load(Ordering::Acquire) == 1 {
            w.store(0, Ordering::Relaxed);
            return;
        }
        futex_wait(w as *const AtomicU32 as *const u32, 0);
    }
}

pub fn give(to: usize) {
    let s = s();
    s.cur = to;
    s.words[to].store(1, Ordering::Release);
    unsafe { futex_wake(&s.words[to] as *const AtomicU32 as *const u32) };
}

unsafe fn switch(me: usize, to: usize) {
    if me == to {
        next_budget();
        return;
    }
    s().switches += 1;
    G.hash = (G.hash ^ (0x5157 + to as u64)).wrapping_mul(0x2545_f491_4f6c_dd1d);
    next_budget();
    give(to);
    wait_baton(me);
}

/// The budget of the running thread is used up.
#[cold]
pub unsafe fn preempt() {
    let sc = s();
    if !sc.active || sc.n <= 1 {
        G.budget = i64::MAX;
        return;
    }
    let was = T.in_lib;
    T.in_lib = false;
    let me = T.tid as usize;
    if let Some(to) = pick(me) {
        switch(me, to);
    }
    T.in_lib = was;
}

/// The running thread waits for something another thread must do.
#[cold]
pub unsafe fn blocked() {
    let sc = s();
    let was = T.in_lib;
    T.in_lib = false;
    sc.idle += 1;
    if sc.idle > 20_000 {
        raw(231, EXIT_DEADLOCK as u64, 0, 0, 0, 0, 0);
    }
    if sc.active && sc.n > 1 {
        let me = T.tid as usize;
        if let Some(to) = pick(me) {
            switch(me, to);
        }
    }
    T.in_lib = was;
}

/// Something happened that a waiting thread may have been waiting for.
pub fn progress() {
    s().idle = 0;
}

/// A scheduling point between two operations.
pub fn between_ops() {
    progress();
    unsafe {
        G.budget -= 1;
        if G.budget <= 0 {
            preempt();
        }
    }
}

/// Entered by each simulated thread before its first operation.
pub fn enter(me: usize) {
    unsafe {
        T.tid = me as u32;
        wait_baton(me);
    }
}

/// The thread has no more operations in this phase. Returns once the next phase has begun and it is
/// this thread's turn - or, if the thread `exits`, at once: it must then really end, so that the
/// main thread can join it (and run its thread-local destructors) before anyone else proceeds.
pub fn phase_end(me: usize, exits: bool, on_phase: &mut dyn FnMut(usize)) {
    let sc = s();
    progress();
    sc.st[me] = if exits { St::Gone } else { St::Done };
    let mut to = pick(me);
    if to.is_none() {
        // the last thread to finish the phase
        on_phase(sc.phase);
        sc.phase += 1;
        for i in 0..sc.n {
            if sc.st[i] == St::Done {
                sc.st[i] = St::Ready;
            }
        }
        to = pick(me);
    }
    if exits {
        sc.switches += 1;
        next_budget();
        sc.handoff = to.map_or(u32::MAX, |t| t as u32);
        sc.exiting.store(me as u32 + 1, Ordering::Release);
        unsafe { futex_wake(&sc.exiting as *const AtomicU32 as *const u32) };
        return;
    }
    if let Some(to) = to {
        unsafe { switch(me, to) };
    }
}

/// Run by the main thread: joins each simulated thread as it ends and passes the baton on.
pub fn supervise(mut handles: Vec<Option<std::thread::JoinHandle<()>>>) {
    let sc = s();
    loop {
        let who = sc.exiting.load(Ordering::Acquire);
        if who == 0 {
            unsafe { futex_wait(&sc.exiting as *const AtomicU32 as *const u32, 0) };
            continue;
        }
        if let Some(h) = handles[who as usize - 1].take() {
            let _ = h.join();
        }
        sc.exiting.store(0, Ordering::Relaxed);
        if sc.handoff == u32::MAX {
            sc.active = false;
            return;
        }
        give(sc.handoff as usize);
    }
}
