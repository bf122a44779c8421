//! Executes a plan inside a simulated process and records what happened.

use std::cell::UnsafeCell;
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};

use norm_shim as lib_;
use norm_shim::{Dist, Metric, Parser, Query};

use crate::plan::*;
use crate::sched;
use crate::seams::{self, lib, AllocFailed, FailSpec, Text as HeapText, G, T};

pub const NONE: u8 = 0;
pub const SOME: u8 = 1;
pub const PANIC: u8 = 2;
/// An injected allocation failure unwound out of the operation.
pub const FAILED: u8 = 3;
pub const CRASH: u8 = 4;
pub const HANG: u8 = 5;
/// The operation did not apply (an empty slot).
pub const SKIP: u8 = 6;

pub const CODE_NAMES: [&str; 7] = [
    "no match",
    "match",
    "panic",
    "allocation failure",
    "crash",
    "hang",
    "skipped",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, PartialOrd, Ord)]
pub struct Spec {
    pub kind: u8,
    pub case: u8,
    pub norm: bool,
    pub scheme: u8,
}

impl Spec {
    pub fn pack(&self) -> u64 {
        self.kind as u64
            | (self.case as u64) << 8
            | (self.norm as u64) << 16
            | (self.scheme as u64) << 24
    }
    pub fn unpack(v: u64) -> Spec {
        Spec {
            kind: v as u8,
            case: (v >> 8) as u8,
            norm: (v >> 16) as u8 != 0,
            scheme: (v >> 24) as u8,
        }
    }
}

impl std::fmt::Display for Spec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "FzfV{} with {} case, {}normalization, {} scheme",
            self.kind,
            ["sensitive", "insensitive", "smart"][self.case.min(2) as usize],
            if self.norm { "" } else { "no " },
            ["default", "path", "history"][self.scheme.min(2) as usize],
        )
    }
}

#[derive(Clone, Debug, Default)]
pub struct Event {
    pub k: u8,
    pub tid: u32,
    pub phase: u32,
    pub idx: u32,
    pub rep: u32,
    pub seq: u64,
    pub spec: Spec,
    /// Text of the query in use (NO_TEXT if none) and how it was parsed.
    pub query: u32,
    pub ext: bool,
    /// Text of the candidate.
    pub cand: u32,
    pub code: u8,
    pub score: i64,
    pub steps: u64,
    pub allocs: u64,
    pub bytes: u64,
    pub live: u64,
    /// The most memory allocated at once (not recorded).
    pub peak: u64,
    pub fails: u64,
    pub flags: u32,
    /// Which iteration of a burst.
    pub iter: u64,
    pub ranges: Vec<(u64, u64)>,
    pub text: String,
}

pub const NO_TEXT: u32 = u32::MAX;

/// The buffer's earlier entries were disturbed.
pub const F_PREFIX: u32 = 1;
/// The call reported ranges (distance_and_ranges).
pub const F_RANGES: u32 = 2;
/// The call retried or was made while a fault was armed.
pub const F_ARMED: u32 = 4;

/// Pseudo operations.
pub const E_MARK: u8 = 200;
pub const E_BAD: u8 = 201;
pub const E_DISORDER: u8 = 202;
/// Within a stream: an answer is not that of a new instance (code 0), or not that of the other
/// method (code 1).
pub const E_DIFF: u8 = 203;
/// More memory is held than what was asked explains.
pub const E_EXCESS: u8 = 204;

// ---------------------------------------------------------------- the shared record

pub const REC_WORDS: usize = 48 << 20;
pub const H_HEAD: usize = 0;
pub const H_OVER: usize = 1;
pub const H_DONE: usize = 2;
pub const H_TID: usize = 3;
pub const H_OP: usize = 4; // one per thread
pub const H_STEPS: usize = 8;
pub const H_HASH: usize = 9;
pub const H_SWITCHES: usize = 10;
pub const H_REUSED: usize = 11;
pub const H_MOVED: usize = 12;
pub const H_ACCESSES: usize = 13;
pub const H_FUTEX: usize = 14;
pub const H_CLOCK: usize = 15;
pub const H_SHARED: usize = 25;
pub const H_FAULTS: usize = 16; // five words, by mode
pub const H_HARNESS: usize = 24;
pub const H_CUT: usize = 26;
/// What each thread's running call is about (spec, query | candidate << 32, extended | valid << 1).
pub const H_CALL: usize = 32;
pub const H_LEN: usize = 64;

static mut REC: *mut u64 = core::ptr::null_mut();
static mut SEQ: u64 = 0;

pub fn set_record(p: *mut u64) {
    unsafe { REC = p }
}

pub unsafe fn header(i: usize) -> &'static mut u64 {
    &mut *REC.add(i)
}

fn emit(e: &Event) {
    unsafe {
        SEQ += 1;
        let head = *header(H_HEAD) as usize;
        let need = 17 + e.ranges.len() * 2 + 1 + (e.text.len() + 7) / 8;
        if head + need > REC_WORDS {
            *header(H_OVER) = 1;
            return;
        }
        let w = REC.add(head);
        let v = [
            need as u64,
            e.k as u64 | (e.tid as u64) << 8 | (e.phase as u64) << 16 | (e.idx as u64) << 32,
            e.rep as u64,
            SEQ,
            e.spec.pack(),
            e.query as u64 | (e.cand as u64) << 32,
            e.ext as u64 | (e.code as u64) << 8 | (e.flags as u64) << 16,
            e.score as u64,
            e.steps,
            e.allocs,
            e.bytes,
            e.live,
            e.fails,
            e.iter,
            0,
            0,
            e.ranges.len() as u64,
        ];
        for (i, x) in v.iter().enumerate() {
            *w.add(i) = *x;
        }
        let mut p = v.len();
        for r in &e.ranges {
            *w.add(p) = r.0;
            *w.add(p + 1) = r.1;
            p += 2;
        }
        *w.add(p) = e.text.len() as u64;
        core::ptr::copy_nonoverlapping(e.text.as_ptr(), w.add(p + 1) as *mut u8, e.text.len());
        *header(H_HEAD) = (head + need) as u64;
    }
}

/// Reads back all events.
pub fn events() -> Vec<Event> {
    let mut out = Vec::new();
    unsafe {
        let head = *header(H_HEAD) as usize;
        let mut i = H_LEN;
        while i < head {
            let w = REC.add(i);
            let n = *w as usize;
            let a = *w.add(1);
            let b = *w.add(5);
            let c = *w.add(6);
            let nr = *w.add(16) as usize;
            let mut p = 17;
            let mut ranges = Vec::with_capacity(nr);
            for _ in 0..nr {
                ranges.push((*w.add(p), *w.add(p + 1)));
                p += 2;
            }
            let tl = *w.add(p) as usize;
            let text = String::from_utf8_lossy(std::slice::from_raw_parts(
                w.add(p + 1) as *const u8,
                tl,
            ))
            .into_owned();
            out.push(Event {
                k: a as u8,
                tid: (a >> 8) as u8 as u32,
                phase: (a >> 16) as u16 as u32,
                idx: (a >> 32) as u32,
                rep: *w.add(2) as u32,
                seq: *w.add(3),
                spec: Spec::unpack(*w.add(4)),
                query: b as u32,
                cand: (b >> 32) as u32,
                ext: c & 1 != 0,
                code: (c >> 8) as u8,
                flags: (c >> 16) as u32,
                score: *w.add(7) as i64,
                steps: *w.add(8),
                allocs: *w.add(9),
                bytes: *w.add(10),
                live: *w.add(11),
                fails: *w.add(12),
                iter: *w.add(13),
                ranges,
                text,
                peak: 0,
            });
            i += n;
        }
    }
    out
}

pub fn reset_record() {
    unsafe {
        for i in 0..H_LEN {
            *header(i) = 0;
        }
        *header(H_HEAD) = H_LEN as u64;
        *header(H_TID) = u64::MAX;
        SEQ = 0;
    }
}

// ---------------------------------------------------------------- the simulated process

/// The sizes of the largest inputs an instance has seen.
#[derive(Clone, Copy, Default)]
struct Seen {
    query: u64,
    cand: u64,
    product: u64,
}

impl Seen {
    fn join(self, o: Seen) -> Seen {
        Seen {
            query: self.query.max(o.query),
            cand: self.cand.max(o.cand),
            product: self.product.max(o.product),
        }
    }

    fn call(&mut self, q: &str, c: &str) {
        let (query, cand) = (q.len() as u64, c.len() as u64);
        *self = self.join(Seen { query, cand, product: query * cand });
    }
}

struct MSlot {
    m: Option<Metric>,
    spec: Spec,
    seen: Seen,
}

struct PSlot {
    p: Option<Parser>,
    q: Option<Query>,
    text: u32,
    ext: bool,
    seen: Seen,
}

struct BSlot {
    b: Option<Vec<Range<usize>>>,
    /// The most entries it held, the longest candidate, the capacity it was made with.
    most: u64,
    cand: u64,
    made: u64,
}

struct World {
    m: Vec<MSlot>,
    p: Vec<PSlot>,
    b: Vec<BSlot>,
    texts: Vec<String>,
    dists: Vec<(u32, u64, u32, bool, u32, Dist)>, // tid, spec, query, ext, cand
}

struct Cell_(UnsafeCell<Option<World>>);
unsafe impl Sync for Cell_ {}
static WORLD: Cell_ = Cell_(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
fn world() -> &'static mut World {
    unsafe { (*WORLD.0.get()).as_mut().unwrap() }
}

static mut PANIC_AT: [u8; 256] = [0; 256];
static mut PANIC_LEN: usize = 0;

/// Installed once, before anything is forked.
pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| unsafe {
        let was = T.in_lib;
        T.in_lib = false;
        T.unwinding = true;
        if !was {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            eprintln!("normsim: harness panic at {:?}: {msg}", info.location());
        }
        if let Some(l) = info.location() {
            use std::io::Write;
            #[allow(static_mut_refs)]
            let mut c = std::io::Cursor::new(&mut PANIC_AT[..]);
            let _ = write!(c, "{}:{}", l.file(), l.line());
            PANIC_LEN = c.position() as usize;
        }
        T.in_lib = was;
    }));
    std::alloc::set_alloc_error_hook(seams::on_alloc_error);
}

enum Res<R> {
    Ok(R),
    Panic,
    Failed,
}

/// Runs one library call with panics caught and counters reset.
fn call<R>(fail: FailSpec, limit: u64, f: impl FnOnce() -> R) -> Res<R> {
    unsafe {
        T.steps = 0;
        T.limit = limit;
        T.allocs = 0;
        T.bytes = 0;
        T.fails = 0;
        T.unwinding = false;
        T.fail = fail;
        G.peak = G.live;
        let r = catch_unwind(AssertUnwindSafe(|| lib(f)));
        T.in_lib = false;
        T.fail = FailSpec::default();
        if T.fails > 0 {
            *header(H_FAULTS + fail.mode as usize) += 1;
        }
        match r {
            Ok(r) => Res::Ok(r),
            Err(p) => {
                let failed = p.is::<AllocFailed>();
                drop(p);
                T.unwinding = false;
                if failed {
                    Res::Failed
                } else {
                    Res::Panic
                }
            },
        }
    }
}

fn counters(e: &mut Event) {
    unsafe {
        e.steps = T.steps;
        e.allocs = T.allocs;
        e.bytes = T.bytes;
        e.fails = T.fails;
        e.live = G.live;
        e.peak = G.peak;
    }
}

#[allow(static_mut_refs)]
fn panic_at() -> String {
    unsafe { String::from_utf8_lossy(&PANIC_AT[..PANIC_LEN]).into_owned() }
}

pub fn limit_for(query: &str, cand: &str) -> u64 {
    let q = query.len() as u64 + 1;
    let c = cand.len() as u64 + 1;
    20_000_000 + 150 * (q * c).min(5_000_000)
}

fn junk(pattern: u32, count: u32) -> Vec<Range<usize>> {
    let mut out = Vec::new();
    let mut x = pattern as u64 * 77 + 5;
    for i in 0..count as usize {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (x >> 33) as usize;
        out.push(match pattern % 6 {
            0 => i * 10..i * 10 + 3,
            1 => i..i + 1,
            2 => {
                let s = r % 40;
                s..s + (r >> 8) % 20
            },
            3 => 0..r % 8,
            #[allow(clippy::reversed_empty_ranges)]
            4 => usize::MAX..r % 5,
            _ => {
                let s = (count as usize - i) * 3;
                s..s + 4
            },
        });
    }
    out
}

fn to_u64(r: &[Range<usize>]) -> Vec<(u64, u64)> {
    r.iter().map(|r| (r.start as u64, r.end as u64)).collect()
}

struct At {
    tid: u32,
    rep: u32,
    phase: u32,
    idx: u32,
}

fn base(at: &At, o: &Op) -> Event {
    Event {
        k: o.k as u8,
        tid: at.tid,
        phase: at.phase,
        idx: at.idx,
        rep: at.rep,
        query: NO_TEXT,
        cand: NO_TEXT,
        code: SKIP,
        flags: if o.fault.is_some() { F_ARMED } else { 0 },
        ..Default::default()
    }
}

fn done<R>(e: &mut Event, r: &Res<R>) {
    counters(e);
    e.code = match r {
        Res::Ok(_) => SOME,
        Res::Panic => {
            e.text = panic_at();
            PANIC
        },
        Res::Failed => FAILED,
    };
}

const LIMIT: u64 = 50_000_000;

fn exec(at: &At, o: &Op) {
    let w = world();
    let mut e = base(at, o);
    let a = o.a;
    let s0 = a[0] as usize % SLOTS;
    let s1 = a[1] as usize % SLOTS;
    let f = o.fail();
    match o.k {
        K::NewMetric if a[3] == 1 && w.m[s0].m.is_some() => {},
        K::NewParser if a[2] == 1 && w.p[s0].p.is_some() => {},
        K::NewMetric => {
            let kind = if a[1] == 1 { 1 } else { 2 };
            let r = call(f, LIMIT, || lib_::metric_new(kind, a[2] as u8));
            done(&mut e, &r);
            if let Res::Ok(m) = r {
                drop_metric(s0);
                let slot = &mut world().m[s0];
                slot.m = Some(m);
                slot.spec = Spec { kind, case: 2, norm: false, scheme: 0 };
                slot.seen = Seen::default();
                e.spec = slot.spec;
            }
        },
        K::SetCase | K::SetNorm | K::SetScheme | K::SetAll => {
            let slot = &mut w.m[s0];
            if let Some(m) = &mut slot.m {
                // (settings that are overwritten at once)
                for i in 0..if o.k == K::SetAll { a[3] } else { 0 } {
                    let (case, norm, scheme) = (i % 3, i / 3 % 2 != 0, i / 6 % 3);
                    let r = call(FailSpec::default(), LIMIT, || {
                        lib_::set_all(m, case as u8, norm, scheme as u8, (i % 6) as u8)
                    });
                    if let Res::Ok(()) = r {
                        slot.spec = Spec { case: case as u8, norm, scheme: scheme as u8, ..slot.spec };
                    }
                }
                let r = call(f, LIMIT, || match o.k {
                    K::SetCase => lib_::set_case(m, a[1] as u8),
                    K::SetNorm => lib_::set_norm(m, a[1] != 0),
                    K::SetScheme => lib_::set_scheme(m, a[1] as u8),
                    _ => lib_::set_all(
                        m,
                        a[1] as u8 & 15,
                        (a[1] >> 4) & 1 != 0,
                        (a[1] >> 8) as u8 & 15,
                        a[2] as u8,
                    ),
                });
                done(&mut e, &r);
                if let Res::Ok(()) = r {
                    let sp = &mut slot.spec;
                    match o.k {
                        K::SetCase => sp.case = (a[1] as u8).min(2),
                        K::SetNorm => sp.norm = a[1] != 0,
                        K::SetScheme => sp.scheme = (a[1] as u8).min(2),
                        _ => {
                            sp.case = (a[1] as u8 & 15).min(2);
                            sp.norm = (a[1] >> 4) & 1 != 0;
                            sp.scheme = ((a[1] >> 8) as u8 & 15).min(2);
                        },
                    }
                }
                e.spec = slot.spec;
            }
        },
        K::CloneMetric => {
            if s0 != s1 {
                if let Some(m) = &w.m[s0].m {
                    let (spec, seen) = (w.m[s0].spec, w.m[s0].seen);
                    let r = call(f, LIMIT, || lib_::metric_clone(m));
                    done(&mut e, &r);
                    e.spec = spec;
                    if let Res::Ok(mut c) = r {
                        for _ in 0..a[3] {
                            end_if_long();
                            let r = call(FailSpec::default(), LIMIT, || lib_::metric_clone(&c));
                            if let Res::Ok(d) = r {
                                let c = std::mem::replace(&mut c, d);
                                call(FailSpec::default(), LIMIT, || lib_::metric_drop(c));
                            }
                        }
                        drop_metric(s1);
                        let slot = &mut world().m[s1];
                        slot.m = Some(c);
                        slot.spec = spec;
                        slot.seen = seen;
                    }
                }
            }
        },
        K::AssignMetric => {
            if s0 != s1 && w.m[s0].m.is_some() && w.m[s1].m.is_some() {
                let src = w.m[s0].m.take().unwrap();
                let spec = w.m[s0].spec;
                let dst = w.m[s1].m.as_mut().unwrap();
                for _ in 0..a[3] {
                    end_if_long();
                    call(FailSpec::default(), LIMIT, || lib_::metric_clone_from(dst, &src));
                }
                let r = call(f, LIMIT, || lib_::metric_clone_from(dst, &src));
                done(&mut e, &r);
                w.m[s0].m = Some(src);
                w.m[s1].seen = w.m[s1].seen.join(w.m[s0].seen);
                if let Res::Ok(true) = r {
                    w.m[s1].spec = spec;
                }
                e.spec = w.m[s1].spec;
            }
        },
        K::SwapMetric => {
            if s0 != s1 {
                w.m.swap(s0, s1);
                e.code = SOME;
            }
        },
        K::DropMetric => {
            if w.m[s0].m.is_some() {
                let r = drop_metric(s0);
                done(&mut e, &r);
            }
        },
        K::DebugMetric => {
            if let Some(m) = &w.m[s0].m {
                let r = call(f, LIMIT, || lib_::metric_debug(m, a[1] != 0));
                done(&mut e, &r);
                e.spec = w.m[s0].spec;
                if let Res::Ok(s) = r {
                    e.text = s.as_str().to_string();
                    lib(|| drop(s));
                    e.live = unsafe { G.live };
                }
            }
        },
        K::NewParser => {
            let r = call(f, LIMIT, || lib_::parser_new(a[1] as u8));
            done(&mut e, &r);
            if let Res::Ok(p) = r {
                drop_parser(s0);
                let slot = &mut world().p[s0];
                slot.p = Some(p);
                slot.seen = Seen::default();
            }
        },
        K::CloneParser => {
            if s0 != s1 {
                if let Some(p) = &w.p[s0].p {
                    let r = call(f, LIMIT, || lib_::parser_clone(p));
                    done(&mut e, &r);
                    if let Res::Ok(mut c) = r {
                        for _ in 0..a[3] {
                            end_if_long();
                            let r = call(FailSpec::default(), LIMIT, || lib_::parser_clone(&c));
                            if let Res::Ok(d) = r {
                                let c = std::mem::replace(&mut c, d);
                                call(FailSpec::default(), LIMIT, || lib_::parser_drop(c));
                            }
                        }
                        drop_parser(s1);
                        world().p[s1].p = Some(c);
                        world().p[s1].seen = world().p[s0].seen;
                    }
                }
            }
        },
        K::AssignParser => {
            if s0 != s1 && w.p[s0].p.is_some() && w.p[s1].p.is_some() {
                w.p[s1].q = None;
                w.p[s1].text = NO_TEXT;
                w.p[s1].seen = w.p[s1].seen.join(w.p[s0].seen);
                let (x, y) = (s0.min(s1), s0.max(s1));
                let (l, h) = w.p.split_at_mut(y);
                let (src, dst) =
                    if s0 < s1 { (&mut l[x], &mut h[0]) } else { (&mut h[0], &mut l[x]) };
                let (src, dst) = (src.p.as_ref().unwrap(), dst.p.as_mut().unwrap());
                for _ in 0..a[3] {
                    end_if_long();
                    call(FailSpec::default(), LIMIT, || lib_::parser_clone_from(dst, src));
                }
                let r = call(f, LIMIT, || lib_::parser_clone_from(dst, src));
                done(&mut e, &r);
            }
        },
        K::SwapParser => {
            if s0 != s1 {
                // moving a parser ends the life of its query
                for s in [s0, s1] {
                    w.p[s].q = None;
                    w.p[s].text = NO_TEXT;
                }
                w.p.swap(s0, s1);
                e.code = SOME;
            }
        },
        K::DropParser => {
            if w.p[s0].p.is_some() {
                let r = drop_parser(s0);
                done(&mut e, &r);
            }
        },
        K::Parse => {
            let slot = &mut w.p[s0];
            slot.q = None;
            slot.text = NO_TEXT;
            if let Some(p) = &mut slot.p {
                let text = &w.texts[a[1] as usize];
                let ext = a[2] != 0;
                e.query = a[1];
                e.ext = ext;
                e.cand = NO_TEXT;
                about(at.tid, &e);
                slot.seen.call(text, "");
                let t = HeapText::new(text);
                let s = t.get();
                let r = call(f, limit_for(text, ""), || unsafe { lib_::parse(p, s, ext) });
                drop(t);
                done(&mut e, &r);
                if let Res::Ok(q) = r {
                    slot.q = Some(q);
                    slot.text = a[1];
                    slot.ext = ext;
                }
            }
        },
        K::ParseBurst => {
            let slot = &mut w.p[s0];
            slot.q = None;
            slot.text = NO_TEXT;
            if let Some(p) = &mut slot.p {
                let n = a[3] & 0xff_ffff;
                let mut steps = 0;
                e.code = SOME;
                for i in 0..n {
                    end_if_long();
                    let ti = a[1] + i % a[2];
                    let ext = (a[3] >> 24) & 1 == 0;
                    slot.q = None;
                    slot.text = NO_TEXT;
                    let t = HeapText::new(&w.texts[ti as usize]);
                    let s = t.get();
                    slot.seen.call(s, "");
                    let r = call(f, limit_for(s, ""), || unsafe { lib_::parse(p, s, ext) });
                    drop(t);
                    done(&mut e, &r);
                    steps += e.steps;
                    e.query = ti;
                    e.ext = ext;
                    e.iter = i as u64;
                    if let Res::Ok(q) = r {
                        slot.q = Some(q);
                        slot.text = ti;
                        slot.ext = ext;
                    } else {
                        break;
                    }
                }
                e.steps = steps;
            }
        },
        K::DebugQuery => {
            let slot = &w.p[s0];
            if let Some(q) = slot.q {
                let r = call(f, LIMIT, || lib_::query_debug(q));
                done(&mut e, &r);
                e.query = slot.text;
                e.ext = slot.ext;
                if let Res::Ok(s) = r {
                    e.text = s.as_str().to_string();
                    lib(|| drop(s));
                    e.live = unsafe { G.live };
                }
            }
        },
        K::Dist | K::Ranges => {
            let (m, p) = (&mut w.m[s0], &w.p[s1]);
            if let (Some(metric), Some(q)) = (&mut m.m, p.q) {
                e.spec = m.spec;
                e.query = p.text;
                e.ext = p.ext;
                e.cand = a[2];
                about(at.tid, &e);
                let text = &w.texts[a[2] as usize];
                m.seen.call(&w.texts[p.text as usize], text);
                let limit = limit_for(&w.texts[p.text as usize], text);
                let t = HeapText::new(text);
                let c = t.get();
                if o.k == K::Dist {
                    let r = call(f, limit, || lib_::distance(metric, q, c));
                    drop(t);
                    done(&mut e, &r);
                    if let Res::Ok(d) = r {
                        answer(&mut e, d);
                        note(&e, d);
                    }
                } else {
                    e.flags |= F_RANGES;
                    let b = &mut w.b[a[3] as usize % SLOTS];
                    b.cand = b.cand.max(text.len() as u64);
                    let buf = b.b.get_or_insert_with(|| lib(Vec::new));
                    let before = buf.clone();
                    let room = buf.capacity();
                    let r =
                        call(f, limit, || lib_::distance_and_ranges(metric, q, c, &mut *buf));
                    drop(t);
                    done(&mut e, &r);
                    if buf.capacity() != room {
                        // What earlier calls left in the buffer moves with it.
                        e.bytes = e.bytes.saturating_sub(32 * room as u64);
                    }
                    if let Res::Ok(d) = r {
                        answer(&mut e, d);
                        note(&e, d);
                    }
                    if buf.len() < before.len() || buf[..before.len()] != before[..] {
                        e.flags |= F_PREFIX;
                        e.ranges = to_u64(buf);
                        e.iter = before.len() as u64;
                    } else {
                        e.ranges = to_u64(&buf[before.len()..]);
                    }
                }
            }
        },
        K::Burst => burst(at, o),
        K::Stream => stream(at, o, &mut e),
        K::ParseStream => parse_stream(at, o, &mut e),
        K::BufNew => {
            let r = call(f, LIMIT, || Vec::<Range<usize>>::with_capacity(a[1] as usize));
            done(&mut e, &r);
            if let Res::Ok(v) = r {
                drop_buf(s0);
                world().b[s0] = BSlot { b: Some(v), most: 0, cand: 0, made: a[1] as u64 };
            }
        },
        K::BufClear => {
            if let Some(b) = &mut w.b[s0].b {
                b.clear();
                e.code = SOME;
            }
        },
        K::BufFill => {
            let b = w.b[s0].b.get_or_insert_with(|| lib(Vec::new));
            let j = junk(a[1], a[2]);
            let r = call(f, LIMIT, || b.extend_from_slice(&j));
            done(&mut e, &r);
        },
        K::BufDrop => {
            drop_buf(s0);
            e.code = SOME;
        },
        K::Compare => {
            compare(&mut e);
        },
    }
    if o.k != K::Burst {
        e.live = unsafe { G.live };
        emit(&e);
    }
    let peak = matches!(o.k, K::Dist | K::Ranges | K::Parse) && e.code != SKIP;
    excess(at, o, if peak { Some(e.peak) } else { None }, 0);
}

/// Reports more live memory than the instances that exist can account for by the largest inputs
/// each of them has seen.
fn excess(at: &At, o: &Op, peak: Option<u64>, room: u64) {
    if !unsafe { RETAIN } {
        return;
    }
    let w = world();
    let mut bound = 8 << 10;
    for m in &w.m {
        if m.m.is_some() {
            let s = m.seen;
            bound += if m.spec.kind == 1 {
                (2 << 10) + 64 * (s.query + s.cand)
            } else {
                (16 << 10) + 64 * (s.query + s.cand + s.product)
            };
        }
    }
    for p in &w.p {
        if p.p.is_some() {
            bound += (12 << 10) + 256 * p.seen.query;
        }
    }
    let mut what = String::new();
    let mut bufs = 16 * room;
    for (i, s) in w.b.iter_mut().enumerate() {
        if let Some(b) = &s.b {
            s.most = s.most.max(b.len() as u64);
            let cap = b.capacity() as u64;
            let most = 64 + s.made + 4 * s.most + 2 * s.cand;
            if cap > most {
                what = format!(
                    "buffer {i}, made for {} ranges, which held at most {} and was passed with candidates of at most {} bytes, now has room for {cap}",
                    s.made, s.most, s.cand
                );
            }
            bufs += 16 * cap;
        }
    }
    let live = unsafe { G.live };
    if live > bound + bufs {
        what = format!(
            "{} bytes are held, more than the {bound} that the largest inputs seen by the living instances account for",
            live - bufs
        );
    } else if let Some(peak) = peak {
        if peak > 3 * bound + 3 * bufs {
            what = format!(
                "the call had {} bytes allocated at once, more than three times the {bound} that the largest inputs seen by the living instances account for",
                peak - bufs
            );
        }
    }
    if !what.is_empty() {
        over(at, o, what);
    }
}

fn over(at: &At, o: &Op, what: String) {
    let mut e = base(at, o);
    e.k = E_EXCESS;
    e.code = SOME;
    e.live = unsafe { G.live };
    e.text = what;
    emit(&e);
    unsafe { RETAIN = false };
}

static mut RETAIN: bool = false;
/// The plan, if answers are to be compared with the model.
static mut MODEL: *const Plan = core::ptr::null();
/// Whether it also gives scores.
static mut SCORES: bool = false;

/// The i-th text of a stream.
pub fn vary(text: &str, kind: u32, i: u32) -> String {
    let chars: Vec<char> = text.chars().collect();
    let n = chars.len();
    match kind {
        0 => format!("{text}{i}"),
        1 => format!("{i}{text}"),
        2 => {
            let at: usize = chars[..n / 2].iter().map(|c| c.len_utf8()).sum();
            format!("{}{i}{}", &text[..at], &text[at..])
        },
        3 if n > 0 => {
            let mut c = chars;
            c.rotate_left(i as usize % n);
            let mut s: String = c.into_iter().collect();
            let mut k = i as usize / n;
            while k > 0 {
                s.push((b'a' + (k % 26) as u8) as char);
                k /= 26;
            }
            s
        },
        4 if n > 0 => {
            let mut c = chars;
            let i = i as usize;
            c[i % n] = b"xA/ 0_zB-9"[(i / n) % 10] as char;
            c[(i / 7) % n] = c[(i / 3) % n];
            c.into_iter().collect()
        },
        6 => {
            // letters not seen before
            let mut s = String::new();
            for (k, c) in chars.iter().enumerate() {
                s.push(*c);
                if k < 4 {
                    let x = 0xc0 + (4 * i + k as u32) % 0x5000;
                    s.push(char::from_u32(x).unwrap_or('x'));
                }
            }
            s
        },
        _ => {
            let mut x = (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            let mut next = || {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                (x >> 11) as usize
            };
            let len = 1 + next() % (2 * n + 4);
            (0..len)
                .map(|_| if n == 0 { (b'a' + (next() % 26) as u8) as char } else { chars[next() % n] })
                .collect()
        },
    }
}

/// One metric asked about many different candidates, as when a list is filtered. Each answer is
/// compared with that of an instance made for the occasion.
fn stream(at: &At, o: &Op, e: &mut Event) {
    let w = world();
    let a = o.a;
    let (s0, s1) = (a[0] as usize % SLOTS, a[1] as usize % SLOTS);
    let text = w.texts[(a[2] & 0xffff) as usize].clone();
    let (n, api) = (a[3] & 0xff_ffff, a[3] >> 24);
    let (m, p) = (&mut w.m[s0], &w.p[s1]);
    let (Some(metric), Some(q)) = (&mut m.m, p.q) else { return };
    let spec = m.spec;
    let query = &w.texts[p.text as usize];
    e.code = SOME;
    e.spec = spec;
    e.query = p.text;
    e.ext = p.ext;
    let mut seen = m.seen;
    let mut buf: Vec<Range<usize>> = lib(Vec::new);
    let mut most = (0, 0);
    let groups = unsafe { MODEL.as_ref() }
        .and_then(|p_| crate::model::terms(&p_.texts[p.text as usize], p.ext));
    for i in 0..n {
        end_if_long();
        let c = vary(&text, a[2] >> 16, i);
        let limit = limit_for(query, &c);
        seen.call(query, &c);
        let t = HeapText::new(&c);
        let mut got = [None, None];
        let mut peak = 0;
        for ranges in [false, true] {
            if api == 0 && ranges || api == 1 && !ranges {
                continue;
            }
            buf.clear();
            let cand = t.get();
            let r = if ranges {
                call(o.fail(), limit, || lib_::distance_and_ranges(metric, q, cand, &mut buf))
            } else {
                call(o.fail(), limit, || lib_::distance(metric, q, cand))
            };
            let mut x = base(at, o);
            done(&mut x, &r);
            peak = x.peak.max(peak);
            if let Res::Ok(d) = r {
                answer(&mut x, d);
            }
            x.ranges = to_u64(&buf);
            x.ranges.sort_unstable();
            most = (buf.len().max(most.0), c.len().max(most.1));
            got[ranges as usize] = Some(x);
        }
        let mut want = None;
        if got.iter().flatten().any(|x| x.code != FAILED) {
            let mut buf: Vec<Range<usize>> = lib(Vec::new);
            let cand = t.get();
            let r = call(FailSpec::default(), limit, || {
                let mut f = lib_::metric_new(spec.kind, 0);
                lib_::set_all(&mut f, spec.case, spec.norm, spec.scheme, 0);
                let d = lib_::distance_and_ranges(&mut f, q, cand, &mut buf);
                lib_::metric_drop(f);
                d
            });
            let mut x = base(at, o);
            done(&mut x, &r);
            if let Res::Ok(d) = r {
                answer(&mut x, d);
            }
            x.ranges = to_u64(&buf);
            x.ranges.sort_unstable();
            lib(|| drop(buf));
            want = Some(x);
        }
        drop(t);
        e.iter = i as u64;
        if let Some(g) = &groups {
            let should = crate::model::matches(&spec, g, &c);
            for (ranges, x) in got.iter().enumerate() {
                let (Some(x), Some(should)) = (x, should) else { continue };
                if x.code > SOME || (x.code == SOME) == should {
                    continue;
                }
                let mut d = base(at, o);
                d.k = E_DIFF;
                d.code = 2;
                d.spec = spec;
                d.query = p.text;
                d.ext = p.ext;
                d.iter = i as u64;
                d.text = format!(
                    "candidate {c:?} (number {i} of a stream), {}: {}, by the documented syntax it {}",
                    if ranges == 1 { "distance_and_ranges" } else { "distance" },
                    CODE_NAMES[x.code as usize],
                    if should { "matches" } else { "does not match" }
                );
                emit(&d);
                lib(|| drop(buf));
                return;
            }
            let scored = if unsafe { SCORES } && query.len() * c.len() <= crate::model::MOST {
                crate::model::scored(&spec, g, &c)
            } else {
                None
            };
            for (ranges, x) in got.iter().enumerate() {
                let (Some(x), Some((score, bytes))) = (x, &scored) else { continue };
                if x.code != SOME
                    || x.score == *score
                        && (ranges == 0 || crate::model::covers(&x.ranges, bytes))
                {
                    continue;
                }
                let mut d = base(at, o);
                d.k = E_DIFF;
                d.code = 3;
                d.spec = spec;
                d.query = p.text;
                d.ext = p.ext;
                d.iter = i as u64;
                d.text = format!(
                    "candidate {c:?} (number {i} of a stream): a match with score {} and ranges {:?}, by the scoring scheme it scores {score} by matching {:?}",
                    x.score,
                    x.ranges,
                    crate::model::ranges_of(bytes)
                );
                emit(&d);
                lib(|| drop(buf));
                return;
            }
        }
        for (ranges, x) in got.iter().enumerate() {
            let (Some(x), Some(y)) = (x, &want) else { continue };
            if x.code == FAILED {
                continue;
            }
            if x.code == y.code && x.code > SOME {
                // whatever it is, it is not about what came before
                lib(|| drop(buf));
                return;
            }
            if x.code != y.code || x.score != y.score || ranges == 1 && x.ranges != y.ranges {
                let mut d = base(at, o);
                d.k = E_DIFF;
                d.code = if x.code > SOME {
                    x.code
                } else if let [Some(a), Some(b)] = &got {
                    (a.code != b.code || a.score != b.score) as u8
                } else {
                    0
                };
                d.spec = spec;
                d.query = p.text;
                d.ext = p.ext;
                d.iter = i as u64;
                let show = |z: &Event| match z.code {
                    SOME => format!("a match with score {} and ranges {:?}", z.score, z.ranges),
                    NONE => "no match".into(),
                    _ => format!("a panic at {}", z.text),
                };
                let mut x = x.clone();
                if ranges == 0 && x.code == SOME {
                    x.ranges = if x.score == y.score { y.ranges.clone() } else { Vec::new() };
                }
                d.text = format!(
                    "candidate {c:?} (number {i} of a stream), {}: {}, from an instance made for it {}",
                    if ranges == 1 { "distance_and_ranges" } else { "distance" },
                    show(&x),
                    show(y)
                );
                emit(&d);
                lib(|| drop(buf));
                return;
            }
        }
        world().m[s0].seen = seen;
        let cap = buf.capacity();
        if unsafe { RETAIN } && cap > 64 + 4 * most.0 + 2 * most.1 {
            over(at, o, format!(
                "the buffer of the stream, which held at most {} ranges and was passed with candidates of at most {} bytes, now has room for {cap}",
                most.0, most.1
            ));
        }
        excess(at, o, Some(peak), cap as u64);
    }
    lib(|| drop(buf));
}

/// One parser given many different texts; each is compared with what a parser made for it makes
/// of it.
fn parse_stream(at: &At, o: &Op, e: &mut Event) {
    let w = world();
    let a = o.a;
    let slot = &mut w.p[a[0] as usize % SLOTS];
    let text = w.texts[(a[1] & 0xffff) as usize].clone();
    let (n, ext) = (a[3] & 0xff_ffff, a[2] != 0);
    slot.q = None;
    slot.text = NO_TEXT;
    let Some(parser) = &mut slot.p else { return };
    e.code = SOME;
    for i in 0..n {
        end_if_long();
        let s = vary(&text, a[1] >> 16, i);
        slot.seen.call(&s, "");
        let limit = limit_for(&s, "");
        let t = HeapText::new(&s);
        let r = call(o.fail(), limit, || unsafe { lib_::parse(parser, t.get(), ext) });
        let mut x = base(at, o);
        done(&mut x, &r);
        e.iter = i as u64;
        let peak = x.peak;
        let got = match r {
            Res::Ok(q) => {
                let d = call(FailSpec::default(), LIMIT, || lib_::query_debug(q));
                done(&mut x, &d);
                if let Res::Ok(s) = d {
                    x.text = s.as_str().to_string();
                    lib(|| drop(s));
                }
                x
            },
            Res::Failed => {
                drop(t);
                excess(at, o, None, 0);
                continue;
            },
            _ => x,
        };
        let r = call(FailSpec::default(), limit, || {
            let mut f = lib_::parser_new(0);
            let q = unsafe { lib_::parse(&mut f, t.get(), ext) };
            let s = lib_::query_debug(q);
            lib_::parser_drop(f);
            s
        });
        drop(t);
        let mut want = base(at, o);
        done(&mut want, &r);
        if let Res::Ok(s) = r {
            want.text = s.as_str().to_string();
            lib(|| drop(s));
        }
        if got.code == want.code && got.code > SOME {
            return;
        }
        if got.code != want.code || got.text != want.text {
            let mut d = base(at, o);
            d.k = E_DIFF;
            d.code = if got.code > SOME { got.code } else { 0 };
            d.iter = i as u64;
            d.ext = ext;
            d.text = format!(
                "query {s:?}{} (number {i} of a stream) parses as {}, with a parser made for it as {}",
                if ext { "" } else { " (not extended)" },
                got.text,
                want.text
            );
            emit(&d);
            return;
        }
        excess(at, o, Some(peak), 0);
    }
}

fn about(tid: u32, e: &Event) {
    unsafe {
        let h = H_CALL + tid as usize * 3;
        *header(h) = e.spec.pack();
        *header(h + 1) = e.query as u64 | (e.cand as u64) << 32;
        *header(h + 2) = e.ext as u64 | 2;
    }
}

fn answer(e: &mut Event, d: Option<Dist>) {
    match d {
        None => e.code = NONE,
        Some(d) => {
            e.code = SOME;
            unsafe {
                let (s, al, by) = (T.steps, T.allocs, T.bytes);
                e.score = lib(|| d.score());
                T.steps = s;
                T.allocs = al;
                T.bytes = by;
            }
        },
    }
}

fn note(e: &Event, d: Option<Dist>) {
    let w = world();
    if let Some(d) = d {
        if w.dists.len() < 4096 {
            w.dists.push((e.tid, e.spec.pack(), e.query, e.ext, e.cand, d));
        }
    }
}

fn drop_metric(s: usize) -> Res<()> {
    let m = world().m[s].m.take();
    call(FailSpec::default(), LIMIT, || {
        if let Some(m) = m {
            lib_::metric_drop(m)
        }
    })
}

fn drop_parser(s: usize) -> Res<()> {
    let slot = &mut world().p[s];
    slot.q = None;
    slot.text = NO_TEXT;
    let p = slot.p.take();
    call(FailSpec::default(), LIMIT, || {
        if let Some(p) = p {
            lib_::parser_drop(p)
        }
    })
}

fn drop_buf(s: usize) {
    let b = world().b[s].b.take();
    lib(|| drop(b));
}

/// Many calls on one instance. Only distinct outcomes per (candidate, method) are recorded.
fn burst(at: &At, o: &Op) {
    let w = world();
    let a = o.a;
    let (s0, s1) = (a[0] as usize % SLOTS, a[1] as usize % SLOTS);
    let (first, cnt) = (a[2] & 0xffff, a[2] >> 16);
    let (n, api) = (a[3] & 0xff_ffff, a[3] >> 24);
    let (m, p) = (&mut w.m[s0], &w.p[s1]);
    let (Some(metric), Some(q)) = (&mut m.m, p.q) else {
        emit(&base(at, o));
        return;
    };
    let mut seen: Vec<Vec<Event>> = vec![Vec::new(); cnt as usize * 2];
    let mut buf: Vec<Range<usize>> = lib(|| Vec::with_capacity(64));
    // The caller keeps the candidates of a burst in memory, like a list it goes through.
    let held: Vec<HeapText> =
        (0..cnt).map(|i| HeapText::new(&w.texts[(first + i) as usize])).collect();
    let mut last = base(at, o);
    let mut steps = 0;
    for i in 0..n {
        end_if_long();
        let ci = i % cnt;
        let ranges = api == 1 || api == 2 && (i / cnt) & 1 == 1;
        let c = held[ci as usize].get();
        {
            let mut e = base(at, o);
            e.spec = m.spec;
            e.query = p.text;
            e.ext = p.ext;
            e.cand = first + ci;
            about(at.tid, &e);
        }
        let limit = limit_for(&w.texts[p.text as usize], c);
        m.seen.call(&w.texts[p.text as usize], c);
        buf.clear();
        let r = if ranges {
            call(o.fail(), limit, || lib_::distance_and_ranges(metric, q, c, &mut buf))
        } else {
            call(o.fail(), limit, || lib_::distance(metric, q, c))
        };
        let mut e = base(at, o);
        e.spec = m.spec;
        e.query = p.text;
        e.ext = p.ext;
        e.cand = first + ci;
        e.iter = i as u64;
        if ranges {
            e.flags |= F_RANGES;
        }
        done(&mut e, &r);
        if let Res::Ok(d) = r {
            answer(&mut e, d);
            if i < 2 * cnt {
                note(&e, d);
            }
        }
        if ranges {
            e.ranges = to_u64(&buf);
        }
        steps += e.steps;
        let list = &mut seen[ci as usize * 2 + ranges as usize];
        if list.len() < 4
            && !list.iter().any(|x| {
                x.code == e.code && x.score == e.score && x.ranges == e.ranges
            })
        {
            list.push(e.clone());
        }
        last = e;
    }
    drop(held);
    lib(|| drop(buf));
    for mut e in seen.into_iter().flatten() {
        e.live = unsafe { G.live };
        emit(&e);
    }
    let _ = (steps, last);
}

/// Checks that the distances obtained so far for each (query, settings) form one total order that
/// agrees with their scores, and that sorting and merging give it.
fn compare(e: &mut Event) {
    let w = world();
    e.code = SOME;
    let mut groups: std::collections::BTreeMap<(u64, u32, bool), Vec<(u32, u32, Dist)>> =
        Default::default();
    for (t, s, q, x, c, d) in &w.dists {
        groups.entry((*s, *q, *x)).or_default().push((*t, *c, *d));
    }
    let mut complaint = String::new();
    for ((_, q, _), items) in groups {
        let r = call(FailSpec::default(), 500_000_000, || check_group(&items));
        match r {
            Res::Ok(None) => {},
            Res::Ok(Some(s)) => complaint = format!("query text {q}: {s}"),
            Res::Panic => complaint = format!("comparison panicked at {}", panic_at()),
            Res::Failed => {},
        }
        if !complaint.is_empty() {
            break;
        }
    }
    counters(e);
    if !complaint.is_empty() {
        let mut d = e.clone();
        d.k = E_DISORDER;
        d.text = complaint;
        emit(&d);
    }
}

fn check_group(items: &[(u32, u32, Dist)]) -> Option<String> {
    let scores: Vec<i64> = items.iter().map(|i| i.2.score()).collect();
    // all pairs of a sample that has the extremes in it
    let mut pick: Vec<usize> = (0..items.len()).collect();
    pick.sort_by_key(|&i| scores[i]);
    pick.dedup_by_key(|i| (scores[*i], items[*i].0));
    if pick.len() > 24 {
        let n = pick.len();
        pick = (0..24).map(|k| pick[k * (n - 1) / 23]).collect();
        pick.dedup();
    }
    for &i in &pick {
        for &j in &pick {
            let c = items[i].2.compare(items[j].2);
            let want = scores[j].cmp(&scores[i]) as i8;
            let ok = c.cmp == want
                && c.partial == want
                && c.lt == (want < 0)
                && c.le == (want <= 0)
                && c.gt == (want > 0)
                && c.ge == (want >= 0)
                && c.eq == (want == 0)
                && c.ne == (want != 0)
                && c.max_is == (want <= 0)
                && c.min_is == (want <= 0)
                && c.clamped;
            if !ok {
                return Some(format!(
                    "the distances with scores {} and {} compare as {c:?}",
                    scores[i], scores[j]
                ));
            }
        }
    }
    let want = {
        let mut s = scores.clone();
        s.sort_by(|a, b| b.cmp(a));
        s
    };
    let all: Vec<(usize, Dist)> = items.iter().enumerate().map(|(i, x)| (i, x.2)).collect();
    let mut a = all.clone();
    lib_::sort_by_distance(&mut a);
    let mut b = all.clone();
    lib_::sort_unstable_by_distance(&mut b);
    let mut shards: Vec<Vec<(usize, Dist)>> = Vec::new();
    for t in 0..4u32 {
        let mut s: Vec<(usize, Dist)> =
            all.iter().copied().filter(|x| items[x.0].0 == t).collect();
        lib_::sort_by_distance(&mut s);
        shards.push(s);
    }
    let c = shards.into_iter().fold(Vec::new(), |m, s| lib_::merge_by_distance(&m, &s));
    for (name, list) in [("sorting", a), ("unstable sorting", b), ("merging sorted parts", c)] {
        let got: Vec<i64> = list.iter().map(|x| scores[x.0]).collect();
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
            return Some(format!(
                "{name} by distance puts a score of {:?} at rank {at}, where {:?} belongs",
                got.get(at),
                want.get(at)
            ));
        }
    }
    None
}

// ---------------------------------------------------------------- processes

fn on_bad(b: seams::Bad) {
    let mut e = Event { k: E_BAD, query: NO_TEXT, cand: NO_TEXT, ..Default::default() };
    unsafe {
        e.tid = T.tid;
        let op = *header(H_OP + T.tid as usize % 4);
        e.idx = (op >> 32) as u32;
        e.phase = (op >> 16) as u16 as u32;
        e.rep = op as u16 as u32;
        e.code = b.what;
        e.iter = b.state as u64;
        e.bytes = b.size as u64;
    }
    emit(&e);
}

fn setup_heap(h: &Personality, entropy: u64) {
    unsafe {
        G.move_always = h.move_always;
        G.fill = h.fill;
        G.reuse = h.reuse;
        G.slop = h.slop;
        G.rng = entropy;
        G.on_bad = Some(on_bad);
        G.hash = 0;
        G.total_steps = 0;
    }
}

/// The body of a run's process.
pub fn run_plan(p: &Plan) -> i32 {
    setup_heap(&p.heap, p.entropy);
    let texts = p.texts.iter().map(|t| t.render()).collect();
    unsafe {
        *WORLD.0.get() = Some(World {
            m: (0..SLOTS).map(|_| MSlot { m: None, spec: Spec::default(), seen: Seen::default() }).collect(),
            p: (0..SLOTS)
                .map(|_| PSlot { p: None, q: None, text: NO_TEXT, ext: false, seen: Seen::default() })
                .collect(),
            b: (0..SLOTS).map(|_| BSlot { b: None, most: 0, cand: 0, made: 0 }).collect(),
            texts,
            dists: Vec::new(),
        });
    }
    unsafe {
        RETAIN = p.prop == "C15" && p.threads == 1;
        SCORES = p.prop == "C17";
        if p.prop == "C16" || p.prop == "C17" {
            MODEL = p;
        }
    }
    unsafe { G.shared_weight = if p.threads > 1 { p.shared as i64 } else { 0 } };
    sched::start(p.threads, &p.sched, p.tail);
    let mut handles = Vec::new();
    let nph = p.phases.len();
    for t in 0..p.threads {
        let last = (0..nph).rev().find(|&i| !p.phases[i][t].is_empty()).unwrap_or(0);
        let plan: &'static Plan = unsafe { &*(p as *const Plan) };
        let body = move || {
            sched::enter(t);
            for rep in 0..plan.reps {
                for (pi, ph) in plan.phases.iter().enumerate() {
                    for (oi, o) in ph[t].iter().enumerate() {
                        sched::between_ops();
                        end_if_long();
                        unsafe {
                            *header(H_TID) = t as u64;
                            *header(H_OP + t) =
                                rep as u16 as u64 | (pi as u64) << 16 | (oi as u64) << 32;
                            *header(H_CALL + t * 3 + 2) = 0;
                        }
                        exec(
                            &At { tid: t as u32, rep, phase: pi as u32, idx: oi as u32 },
                            o,
                        );
                    }
                    let exits = rep + 1 == plan.reps && pi == last;
                    sched::phase_end(t, exits, &mut |_| {
                        if pi + 1 == nph {
                            let mut e = Event {
                                k: E_MARK,
                                rep,
                                query: NO_TEXT,
                                cand: NO_TEXT,
                                code: SOME,
                                ..Default::default()
                            };
                            unsafe {
                                e.live = G.live;
                                e.bytes = G.live_blocks;
                            }
                            emit(&e);
                        }
                    });
                    if exits {
                        return;
                    }
                }
            }
        };
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                if catch_unwind(AssertUnwindSafe(body)).is_err() {
                    unsafe {
                        *header(H_HARNESS) = 1;
                        crate::sys::_exit(80)
                    }
                }
            })
            .expect("cannot start a thread");
        handles.push(Some(h));
    }
    if p.phases.is_empty() {
        return 0;
    }
    sched::give(0);
    sched::supervise(handles);
    unsafe {
        T.tid = 0;
        finish_header();
        *header(H_DONE) = 1;
    }
    0
}

/// Ends a run that has taken very many steps between two calls.
fn end_if_long() {
    unsafe {
        if G.total_steps > 400_000_000 {
            finish_header();
            *header(H_CUT) = 1;
            *header(H_DONE) = 1;
            crate::sys::_exit(0);
        }
    }
}

pub unsafe fn finish_header() {
    *header(H_STEPS) = G.total_steps;
    *header(H_HASH) = G.hash;
    *header(H_SWITCHES) = sched::switches();
    *header(H_REUSED) = G.reused;
    *header(H_MOVED) = G.moved;
    *header(H_ACCESSES) = G.accesses;
    *header(H_SHARED) = G.shared;
    *header(H_FUTEX) = G.futex_waits;
    *header(H_CLOCK) = G.clock_reads;
}

/// A question for the reference: a process in which nothing else has ever happened.
#[derive(Clone, Debug)]
pub enum Req {
    Call { spec: Spec, query: String, ext: bool, cand: String, ranges: bool },
    QueryDebug { query: String, ext: bool },
    MetricDebug { spec: Spec, alt: bool },
    /// For each pair of a query and a candidate character: are they equal?
    CharEq { case: u8, norm: bool, q: Vec<char>, c: Vec<char> },
}

/// The body of a reference process.
pub fn run_req(r: &Req) -> i32 {
    setup_heap(&Personality { move_always: false, fill: 0, reuse: 0, slop: false }, 1);
    let f = FailSpec::default();
    let mut e = Event { k: K::Dist as u8, query: NO_TEXT, cand: NO_TEXT, ..Default::default() };
    let fresh = |spec: &Spec| {
        let mut m = lib_::metric_new(spec.kind, 0);
        lib_::set_case(&mut m, spec.case);
        lib_::set_norm(&mut m, spec.norm);
        lib_::set_scheme(&mut m, spec.scheme);
        m
    };
    match r {
        Req::Call { spec, query, ext, cand, ranges } => {
            let (qt, ct) = (HeapText::new(query), HeapText::new(cand));
            let (qs, cs) = (qt.get(), ct.get());
            let mut buf = Vec::new();
            let res = call(f, limit_for(query, cand), || {
                let mut m = fresh(spec);
                let mut p = lib_::parser_new(0);
                let q = unsafe { lib_::parse(&mut p, qs, *ext) };
                if *ranges {
                    lib_::distance_and_ranges(&mut m, q, cs, &mut buf)
                } else {
                    lib_::distance(&mut m, q, cs)
                }
            });
            done(&mut e, &res);
            if let Res::Ok(d) = res {
                answer(&mut e, d);
            }
            e.ranges = to_u64(&buf);
            emit(&e);
        },
        Req::QueryDebug { query, ext } => {
            let qt = HeapText::new(query);
            let qs = qt.get();
            let res = call(f, limit_for(query, ""), || {
                let mut p = lib_::parser_new(0);
                let q = unsafe { lib_::parse(&mut p, qs, *ext) };
                lib_::query_debug(q)
            });
            done(&mut e, &res);
            if let Res::Ok(s) = res {
                e.text = s;
            }
            emit(&e);
        },
        Req::MetricDebug { spec, alt } => {
            let res = call(f, LIMIT, || lib_::metric_debug(&fresh(spec), *alt));
            done(&mut e, &res);
            if let Res::Ok(s) = res {
                e.text = s;
            }
            emit(&e);
        },
        Req::CharEq { case, norm, q, c } => {
            let spec = Spec { kind: 1, case: *case, norm: *norm, scheme: 0 };
            for &qc in q {
                let qs = qc.to_string();
                for &cc in c {
                    let cs = cc.to_string();
                    let res = call(f, LIMIT, || {
                        let mut m = fresh(&spec);
                        let mut p = lib_::parser_new(0);
                        let q = unsafe { lib_::parse(&mut p, &qs, false) };
                        lib_::distance(&mut m, q, &cs).is_some()
                    });
                    if matches!(res, Res::Ok(true)) {
                        e.ranges.push((qc as u64, cc as u64));
                    }
                }
            }
            e.code = SOME;
            emit(&e);
        },
    }
    unsafe {
        *header(H_DONE) = 1;
    }
    0
}
