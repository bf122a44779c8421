//! The seams: everything through which the library meets the outside world, or the outside world
//! could make one execution differ from another, passes through here.
//!
//! * basic blocks of the library (compiler callbacks): step counter, coverage, scheduling points;
//! * loads, stores and block copies of the library: checked against the simulated heap;
//! * the allocator: a simulated heap with personalities and injected failures;
//! * futexes, `sched_yield`, sleeping, the clock and random bytes: simulated while in the library.

use std::alloc::{GlobalAlloc, Layout, System};

use crate::sched;
use crate::sys::*;

/// Exit codes of a run's process.
pub const EXIT_HANG: i32 = 77;
pub const EXIT_DEADLOCK: i32 = 78;
pub const EXIT_ARENA_FULL: i32 = 79;
/// The library holds, or asks for, more than `HUGE` bytes.
pub const EXIT_HUGE: i32 = 81;
pub const HUGE: usize = 512 << 20;

pub const ARENA: usize = 1 << 44;
pub const ARENA_LEN: usize = 2 << 30;
const SHADOW: usize = (1 << 44) + (1 << 40);
/// Which thread last touched each eight bytes of the heap.
const LAST: usize = (1 << 44) + (2 << 40);

const HDR: usize = 32;
const MAGIC_LIVE: u32 = 0x4c49_5645;
const MAGIC_FREE: u32 = 0x4652_4545;

/// Shadow values.
const S_LIVE: u8 = 1;
const S_FREED: u8 = 2;
const S_RED: u8 = 3;

#[derive(Clone, Copy, Default)]
pub struct FailSpec {
    /// 0 none, 1 only the n-th allocation, 2 every allocation from the n-th, 3 every allocation of
    /// at least n bytes, 4 every allocation that would take the live bytes above n.
    pub mode: u8,
    pub n: u64,
}

pub struct Tls {
    pub in_lib: bool,
    /// Set once a failure has been injected in the current operation and is unwinding.
    pub unwinding: bool,
    pub tid: u32,
    pub steps: u64,
    pub limit: u64,
    pub fail: FailSpec,
    pub allocs: u64,
    pub bytes: u64,
    pub fails: u64,
}

#[thread_local]
pub static mut T: Tls = Tls {
    in_lib: false,
    unwinding: false,
    tid: 0,
    steps: 0,
    limit: u64::MAX,
    fail: FailSpec { mode: 0, n: 0 },
    allocs: 0,
    bytes: 0,
    fails: 0,
};

/// State of the whole simulated process. Only the thread that holds the baton touches it.
pub struct Global {
    pub hash: u64,
    pub budget: i64,
    pub total_steps: u64,
    pub cov: *mut u8,
    pub nguards: u32,
    pub clock_ns: u64,
    pub rng: u64,
    // the heap
    pub bump: usize,
    pub free: [u64; 4097],
    pub live: u64,
    pub live_blocks: u64,
    /// The most that was live since the running call began.
    pub peak: u64,
    pub move_always: bool,
    pub fill: u8,
    pub reuse: u8,
    pub slop: bool,
    pub on_bad: Option<fn(Bad)>,
    pub bad_count: u32,
    pub reused: u64,
    pub moved: u64,
    pub accesses: u64,
    /// Where the variables of the program are, and how many bytes.
    pub statics: (usize, usize),
    pub shared: u64,
    pub shared_weight: i64,
    pub clock_reads: u64,
    pub futex_waits: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Bad {
    /// 1 read, 2 write, 3 free, 4 realloc
    pub what: u8,
    /// 0 never allocated, 2 freed, 3 outside the block, 4 layout mismatch
    pub state: u8,
    pub size: u32,
}

pub static mut G: Global = Global {
    hash: 0,
    budget: i64::MAX,
    total_steps: 0,
    cov: core::ptr::null_mut(),
    nguards: 0,
    clock_ns: 1_000_000_000,
    rng: 1,
    bump: ARENA,
    free: [0; 4097],
    live: 0,
    live_blocks: 0,
    peak: 0,
    move_always: true,
    fill: 0,
    reuse: 0,
    slop: false,
    on_bad: None,
    bad_count: 0,
    reused: 0,
    moved: 0,
    accesses: 0,
    statics: (0, 0),
    shared: 0,
    shared_weight: 0,
    clock_reads: 0,
    futex_waits: 0,
};

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

pub fn map_arena() {
    unsafe {
        let start = &raw const __data_start as usize;
        G.statics = (start, &raw const _end as usize - start);
        let fl = MAP_PRIVATE | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
        mmap(ARENA, ARENA_LEN, fl);
        mmap(SHADOW, ARENA_LEN, fl);
        mmap(LAST, ARENA_LEN >> 3, fl);
    }
}

/// Runs `f` as library code.
#[inline(always)]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        T.in_lib = true;
        let r = f();
        T.in_lib = false;
        r
    }
}

#[inline(always)]
pub unsafe fn rnd() -> u64 {
    G.rng = G.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = G.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

// ---------------------------------------------------------------- compiler callbacks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        G.nguards += 1;
        *a = G.nguards;
        a = a.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !T.in_lib {
        return;
    }
    let id = *g;
    T.steps += 1;
    G.total_steps += 1;
    G.hash = (G.hash ^ (id as u64 | (T.tid as u64) << 40)).wrapping_mul(0x2545_f491_4f6c_dd1d);
    G.hash ^= G.hash >> 29;
    if !G.cov.is_null() {
        *G.cov.add(id as usize & 0xffff) = 1;
    }
    if T.steps >= T.limit {
        T.in_lib = false;
        raw_exit(EXIT_HANG);
    }
    G.budget -= 1;
    if G.budget <= 0 {
        sched::preempt();
    }
}

unsafe fn raw_exit(code: i32) -> ! {
    raw(231, code as u64, 0, 0, 0, 0, 0);
    loop {}
}

#[inline(always)]
unsafe fn check(p: usize, n: usize, what: u8) {
    if p.wrapping_sub(ARENA) >= ARENA_LEN {
        if p.wrapping_sub(G.statics.0) < G.statics.1 {
            shared();
        }
        return;
    }
    if !T.in_lib {
        return;
    }
    check_slow(p, n, what)
}

/// The library is about to read or write a variable that all threads share (on the unchanged tree
/// it has none of its own), or part of a heap block that another thread touched last: a switch is
/// more likely here, by as much as the plan says.
#[inline(never)]
unsafe fn shared() {
    if !T.in_lib {
        return;
    }
    G.shared += 1;
    G.budget -= G.shared_weight;
    if G.budget <= 0 {
        sched::preempt();
    }
}

#[inline(never)]
unsafe fn check_slow(p: usize, n: usize, what: u8) {
    G.accesses += 1;
    if G.shared_weight != 0 {
        let last = (((p - ARENA) >> 3) + LAST) as *mut u8;
        let me = T.tid as u8 + 1;
        if *last != me {
            if *last != 0 {
                shared();
            }
            *last = me;
        }
    }
    let s = (p - ARENA + SHADOW) as *const u8;
    let mut i = 0;
    while i + 8 <= n {
        if (s.add(i) as *const u64).read_unaligned() != 0x0101_0101_0101_0101 {
            break;
        }
        i += 8;
    }
    while i < n {
        let v = *s.add(i);
        if v != S_LIVE {
            bad(Bad { what, state: v, size: n.min(u32::MAX as usize) as u32 });
            return;
        }
        i += 1;
    }
}

#[cold]
unsafe fn bad(b: Bad) {
    G.bad_count += 1;
    if G.bad_count > 8 {
        return;
    }
    if let Some(f) = G.on_bad {
        let was = T.in_lib;
        T.in_lib = false;
        f(b);
        T.in_lib = was;
    }
}

macro_rules! access {
    ($($f:ident $n:literal $w:literal)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f(p: usize) { check(p, $n, $w) }
    )*};
}
access! {
    __sanitizer_cov_load1 1 1   __sanitizer_cov_load2 2 1   __sanitizer_cov_load4 4 1
    __sanitizer_cov_load8 8 1   __sanitizer_cov_load16 16 1
    __sanitizer_cov_store1 1 2  __sanitizer_cov_store2 2 2  __sanitizer_cov_store4 4 2
    __sanitizer_cov_store8 8 2  __sanitizer_cov_store16 16 2
}

// Block operations (linked with --wrap).
extern "C" {
    fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
    fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    fn __real_bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if T.in_lib && n > 0 {
        T.steps += n as u64 >> 4;
        check(s as usize, n, 1);
        check(d as usize, n, 2);
    }
    __real_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if T.in_lib && n > 0 {
        T.steps += n as u64 >> 4;
        check(s as usize, n, 1);
        check(d as usize, n, 2);
    }
    __real_memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if T.in_lib && n > 0 {
        T.steps += n as u64 >> 4;
        check(d as usize, n, 2);
    }
    __real_memset(d, c, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    if T.in_lib && n > 0 {
        T.steps += n as u64 >> 4;
        check(a as usize, n, 1);
        check(b as usize, n, 1);
    }
    __real_memcmp(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    if T.in_lib && n > 0 {
        T.steps += n as u64 >> 4;
        check(a as usize, n, 1);
        check(b as usize, n, 1);
    }
    __real_bcmp(a, b, n)
}

// ---------------------------------------------------------------- the heap

pub struct Alloc;

#[global_allocator]
static ALLOC: Alloc = Alloc;

#[inline(always)]
fn in_arena(p: *const u8) -> bool {
    (p as usize).wrapping_sub(ARENA) < ARENA_LEN
}

#[inline(always)]
unsafe fn shadow(p: usize, n: usize, v: u8) {
    __real_memset((p - ARENA + SHADOW) as *mut u8, v as i32, n);
}

#[inline(always)]
fn span_of(size: usize, align: usize) -> usize {
    // header, worst-case alignment slack, the block, a redzone of 16 to 31 bytes
    let slack = if align > 16 { align } else { 0 };
    HDR + slack + ((size + 15) & !15) + 16
}

unsafe fn hdr(p: usize) -> *mut u64 {
    (p - HDR) as *mut u64
}

unsafe fn set_hdr(p: usize, magic: u32, align: usize, size: usize, base: usize) {
    let h = hdr(p);
    *h = magic as u64 | (align as u64) << 32;
    *h.add(1) = size as u64;
    *h.add(2) = base as u64;
}

unsafe fn fails(size: u64, growth: u64) -> bool {
    T.allocs += 1;
    T.bytes += size;
    if T.unwinding {
        return false;
    }
    let f = match T.fail.mode {
        0 => false,
        1 => T.allocs == T.fail.n,
        2 => T.allocs >= T.fail.n,
        3 => size >= T.fail.n,
        _ => G.live + growth > T.fail.n,
    };
    if f && std::thread::panicking() {
        // not while the library's own panic is being built up or unwinds
        return false;
    }
    if f {
        T.fails += 1;
    }
    f
}

pub unsafe fn arena_alloc(size: usize, align: usize, zeroed: bool) -> *mut u8 {
    if G.live as usize + size > HUGE {
        raw_exit(EXIT_HUGE);
    }
    let span = span_of(size, align);
    let class = span / 16;
    let mut base = 0usize;
    if class <= 4096 && G.reuse > 0 && G.free[class] != 0 && (rnd() % 100) < G.reuse as u64 {
        base = G.free[class] as usize;
        G.free[class] = *((base + 8) as *const u64);
        G.reused += 1;
    }
    let fresh = base == 0;
    if fresh {
        let slop = if G.slop { ((rnd() % 8) * 16) as usize } else { 0 };
        base = G.bump + slop;
        if base + span + 64 > ARENA + ARENA_LEN {
            raw_exit(EXIT_ARENA_FULL);
        }
        G.bump = base + span;
    }
    let mut p = base + HDR;
    if align > 16 {
        p = (p + align - 1) & !(align - 1);
    }
    shadow(base, span, S_RED);
    shadow(p, size, S_LIVE);
    set_hdr(p, MAGIC_LIVE, align, size, base);
    G.live += size as u64;
    G.live_blocks += 1;
    G.peak = G.peak.max(G.live);
    let q = p as *mut u8;
    if zeroed {
        if !fresh {
            __real_memset(q, 0, size);
        }
    } else {
        fill(q, size, fresh);
    }
    q
}

unsafe fn fill(q: *mut u8, size: usize, fresh: bool) {
    match G.fill {
        0 => {
            if !fresh {
                __real_memset(q, 0, size);
            }
        },
        1 => {
            __real_memset(q, 0xa5, size);
        },
        2 => {
            __real_memset(q, 0xff, size);
        },
        3 => {
            let mut i = 0;
            while i + 8 <= size {
                (q.add(i) as *mut u64).write_unaligned(rnd());
                i += 8;
            }
            while i < size {
                *q.add(i) = rnd() as u8;
                i += 1;
            }
        },
        // whatever a previous owner left there
        _ => {
            if fresh {
                __real_memset(q, 1, size);
            }
        },
    }
}

unsafe fn arena_free(q: *mut u8, size: usize, align: usize, what: u8) -> bool {
    let p = q as usize;
    let h = hdr(p);
    let magic = *h as u32;
    if magic != MAGIC_LIVE || *((p - ARENA + SHADOW) as *const u8) == S_FREED {
        bad(Bad { what, state: if magic == MAGIC_FREE { 2 } else { 0 }, size: size as u32 });
        return false;
    }
    let (rsize, ralign, base) = (*h.add(1) as usize, (*h >> 32) as usize, *h.add(2) as usize);
    if rsize != size || ralign != align {
        bad(Bad { what, state: 4, size: size as u32 });
    }
    G.live -= rsize as u64;
    G.live_blocks -= 1;
    if G.fill != 4 {
        __real_memset(q, 0xdb, rsize);
    }
    shadow(p, rsize, S_FREED);
    *h = MAGIC_FREE as u64;
    let class = span_of(rsize, ralign) / 16;
    if class <= 4096 && ralign <= 16 {
        *((base + 8) as *mut u64) = G.free[class];
        G.free[class] = base as u64;
    }
    true
}

unsafe impl GlobalAlloc for Alloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if T.in_lib {
            if fails(l.size() as u64, l.size() as u64) {
                return core::ptr::null_mut();
            }
            arena_alloc(l.size(), l.align(), false)
        } else {
            System.alloc(l)
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if T.in_lib {
            if fails(l.size() as u64, l.size() as u64) {
                return core::ptr::null_mut();
            }
            arena_alloc(l.size(), l.align(), true)
        } else {
            System.alloc_zeroed(l)
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            arena_free(p, l.size(), l.align(), 3);
        } else {
            System.dealloc(p, l)
        }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !in_arena(p) {
            if T.in_lib {
                // a block made outside the library moves into the simulated heap
                if fails(new as u64, new as u64) {
                    return core::ptr::null_mut();
                }
                let q = arena_alloc(new, l.align(), false);
                __real_memcpy(q, p, l.size().min(new));
                System.dealloc(p, l);
                return q;
            }
            return System.realloc(p, l, new);
        }
        if T.in_lib && new > l.size() && fails(new as u64, (new - l.size()) as u64) {
            return core::ptr::null_mut();
        }
        let h = hdr(p as usize);
        let fits = span_of(new, l.align()) <= span_of(l.size(), l.align());
        let last = p as usize - HDR + span_of(l.size(), l.align()) == G.bump && l.align() <= 16;
        if !G.move_always
            && *h as u32 == MAGIC_LIVE
            && *h.add(1) as usize == l.size()
            && (fits || last)
            && (p as usize + new + 4096) < ARENA + ARENA_LEN
        {
            // in place; the block keeps its span class by keeping the span recorded in its size
            if last {
                let base = p as usize - HDR;
                if G.live as usize + new > HUGE {
                    raw_exit(EXIT_HUGE);
                }
                G.bump = base + span_of(new, l.align());
                shadow(base, span_of(new, l.align()), S_RED);
            } else if span_of(new, l.align()) != span_of(l.size(), l.align()) {
                // shrinking into a smaller class would confuse the free lists: move instead
                return self.move_block(p, l, new);
            }
            shadow(p as usize, l.size().max(new), S_RED);
            shadow(p as usize, new, S_LIVE);
            if new > l.size() {
                fill(p.add(l.size()), new - l.size(), false);
            }
            G.live = G.live + new as u64 - l.size() as u64;
            G.peak = G.peak.max(G.live);
            *h.add(1) = new as u64;
            return p;
        }
        self.move_block(p, l, new)
    }
}

impl Alloc {
    unsafe fn move_block(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        G.moved += 1;
        T.steps += l.size().min(new) as u64 >> 4;
        let q = arena_alloc(new, l.align(), false);
        __real_memcpy(q, p, l.size().min(new));
        arena_free(p, l.size(), l.align(), 4);
        q
    }
}

/// A caller-owned copy of `s` in the simulated heap: exactly sized, at a varying alignment.
pub struct Text {
    block: *mut u8,
    total: usize,
    pad: usize,
    len: usize,
}

impl Text {
    pub fn new(s: &str) -> Self {
        unsafe {
            let pad = if G.slop { (rnd() % 16) as usize } else { 0 };
            let total = pad + s.len();
            if total == 0 {
                return Self { block: core::ptr::null_mut(), total, pad, len: 0 };
            }
            let block = arena_alloc(total, 1, false);
            if pad > 0 {
                shadow(block as usize, pad, S_RED);
            }
            __real_memcpy(block.add(pad), s.as_ptr(), s.len());
            Self { block, total, pad, len: s.len() }
        }
    }

    pub fn get(&self) -> &'static str {
        unsafe {
            if self.block.is_null() {
                return "";
            }
            let b = std::slice::from_raw_parts(self.block.add(self.pad), self.len);
            std::str::from_utf8_unchecked(b)
        }
    }
}

impl Drop for Text {
    fn drop(&mut self) {
        unsafe {
            if !self.block.is_null() {
                if self.pad > 0 {
                    shadow(self.block as usize, self.pad, S_LIVE);
                }
                arena_free(self.block, self.total, 1, 3);
            }
        }
    }
}

/// The payload of an injected allocation failure.
pub struct AllocFailed;

pub fn on_alloc_error(_l: Layout) {
    unsafe {
        let was = T.in_lib;
        T.in_lib = false;
        T.unwinding = true;
        let b: Box<dyn std::any::Any + Send> = Box::new(AllocFailed);
        T.in_lib = was;
        std::panic::resume_unwind(b)
    }
}

// ---------------------------------------------------------------- system interfaces

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    if T.in_lib && n == SYS_FUTEX {
        match b & 127 {
            0 | 9 => {
                if *(a as *const u32) != c as u32 {
                    *__errno_location() = 11;
                    return -1;
                }
                G.futex_waits += 1;
                sched::blocked();
                return 0;
            },
            1 | 10 => {
                sched::progress();
                return 0;
            },
            _ => {},
        }
    }
    if T.in_lib && n == 318 {
        return getrandom(a as *mut u8, b as usize, 0) as i64;
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    // Deterministic for every thread of a simulated process, whatever asks.
    let _ = flags;
    for i in 0..n {
        *p.add(i) = rnd() as u8;
    }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if T.in_lib {
        sched::blocked();
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if T.in_lib {
        // simulated time: a millisecond per reading plus the steps executed
        G.clock_reads += 1;
        G.clock_ns += 1_000_000;
        let t = G.clock_ns + G.total_steps;
        (*ts)[0] = (t / 1_000_000_000) as i64;
        (*ts)[1] = (t % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw(228, id as u64, ts as u64, 0, 0, 0, 0);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if T.in_lib {
        G.clock_ns += ((*req)[0] as u64) * 1_000_000_000 + (*req)[1] as u64;
        sched::blocked();
        return 0;
    }
    let r = raw(35, req as u64, rem as u64, 0, 0, 0, 0);
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: i32,
    flags: i32,
    req: *const [i64; 2],
    rem: *mut [i64; 2],
) -> i32 {
    if T.in_lib {
        return nanosleep(req, rem);
    }
    -(raw(230, id as u64, flags as u64, req as u64, rem as u64, 0, 0) as i32)
}
