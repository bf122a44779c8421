#![feature(alloc_error_hook, thread_local)]
#![allow(static_mut_refs)]

//! Deterministic simulation of nomad/norm. See /verif/DESIGN.md.

mod exec;
mod gen;
mod harness;
mod json;
mod judge;
mod minimize;
mod model;
mod plan;
mod report;
mod sched;
mod seams;
mod sys;

use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

use exec::*;
use harness::Harness;
use json::J;
use judge::{Judge, Violation};
use plan::Plan;

const USAGE: &str = "usage: normsim check PROPERTY quick|thorough SEED [--out EVIDENCE] [--replays DIR] [--known FILE]
       normsim replay FILE
       normsim show PROPERTY SEED RUN
       normsim trace PROPERTY SEED FIRST COUNT";

pub const PROPS: [&str; 17] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16", "C17",
];

fn no_aslr() {
    unsafe {
        let cur = sys::personality(0xffff_ffff);
        if cur >= 0 && cur & 0x4_0000 == 0 && std::env::var_os("NORMSIM_REEXEC").is_none() {
            if sys::personality(cur as u64 | 0x4_0000) >= 0 {
                use std::os::unix::process::CommandExt;
                if let Ok(exe) = std::env::current_exe() {
                    let _ = std::process::Command::new(exe)
                        .args(std::env::args_os().skip(1))
                        .env("NORMSIM_REEXEC", "1")
                        .exec();
                }
            }
        }
    }
}

fn fail(msg: &str) -> ! {
    eprintln!("normsim: {msg}");
    std::process::exit(2)
}

fn num(s: &str) -> u64 {
    s.parse::<u64>().unwrap_or_else(|_| fail(USAGE))
}

fn main() {
    no_aslr();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    seams::map_arena();
    exec::install_hooks();

    match a.as_slice() {
        ["check", prop, tier, seed, rest @ ..] if PROPS.contains(prop) => {
            let mut o = Opts {
                prop: prop.to_string(),
                tier: tier.to_string(),
                seed: num(seed),
                out: None,
                replays: "/verif/replays".into(),
                known: None,
                runs: None,
                seconds: None,
                workers: None,
            };
            for p in rest.chunks(2) {
                let [k, v] = p else { fail(USAGE) };
                match *k {
                    "--out" => o.out = Some(v.to_string()),
                    "--replays" => o.replays = v.to_string(),
                    "--known" => o.known = Some(v.to_string()),
                    "--runs" => o.runs = Some(num(v)),
                    "--seconds" => o.seconds = Some(num(v)),
                    "--workers" => o.workers = Some(num(v) as usize),
                    _ => fail(USAGE),
                }
            }
            std::process::exit(check(&o));
        },
        ["replay", file] => std::process::exit(replay(file)),
        ["show", prop, seed, index] => {
            print!("{}", gen::plan(prop, num(seed), num(index)).to_json().pretty());
        },
        ["trace", prop, seed, first, count] => {
            let mut h = Harness::new(core::ptr::null_mut());
            for i in num(first)..num(first) + num(count) {
                let p = gen::plan(prop, num(seed), i);
                let r = h.run(&p);
                let mut sum = 0u64;
                for e in &r.events {
                    let s = format!("{e:?}");
                    for b in s.bytes() {
                        sum = (sum ^ b as u64).wrapping_mul(0x100_0000_01b3);
                    }
                }
                println!(
                    "{i} {:016x} {:016x} {} {} {:?}",
                    r.header[H_HASH],
                    sum,
                    r.header[H_STEPS],
                    r.events.len(),
                    r.ended
                );
            }
        },
        _ => fail(USAGE),
    }
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub out: Option<String>,
    pub replays: String,
    pub known: Option<String>,
    pub runs: Option<u64>,
    pub seconds: Option<u64>,
    pub workers: Option<usize>,
}

// ---------------------------------------------------------------- replay

fn replay_json(p: &Plan, v: &Violation, hash: u64, how: &str) -> J {
    let J::Obj(mut o) = p.to_json() else { unreachable!() };
    o.insert(
        1,
        (
            "violation".into(),
            J::Obj(vec![
                ("class".into(), J::s(v.class)),
                ("what".into(), J::s(&v.what)),
                ("trace_hash".into(), J::s(format!("{hash:016x}"))),
                ("note".into(), J::s(how)),
            ]),
        ),
    );
    J::Obj(o)
}

fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| fail(&format!("{file}: {e}")));
    let j = json::parse(&text).unwrap_or_else(|e| fail(&format!("{file}: {e}")));
    let prop = j.get("property").str().to_string();
    if !j.get("static").is_null() {
        let bad = norm_shim::thread_safety();
        if bad.is_empty() {
            println!("REPLAY property={prop} no violation");
            return 0;
        }
        println!("REPLAY property={prop} violation: {}", bad.join(", "));
        return 1;
    }
    let p = Plan::from_json(&j).unwrap_or_else(|e| fail(&format!("{file}: {e}")));
    let mut h = Harness::new(core::ptr::null_mut());
    let (v, hash) = minimize::check(&mut h, &p);
    let want = j.get("violation");
    match v {
        Some(v) => {
            println!("REPLAY property={prop} violation ({}): {}", v.class, v.what);
            println!("trace {hash:016x}");
            if !want.is_null() {
                let same = want.get("what").str() == v.what
                    && want.get("trace_hash").str() == format!("{hash:016x}");
                println!(
                    "{}",
                    if same { "identical to the recorded execution" } else { "differs from the recorded execution" }
                );
            }
            1
        },
        None => {
            println!("REPLAY property={prop} no violation");
            println!("trace {hash:016x}");
            0
        },
    }
}

// ---------------------------------------------------------------- check

/// Words of the shared memory between the master and its workers.
const W_BEST: usize = 0;
const W_ERR: usize = 1;
const W_BASE: usize = 64;
const W_SIZE: usize = 64;
pub const MAX_WORKERS: usize = 32;
const W_HASH: usize = W_BASE + W_SIZE * MAX_WORKERS;

pub const C_RUNS: usize = 0;
pub const C_ASKED: usize = 1;
pub const C_REFS: usize = 2;
pub const C_COMPARED: usize = 3;
pub const C_STEPS: usize = 4;
pub const C_SWITCHES: usize = 5;
pub const C_FAULTS: usize = 6; // five words
pub const C_REUSED: usize = 11;
pub const C_MOVED: usize = 12;
pub const C_ACCESSES: usize = 13;
pub const C_FUTEX: usize = 14;
pub const C_CLOCK: usize = 15;
pub const C_EVENTS: usize = 16;
pub const C_DISCARDED: usize = 17;
pub const C_THREADED: usize = 18;
pub const C_PREEMPT: usize = 19;
pub const C_FAILED: usize = 20;
pub const C_PANICS: usize = 21;
pub const C_CALLS: usize = 22;
pub const C_PARSES: usize = 23;
pub const C_MATCHES: usize = 24;
pub const C_MAXTEXT: usize = 25;
pub const C_PERS: usize = 26; // 8 words: runs with a property of the heap
pub const C_SHARED: usize = 34;
pub const C_LEN: usize = 40;

const MAX_RUNS: usize = 40_000_000;

fn budget(prop: &str, tier: &str) -> (u64, u64) {
    // (runs, seconds)
    if tier == "thorough" {
        return (MAX_RUNS as u64, 1500);
    }
    let runs = match prop {
        "C01" | "C07" | "C11" => 20_000,
        "C02" | "C10" => 16_000,
        "C03" | "C08" => 40_000,
        "C06" | "C09" => 30_000,
        "C13" => 5_000,
        "C15" => 6_000,
        "C16" | "C17" => 60_000,
        _ => 24_000,
    };
    (runs, 240)
}

fn cpus() -> Vec<usize> {
    let mut mask = [0u64; 16];
    let mut v = Vec::new();
    unsafe {
        if sys::sched_getaffinity(0, 128, mask.as_mut_ptr()) > 0 || mask.iter().any(|m| *m != 0) {
            for (i, m) in mask.iter().enumerate() {
                for b in 0..64 {
                    if m >> b & 1 != 0 {
                        v.push(i * 64 + b);
                    }
                }
            }
        }
    }
    if v.is_empty() {
        v.push(0);
    }
    v
}

fn nontrivial(prop: &str, p: &Plan, r: &harness::RunResult, compared: u64) -> bool {
    if !r.done || compared < 2 {
        return false;
    }
    let fired: u64 = r.header[H_FAULTS..H_FAULTS + 5].iter().sum();
    match prop {
        "C07" => p.threads > 1 && r.header[H_SWITCHES] > p.threads as u64,
        "C09" => fired > 0,
        "C03" => r.events.iter().any(|e| e.code == SOME && e.flags & F_RANGES != 0 && !e.ranges.is_empty()),
        "C15" => r.events.iter().any(|e| matches!(plan::K::ALL.get(e.k as usize), Some(plan::K::Stream | plan::K::ParseStream)) && e.iter > 30),
        "C14" => p.texts.iter().any(|t| matches!(t, plan::Text::Terms(g) if g.iter().flatten().count() > 1)),
        _ => true,
    }
}

pub const RULES: &str = "a run counts as distinct when its trace hash (every basic block of the library executed, in order, with the thread that executed it, and every context switch) differs from that of every other run, and as non-trivial when it ended normally and at least two of its observations were compared with the oracle";

pub fn extra_rule(prop: &str) -> &'static str {
    match prop {
        "C07" => "; here also: more context switches than threads",
        "C09" => "; here also: at least one injected allocation failure fired",
        "C03" => "; here also: at least one call reported ranges",
        "C15" => "; here also: at least one stream of more than thirty texts",
        "C14" => "; here also: at least one query of several terms",
        _ => "",
    }
}

struct Shm {
    p: *mut u64,
}

impl Shm {
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.p.add(i) as *const AtomicU64) }
    }
}

fn known(o: &Opts, v: &Violation) -> Option<String> {
    // lines: finding: property=<id> class=<class> match=<text> | description
    let text = std::fs::read_to_string(o.known.as_ref()?).ok()?;
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let Some((head, desc)) = rest.split_once(" | ") else { continue };
        let Some((ids, pat)) = head.split_once(" match=") else { continue };
        let mut it = ids.split(' ');
        if it.next() == Some(&format!("property={}", o.prop))
            && it.next() == Some(&format!("class={}", v.class))
            && v.what.contains(pat)
        {
            return Some(desc.to_string());
        }
    }
    None
}

fn worker(o: &Opts, w: usize, nw: usize, n: u64, deadline: Instant, shm: &Shm, cov: *mut u8) -> i32 {
    let cp = cpus();
    let cpu = cp[w % cp.len()];
    let mut mask = [0u64; 16];
    mask[cpu / 64] = 1 << (cpu % 64);
    unsafe {
        sys::sched_setaffinity(0, 128, mask.as_ptr());
    }
    let mut h = Harness::new(cov);
    let base = W_BASE + w * W_SIZE;
    let mut c = [0u64; C_LEN];
    let mut i = w as u64;
    while i < n {
        if shm.at(W_BEST).load(Ordering::Relaxed) < i
            || shm.at(W_ERR).load(Ordering::Relaxed) != 0
            || Instant::now() > deadline
        {
            break;
        }
        let p = gen::plan(&o.prop, o.seed, i);
        let r = h.run(&p);
        use sys::Ended;
        if r.header[H_HARNESS] != 0
            || matches!(r.ended, Ended::Exit(3) | Ended::Exit(80) | Ended::Signal(9))
        {
            eprintln!("normsim: run {i} of {} ended with {:?}", o.prop, r.ended);
            shm.at(W_ERR).store(i + 1, Ordering::Relaxed);
            break;
        }
        let (v, compared) = {
            let mut j = Judge::new(&p, &r, &mut h);
            (j.judge(), j.compared)
        };
        c[C_RUNS] += 1;
        c[C_COMPARED] += compared;
        c[C_STEPS] += r.header[H_STEPS];
        c[C_SWITCHES] += r.header[H_SWITCHES];
        for k in 0..5 {
            c[C_FAULTS + k] += r.header[H_FAULTS + k];
        }
        c[C_REUSED] += r.header[H_REUSED];
        c[C_MOVED] += r.header[H_MOVED];
        c[C_ACCESSES] += r.header[H_ACCESSES];
        c[C_SHARED] += r.header[H_SHARED];
        c[C_FUTEX] += r.header[H_FUTEX];
        c[C_CLOCK] += r.header[H_CLOCK];
        c[C_EVENTS] += r.events.len() as u64;
        if r.ended == Ended::Exit(seams::EXIT_ARENA_FULL) || r.header[H_OVER] != 0 {
            c[C_DISCARDED] += 1;
        }
        c[C_THREADED] += (p.threads > 1) as u64;
        c[C_PREEMPT] += p.sched.len() as u64;
        for e in &r.events {
            let k = e.k;
            if k == plan::K::Dist as u8 || k == plan::K::Ranges as u8 || k == plan::K::Burst as u8 {
                c[C_CALLS] += 1;
                c[C_MATCHES] += (e.code == SOME) as u64;
            }
            c[C_PARSES] += (k == plan::K::Parse as u8) as u64;
            c[C_FAILED] += (e.code == FAILED) as u64;
            c[C_PANICS] += (e.code == PANIC) as u64;
        }
        let hp = &p.heap;
        for (k, x) in [
            hp.move_always,
            hp.fill == 1 || hp.fill == 2,
            hp.fill == 3,
            hp.fill == 4,
            hp.reuse == 0,
            hp.reuse >= 90,
            hp.slop,
        ]
        .iter()
        .enumerate()
        {
            c[C_PERS + k] += *x as u64;
        }
        c[C_ASKED] = h.asked;
        c[C_REFS] = h.forked_refs;
        let nt = nontrivial(&o.prop, &p, &r, compared);
        shm.at(W_HASH + i as usize)
            .store(r.header[H_HASH] << 2 | 2 | nt as u64, Ordering::Relaxed);
        if let Some(v) = v {
            match known(o, &v) {
                Some(desc) => println!("KNOWN-FINDING: property={} {desc}", o.prop),
                None => {
                    shm.at(W_BEST).fetch_min(i, Ordering::Relaxed);
                },
            }
        }
        for (k, x) in c.iter().enumerate() {
            shm.at(base + k).store(*x, Ordering::Relaxed);
        }
        i += nw as u64;
    }
    0
}

fn check(o: &Opts) -> i32 {
    let t0 = Instant::now();
    if o.tier != "quick" && o.tier != "thorough" {
        fail(USAGE);
    }
    let (mut n, mut secs) = budget(&o.prop, &o.tier);
    if let Some(x) = o.runs {
        n = x;
    }
    if let Some(x) = o.seconds {
        secs = x;
    }
    n = n.min(MAX_RUNS as u64);
    let _ = std::fs::create_dir_all(&o.replays);
    let mut static_bad = Vec::new();
    if o.prop == "C07" {
        static_bad = norm_shim::thread_safety();
    }
    let shm = unsafe {
        Shm {
            p: sys::mmap(
                0,
                (W_HASH + n as usize + 8) * 8,
                sys::MAP_SHARED | sys::MAP_NORESERVE,
            ) as *mut u64,
        }
    };
    let cov = unsafe { sys::mmap(0, 1 << 16, sys::MAP_SHARED) };
    shm.at(W_BEST).store(u64::MAX, Ordering::Relaxed);
    let nw = o.workers.unwrap_or_else(|| cpus().len()).clamp(1, MAX_WORKERS);
    let deadline = t0 + std::time::Duration::from_secs(secs);
    let mut pids = Vec::new();
    if static_bad.is_empty() {
        for w in 0..nw {
            unsafe {
                let pid = sys::fork();
                if pid < 0 {
                    fail("cannot fork a worker");
                }
                if pid == 0 {
                    sys::prctl(1, 9, 0, 0, 0);
                    let code = worker(o, w, nw, n, deadline, &shm, cov);
                    use std::io::Write;
                    let _ = std::io::stdout().flush();
                    sys::_exit(code);
                }
                pids.push(pid);
            }
        }
    }
    let mut bad_end = false;
    for pid in pids {
        let mut st = 0;
        unsafe {
            while sys::waitpid(pid, &mut st, 0) < 0 && *sys::__errno_location() == 4 {}
        }
        bad_end |= st != 0;
    }
    let search = t0.elapsed().as_secs_f64();
    let err = shm.at(W_ERR).load(Ordering::Relaxed);
    let best = shm.at(W_BEST).load(Ordering::Relaxed);
    let mut c = [0u64; C_LEN];
    for w in 0..nw {
        for (k, x) in c.iter_mut().enumerate() {
            *x += shm.at(W_BASE + w * W_SIZE + k).load(Ordering::Relaxed);
        }
    }
    let mut violations = 0;
    let mut code = 0;
    let mut shrink_tries = 0;
    if !static_bad.is_empty() {
        violations = 1;
        code = 1;
        let path = format!("{}/{}-static.json", o.replays, o.prop);
        let j = J::Obj(vec![
            ("property".into(), J::s(&o.prop)),
            ("static".into(), J::Arr(static_bad.iter().map(|s| J::s(*s)).collect())),
        ]);
        let _ = std::fs::write(&path, j.pretty());
        println!("{}", static_bad.join(", "));
        println!("VIOLATION property={} replay={path}", o.prop);
    } else if best != u64::MAX {
        let mut h = Harness::new(core::ptr::null_mut());
        let p = gen::plan(&o.prop, o.seed, best);
        let Some(v) = (0..4).find_map(|_| minimize::check(&mut h, &p).0) else {
            eprintln!("normsim: run {best} violated {} once but not again", o.prop);
            return 2;
        };
        let path = format!("{}/{}-{}-{}.json", o.replays, o.prop, o.seed, best);
        let secs = match std::env::var_os("NORMSIM_SHRINK") {
            Some(s) => num(&s.to_string_lossy()),
            None if o.tier == "quick" => 60,
            None => 300,
        };
        let (mut mp, mut mv) = {
            let mut s = minimize::Shrink::new(&mut h, &p, v.clone(), secs);
            s.go();
            shrink_tries = s.tries;
            (s.best.clone(), s.violation.clone())
        };
        let mut done = false;
        for (round, note) in ["minimised", "as generated", "not identical"].iter().enumerate() {
            if round == 1 {
                (mp, mv) = (p.clone(), v.clone());
            }
            let (_, mhash) = minimize::check(&mut h, &mp);
            let j = replay_json(&mp, &mv, mhash, note);
            if let Err(e) = std::fs::write(&path, j.pretty()) {
                fail(&format!("{path}: {e}"));
            }
            // The last resort is for a library whose behaviour depends on something that is not
            // simulated: the same plan violates the property every time, if not identically.
            let exact = round < 2;
            if confirmed(&path, exact) && (exact || confirmed(&path, exact)) {
                done = true;
                break;
            }
        }
        if !done {
            eprintln!(
                "normsim: run {best} violated {} but its replay does not reproduce it: {}",
                o.prop, v.what
            );
            return 2;
        }
        violations = 1;
        code = 1;
        println!("{} (run {best} of seed {}, {} operations)", mv.what, o.seed, mp.op_count());
        println!("VIOLATION property={} replay={path}", o.prop);
    } else if err != 0 || bad_end {
        eprintln!("normsim: the harness failed (run {})", err.wrapping_sub(1));
        return 2;
    }
    let mut hashes: Vec<u64> = (0..n as usize)
        .map(|i| shm.at(W_HASH + i).load(Ordering::Relaxed))
        .filter(|h| h & 2 != 0)
        .collect();
    hashes.sort_unstable();
    hashes.dedup_by_key(|h| *h >> 2);
    let distinct = hashes.len() as u64;
    let distinct_nt = hashes.iter().filter(|h| **h & 1 != 0).count() as u64;
    let covered = unsafe { std::slice::from_raw_parts(cov, 1 << 16) }
        .iter()
        .filter(|x| **x != 0)
        .count() as u64;
    report::write(o, &report::Stats {
        c,
        n,
        nw,
        distinct,
        distinct_nt,
        covered,
        guards: unsafe { seams::G.nguards } as u64,
        search,
        wall: t0.elapsed().as_secs_f64(),
        violations,
        shrink_tries,
    });
    println!(
        "{}: {} runs in {:.1} s ({} distinct and non-trivial), {} steps, {} answers judged, {} faults fired, {} of {} basic blocks reached",
        o.prop,
        c[C_RUNS],
        search,
        distinct_nt,
        c[C_STEPS],
        c[C_COMPARED],
        c[C_FAULTS..C_FAULTS + 5].iter().sum::<u64>(),
        covered,
        unsafe { seams::G.nguards },
    );
    code
}

/// Replays the file in a fresh process: it must show the same violation, by the same execution
/// if `exact`.
fn confirmed(path: &str, exact: bool) -> bool {
    let Ok(exe) = std::env::current_exe() else { return false };
    let Ok(out) = std::process::Command::new(exe).arg("replay").arg(path).output() else {
        return false;
    };
    let s = String::from_utf8_lossy(&out.stdout);
    out.status.code() == Some(1) && (!exact || s.contains("identical to the recorded execution"))
}
