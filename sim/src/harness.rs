//! Runs plans and reference questions in processes of their own.

use std::collections::BTreeMap;

use crate::exec::*;
use crate::plan::*;
use crate::seams;
use crate::sys::{self, Ended};

const WALL_MS: i32 = 150_000;

pub struct RunResult {
    pub ended: Ended,
    pub done: bool,
    pub events: Vec<Event>,
    pub header: [u64; H_LEN],
}

pub struct Harness {
    run_rec: *mut u64,
    req_rec: *mut u64,
    memo: BTreeMap<u128, Event>,
    pub cov: *mut u8,
    pub runs: u64,
    pub asked: u64,
    pub forked_refs: u64,
}

fn hash(parts: &[&[u8]]) -> u128 {
    let mut a: u64 = 0xcbf2_9ce4_8422_2325;
    let mut b: u64 = 0x9ae1_6a3b_2f90_404f;
    for p in parts {
        for &x in p.iter() {
            a = (a ^ x as u64).wrapping_mul(0x100_0000_01b3);
            b = (b.rotate_left(5) ^ x as u64).wrapping_mul(0x2545_f491_4f6c_dd1d);
        }
        a = (a ^ p.len() as u64).wrapping_mul(0x100_0000_01b3);
        b = (b ^ (p.len() as u64 + 77)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    (a as u128) << 64 | b as u128
}

fn key(r: &Req) -> u128 {
    match r {
        Req::Call { spec, query, ext, cand, ranges } => hash(&[
            b"c",
            &spec.pack().to_le_bytes(),
            query.as_bytes(),
            &[*ext as u8, *ranges as u8],
            cand.as_bytes(),
        ]),
        Req::QueryDebug { query, ext } => hash(&[b"q", query.as_bytes(), &[*ext as u8]]),
        Req::MetricDebug { spec, alt } => {
            hash(&[b"m", &spec.pack().to_le_bytes(), &[*alt as u8]])
        },
        Req::CharEq { case, norm, q, c } => {
            let q: String = q.iter().collect();
            let c: String = c.iter().collect();
            hash(&[b"e", &[*case, *norm as u8], q.as_bytes(), c.as_bytes()])
        },
    }
}

impl Harness {
    /// `cov` is a 64 KiB shared map of the basic blocks reached (or null).
    pub fn new(cov: *mut u8) -> Harness {
        let fl = sys::MAP_SHARED | sys::MAP_NORESERVE;
        unsafe {
            Harness {
                run_rec: sys::mmap(0, REC_WORDS * 8, fl) as *mut u64,
                req_rec: sys::mmap(0, REC_WORDS * 8, fl) as *mut u64,
                memo: BTreeMap::new(),
                cov,
                runs: 0,
                asked: 0,
                forked_refs: 0,
            }
        }
    }

    pub fn run(&mut self, p: &Plan) -> RunResult {
        self.runs += 1;
        set_record(self.run_rec);
        reset_record();
        let cov = self.cov;
        let ended = unsafe {
            sys::in_child(WALL_MS, &mut || {
                seams::G.cov = cov;
                run_plan(p)
            })
        };
        let mut header_ = [0u64; H_LEN];
        for (i, h) in header_.iter_mut().enumerate() {
            *h = unsafe { *header(i) };
        }
        let mut events = events();
        if header_[H_DONE] == 0 && ended != Ended::Exit(seams::EXIT_ARENA_FULL) {
            // the operation that never returned
            let tid = header_[H_TID];
            if tid < 4 {
                let op = header_[H_OP + tid as usize];
                let c = H_CALL + tid as usize * 3;
                let (phase, idx) = ((op >> 16) as u16 as usize, (op >> 32) as usize);
                let o = &p.phases[phase][tid as usize][idx];
                let valid = header_[c + 2] & 2 != 0;
                let mut e = Event {
                    k: o.k as u8,
                    tid: tid as u32,
                    phase: phase as u32,
                    idx: idx as u32,
                    rep: op as u16 as u32,
                    query: NO_TEXT,
                    cand: NO_TEXT,
                    code: match ended {
                        Ended::Exit(seams::EXIT_HANG)
                        | Ended::Exit(seams::EXIT_DEADLOCK)
                        | Ended::Stuck => HANG,
                        _ => CRASH,
                    },
                    ..Default::default()
                };
                e.text = match ended {
                    Ended::Exit(seams::EXIT_HANG) => "the call did not return".into(),
                    Ended::Exit(seams::EXIT_DEADLOCK) => "every thread waits forever".into(),
                    Ended::Exit(seams::EXIT_HUGE) => "a request that takes the memory allocated by norm beyond 512 MiB".into(),
                    Ended::Stuck => "the process got stuck".into(),
                    Ended::Signal(s) => format!("the process was killed by signal {s}"),
                    Ended::Exit(c) => format!("the process exited with status {c}"),
                };
                if valid {
                    e.spec = Spec::unpack(header_[c]);
                    e.query = header_[c + 1] as u32;
                    e.cand = (header_[c + 1] >> 32) as u32;
                    e.ext = header_[c + 2] & 1 != 0;
                }
                events.push(e);
            }
        }
        RunResult { ended, done: header_[H_DONE] != 0, events, header: header_ }
    }

    /// What a pristine process answers.
    pub fn ask(&mut self, r: &Req) -> Event {
        self.asked += 1;
        let k = key(r);
        if let Some(e) = self.memo.get(&k) {
            return e.clone();
        }
        self.forked_refs += 1;
        set_record(self.req_rec);
        reset_record();
        let ended = unsafe { sys::in_child(WALL_MS, &mut || run_req(r)) };
        let mut e = events().into_iter().next_back().unwrap_or_default();
        let done = unsafe { *header(H_DONE) } != 0;
        if !done {
            e.code = match ended {
                Ended::Exit(seams::EXIT_HANG)
                | Ended::Exit(seams::EXIT_DEADLOCK)
                | Ended::Stuck => HANG,
                _ => CRASH,
            };
            e.text = format!("{ended:?}");
        }
        e.ranges.sort_unstable();
        if self.memo.len() > 60_000 {
            self.memo.clear();
        }
        self.memo.insert(k, e.clone());
        e
    }
}
