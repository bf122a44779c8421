//! The evidence file.

use crate::json::J;
use crate::*;

pub struct Stats {
    pub c: [u64; C_LEN],
    pub n: u64,
    pub nw: usize,
    pub distinct: u64,
    pub distinct_nt: u64,
    pub covered: u64,
    pub guards: u64,
    pub search: f64,
    pub wall: f64,
    pub violations: u64,
    pub shrink_tries: u64,
}

fn sample(p: &Plan) -> J {
    let J::Obj(o) = p.to_json() else { unreachable!() };
    // the same plan as a replay file would have, but flat and clipped
    let mut out = Vec::new();
    for (k, v) in o {
        if k == "phases" {
            let mut lines = Vec::new();
            for (pi, ph) in p.phases.iter().enumerate() {
                for (t, ops) in ph.iter().enumerate() {
                    for op in ops {
                        let f = op
                            .fault
                            .map_or(String::new(), |(m, n)| format!(" fault={}({n})", plan::FAULT_NAMES[m as usize]));
                        lines.push(J::s(format!("phase {pi} thread {t}: {} {:?}{f}", op.k.name(), op.a)));
                    }
                }
            }
            let n = lines.len();
            lines.truncate(40);
            if n > 40 {
                lines.push(J::s(format!("... {n} operations in all")));
            }
            out.push(("operations".to_string(), J::Arr(lines)));
        } else if k == "schedule" {
            let s: Vec<String> =
                p.sched.iter().take(20).map(|(b, c)| format!("{b}:{c}")).collect();
            out.push((
                "schedule (basic blocks until the next switch : which thread)".to_string(),
                J::s(format!("{} ({} decisions)", s.join(" "), p.sched.len())),
            ));
        } else if k == "texts" {
            let t: Vec<J> = p
                .texts
                .iter()
                .take(16)
                .map(|t| {
                    let s = t.render();
                    J::s(if s.chars().count() > 80 {
                        format!("{}.. ({} chars)", s.chars().take(60).collect::<String>(), s.chars().count())
                    } else {
                        s
                    })
                })
                .collect();
            out.push((k, J::Arr(t)));
        } else {
            out.push((k, v));
        }
    }
    J::Obj(out)
}

pub fn write(o: &Opts, s: &Stats) {
    let Some(path) = &o.out else { return };
    let c = &s.c;
    let hours = s.search.max(0.001) / 3600.0;
    let mut samples = Vec::new();
    for i in 0..60 {
        let p = gen::plan(&o.prop, o.seed, i);
        if i >= s.n || samples.len() == 3 {
            break;
        }
        if p.op_count() >= 4 && p.op_count() <= 30 {
            samples.push(sample(&p));
        }
    }
    let faults: Vec<(String, J)> = (1..5)
        .map(|k| (plan::FAULT_NAMES[k].to_string(), J::n(c[C_FAULTS + k])))
        .collect();
    let cov = J::Obj(vec![
        ("evaluations".into(), J::n(c[C_RUNS])),
        ("distinct_nontrivial".into(), J::n(s.distinct_nt)),
        (
            "rule".into(),
            J::s(format!(
                "one evaluation is one simulated execution of a plan generated from (property, seed, run index); {RULES}{}",
                extra_rule(&o.prop)
            )),
        ),
        ("samples".into(), J::Arr(samples)),
        ("distinct_traces".into(), J::n(s.distinct)),
        ("runs_planned".into(), J::n(s.n)),
        ("seeds_per_hour".into(), J::F((c[C_RUNS] as f64 / hours).round())),
        ("search_seconds".into(), J::F(s.search)),
        ("worker_processes".into(), J::n(s.nw as u64)),
        (
            "simulated_time".into(),
            J::Obj(vec![
                ("unit".into(), J::s("basic blocks of the library executed; the library has no clock of its own")),
                ("steps".into(), J::n(c[C_STEPS])),
                ("clock_readings_by_the_library".into(), J::n(c[C_CLOCK])),
            ]),
        ),
        ("observations_judged".into(), J::n(c[C_COMPARED])),
        (
            "activity".into(),
            J::Obj(vec![
                ("events".into(), J::n(c[C_EVENTS])),
                ("distance_calls".into(), J::n(c[C_CALLS])),
                ("of_which_matched".into(), J::n(c[C_MATCHES])),
                ("parses".into(), J::n(c[C_PARSES])),
                ("reference_answers_requested".into(), J::n(c[C_ASKED])),
                ("reference_processes_run".into(), J::n(c[C_REFS])),
                ("heap_accesses_checked".into(), J::n(c[C_ACCESSES])),
                ("panics_seen".into(), J::n(c[C_PANICS])),
                ("discarded_runs".into(), J::n(c[C_DISCARDED])),
            ]),
        ),
        (
            "schedules".into(),
            J::Obj(vec![
                ("runs_with_several_threads".into(), J::n(c[C_THREADED])),
                ("preemption_points_chosen".into(), J::n(c[C_PREEMPT])),
                ("context_switches".into(), J::n(c[C_SWITCHES])),
                ("accesses_to_memory_shared_by_threads".into(), J::n(c[C_SHARED])),
                ("blocking_waits_simulated".into(), J::n(c[C_FUTEX])),
            ]),
        ),
        (
            "faults_fired".into(),
            J::Obj(
                faults
                    .into_iter()
                    .chain([
                        ("operations_cut_short_by_them".to_string(), J::n(c[C_FAILED])),
                        ("blocks_moved_by_realloc".to_string(), J::n(c[C_MOVED])),
                        ("freed_blocks_handed_out_again".to_string(), J::n(c[C_REUSED])),
                        ("runs_where_realloc_always_moves".to_string(), J::n(c[C_PERS])),
                        ("runs_with_constant_garbage_in_new_blocks".to_string(), J::n(c[C_PERS + 1])),
                        ("runs_with_random_garbage_in_new_blocks".to_string(), J::n(c[C_PERS + 2])),
                        ("runs_with_stale_contents_in_new_blocks".to_string(), J::n(c[C_PERS + 3])),
                        ("runs_where_freed_memory_is_never_reused".to_string(), J::n(c[C_PERS + 4])),
                        ("runs_where_freed_memory_is_reused_at_once".to_string(), J::n(c[C_PERS + 5])),
                        ("runs_with_irregular_addresses".to_string(), J::n(c[C_PERS + 6])),
                    ])
                    .collect(),
            ),
        ),
        (
            "basic_blocks".into(),
            J::Obj(vec![
                ("reached".into(), J::n(s.covered)),
                ("instrumented".into(), J::n(s.guards)),
            ]),
        ),
        (
            "components".into(),
            J::Obj(vec![
                (
                    "real".into(),
                    J::s("all of norm, compiled from /repo's working tree; std's collections and panic machinery; OS threads (one runs at a time)"),
                ),
                (
                    "simulated".into(),
                    J::s("heap allocator, thread scheduling, futex waits, sched_yield and sleep, clock, random bytes"),
                ),
                ("stubbed".into(), J::s("nothing of norm")),
            ]),
        ),
        ("minimisation_runs".into(), J::n(s.shrink_tries)),
    ]);
    let j = J::Obj(vec![
        ("property".into(), J::s(&o.prop)),
        ("tier".into(), J::s(&o.tier)),
        ("seed".into(), J::n(o.seed)),
        ("level".into(), J::s("exploration")),
        ("coverage".into(), cov),
        (
            "assumptions".into(),
            J::Arr(
                [
                    "preemption happens at basic-block boundaries of sequentially consistent executions; weaker memory orders are not simulated",
                    "inputs, histories and schedules are sampled by a seeded generator, not enumerated",
                    "the reference for an answer is the same code in a process in which nothing else has happened",
                ]
                .iter()
                .map(|s| J::s(*s))
                .collect(),
            ),
        ),
        ("wall_s".into(), J::F(s.wall)),
        ("violations".into(), J::n(s.violations)),
    ]);
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(path, j.pretty()) {
        fail(&format!("{path}: {e}"));
    }
}
