#!/usr/bin/env python3
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over "
A = (" Trusted: the simulator's seams (allocator, scheduler, clock, entropy), rustc's instrumentation points, and the"
     " oracle, which is the crate itself in its simplest state (a new instance in a new process answering one call) plus"
     " the checks named here; it therefore does not decide what a first answer should be, only that nothing can change it.")
A16 = (" Trusted: the simulator's seams (allocator, scheduler, clock, entropy), rustc's instrumentation points, and the model.")
checks = {
 "C01": ("call histories, allocator behaviours and allocation faults, judged against one-call reference executions",
   "Seeded exploration of call histories on real metric instances; every answer is compared with that of a new instance in a new process."),
 "C02": ("parse histories, clones, moves and allocator behaviours, judged against first-parse reference executions",
   "Seeded exploration of parser histories; every parsed query is probed and compared with the first parse of a new parser."),
 "C03": ("call histories with shared and pre-filled range buffers, with an invariant over every buffer after every call",
   "Every call's buffer is compared before and after; for one-term queries the appended ranges are checked to be a witness of the match."),
 "C04": ("histories mixing both entry points, each answer compared with the other entry point's",
   "Each distance is compared with the other entry point's answer on the same and on a new instance."),
 "C05": ("interleavings of setting changes and calls, judged against a last-write-wins model",
   "A small model holds the last value of every setting; each answer is compared with that of a new instance given that state."),
 "C06": ("clone/move/drop/use histories, judged against a per-instance model",
   "Each clone and original is compared with a new instance with the settings the model says it has."),
 "C07": ("thread interleavings at basic-block granularity under a seeded scheduler, each call judged against running alone; deadlock detection; Send and Sync of the public types",
   "Real threads run one at a time and are switched at any basic block or heap access of the library; every answer is compared with a single-threaded one-call execution."),
 "C08": ("visiting orders, work splits, worker interleavings, failures and retries, with order axioms checked over the recorded distances",
   "The recorded distances of every run are checked for the order axioms and against reference scores, and merged rankings against one sort."),
 "C09": ("allocation-failure points (single, repeated, out-of-memory periods) inside calls, every later answer judged against new instances",
   "Failures are injected at any allocation of any call; everything that survives is used further and compared with new instances."),
 "C10": ("repeated workloads with and without injected allocation failures, with conservation checks on the simulated heap",
   "Live bytes of the simulated heap are measured after each repetition and after dropping everything."),
 "C11": ("allocator behaviours (placement, moves, reuse, fill, poisoning of freed and unowned memory), with every heap access of the library checked",
   "Every load and store the library makes into the simulated heap is checked against the live allocations; answers are compared across allocator behaviours."),
 "C12": ("histories around held queries (copies, threads, other parsers, memory pressure), with repeated probes of each query",
   "Every held query is probed and printed repeatedly and compared with its first reference answer."),
 "C13": ("histories and inputs including extreme sizes, with a step counter as clock and bounds on the steps of every call",
   "The library's executed basic blocks are counted per call and bounded by a constant times the documented work; panics, aborts and non-termination end a run as a violation."),
 "C14": ("histories with multi-term queries, each judged against the same terms asked one by one",
   "Each answer to a query of several terms is compared with the composition of the reference answers of its terms."),
 "C15": ("long streams of different inputs, lineages of clones, failures and retries, with a bound on the simulated heap's live and peak bytes after every step",
   "After every call of streams of up to 20 000 different candidates or queries, the live bytes of the simulated heap are compared with a bound computed from the largest inputs the living instances have seen."),
 "C16": ("histories of calls, parses, settings, clones, streams and failed allocations, each match decision judged against a small executable reference model of the documented search syntax",
   "Every match decision in every history is compared with that of an independent model of the syntax (sim/src/model.rs), which knows nothing of the code; answers the documentation leaves open are not judged."),
 "C17": ("histories of calls, parses, settings, clones, streams and failed allocations, each score and range judged against a small executable reference model of the scoring scheme",
   "Every score and every reported range in every history is compared with that of an independent model of the scheme and of both metrics' choice of an alignment (sim/src/model.rs); pairs the rules leave open are not judged."),
}
na = {
 "N01": "What the documented rules determine of this is claimed as C16 and C17; the rest is a pure function of one (query, candidate, settings) triple compared with the output of a program that is not available here: no schedule, fault, crash point or history can change it once C01, C05 and C11 hold.",
 "N03": "Per-character table lookups: pure functions of a character, decided by going through all characters against fzf's table (not available here), with nothing to schedule or fail. C16 judges the 353 characters that are an ASCII letter with something added, and their uppercase.",
}
m = {
 "version": 1,
 "setup_cmd": "./check --build",
 "checks": [
  {"property": k, "quick_cmd": f"./check {k} quick", "thorough_cmd": f"./check {k} thorough",
   "technique": T + t, "level": "exploration", "level_note": n + (A16 if k in ("C16", "C17") else A)}
  for k, (t, n) in checks.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in na.items()],
 "notes": "No hooks in /repo: the simulator takes over the allocator, threads, locks, clocks and entropy from outside (link-time wrapping, a #[global_allocator], sanitizer-coverage instrumentation of the crate). /repo carries only fix: commits.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
