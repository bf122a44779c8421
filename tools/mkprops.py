#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay in one readable place)."""
import json, os
F = "src/metrics/fzf/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

ALL = [F+"fzf.rs", F+"fzf_v1.rs", F+"fzf_v2.rs", F+"slab.rs", "src/matched_ranges.rs"]

p("C01", "A metric's answers never depend on what it was asked before",
  "For both metrics, the match decision, the distance and the reported ranges returned for a (query, candidate) pair are exactly those that a brand-new instance with the same settings returns for that pair. This holds whatever sequence of earlier calls the instance has served: longer or shorter candidates and queries, ASCII and non-ASCII text, matches and non-matches, either call method, any number of calls.",
  ["histories", "inputs", "configurations"],
  "every finite sequence of calls on one instance, of any length and mix, followed by any call",
  "Every test builds a fresh metric and asks it one question; none reuses scratch buffers after a longer, a failed or a differently-encoded call, and none runs hundreds of calls on one instance.",
  ALL, [("scratch buffers reset/resized on each allocation", F+"slab.rs"), ("match offsets rewritten per call", F+"fzf_v2.rs matches()"), ("per-column bonus cache invalidation", F+"slab.rs BonusSlab::alloc"), ("matrix zero-fill", F+"slab.rs MatrixSlab::alloc")],
  ["Metric::distance", "Metric::distance_and_ranges"])

p("C02", "A reused parser parses every query as a new parser would",
  "A query parsed by a parser that has already parsed any number of other queries, in either mode and of any length, behaves exactly like the same text parsed in the same mode by a new parser: it accepts the same candidates with the same distances and ranges, prints the same debug text, and panics neither more nor less. The same holds for a parser that was cloned or moved between parses.",
  ["histories", "inputs"],
  "every sequence of parse / parse_not_extended / clone / move operations on parsers, followed by any query text in either mode",
  "Tests use one parser per query (most even leak it); none re-parses with a parser whose buffers hold an earlier, longer or many-term query.",
  [F+"parser.rs", F+"query.rs"], [("buffers sized from the query text", F+"parser.rs FzfParser::parse, parse_not_extended"), ("conditions sliced to the number parsed", F+"parser.rs")],
  ["FzfParser::parse", "FzfParser::parse_not_extended", "FzfQuery Debug"])

p("C03", "The caller's ranges buffer is appended to, never disturbed",
  "A call that reports ranges leaves every entry already in the caller's buffer unchanged and in place, and only appends; if the candidate does not match, the buffer is left exactly as it was, whatever it held and however far the matching got before failing. The appended ranges are non-empty, inside the candidate, on character boundaries and pairwise disjoint, and for a query that is one positive term they cover exactly as many characters as the term has, each matching the term's characters in order (one contiguous run for exact, prefix, suffix and equality terms).",
  ["histories", "inputs", "configurations"],
  "every sequence of calls, from any mix of metrics and queries, that share one buffer with arbitrary earlier content and capacity",
  "Tests pass an empty buffer and look at one call; none pre-fills it, shares it between metrics, or lets a multi-term query fail after some of its terms matched.",
  ["src/matched_ranges.rs", "src/metric.rs", F+"fzf.rs", F+"fzf_v2.rs"], [("insertion relative to the initial length", "src/matched_ranges.rs"), ("range reporting per term", F+"fzf.rs"), ("backtracking of the alignment", F+"fzf_v2.rs matched_ranges()")],
  ["Metric::distance_and_ranges"])

p("C04", "distance and distance_and_ranges always agree",
  "At any point in the life of a metric, asking for the distance alone and asking for the distance with ranges give the same answer for the same query and candidate: both report no match, or both report the same distance. Asking either one any number of times, in any order, does not change the other's answer.",
  ["histories", "inputs", "configurations"],
  "every interleaving of the two call methods on an instance with any history",
  "The two methods are separately monomorphised paths over shared scratch space; the tests almost always call only one of them per case and never alternate them.",
  ALL, [("const-generic RANGES flag threaded through matching", F+"fzf.rs")],
  ["Metric::distance", "Metric::distance_and_ranges"])

p("C05", "Settings take effect at once, independently, last write wins",
  "After any sequence of setting changes interleaved with calls, a metric answers like a new instance given only the most recent value of each of its settings (case sensitivity, candidate normalization, scoring scheme), in any order; settings never set have their documented defaults (smart case, no normalization, default scheme). Changing one setting never changes or delays another, and a change applies to queries parsed before it.",
  ["histories", "configurations", "inputs"],
  "every sequence of setter calls, calls and clones, for every value of every setting",
  "Tests set each option at most once right after construction; no test changes a setting back, changes several between calls, or changes one while a parsed query is held.",
  [F+"fzf_v1.rs", F+"fzf_v2.rs", F+"scheme.rs", "src/case_sensitivity.rs"], [("settings stored on the instance and read per call", F+"fzf_v1.rs, fzf_v2.rs")],
  ["set_case_sensitivity", "set_candidate_normalization", "set_scoring_scheme", "Metric::distance", "Metric::distance_and_ranges", "Debug of the metrics"])

p("C06", "Clones are equal at birth and independent ever after",
  "A clone of a metric has the settings the original had at that moment and from then on answers like a new instance with its own settings, and so does the original, whatever calls, setting changes, further clones, moves or drops happen to either. A clone of a parser, likewise, parses correctly after the original was reused or dropped, and vice versa.",
  ["histories", "configurations", "inputs"],
  "every sequence of clone, clone-assign, move, drop, set, parse and call operations over a family of instances",
  "No test clones a metric or a parser at all.",
  [F+"fzf_v1.rs", F+"fzf_v2.rs", F+"slab.rs", F+"parser.rs"], [("derived Clone over owned buffers", F+"fzf_v1.rs, fzf_v2.rs, slab.rs, parser.rs")],
  ["Clone for FzfV1/FzfV2/FzfParser"])

p("C07", "Threads using their own instances never affect one another",
  "When several threads, each with its own metrics and parsers (created there, cloned, or handed over from another thread between calls), work at the same time, also on one parsed query they share, every call returns exactly what it would return running alone, under every interleaving of the threads at any point inside the calls. The metrics, parsers, queries and distances can be sent to and shared with other threads, and no interleaving deadlocks.",
  ["schedules", "histories", "inputs"],
  "every interleaving, at basic-block granularity, of calls made by 2-4 threads, with hand-overs of instances between threads",
  "All tests are single-threaded; none shares a query between threads, moves an instance across threads or controls a schedule.",
  ALL+[F+"parser.rs", F+"query.rs", "src/candidate.rs", "src/normalize.rs"], [("no shared mutable state: all scratch is owned by the instance", F+"slab.rs"), ("queries are immutable views", F+"query.rs")],
  ["all public entry points", "Send/Sync of the public types"])

p("C08", "A ranking is a total order, whoever computed it and when",
  "Distances computed for one query under one set of settings by any instances, in any visiting order and with the candidates split in any way over concurrent workers that may fail and retry, are mutually comparable in one consistent total order: all comparison operators, equality and sorting agree, the better (higher-scoring) match always compares as strictly less, and merging independently sorted parts gives the same ranking as sorting everything at once. No candidate's distance depends on which other candidates were visited.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every visiting order, sharding, interleaving and worker-failure pattern over a candidate set",
  "Tests look at one candidate at a time; only the README example sorts anything (two results), sequentially.",
  [F+"distance.rs", F+"fzf.rs", "src/metric.rs"], [("reversed ordering of scores", F+"distance.rs")],
  ["FzfDistance Ord/PartialOrd/Eq", "Metric::distance"])

p("C09", "A failed allocation never corrupts what survives it",
  "If a memory allocation fails at any point inside a call and the failure unwinds out of that call, then every metric, parser, held query of another parser and ranges buffer that survives remains usable: entries the buffer held before the call are intact, settings are unchanged, and every later call - including retrying the failed one - gives the same answer as with new instances. A call that returns normally in spite of memory pressure returns the right answer.",
  ["fault_sequences", "histories", "inputs"],
  "every position of failing allocations (single, repeated, or a size/budget limit) inside every operation of every history",
  "No test makes an allocation fail.",
  [F+"slab.rs", F+"parser.rs", "src/matched_ranges.rs"], [("buffers grown before use, state rewritten on each call", F+"slab.rs, parser.rs")],
  ["all public entry points under std::alloc error unwinding"])

p("C10", "Memory is reused, not accumulated, and all of it is given back",
  "Repeating a workload any number of times on the same metrics, parsers and buffers does not increase the heap memory they retain once the workload has been seen, and creating, using and dropping instances any number of times does not increase the memory left allocated. Both also hold when some of the calls were cut short by allocation failures.",
  ["histories", "fault_sequences"],
  "every workload (sequence of calls, parses, clones, drops), repeated any number of times, with and without failing allocations",
  "No test measures memory; the test helpers leak on purpose.",
  [F+"slab.rs", F+"parser.rs"], [("scratch buffers are grow-only and reused", F+"slab.rs"), ("query, pattern and condition buffers reused by the parser", F+"parser.rs")],
  ["global allocator"])

p("C11", "Only live memory is touched; results do not depend on the allocator",
  "Every heap access made while parsing, matching or reporting falls inside an allocation that is live at that moment, however the allocator places, moves, reuses or fills blocks, and input text (query strings and candidates) may be freed as soon as the call it was passed to returns. Results are the same under every such allocator behaviour.",
  ["fault_sequences", "histories", "inputs"],
  "every allocator behaviour (every realloc moves, freed blocks scribbled or immediately reused, new blocks full of garbage, arbitrary addresses) over every history",
  "The library extends lifetimes unsafely; the tests run on a forgiving allocator with one call per instance, where a dangling or stale view reads the right bytes by luck.",
  [F+"parser.rs", F+"fzf_v1.rs", F+"fzf_v2.rs", F+"slab.rs", "src/candidate.rs"], [("lifetime transmutes of slab slices", F+"fzf_v1.rs/fzf_v2.rs alloc_chars()"), ("'static patterns and conditions stored in the parser", F+"parser.rs")],
  ["all public entry points", "heap loads and stores of the library"])

p("C12", "A parsed query stays the same for as long as it is held",
  "While a parsed query is held, every use of it - by any metric of either kind, any number of times, from any thread, through any of its copies, interleaved with parsing on other parsers, creation and destruction of other objects and memory pressure - gives the same answer for the same candidate and settings, and its debug text does not change. Using a query never modifies it.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence and interleaving of uses of held queries with activity on all other objects",
  "Tests use each parsed query once, immediately, with nothing else alive.",
  [F+"query.rs", F+"parser.rs"], [("query borrows the parser's buffers", F+"parser.rs"), ("Copy views", F+"query.rs")],
  ["FzfQuery copies", "Metric::distance", "Metric::distance_and_ranges"])

p("C13", "Every call returns, without panicking, within its documented work",
  "Whatever the history, settings and inputs, no call panics, aborts or runs forever. Its work stays within a constant times the size of its inputs as documented: proportional to candidate plus query length for a fuzzy query with the v1 metric and for any fuzzy query that does not match, and to their product otherwise (summed over the terms of the query).",
  ["inputs", "histories", "configurations"],
  "every call in every history; inputs from empty to tens of thousands of characters",
  "Tests use short inputs and do not observe work; panics that need long queries, buffer boundaries or a particular history are out of their reach.",
  ALL+[F+"parser.rs", F+"query.rs", "src/candidate.rs"], [("single forward/backward scans", F+"fzf_v1.rs"), ("linear rejection before the quadratic phase", F+"fzf_v2.rs matches()"), ("buffers sized before writing", F+"parser.rs")],
  ["all public entry points"])

p("C14", "The terms of one query are evaluated independently of each other",
  "A query of several terms matches a candidate exactly when each of its space-separated groups has at least one alternative that matches the candidate when asked as a query of its own; its distance score is the sum, over the groups, of the score of one such alternative, and the ranges it reports cover exactly the union of what those alternatives report on their own. Nothing one term computes or reports changes what another does, at any point in an instance's history.",
  ["histories", "inputs", "configurations"],
  "every composition of terms into groups and alternatives, asked of an instance with any history, including several failing or overlapping terms",
  "Tests evaluate single terms; the scratch space and the buffer shared by the terms of one call are never exercised with overlapping, failing or differently sized terms.",
  [F+"fzf.rs", F+"query.rs", F+"parser.rs", "src/matched_ranges.rs"], [("conditions and alternatives folded over shared scratch", F+"fzf.rs distance()"), ("merging of reported ranges", "src/matched_ranges.rs insert()")],
  ["FzfParser::parse", "Metric::distance", "Metric::distance_and_ranges"])

p("C15", "What an instance holds is bounded by its largest inputs, not by their number",
  "The heap memory held by metrics, parsers and range buffers, and the memory a call uses while it runs, stay within a small constant factor of what the largest single query and candidate that the instance (or the one it was cloned from) has ever been given need - query plus candidate length for the v1 metric, their product for v2, query length for a parser, reported ranges for a buffer - plus the initial few kilobytes. The number of calls, of different candidates or queries, of setting changes and of generations of clones does not matter. That is what makes keeping one instance for a whole session, as documented, sound.",
  ["histories", "inputs", "fault_sequences"],
  "histories of any length over any number of different inputs, clones of clones, failures and retries",
  "Tests make a few calls per instance and never look at memory; growth that needs thousands of different candidates or queries, or many generations of clones, stays invisible.",
  [F+"slab.rs", F+"parser.rs", F+"fzf_v1.rs", F+"fzf_v2.rs", "src/matched_ranges.rs"], [("slabs grown to the largest input", F+"slab.rs alloc()"), ("parser buffers", F+"parser.rs parse()")],
  ["all public entry points"])

p("C16", "What matches is what the search syntax says, in every history",
  "At any point in the life of a metric and a parser, a candidate matches a query exactly when the documented search syntax says so: each space-separated group has a term that matches (alternatives are separated by |, a space can be escaped); a plain term matches if its characters occur in order, 'term if it occurs as it is, ^term and term$ if the candidate starts or ends with it (spaces around the candidate aside), ^term$ if it is all of it, and ! inverts (!term an exact one). Markers count only at the ends of a term; a term of which nothing is left, and a bar that separates nothing, are ignored. In non-extended mode no character is special and the query is one plain term. Characters are equal if they are the same; letters that differ in case only are equal too if the setting is insensitive, or smart and the term has no uppercase letter, for ASCII and non-ASCII letters alike; a Latin letter with diacritics in the candidate equals its base letter if candidate normalization is on, whatever the case of the two if case is ignored.",
  ["histories", "inputs", "configurations"],
  "every sequence of calls, parses, setting changes, clones and failed allocations on an instance, for every query, candidate and setting of which the documentation determines the answer",
  "Tests ask a new instance about some dozens of pairs of texts, most of which match.",
  ALL+[F+"parser.rs", F+"query.rs", "src/candidate.rs", "src/utils.rs", "src/normalize.rs"], [("word splitting, pattern parsing", F+"parser.rs, query.rs"), ("prefix, suffix, exact and equal matching", F+"fzf.rs"), ("forward scans", F+"fzf_v1.rs, fzf_v2.rs matches()"), ("character equality", "src/utils.rs")],
  ["FzfParser::parse", "FzfParser::parse_not_extended", "Metric::distance", "Metric::distance_and_ranges"])

p("C17", "Every distance is what the scoring scheme gives, in every history",
  "At any point in the life of a metric, the score of a candidate that matches a query without alternatives is the sum of its terms' scores, and the ranges reported are exactly the characters scored. A term scores 16 per character, minus 3 per gap and 1 per further character skipped in it, plus each character's bonus (twice for the term's first one): that of a space (10; 8 in the path and history schemes) for a space or after one, 9 (history 8) after a delimiter (/,:;| or, in the path scheme, / alone), 8 for another non-word character or after one, 7 for uppercase after lowercase or a digit after a letter; a character adjacent to the one matched before it gets at least 4 and at least the bonus its run began with (a boundary with a bigger bonus begins a new run), and the candidate's start counts as following a space, in the path scheme a delimiter. For a fuzzy term, v1 scores the first place where the term ends, from the closest start before it; v2 the best chain that fzf's recurrence finds, the leftmost of equals; an exact term scores its first occurrence at a boundary, else that with the biggest bonus; inverse terms score nothing.",
  ["histories", "inputs", "configurations"],
  "every sequence of calls, parses, setting changes, clones and failed allocations on an instance, for every query, candidate and setting for which the rules determine the score",
  "Tests pin the scores of some dozens of pairs, asked of new instances; nearly all have short gaps, few repeated characters and one class of character.",
  ALL+[F+"scoring.rs", F+"scheme.rs", F+"candidate.rs", F+"slab.rs"], [("scoring matrix and traceback", F+"fzf_v2.rs score(), matched_ranges()"), ("score of an alignment", F+"fzf.rs compute_score()"), ("forward and backward pass", F+"fzf_v1.rs"), ("choice of an exact occurrence", F+"fzf.rs exact_match()"), ("character classes and bonuses", F+"scoring.rs"), ("scheme constants", F+"scheme.rs, mod.rs")],
  ["Metric::distance", "Metric::distance_and_ranges", "set_scoring_scheme"])

# ---- listed, not claimed: pure functions of their input -------------------------------------
p("N01", "Nothing distinguishes norm's answers from those of the fzf it ports",
  "For every query, candidate and configuration, including those that the documented rules leave open, the match decision, score and matched positions are those printed by the fzf release the crate ports, with --algo=v1 for one metric and v2 for the other.",
  ["inputs", "configurations"], "every query, candidate and configuration",
  "About fifty upstream examples per metric are tested out of an infinite input space.",
  ALL+[F+"scoring.rs"], [("port of fzf's algorithms", F)], ["Metric::distance", "Metric::distance_and_ranges"])
p("N03", "The normalization table is complete and right for every character",
  "Every character that candidate normalization maps, including those that are not a Latin letter with diacritics, superscripts and phonetic letters, is mapped to the ASCII letter fzf maps it to, and no other is mapped.",
  ["inputs"], "every Unicode character",
  "Tests check the table against itself.",
  ["src/normalize.rs"], [("tables", "src/normalize.rs")], ["Metric::distance"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
