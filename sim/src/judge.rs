//! What makes a recorded execution a violation of each property.

use std::collections::{BTreeMap, BTreeSet};

use crate::exec::*;
use crate::harness::{Harness, RunResult};
use crate::model;
use crate::plan::*;
use crate::seams;
use crate::sys::Ended;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Minimisation keeps the class.
    pub class: &'static str,
    pub what: String,
}

pub const DOCUMENTED: [(&str, &[&str]); 3] = [
    ("abc", &["abc", "ABC"]),
    ("ABC", &["abc", "ABC"]),
    ("foo", &["foo", "\u{192}\u{f6}\u{f6}", "f o o", "f/o/o"]),
];

pub struct Judge<'a> {
    pub plan: &'a Plan,
    pub run: &'a RunResult,
    pub h: &'a mut Harness,
    texts: Vec<String>,
    /// How many of the run's answers were compared with something.
    pub compared: u64,
}

type V = Option<Violation>;

fn clip(s: &str) -> String {
    if s.chars().count() <= 60 {
        format!("{s:?}")
    } else {
        let h: String = s.chars().take(40).collect();
        let t: String = s.chars().rev().take(12).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{h:?}..{t:?} ({} chars)", s.chars().count())
    }
}

fn show_ranges(r: &[(u64, u64)]) -> String {
    let mut s = String::from("[");
    for (i, x) in r.iter().enumerate() {
        if i == 12 {
            s.push_str(&format!(", ... {} in all", r.len()));
            break;
        }
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&format!("{}..{}", x.0, x.1));
    }
    s.push(']');
    s
}

fn outcome(e: &Event, ranges: bool) -> String {
    let mut s = match e.code {
        SOME => format!("a match with score {}", e.score),
        c => CODE_NAMES[c as usize].to_string(),
    };
    if matches!(e.code, PANIC | CRASH | HANG) {
        s.push_str(&format!(" ({})", e.text));
    }
    if ranges && e.code <= SOME {
        s.push_str(" and ranges ");
        s.push_str(&show_ranges(&e.ranges));
    }
    s
}

/// Merges touching or overlapping ranges.
fn union(mut r: Vec<(u64, u64)>) -> Vec<(u64, u64)> {
    r.sort_unstable();
    let mut out: Vec<(u64, u64)> = Vec::new();
    for x in r {
        match out.last_mut() {
            Some(l) if x.0 <= l.1 => l.1 = l.1.max(x.1),
            _ => out.push(x),
        }
    }
    out
}

fn is_call(e: &Event) -> bool {
    (e.k == K::Dist as u8 || e.k == K::Ranges as u8 || e.k == K::Burst as u8) && e.code != SKIP
}

fn is_parse(e: &Event) -> bool {
    (e.k == K::Parse as u8 || e.k == K::ParseBurst as u8) && e.code != SKIP
}

fn is_stream(e: &Event) -> bool {
    (e.k == K::Stream as u8 || e.k == K::ParseStream as u8) && e.code != SKIP
}

/// An injected failure that ended the call (also if the library turned it into a panic of its own).
fn failed(e: &Event) -> bool {
    e.code == FAILED || (e.code == PANIC && e.fails > 0)
}

impl<'a> Judge<'a> {
    pub fn new(plan: &'a Plan, run: &'a RunResult, h: &'a mut Harness) -> Self {
        let texts = plan.texts.iter().map(|t| t.render()).collect();
        Judge { plan, run, h, texts, compared: 0 }
    }

    fn text(&self, i: u32) -> &str {
        if i == NO_TEXT {
            ""
        } else {
            &self.texts[i as usize]
        }
    }

    fn place(&self, e: &Event) -> String {
        let mut s = String::new();
        if self.plan.reps > 1 {
            s.push_str(&format!("repetition {}, ", e.rep));
        }
        if self.plan.phases.len() > 1 {
            s.push_str(&format!("phase {}, ", e.phase));
        }
        if self.plan.threads > 1 {
            s.push_str(&format!("thread {}, ", e.tid));
        }
        s.push_str(&format!("operation {}", e.idx));
        if [K::Burst, K::ParseBurst, K::Stream, K::ParseStream].iter().any(|k| *k as u8 == e.k) {
            s.push_str(&format!(" (call {} of it)", e.iter));
        }
        s
    }

    fn query_text(&self, e: &Event) -> String {
        format!("{}{}", clip(self.text(e.query)), if e.ext { "" } else { " (not extended)" })
    }

    fn about(&self, e: &Event) -> String {
        if e.cand == NO_TEXT {
            return format!("{}: query {}", self.place(e), self.query_text(e));
        }
        format!(
            "{}: {}, query {}, candidate {}",
            self.place(e),
            e.spec,
            self.query_text(e),
            clip(self.text(e.cand))
        )
    }

    fn reference(&mut self, e: &Event, ranges: bool) -> Event {
        let r = Req::Call {
            spec: e.spec,
            query: self.text(e.query).to_string(),
            ext: e.ext,
            cand: self.text(e.cand).to_string(),
            ranges,
        };
        self.h.ask(&r)
    }

    /// Every answer equals that of new instances in a process of their own.
    fn answers(&mut self, who: &str) -> V {
        let run = self.run;
        for e in &run.events {
            if failed(e) {
                continue;
            }
            if is_call(e) && e.query != NO_TEXT && e.cand != NO_TEXT {
                let ranges = e.flags & F_RANGES != 0;
                let want = self.reference(e, ranges);
                self.compared += 1;
                let mut got = e.ranges.clone();
                got.sort_unstable();
                let same_code = e.code == want.code;
                if same_code && e.code > SOME {
                    // it goes wrong on a new instance, too: nothing to compare from here on
                    return None;
                }
                if !same_code || e.code == SOME && e.score != want.score {
                    let class = if e.code > SOME { "abnormal" } else { "answer" };
                    return Some(Violation {
                        class,
                        what: format!(
                            "{}: {who} answered {}, a new instance answers {}",
                            self.about(e),
                            outcome(e, ranges),
                            outcome(&want, ranges)
                        ),
                    });
                }
                if ranges && got != want.ranges && e.flags & F_PREFIX == 0 {
                    return Some(Violation {
                        class: "ranges",
                        what: format!(
                            "{}: {who} reported ranges {}, a new instance reports {}",
                            self.about(e),
                            show_ranges(&got),
                            show_ranges(&want.ranges)
                        ),
                    });
                }
            } else if is_parse(e) && e.code > SOME {
                let want = self.h.ask(&Req::QueryDebug {
                    query: self.text(e.query).to_string(),
                    ext: e.ext,
                });
                if want.code == e.code {
                    return None;
                }
                return Some(Violation {
                    class: "abnormal",
                    what: format!(
                        "{}: parsing {} ended with {}, a new parser does not",
                        self.place(e),
                        self.query_text(e),
                        outcome(e, false)
                    ),
                });
            } else if is_stream(e) && e.code == SOME {
                self.compared += e.iter;
            } else if e.k == E_DIFF {
                return Some(Violation {
                    class: if e.code > SOME { "abnormal" } else { "answer" },
                    what: self.differs(e),
                });
            } else if e.code > SOME && e.code != SKIP && e.k < E_MARK {
                return Some(Violation {
                    class: "abnormal",
                    what: format!(
                        "{}: {} ended with {}",
                        self.place(e),
                        K::ALL[e.k as usize].name(),
                        outcome(e, false)
                    ),
                });
            }
        }
        None
    }

    /// What a stream reports.
    fn differs(&self, e: &Event) -> String {
        let o = &self.plan.phases[e.phase as usize][e.tid as usize][e.idx as usize];
        let mut s = format!("{}: {}", self.place(e), o.k.name());
        if o.k == K::Stream {
            s.push_str(&format!(", {}, query {}", e.spec, self.query_text(e)));
        }
        format!("{s}: {}", e.text)
    }

    /// No more memory is held than the largest inputs account for.
    fn bounded(&mut self) -> V {
        for e in &self.run.events {
            if is_call(e) || is_parse(e) || is_stream(e) {
                self.compared += 1 + e.iter;
            }
        }
        let e = self.run.events.iter().find(|e| e.k == E_EXCESS)?;
        Some(Violation { class: "excess", what: format!("after {}: {}", self.place(e), e.text) })
    }

    /// Debug texts of queries equal those of a new parser's.
    fn query_debugs(&mut self) -> V {
        let run = self.run;
        for e in &run.events {
            if e.k == K::DebugQuery as u8 && e.code == SOME && e.query != NO_TEXT {
                let want = self.h.ask(&Req::QueryDebug {
                    query: self.text(e.query).to_string(),
                    ext: e.ext,
                });
                self.compared += 1;
                if want.code == SOME && want.text != e.text {
                    return Some(Violation {
                        class: "debug",
                        what: format!(
                            "{}: the query parsed from {} prints as {}, freshly parsed as {}",
                            self.place(e),
                            self.query_text(e),
                            clip(&e.text),
                            clip(&want.text)
                        ),
                    });
                }
            }
        }
        None
    }

    fn metric_debugs(&mut self) -> V {
        let run = self.run;
        for e in &run.events {
            if e.k == K::DebugMetric as u8 && e.code == SOME {
                let alt = self.plan.phases[e.phase as usize][e.tid as usize][e.idx as usize].a[1];
                let want = self.h.ask(&Req::MetricDebug { spec: e.spec, alt: alt != 0 });
                self.compared += 1;
                if want.code == SOME && want.text != e.text {
                    return Some(Violation {
                        class: "settings",
                        what: format!(
                            "{}: a metric whose settings should be those of {} prints as {}, a new one as {}",
                            self.place(e), e.spec, clip(&e.text), clip(&want.text)
                        ),
                    });
                }
            }
        }
        None
    }

    /// What the settings are documented to do, on the examples of the documentation.
    fn documented(&mut self) -> V {
        let run = self.run;
        let mut seen: BTreeMap<(u64, &str), (i64, &Event)> = BTreeMap::new();
        for e in &run.events {
            if !is_call(e) || failed(e) || e.query == NO_TEXT || e.cand == NO_TEXT || e.code > SOME
            {
                continue;
            }
            let (q, c) = (&self.texts[e.query as usize], &self.texts[e.cand as usize]);
            let want = match (q.as_str(), c.as_str()) {
                ("abc", "abc") | ("ABC", "ABC") | ("foo", "foo") => true,
                ("abc", "ABC") => e.spec.case != 0,
                ("ABC", "abc") => e.spec.case == 1,
                ("foo", "\u{192}\u{f6}\u{f6}") => e.spec.norm,
                ("foo", "f o o" | "f/o/o") => true,
                _ => continue,
            };
            self.compared += 1;
            if want != (e.code == SOME) {
                return Some(Violation {
                    class: "documented",
                    what: format!(
                        "{}: answered {}, contrary to what is documented for these settings",
                        self.about(e),
                        outcome(e, false)
                    ),
                });
            }
            if c != "f o o" && c != "f/o/o" {
                continue;
            }
            seen.insert((e.spec.pack(), c), (e.score, e));
            let (Some(a), Some(b)) =
                (seen.get(&(e.spec.pack(), "f o o")), seen.get(&(e.spec.pack(), "f/o/o")))
            else {
                continue;
            };
            let ok = match e.spec.scheme {
                0 => a.0 > b.0,
                1 => a.0 < b.0,
                _ => a.0 == b.0,
            };
            if !ok {
                return Some(Violation {
                    class: "documented",
                    what: format!(
                        "{}: \"f o o\" scores {} and \"f/o/o\" scores {}, contrary to what is documented for the scoring scheme",
                        self.about(e),
                        a.0,
                        b.0
                    ),
                });
            }
        }
        None
    }

    /// What the documentation says about the settings for every query and candidate: smart case is
    /// one of the other two modes, depending on the term's letters, and normalization is about
    /// non-ASCII characters of the candidate. On a sample that depends on nothing but the question.
    fn settings_explained(&mut self) -> V {
        let run = self.run;
        for e in &run.events {
            if !is_call(e) || e.code > SOME || e.query == NO_TEXT || e.cand == NO_TEXT {
                continue;
            }
            let (query, cand) = (self.text(e.query).to_string(), self.text(e.cand).to_string());
            let sum = query.bytes().chain(cand.bytes()).map(|b| b as usize).sum::<usize>();
            if (sum + e.spec.pack() as usize) % 3 != 0 || query.len() * cand.len() > 100_000 {
                continue;
            }
            let upper = |s: &str| s.chars().any(char::is_uppercase);
            let mut spec = e.spec;
            let mut why = "";
            if e.spec.case == 2 {
                let all = match &self.plan.texts[e.query as usize] {
                    _ if !e.ext => upper(&query),
                    Text::Terms(g) => g.iter().flatten().all(|t| upper(&t.body)),
                    _ => false,
                };
                if !upper(&query) {
                    (spec.case, why) = (1, "smart case is insensitive for a query without uppercase letters");
                } else if all {
                    (spec.case, why) = (0, "smart case is sensitive for terms with uppercase letters");
                }
            }
            if e.spec.norm && cand.is_ascii() && (why.is_empty() || sum % 2 == 0) {
                spec = Spec { norm: false, ..e.spec };
                why = "normalization does not concern ASCII candidates";
            }
            if why.is_empty() {
                continue;
            }
            let ranges = e.flags & F_RANGES != 0;
            let want = self.h.ask(&Req::Call { spec, query, ext: e.ext, cand, ranges });
            self.compared += 1;
            let mut got = e.clone();
            got.ranges.sort_unstable();
            if want.code <= SOME && outcome(&got, ranges) != outcome(&want, ranges) {
                return Some(Violation {
                    class: "documented",
                    what: format!(
                        "{}: answered {}, but {} and {} answers {}",
                        self.about(e),
                        outcome(&got, ranges),
                        why,
                        spec,
                        outcome(&want, ranges)
                    ),
                });
            }
        }
        None
    }

    fn prefix(&mut self) -> V {
        for e in &self.run.events {
            if e.flags & F_PREFIX != 0 {
                return Some(Violation {
                    class: "buffer",
                    what: format!(
                        "{}: the call disturbed entries that were in the buffer before ({} of them; now {})",
                        self.about(e), e.iter, show_ranges(&e.ranges)
                    ),
                });
            }
        }
        None
    }

    // ------------------------------------------------------------ C03

    fn buffer_contract(&mut self) -> V {
        if let Some(v) = self.prefix() {
            return Some(v);
        }
        let run = self.run;
        for e in &run.events {
            if !is_call(e) || e.flags & F_RANGES == 0 || e.code > SOME {
                continue;
            }
            self.compared += 1;
            if e.code == NONE {
                if !e.ranges.is_empty() {
                    return Some(Violation {
                        class: "no-match-appended",
                        what: format!(
                            "{}: no match, yet {} was appended to the buffer",
                            self.about(e),
                            show_ranges(&e.ranges)
                        ),
                    });
                }
                continue;
            }
            let cand = self.text(e.cand).to_string();
            let mut r = e.ranges.clone();
            r.sort_unstable();
            let mut end = 0u64;
            for (i, x) in r.iter().enumerate() {
                let bad = if x.0 >= x.1 {
                    "empty"
                } else if x.1 > cand.len() as u64 {
                    "outside the candidate"
                } else if !cand.is_char_boundary(x.0 as usize)
                    || !cand.is_char_boundary(x.1 as usize)
                {
                    "not on character boundaries"
                } else if i > 0 && x.0 < end {
                    "overlapping another"
                } else {
                    end = x.1;
                    continue;
                };
                return Some(Violation {
                    class: "range-shape",
                    what: format!(
                        "{}: range {}..{} is {bad} (reported {})",
                        self.about(e),
                        x.0,
                        x.1,
                        show_ranges(&e.ranges)
                    ),
                });
            }
            if let Some((kind, body)) = self.single_term(e) {
                if let Some(v) = self.witness(e, kind, &body, &cand, &r) {
                    return Some(v);
                }
            }
        }
        None
    }

    /// The query of this call if it is one positive term.
    fn single_term(&self, e: &Event) -> Option<(u8, String)> {
        match &self.plan.texts[e.query as usize] {
            t if !e.ext => Some((FUZZY, t.render())),
            Text::Terms(g) if g.len() == 1 && g[0].len() == 1 && !g[0][0].inverse => {
                Some((g[0][0].kind, g[0][0].body.clone()))
            },
            _ => None,
        }
    }

    fn witness(
        &mut self,
        e: &Event,
        kind: u8,
        body: &str,
        cand: &str,
        r: &[(u64, u64)],
    ) -> V {
        let want: Vec<char> = body.chars().collect();
        let covered: Vec<char> =
            r.iter().flat_map(|x| cand[x.0 as usize..x.1 as usize].chars()).collect();
        let complain = |me: &Self, how: &str| {
            Some(Violation {
                class: "witness",
                what: format!(
                    "{}: the reported ranges {} cover {:?}, which {how}",
                    me.about(e),
                    show_ranges(&e.ranges),
                    covered.iter().take(80).collect::<String>()
                ),
            })
        };
        if covered.len() != want.len() {
            return complain(
                self,
                &format!("is {} characters for a term of {}", covered.len(), want.len()),
            );
        }
        if kind != FUZZY && union(r.to_vec()).len() > 1 {
            return complain(self, "is not one contiguous run");
        }
        let case = match e.spec.case {
            2 => !want.iter().any(|c| c.is_uppercase()) as u8,
            c => c,
        };
        let q: BTreeSet<char> = want.iter().copied().collect();
        let c: BTreeSet<char> = covered.iter().copied().collect();
        if q.len() * c.len() > 4000 {
            return None;
        }
        let eq = self.h.ask(&Req::CharEq {
            case,
            norm: e.spec.norm,
            q: q.into_iter().collect(),
            c: c.into_iter().collect(),
        });
        let eq: BTreeSet<(u64, u64)> = eq.ranges.into_iter().collect();
        for (i, (a, b)) in want.iter().zip(&covered).enumerate() {
            if !eq.contains(&(*a as u64, *b as u64)) {
                return complain(
                    self,
                    &format!("has {b:?} where character {i} of the term, {a:?}, should match"),
                );
            }
        }
        None
    }

    // ------------------------------------------------------------ C04

    /// Calls that immediately follow one another on one metric with the same query and candidate
    /// give the same answer whichever method is used; and so do all those of a burst.
    fn methods_agree(&mut self) -> V {
        let run = self.run;
        let mut last: BTreeMap<u32, &Event> = BTreeMap::new();
        let mut bursts: BTreeMap<(u32, u32, u32, u32), &Event> = BTreeMap::new();
        for e in &run.events {
            if e.k == E_DIFF && e.code == 1 {
                return Some(Violation { class: "methods", what: self.differs(e) });
            }
            if is_stream(e) {
                self.compared += e.iter;
            }
            if !is_call(e) || failed(e) {
                last.remove(&e.tid);
                continue;
            }
            let prev = if e.k == K::Burst as u8 {
                bursts.insert((e.tid, e.phase, e.idx, e.cand), e)
            } else {
                let m = self.metric_of(e);
                last.insert(e.tid, e).filter(|p| {
                    p.k != K::Burst as u8
                        && self.metric_of(p) == m
                        && p.query == e.query
                        && p.ext == e.ext
                        && p.cand == e.cand
                        && p.spec == e.spec
                })
            };
            if let Some(p) = prev {
                self.compared += 1;
                let differ = p.code != e.code || p.code == SOME && p.score != e.score;
                if p.code > SOME && differ {
                    continue;
                }
                if differ {
                    let name = |x: &Event| {
                        if x.flags & F_RANGES != 0 {
                            "distance_and_ranges"
                        } else {
                            "distance"
                        }
                    };
                    return Some(Violation {
                        class: "methods",
                        what: format!(
                            "{}: {} answered {}, then {} answered {}",
                            self.about(e),
                            name(p),
                            outcome(p, false),
                            name(e),
                            outcome(e, false)
                        ),
                    });
                }
            }
        }
        None
    }

    fn metric_of(&self, e: &Event) -> u32 {
        self.plan.phases[e.phase as usize][e.tid as usize][e.idx as usize].a[0]
    }

    // ------------------------------------------------------------ C08

    fn ranking(&mut self) -> V {
        let run = self.run;
        let mut seen: BTreeMap<(u64, String, bool, String), &Event> = BTreeMap::new();
        for e in &run.events {
            if e.k == E_DISORDER {
                return Some(Violation {
                    class: "order",
                    what: format!("{}: {}", self.place(e), e.text),
                });
            }
            if !is_call(e) || failed(e) || e.code > SOME {
                continue;
            }
            let k = (
                e.spec.pack(),
                self.text(e.query).to_string(),
                e.ext,
                self.text(e.cand).to_string(),
            );
            self.compared += 1;
            if let Some(p) = seen.get(&k) {
                if p.code != e.code || p.score != e.score {
                    return Some(Violation {
                        class: "distance-depends-on-visit",
                        what: format!(
                            "{}: {}; {} got {}",
                            self.about(e),
                            outcome(e, false),
                            self.place(p),
                            outcome(p, false)
                        ),
                    });
                }
            } else {
                seen.insert(k, e);
            }
        }
        None
    }

    // ------------------------------------------------------------ C10

    fn memory(&mut self) -> V {
        let marks: Vec<&Event> = self.run.events.iter().filter(|e| e.k == E_MARK).collect();
        let n = marks.len();
        if n < 6 {
            return None;
        }
        self.compared += n as u64;
        let early = marks[2..n / 2].iter().map(|e| e.live).max().unwrap_or(0);
        let late = marks[n / 2..].iter().map(|e| e.live).max().unwrap_or(0);
        if late > early {
            let first = marks.iter().position(|e| e.live > early).unwrap_or(0);
            return Some(Violation {
                class: "memory",
                what: format!(
                    "the memory retained after each repetition of one workload keeps growing: \
                     {} bytes in {} blocks after repetition 2, at most {early} bytes until \
                     repetition {}, {} bytes after repetition {first}, {} bytes in {} blocks after \
                     repetition {}",
                    marks[2].live,
                    marks[2].bytes,
                    n / 2 - 1,
                    marks[first].live,
                    marks[n - 1].live,
                    marks[n - 1].bytes,
                    n - 1
                ),
            });
        }
        None
    }

    // ------------------------------------------------------------ C11

    fn heap(&mut self) -> V {
        for e in &self.run.events {
            if e.k == E_BAD {
                let what = ["", "read", "wrote", "freed", "reallocated"][e.code as usize & 7];
                let of = match e.iter {
                    0 => "memory that was never allocated",
                    2 => "memory that had been freed",
                    3 => "memory next to an allocation",
                    4 => "an allocation with the wrong size or alignment",
                    _ => "memory it must not touch",
                };
                let o = &self.plan.phases[e.phase as usize][e.tid as usize][e.idx as usize];
                return Some(Violation {
                    class: "heap",
                    what: format!(
                        "{}: {} {what} {of} ({} bytes)",
                        self.place(e),
                        o.k.name(),
                        e.bytes
                    ),
                });
            }
        }
        match self.run.ended {
            Ended::Signal(s) if s == 11 || s == 7 || s == 6 || s == 4 => {
                let e = self.run.events.last()?;
                if e.code == CRASH && s != 6 {
                    return Some(Violation {
                        class: "heap",
                        what: format!("{}: {}", self.place(e), e.text),
                    });
                }
                None
            },
            _ => None,
        }
    }

    // ------------------------------------------------------------ C13

    fn returns(&mut self) -> V {
        let run = self.run;
        for e in &run.events {
            if e.k >= E_MARK {
                continue;
            }
            if matches!(e.code, PANIC | CRASH | HANG) && !failed(e) {
                return Some(Violation {
                    class: "abnormal",
                    what: format!(
                        "{}{}",
                        if e.query != NO_TEXT { self.about(e) } else { self.place(e) },
                        format_args!(
                            ": {} ended with {}",
                            K::ALL[e.k as usize].name(),
                            outcome(e, false)
                        )
                    ),
                });
            }
            if e.code > SOME {
                continue;
            }
            self.compared += 1;
            let Some((bound, mem, how)) = self.work_bound(e) else { continue };
            if e.steps > bound {
                return Some(Violation {
                    class: "work",
                    what: format!(
                        "{}: {} executed {} steps, {how} would be at most {bound}",
                        if e.query != NO_TEXT { self.about(e) } else { self.place(e) },
                        K::ALL[e.k as usize].name(),
                        e.steps
                    ),
                });
            }
            if e.bytes > mem {
                return Some(Violation {
                    class: "work",
                    what: format!(
                        "{}: {} allocated {} bytes, {how} would be at most {mem}",
                        self.about(e),
                        K::ALL[e.k as usize].name(),
                        e.bytes
                    ),
                });
            }
        }
        None
    }

    /// The most steps and bytes the documented work allows. What the code needs now is a fifth of
    /// that or less, so only a change of the order of growth is found.
    fn work_bound(&self, e: &Event) -> Option<(u64, u64, &'static str)> {
        const FIXED: u64 = 40_000;
        const LINEAR: u64 = 100;
        const PRODUCT: u64 = 60;
        const FIXED_BYTES: u64 = 131_072;
        const LINEAR_BYTES: u64 = 160;
        const PRODUCT_BYTES: u64 = 160;
        let len = |s: &str| s.len() as u64 + 1;
        if is_parse(e) && e.k == K::Parse as u8 {
            let q = len(self.text(e.query));
            let how = "work linear in the query";
            return Some((FIXED + LINEAR * q, FIXED_BYTES + LINEAR_BYTES * q, how));
        }
        if !(e.k == K::Dist as u8 || e.k == K::Ranges as u8) {
            return None;
        }
        let (q, c) = (len(self.text(e.query)), len(self.text(e.cand)));
        let terms = match &self.plan.texts[e.query as usize] {
            Text::Terms(g) if e.ext => g.iter().map(|a| a.len()).sum::<usize>() as u64,
            _ if e.ext => self.text(e.query).split(' ').count() as u64,
            _ => 1,
        };
        let fuzzy = !e.ext
            || matches!(&self.plan.texts[e.query as usize],
                Text::Terms(g) if g.iter().flatten().all(|t| t.kind == FUZZY))
            || !matches!(&self.plan.texts[e.query as usize], Text::Terms(_))
                && !self.text(e.query).contains(['!', '\'', '^', '$', '|', '\\']);
        let inverse = match &self.plan.texts[e.query as usize] {
            Text::Terms(g) => g.iter().flatten().any(|t| t.inverse),
            _ => e.ext && self.text(e.query).contains('!'),
        };
        // reporting ranges may have to merge them with those of earlier terms
        let merge = if e.flags & F_RANGES != 0 && terms > 1 { 40 * terms * c } else { 0 };
        let steps = FIXED + LINEAR * (q + c) * terms + merge;
        let bytes = FIXED_BYTES + LINEAR_BYTES * (q + c) * terms;
        if fuzzy && (e.spec.kind == 1 || e.code == NONE && terms == 1 && !inverse) {
            Some((steps, bytes, "work linear in candidate and query"))
        } else {
            let how = "work in proportion to candidate times query";
            Some((steps + PRODUCT * q * c, bytes + PRODUCT_BYTES * q * c, how))
        }
    }

    // ------------------------------------------------------------ C14

    fn composition(&mut self) -> V {
        let run = self.run;
        for e in &run.events {
            if !is_call(e) || !e.ext || failed(e) || e.query == NO_TEXT || e.cand == NO_TEXT {
                continue;
            }
            let Text::Terms(groups) = &self.plan.texts[e.query as usize] else { continue };
            let groups = groups.clone();
            let ranges = e.flags & F_RANGES != 0;
            let cand = self.text(e.cand).to_string();
            let mut options: Vec<Vec<(i64, Vec<(u64, u64)>)>> = Vec::new();
            let mut abnormal = false;
            let mut missing = None;
            for g in &groups {
                let mut opt = Vec::new();
                for t in g {
                    let a = self.h.ask(&Req::Call {
                        spec: e.spec,
                        query: t.render(),
                        ext: true,
                        cand: cand.clone(),
                        ranges: true,
                    });
                    match a.code {
                        SOME => {
                            let x = (a.score, union(a.ranges));
                            if !opt.contains(&x) {
                                opt.push(x);
                            }
                        },
                        NONE => {},
                        _ => abnormal = true,
                    }
                }
                if opt.is_empty() && missing.is_none() {
                    missing = Some(g.clone());
                }
                options.push(opt);
            }
            if abnormal {
                continue;
            }
            self.compared += 1;
            if e.code > SOME {
                return Some(Violation {
                    class: "abnormal",
                    what: format!(
                        "{}: ended with {}, while each term alone does not",
                        self.about(e),
                        outcome(e, false)
                    ),
                });
            }
            match (e.code, &missing) {
                (SOME, Some(g)) => {
                    return Some(Violation {
                        class: "composition",
                        what: format!(
                            "{}: matched, although no alternative of the group {:?} matches when asked alone",
                            self.about(e),
                            g.iter().map(Term::render).collect::<Vec<_>>()
                        ),
                    });
                },
                (NONE, None) => {
                    return Some(Violation {
                        class: "composition",
                        what: format!(
                            "{}: did not match, although each group has an alternative that matches when asked alone",
                            self.about(e)
                        ),
                    });
                },
                (NONE, _) => continue,
                _ => {},
            }
            // one alternative per group must explain the score and the ranges together
            let got = union(e.ranges.clone());
            let mut states: Vec<(i64, Vec<(u64, u64)>)> = vec![(0, Vec::new())];
            let mut gave_up = false;
            for opt in &options {
                let mut next: Vec<(i64, Vec<(u64, u64)>)> = Vec::new();
                for s in &states {
                    for o in opt {
                        let r = if ranges {
                            let mut r = s.1.clone();
                            r.extend_from_slice(&o.1);
                            union(r)
                        } else {
                            Vec::new()
                        };
                        let x = (s.0 + o.0, r);
                        if !next.contains(&x) {
                            next.push(x);
                        }
                    }
                }
                if next.len() > 256 {
                    gave_up = true;
                    break;
                }
                states = next;
            }
            if gave_up {
                continue;
            }
            if !states.iter().any(|s| s.0 == e.score && (!ranges || s.1 == got)) {
                let mut scores: Vec<i64> = states.iter().map(|s| s.0).collect();
                scores.dedup();
                let by_score = scores.contains(&e.score);
                return Some(Violation {
                    class: "composition",
                    what: if by_score {
                        format!(
                            "{}: reported ranges covering {}, its terms asked alone cover {}",
                            self.about(e),
                            show_ranges(&got),
                            show_ranges(
                                &states.iter().find(|s| s.0 == e.score).unwrap().1
                            )
                        )
                    } else {
                        format!(
                            "{}: score {}, the scores of its terms asked alone sum up to {:?}",
                            self.about(e),
                            e.score,
                            &scores[..scores.len().min(8)]
                        )
                    },
                });
            }
        }
        None
    }

    fn abnormal_end(&mut self) -> V {
        if self.run.done {
            return None;
        }
        let e = self.run.events.last()?;
        if !matches!(e.code, CRASH | HANG) {
            return None;
        }
        Some(Violation {
            class: "abnormal",
            what: format!(
                "{}: {} ended with {}",
                self.place(e),
                K::ALL.get(e.k as usize).map_or("", |k| k.name()),
                outcome(e, false)
            ),
        })
    }

    pub fn judge(&mut self) -> V {
        if self.run.ended == Ended::Exit(seams::EXIT_ARENA_FULL) || self.run.header[H_OVER] != 0 {
            return None;
        }
        match self.plan.prop.as_str() {
            "C01" => self.answers("the reused metric"),
            "C02" => self
                .answers("the metric given a reused parser's query")
                .or_else(|| self.query_debugs()),
            "C03" => self.buffer_contract(),
            "C04" => self.methods_agree(),
            "C05" => self
                .answers("the metric with these most recent settings")
                .or_else(|| self.metric_debugs())
                .or_else(|| self.documented())
                .or_else(|| self.settings_explained()),
            "C06" => self
                .answers("the clone (or cloned instance)")
                .or_else(|| self.metric_debugs())
                .or_else(|| self.query_debugs()),
            "C07" => self
                .deadlock()
                .or_else(|| self.answers("this thread"))
                .or_else(|| self.query_debugs()),
            "C08" => self.ranking(),
            "C09" => self
                .prefix()
                .or_else(|| self.answers("the survivor of a failed allocation"))
                .or_else(|| self.metric_debugs())
                .or_else(|| self.query_debugs()),
            "C10" => self.memory(),
            "C11" => self
                .heap()
                .or_else(|| self.answers("the call under this allocator"))
                .or_else(|| self.query_debugs()),
            "C12" => self
                .answers("the use of a held query")
                .or_else(|| self.query_debugs()),
            "C13" => self.returns(),
            "C14" => self.composition(),
            "C15" => self.bounded().or_else(|| self.abnormal_end()),
            "C16" => self.decisions().or_else(|| self.abnormal_end()),
            "C17" => self.scores().or_else(|| self.abnormal_end()),
            _ => self.abnormal_end(),
        }
    }

    // ------------------------------------------------------------ C16

    /// What matches is what the documented syntax says.
    fn decisions(&mut self) -> V {
        let run = self.run;
        let mut groups: BTreeMap<(u32, bool), Option<Vec<Vec<Term>>>> = BTreeMap::new();
        let mut known: BTreeMap<(u64, u32, bool, u32), Option<bool>> = BTreeMap::new();
        for e in &run.events {
            if e.k == E_DIFF && e.code == 2 {
                return Some(Violation { class: "decision", what: self.differs(e) });
            }
            if is_stream(e) {
                self.compared += e.iter;
            }
            if !is_call(e) || failed(e) || e.code > SOME || e.query == NO_TEXT || e.cand == NO_TEXT
            {
                continue;
            }
            let plan = self.plan;
            let g = groups
                .entry((e.query, e.ext))
                .or_insert_with(|| model::terms(&plan.texts[e.query as usize], e.ext));
            let Some(g) = g else { continue };
            let (q, c) = (&self.texts[e.query as usize], &self.texts[e.cand as usize]);
            if q.len() * c.len() > 4_000_000 {
                continue;
            }
            let want = *known
                .entry((e.spec.pack(), e.query, e.ext, e.cand))
                .or_insert_with(|| model::matches(&e.spec, g, c));
            let Some(want) = want else { continue };
            self.compared += 1;
            if want != (e.code == SOME) {
                return Some(Violation {
                    class: "decision",
                    what: format!(
                        "{}: answered {}, by the documented syntax it {}",
                        self.about(e),
                        outcome(e, false),
                        if want { "matches" } else { "does not match" }
                    ),
                });
            }
        }
        None
    }

    // ------------------------------------------------------------ C17

    fn scores(&mut self) -> V {
        let run = self.run;
        let mut groups: BTreeMap<(u32, bool), Option<Vec<Vec<Term>>>> = BTreeMap::new();
        let mut known: BTreeMap<(u64, u32, bool, u32), Option<(i64, Vec<bool>)>> = BTreeMap::new();
        for e in &run.events {
            if e.k == E_DIFF && e.code == 3 {
                return Some(Violation { class: "score", what: self.differs(e) });
            }
            if is_stream(e) {
                self.compared += e.iter;
            }
            if !is_call(e) || e.code != SOME || e.query == NO_TEXT || e.cand == NO_TEXT {
                continue;
            }
            let plan = self.plan;
            let g = groups
                .entry((e.query, e.ext))
                .or_insert_with(|| model::terms(&plan.texts[e.query as usize], e.ext));
            let Some(g) = g else { continue };
            let (q, c) = (&self.texts[e.query as usize], &self.texts[e.cand as usize]);
            if q.len() * c.len() > model::MOST {
                continue;
            }
            let want = known
                .entry((e.spec.pack(), e.query, e.ext, e.cand))
                .or_insert_with(|| model::scored(&e.spec, g, c));
            let Some((score, bytes)) = want else { continue };
            self.compared += 1;
            let ranges = e.flags & F_RANGES != 0 && e.flags & F_PREFIX == 0;
            if *score != e.score || ranges && !model::covers(&e.ranges, bytes) {
                return Some(Violation {
                    class: "score",
                    what: format!(
                        "{}: answered {}, by the scoring scheme it scores {score} by matching {:?}",
                        self.about(e),
                        outcome(e, ranges),
                        model::ranges_of(bytes)
                    ),
                });
            }
        }
        None
    }

    fn deadlock(&mut self) -> V {
        if self.run.ended == Ended::Exit(seams::EXIT_DEADLOCK) {
            let e = self.run.events.last()?;
            return Some(Violation {
                class: "deadlock",
                what: format!("{}: {}", self.place(e), e.text),
            });
        }
        None
    }
}
