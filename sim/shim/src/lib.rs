//! Thin, non-generic, never-inlined wrappers around norm's public API.
//!
//! This crate and `norm` itself are the only crates compiled with SanitizerCoverage, so that every
//! basic block of the library - also the `#[inline(always)]` parts that are only generated where
//! they are used - is a scheduling point and a counted step of the simulator.

use core::marker::PhantomData;
use core::ops::Range;

use norm::fzf::{FzfDistance, FzfParser, FzfQuery, FzfScheme, FzfV1, FzfV2};
use norm::{CaseSensitivity, Metric as _};

/// Settings, as small integers so that the simulator does not depend on the library's enums.
pub fn case_of(v: u8) -> CaseSensitivity {
    match v {
        0 => CaseSensitivity::Sensitive,
        1 => CaseSensitivity::Insensitive,
        _ => CaseSensitivity::Smart,
    }
}

fn scheme_of(v: u8) -> FzfScheme {
    match v {
        0 => FzfScheme::Default,
        1 => FzfScheme::Path,
        _ => FzfScheme::History,
    }
}

pub enum Metric {
    V1(FzfV1),
    V2(FzfV2),
}

/// Wraps what crosses simulated threads. Whether the library's types really are `Send + Sync` is
/// checked separately (see [`thread_safety`]), so that a change that loses it is reported as a
/// violation instead of breaking the build of the simulator.
pub struct Shared<T>(pub T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

pub struct Parser(FzfParser);

#[derive(Clone, Copy)]
pub struct Query(FzfQuery<'static>);

#[derive(Clone, Copy)]
pub struct Dist(FzfDistance);

#[inline(never)]
pub fn metric_new(kind: u8, how: u8) -> Metric {
    match (kind, how) {
        (1, 0) => Metric::V1(FzfV1::new()),
        (1, _) => Metric::V1(FzfV1::default()),
        (_, 0) => Metric::V2(FzfV2::new()),
        (_, _) => Metric::V2(FzfV2::default()),
    }
}

#[inline(never)]
pub fn metric_clone(m: &Metric) -> Metric {
    match m {
        Metric::V1(m) => Metric::V1(m.clone()),
        Metric::V2(m) => Metric::V2(m.clone()),
    }
}

/// `dst.clone_from(src)`; false if the two are of different kinds.
#[inline(never)]
pub fn metric_clone_from(dst: &mut Metric, src: &Metric) -> bool {
    match (dst, src) {
        (Metric::V1(d), Metric::V1(s)) => d.clone_from(s),
        (Metric::V2(d), Metric::V2(s)) => d.clone_from(s),
        _ => return false,
    }
    true
}

#[inline(never)]
pub fn metric_drop(m: Metric) {
    drop(m)
}

#[inline(never)]
pub fn metric_debug(m: &Metric, alt: bool) -> String {
    match (m, alt) {
        (Metric::V1(m), false) => format!("{m:?}"),
        (Metric::V2(m), false) => format!("{m:?}"),
        (Metric::V1(m), true) => format!("{m:#?}"),
        (Metric::V2(m), true) => format!("{m:#?}"),
    }
}

macro_rules! both {
    ($m:expr, $x:ident => $e:expr) => {
        match $m {
            Metric::V1($x) => {
                $e;
            },
            Metric::V2($x) => {
                $e;
            },
        }
    };
}

#[inline(never)]
pub fn set_case(m: &mut Metric, v: u8) {
    both!(m, x => x.set_case_sensitivity(case_of(v)))
}

#[inline(never)]
pub fn set_norm(m: &mut Metric, v: bool) {
    both!(m, x => x.set_candidate_normalization(v))
}

#[inline(never)]
pub fn set_scheme(m: &mut Metric, v: u8) {
    both!(m, x => x.set_scoring_scheme(scheme_of(v)))
}

/// All three setters chained, in one of the six orders.
#[inline(never)]
pub fn set_all(m: &mut Metric, c: u8, n: bool, s: u8, order: u8) {
    let c = case_of(c);
    let s = scheme_of(s);
    both!(m, x => match order % 6 {
        0 => x.set_case_sensitivity(c).set_candidate_normalization(n).set_scoring_scheme(s),
        1 => x.set_case_sensitivity(c).set_scoring_scheme(s).set_candidate_normalization(n),
        2 => x.set_candidate_normalization(n).set_case_sensitivity(c).set_scoring_scheme(s),
        3 => x.set_candidate_normalization(n).set_scoring_scheme(s).set_case_sensitivity(c),
        4 => x.set_scoring_scheme(s).set_case_sensitivity(c).set_candidate_normalization(n),
        _ => x.set_scoring_scheme(s).set_candidate_normalization(n).set_case_sensitivity(c),
    })
}

#[inline(never)]
pub fn distance(m: &mut Metric, q: Query, candidate: &str) -> Option<Dist> {
    match m {
        Metric::V1(m) => m.distance(q.0, candidate),
        Metric::V2(m) => m.distance(q.0, candidate),
    }
    .map(Dist)
}

#[inline(never)]
pub fn distance_and_ranges(
    m: &mut Metric,
    q: Query,
    candidate: &str,
    ranges: &mut Vec<Range<usize>>,
) -> Option<Dist> {
    match m {
        Metric::V1(m) => m.distance_and_ranges(q.0, candidate, ranges),
        Metric::V2(m) => m.distance_and_ranges(q.0, candidate, ranges),
    }
    .map(Dist)
}

#[inline(never)]
pub fn parser_new(how: u8) -> Parser {
    Parser(if how == 0 { FzfParser::new() } else { FzfParser::default() })
}

#[inline(never)]
pub fn parser_clone(p: &Parser) -> Parser {
    Parser(p.0.clone())
}

#[inline(never)]
pub fn parser_clone_from(dst: &mut Parser, src: &Parser) {
    dst.0.clone_from(&src.0)
}

#[inline(never)]
pub fn parser_drop(p: Parser) {
    drop(p)
}

#[inline(never)]
pub fn parser_debug(p: &Parser) -> String {
    format!("{:?}", p.0)
}

/// # Safety
/// The caller must not use the query after the parser is parsed with again, moved or dropped.
#[inline(never)]
pub unsafe fn parse(p: &mut Parser, text: &str, extended: bool) -> Query {
    let q = if extended { p.0.parse(text) } else { p.0.parse_not_extended(text) };
    Query(core::mem::transmute::<FzfQuery<'_>, FzfQuery<'static>>(q))
}

#[inline(never)]
pub fn query_debug(q: Query) -> String {
    format!("{:?}", q.0)
}

impl Dist {
    #[inline(never)]
    pub fn score(self) -> i64 {
        self.0.into_score() as i64
    }

    /// The results of every comparison operator between two distances, as bits.
    #[inline(never)]
    pub fn compare(self, o: Dist) -> Comparison {
        Comparison {
            cmp: self.0.cmp(&o.0) as i8,
            partial: self.0.partial_cmp(&o.0).map_or(9, |x| x as i8),
            lt: self.0 < o.0,
            le: self.0 <= o.0,
            gt: self.0 > o.0,
            ge: self.0 >= o.0,
            eq: self.0 == o.0,
            ne: self.0 != o.0,
            max_is: self.0.max(o.0) == o.0,
            min_is: self.0.min(o.0) == self.0,
            clamped: self.0.clamp(o.0, o.0).into_score() == o.0.into_score()
                && (self.0 > o.0
                    || self.0.clamp(self.0, o.0).into_score() == self.0.into_score()
                        && o.0.clamp(self.0, o.0).into_score() == o.0.into_score()),
        }
    }

    #[inline(never)]
    pub fn debug(self) -> String {
        format!("{:?}", self.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Comparison {
    pub cmp: i8,
    pub partial: i8,
    pub lt: bool,
    pub le: bool,
    pub gt: bool,
    pub ge: bool,
    pub eq: bool,
    pub ne: bool,
    pub max_is: bool,
    pub min_is: bool,
    pub clamped: bool,
}

/// Sorts indices by distance the way a user would (`sort_by_key`, stable).
#[inline(never)]
pub fn sort_by_distance(items: &mut [(usize, Dist)]) {
    items.sort_by_key(|(_, d)| d.0);
}

/// `sort_unstable`, to exercise a different sequence of comparisons.
#[inline(never)]
pub fn sort_unstable_by_distance(items: &mut [(usize, Dist)]) {
    items.sort_unstable_by(|a, b| a.1 .0.partial_cmp(&b.1 .0).unwrap().then(a.0.cmp(&b.0)));
}

/// Merges two lists that are sorted by distance.
#[inline(never)]
pub fn merge_by_distance(a: &[(usize, Dist)], b: &[(usize, Dist)]) -> Vec<(usize, Dist)> {
    let (mut i, mut j) = (0, 0);
    let mut out = Vec::with_capacity(a.len() + b.len());
    while i < a.len() && j < b.len() {
        if b[j].1 .0 < a[i].1 .0 {
            out.push(b[j]);
            j += 1;
        } else {
            out.push(a[i]);
            i += 1;
        }
    }
    out.extend_from_slice(&a[i..]);
    out.extend_from_slice(&b[j..]);
    out
}

// Detects auto traits without requiring them: the inherent impl wins where the bound holds.
struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait Fallback {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> Fallback for Probe<T> {}
struct SendProbe<T>(PhantomData<T>);
impl<T> Fallback for SendProbe<T> {}
impl<T: Send> SendProbe<T> {
    const SEND: bool = true;
}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}

/// Names of public types that are not `Send` or not `Sync`.
pub fn thread_safety() -> Vec<&'static str> {
    let mut bad = Vec::new();
    macro_rules! check {
        ($($t:ty => $n:literal),*) => {$(
            if !SendProbe::<$t>::SEND { bad.push(concat!($n, " is not Send")); }
            if !Probe::<$t>::SYNC { bad.push(concat!($n, " is not Sync")); }
        )*};
    }
    check!(FzfV1 => "FzfV1", FzfV2 => "FzfV2", FzfParser => "FzfParser",
           FzfQuery<'static> => "FzfQuery", FzfDistance => "FzfDistance", FzfScheme => "FzfScheme",
           CaseSensitivity => "CaseSensitivity");
    bad
}
