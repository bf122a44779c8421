//! Seeded generation of plans: one seed and one run index make exactly one plan.
//!
//! Every run draws its own "swarm" of parameters (alphabet, lengths, kinds of terms, which kinds of
//! activity happen and how often), so that runs differ in character and not only in detail.

use crate::plan::*;

pub struct Rng(u64);

impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() >> 11) as usize % n
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn pct(&mut self, p: u32) -> bool {
        self.below(100) < p as usize
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    /// Log-uniform in 1..=max.
    pub fn log(&mut self, max: usize) -> usize {
        let bits = 64 - (max as u64).leading_zeros() as usize;
        let b = self.range(1, bits.max(1));
        let hi = 1usize << b;
        self.range(hi / 2, hi - 1).clamp(1, max)
    }
}

const ALPHABETS: [&str; 12] = [
    "ab",
    "abc",
    "abAB",
    "abcXYZ019",
    "ab/_-.,:; \\",
    "aeounàéöñÀÉÖfƒsßŁł",
    "éÉüÜ\u{364}aA",
    "中あ😀aB\u{3b1}\u{391}",
    "é\u{2014}aÉ\u{a0}b中\u{663}\u{2003}c\u{b7}x",
    "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-/. ",
    "ab!'^$|\\ ",
    "aA@`[{]}~0\u{10}1\u{11}_\u{1f}?\u{7f}",
];

const SEPS: &str = "/_- .,:;|\\";

const BOUNDARY: [usize; 30] = [
    7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 131, 200, 254, 255,
    256, 257, 258, 300, 511, 512, 513, 514,
];
const LARGE: [usize; 12] = [600, 700, 1000, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 4100];

fn fold(c: char) -> Vec<char> {
    let mut v: Vec<char> = crate::model::LATIN
        .iter()
        .find(|x| x.0 == c)
        .map(|x| x.1.chars().collect())
        .unwrap_or_default();
    if c == 's' {
        v.push('ß');
    }
    // and the uppercase variants
    let upper: Vec<char> = v.iter().map(|c| flip(*c)).filter(|c| !v.contains(c)).collect();
    v.extend(upper);
    v
}

fn flip(c: char) -> char {
    let u: Vec<char> = if c.is_lowercase() {
        c.to_uppercase().collect()
    } else {
        c.to_lowercase().collect()
    };
    if u.len() == 1 {
        u[0]
    } else {
        c
    }
}

/// Alphabets in which what precedes a character matters.
const SCORED: [&str; 9] = [
    "ab /",
    "aA",
    "aAb",
    "aB c,:;|/-_",
    "ab12",
    "aA1x_\u{e9}\u{c9}\u{4e2d}\u{663}",
    "ab\t\u{a0}/:\\.",
    "abcABC /",
    "\u{3007}\u{2177}\u{2167}\u{bd}\u{1c5}\u{aa}\u{2b0}\u{4e2d}b \u{3000}\u{ff0f}",
];

/// Which kinds of activity a profile asks for, with weights.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    Call,
    Pair,
    Scan,
    Aba,
    LongShort,
    QuerySwitch,
    Typing,
    Burst,
    ParseBurst,
    Parse,
    FreshCall,
    Set,
    SetFlip,
    NewMetric,
    DropMetric,
    CloneMetric,
    AssignMetric,
    SwapMetric,
    DebugMetric,
    NewParser,
    CloneParser,
    AssignParser,
    SwapParser,
    DropParser,
    DebugQuery,
    BufNew,
    BufClear,
    BufFill,
    FaultRetry,
    CloneDiverge,
    Churn,
    Stress,
    Stream,
    ParseStream,
    Lineage,
}
use Act::*;

struct Profile {
    acts: Vec<(Act, u32)>,
    metrics: (usize, usize),
    parsers: (usize, usize),
    bufs: (usize, usize),
    ops: (usize, usize),
    queries: (usize, usize),
    /// Percent of operations with a fault.
    faults: u32,
    threads: (usize, usize),
    /// Percent of queries that are structured terms.
    terms: u32,
    harsh: bool,
    /// Percent of runs with long texts; of runs with huge ones.
    long: u32,
    huge: u32,
    dirty_bufs: bool,
    debug: bool,
    /// The work of calls is what matters.
    work: bool,
    /// Answers after very many calls are what matters.
    reuse: bool,
    /// How long streams are.
    many: bool,
    few: bool,
    hoard: bool,
    /// Queries mostly have one term.
    single: bool,
    /// Runs with every letter and its variants.
    latin: bool,
}

fn profile(prop: &str) -> Profile {
    let mut p = Profile {
        acts: vec![],
        metrics: (1, 3),
        parsers: (1, 3),
        bufs: (1, 2),
        ops: (6, 60),
        queries: (1, 5),
        faults: 0,
        threads: (1, 1),
        terms: 55,
        harsh: false,
        long: 50,
        huge: 4,
        dirty_bufs: false,
        debug: true,
        work: false,
        reuse: false,
        many: matches!(prop, "C01" | "C02"),
        hoard: prop == "C15",
        single: prop == "C17",
        latin: matches!(prop, "C16" | "C17"),
        few: matches!(prop, "C07" | "C10"),
    };
    match prop {
        "C01" => {
            p.reuse = true;
            p.metrics = (1, 2);
            p.parsers = (1, 4);
            p.acts = vec![
                (Call, 20),
                (Pair, 4),
                (Scan, 8),
                (Aba, 10),
                (LongShort, 10),
                (QuerySwitch, 10),
                (Typing, 4),
                (Burst, 3),
                (Parse, 8),
                (Set, 3),
                (SetFlip, 3),
                (SwapMetric, 1),
                (BufClear, 2),
                (BufFill, 2),
                (DebugMetric, 1),
                (Stream, 4),
            ];
        },
        "C02" => {
            p.metrics = (1, 1);
            p.parsers = (1, 3);
            p.queries = (3, 9);
            p.acts = vec![
                (FreshCall, 20),
                (Parse, 20),
                (Typing, 5),
                (DebugQuery, 12),
                (ParseBurst, 2),
                (SwapParser, 2),
                (NewParser, 1),
                (Set, 1),
                (ParseStream, 3),
            ];
        },
        "C03" => {
            p.bufs = (1, 3);
            p.terms = 75;
            p.dirty_bufs = true;
            p.acts = vec![
                (Call, 20),
                (Scan, 6),
                (Aba, 4),
                (LongShort, 6),
                (QuerySwitch, 6),
                (Typing, 2),
                (Parse, 10),
                (Set, 3),
                (BufNew, 3),
                (BufClear, 5),
                (BufFill, 5),
                (Burst, 1),
            ];
        },
        "C04" => {
            p.acts = vec![
                (Pair, 40),
                (Call, 4),
                (Scan, 3),
                (LongShort, 3),
                (QuerySwitch, 2),
                (Typing, 2),
                (Burst, 4),
                (Parse, 12),
                (Set, 5),
                (BufFill, 2),
                (BufClear, 2),
                (Stream, 3),
            ];
        },
        "C05" => {
            p.metrics = (1, 3);
            p.acts = vec![
                (Call, 18),
                (SetFlip, 14),
                (Set, 14),
                (Scan, 3),
                (QuerySwitch, 3),
                (Parse, 6),
                (DebugMetric, 6),
                (CloneMetric, 3),
                (AssignMetric, 2),
                (NewMetric, 1),
                (SwapMetric, 1),
                (Burst, 1),
                (Stream, 2),
            ];
        },
        "C06" => {
            p.metrics = (2, 4);
            p.parsers = (2, 4);
            p.acts = vec![
                (Call, 16),
                (CloneDiverge, 12),
                (CloneMetric, 8),
                (AssignMetric, 6),
                (SwapMetric, 3),
                (DropMetric, 3),
                (NewMetric, 2),
                (CloneParser, 6),
                (AssignParser, 4),
                (SwapParser, 2),
                (DropParser, 2),
                (NewParser, 2),
                (Parse, 10),
                (Set, 5),
                (LongShort, 3),
                (QuerySwitch, 2),
                (DebugMetric, 3),
                (DebugQuery, 3),
                (Stream, 2),
                (ParseStream, 1),
                (Lineage, 1),
            ];
        },
        "C07" => {
            p.threads = (2, 4);
            p.metrics = (2, 6);
            p.parsers = (2, 6);
            p.bufs = (2, 4);
            p.ops = (8, 50);
            p.long = 30;
            p.huge = 0;
            p.acts = vec![
                (Call, 24),
                (Scan, 4),
                (Aba, 5),
                (LongShort, 4),
                (QuerySwitch, 5),
                (Parse, 10),
                (Typing, 2),
                (Set, 4),
                (SetFlip, 2),
                (NewMetric, 2),
                (DropMetric, 1),
                (CloneMetric, 3),
                (NewParser, 1),
                (CloneParser, 1),
                (DebugQuery, 2),
                (BufClear, 1),
                (Burst, 1),
                (Stream, 1),
            ];
        },
        "C09" => {
            p.faults = 35;
            p.metrics = (1, 3);
            p.parsers = (1, 3);
            p.long = 85;
            p.acts = vec![
                (FaultRetry, 30),
                (Call, 14),
                (Parse, 10),
                (LongShort, 4),
                (Aba, 3),
                (QuerySwitch, 3),
                (CloneMetric, 3),
                (AssignMetric, 3),
                (CloneParser, 3),
                (AssignParser, 2),
                (NewMetric, 4),
                (NewParser, 4),
                (Set, 2),
                (BufNew, 3),
                (BufFill, 3),
                (DebugMetric, 2),
                (DebugQuery, 2),
                (DropMetric, 1),
                (Stream, 1),
                (ParseStream, 1),
            ];
        },
        "C10" => {
            p.faults = 0;
            p.ops = (3, 16);
            p.metrics = (1, 3);
            p.parsers = (1, 3);
            p.huge = 1;
            p.acts = vec![
                (Call, 14),
                (Parse, 12),
                (LongShort, 4),
                (QuerySwitch, 3),
                (Typing, 3),
                (NewMetric, 4),
                (NewParser, 4),
                (DropMetric, 3),
                (DropParser, 3),
                (CloneMetric, 5),
                (AssignMetric, 3),
                (CloneParser, 4),
                (AssignParser, 3),
                (Set, 3),
                (SwapMetric, 1),
                (DebugMetric, 1),
                (DebugQuery, 1),
                (ParseBurst, 1),
                (Stream, 1),
                (ParseStream, 1),
            ];
        },
        "C11" => {
            p.harsh = true;
            p.parsers = (1, 4);
            p.acts = vec![
                (Call, 20),
                (Aba, 4),
                (LongShort, 8),
                (QuerySwitch, 6),
                (Parse, 14),
                (Typing, 3),
                (Churn, 8),
                (NewMetric, 3),
                (DropMetric, 2),
                (CloneMetric, 4),
                (AssignMetric, 2),
                (SwapMetric, 2),
                (NewParser, 2),
                (DropParser, 2),
                (CloneParser, 4),
                (AssignParser, 2),
                (SwapParser, 2),
                (DebugQuery, 3),
                (BufNew, 2),
                (BufFill, 2),
                (BufClear, 2),
                (Set, 3),
                (Burst, 1),
                (Stream, 2),
                (ParseStream, 1),
            ];
        },
        "C12" => {
            p.metrics = (2, 4);
            p.parsers = (3, 6);
            p.faults = 4;
            p.acts = vec![
                (Call, 26),
                (Churn, 12),
                (Scan, 4),
                (QuerySwitch, 8),
                (DebugQuery, 10),
                (NewMetric, 3),
                (CloneMetric, 3),
                (DropMetric, 2),
                (CloneParser, 4),
                (NewParser, 2),
                (Parse, 3),
                (Set, 5),
                (LongShort, 3),
                (BufClear, 1),
                (Stream, 2),
            ];
        },
        "C13" => {
            p.work = true;
            p.long = 85;
            p.huge = 30;
            p.ops = (4, 40);
            p.acts = vec![
                (Call, 22),
                (LongShort, 12),
                (Stress, 4),
                (Parse, 14),
                (Scan, 3),
                (QuerySwitch, 4),
                (Typing, 3),
                (Set, 4),
                (SwapMetric, 1),
                (CloneMetric, 2),
                (CloneParser, 2),
                (NewParser, 2),
                (NewMetric, 2),
                (BufFill, 2),
                (BufClear, 2),
                (DebugQuery, 2),
                (DebugMetric, 1),
                (Burst, 1),
                (Stream, 2),
                (ParseStream, 1),
            ];
        },
        "C14" => {
            p.terms = 96;
            p.acts = vec![
                (Call, 24),
                (Scan, 5),
                (Aba, 3),
                (LongShort, 5),
                (QuerySwitch, 5),
                (Parse, 16),
                (Set, 4),
                (BufClear, 3),
                (BufFill, 1),
                (CloneMetric, 1),
            ];
        },
        "C16" => {
            p.terms = 75;
            p.metrics = (1, 3);
            p.parsers = (1, 4);
            p.acts = vec![
                (Call, 24),
                (Scan, 8),
                (Aba, 5),
                (LongShort, 6),
                (QuerySwitch, 8),
                (Typing, 4),
                (Parse, 12),
                (Set, 5),
                (SetFlip, 5),
                (Stream, 4),
                (Pair, 2),
                (Burst, 1),
                (CloneMetric, 2),
                (CloneParser, 2),
                (BufClear, 1),
                (BufFill, 1),
            ];
        },
        "C17" => {
            p.terms = 70;
            p.metrics = (1, 3);
            p.parsers = (1, 4);
            p.acts = vec![
                (Call, 26),
                (Scan, 10),
                (Aba, 5),
                (LongShort, 6),
                (QuerySwitch, 8),
                (Parse, 10),
                (Set, 5),
                (SetFlip, 4),
                (Stream, 4),
                (Pair, 2),
                (Burst, 1),
                (CloneMetric, 2),
                (CloneParser, 1),
                (BufClear, 1),
            ];
        },
        "C15" => {
            p.metrics = (2, 3);
            p.parsers = (2, 3);
            p.ops = (4, 24);
            p.long = 35;
            p.huge = 0;
            p.dirty_bufs = true;
            p.acts = vec![
                (Stream, 16),
                (ParseStream, 10),
                (Call, 12),
                (Parse, 8),
                (LongShort, 3),
                (Typing, 3),
                (Burst, 3),
                (ParseBurst, 2),
                (Set, 4),
                (SetFlip, 2),
                (NewMetric, 2),
                (DropMetric, 2),
                (CloneMetric, 3),
                (AssignMetric, 3),
                (SwapMetric, 1),
                (NewParser, 2),
                (DropParser, 2),
                (CloneParser, 3),
                (AssignParser, 3),
                (SwapParser, 1),
                (BufNew, 2),
                (BufFill, 2),
                (BufClear, 3),
                (DebugQuery, 1),
                (DebugMetric, 1),
                (Lineage, 4),
            ];
        },
        _ => {
            p.acts = vec![(Call, 10), (Parse, 5)];
        },
    }
    p
}

struct Swarm {
    alpha: Vec<char>,
    filler: Vec<char>,
    long: bool,
    huge: bool,
    flips: u32,
    folds: u32,
    kinds: [u32; 5],
    inverse: u32,
    alts: u32,
    groups: usize,
    many: bool,
    /// Terms of every kind are long.
    wordy: bool,
    /// Candidates mostly are one word between runs of spaces.
    padded: bool,
    wild: u32,
    not_ext: u32,
    qlong: u32,
    gaps: u32,
    ranges: u32,
}

struct Q {
    text: u32,
    cands: Vec<u32>,
}

#[derive(Clone, Copy)]
struct MState {
    kind: u8,
    case: u8,
    norm: bool,
    scheme: u8,
}

#[derive(Clone, Copy)]
struct PState {
    query: Option<usize>,
}

struct Lane {
    ms: Vec<u32>,
    ps: Vec<u32>,
    bs: Vec<u32>,
    /// Parsers whose query may be read.
    rs: Vec<u32>,
    ops: Vec<Op>,
}

struct Gen {
    r: Rng,
    sw: Swarm,
    pf: Profile,
    texts: Vec<Text>,
    qs: Vec<Q>,
    m: [Option<MState>; SLOTS],
    p: [Option<PState>; SLOTS],
    held: u32,
    deep: bool,
}

pub fn seed_of(prop: &str, seed: u64, index: u64) -> u64 {
    let mut h = seed ^ 0x51_7cc1_b727_220a;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3).rotate_left(17);
    }
    let mut r = Rng(h ^ index.wrapping_mul(0xd134_2543_de82_ef95));
    r.next();
    r.next()
}

pub fn plan(prop: &str, seed: u64, index: u64) -> Plan {
    let mut r = Rng::new(seed_of(prop, seed, index));
    let pf = profile(prop);
    let sw = swarm(&mut r, &pf);
    let mut g = Gen {
        r,
        sw,
        pf,
        texts: Vec::new(),
        qs: Vec::new(),
        m: [None; SLOTS],
        p: [None; SLOTS],
        held: 0,
        deep: false,
    };
    g.deep = g.r.pct(10);
    if g.pf.faults == 0 && !matches!(prop, "C08" | "C10") && g.r.pct(12) {
        g.pf.faults = 8;
        g.pf.acts.push((FaultRetry, 4));
    }
    g.pool();
    if prop == "C05" && g.r.pct(40) {
        g.documented();
    }
    let heap = g.personality();
    let entropy = g.r.next() >> 1;
    let (phases, threads, reps) = match prop {
        "C08" => g.ranking(),
        "C10" => g.repeated(),
        _ => g.history(),
    };
    let sched = g.schedule(threads);
    let tail = g.r.log(5000) as u32 + 100;
    let shared = g.r.pick(&[0, 3, 20, 100, 1000]);
    let p = Plan {
        prop: prop.into(),
        seed,
        index,
        threads,
        heap,
        entropy,
        texts: g.texts,
        phases,
        reps,
        sched,
        tail,
        shared,
    };
    if let Err(e) = p.validate() {
        eprintln!("normsim: generated an invalid plan (run {index}): {e}");
        std::process::exit(3);
    }
    p
}

fn swarm(r: &mut Rng, pf: &Profile) -> Swarm {
    let mut alpha: Vec<char> = ALPHABETS[r.below(ALPHABETS.len())].chars().collect();
    if pf.single && r.pct(50) {
        alpha = SCORED[r.below(SCORED.len())].chars().collect();
    } else if pf.single && r.pct(15) {
        alpha = "a ".chars().collect();
        for _ in 0..r.range(1, 6) {
            let top = r.pick(&[0x300, 0x3000, 0x10000, 0x20000]);
            alpha.extend(char::from_u32(r.range(0x80, top) as u32));
        }
    }
    if r.pct(25) {
        alpha.extend(ALPHABETS[r.below(ALPHABETS.len())].chars());
    }
    let latin = pf.latin && r.pct(8);
    if latin {
        alpha = if r.pct(80) { ('a'..='z').collect() } else { ('A'..='Z').collect() };
    }
    let mut filler: Vec<char> = match r.below(5) {
        0 => alpha.clone(),
        1 => "xyz".chars().collect(),
        2 => SEPS.chars().collect(),
        3 => "xX0/ é".chars().collect(),
        _ => ALPHABETS[r.below(ALPHABETS.len())].chars().collect(),
    };
    if r.pct(30) {
        filler.push(' ');
    }
    let mut kinds = [0; 5];
    for k in &mut kinds {
        *k = if r.pct(60) { r.range(1, 10) as u32 } else { 0 };
    }
    if r.pct(50) || kinds.iter().all(|k| *k == 0) {
        kinds[0] += 12;
    }
    let single = pf.single && r.pct(85);
    let huge = r.pct(pf.huge);
    let wordy = r.pct(if huge { 40 } else { 14 });
    if wordy {
        kinds[r.below(5)] += 12;
    }
    Swarm {
        alpha,
        filler,
        long: r.pct(pf.long),
        huge,
        flips: r.pick(&[0, 0, 10, 50]),
        folds: if latin { 90 } else { r.pick(&[0, 0, 0, 20, 60]) },
        kinds,
        inverse: if single { r.pick(&[0, 0, 5]) } else { r.pick(&[0, 0, 10, 30, 60]) },
        alts: if single { 0 } else { r.pick(&[0, 20, 40]) },
        groups: if single || wordy { r.pick(&[1, 1, 1, 2, 3]) } else { r.pick(&[1, 1, 2, 3, 5]) },
        many: r.pct(8),
        wordy,
        padded: r.pct(6),
        wild: r.pick(&[0, 5, 20]),
        not_ext: r.pick(&[0, 10, 40, 90]),
        qlong: r.pick(&[0, 0, 10, 30]),
        gaps: r.pick(&[0, 20, 50, 80]),
        ranges: r.pick(&[20, 50, 50, 80]),
    }
}

impl Gen {
    fn word(&mut self, n: usize) -> String {
        (0..n).map(|_| self.r.pick(&self.sw.alpha)).collect()
    }

    fn fill(&mut self, n: usize) -> String {
        (0..n).map(|_| self.r.pick(&self.sw.filler)).collect()
    }

    fn qlen(&mut self) -> usize {
        if self.sw.long && self.r.pct(self.sw.qlong) {
            return match self.r.below(10) {
                0..=5 => self.r.pick(&BOUNDARY[..21]),
                6 | 7 => self.r.range(20, 140),
                8 => self.r.pick(&BOUNDARY),
                _ => self.r.range(100, 600),
            };
        }
        match self.r.below(20) {
            0..=9 => self.r.range(1, 3),
            10..=16 => self.r.range(2, 7),
            17..=18 => self.r.range(5, 16),
            _ => self.r.range(10, 40),
        }
    }

    fn clen(&mut self) -> usize {
        if self.sw.long {
            match self.r.below(10) {
                0..=3 => return self.r.pick(&BOUNDARY),
                4 | 5 => return self.r.range(60, 700),
                6 => return self.r.pick(&LARGE),
                _ => {},
            }
        }
        match self.r.below(10) {
            0..=5 => self.r.range(1, 15),
            6..=8 => self.r.range(8, 40),
            _ => self.r.range(0, 120),
        }
    }

    fn add(&mut self, t: Text) -> u32 {
        if let Some(i) = self.texts.iter().position(|x| *x == t) {
            return i as u32;
        }
        self.texts.push(t);
        self.texts.len() as u32 - 1
    }

    fn term_kind(&mut self) -> u8 {
        let total: u32 = self.sw.kinds.iter().sum();
        let mut x = self.r.below(total as usize) as u32;
        for (i, k) in self.sw.kinds.iter().enumerate() {
            if x < *k {
                return i as u8;
            }
            x -= k;
        }
        0
    }

    /// Words separated by single spaces; the pool of texts for the run.
    fn pool(&mut self) {
        let n = self.r.range(self.pf.queries.0, self.pf.queries.1);
        for _ in 0..n {
            let way = self.r.below(100) as u32;
            if !self.qs.is_empty() && way < 18 {
                self.related_query();
            } else if way < 18 + self.sw.wild {
                self.wild_query();
            } else if way < 50 && self.pf.terms > 60 || way > 75 {
                self.query_from_candidate();
            } else {
                self.query_then_candidates();
            }
        }
        // every query also gets candidates of the others, and mutants
        let all: Vec<u32> = self.qs.iter().flat_map(|q| q.cands.iter().copied()).collect();
        for i in 0..self.qs.len() {
            if !all.is_empty() {
                for _ in 0..self.r.below(3) {
                    let c = self.r.pick(&all);
                    self.qs[i].cands.push(c);
                }
            }
            if self.r.pct(60) && !self.qs[i].cands.is_empty() {
                let c = self.r.pick(&self.qs[i].cands);
                let s = self.texts[c as usize].render();
                if s.len() < 5000 {
                    let m = self.mutate(&s);
                    let t = self.add(Text::Raw(m));
                    self.qs[i].cands.push(t);
                }
            }
            if self.r.pct(25) {
                let n = self.clen();
                let s = self.word(n);
                let t = self.add(Text::Raw(s));
                self.qs[i].cands.push(t);
            }
            if self.r.pct(8) {
                let t = self.add(Text::Raw(String::new()));
                self.qs[i].cands.push(t);
            }
        }
    }

    /// The queries and candidates whose answers under each setting are documented
    /// (judge.rs, `documented`).
    fn documented(&mut self) {
        for (q, c) in crate::judge::DOCUMENTED {
            if self.r.pct(40) {
                continue;
            }
            let body = String::from(q);
            let text = if self.r.pct(50) {
                Text::Terms(vec![vec![Term { kind: FUZZY, inverse: false, body }]])
            } else {
                Text::Raw(body)
            };
            let text = self.add(text);
            let cands = c.iter().map(|c| self.add(Text::Raw(String::from(*c)))).collect();
            self.qs.push(Q { text, cands });
        }
    }

    /// With more white space around it.
    fn spaced(&mut self, s: &str) -> String {
        let mut s = String::from(s);
        let ws = if self.r.pct(80) { ' ' } else { self.r.pick(&['\t', '\u{a0}', '\u{3000}']) };
        let n = if self.r.pct(4) { self.r.log(400) } else { self.r.range(1, 3) };
        for _ in 0..n {
            if self.r.pct(50) {
                s.insert(0, ws);
            } else {
                s.push(ws);
            }
        }
        s
    }

    fn clean_body(&mut self, n: usize) -> String {
        for _ in 0..6 {
            let mut s = self.word(n);
            if self.r.pct(80) {
                s = s.replace([' ', '\\'], "x");
            }
            if Term::clean(&s) {
                return s;
            }
        }
        "ab".chars().cycle().take(n.max(1)).collect()
    }

    fn query_then_candidates(&mut self) {
        let structured = self.r.pct(self.pf.terms);
        let mut words: Vec<String> = Vec::new();
        let text = if structured {
            // terms as short as they can be, many of them: as many as fit in that much text
            let dense = self.sw.many && self.r.pct(40);
            let ng = if dense || self.sw.many && self.r.pct(40) {
                self.r.pick(&[33, 63, 64, 65, 66, 67, 70, 90, 127, 128, 129, 130, 255, 256, 257])
            } else {
                self.r.range(1, self.sw.groups)
            };
            let mut groups = Vec::new();
            for _ in 0..ng {
                let na = if !dense && self.r.pct(self.sw.alts) {
                    if ng < 6 && self.r.pct(5) {
                        self.r.pick(&[4, 7, 15, 16, 17, 33, 64, 65, 129, 255, 256, 257])
                    } else {
                        self.r.range(2, 3)
                    }
                } else {
                    1
                };
                let mut alts = Vec::new();
                for _ in 0..na {
                    let n = if dense {
                        1
                    } else if ng > 10 || na > 3 {
                        self.r.range(1, 3)
                    } else if self.sw.wordy && self.r.pct(60) {
                        match self.r.below(6) {
                            0 => self.r.pick(&BOUNDARY[..21]),
                            1 => self.r.range(60, 140),
                            _ => self.r.range(9, 70),
                        }
                    } else {
                        self.qlen()
                    };
                    let body = if dense && self.r.pct(95) {
                        String::from(self.r.pick(&['a', 'b', 'x']))
                    } else {
                        self.clean_body(n)
                    };
                    let inverse = !dense && self.r.pct(self.sw.inverse);
                    let kind = if dense { FUZZY } else { self.term_kind() };
                    let body = if kind != FUZZY && self.r.pct(12) {
                        self.spaced(&body)
                    } else {
                        body
                    };
                    if !inverse {
                        words.push(body.clone());
                    }
                    alts.push(Term { kind, inverse, body });
                }
                groups.push(alts);
            }
            Text::Terms(groups)
        } else {
            let n = self.qlen();
            let mut s = self.word(n);
            if self.r.pct(15) {
                let k = self.qlen().min(40);
                let w = self.word(k);
                s.push(' ');
                s.push_str(&w);
            }
            words.push(s.clone());
            Text::Raw(s)
        };
        let t = self.add(text);
        let n = self.r.range(1, 4);
        let mut cands = Vec::new();
        for _ in 0..n {
            cands.push(self.candidate(&words));
        }
        for w in &words {
            if w.starts_with(' ') || w.ends_with(' ') || self.r.pct(2) {
                // white space at the ends counts for some kinds of terms and is ignored for others
                let mut s = w.clone();
                if self.r.pct(50) {
                    let k = self.r.range(1, 4);
                    let f = self.fill(k);
                    s = if self.r.pct(50) { format!("{f}{s}") } else { format!("{s}{f}") };
                }
                let s = self.dress(&s);
                let s = self.spaced(&s);
                cands.push(self.add(Text::Raw(s)));
            }
        }
        self.qs.push(Q { text: t, cands });
    }

    fn wild_query(&mut self) {
        if self.r.pct(60) {
            return self.odd_query();
        }
        let n = self.r.range(0, 14);
        let sp: Vec<char> = "!'^$|\\ abAé".chars().collect();
        let s: String = (0..n).map(|_| self.r.pick(&sp)).collect();
        let w: String = s.chars().filter(|c| !"!'^$|\\ ".contains(*c)).collect();
        let t = self.add(Text::Raw(s.clone()));
        let mut cands = vec![self.candidate(&[w]), self.candidate(&[s.clone()])];
        cands.push(self.add(Text::Raw(s)));
        self.qs.push(Q { text: t, cands });
    }

    /// Words with markers where they mean something, where they do not, and with nothing left
    /// without them; bars that separate nothing.
    fn odd_query(&mut self) {
        let mut s = String::new();
        let mut words = Vec::new();
        for _ in 0..self.r.range(1, 5) {
            if self.r.pct(25) {
                s.push_str(self.r.pick(&["|", "| |", "||", "|a", "a|", "!|", "\\|", "'|"]));
            } else {
                let k = if self.r.pct(12) { 0 } else { self.qlen().min(20) };
                let mut body = if k == 0 { String::new() } else { self.word(k).replace(' ', "\\ ") };
                if self.r.pct(30) {
                    // a marker inside
                    let at = self.r.below(body.chars().count() + 1);
                    let at = body.char_indices().nth(at).map_or(body.len(), |x| x.0);
                    body.insert_str(at, self.r.pick(&["!", "'", "^", "$", "|", "\\", "\\ "]));
                }
                let start = self.r.pick(&[
                    "", "", "", "!", "'", "^", "!'", "!^", "''", "^^", "!!", "'^", "^'", "^!", "'!",
                    "\\ ", "^\\ ", "!\\ ",
                ]);
                let end = self.r.pick(&["", "", "", "$", "$$", "'", "\\", "^", "!", "\\ ", "$\\ ", "\\ $"]);
                s.push_str(start);
                s.push_str(&body);
                s.push_str(end);
                let mut w = body.replace("\\ ", " ");
                if self.r.pct(40) {
                    // what of it is left depends on which markers are removed
                    let a = start.replace("\\ ", " ");
                    let z = end.replace("\\ ", " ");
                    let a: String = a.chars().skip(self.r.below(3)).collect();
                    let z: String = z.chars().take(self.r.below(2)).collect();
                    w = format!("{a}{w}{z}");
                }
                words.push(w);
            }
            s.push_str(self.r.pick(&[" ", " ", " ", " ", "  "]));
        }
        if self.r.pct(70) {
            s.truncate(s.trim_end_matches(' ').len());
        }
        if self.r.pct(10) {
            s.insert(0, ' ');
        }
        words.retain(|w| !w.is_empty());
        let t = self.add(Text::Raw(s.clone()));
        let mut cands = Vec::new();
        for _ in 0..self.r.range(1, 3) {
            cands.push(self.candidate(&words));
        }
        if !words.is_empty() {
            let w = self.r.below(words.len());
            let w = words[w].clone();
            cands.push(self.add(Text::Raw(w)));
        }
        self.qs.push(Q { text: t, cands });
    }

    /// A query close to an earlier one.
    fn related_query(&mut self) {
        let i = self.r.below(self.qs.len());
        let (text, cands) = (self.texts[self.qs[i].text as usize].clone(), self.qs[i].cands.clone());
        let new = match text {
            Text::Terms(mut g) => {
                let gi = self.r.below(g.len());
                let ai = self.r.below(g[gi].len());
                match self.r.below(7) {
                    0 => {
                        let b = self.mutate(&g[gi][ai].body);
                        if Term::clean(&b) {
                            g[gi][ai].body = b;
                        }
                    },
                    1 => g[gi][ai].kind = self.r.below(5) as u8,
                    2 => g[gi][ai].inverse ^= true,
                    3 => {
                        if g.len() > 1 {
                            g.remove(gi);
                        }
                    },
                    4 => {
                        let x = g[gi].clone();
                        g.push(x);
                    },
                    5 => g.reverse(),
                    _ => {
                        let t = g[gi][ai].clone();
                        g[gi].push(Term { kind: self.r.below(5) as u8, ..t });
                    },
                }
                Text::Terms(g)
            },
            other => {
                let s = other.render();
                Text::Raw(match self.r.below(4) {
                    0 => self.mutate(&s),
                    1 => s.chars().map(flip).collect(),
                    2 => {
                        let n = s.chars().count();
                        let k = self.r.below(n + 1);
                        s.chars().take(k).collect()
                    },
                    _ => {
                        let k = self.r.range(1, 3);
                        format!("{s}{}", self.word(k))
                    },
                })
            },
        };
        let t = self.add(new);
        self.qs.push(Q { text: t, cands });
    }

    /// Terms cut out of a candidate, so that they overlap in it - and some that are not in it.
    fn query_from_candidate(&mut self) {
        let n = self.clen().clamp(2, 600);
        let text: Vec<char> = if self.r.pct(70) {
            self.word(n).chars().collect()
        } else {
            self.fill(n).chars().collect()
        };
        let c = self.add(Text::Raw(text.iter().collect()));
        let ng = self.r.range(1, self.sw.groups + 2);
        let mut groups = Vec::new();
        for _ in 0..ng {
            let na = if self.r.pct(self.sw.alts) { self.r.range(2, 3) } else { 1 };
            let mut alts = Vec::new();
            for _ in 0..na {
                let len = self.r.log(if self.sw.wordy { 150 } else { 12 }.min(n));
                let st = self.r.below(n - len + 1);
                let kind = self.term_kind();
                let mut body: String = match kind {
                    FUZZY if self.r.pct(60) => {
                        let step = self.r.log(8);
                        text[st..].iter().step_by(step).take(len).collect()
                    },
                    PREFIX => text[..len].iter().collect(),
                    SUFFIX => text[n - len..].iter().collect(),
                    EQUAL => text.iter().collect(),
                    _ => text[st..st + len].iter().collect(),
                };
                if self.r.pct(self.sw.flips) {
                    body = body.to_lowercase();
                }
                let mut inverse = self.r.pct(self.sw.inverse / 2);
                if self.r.pct(15) {
                    body = self.mutate(&body);
                }
                if self.r.pct(12) {
                    // not in the candidate
                    body.push('~');
                    inverse = self.r.pct(30);
                }
                if !Term::clean(&body) {
                    body = body.replace(['!', '\'', '^', '|', '$', '\\'], "q");
                    if !Term::clean(&body) {
                        body = "a".into();
                    }
                }
                alts.push(Term { kind, inverse, body });
            }
            groups.push(alts);
        }
        let mut cands = vec![c];
        for _ in 0..self.r.range(1, 2) {
            let s: String = text.iter().collect();
            let m = self.mutate(&s);
            let m = self.add(Text::Raw(m));
            cands.push(m);
        }
        let t = self.add(Text::Terms(groups));
        self.qs.push(Q { text: t, cands });
    }

    fn dress(&mut self, s: &str) -> String {
        let (fl, fo) = (self.sw.flips, self.sw.folds);
        s.chars()
            .map(|c| {
                let f = fold(c);
                if !f.is_empty() && self.r.pct(fo) {
                    self.r.pick(&f)
                } else if self.r.pct(fl) {
                    flip(c)
                } else {
                    c
                }
            })
            .collect()
    }

    /// A text in which the words are found (mostly).
    fn candidate(&mut self, words: &[String]) -> u32 {
        let mut words: Vec<String> = words.to_vec();
        if words.len() > 8 {
            let k = self.r.range(1, 8);
            words.truncate(k);
        }
        if words.is_empty() {
            words.push(self.word(2));
        }
        if self.r.pct(if self.sw.padded { 40 } else { 1 }) {
            let i = self.r.below(words.len());
            return self.padded(&words[i]);
        }
        let way = if self.sw.wordy && self.r.pct(35) { 5 } else { self.r.below(13) };
        let mut s = String::new();
        match way {
            0 => s = words.concat(),
            1 => s = words[0].clone(),
            2 => s = words.join(" "),
            3 => {
                // the match twice, spread first
                for w in &words {
                    for c in w.chars() {
                        s.push(c);
                        let k = self.r.below(4);
                        s.push_str(&self.fill(k));
                    }
                }
                s.push_str(&words.concat());
            },
            4 => {
                // interleaved words
                let mut its: Vec<Vec<char>> = words.iter().map(|w| w.chars().collect()).collect();
                while its.iter().any(|w| !w.is_empty()) {
                    let i = self.r.below(its.len());
                    if !its[i].is_empty() {
                        s.push(its[i].remove(0));
                    }
                    if self.r.pct(self.sw.gaps / 2) {
                        s.push_str(&self.fill(1));
                    }
                }
            },
            5 => {
                // one of them several times, each time after something else
                let i = self.r.below(words.len());
                let w = words[i].clone();
                for _ in 0..self.r.range(2, 4) {
                    match self.r.below(4) {
                        0 => s.push(self.r.pick(&SEPS.chars().collect::<Vec<_>>())),
                        1 => s.push(self.r.pick(&['x', 'X', '0', 'é', 'a'])),
                        2 => {
                            // what begins like it
                            let k = self.r.below(w.chars().count() + 1);
                            s.extend(w.chars().take(k));
                        },
                        _ => {
                            let k = self.r.below(3);
                            s.push_str(&self.fill(k));
                        },
                    }
                    s.push_str(&w);
                }
                if words.len() > 1 && self.r.pct(70) {
                    s.push_str(&words.concat());
                }
            },
            _ => {
                if self.r.pct(30) {
                    words.reverse();
                }
                for w in &words {
                    let per_char = self.r.pct(50);
                    for c in w.chars() {
                        s.push(c);
                        if per_char && self.r.pct(self.sw.gaps) {
                            let k = match self.r.below(40) {
                                0..=28 => 1,
                                29..=36 => self.r.range(1, 6),
                                37 | 38 => self.r.range(5, 40),
                                // what was matched so far is worth that many gaps
                                _ if w.len() > 9 && self.r.pct(50) => {
                                    self.r.range(100, 20 * w.len().min(100))
                                },
                                _ => self.r.range(20, 150),
                            };
                            s.push_str(&self.fill(k));
                        }
                    }
                    let k = self.r.below(3);
                    s.push_str(&self.fill(k));
                }
                if self.r.pct(12) {
                    // break it near its end
                    s.pop();
                }
            },
        }
        let mut s = self.dress(&s);
        if self.r.pct(8) {
            s = self.spaced(&s);
        }
        if self.r.pct(70) {
            let have = s.chars().count();
            let want = self.clen();
            if want > have {
                let before = self.r.below(want - have + 1);
                let (a, b) = (self.fill(before), self.fill(want - have - before));
                s = format!("{a}{s}{b}");
            }
        }
        if self.sw.huge && self.r.pct(40) && s.len() < 3000 {
            if self.r.pct(12) {
                // nothing but spaces around it
                let (a, b) = (self.r.log(9000), self.r.log(9000));
                let (a, b) = self.r.pick(&[(0, b), (a, 0), (a, b), (0, 6000)]);
                let mut pieces = vec![(" ".into(), a as u32), (s, 1), (" ".into(), b as u32)];
                pieces.retain(|(u, n): &(String, u32)| !u.is_empty() && *n > 0);
                if !pieces.is_empty() {
                    return self.add(Text::Runs(pieces));
                }
                return self.add(Text::Raw(String::new()));
            }
            let n = self.r.range(1, 20);
            let unit = if self.r.pct(50) { self.fill(n) } else { self.word(n) };
            let total = self.r.pick(&[3000, 8000, 20_000, 40_000, 66_000, 70_000]);
            if self.r.pct(20) {
                // all of it in one place
                let times = self.r.pick(&[0, total]) / unit.chars().count().max(1);
                let before = (total / unit.chars().count().max(1)) as u32;
                let mut pieces = vec![(unit.clone(), before), (s, 1), (unit, times as u32)];
                pieces.retain(|(u, n)| !u.is_empty() && *n > 0);
                return self.add(Text::Runs(pieces));
            }
            if self.r.pct(60) {
                let total = if self.r.pct(50) { self.r.range(66_000, 90_000) } else { total };
                return self.far(&s, total);
            }
            let times = total / unit.chars().count().max(1);
            return self.add(Text::Rep(unit, times as u32, s));
        }
        self.add(Text::Raw(s))
    }

    /// One word with (many) spaces, or something else, before and after it.
    fn padded(&mut self, word: &str) -> u32 {
        let mut pieces: Vec<(String, u32)> = Vec::new();
        let core = self.dress(word);
        let side = |g: &mut Gen| {
            let mut v: Vec<(String, u32)> = Vec::new();
            if g.r.pct(25) {
                let k = g.r.range(1, 4);
                let f = g.fill(k);
                let many = if g.sw.huge && g.r.pct(40) { g.r.log(80_000) } else { g.r.log(600) };
                let times = if g.r.pct(40) { (many / k).max(1) } else { 1 };
                v.push((f, times as u32));
            }
            if g.r.pct(60) {
                let n = match g.r.below(4) {
                    0 => g.r.range(1, 4),
                    1 => g.r.log(1200),
                    2 => g.r.pick(&BOUNDARY),
                    _ if g.sw.huge => g.r.log(70_000),
                    _ => g.r.log(5000),
                };
                v.push((" ".into(), n as u32));
            }
            if g.r.pct(30) {
                v.reverse();
            }
            v
        };
        pieces.extend(side(self));
        pieces.push((core, 1));
        pieces.extend(side(self));
        pieces.retain(|(u, n)| !u.is_empty() && *n > 0);
        if pieces.is_empty() {
            return self.add(Text::Raw(String::new()));
        }
        self.add(Text::Runs(pieces))
    }

    /// The text in pieces, far from each other.
    fn far(&mut self, s: &str, total: usize) -> u32 {
        let mut v: Vec<char> = s.chars().collect();
        let unit = match self.r.below(5) {
            0 => self.word(1),
            1 => self.fill(2),
            2 => String::from("—"),
            _ => String::from(self.r.pick(&["-", "~", "_ "])),
        };
        let n = self.r.range(1, 4);
        let mut pieces = Vec::new();
        for k in 0..n {
            let at = if k + 1 == n { v.len() } else { self.r.below(v.len() + 1) };
            let rest = v.split_off(at);
            pieces.push((v.iter().collect(), 1));
            v = rest;
            let share = total / n + self.r.below(total / n + 1);
            let times = share / unit.chars().count().max(1);
            pieces.push((unit.clone(), times as u32 + 1));
        }
        if self.r.pct(70) {
            // the last piece is at the very end
            let i = pieces.len();
            pieces.swap(i - 1, i - 2);
        }
        if self.r.pct(60) {
            let times = self.r.below(total / n + 1) / unit.chars().count().max(1);
            pieces.insert(0, (unit.clone(), times as u32));
        }
        pieces.retain(|(u, n): &(String, u32)| !u.is_empty() && *n > 0);
        self.add(Text::Runs(pieces))
    }

    /// A text of (mostly) the same length.
    fn mutate(&mut self, s: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        let n = v.len();
        if n == 0 {
            return self.word(1);
        }
        match self.r.below(9) {
            0 => {
                let i = self.r.below(n);
                v[i] = self.r.pick(&self.sw.alpha);
            },
            1 => {
                let (i, j) = (self.r.below(n), self.r.below(n));
                v.swap(i, j);
            },
            2 => {
                let k = self.r.below(n);
                v.rotate_left(k);
            },
            3 => v = v.into_iter().map(flip).collect(),
            4 => {
                let i = self.r.below(n);
                v[i] = flip(v[i]);
            },
            5 => v.reverse(),
            6 => {
                v.remove(self.r.below(n));
            },
            7 => {
                let i = self.r.below(n + 1);
                v.insert(i, self.r.pick(&self.sw.filler));
            },
            _ => {
                // the middle changes, both ends stay
                if n > 2 {
                    let (a, b) = (self.r.range(1, n - 2), self.r.range(1, n - 2));
                    for c in &mut v[a.min(b)..=a.max(b)] {
                        *c = self.r.pick(&self.sw.filler);
                    }
                } else {
                    v[0] = flip(v[0]);
                }
            },
        }
        v.into_iter().collect()
    }

    fn personality(&mut self) -> Personality {
        if self.pf.harsh {
            return Personality {
                move_always: self.r.pct(75),
                fill: self.r.pick(&[0, 1, 2, 3, 3, 4]),
                reuse: self.r.pick(&[0, 0, 50, 100, 100]),
                slop: self.r.pct(60),
            };
        }
        Personality {
            move_always: self.r.pct(50),
            fill: self.r.below(5) as u8,
            reuse: self.r.pick(&[0, 50, 90, 100]),
            slop: self.r.pct(40),
        }
    }

    fn schedule(&mut self, threads: usize) -> Vec<(u32, u8)> {
        if threads < 2 {
            return Vec::new();
        }
        let n = self.r.log(250);
        let top = self.r.pick(&[8, 60, 400, 3000]);
        (0..n)
            .map(|_| {
                let b = if self.r.pct(12) { self.r.log(20_000) } else { self.r.log(top) };
                (b as u32, self.r.below(3) as u8)
            })
            .collect()
    }

    fn fault(&mut self) -> (u8, u64) {
        match self.r.below(10) {
            0..=4 => (1, self.r.log(12) as u64),
            5 | 6 => (2, self.r.log(8) as u64),
            7 | 8 => (3, self.r.pick(&[1, 65, 129, 257, 513, 600, 1024, 2048, 4096, 9000])),
            _ => (4, self.r.pick(&[0, 4000, 16_000, 40_000, 100_000, 400_000])),
        }
    }

    fn pick_act(&mut self) -> Act {
        let total: u32 = self.pf.acts.iter().map(|a| a.1).sum();
        let mut x = self.r.below(total as usize) as u32;
        for (a, w) in &self.pf.acts {
            if x < *w {
                return *a;
            }
            x -= w;
        }
        Call
    }

    // ------------------------------------------------------------ operations

    fn op(&mut self, l: &mut Lane, k: K, a: &[u32]) {
        l.ops.push(Op::new(k, a));
    }

    fn new_metric(&mut self, l: &mut Lane, s: u32) {
        let kind = if self.r.pct(50) { 1 } else { 2 };
        let how = self.r.below(2) as u32;
        self.op(l, K::NewMetric, &[s, kind, how]);
        self.m[s as usize] = Some(MState { kind: kind as u8, case: 2, norm: false, scheme: 0 });
        if self.r.pct(60) {
            self.set_random(l, s);
        }
    }

    fn set_random(&mut self, l: &mut Lane, s: u32) {
        let Some(mut st) = self.m[s as usize] else { return };
        match self.r.below(5) {
            0 => {
                st.case = self.r.below(3) as u8;
                self.op(l, K::SetCase, &[s, st.case as u32]);
            },
            1 => {
                st.norm = self.r.pct(50);
                self.op(l, K::SetNorm, &[s, st.norm as u32]);
            },
            2 => {
                st.scheme = self.r.below(3) as u8;
                self.op(l, K::SetScheme, &[s, st.scheme as u32]);
            },
            _ => {
                st.case = self.r.below(3) as u8;
                st.norm = self.r.pct(50);
                st.scheme = self.r.below(3) as u8;
                self.set_state(l, s, st);
            },
        }
        self.m[s as usize] = Some(st);
    }

    /// How often something that usually happens once happens before that.
    fn again(&mut self) -> u32 {
        if self.pf.hoard && self.r.pct(25) {
            self.r.pick(&[100, 300, 1030])
        } else if self.r.pct(3) {
            self.r.pick(&[1, 2, 7, 100, 254, 255, 256, 257])
        } else {
            0
        }
    }

    fn set_state(&mut self, l: &mut Lane, s: u32, st: MState) {
        let order = self.r.below(6) as u32;
        let v = st.case as u32 | (st.norm as u32) << 4 | (st.scheme as u32) << 8;
        let before = match self.again() {
            1030 if self.r.pct(30) => 12_000,
            n => n * if self.pf.hoard { 3 } else { 1 },
        };
        self.op(l, K::SetAll, &[s, v, order, before]);
        self.m[s as usize] = Some(st);
    }

    fn new_parser(&mut self, l: &mut Lane, s: u32) {
        let how = self.r.below(2) as u32;
        self.op(l, K::NewParser, &[s, how]);
        self.p[s as usize] = Some(PState { query: None });
    }

    fn parse(&mut self, l: &mut Lane, s: u32, q: usize) {
        let t = self.qs[q].text;
        let ext = !self.r.pct(self.sw.not_ext) as u32;
        self.op(l, K::Parse, &[s, t, ext]);
        self.p[s as usize] = Some(PState { query: Some(q) });
    }

    /// A live metric of this lane, made if there is none.
    fn metric(&mut self, l: &mut Lane) -> u32 {
        let live: Vec<u32> =
            l.ms.iter().copied().filter(|s| self.m[*s as usize].is_some()).collect();
        if live.is_empty() {
            let s = self.r.pick(&l.ms);
            self.new_metric(l, s);
            s
        } else {
            self.r.pick(&live)
        }
    }

    /// A parser with a query this lane may use, made if there is none.
    fn query(&mut self, l: &mut Lane) -> Option<u32> {
        let live: Vec<u32> = l
            .ps
            .iter()
            .chain(&l.rs)
            .copied()
            .filter(|s| self.p[*s as usize].is_some_and(|p| p.query.is_some()))
            .collect();
        if !live.is_empty() {
            return Some(self.r.pick(&live));
        }
        if l.ps.is_empty() {
            return None;
        }
        let s = self.r.pick(&l.ps);
        if self.p[s as usize].is_none() {
            self.new_parser(l, s);
        }
        let q = self.r.below(self.qs.len());
        self.parse(l, s, q);
        Some(s)
    }

    fn cand(&mut self, p: u32) -> u32 {
        let q = self.p[p as usize].and_then(|p| p.query).unwrap_or(0);
        let own = self.qs[q].cands.clone();
        if own.is_empty() || self.r.pct(12) {
            let i = self.r.below(self.qs.len());
            let c = self.qs[i].cands.clone();
            if c.is_empty() {
                return self.add(Text::Raw(String::new()));
            }
            return self.r.pick(&c);
        }
        self.r.pick(&own)
    }

    fn buf(&mut self, l: &Lane) -> u32 {
        self.r.pick(&l.bs)
    }

    fn size(&self, t: u32) -> usize {
        match &self.texts[t as usize] {
            Text::Raw(s) => s.len(),
            Text::Rep(u, n, e) => u.len() * *n as usize + e.len(),
            Text::Runs(v) => v.iter().map(|(u, n)| u.len() * *n as usize).sum(),
            t => t.render().len(),
        }
    }

    /// Keeps the work of one run bounded.
    fn fit(&mut self, m: u32, p: u32, c: u32) -> u32 {
        let q = self.p[p as usize].and_then(|p| p.query).unwrap_or(0);
        // (one metric is linear where the other is not)
        let linear = self.m[m as usize].is_some_and(|m| m.kind == 1);
        let most = if linear && self.pf.work { 12_000_000 } else { 4_000_000 };
        if self.size(self.qs[q].text) * self.size(c) > most {
            return self.add(Text::Raw("ab".into()));
        }
        c
    }

    fn call(&mut self, l: &mut Lane, m: u32, p: u32, c: u32) {
        let c = self.fit(m, p, c);
        if self.r.pct(self.sw.ranges) && !l.bs.is_empty() {
            let b = self.buf(l);
            self.op(l, K::Ranges, &[m, p, c, b]);
        } else {
            self.op(l, K::Dist, &[m, p, c]);
        }
    }

    fn long_text(&mut self, p: u32, longest: bool) -> u32 {
        let q = self.p[p as usize].and_then(|p| p.query).unwrap_or(0);
        let mut all = self.qs[q].cands.clone();
        if self.r.pct(40) {
            all.extend(self.qs.iter().flat_map(|q| q.cands.iter().copied()));
        }
        if all.is_empty() {
            return self.cand(p);
        }
        all.sort_by_key(|t| self.size(*t));
        if longest {
            all[all.len() - 1]
        } else {
            all[0]
        }
    }

    fn add_burst_texts(&mut self, p: u32, most: usize) -> (u32, u32) {
        let n = self.r.range(1, 4);
        let first = self.texts.len() as u32;
        for _ in 0..n {
            let c = self.cand(p);
            let t = self.texts[c as usize].clone();
            let s = t.render();
            let t = if s.len() > most { Text::Raw(s.chars().take((most / 2).max(1)).collect()) } else { t };
            self.texts.push(t);
        }
        (first, n as u32)
    }

    /// What a query looks for.
    fn words_of(&self, q: usize) -> Vec<String> {
        match &self.texts[self.qs[q].text as usize] {
            Text::Terms(g) => g
                .iter()
                .filter_map(|a| a.iter().find(|t| !t.inverse).map(|t| t.body.clone()))
                .collect(),
            t => vec![t.render()],
        }
    }

    /// A text with the same characters the query looks for, between others.
    fn reshape(&mut self, q: usize, s: &str) -> String {
        let keep: Vec<char> = self.words_of(q).concat().chars().collect();
        let p = self.r.pick(&[20, 60, 100]);
        s.chars()
            .map(|c| {
                if !keep.contains(&c) && self.r.pct(p) {
                    if self.r.pct(60) {
                        self.r.pick(&SEPS.chars().collect::<Vec<_>>())
                    } else {
                        self.r.pick(&['x', 'X', '0', 'é'])
                    }
                } else {
                    c
                }
            })
            .collect()
    }

    fn burst(&mut self, l: &mut Lane) {
        let m = self.metric(l);
        let Some(p) = self.query(l) else { return };
        let qi = self.p[p as usize].and_then(|p| p.query).unwrap_or(0);
        let sandwich = self.r.pct(50);
        let wide = (self.deep || self.pf.reuse && self.r.pct(10))
            && self.size(self.qs[qi].text) < 40;
        let count = match (wide, sandwich) {
            (true, true) => self.r.pick(&[
                255, 256, 32_766, 32_767, 32_768, 65_534, 65_535, 65_535, 65_535, 65_536, 65_537,
            ]),
            (true, false) => {
                self.r.pick(&[255, 256, 257, 1000, 4096, 32_768, 65_534, 65_535, 65_536, 65_540])
            },
            (false, true) => self.r.pick(&[126, 127, 128, 254, 255, 255, 256, 257]),
            (false, false) => {
                self.r.pick(&[5, 17, 64, 100, 126, 127, 128, 254, 255, 256, 257, 300])
            },
        };
        let q = self.size(self.qs[qi].text) + 1;
        if q > 600 {
            return;
        }
        let mut most = (40_000_000 / (count as usize * 10 * q)).clamp(6, 2000);
        let mut then = None;
        if sandwich {
            // what a long candidate leaves behind, found by another just as long, after exactly so
            // many short ones
            let x = self.long_text(p, true);
            let s = self.texts[x as usize].render();
            if s.len() < 5000 {
                let y = if self.r.pct(40) { self.mutate(&s) } else { self.reshape(qi, &s) };
                let y = self.add(Text::Raw(y));
                then = Some(if self.r.pct(70) { (x, y) } else { (y, x) });
                most = most.min((s.len() / 2).max(1));
            }
        }
        if let Some((x, _)) = then {
            self.call(l, m, p, x);
        }
        let (first, n) = if then.is_some() && self.r.pct(75) {
            // one that matches
            let s = self.words_of(qi).concat();
            self.texts.push(Text::Raw(s));
            (self.texts.len() as u32 - 1, 1)
        } else {
            self.add_burst_texts(p, most)
        };
        let api = self.r.below(3) as u32;
        self.op(l, K::Burst, &[m, p, first | n << 16, count | api << 24]);
        if let Some((_, y)) = then {
            self.call(l, m, p, y);
        }
        for _ in 0..self.r.range(1, 4) {
            let c = self.cand(p);
            self.call(l, m, p, c);
        }
    }

    /// How many texts a stream has, given the work of one.
    fn stream_len(&mut self, work: usize) -> u32 {
        let n = if self.pf.hoard {
            if self.deep {
                self.r.pick(&[1030, 5000, 20_000])
            } else {
                self.r.pick(&[40, 100, 257, 600, 1030, 2000, 4000])
            }
        } else if self.pf.many {
            if self.deep {
                self.r.pick(&[257, 1000, 1025, 4000, 10_000])
            } else {
                self.r.pick(&[40, 64, 65, 100, 128, 129, 256, 257, 300, 600, 1030])
            }
        } else if self.deep && !self.pf.few {
            self.r.pick(&[64, 65, 128, 129, 256, 257, 520, 1025])
        } else if self.pf.few {
            self.r.pick(&[2, 3, 5, 9, 17])
        } else {
            self.r.pick(&[3, 9, 17, 33, 40, 65])
        };
        n.min((if self.pf.hoard { 60_000_000 } else { 20_000_000 } / (work + 3000)) as u32)
    }

    fn stream(&mut self, l: &mut Lane) {
        let m = self.metric(l);
        let Some(p) = self.query(l) else { return };
        let qi = self.p[p as usize].and_then(|p| p.query).unwrap_or(0);
        let c = if self.r.pct(60) {
            self.cand(p)
        } else {
            let mut s = self.words_of(qi).concat();
            if self.r.pct(50) {
                s = self.reshape(qi, &s);
            }
            self.add(Text::Raw(s))
        };
        let (q, n) = (self.size(self.qs[qi].text), self.size(c));
        let count = self.stream_len(10 * (q + 1) * (n + 8));
        if count == 0 {
            return;
        }
        let kind = self.r.below(7) as u32;
        let api = self.r.pick(&[0, 1, 2, 2]);
        self.op(l, K::Stream, &[m, p, c | kind << 16, count | api << 24]);
        if self.r.pct(60) {
            let c = self.cand(p);
            self.call(l, m, p, c);
        }
    }

    /// Clones of clones of clones.
    fn lineage(&mut self, l: &mut Lane) {
        let n = self.r.pick(&[2, 5, 9, 14, 20]);
        let metrics = self.r.pct(60);
        let slots = if metrics { l.ms.clone() } else { l.ps.clone() };
        if slots.len() < 2 {
            return;
        }
        let mut a = self.r.pick(&slots);
        if metrics && self.m[a as usize].is_none() {
            self.new_metric(l, a);
        } else if !metrics && self.p[a as usize].is_none() {
            self.new_parser(l, a);
        }
        let assign = self.r.pct(30);
        for _ in 0..n {
            let b = self.r.pick(&slots);
            if b == a {
                continue;
            }
            if metrics {
                let k = if assign && self.m[b as usize].is_some() && self.m[b as usize].map(|m| m.kind) == self.m[a as usize].map(|m| m.kind) {
                    K::AssignMetric
                } else {
                    K::CloneMetric
                };
                let more = match self.again() {
                    1030 if self.r.pct(50) => 8000,
                    n => n,
                };
                self.op(l, k, &[a, b, 0, more]);
                self.m[b as usize] = self.m[a as usize];
            } else {
                let k = if assign && self.p[b as usize].is_some() { K::AssignParser } else { K::CloneParser };
                let more = self.again();
                self.op(l, k, &[a, b, 0, more]);
                self.p[b as usize] = Some(PState { query: None });
            }
            a = b;
            if self.r.pct(25) {
                if metrics {
                    self.call_on(l, a);
                } else {
                    let q = self.r.below(self.qs.len());
                    self.parse(l, a, q);
                }
            }
        }
        if metrics {
            self.call_on(l, a);
        } else {
            let q = self.r.below(self.qs.len());
            self.parse(l, a, q);
            self.after_parse(l, a);
        }
    }

    fn parse_stream(&mut self, l: &mut Lane) {
        if l.ps.is_empty() {
            return;
        }
        let s = self.r.pick(&l.ps);
        if self.p[s as usize].is_none() {
            self.new_parser(l, s);
        }
        let q = self.r.below(self.qs.len());
        let t = self.qs[q].text;
        let count = self.stream_len(60 * self.size(t));
        if count == 0 {
            return;
        }
        let kind = self.r.below(7) as u32;
        let ext = !self.r.pct(self.sw.not_ext) as u32;
        self.op(l, K::ParseStream, &[s, t | kind << 16, ext, count]);
        self.p[s as usize] = Some(PState { query: None });
        if self.r.pct(60) {
            self.parse(l, s, q);
            self.after_parse(l, s);
        }
    }

    fn act(&mut self, a: Act, l: &mut Lane) {
        match a {
            Call => {
                let m = self.metric(l);
                if let Some(p) = self.query(l) {
                    let c = self.cand(p);
                    self.call(l, m, p, c);
                }
            },
            Pair => {
                let m = self.metric(l);
                if let Some(p) = self.query(l) {
                    let c = self.cand(p);
                    let c = self.fit(m, p, c);
                    let b = self.buf(l);
                    let n = self.r.range(2, 4);
                    let mut d = self.r.pct(50);
                    for _ in 0..n {
                        if d {
                            self.op(l, K::Dist, &[m, p, c]);
                        } else {
                            self.op(l, K::Ranges, &[m, p, c, b]);
                        }
                        d = if self.r.pct(80) { !d } else { d };
                    }
                }
            },
            Scan => {
                let m = self.metric(l);
                if let Some(p) = self.query(l) {
                    let q = self.p[p as usize].and_then(|p| p.query).unwrap_or(0);
                    let mut all = self.qs[q].cands.clone();
                    if self.r.pct(30) {
                        all.extend(self.qs.iter().flat_map(|q| q.cands.iter().copied()));
                    }
                    let k = self.r.below(all.len().max(1));
                    all.rotate_left(k);
                    all.truncate(10);
                    for c in all {
                        self.call(l, m, p, c);
                    }
                }
            },
            Aba => {
                let m = self.metric(l);
                if let Some(p) = self.query(l) {
                    let a = self.cand(p);
                    let s = self.texts[a as usize].render();
                    let b = if s.len() < 5000 && self.r.pct(70) {
                        let s = self.mutate(&s);
                        self.add(Text::Raw(s))
                    } else {
                        self.cand(p)
                    };
                    for c in [a, b, a] {
                        self.call(l, m, p, c);
                    }
                    if self.r.pct(30) {
                        self.call(l, m, p, b);
                    }
                }
            },
            LongShort => {
                let m = self.metric(l);
                if let Some(p) = self.query(l) {
                    let a = self.long_text(p, true);
                    let b = self.long_text(p, false);
                    let seq: &[u32] = match self.r.below(4) {
                        0 => &[a, b],
                        1 => &[b, a],
                        2 => &[a, b, a],
                        _ => &[b, a, b],
                    };
                    for c in seq.to_vec() {
                        self.call(l, m, p, c);
                    }
                }
            },
            QuerySwitch => {
                let m = self.metric(l);
                let Some(p) = self.query(l) else { return };
                let Some(p2) = self.query(l) else { return };
                let c = self.cand(p);
                let c2 = if self.r.pct(60) { c } else { self.cand(p2) };
                self.call(l, m, p, c);
                self.call(l, m, p2, c2);
                if self.r.pct(50) {
                    self.call(l, m, p, c);
                }
            },
            Typing => {
                if l.ps.is_empty() {
                    return;
                }
                let q = self.r.below(self.qs.len());
                let full: Vec<char> =
                    self.texts[self.qs[q].text as usize].render().chars().take(12).collect();
                let s = self.r.pick(&l.ps);
                if self.p[s as usize].is_none() {
                    self.new_parser(l, s);
                }
                let n = full.len();
                let mut steps: Vec<usize> = (1..=n).collect();
                if self.r.pct(50) {
                    steps.extend((1..n).rev());
                }
                let k = self.r.range(2, 8);
                if steps.len() > k {
                    let a = self.r.below(steps.len() - k + 1);
                    steps = steps[a..a + k].to_vec();
                }
                let ext = !self.r.pct(self.sw.not_ext) as u32;
                for k in steps {
                    let t = self.add(Text::Raw(full[..k].iter().collect()));
                    let cands = self.qs[q].cands.clone();
                    self.qs.push(Q { text: t, cands });
                    self.op(l, K::Parse, &[s, t, ext]);
                    self.p[s as usize] = Some(PState { query: Some(self.qs.len() - 1) });
                    if self.r.pct(70) {
                        self.after_parse(l, s);
                    }
                }
            },
            Burst => self.burst(l),
            Lineage => self.lineage(l),
            Stream => self.stream(l),
            ParseStream => self.parse_stream(l),
            ParseBurst => {
                if l.ps.is_empty() {
                    return;
                }
                let s = self.r.pick(&l.ps);
                if self.p[s as usize].is_none() {
                    self.new_parser(l, s);
                }
                let n = self.r.range(1, 4);
                let first = self.texts.len() as u32;
                let (mut last, mut longest) = (0, 1);
                for _ in 0..n {
                    let q = self.r.below(self.qs.len());
                    let t = self.texts[self.qs[q].text as usize].clone();
                    longest = longest.max(self.size(self.qs[q].text));
                    self.texts.push(t);
                    last = q;
                }
                let count = if self.deep {
                    self.r.pick(&[256, 257, 1000, 65_535, 65_536, 65_537])
                } else {
                    self.r.pick(&[3, 30, 64, 65, 127, 128, 255, 256, 257])
                };
                let count = count.min((3_000_000 / longest) as u32);
                let notext = self.r.pct(self.sw.not_ext) as u32;
                self.op(l, K::ParseBurst, &[s, first, n as u32, count | notext << 24]);
                self.p[s as usize] = Some(PState { query: Some(last) });
                self.after_parse(l, s);
            },
            Parse => {
                if l.ps.is_empty() {
                    return;
                }
                let s = self.r.pick(&l.ps);
                if self.held & (1 << s) != 0 && self.r.pct(97) {
                    return;
                }
                if self.p[s as usize].is_none() {
                    self.new_parser(l, s);
                }
                let q = self.r.below(self.qs.len());
                self.parse(l, s, q);
                if self.r.pct(70) {
                    self.after_parse(l, s);
                }
            },
            FreshCall => {
                if let Some(p) = self.query(l) {
                    self.fresh_call(l, p);
                }
            },
            Set => {
                let m = self.metric(l);
                self.set_random(l, m);
            },
            SetFlip => {
                let m = self.metric(l);
                let Some(p) = self.query(l) else { return };
                let c = self.cand(p);
                let Some(st) = self.m[m as usize] else { return };
                self.call(l, m, p, c);
                let mut t = st;
                match self.r.below(3) {
                    0 => {
                        t.case = self.r.below(3) as u8;
                        self.op(l, K::SetCase, &[m, t.case as u32]);
                        self.call(l, m, p, c);
                        if self.r.pct(60) {
                            t.case = st.case;
                            self.op(l, K::SetCase, &[m, t.case as u32]);
                            self.call(l, m, p, c);
                        }
                    },
                    1 => {
                        t.norm = !st.norm;
                        self.op(l, K::SetNorm, &[m, t.norm as u32]);
                        self.call(l, m, p, c);
                        if self.r.pct(60) {
                            t.norm = st.norm;
                            self.op(l, K::SetNorm, &[m, t.norm as u32]);
                            self.call(l, m, p, c);
                        }
                    },
                    _ => {
                        t.scheme = self.r.below(3) as u8;
                        self.op(l, K::SetScheme, &[m, t.scheme as u32]);
                        self.call(l, m, p, c);
                        if self.r.pct(60) {
                            t.scheme = st.scheme;
                            self.op(l, K::SetScheme, &[m, t.scheme as u32]);
                            self.call(l, m, p, c);
                        }
                    },
                }
                self.m[m as usize] = Some(t);
            },
            NewMetric => {
                let s = self.r.pick(&l.ms);
                self.new_metric(l, s);
            },
            DropMetric => {
                let s = self.r.pick(&l.ms);
                self.op(l, K::DropMetric, &[s]);
                self.m[s as usize] = None;
            },
            CloneMetric => {
                let a = self.metric(l);
                let b = self.r.pick(&l.ms);
                if a != b {
                    self.op(l, K::CloneMetric, &[a, b]);
                    self.m[b as usize] = self.m[a as usize];
                    if self.r.pct(70) {
                        self.call_on(l, b);
                    }
                }
            },
            AssignMetric => {
                let a = self.metric(l);
                let live: Vec<u32> = l
                    .ms
                    .iter()
                    .copied()
                    .filter(|s| *s != a && self.m[*s as usize].is_some())
                    .collect();
                if live.is_empty() {
                    return;
                }
                let b = self.r.pick(&live);
                let (Some(x), Some(y)) = (self.m[a as usize], self.m[b as usize]) else { return };
                self.op(l, K::AssignMetric, &[a, b]);
                if x.kind == y.kind {
                    self.m[b as usize] = Some(x);
                }
                if self.r.pct(70) {
                    self.call_on(l, b);
                }
                if self.r.pct(40) {
                    self.call_on(l, a);
                }
            },
            SwapMetric => {
                let (a, b) = (self.r.pick(&l.ms), self.r.pick(&l.ms));
                if a != b {
                    self.op(l, K::SwapMetric, &[a, b]);
                    self.m.swap(a as usize, b as usize);
                    if self.m[a as usize].is_some() {
                        self.call_on(l, a);
                    }
                }
            },
            DebugMetric => {
                let m = self.metric(l);
                let alt = self.r.below(2) as u32;
                self.op(l, K::DebugMetric, &[m, alt]);
            },
            NewParser => {
                if let Some(s) = self.free_parser(l) {
                    self.new_parser(l, s);
                    if self.r.pct(70) {
                        let q = self.r.below(self.qs.len());
                        self.parse(l, s, q);
                        self.after_parse(l, s);
                    }
                }
            },
            CloneParser | AssignParser => {
                let live: Vec<u32> =
                    l.ps.iter().copied().filter(|s| self.p[*s as usize].is_some()).collect();
                if live.is_empty() {
                    return;
                }
                let from = self.r.pick(&live);
                let Some(to) = self.free_parser(l) else { return };
                if from == to {
                    return;
                }
                if a == CloneParser {
                    self.op(l, K::CloneParser, &[from, to]);
                } else if self.p[to as usize].is_some() {
                    self.op(l, K::AssignParser, &[from, to]);
                } else {
                    return;
                }
                self.p[to as usize] = Some(PState { query: None });
                if self.p[from as usize].is_some_and(|p| p.query.is_some()) && self.r.pct(50) {
                    self.after_parse(l, from);
                }
                if self.r.pct(85) {
                    let q = self.r.below(self.qs.len());
                    self.parse(l, to, q);
                    self.after_parse(l, to);
                }
                if self.p[from as usize].is_some_and(|p| p.query.is_some()) && self.r.pct(60) {
                    self.after_parse(l, from);
                }
            },
            SwapParser => {
                if l.ps.len() < 2 {
                    return;
                }
                let (Some(x), Some(y)) = (self.free_parser(l), self.free_parser(l)) else {
                    return;
                };
                if x == y {
                    return;
                }
                self.op(l, K::SwapParser, &[x, y]);
                self.p.swap(x as usize, y as usize);
                for s in [x, y] {
                    if self.p[s as usize].is_some() {
                        self.p[s as usize] = Some(PState { query: None });
                        if self.r.pct(60) {
                            let q = self.r.below(self.qs.len());
                            self.parse(l, s, q);
                            self.after_parse(l, s);
                        }
                    }
                }
            },
            DropParser => {
                if let Some(s) = self.free_parser(l) {
                    self.op(l, K::DropParser, &[s]);
                    self.p[s as usize] = None;
                }
            },
            DebugQuery => {
                if let Some(p) = self.query(l) {
                    self.op(l, K::DebugQuery, &[p]);
                }
            },
            BufNew => {
                let b = self.buf(l);
                let cap = self.r.pick(&[0, 1, 2, 4, 5, 64]);
                self.op(l, K::BufNew, &[b, cap]);
            },
            BufClear => {
                let b = self.buf(l);
                self.op(l, K::BufClear, &[b]);
            },
            BufFill => {
                let b = self.buf(l);
                let pat = self.r.below(24) as u32;
                let n = if self.pf.dirty_bufs && self.r.below(300) == 0 {
                    self.r.pick(&[65_530, 65_536, 65_600])
                } else if self.r.pct(4) {
                    self.r.pick(&[15, 16, 17, 63, 64, 100, 255, 256, 257, 1000])
                } else {
                    self.r.range(1, 6) as u32
                };
                self.op(l, K::BufFill, &[b, pat, n]);
            },
            FaultRetry => self.fault_retry(l),
            CloneDiverge => self.clone_diverge(l),
            Churn => self.churn(l),
            Stress => self.stress(l),
        }
    }

    /// A parser slot whose query may end.
    fn free_parser(&mut self, l: &Lane) -> Option<u32> {
        let free: Vec<u32> =
            l.ps.iter().copied().filter(|s| self.held & (1 << s) == 0).collect();
        (!free.is_empty()).then(|| self.r.pick(&free))
    }

    fn call_on(&mut self, l: &mut Lane, m: u32) {
        if self.m[m as usize].is_none() {
            return;
        }
        if let Some(p) = self.query(l) {
            let c = self.cand(p);
            self.call(l, m, p, c);
        }
    }

    fn fresh_call(&mut self, l: &mut Lane, p: u32) {
        let s = self.r.pick(&l.ms);
        self.new_metric(l, s);
        let c = self.cand(p);
        self.call(l, s, p, c);
    }

    fn after_parse(&mut self, l: &mut Lane, p: u32) {
        let fresh_only = self.pf.acts.iter().any(|a| a.0 == FreshCall);
        if self.pf.debug && self.r.pct(if fresh_only { 40 } else { 10 }) {
            self.op(l, K::DebugQuery, &[p]);
        }
        if fresh_only {
            self.fresh_call(l, p);
            return;
        }
        for _ in 0..self.r.range(1, 2) {
            let m = self.metric(l);
            let c = self.cand(p);
            self.call(l, m, p, c);
        }
    }

    fn fault_retry(&mut self, l: &mut Lane) {
        let at = l.ops.len();
        match self.r.below(12) {
            0..=5 => {
                let mut m = self.metric(l);
                let anew = self.pf.few && self.r.pct(60);
                if anew {
                    // one that has to grow
                    m = self.r.pick(&l.ms);
                    self.new_metric(l, m);
                }
                if let Some(p) = self.query(l) {
                    let c = if anew && self.r.pct(40) {
                        let qi = self.p[p as usize].and_then(|p| p.query).unwrap_or(0);
                        let mut s = self.words_of(qi).concat();
                        let n = self.r.range(60, 600);
                        s.insert_str(0, &"\u{e9}".repeat(n));
                        self.add(Text::Raw(s))
                    } else if self.r.pct(50) {
                        self.long_text(p, true)
                    } else {
                        self.cand(p)
                    };
                    self.call(l, m, p, c);
                }
            },
            6..=8 => {
                if let Some(s) = self.free_parser(l) {
                    if self.p[s as usize].is_none() || self.pf.few && self.r.pct(50) {
                        self.new_parser(l, s);
                    }
                    let q = self.r.below(self.qs.len());
                    self.parse(l, s, q);
                }
            },
            9 => {
                let m = self.metric(l);
                let b = self.r.pick(&l.ms);
                if m != b {
                    let same = match (self.m[m as usize], self.m[b as usize]) {
                        (Some(x), Some(y)) => x.kind == y.kind,
                        _ => false,
                    };
                    if same && self.r.pct(60) {
                        // a clone_from that fails part-way leaves settings unspecified: set them
                        self.op(l, K::AssignMetric, &[m, b]);
                        self.m[b as usize] = self.m[m as usize];
                    } else {
                        self.op(l, K::CloneMetric, &[m, b]);
                        self.m[b as usize] = self.m[m as usize];
                    }
                }
            },
            10 => {
                let s = self.r.pick(&l.ms);
                self.new_metric(l, s);
            },
            _ => {
                if let Some(s) = self.free_parser(l) {
                    self.new_parser(l, s);
                    let q = self.r.below(self.qs.len());
                    self.parse(l, s, q);
                }
            },
        }
        if l.ops.len() == at {
            return;
        }
        // the last operation is the one that fails - one or more times - before it succeeds
        let last = l.ops.pop().unwrap();
        let n = if self.r.pct(20) { self.r.range(2, 6) } else { 1 };
        let sweep = self.r.pct(25);
        for i in 0..n {
            let mut o = last.clone();
            o.fault = Some(if sweep { (1, i as u64 + 1) } else { self.fault() });
            l.ops.push(o);
        }
        if self.r.pct(40) {
            // something else in between, on the same instances if possible
            let m = self.metric(l);
            self.call_on(l, m);
        }
        if self.r.pct(75) {
            l.ops.push(last);
        }
    }

    fn clone_diverge(&mut self, l: &mut Lane) {
        if self.r.pct(60) {
            let a = self.metric(l);
            let b = self.r.pick(&l.ms);
            if a == b {
                return;
            }
            let Some(p) = self.query(l) else { return };
            let c = self.cand(p);
            if self.r.pct(60) {
                let c = if self.r.pct(40) { self.long_text(p, true) } else { c };
                self.call(l, a, p, c);
            }
            let same = match (self.m[a as usize], self.m[b as usize]) {
                (Some(x), Some(y)) => x.kind == y.kind,
                _ => false,
            };
            let k = if same && self.r.pct(40) { K::AssignMetric } else { K::CloneMetric };
            self.op(l, k, &[a, b]);
            self.m[b as usize] = self.m[a as usize];
            for _ in 0..self.r.range(1, 5) {
                let s = if self.r.pct(50) { a } else { b };
                match self.r.below(6) {
                    0 => self.set_random(l, s),
                    1 if self.r.pct(40) => {
                        self.op(l, K::DropMetric, &[s]);
                        self.m[s as usize] = None;
                        let other = a + b - s;
                        if self.m[other as usize].is_some() {
                            self.call(l, other, p, c);
                        }
                        return;
                    },
                    2 => {
                        let c = self.cand(p);
                        self.call(l, s, p, c);
                    },
                    _ => self.call(l, s, p, c),
                }
            }
            return;
        }
        // parsers
        if l.ps.len() < 2 {
            return;
        }
        let (Some(a), Some(b)) = (self.free_parser(l), self.free_parser(l)) else { return };
        if a == b {
            return;
        }
        if self.p[a as usize].is_none() {
            self.new_parser(l, a);
        }
        let q = self.r.below(self.qs.len());
        self.parse(l, a, q);
        let assign = self.p[b as usize].is_some() && self.r.pct(40);
        self.op(l, if assign { K::AssignParser } else { K::CloneParser }, &[a, b]);
        self.p[b as usize] = Some(PState { query: None });
        for _ in 0..self.r.range(2, 5) {
            let s = if self.r.pct(50) { a } else { b };
            match self.r.below(8) {
                0..=2 => {
                    let q = self.r.below(self.qs.len());
                    self.parse(l, s, q);
                    self.after_parse(l, s);
                },
                3 => {
                    self.op(l, K::DropParser, &[s]);
                    self.p[s as usize] = None;
                    let o = a + b - s;
                    if self.p[o as usize].is_some_and(|p| p.query.is_some()) {
                        self.after_parse(l, o);
                    }
                    return;
                },
                _ => {
                    if self.p[s as usize].is_some_and(|p| p.query.is_some()) {
                        self.after_parse(l, s);
                    }
                },
            }
        }
    }

    /// Activity that has nothing to do with the held queries and instances.
    fn churn(&mut self, l: &mut Lane) {
        let s = l.ms[l.ms.len() - 1];
        match self.r.below(4) {
            0 => {
                self.new_metric(l, s);
                if let Some(p) = self.query(l) {
                    let c = self.long_text(p, true);
                    self.call(l, s, p, c);
                }
                self.op(l, K::DropMetric, &[s]);
                self.m[s as usize] = None;
            },
            1 => {
                if let Some(p) = self.free_parser(l) {
                    self.new_parser(l, p);
                    let q = self.r.below(self.qs.len());
                    self.parse(l, p, q);
                    if self.r.pct(50) {
                        self.after_parse(l, p);
                    }
                    self.op(l, K::DropParser, &[p]);
                    self.p[p as usize] = None;
                }
            },
            2 => {
                let b = self.buf(l);
                let n = self.r.range(1, 200) as u32;
                self.op(l, K::BufFill, &[b, 0, n]);
                self.op(l, K::BufDrop, &[b]);
            },
            _ => {
                if let Some(p) = self.free_parser(l) {
                    if self.p[p as usize].is_none() {
                        self.new_parser(l, p);
                    }
                    for _ in 0..self.r.range(1, 3) {
                        let q = self.r.below(self.qs.len());
                        self.parse(l, p, q);
                    }
                }
            },
        }
    }

    /// Inputs on which work beyond the documented shows: long, repetitive, nearly matching.
    fn stress(&mut self, l: &mut Lane) {
        if l.ps.is_empty() {
            return;
        }
        let s = self.r.pick(&l.ps);
        if self.p[s as usize].is_none() {
            self.new_parser(l, s);
        }
        if self.r.pct(30) {
            // a long query
            let units = [
                "a ", "a", "\\ ", " ", "| ", "a | ", "!", "'", "^", "$", "a$ ", "^a ", "!a ", "é ", "ab\\ ",
                "\\", "a\\ b ", "'ab ", "| a | ", "aB",
            ];
            let u = self.r.pick(&units);
            let n = self.r.pick(&[200, 700, 1500, 3000, 3000]);
            let n = if self.r.pct(3) { 70_000 / u.len() as u32 } else { n };
            let end = if self.r.pct(30) { String::from("b") } else { String::new() };
            let text = self.add(Text::Rep(String::from(u), n, end));
            let cands = vec![
                self.add(Text::Raw("ab".into())),
                self.add(Text::Raw("a é|b!'^$\\ ".into())),
                self.add(Text::Raw("x".into())),
            ];
            self.qs.push(Q { text, cands });
            let q = self.qs.len() - 1;
            self.parse(l, s, q);
            if self.r.pct(40) {
                self.after_parse(l, s);
            }
            return;
        }
        let m = self.metric(l);
        let linear = self.m[m as usize].is_some_and(|m| m.kind == 1);
        let unit = self.r.pick(&["a", "ab", "aB", "é", "aé", "中a", "a_", "abc"]);
        let uc = unit.chars().count();
        let n = self.r.pick(&[40, 120, 250, 500]) / uc;
        let mut body = unit.repeat(n);
        match self.r.below(6) {
            0 => body.push('~'),
            1 => body.insert(0, '~'),
            2 => {
                let at = body.chars().take(n / 2).map(char::len_utf8).sum();
                body.insert(at, '~');
            },
            _ => {},
        }
        let kind = if self.r.pct(70) { FUZZY } else { self.r.below(5) as u8 };
        let qlen = body.len();
        let inverse = self.r.pct(5);
        let text = if kind == FUZZY && !inverse && self.r.pct(50) {
            Text::Raw(body)
        } else {
            Text::Terms(vec![vec![Term { kind, inverse, body }]])
        };
        let text = self.add(text);
        let most = if linear { 8_000_000 } else { 1_200_000 } / qlen;
        let mut cu: String = String::from(unit);
        if self.r.pct(40) {
            let k = self.r.range(1, 3);
            cu.push_str(&self.fill(k));
        }
        let most = (most / cu.len()).max(1);
        let times = self.r.pick(&[2000, 10_000, 30_000]).min(most);
        let end = self.r.pick(&["", "", "~", "~~", "é", "b~a"]);
        let c = self.add(Text::Rep(cu, times as u32, String::from(end)));
        self.qs.push(Q { text, cands: vec![c] });
        let q = self.qs.len() - 1;
        self.parse(l, s, q);
        self.call(l, m, s, c);
        if self.r.pct(30) {
            self.call(l, m, s, c);
        }
    }

    // ------------------------------------------------------------ whole runs

    fn setup(&mut self, l: &mut Lane, once: bool) {
        for s in l.ms.clone() {
            if self.r.pct(85) {
                let at = l.ops.len();
                self.new_metric(l, s);
                if once {
                    l.ops[at].a[3] = 1;
                }
            }
        }
        for s in l.ps.clone() {
            let at = l.ops.len();
            self.new_parser(l, s);
            if once {
                l.ops[at].a[2] = 1;
            }
            if self.r.pct(85) {
                let q = self.r.below(self.qs.len());
                self.parse(l, s, q);
            }
        }
        for b in l.bs.clone() {
            if once {
                self.op(l, K::BufClear, &[b]);
            } else if self.r.pct(50) {
                let cap = self.r.pick(&[0, 1, 4, 64]);
                self.op(l, K::BufNew, &[b, cap]);
                if self.pf.dirty_bufs && self.r.pct(50) {
                    self.act(BufFill, l);
                }
            }
        }
    }

    fn walk(&mut self, l: &mut Lane, n: usize) {
        let end = l.ops.len() + n;
        let mut guard = 0;
        while l.ops.len() < end && guard < 4 * n + 20 {
            guard += 1;
            let a = self.pick_act();
            let at = l.ops.len();
            self.act(a, l);
            if self.pf.faults > 0 && a != FaultRetry && self.r.pct(self.pf.faults) {
                let n = l.ops.len() - at;
                if n > 0 {
                    let i = at + self.r.below(n);
                    let o = &l.ops[i];
                    if !matches!(o.k, K::Burst | K::ParseBurst) {
                        let f = self.fault();
                        l.ops[i].fault = Some(f);
                    }
                }
            }
        }
    }

    fn history(&mut self) -> (Vec<Vec<Vec<Op>>>, usize, u32) {
        let threads = self.r.range(self.pf.threads.0, self.pf.threads.1);
        let nm = self.r.range(self.pf.metrics.0, self.pf.metrics.1).max(threads);
        let np = self.r.range(self.pf.parsers.0, self.pf.parsers.1);
        let nb = self.r.range(self.pf.bufs.0, self.pf.bufs.1).max(threads);
        let all = |n: usize| (0..n as u32).collect::<Vec<u32>>();
        let mut l =
            Lane { ms: all(nm), ps: all(np), bs: all(nb), rs: Vec::new(), ops: Vec::new() };
        self.setup(&mut l, false);
        if self.pf.acts.iter().any(|a| a.0 == Churn) && np > 1 {
            // some queries are held through the whole run
            for s in 0..np as u32 - 1 {
                if self.r.pct(60) {
                    self.held |= 1 << s;
                }
            }
        }
        let mut total = self.r.range(self.pf.ops.0, self.pf.ops.1);
        if self.r.pct(15) {
            total = total / 4 + 2;
        }
        if self.deep {
            total = total * 2;
        }
        if threads == 1 {
            self.walk(&mut l, total);
            return (vec![vec![l.ops]], 1, 1);
        }
        let mut phases = Vec::new();
        let mut first = vec![Vec::new(); threads];
        first[0] = l.ops;
        phases.push(first);
        let np_ = self.r.range(1, 4);
        for _ in 0..np_ {
            let mut lanes: Vec<Lane> = (0..threads)
                .map(|_| Lane {
                    ms: vec![],
                    ps: vec![],
                    bs: vec![],
                    rs: vec![],
                    ops: vec![],
                })
                .collect();
            let shift = self.r.below(threads);
            for s in 0..nm {
                let t = if s < threads { (s + shift) % threads } else { self.r.below(threads) };
                lanes[t].ms.push(s as u32);
            }
            for s in 0..nb {
                let t = if s < threads { (s + shift) % threads } else { self.r.below(threads) };
                lanes[t].bs.push(s as u32);
            }
            for s in 0..np {
                let shareable = self.p[s].is_some_and(|p| p.query.is_some());
                if shareable && self.r.pct(40) {
                    for l in &mut lanes {
                        l.rs.push(s as u32);
                    }
                } else {
                    let t = self.r.below(threads);
                    lanes[t].ps.push(s as u32);
                }
            }
            let per = (total / np_ / threads).max(2);
            for l in &mut lanes {
                if l.ps.is_empty() && l.rs.is_empty() {
                    continue;
                }
                let k = self.r.range(1, per * 2);
                self.walk(l, k);
            }
            phases.push(lanes.into_iter().map(|l| l.ops).collect());
        }
        (phases, threads, 1)
    }

    fn repeated(&mut self) -> (Vec<Vec<Vec<Op>>>, usize, u32) {
        let nm = self.r.range(self.pf.metrics.0, self.pf.metrics.1);
        let np = self.r.range(self.pf.parsers.0, self.pf.parsers.1);
        let nb = self.r.range(1, 2);
        let all = |n: usize| (0..n as u32).collect::<Vec<u32>>();
        let mut l =
            Lane { ms: all(nm), ps: all(np), bs: all(nb), rs: Vec::new(), ops: Vec::new() };
        self.deep = false;
        let once = self.r.pct(75);
        if once {
            self.setup(&mut l, true);
        } else {
            for b in l.bs.clone() {
                self.op(&mut l, K::BufClear, &[b]);
            }
        }
        if self.r.pct(30) {
            self.pf.faults = 25;
            self.pf.acts.push((FaultRetry, 12));
        }
        let n = self.r.range(self.pf.ops.0, self.pf.ops.1);
        self.walk(&mut l, n);
        (vec![vec![l.ops]], 1, 40)
    }

    /// Several workers rank one set of candidates.
    fn ranking(&mut self) -> (Vec<Vec<Vec<Op>>>, usize, u32) {
        let threads = self.r.range(1, 4);
        let mut extreme = false;
        if self.r.pct(5) {
            // scores beyond 16 bits
            extreme = true;
            let n = self.r.pick(&[500, 1300, 2600]);
            let q = self.add(Text::Rep("ab".into(), n / 2, String::new()));
            let mut cands = vec![q];
            for k in [3, 10, 40] {
                let t = self.add(Text::Rep("ab".into(), n / 2 + k, "ab".into()));
                cands.push(t);
            }
            let x = self.add(Text::Rep("a b".into(), n / 2, String::new()));
            cands.push(x);
            self.qs.clear();
            self.qs.push(Q { text: q, cands });
        }
        let q = self.r.below(self.qs.len());
        if !extreme {
            // many candidates for this one
            let words: Vec<String> = match &self.texts[self.qs[q].text as usize] {
                Text::Terms(g) => g
                    .iter()
                    .flatten()
                    .filter(|t| !t.inverse)
                    .map(|t| t.body.clone())
                    .collect(),
                t => vec![t.render()],
            };
            for _ in 0..self.r.range(2, 20) {
                let c = self.candidate(&words);
                self.qs[q].cands.push(c);
            }
        }
        let mut cands = self.qs[q].cands.clone();
        cands.sort_unstable();
        cands.dedup();
        let spec = MState {
            kind: if extreme { 1 } else { self.r.range(1, 2) as u8 },
            case: self.r.below(3) as u8,
            norm: self.r.pct(40),
            scheme: self.r.below(3) as u8,
        };
        let ext = (self.r.pct(70)) as u32;
        let shared = self.r.pct(50);
        let faulty = self.r.pct(40);
        let dirty = self.r.pct(50);
        let mut phases = Vec::new();
        let mut setup = vec![Vec::new(); threads];
        let mut l = Lane { ms: vec![], ps: vec![], bs: vec![], rs: vec![], ops: vec![] };
        if shared {
            self.op(&mut l, K::NewParser, &[8, 0]);
            self.op(&mut l, K::Parse, &[8, self.qs[q].text, ext]);
        }
        setup[0] = std::mem::take(&mut l.ops);
        phases.push(setup);
        let mut work = Vec::new();
        for t in 0..threads as u32 {
            let mut l =
                Lane { ms: vec![t], ps: vec![t], bs: vec![t], rs: vec![], ops: vec![] };
            let how = self.r.below(2) as u32;
            self.op(&mut l, K::NewMetric, &[t, spec.kind as u32, how]);
            self.set_state(&mut l, t, spec);
            let p = if shared {
                8
            } else {
                self.op(&mut l, K::NewParser, &[t, 0]);
                self.op(&mut l, K::Parse, &[t, self.qs[q].text, ext]);
                t
            };
            self.p[p as usize] = Some(PState { query: Some(q) });
            let mut order = cands.clone();
            for i in (1..order.len()).rev() {
                let j = self.r.below(i + 1);
                order.swap(i, j);
            }
            let keep = if threads == 1 { 100 } else { self.r.pick(&[40, 60, 80, 100]) };
            order.retain(|_| self.r.pct(keep));
            if self.r.pct(50) {
                // visited again, later
                let k = self.r.below(6).min(order.len());
                let again: Vec<u32> = order[..k].to_vec();
                order.extend(again);
            }
            for c in order {
                if dirty && self.r.pct(15) && !shared {
                    // the worker serves another query in between
                    let o = self.r.below(self.qs.len());
                    let ot = self.qs[o].text;
                    self.op(&mut l, K::Parse, &[t, ot, 1]);
                    let c2 = self.cand(p);
                    self.call(&mut l, t, p, c2);
                    self.op(&mut l, K::Parse, &[t, self.qs[q].text, ext]);
                }
                if faulty && self.r.pct(20) {
                    let f = self.fault();
                    self.call(&mut l, t, p, c);
                    let n = l.ops.len() - 1;
                    l.ops[n].fault = Some(f);
                }
                self.call(&mut l, t, p, c);
            }
            work.push(l.ops);
        }
        phases.push(work);
        let mut last = vec![Vec::new(); threads];
        last[0].push(Op::new(K::Compare, &[]));
        phases.push(last);
        (phases, threads, 1)
    }
}
