//! A plan is everything that determines one simulated execution.

use crate::json::J;
use crate::seams::FailSpec;

macro_rules! kinds {
    ($($v:ident $n:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[repr(u8)]
        pub enum K { $($v),* }
        impl K {
            pub const ALL: &'static [K] = &[$(K::$v),*];
            pub fn name(self) -> &'static str { match self { $(K::$v => $n),* } }
            pub fn from_name(s: &str) -> Option<K> { match s { $($n => Some(K::$v),)* _ => None } }
        }
    };
}

kinds! {
    // metrics                      arguments
    NewMetric "new_metric",         // slot, kind (1|2), how, only if the slot is empty
    SetCase "set_case",             // slot, value
    SetNorm "set_norm",             // slot, value
    SetScheme "set_scheme",         // slot, value
    SetAll "set_all",               // slot, case | norm << 4 | scheme << 8, order, others before it
    CloneMetric "clone_metric",     // from, to, -, more generations
    AssignMetric "assign_metric",   // from, to, -, more times (clone_from)
    SwapMetric "swap_metric",       // slot, slot
    DropMetric "drop_metric",       // slot
    DebugMetric "debug_metric",     // slot, alternate
    // parsers
    NewParser "new_parser",         // slot, how, only if the slot is empty
    CloneParser "clone_parser",     // from, to, -, more generations
    AssignParser "assign_parser",   // from, to, -, more times
    SwapParser "swap_parser",       // slot, slot
    DropParser "drop_parser",       // slot
    Parse "parse",                  // slot, text, extended
    ParseBurst "parse_burst",       // slot, first text, number of texts, count
    DebugQuery "debug_query",       // slot
    // calls
    Dist "distance",                // metric, parser, candidate
    Ranges "distance_and_ranges",   // metric, parser, candidate, buffer
    Burst "burst",                  // metric, parser, first candidate | number << 16, count | api << 24
    Stream "stream",                // metric, parser, text | variation << 16, count | api << 24
    ParseStream "parse_stream",     // parser, text | variation << 16, extended, count
    // buffers of ranges
    BufNew "buf_new",               // slot, capacity
    BufClear "buf_clear",           // slot
    BufFill "buf_fill",             // slot, pattern, count
    BufDrop "buf_drop",             // slot
    // others
    Compare "compare",              // (of all distances obtained so far by this thread)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub a: [u32; 4],
    pub fault: Option<(u8, u64)>,
}

pub const FAULT_NAMES: [&str; 5] =
    ["none", "nth_allocation", "all_from_nth_allocation", "allocations_of_at_least", "live_bytes_above"];

impl Op {
    pub fn new(k: K, a: &[u32]) -> Op {
        let mut x = [0; 4];
        x[..a.len()].copy_from_slice(a);
        Op { k, a: x, fault: None }
    }
    pub fn fail(&self) -> FailSpec {
        self.fault.map_or(FailSpec::default(), |(mode, n)| FailSpec { mode, n })
    }
}

/// Kinds of terms, in the order of the library's documentation.
pub const FUZZY: u8 = 0;
pub const EXACT: u8 = 1;
pub const PREFIX: u8 = 2;
pub const SUFFIX: u8 = 3;
pub const EQUAL: u8 = 4;

#[derive(Clone, Debug, PartialEq)]
pub struct Term {
    pub kind: u8,
    pub inverse: bool,
    pub body: String,
}

impl Term {
    /// The term as it is written in an extended query.
    pub fn render(&self) -> String {
        let b = self.body.replace(' ', "\\ ");
        match (self.kind, self.inverse) {
            (FUZZY, false) => b,
            (FUZZY, true) => format!("!'{b}"),
            (EXACT, false) => format!("'{b}"),
            (EXACT, true) => format!("!{b}"),
            (PREFIX, false) => format!("^{b}"),
            (PREFIX, true) => format!("!^{b}"),
            (SUFFIX, false) => format!("{b}$"),
            (SUFFIX, true) => format!("!{b}$"),
            (_, false) => format!("^{b}$"),
            (_, true) => format!("!^{b}$"),
        }
    }

    /// Whether the rendered text means exactly this term, by the documented syntax.
    pub fn clean(body: &str) -> bool {
        !body.is_empty()
            && !body.starts_with(['!', '\'', '^', '|'])
            && !body.ends_with(['$', '\\', '|'])
            && !body.contains('\\')
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Text {
    Raw(String),
    /// An extended query: groups (AND) of alternatives (OR).
    Terms(Vec<Vec<Term>>),
    /// A long text: the unit repeated, then the end.
    Rep(String, u32, String),
    /// A long text with something here and there: pieces, each repeated.
    Runs(Vec<(String, u32)>),
}

impl Text {
    pub fn render(&self) -> String {
        match self {
            Text::Raw(s) => s.clone(),
            Text::Rep(u, n, e) => {
                let mut s = u.repeat(*n as usize);
                s.push_str(e);
                s
            },
            Text::Runs(v) => v.iter().map(|(u, n)| u.repeat(*n as usize)).collect(),
            Text::Terms(g) => g
                .iter()
                .map(|alts| alts.iter().map(Term::render).collect::<Vec<_>>().join(" | "))
                .collect::<Vec<_>>()
                .join(" "),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Personality {
    pub move_always: bool,
    pub fill: u8,
    pub reuse: u8,
    pub slop: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub threads: usize,
    pub heap: Personality,
    pub entropy: u64,
    pub texts: Vec<Text>,
    /// phase -> thread -> operations
    pub phases: Vec<Vec<Vec<Op>>>,
    /// How many times the phases are repeated.
    pub reps: u32,
    /// (basic blocks to run, which thread next)
    pub sched: Vec<(u32, u8)>,
    pub tail: u32,
    /// How many basic blocks an access to memory shared by threads counts for.
    pub shared: u32,
}

pub const SLOTS: usize = 16;

/// Exclusive slots an operation uses: (metrics, parsers, buffers) as bit sets, and the parsers
/// whose query it only reads.
pub fn uses(o: &Op) -> (u32, u32, u32, u32) {
    let b = |x: u32| 1u32 << (x as usize % SLOTS);
    let a = o.a;
    use K::*;
    match o.k {
        NewMetric | SetCase | SetNorm | SetScheme | SetAll | DropMetric | DebugMetric => {
            (b(a[0]), 0, 0, 0)
        },
        CloneMetric | AssignMetric | SwapMetric => (b(a[0]) | b(a[1]), 0, 0, 0),
        NewParser | DropParser | Parse | ParseBurst | ParseStream => (0, b(a[0]), 0, 0),
        CloneParser | AssignParser | SwapParser => (0, b(a[0]) | b(a[1]), 0, 0),
        DebugQuery => (0, 0, 0, b(a[0])),
        Dist | Burst | Stream => (b(a[0]), 0, 0, b(a[1])),
        Ranges => (b(a[0]), 0, b(a[3]), b(a[1])),
        BufNew | BufClear | BufFill | BufDrop => (0, 0, b(a[0]), 0),
        Compare => (0, 0, 0, 0),
    }
}

impl Plan {
    pub fn op_count(&self) -> usize {
        self.phases.iter().flatten().map(|t| t.len()).sum()
    }

    /// Within a phase, threads may share only queries that nobody replaces.
    pub fn validate(&self) -> Result<(), String> {
        if self.threads == 0 || self.threads > crate::sched::MAX_THREADS {
            return Err("thread count".into());
        }
        for (pi, ph) in self.phases.iter().enumerate() {
            if ph.len() != self.threads {
                return Err(format!("phase {pi} has {} threads", ph.len()));
            }
            let mut own = vec![(0u32, 0u32, 0u32, 0u32); ph.len()];
            for (t, ops) in ph.iter().enumerate() {
                for o in ops {
                    let u = uses(o);
                    own[t].0 |= u.0;
                    own[t].1 |= u.1;
                    own[t].2 |= u.2;
                    own[t].3 |= u.3;
                    let nt = self.texts.len() as u32;
                    let bad = match o.k {
                        K::Parse => o.a[1] >= nt,
                        K::ParseBurst => o.a[2] == 0 || o.a[1] + o.a[2] > nt,
                        K::Dist | K::Ranges => o.a[2] >= nt,
                        K::Stream => o.a[2] & 0xffff >= nt,
                        K::ParseStream => o.a[1] & 0xffff >= nt,
                        K::Burst => {
                            o.a[2] >> 16 == 0 || (o.a[2] & 0xffff) + (o.a[2] >> 16) > nt
                        },
                        _ => false,
                    };
                    if bad {
                        return Err(format!("phase {pi}: text out of range in {o:?}"));
                    }
                }
            }
            for i in 0..own.len() {
                for j in 0..own.len() {
                    if i != j
                        && (own[i].0 & own[j].0 != 0
                            || own[i].1 & (own[j].1 | own[j].3) != 0
                            || own[i].2 & own[j].2 != 0)
                    {
                        return Err(format!("phase {pi}: threads {i} and {j} share a slot"));
                    }
                }
            }
        }
        Ok(())
    }

    pub fn to_json(&self) -> J {
        let term = |t: &Term| {
            J::Obj(vec![
                ("kind".into(), J::n(t.kind)),
                ("inverse".into(), J::Bool(t.inverse)),
                ("body".into(), J::s(&t.body)),
            ])
        };
        let text = |t: &Text| match t {
            Text::Raw(s) => J::s(s),
            Text::Rep(u, n, e) => J::Obj(vec![
                ("unit".into(), J::s(u)),
                ("times".into(), J::n(*n)),
                ("then".into(), J::s(e)),
            ]),
            Text::Runs(v) => J::Obj(vec![(
                "pieces".into(),
                J::Arr(
                    v.iter()
                        .map(|(u, n)| {
                            J::Obj(vec![("unit".into(), J::s(u)), ("times".into(), J::n(*n))])
                        })
                        .collect(),
                ),
            )]),
            Text::Terms(g) => J::Obj(vec![
                ("query".into(), J::s(t.render())),
                (
                    "groups".into(),
                    J::Arr(g.iter().map(|a| J::Arr(a.iter().map(term).collect())).collect()),
                ),
            ]),
        };
        let op = |o: &Op| {
            let mut v = vec![
                ("op".to_string(), J::s(o.k.name())),
                ("a".to_string(), J::Arr(o.a.iter().map(|x| J::n(*x)).collect())),
            ];
            if let Some((m, n)) = o.fault {
                v.push(("fault".into(), J::s(FAULT_NAMES[m as usize])));
                v.push(("n".into(), J::n(n)));
            }
            J::Obj(v)
        };
        J::Obj(vec![
            ("property".into(), J::s(&self.prop)),
            ("seed".into(), J::n(self.seed)),
            ("run".into(), J::n(self.index)),
            ("threads".into(), J::n(self.threads as u64)),
            (
                "heap".into(),
                J::Obj(vec![
                    ("realloc_always_moves".into(), J::Bool(self.heap.move_always)),
                    ("fill".into(), J::n(self.heap.fill)),
                    ("reuse_percent".into(), J::n(self.heap.reuse)),
                    ("irregular_addresses".into(), J::Bool(self.heap.slop)),
                ]),
            ),
            ("entropy".into(), J::n(self.entropy)),
            ("repetitions".into(), J::n(self.reps)),
            ("texts".into(), J::Arr(self.texts.iter().map(text).collect())),
            (
                "phases".into(),
                J::Arr(
                    self.phases
                        .iter()
                        .map(|p| {
                            J::Arr(
                                p.iter().map(|t| J::Arr(t.iter().map(op).collect())).collect(),
                            )
                        })
                        .collect(),
                ),
            ),
            (
                "schedule".into(),
                J::Arr(
                    self.sched.iter().map(|(b, c)| J::Arr(vec![J::n(*b), J::n(*c)])).collect(),
                ),
            ),
            ("tail".into(), J::n(self.tail)),
            ("shared".into(), J::n(self.shared)),
        ])
    }

    pub fn from_json(j: &J) -> Result<Plan, String> {
        let texts = j
            .get("texts")
            .arr()
            .iter()
            .map(|t| match t {
                J::Str(s) => Text::Raw(s.clone()),
                o if !o.get("unit").is_null() => Text::Rep(
                    o.get("unit").str().into(),
                    o.get("times").u() as u32,
                    o.get("then").str().into(),
                ),
                o if !o.get("pieces").is_null() => Text::Runs(
                    o.get("pieces")
                        .arr()
                        .iter()
                        .map(|p| (p.get("unit").str().into(), p.get("times").u() as u32))
                        .collect(),
                ),
                o => Text::Terms(
                    o.get("groups")
                        .arr()
                        .iter()
                        .map(|g| {
                            g.arr()
                                .iter()
                                .map(|t| Term {
                                    kind: t.get("kind").u() as u8,
                                    inverse: t.get("inverse").num() != 0,
                                    body: t.get("body").str().into(),
                                })
                                .collect()
                        })
                        .collect(),
                ),
            })
            .collect();
        let mut phases = Vec::new();
        for p in j.get("phases").arr() {
            let mut ph = Vec::new();
            for t in p.arr() {
                let mut ops = Vec::new();
                for o in t.arr() {
                    let k = K::from_name(o.get("op").str())
                        .ok_or_else(|| format!("unknown operation {:?}", o.get("op").str()))?;
                    let a: Vec<u32> = o.get("a").arr().iter().map(|x| x.u() as u32).collect();
                    let mut op = Op::new(k, &a);
                    if !o.get("fault").is_null() {
                        let m = FAULT_NAMES
                            .iter()
                            .position(|n| *n == o.get("fault").str())
                            .ok_or("unknown fault")?;
                        op.fault = Some((m as u8, o.get("n").u()));
                    }
                    ops.push(op);
                }
                ph.push(ops);
            }
            phases.push(ph);
        }
        let h = j.get("heap");
        let p = Plan {
            prop: j.get("property").str().into(),
            seed: j.get("seed").u(),
            index: j.get("run").u(),
            threads: j.get("threads").u() as usize,
            heap: Personality {
                move_always: h.get("realloc_always_moves").num() != 0,
                fill: h.get("fill").u() as u8,
                reuse: h.get("reuse_percent").u() as u8,
                slop: h.get("irregular_addresses").num() != 0,
            },
            entropy: j.get("entropy").u(),
            texts,
            phases,
            reps: j.get("repetitions").u().max(1) as u32,
            sched: j
                .get("schedule")
                .arr()
                .iter()
                .map(|d| (d.arr()[0].u() as u32, d.arr()[1].u() as u8))
                .collect(),
            tail: j.get("tail").u() as u32,
            shared: j.get("shared").u() as u32,
        };
        p.validate()?;
        Ok(p)
    }
}
