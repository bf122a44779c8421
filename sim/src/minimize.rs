//! Shrinks a violating plan: fewer operations, phases, threads, faults and schedule decisions,
//! shorter texts, a plainer heap - as long as the same kind of violation of the same property
//! remains.

use std::time::{Duration, Instant};

use crate::harness::Harness;
use crate::judge::{Judge, Violation};
use crate::plan::*;

pub struct Shrink<'a> {
    h: &'a mut Harness,
    class: &'static str,
    until: Instant,
    pub tries: u64,
    pub best: Plan,
    pub violation: Violation,
}

pub fn check(h: &mut Harness, p: &Plan) -> (Option<Violation>, u64) {
    let r = h.run(p);
    let hash = r.header[crate::exec::H_HASH];
    let v = Judge::new(p, &r, h).judge();
    (v, hash)
}

impl<'a> Shrink<'a> {
    pub fn new(h: &'a mut Harness, p: &Plan, v: Violation, seconds: u64) -> Shrink<'a> {
        Shrink {
            h,
            class: v.class,
            until: Instant::now() + Duration::from_secs(seconds),
            tries: 0,
            best: p.clone(),
            violation: v,
        }
    }

    fn over(&self) -> bool {
        Instant::now() > self.until || self.tries > 6000
    }

    fn attempt(&mut self, p: Plan) -> bool {
        if self.over() || p == self.best || p.validate().is_err() {
            return false;
        }
        self.tries += 1;
        if let (Some(v), _) = check(self.h, &p) {
            if v.class == self.class {
                self.best = p;
                self.violation = v;
                return true;
            }
        }
        false
    }

    pub fn go(&mut self) {
        loop {
            let before = self.best.clone();
            self.ops();
            self.shape();
            self.faults();
            self.schedule();
            self.bursts();
            self.texts();
            self.unused_texts();
            self.heap();
            if self.best == before || self.over() {
                break;
            }
        }
    }

    /// Removes operations, halves first.
    fn ops(&mut self) {
        let ids = |p: &Plan| {
            let mut v = Vec::new();
            for (pi, ph) in p.phases.iter().enumerate() {
                for (t, ops) in ph.iter().enumerate() {
                    for i in 0..ops.len() {
                        v.push((pi, t, i));
                    }
                }
            }
            v
        };
        let mut size = ids(&self.best).len().div_ceil(2).max(1);
        loop {
            let mut at = 0;
            // from the end: later operations are the less needed ones
            loop {
                let all = ids(&self.best);
                if at >= all.len() {
                    break;
                }
                let hi = all.len() - at;
                let lo = hi.saturating_sub(size);
                let mut p = self.best.clone();
                for &(pi, t, i) in all[lo..hi].iter().rev() {
                    p.phases[pi][t].remove(i);
                }
                if !self.attempt(p) {
                    at += size;
                }
                if self.over() {
                    return;
                }
            }
            if size == 1 {
                break;
            }
            size = size.div_ceil(2);
            if size == 0 {
                break;
            }
        }
    }

    fn shape(&mut self) {
        // all in one phase, fewer threads, fewer repetitions
        let mut i = 0;
        while i < self.best.phases.len() && self.best.phases.len() > 1 {
            let mut p = self.best.clone();
            if p.phases[i].iter().all(|t| t.is_empty()) {
                p.phases.remove(i);
                if self.attempt(p) {
                    continue;
                }
            } else if i + 1 < p.phases.len() {
                let next = p.phases.remove(i + 1);
                for (t, ops) in next.into_iter().enumerate() {
                    p.phases[i][t].extend(ops);
                }
                if self.attempt(p) {
                    continue;
                }
            }
            i += 1;
        }
        let mut t = 0;
        while t < self.best.threads && self.best.threads > 1 {
            if self.best.phases.iter().all(|p| p[t].is_empty()) {
                let mut p = self.best.clone();
                p.threads -= 1;
                for ph in &mut p.phases {
                    ph.remove(t);
                }
                if self.attempt(p) {
                    continue;
                }
            }
            t += 1;
        }
        if self.best.threads > 1 {
            // everything on one thread
            let mut p = self.best.clone();
            for ph in &mut p.phases {
                let all: Vec<Op> = ph.drain(..).flatten().collect();
                *ph = vec![all];
            }
            p.threads = 1;
            p.sched.clear();
            self.attempt(p);
        }
        for r in [1, 2, 6, 10, 20] {
            if r < self.best.reps {
                let mut p = self.best.clone();
                p.reps = r;
                if self.attempt(p) {
                    break;
                }
            }
        }
    }

    fn faults(&mut self) {
        for pi in 0..self.best.phases.len() {
            for t in 0..self.best.phases[pi].len() {
                for i in 0..self.best.phases[pi][t].len() {
                    let Some((_, n)) = self.best.phases[pi][t][i].fault else { continue };
                    let mut p = self.best.clone();
                    p.phases[pi][t][i].fault = None;
                    if self.attempt(p) {
                        continue;
                    }
                    for k in 1..=n.min(4) {
                        let mut p = self.best.clone();
                        p.phases[pi][t][i].fault = Some((1, k));
                        if p == self.best || self.attempt(p) {
                            break;
                        }
                    }
                }
            }
        }
    }

    fn schedule(&mut self) {
        let mut p = self.best.clone();
        p.sched.clear();
        if self.attempt(p) || self.best.sched.is_empty() {
            return;
        }
        let mut size = self.best.sched.len().div_ceil(2);
        while size >= 1 {
            // cut the end first: what follows runs with the default budget
            loop {
                let n = self.best.sched.len();
                if n < size {
                    break;
                }
                let mut p = self.best.clone();
                p.sched.truncate(n - size);
                if !self.attempt(p) {
                    break;
                }
            }
            let mut at = 0;
            while at + size <= self.best.sched.len() && self.best.sched.len() < 60 {
                let mut p = self.best.clone();
                p.sched.drain(at..at + size);
                if !self.attempt(p) {
                    at += size;
                }
                if self.over() {
                    return;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut p = self.best.clone();
        p.tail = 1_000_000_000;
        self.attempt(p);
        let mut p = self.best.clone();
        p.shared = 0;
        self.attempt(p);
    }

    fn bursts(&mut self) {
        for pi in 0..self.best.phases.len() {
            for t in 0..self.best.phases[pi].len() {
                for i in 0..self.best.phases[pi][t].len() {
                    let o = self.best.phases[pi][t][i].clone();
                    let single = matches!(
                        o.k,
                        K::SetAll
                            | K::CloneMetric
                            | K::CloneParser
                            | K::AssignMetric
                            | K::AssignParser
                    );
                    let many =
                        matches!(o.k, K::Burst | K::ParseBurst | K::Stream | K::ParseStream);
                    if single && o.a[3] > 0 {
                        let mut p = self.best.clone();
                        p.phases[pi][t][i].a[3] = 0;
                        if self.attempt(p) {
                            continue;
                        }
                    } else if !many {
                        continue;
                    }
                    let (hi, mut n) = (o.a[3] & !0xff_ffff, o.a[3] & 0xff_ffff);
                    let mut step = n / 2;
                    while step > 0 {
                        if n > step {
                            let mut p = self.best.clone();
                            p.phases[pi][t][i].a[3] = hi | (n - step);
                            if self.attempt(p) {
                                n -= step;
                                continue;
                            }
                        }
                        step /= 2;
                    }
                }
            }
        }
    }

    fn texts(&mut self) {
        for i in 0..self.best.texts.len() {
            match self.best.texts[i].clone() {
                Text::Raw(_) => self.raw(i),
                Text::Rep(..) => self.rep(i),
                Text::Runs(_) => self.runs(i),
                Text::Terms(_) => self.terms(i),
            }
            if self.over() {
                return;
            }
        }
    }

    fn raw(&mut self, i: usize) {
        let chars = |p: &Plan| -> Vec<char> {
            match &p.texts[i] {
                Text::Raw(s) => s.chars().collect(),
                _ => Vec::new(),
            }
        };
        let mut size = chars(&self.best).len().div_ceil(2);
        while size >= 1 {
            let mut at = 0;
            loop {
                let v = chars(&self.best);
                if at >= v.len() {
                    break;
                }
                let mut p = self.best.clone();
                let end = (at + size).min(v.len());
                p.texts[i] = Text::Raw(v[..at].iter().chain(&v[end..]).collect());
                if !self.attempt(p) {
                    at += size;
                }
                if self.over() {
                    return;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
    }

    fn rep(&mut self, i: usize) {
        loop {
            let Text::Rep(u, n, e) = self.best.texts[i].clone() else { return };
            let mut done = true;
            for k in [0, 1, n / 10, n / 2, n - n / 8, n.saturating_sub(1)] {
                if k < n {
                    let mut p = self.best.clone();
                    p.texts[i] = Text::Rep(u.clone(), k, e.clone());
                    if self.attempt(p) {
                        done = false;
                        break;
                    }
                }
            }
            if done {
                if n <= 8 {
                    let mut p = self.best.clone();
                    p.texts[i] = Text::Raw(p.texts[i].render());
                    self.attempt(p);
                }
                return;
            }
        }
    }

    fn runs(&mut self, i: usize) {
        let pieces = |p: &Plan| match &p.texts[i] {
            Text::Runs(v) => v.clone(),
            _ => Vec::new(),
        };
        let mut at = 0;
        while at < pieces(&self.best).len() {
            let v = pieces(&self.best);
            let n = v[at].1;
            let mut smaller = false;
            for k in [0, 1, n / 10, n / 2, n - n / 8, n.saturating_sub(1)] {
                if k >= n {
                    continue;
                }
                let mut v = v.clone();
                if k == 0 {
                    v.remove(at);
                } else {
                    v[at].1 = k;
                }
                let mut p = self.best.clone();
                p.texts[i] = Text::Runs(v);
                if self.attempt(p) {
                    smaller = true;
                    break;
                }
            }
            if !smaller {
                at += 1;
            }
            if self.over() {
                return;
            }
        }
        let v = pieces(&self.best);
        if v.iter().all(|(_, n)| *n <= 8) {
            let mut p = self.best.clone();
            p.texts[i] = Text::Raw(p.texts[i].render());
            self.attempt(p);
        }
    }

    fn terms(&mut self, i: usize) {
        let groups = |p: &Plan| match &p.texts[i] {
            Text::Terms(g) => g.clone(),
            _ => Vec::new(),
        };
        let mut gi = groups(&self.best).len();
        let mut size = gi.div_ceil(2).max(1);
        loop {
            let mut at = 0;
            while at < groups(&self.best).len() {
                let mut g = groups(&self.best);
                if g.len() <= 1 {
                    break;
                }
                let end = (at + size).min(g.len());
                g.drain(at..end);
                let mut p = self.best.clone();
                p.texts[i] = Text::Terms(g);
                if matches!(&p.texts[i], Text::Terms(g) if g.is_empty()) || !self.attempt(p) {
                    at += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        gi = 0;
        while gi < groups(&self.best).len() {
            let mut ai = 0;
            while ai < groups(&self.best)[gi].len() {
                let g = groups(&self.best);
                if g[gi].len() > 1 {
                    let mut h = g.clone();
                    h[gi].remove(ai);
                    let mut p = self.best.clone();
                    p.texts[i] = Text::Terms(h);
                    if self.attempt(p) {
                        continue;
                    }
                }
                // a shorter body
                let mut at = 0;
                loop {
                    let g = groups(&self.best);
                    let v: Vec<char> = g[gi][ai].body.chars().collect();
                    if at >= v.len() || v.len() <= 1 {
                        break;
                    }
                    let w: String = v[..at].iter().chain(&v[at + 1..]).collect();
                    if Term::clean(&w) {
                        let mut p = self.best.clone();
                        if let Text::Terms(g) = &mut p.texts[i] {
                            g[gi][ai].body = w;
                        }
                        if self.attempt(p) {
                            continue;
                        }
                    }
                    at += 1;
                    if self.over() {
                        return;
                    }
                }
                ai += 1;
            }
            gi += 1;
        }
    }

    /// Renumbers the texts so that only those in use remain. Not a change of the execution.
    fn unused_texts(&mut self) {
        let mut used = vec![false; self.best.texts.len()];
        for o in self.best.phases.iter().flatten().flatten() {
            match o.k {
                K::Parse => used[o.a[1] as usize] = true,
                K::Dist | K::Ranges => used[o.a[2] as usize] = true,
                K::Burst => {
                    let (a, n) = (o.a[2] & 0xffff, o.a[2] >> 16);
                    used[a as usize..(a + n) as usize].fill(true);
                },
                K::Stream => used[o.a[2] as usize & 0xffff] = true,
                K::ParseStream => used[o.a[1] as usize & 0xffff] = true,
                K::ParseBurst => used[o.a[1] as usize..(o.a[1] + o.a[2]) as usize].fill(true),
                _ => {},
            }
        }
        if used.iter().all(|x| *x) {
            return;
        }
        let mut map = vec![0u32; used.len()];
        let mut p = self.best.clone();
        p.texts.clear();
        for (i, u) in used.iter().enumerate() {
            if *u {
                map[i] = p.texts.len() as u32;
                p.texts.push(self.best.texts[i].clone());
            }
        }
        for o in p.phases.iter_mut().flatten().flatten() {
            match o.k {
                K::Parse => o.a[1] = map[o.a[1] as usize],
                K::Dist | K::Ranges => o.a[2] = map[o.a[2] as usize],
                K::Burst => {
                    o.a[2] = map[(o.a[2] & 0xffff) as usize] | o.a[2] & 0xffff_0000;
                },
                K::Stream => o.a[2] = map[o.a[2] as usize & 0xffff] | o.a[2] & 0xffff_0000,
                K::ParseStream => o.a[1] = map[o.a[1] as usize & 0xffff] | o.a[1] & 0xffff_0000,
                K::ParseBurst => o.a[1] = map[o.a[1] as usize],
                _ => {},
            }
        }
        self.attempt(p);
    }

    fn heap(&mut self) {
        let set: [fn(&mut Personality); 4] = [
            |h| h.slop = false,
            |h| h.fill = 0,
            |h| h.reuse = 0,
            |h| h.move_always = false,
        ];
        for f in set {
            let mut p = self.best.clone();
            f(&mut p.heap);
            self.attempt(p);
        }
    }
}
