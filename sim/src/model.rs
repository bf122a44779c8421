//! A small reference model of what is documented about matching: which candidates a query matches.
//! It knows nothing of norm's code. Where the documentation leaves something open it answers so.

use crate::exec::Spec;
use crate::plan::{Term, Text, EQUAL, EXACT, FUZZY, PREFIX, SUFFIX};

/// Certainly not, certainly, or open.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Tri {
    /// If everything that is open is false.
    low: bool,
    high: bool,
}

impl Tri {
    fn not(self) -> Tri {
        Tri { low: !self.high, high: !self.low }
    }
}

/// The groups of alternatives of a query, if the documentation says what they are.
pub fn terms(query: &Text, ext: bool) -> Option<Vec<Vec<Term>>> {
    let text = query.render();
    if !ext {
        if text.is_empty() {
            return Some(vec![]);
        }
        return Some(vec![vec![Term { kind: FUZZY, inverse: false, body: text }]]);
    }
    if let Text::Terms(g) = query {
        if g.iter().all(|a| !a.is_empty() && a.iter().all(|t| Term::clean(&t.body))) {
            return Some(g.clone());
        }
    }
    let mut groups: Vec<Vec<Term>> = Vec::new();
    // Whether the next term is an alternative of the group before it.
    let mut joins = false;
    for word in words(&text) {
        if word == "|" {
            joins = true;
            continue;
        }
        let (inverse, mut body) = match word.strip_prefix('!') {
            Some(b) => (true, b),
            None => (false, word.as_str()),
        };
        let mut kind = if inverse { EXACT } else { FUZZY };
        if let Some(b) = body.strip_suffix('$').filter(|b| !b.is_empty()) {
            kind = SUFFIX;
            body = b;
        }
        if let Some(b) = body.strip_prefix('\'') {
            kind = if inverse { FUZZY } else { EXACT };
            body = b;
        } else if let Some(b) = body.strip_prefix('^') {
            kind = if kind == SUFFIX { EQUAL } else { PREFIX };
            body = b;
        }
        if body.is_empty() {
            continue;
        }
        let t = Term { kind, inverse, body: body.to_string() };
        match groups.last_mut() {
            Some(g) if joins => g.push(t),
            _ => groups.push(vec![t]),
        }
        joins = false;
    }
    Some(groups)
}

/// The words of a query. A space ends a word unless there is a backslash before it.
fn words(text: &str) -> Vec<String> {
    let mut words = Vec::new();
    let mut word = String::new();
    for c in text.chars() {
        if c != ' ' {
            word.push(c);
        } else if word.ends_with('\\') {
            word.pop();
            word.push(' ');
        } else if !word.is_empty() {
            words.push(std::mem::take(&mut word));
        }
    }
    if !word.is_empty() {
        words.push(word);
    }
    words
}

/// The Latin letters that are one ASCII letter with something added, as their Unicode names say,
/// and that are normalized in any case mode.
pub const LATIN: [(char, &str); 42] = [
    ('A', "ÀÁÂÃÄÅȺẤẦẨẪẬẮẰẲẴẶ"),
    ('B', "ƁɃ"),
    ('C', "ÇȻ"),
    ('D', "Ɗ"),
    ('E', "ÈÉÊËɆẾỀỂỄỆ"),
    ('G', "Ɠ"),
    ('I', "ÌÍÎÏİƗ"),
    ('J', "Ɉ"),
    ('L', "Ƚ"),
    ('N', "ÑƝȠ"),
    ('O', "ÒÓÔÕÖØƟỐỒỔỖỘỚỜỞỠỢ"),
    ('R', "Ɍ"),
    ('T', "ƮȾ"),
    ('U', "ÙÚÛÜỨỪỬỮỰ"),
    ('V', "Ʋ"),
    ('Y', "ÝŸɎ"),
    ('a', "àáâãäåāăąǎȁȃȧḁẚạảấầẩẫậắằẳẵặ"),
    ('b', "ƀƃɓḃḅḇ"),
    ('c', "çćĉċčƈȼɕ"),
    ('d', "ďđƌȡɖɗḋḍḏḑḓ"),
    ('e', "èéêëēĕėęěȅȇȩɇḙḛẹẻẽếềểễệ"),
    ('f', "ƒḟ"),
    ('g', "ĝğġģǥǧǵɠḡ"),
    ('h', "ĥħȟɦḣḥḧḩḫẖ"),
    ('i', "ìíîïĩīĭįǐȉȋɨḭỉị"),
    ('j', "ĵǰɉʝ"),
    ('k', "ķƙǩḱḳḵ"),
    ('l', "ĺļľŀłƚȴɫɬɭḷḻḽ"),
    ('m', "ɱḿṁṃ"),
    ('n', "ñńņňƞǹȵɲɳṅṇṉṋ"),
    ('o', "òóôõöøōŏőơǒǫȍȏȯọỏốồổỗộớờởỡợ"),
    ('p', "ƥṕṗ"),
    ('q', "ɋʠ"),
    ('r', "ŕŗřȑȓɍɼɽɾṙṛṟ"),
    ('s', "śŝşšșȿʂṡṣ"),
    ('t', "ţťŧƫƭțȶʈṫṭṯṱẗ"),
    ('u', "ùúûüũūŭůűųưǔȕȗṳṵṷụủứừửữự"),
    ('v', "ʋṽṿ"),
    ('w', "ŵẁẃẅẇẉẘ"),
    ('x', "ẋẍ"),
    ('y', "ýÿŷƴȳɏẏẙỳỵỷỹ"),
    ('z', "źżžƶȥɀʐʑẑẓẕ"),
];

/// What a candidate's character is normalized to, for those where there can be no doubt.
fn plain(c: char) -> Option<char> {
    LATIN.iter().find(|x| x.1.contains(c)).map(|x| x.0)
}

/// Characters of which the documentation does not say whether they are normalized.
fn latin(c: char) -> bool {
    matches!(c as u32, 0x80..=0x36f | 0x1d00..=0x2e7f | 0xa700..=0xa7ff | 0xab30..=0xabff
        | 0xfb00..=0xfb10 | 0xff00..=0xff60 | 0x10780..=0x107bf | 0x1d400..=0x1d7ff)
}

/// The one lowercase letter of a letter.
fn lower(c: char) -> Option<char> {
    let mut it = c.to_lowercase();
    it.next().filter(|_| it.next().is_none())
}

/// Whether a character of the query equals one of the candidate. `exact` and `loose` say whether
/// the comparison may be case-sensitive and whether it may be insensitive.
fn same(q: char, c: char, exact: bool, loose: bool, norm: bool) -> Tri {
    let no = Tri { low: false, high: false };
    let yes = Tri { low: true, high: true };
    let open = Tri { low: false, high: true };
    let alike = |q: char, c: char| {
        q.to_lowercase().eq(c.to_lowercase()) || q.to_uppercase().eq(c.to_uppercase())
    };
    let cased = |c: char| -> Tri {
        if q == c {
            yes
        } else if q.is_ascii() && c.is_ascii() {
            if q.eq_ignore_ascii_case(&c) {
                Tri { low: !exact, high: loose }
            } else {
                no
            }
        } else if !q.is_ascii() && !c.is_ascii() && lower(q).is_some() && lower(q) == lower(c) {
            Tri { low: !exact, high: loose }
        } else if loose && alike(q, c) {
            open
        } else {
            no
        }
    };
    if !norm || c.is_ascii() {
        return cased(c);
    }
    if !q.is_ascii() {
        // the query is not normalized, and what equals it as it is need not be
        let usual = |c: char| matches!(c as u32, 0x80..=0x24f);
        return if !latin(c) || q == c || usual(q) && usual(c) {
            cased(c)
        } else if loose && alike(q, c) {
            open
        } else {
            no
        };
    }
    if let Some(p) = plain(c) {
        return cased(p);
    }
    // an uppercase letter that the table does not have is normalized at least where case is ignored
    match lower(c).and_then(plain) {
        Some(p) if q.eq_ignore_ascii_case(&p) => Tri { low: !exact, high: true },
        Some(_) => no,
        None if latin(c) => open,
        None => cased(c),
    }
}

/// How many characters are ignored between the edge of a candidate and a term, at least and at
/// most.
fn edge<'a>(
    q: impl Iterator<Item = &'a char>,
    c: impl Iterator<Item = &'a char> + Clone,
) -> (usize, usize) {
    let most = c.clone().take_while(|c| c.is_whitespace()).count();
    if q.take(1).any(|c| c.is_whitespace()) {
        return (0, most);
    }
    (c.take_while(|c| **c == ' ').count(), most)
}

fn term(t: &Term, cand: &[char], sensitive: (bool, bool), norm: bool) -> Tri {
    let body: Vec<char> = t.body.chars().collect();
    let q = body.as_slice();
    // spaces around the candidate do not matter, unless the term has some, too
    let (head, most_head) = edge(q.iter(), cand.iter());
    let (tail, most_tail) = edge(q.iter().rev(), cand.iter().rev());
    let found = |high: bool| -> bool {
        let eq = |a: &char, b: &char| {
            let s = same(*a, *b, sensitive.0, sensitive.1, norm);
            if high {
                s.high
            } else {
                s.low
            }
        };
        let all = |w: &[char]| q.len() == w.len() && q.iter().zip(w).all(|(a, b)| eq(a, b));
        let heads = head..=if high { most_head } else { head };
        let tails = tail..=if high { most_tail } else { tail };
        // where the term is if this many characters before or after it are ignored
        let at = |n: usize| cand.get(n..n + q.len());
        let ends = |n: usize| (cand.len()).checked_sub(n + q.len());
        match t.kind {
            FUZZY => {
                let mut it = cand.iter();
                q.iter().all(|a| it.any(|b| eq(a, b)))
            },
            EXACT => cand.windows(q.len()).any(all),
            PREFIX => heads.into_iter().any(|n| at(n).is_some_and(all)),
            SUFFIX => tails.into_iter().filter_map(ends).any(|n| at(n).is_some_and(all)),
            _ => heads
                .into_iter()
                .any(|n| ends(n).is_some_and(|m| tails.contains(&m)) && at(n).is_some_and(all)),
        }
    };
    let r = Tri { low: found(false), high: found(true) };
    if t.inverse {
        r.not()
    } else {
        r
    }
}

/// Whether the candidate matches, if that is determined.
pub fn matches(spec: &Spec, groups: &[Vec<Term>], cand: &str) -> Option<bool> {
    let c: Vec<char> = cand.chars().collect();
    let upper = |s: &str| s.chars().any(char::is_uppercase);
    let any_upper = groups.iter().flatten().any(|t| upper(&t.body));
    let mut all = Tri { low: true, high: true };
    for g in groups {
        let mut any = Tri { low: false, high: false };
        for t in g {
            // (may be sensitive, may be insensitive); smart case goes by the query or by the term
            let sensitive = match spec.case {
                0 => (true, false),
                1 => (false, true),
                _ => (any_upper, !upper(&t.body)),
            };
            let x = term(t, &c, sensitive, spec.norm);
            any = Tri { low: any.low || x.low, high: any.high || x.high };
        }
        all = Tri { low: all.low && any.low, high: all.high && any.high };
    }
    (all.low == all.high).then_some(all.low)
}

// ---------------------------------------------------------------- scores

#[derive(Clone, Copy, PartialEq, Eq)]
enum Class {
    White,
    NonWord,
    Delimiter,
    Lower,
    Upper,
    Letter,
    Number,
}
use Class::*;

fn class(c: char, scheme: u8) -> Class {
    let delimiters = if scheme == 1 { "/" } else { "/,:;|" };
    match c {
        _ if c.is_lowercase() => Lower,
        _ if c.is_uppercase() => Upper,
        _ if c.is_numeric() => Number,
        _ if c.is_alphabetic() => Letter,
        _ if c.is_whitespace() => White,
        _ if delimiters.contains(c) => Delimiter,
        _ => NonWord,
    }
}

/// The product of the lengths of query and candidate up to which scores are computed.
pub const MOST: usize = 3_000_000;

/// A term's alignment with a candidate: what it scores and the characters it covers.
type Alignment = (i64, Vec<usize>);

struct Scorer<'a> {
    spec: &'a Spec,
    query: Vec<char>,
    cand: &'a [char],
    /// The bonus of each position.
    bonus: &'a [i64],
    sensitive: (bool, bool),
    /// Something that is open was asked for.
    open: std::cell::Cell<bool>,
}

impl Scorer<'_> {
    fn eq(&self, i: usize, j: usize) -> bool {
        let t =
            same(self.query[i], self.cand[j], self.sensitive.0, self.sensitive.1, self.spec.norm);
        if t.low != t.high {
            self.open.set(true);
        }
        t.high
    }

    /// The score of covering these positions of the candidate.
    fn score(&self, at: &[usize]) -> i64 {
        let mut sum = 0;
        // the bonus of the first character of a run of adjacent ones
        let mut run = 0;
        for (n, &j) in at.iter().enumerate() {
            let mut b = self.bonus[j];
            let gap = if n == 0 { 0 } else { j - at[n - 1] - 1 };
            if gap > 0 {
                sum -= 3 + (gap as i64 - 1);
            }
            if n == 0 || gap > 0 {
                run = b;
            } else {
                if b >= 8 && b > run {
                    run = b;
                }
                b = b.max(run).max(4);
            }
            sum += 16 + if n == 0 { 2 * b } else { b };
        }
        sum
    }

    fn adjacent(&self, start: usize) -> Option<Alignment> {
        let n = self.query.len();
        if start + n > self.cand.len() || !(0..n).all(|i| self.eq(i, start + i)) {
            return None;
        }
        let at: Vec<usize> = (start..start + n).collect();
        Some((self.score(&at), at))
    }

    /// The first occurrence that starts at a word boundary, or the first of those whose first
    /// character has the biggest bonus.
    fn exact(&self) -> Option<Alignment> {
        let mut best: Option<(i64, Alignment)> = None;
        for start in 0..self.cand.len() {
            let Some(a) = self.adjacent(start) else { continue };
            let b = self.bonus[start];
            if best.as_ref().is_none_or(|x| b > x.0) {
                best = Some((b, a));
            }
            if b >= 8 {
                break;
            }
        }
        best.map(|x| x.1)
    }

    /// Goes to the first place where the term ends, back to where it starts, and forward again.
    fn v1(&self) -> Option<Alignment> {
        let n = self.query.len();
        let mut j = 0;
        for i in 0..n {
            j += (j..self.cand.len()).position(|j| self.eq(i, j))? + 1;
        }
        for i in (0..n).rev() {
            j = (0..j).rev().find(|j| self.eq(i, *j))?;
        }
        let mut at = Vec::new();
        for i in 0..n {
            j += (j..self.cand.len()).position(|j| self.eq(i, j))?;
            at.push(j);
            j += 1;
        }
        Some((self.score(&at), at))
    }

    /// The best of the chains that the recurrence finds.
    fn v2(&self) -> Option<Alignment> {
        let n = self.query.len();
        if n == 1 {
            let mut best: Option<Alignment> = None;
            for j in 0..self.cand.len() {
                if self.eq(0, j) && best.as_ref().is_none_or(|x| self.score(&[j]) > x.0) {
                    best = Some((self.score(&[j]), vec![j]));
                }
            }
            return best;
        }
        // where each character can be at the earliest
        let mut first = Vec::new();
        let mut j = 0;
        for i in 0..n {
            j += (j..self.cand.len()).position(|j| self.eq(i, j))?;
            first.push(j);
            j += 1;
        }
        let start = first[0];
        let last = (0..self.cand.len()).rev().find(|j| self.eq(n - 1, *j))?;
        let width = last - start + 1;
        let mut scores = vec![vec![0i64; width]; n];
        let mut runs = vec![vec![0usize; width]; n];
        for i in 0..n {
            let mut in_gap = false;
            for j in first[i]..=last {
                let x = j - start;
                let left = if j == first[i] { 0 } else { scores[i][x - 1] };
                let skipped = left - if in_gap { 1 } else { 3 };
                let mut taken = 0;
                let mut run = 0;
                if self.eq(i, j) {
                    let own = self.bonus[j];
                    if i == 0 {
                        // the start of another chain
                        taken = 16 + 2 * own;
                        run = 1;
                    } else {
                        taken = scores[i - 1][x - 1] + 16;
                        run = runs[i - 1][x - 1] + 1;
                        let mut b = own;
                        if run > 1 {
                            let head = self.bonus[j + 1 - run];
                            if own >= 8 && own > head {
                                run = 1;
                            } else {
                                b = own.max(4).max(head);
                            }
                        }
                        if taken + b < skipped {
                            taken += own;
                            run = 0;
                        } else {
                            taken += b;
                        }
                    }
                }
                in_gap = taken < skipped;
                runs[i][x] = run;
                scores[i][x] = taken.max(skipped).max(0);
                if i == 0 && run == 1 {
                    // also when going on would have been better
                    scores[i][x] = taken;
                    in_gap = false;
                }
            }
        }
        let (mut x, mut best) = (0, 0);
        for (j, s) in scores[n - 1].iter().enumerate() {
            if *s > best {
                (x, best) = (j, *s);
            }
        }
        // back along the chain, rather over adjacent characters
        let mut at = Vec::new();
        let mut i = n - 1;
        let mut prefer = true;
        loop {
            let s = scores[i][x];
            let diagonal = if i > 0 && start + x >= first[i] { scores[i - 1][x - 1] } else { 0 };
            let left = if start + x > first[i] { scores[i][x - 1] } else { 0 };
            let taken = s > diagonal && (s > left || s == left && prefer);
            prefer = runs[i][x] > 1 || i + 1 < n && x + 1 < width && runs[i + 1][x + 1] > 0;
            if taken {
                at.push(start + x);
                if i == 0 {
                    break;
                }
                i -= 1;
            }
            if x == 0 {
                self.open.set(true);
                break;
            }
            x -= 1;
        }
        at.reverse();
        Some((best, at))
    }
}

/// The score of a candidate and the bytes that its match covers, if that is determined and if it
/// matches: each term must have no alternatives.
pub fn scored(spec: &Spec, groups: &[Vec<Term>], cand: &str) -> Option<(i64, Vec<bool>)> {
    let c: Vec<char> = cand.chars().collect();
    if c.contains(&'\x0b') {
        // whether this is a space is open
        return None;
    }
    let upper = |s: &str| s.chars().any(char::is_uppercase);
    let any_upper = groups.iter().flatten().any(|t| upper(&t.body));
    let (white, delimiter) = [(10, 9), (8, 9), (8, 8)][spec.scheme.min(2) as usize];
    let mut prev = if spec.scheme == 1 { Delimiter } else { White };
    let bonus: Vec<i64> = c
        .iter()
        .map(|c| {
            let next = class(*c, spec.scheme);
            let boundary = match prev {
                White => white,
                Delimiter => delimiter,
                NonWord => 8,
                _ => 0,
            };
            let b = match next {
                NonWord => 8,
                White => white,
                _ if boundary > 0 => boundary,
                Number if prev != Number => 7,
                Upper if prev == Lower => 7,
                _ => 0,
            };
            prev = next;
            b
        })
        .collect();
    let mut sum = 0;
    let mut covered = vec![false; c.len()];
    for g in groups {
        let [t] = g.as_slice() else { return None };
        if t.inverse {
            continue;
        }
        let sensitive = match spec.case {
            0 => (true, false),
            1 => (false, true),
            _ => (any_upper, !upper(&t.body)),
        };
        let query: Vec<char> = t.body.chars().collect();
        let blank = |n: &mut dyn Iterator<Item = &char>| n.take_while(|c| c.is_whitespace()).count();
        let (q_head, q_tail) = (blank(&mut query.iter()), blank(&mut query.iter().rev()));
        let (head, most) = edge(query.iter(), c.iter());
        let open_head = head != most && (q_head == query.len() || q_head != most);
        let (tail, most) = edge(query.iter().rev(), c.iter().rev());
        let open_tail = tail != most && (q_tail == query.len() || q_tail != most);
        let s = Scorer {
            spec,
            query,
            cand: &c,
            bonus: &bonus,
            sensitive,
            open: std::cell::Cell::new(false),
        };
        let n = s.query.len();
        let a = match t.kind {
            FUZZY if spec.kind == 1 => s.v1(),
            FUZZY => s.v2(),
            EXACT => s.exact(),
            PREFIX | EQUAL if open_head => None,
            PREFIX => s.adjacent(head),
            SUFFIX | EQUAL if open_tail => None,
            SUFFIX => (c.len() - tail).checked_sub(n).and_then(|x| s.adjacent(x)),
            _ if head + n + tail != c.len() => None,
            _ => s.adjacent(head),
        };
        if s.open.get() {
            return None;
        }
        let (x, at) = a?;
        sum += x;
        for j in at {
            covered[j] = true;
        }
    }
    let bytes = c
        .iter()
        .zip(covered)
        .flat_map(|(c, x)| std::iter::repeat_n(x, c.len_utf8()))
        .collect();
    Some((sum, bytes))
}

/// Whether these ranges cover what they should.
pub fn covers(ranges: &[(u64, u64)], bytes: &[bool]) -> bool {
    let mut got = vec![false; bytes.len()];
    for &(a, b) in ranges {
        if a > b || b > bytes.len() as u64 {
            return false;
        }
        got[a as usize..b as usize].fill(true);
    }
    got == bytes
}

/// The ranges of the marked bytes.
pub fn ranges_of(bytes: &[bool]) -> Vec<std::ops::Range<usize>> {
    let mut v: Vec<std::ops::Range<usize>> = Vec::new();
    for (i, _) in bytes.iter().enumerate().filter(|x| *x.1) {
        match v.last_mut() {
            Some(r) if r.end == i => r.end += 1,
            _ => v.push(i..i + 1),
        }
    }
    v
}
