//! Families of token sets and texts for C04 and C05.
use crate::dp::*;
use crate::gen::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::VecDeque;
use std::time::Duration;
use subject::stats2::TokenStats;
use subject::tokenizer2::FragmentTokenizer;

pub const HANG: Duration = Duration::from_secs(60);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Texts {
    /// Breadth-first search over canonical states, to the fixpoint.
    Bfs { alphabet: String },
    /// All words up to a length.
    Words { alphabet: String, max: usize },
    /// All pairs of bytes.
    BytePairs,
    /// Explicit texts, run-length encoded: (unit, repetitions) joined.
    List(Vec<Vec<(String, usize)>>),
    /// De Bruijn sequence over an alphabet: every word of the length occurs.
    DeBruijn { alphabet: String, order: usize },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub set: SetSpec,
    pub texts: Texts,
}

pub fn de_bruijn(alphabet: &[u8], n: usize) -> Vec<u8> {
    let k = alphabet.len();
    let mut a = vec![0usize; k * n + 1];
    let mut seq = vec![];
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, seq: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                seq.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, seq);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, n, k, a, seq);
            }
        }
    }
    db(1, 1, n, k, &mut a, &mut seq);
    let mut v: Vec<u8> = seq.iter().map(|&i| alphabet[i]).collect();
    let head: Vec<u8> = v[..(n - 1).min(v.len())].to_vec();
    v.extend(head);
    v
}

/// Judge of one text: gets (reference, text, statistics of exactly this text).
pub type Judge<'a> = dyn Fn(&Ref, &[u8], &Delta, u64) -> Result<(), String> + Sync + 'a;

pub struct Bound {
    pub tok: FragmentTokenizer,
    pub st: TokenStats,
    pub buf: Vec<subject::tokenizer2::CostState>,
    pub r: Ref,
    pub full: bool,
}

impl Bound {
    pub fn new(spec: &SetSpec, full: bool) -> Bound {
        let ts = spec.build();
        let r = Ref::new(&ts);
        let st = TokenStats::new(ts.clone(), None);
        Bound { tok: FragmentTokenizer::new(ts), st, buf: vec![], r, full }
    }
    /// Runs the real code on one text.
    pub fn run(&mut self, text: &[u8]) -> Delta {
        if self.full {
            reset(&mut self.st);
            self.tok.process_slice(text, &mut self.st, &mut self.buf);
            Delta::of(&self.st)
        } else {
            let (a, b) = (self.st.total_tokens, self.st.scanned_bytes);
            self.tok.process_slice(text, &mut self.st, &mut self.buf);
            Delta { total: self.st.total_tokens - a, bytes: self.st.scanned_bytes - b, ..Default::default() }
        }
    }
}

/// Runs one case; `full` collects all counts (slower), otherwise totals only.
pub fn run_case(case: &Case, full: bool, judge: &Judge) -> Result<Seen, String> {
    let mut b = Bound::new(&case.set, full);
    let mut seen = Seen::default();
    let mut out = 0u64;
    let mut one = |b: &mut Bound, text: &[u8], want: Option<u64>| -> Result<(), String> {
        let d = b.run(text);
        let min = want.unwrap_or_else(|| b.r.min_tokens(text));
        judge(&b.r, text, &d, min)?;
        seen.steps += text.len() as u64;
        seen.execs += 1;
        out = hash_of(&(out, d.total, d.tokens.len()));
        if d.total > 1 {
            seen.nontrivial = true;
        }
        Ok(())
    };
    let mut states = 0;
    match &case.texts {
        Texts::Bfs { alphabet } => {
            let alpha = latin1(alphabet);
            let mut reached: Reached = Default::default();
            let mut q = VecDeque::new();
            one(&mut b, &[], None)?;
            reached.insert(b.r.canonical(&[]), vec![]);
            q.push_back(vec![]);
            while let Some(t) = q.pop_front() {
                for &c in &alpha {
                    let mut u: Vec<u8> = t.clone();
                    u.push(c);
                    one(&mut b, &u, None)?;
                    let k = b.r.canonical(&u);
                    if !reached.contains_key(&k) {
                        reached.insert(k, u.clone());
                        q.push_back(u);
                    }
                }
                if reached.len() > 20_000 {
                    return Err(format!("{}canonical states explode", HARNESS));
                }
            }
            states = reached.len() as u64;
        }
        Texts::Words { alphabet, max } => {
            let w = Words::new(latin1(alphabet), 0, *max);
            for i in 0..w.count() {
                one(&mut b, &w.get(i), None)?;
            }
        }
        Texts::BytePairs => {
            for x in 0..=255u8 {
                one(&mut b, &[x], None)?;
                for y in 0..=255u8 {
                    one(&mut b, &[x, y], None)?;
                }
            }
        }
        Texts::List(v) => {
            for t in v {
                let text: Vec<u8> = t.iter().flat_map(|(u, n)| latin1(u).repeat(*n)).collect();
                one(&mut b, &text, None)?;
            }
        }
        Texts::DeBruijn { alphabet, order } => {
            let t = de_bruijn(&latin1(alphabet), *order);
            one(&mut b, &t, None)?;
        }
    }
    seen.states = states;
    seen.outcome = hash_of(&(out, states));
    Ok(seen)
}

pub fn strings(alphabet: &str, lo: usize, hi: usize) -> Vec<String> {
    let w = Words::new(latin1(alphabet), lo, hi);
    (0..w.count()).map(|i| to_latin1(&w.get(i))).collect()
}

pub const BASES: &[&str] = &["bits1", "bits2", "bits4", "bytes", "huff", "multi"];

fn cross(bases: &[&str], strs: &[String], k: usize, texts: &Texts) -> Vec<Case> {
    let mut v = vec![];
    for sub in subsets(strs.len(), k) {
        for b in bases {
            v.push(Case { set: SetSpec { base: b.to_string(), tokens: sub.iter().map(|&i| strs[i].clone()).collect(), sorted: false }, texts: texts.clone() });
        }
    }
    v
}

fn rl(parts: &[(&str, usize)]) -> Vec<(String, usize)> {
    parts.iter().map(|(s, n)| (s.to_string(), *n)).collect()
}

pub fn families(thorough: bool, full: bool) -> Vec<(&'static str, Vec<Case>)> {
    let mut out = vec![];
    let bfs = |a: &str| Texts::Bfs { alphabet: a.into() };
    let ab = strings("ab", 1, if thorough { 5 } else { 4 });
    out.push(("all sets with up to 3 tokens over {a,b}, states to fixpoint", cross(BASES, &ab, 3, &bfs("ab"))));
    let short = strings("ab", 1, 3);
    out.push(("all sets with up to 2 tokens of at most 3 letters, all words", cross(BASES, &short, 2, &Texts::Words { alphabet: "ab".into(), max: if thorough { 12 } else if full { 8 } else { 9 } })));
    let abc = strings("abc", 1, 3);
    out.push(("all sets with up to 2 tokens over {a,b,c}, states to fixpoint", cross(&["bits4", "multi", "huff"], &abc, 2, &bfs("abc"))));
    out.push(("all sets with up to 2 tokens over {0x00,0xff}, states to fixpoint", cross(&["bits1", "bytes", "huff"], &strings("\u{0}\u{ff}", 1, 4), 2, &bfs("\u{0}\u{ff}"))));
    out.push(("all sets with up to 2 tokens over {LF,0x80}, states to fixpoint", cross(&["bits2", "bytes"], &strings("\n\u{80}", 1, 4), 2, &bfs("\n\u{80}"))));
    // Four and more tokens: all subsets of a chain-rich pool.
    let pool: Vec<String> = ["a", "b", "aa", "ab", "ba", "aab", "aba", "abab", "baab", "aaaa", "abaab"].iter().map(|s| s.to_string()).collect();
    let mut v = vec![];
    for m in 0..1usize << pool.len() {
        if !thorough && m.count_ones() > 6 && m.count_ones() < 10 {
            continue;
        }
        let toks: Vec<String> = (0..pool.len()).filter(|i| m >> i & 1 == 1).map(|i| pool[i].clone()).collect();
        for b in ["bits4", "multi"] {
            v.push(Case { set: SetSpec { base: b.into(), tokens: toks.clone(), sorted: m % 2 == 0 }, texts: bfs("ab") });
        }
    }
    out.push(("subsets of an overlapping pool, states to fixpoint", v));
    // Insertion order and sorting.
    let mut v = vec![];
    for (i, a) in ab.iter().take(30).enumerate() {
        for b in ab.iter().take(30).skip(i + 1) {
            for base in ["bits1", "bytes", "multi"] {
                v.push(Case { set: SetSpec { base: base.into(), tokens: vec![b.clone(), a.clone()], sorted: false }, texts: bfs("ab") });
                v.push(Case { set: SetSpec { base: base.into(), tokens: vec![b.clone(), a.clone()], sorted: true }, texts: bfs("ab") });
            }
        }
    }
    out.push(("pairs of tokens in the other order and sorted", v));
    // All byte pairs under every base, with tokens on high and low bytes.
    let mut v = vec![];
    for b in BASES {
        v.push(Case { set: SetSpec::new(b, &[]), texts: Texts::BytePairs });
        v.push(Case { set: SetSpec::new(b, &["\u{0}\u{0}", "\u{ff}\u{ff}", "\u{7f}\u{80}", "a", "\n\n", "\u{80}"]), texts: Texts::BytePairs });
    }
    out.push(("all byte pairs", v));
    // Scale: long tokens, deep suffix chains, many tokens, long texts.
    let mut v = vec![];
    let lens: Vec<usize> = (2..=40).chain([50, 63, 64, 65, 70, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 258, 300]).chain(if thorough { vec![400, 511, 512, 513, 600, 1000, 1023, 1024, 1025] } else { vec![] }).collect();
    for &l in &lens {
        let lists = Texts::List(vec![
            rl(&[("a", l)]), rl(&[("a", l - 1)]), rl(&[("a", l + 1)]), rl(&[("a", 2 * l)]), rl(&[("a", 2 * l - 1)]), rl(&[("b", 1), ("a", l), ("b", 1)]),
            rl(&[("a", l), ("b", 1), ("a", l - 1)]), rl(&[("a", 5 * l + 3)]), rl(&[("a", l - 1), ("b", 1), ("a", l)]), rl(&[("ab", l)]), rl(&[("ab", l / 2), ("a", l)]),
        ]);
        for base in ["bits1", "bytes", "bits4"] {
            if l > 130 && base == "bits4" && !thorough {
                continue;
            }
            // One long token.
            v.push(Case { set: SetSpec { base: base.into(), tokens: vec!["a".repeat(l)], sorted: false }, texts: lists.clone() });
            // A long token ending in b, and its suffixes.
            v.push(Case { set: SetSpec { base: base.into(), tokens: vec!["a".repeat(l - 1) + "b", "ab".into(), "aab".into(), "a".repeat(l / 2) + "b"], sorted: false }, texts: lists.clone() });
            if l <= 130 || (l <= 300 && base == "bits1" && (thorough || l == 257)) {
                // a, aa, aaa, ... : the suffix chain is as deep as the token.
                v.push(Case { set: SetSpec { base: base.into(), tokens: (1..=l).map(|i| "a".repeat(i)).collect(), sorted: false }, texts: lists.clone() });
                v.push(Case { set: SetSpec { base: base.into(), tokens: (1..=l).map(|i| "ab".repeat(i)).collect(), sorted: true }, texts: lists.clone() });
            }
            if base != "bytes" {
                v.push(Case { set: SetSpec { base: base.into(), tokens: vec!["ab".repeat(l / 2), "ba".repeat(l / 2 + 1), "b".into()], sorted: false }, texts: lists.clone() });
            }
        }
    }
    out.push(("long tokens and deep suffix chains", v));
    // The same small sets with letters blown up to long blocks, so that every
    // overlap and suffix relation also occurs between long tokens.
    let small = strings("ab", 1, 3);
    let block = |c: char, k: usize| -> String {
        // No block has a proper border, and the two kinds share no letter.
        (0..k).map(|i| if c == 'a' { char::from(b'a' + (i % 13) as u8) } else { char::from(b'n' + (i % 13) as u8) }).take(k - 1).collect::<String>() + if c == 'a' { "0" } else { "1" }
    };
    let mut v = vec![];
    let words = strings("ab", 1, if full { 4 } else { 6 });
    for (ka, kb) in [(2usize, 1usize), (5, 1), (9, 2), (17, 1), (20, 5), (33, 3), (65, 1), (1, 90), (130, 7), (257, 1)] {
        let blow = |w: &str| -> String { w.chars().map(|c| block(c, if c == 'a' { ka } else { kb })).collect() };
        let texts = Texts::List(words.iter().map(|w| vec![(blow(w), 1)]).collect());
        for sub in subsets(small.len(), if ka + kb > 60 && !thorough { 2 } else { 3 }) {
            if full && !thorough && sub.len() == 3 && ka != 20 && ka != 5 {
                continue;
            }
            for b in ["bits1", "multi"] {
                if b == "multi" && !thorough && (ka > 20 || sub.len() < 3) {
                    continue;
                }
                v.push(Case { set: SetSpec { base: b.into(), tokens: sub.iter().map(|&i| blow(&small[i])).collect(), sorted: false }, texts: texts.clone() });
            }
        }
    }
    out.push(("small sets with letters blown up to long blocks", v));
    let mut v = vec![];
    for (alpha, order) in [("ab", 12), ("abc", 7), ("abcdefgh", 4)] {
        for tl in 1..=if thorough { 9 } else { 8 } {
            let toks = strings(&alpha[..2.min(alpha.len())], 1, tl);
            for step in [1usize, 2, 3, 5] {
                let t: Vec<String> = toks.iter().step_by(step).cloned().collect();
                v.push(Case { set: SetSpec { base: "bits2".into(), tokens: t.clone(), sorted: step == 2 }, texts: Texts::DeBruijn { alphabet: alpha.into(), order } });
                v.push(Case { set: SetSpec { base: "huff".into(), tokens: t, sorted: step == 3 }, texts: Texts::DeBruijn { alphabet: alpha.into(), order } });
            }
        }
    }
    // Around 256 and 512 tokens: two-byte tokens over all bytes.
    for n in [200usize, 239, 240, 241, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 700] {
        let toks: Vec<String> = (0..n).map(|i| to_latin1(&[(i % 256) as u8, (i / 256 + i * 7) as u8])).collect();
        for b in ["bits1", "bits4", "bytes", "huff"] {
            v.push(Case { set: SetSpec { base: b.into(), tokens: toks.clone(), sorted: false }, texts: if full { Texts::Words { alphabet: to_latin1(&(0..=255u8).step_by(11).collect::<Vec<_>>()), max: 2 } } else { Texts::BytePairs } });
            v.push(Case { set: SetSpec { base: b.into(), tokens: toks.clone(), sorted: true }, texts: Texts::DeBruijn { alphabet: to_latin1(&(0..=255u8).step_by(3).collect::<Vec<_>>()), order: 2 } });
        }
    }
    out.push(("many tokens, de Bruijn texts", v));
    let mut v = vec![];
    for n in [100usize, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 100_000, 131_073, 1 << 20, (1 << 20) + 1] {
        if n > 200_000 && full && !thorough {
            continue;
        }
        for b in ["bits1", "bits4", "bytes", "huff", "multi"] {
            let texts = Texts::List(vec![rl(&[("abbab", n / 5), ("a", n % 5)]), rl(&[("a", n)]), rl(&[("xyz ", n / 4)])]);
            v.push(Case { set: SetSpec::new(b, &["ab", "bab", "aaa", "abb", "yz", "z x"]), texts });
        }
    }
    // One cheapest segmentation, counts beyond 16 bits.
    for n in [255usize, 256, 257, 32768, 65534, 65535, 65536, 65537, 65538, 140_000].into_iter().chain(if thorough { vec![(1 << 20) + 3, 5_000_000] } else { vec![] }) {
        for (b, toks) in [("bits1", &["x", "y"][..]), ("bytes", &[]), ("huff", &["xyy", "yx"]), ("multi", &["x"]), ("bits4", &["xyxy", "z"])] {
            v.push(Case { set: SetSpec::new(b, toks), texts: Texts::List(vec![rl(&[("xy", n)]), rl(&[("x", n), ("zy", 3)]), rl(&[("xyyx", n / 2), ("z", 1)])]) });
        }
    }
    out.push(("long texts", v));
    // Costs of fallback sequences around 8, 9 and 16 bits.
    let mut v = vec![];
    for n in (1..=20usize).chain([31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 511, 512, 513, 1000, 4096, 65533, 65534, 65535, 65536, 65537, 65538, 65539]) {
        for toks in [&[][..], &["qa"], &["bq", "qqq"], &["aqb"]] {
            let max = if n > 5000 { 3 } else if n > 70 && full { 4 } else { 6 };
            v.push(Case { set: SetSpec::new(&format!("long{}", n), toks), texts: Texts::Words { alphabet: "qab".into(), max } });
        }
    }
    out.push(("long fallback sequences, all words", v));
    // Thousands of tokens.
    let mut v = vec![];
    for n in [1024usize, 2047, 2048, 4097].into_iter().chain(if thorough { vec![8192, 10_000] } else { vec![] }) {
        let toks: Vec<String> = (0..n).map(|i| to_latin1(&[(i % 256) as u8, (i / 256 + i * 7) as u8])).collect();
        for (b, sorted) in [("bits1", false), ("bytes", true)] {
            if n > 2048 && sorted && !thorough {
                continue;
            }
            v.push(Case { set: SetSpec { base: b.into(), tokens: toks.clone(), sorted }, texts: Texts::DeBruijn { alphabet: to_latin1(&(0..=255u8).step_by(if full { 5 } else { 2 }).collect::<Vec<_>>()), order: 2 } });
        }
    }
    out.push(("thousands of tokens, de Bruijn texts", v));
    out
}

pub fn replay(case: Value, full: bool, judge: &Judge) -> Result<(), String> {
    run_case(&serde_json::from_value(case).unwrap(), full, judge).map(|_| ())
}
