//! C08: breadth-first search over edit histories of the real TokenSet against
//! a reference.
use engines::gen::*;
use engines::sets::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::Duration;
use subject::processing::Processing;
use subject::tokenset::{Token, TokenSet, TokenType};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Op {
    Add(String),
    Remove(String),
    /// String and the tokens ("#0" or "'abc") it consists of.
    Seq(String, Vec<String>),
    Sort,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Model {
    ext: usize,
    tokens: BTreeSet<String>,
    seqs: BTreeMap<String, Vec<String>>,
}

impl Model {
    fn enabled(&self, op: &Op) -> bool {
        match op {
            Op::Add(s) => !self.tokens.contains(&format!("'{}", s)),
            Op::Remove(s) => {
                let t = format!("'{}", s);
                self.tokens.contains(&t) && !self.seqs.values().any(|v| v.contains(&t))
            }
            Op::Seq(s, v) => !self.seqs.contains_key(s) && !self.tokens.contains(&format!("'{}", s)) && v.iter().all(|t| self.tokens.contains(t)),
            Op::Sort => true,
        }
    }
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Add(s) => {
                self.seqs.remove(s);
                self.tokens.insert(format!("'{}", s));
            }
            Op::Remove(s) => {
                self.tokens.remove(&format!("'{}", s));
            }
            Op::Seq(s, v) => {
                self.seqs.insert(s.clone(), v.clone());
            }
            Op::Sort => {}
        }
    }
}

fn apply(ts: &mut TokenSet, op: &Op) -> Result<(), String> {
    match op {
        Op::Add(s) => {
            let i = ts.add_token(&latin1(s));
            if ts.tokens.get(i) != Some(&Token::Str(latin1(s))) {
                return Err(format!("add_token({:?}) returned {}", s, i));
            }
        }
        Op::Remove(s) => {
            let i = ts.find_token(&latin1(s)).ok_or("find_token: not found")?;
            ts.remove_token(i);
        }
        Op::Seq(s, v) => {
            let mut idx = vec![];
            for t in v {
                idx.push(match t.strip_prefix('\'') {
                    Some(x) => ts.find_token(&latin1(x)).ok_or("find_token: not found")?,
                    None => ts.tokens.iter().position(|y| tok(y) == *t).ok_or("extension token lost")?,
                });
            }
            ts.add_sequence(latin1(s), idx);
        }
        Op::Sort => ts.sort(),
    }
    Ok(())
}

fn order_key(t: &Token) -> (u8, Vec<u8>) {
    match t {
        Token::Ext(n) => (0, vec![*n]),
        Token::Str(s) => (1, s.clone()),
    }
}

fn check(ts: &TokenSet, m: &Model, op: Option<&Op>, name_suffix: &str, universe: &[String]) -> Result<(), String> {
    let v = view(ts)?;
    let mut got = v.tokens.clone();
    got.sort();
    let mut want: Vec<String> = m.tokens.iter().cloned().collect();
    want.sort();
    if got != want {
        return Err(format!("tokens are {:?}, expected {:?}", got, want));
    }
    if v.seqs != m.seqs {
        return Err(format!("sequences mean {:?}, expected {:?}", v.seqs, m.seqs));
    }
    for s in universe {
        let t = format!("'{}", s);
        let pos = v.tokens.iter().position(|x| *x == t);
        if ts.find_token(&latin1(s)) != pos {
            return Err(format!("find_token({:?}) = {:?}, token is at {:?}", s, ts.find_token(&latin1(s)), pos));
        }
    }
    let long = m.tokens.iter().filter(|t| t.starts_with('\'') && t.chars().count() > 2).count();
    if ts.ntokens() != m.tokens.len() || ts.n_long_tokens() != long || ts.n_ext_tokens != m.ext {
        return Err(format!("counts {} / {} / {}, expected {} / {} / {}", ts.ntokens(), ts.n_long_tokens(), ts.n_ext_tokens, m.tokens.len(), long, m.ext));
    }
    let name = format!("tokens{}_{}", m.tokens.len(), name_suffix);
    if ts.name() != name {
        return Err(format!("name {:?}, expected {:?}", ts.name(), name));
    }
    if op == Some(&Op::Sort) {
        for w in ts.tokens.windows(2) {
            if order_key(&w[0]) > order_key(&w[1]) {
                return Err(format!("not sorted: {:?} before {:?}", w[0], w[1]));
            }
        }
    }
    Ok(())
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    kind: String,
    start: Vec<Op>,
    alphabet: Vec<Op>,
    depth: usize,
    replay: Option<Vec<Op>>,
}

fn start(kind: &str) -> (TokenSet, &'static str) {
    match kind {
        "huff2" => (TokenSet::new(2, Processing::Raw, TokenType::BytesHuff, true), "raw_byteshuff"),
        "ext0" => (TokenSet::new(0, Processing::CapsWords, TokenType::Bytes, false), "capswords_bytes"),
        "bits1" => (TokenSet::new_bits1(Processing::CapsWords, true), "capswords_bits1"),
        "bits2" => (TokenSet::new_bits2(Processing::Raw, false), "raw_bits2"),
        "bits4" => (TokenSet::new_bits4(Processing::Raw, true), "raw_bits4"),
        "bytes" => (TokenSet::new_bytes(Processing::Raw), "raw_bytes"),
        _ => panic!(),
    }
}

type Key = (Vec<String>, Vec<(Vec<u8>, Vec<usize>)>);

fn key(ts: &TokenSet) -> Key {
    (ts.tokens.iter().map(tok).collect(), ts.sequences.iter().map(|s| (s.string.clone(), s.tokens.clone())).collect())
}

fn run(c: &Case) -> Result<Seen, String> {
    let (mut ts, suffix) = start(&c.kind);
    let v0 = view(&ts)?;
    let mut m = Model { ext: ts.n_ext_tokens, tokens: v0.tokens.iter().cloned().collect(), seqs: v0.seqs.clone() };
    let mut universe: Vec<String> = c.alphabet.iter().chain(c.start.iter().take(20)).chain(c.start.iter().rev().take(20)).filter_map(|o| match o { Op::Add(s) | Op::Remove(s) | Op::Seq(s, _) => Some(s.clone()), _ => None }).collect();
    universe.extend(["".to_string(), "nope".to_string(), "a".to_string()]);
    universe.sort();
    universe.dedup();
    let mut seen = Seen { nontrivial: true, ..Default::default() };
    for op in &c.start {
        apply(&mut ts, op)?;
        m.apply(op);
        seen.steps += 1;
    }
    check(&ts, &m, c.start.last(), suffix, &universe).map_err(|e| format!("after {} starting operations: {}", c.start.len(), e))?;
    // Shallow alphabets on big sets: only enabled ones are tried.
    let mut frontier: Vec<(TokenSet, Model, Vec<Op>)> = vec![(ts, m, vec![])];
    let mut known: HashMap<u64, ()> = HashMap::new();
    known.insert(hash_of(&key(&frontier[0].0)), ());
    seen.states = 1;
    for _ in 0..c.depth {
        let mut next = vec![];
        for (ts, m, hist) in &frontier {
            for op in &c.alphabet {
                if !m.enabled(op) {
                    continue;
                }
                let mut ts2 = ts.clone();
                let mut m2 = m.clone();
                let mut h = hist.clone();
                h.push(op.clone());
                guarded(|| apply(&mut ts2, op)).unwrap_or_else(|p| Err(format!("panic: {}", p))).map_err(|e| format!("{:?}: {}", h, e))?;
                m2.apply(op);
                check(&ts2, &m2, Some(op), suffix, &universe).map_err(|e| format!("{:?}: {}", h, e))?;
                seen.steps += 1;
                seen.execs += 1;
                if known.insert(hash_of(&key(&ts2)), ()).is_none() {
                    seen.states += 1;
                    next.push((ts2, m2, h));
                }
            }
        }
        frontier = next;
    }
    seen.outcome = hash_of(&(seen.states, seen.steps));
    Ok(seen)
}

fn add(s: &str) -> Op { Op::Add(s.into()) }
fn rem(s: &str) -> Op { Op::Remove(s.into()) }
fn seq(s: &str, v: &[&str]) -> Op { Op::Seq(s.into(), v.iter().map(|x| x.to_string()).collect()) }

fn main() {
    engines::silence();
    engine_main("c08", |a, rep| {
        let mut cases: Vec<(&str, Vec<Case>)> = vec![];
        let small = vec![add("a"), add("b"), add("ab"), add("\u{ff}"), rem("a"), rem("b"), rem("ab"), rem("\u{ff}"),
            seq("x", &["'a", "#0"]), seq("y", &["'b", "'a", "#1"]), seq("ab", &["'a", "'b"]), seq("\u{80}z", &["'\u{ff}", "'ab", "'ab", "#1"]), Op::Sort];
        cases.push(("histories on small sets", vec![
            Case { kind: "huff2".into(), start: vec![], alphabet: small.clone(), depth: a.pick(8, 10), replay: None },
            Case { kind: "huff2".into(), start: vec![add("z"), add("zz"), add("a"), seq("q", &["'zz", "'z", "'z", "#1"])], alphabet: small.clone(), depth: a.pick(7, 9), replay: None },
            Case { kind: "ext0".into(), start: vec![add("z"), add("y0"), add("c"), seq("q", &["'z", "'c"]), seq("qq", &["'c", "'c", "'y0"])], alphabet: vec![add("a"), add("b"), add("d"), add("q"), add("ab"), add("m"), rem("a"), rem("b"), rem("d"), rem("ab"), rem("m"), rem("q"), seq("p", &["'a", "'d"]), seq("k", &["'b"]), seq("r", &["'m", "'q"]), Op::Sort], depth: a.pick(7, 8), replay: None },
            Case { kind: "huff2".into(), start: vec![add("\u{0}"), add("\u{0}\u{0}"), add("\u{ff}"), Op::Sort], alphabet: vec![add(""), add("\u{0}a"), add("a\u{0}"), add("\u{ff}\u{ff}"), rem("\u{0}"), rem("\u{0}\u{0}"), rem("\u{ff}"), rem("\u{0}a"), rem("a\u{0}"), rem("\u{ff}\u{ff}"), seq("s", &["'\u{0}", "'\u{ff}"]), seq("t", &["'a\u{0}", "'\u{0}a", "#0", "#1"]), Op::Sort].into_iter().filter(|o| *o != add("")).collect(), depth: a.pick(8, 9), replay: None },
        ]));
        let mut v = vec![];
        for kind in ["bits1", "bits2", "bits4"] {
            v.push(Case { kind: kind.into(), start: vec![], alphabet: vec![add("a"), add("b"), add("ab"), add("ba"), add("\n\n"), add("\u{ff}"), rem("a"), rem("ab"), rem("ba"), rem("\n\n"), rem("\u{ff}"), seq("xyz", &["#0", "#1", "'a"]), seq("ba", &["'b", "'a"]), Op::Sort], depth: a.pick(5, 6), replay: None });
        }
        v.push(Case { kind: "bytes".into(), start: vec![], alphabet: vec![add("aa"), add("ab"), add("zzz"), add("\u{ff}\u{fe}"), rem("aa"), rem("ab"), rem("zzz"), rem("a"), rem("\u{0}"), rem("\u{ff}"), seq("mn", &["'m", "'n"]), seq("ab", &["'a", "'b", "'a"]), Op::Sort], depth: a.pick(4, 5), replay: None });
        cases.push(("histories on the standard sets", v));
        // Indices beyond 255 and 65535.
        let mut v = vec![];
        for n in [100usize, 250, 253, 254, 255, 256, 257, 258, 300, 511, 513, 1000, a.pick(5000, 20_000), a.pick(65_600, 65_600)] {
            if n > 30_000 && !a.thorough() { continue; }
            let big: Vec<Op> = (0..n).map(|i| add(&format!("w{}", i * 7919 % n))).collect();
            let hi = format!("'w{}", (n - 1) * 7919 % n);
            let mid = format!("'w{}", (n / 2) * 7919 % n);
            let mut st = big.clone();
            st.push(seq("one", &["#0", &hi, "#1", &mid]));
            st.push(seq("two", &[&hi, &hi]));
            let last = format!("w{}", (n - 2) * 7919 % n);
            v.push(Case { kind: "huff2".into(), start: st, alphabet: vec![add("new"), add("one"), add("zz"), rem("new"), rem("w0"), rem("w1"), rem(&last), rem("zz"), seq("three", &["'new", "#1", &hi]), Op::Sort], depth: if n > 10_000 { 2 } else if n > 600 { a.pick(2, 3) } else { a.pick(4, 5) }, replay: None });
        }
        cases.push(("histories on large sets", v));
        // Fallback sequences of every length up to 40 and around powers of two.
        let mut v = vec![];
        for n in (1..=40usize).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1025, 4097]) {
            if n > 600 && !a.thorough() && n != 1025 { continue; }
            for (k, pool) in [vec!["'m", "'w1", "#0", "'zz", "#1"], vec!["'w1"], vec!["#1", "#1", "#0", "'zz", "'m", "'w1", "'w0"]].into_iter().enumerate() {
                let s: Vec<&str> = (0..n).map(|i| pool[i * (1 + k) % pool.len()]).collect();
                let mut start = vec![add("zz"), add("w1"), add("m"), add("w0"), seq("q", &s)];
                if k == 1 { start.push(seq("q2", &s[..n / 2 + 1])); }
                v.push(Case { kind: "huff2".into(), start, alphabet: vec![add("a"), add("n"), add("q"), rem("a"), rem("n"), rem("w0"), rem("zz"), seq("r", &s), Op::Sort], depth: a.pick(4, 6), replay: None });
            }
        }
        cases.push(("histories with long fallback sequences", v));
        let mut v = vec![];
        for n in [3usize, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4095, 4096, 65_535, 65_536, 100_000] {
            let (x, y, z) = ("x".repeat(n), "x".repeat(n - 1) + "\u{ff}", "w".repeat(n + 1));
            let t = |s: &str| format!("'{}", s);
            v.push(Case { kind: "huff2".into(), start: vec![add("x"), add(&x)], alphabet: vec![add(&y), add(&z), add("a"), rem("x"), rem(&x), rem(&y), rem(&z), seq("q", &[&t(&y), &t(&x), "#1"]), seq(&z, &["#0", &t(&x), "#0"]), Op::Sort], depth: if n > 5000 { 3 } else { a.pick(5, 7) }, replay: None });
        }
        cases.push(("histories with long tokens", v));
        for (name, cs) in cases {
            rep.explore(name, cs.len(), Duration::from_secs(400), |i| cs[i].clone(), run);
        }
    }, |_f, c| run(&serde_json::from_value(c).unwrap()).map(|_| ()));
}
