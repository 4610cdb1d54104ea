//! The optimizer (C11-C14): runs of the real search on enumerated inputs.
use crate::dp::Ref;
use crate::gen::*;
use crate::sets::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use subject::batch_tokenize::tokenize_file_sync;
use subject::input::memory_sampler::MemorySampler;
use subject::input::sample::Sampler;
use subject::optimize::Optimizer;
use subject::optimize_bytes::*;
use subject::processing::Processing;
use subject::stats2::TokenStats;
use subject::tokenset::{Token, TokenSet, TokenType};

/// An input token set.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Input {
    None,
    /// The plain fallback set with added tokens (Latin-1).
    Plain { flag: bool, tokens: Vec<String>, sorted: bool },
    /// What optimizing another text with another budget returns.
    Trained { text: String, n: usize },
}

/// One chain of runs: each run after the first starts from the previous result.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub ty: String,
    pub capswords: bool,
    pub text: String,
    pub chunk: usize,
    pub input: Input,
    pub budgets: Vec<usize>,
}

pub fn min_budget(ty: &str) -> usize {
    match ty {
        "bits1" => 2,
        "bits2" => 4,
        "bits4" => 16,
        "bytes" => 256,
        _ => 3,
    }
}

/// Another enum value of the same type (the type is not Copy in every tree).
pub fn ty(s: &str) -> TokenType {
    parse_type(s)
}

pub fn proc_of(c: &Case) -> Processing {
    if c.capswords { Processing::CapsWords } else { Processing::Raw }
}

pub fn plain(t: &str, p: Processing, flag: bool) -> TokenSet {
    let mut ts = match t {
        "bits1" => TokenSet::new_bits1(p, flag),
        "bits2" => TokenSet::new_bits2(p, flag),
        "bits4" => TokenSet::new_bits4(p, flag),
        "bytes" => TokenSet::new_bytes(p),
        _ => {
            let mut h = huff_base();
            h.processing = p;
            h
        }
    };
    ts.split_paragraphs = flag;
    ts
}

pub fn optimize(c: &Case, n: usize, text: &str, input: Option<TokenSet>) -> Result<TokenStats, String> {
    let s = MemorySampler::from_str(text, c.chunk);
    let o = Optimizer::new(n, proc_of(c), ty(&c.ty), Some(text.len() as u64 + 3), &std::env::temp_dir());
    guarded(|| o.optimize(&s, input)).map_err(|p| format!("optimizing for {} tokens panics: {}", n, p))
}

pub fn input_set(c: &Case) -> Result<Option<TokenSet>, String> {
    Ok(match &c.input {
        Input::None => None,
        Input::Plain { flag, tokens, sorted } => {
            let mut ts = plain(&c.ty, proc_of(c), *flag);
            for t in tokens {
                if ts.find_token(&latin1(t)).is_none() {
                    ts.add_token(&latin1(t));
                }
            }
            if *sorted {
                ts.sort();
            }
            Some(ts)
        }
        Input::Trained { text, n } => Some(optimize(c, *n, text, None)?.token_set),
    })
}

/// Whether an input set leaves room in the budget.
pub fn fits(c: &Case) -> bool {
    match &c.input {
        Input::None => true,
        Input::Trained { n, .. } => *n <= c.budgets[0],
        Input::Plain { tokens, .. } => {
            let base = match &c.ty[..] { "byteshuff" => 8, t => min_budget(t) };
            base + tokens.len() <= c.budgets[0]
        }
    }
}

/// Reference total for a set on the samples the sampler delivers.
pub fn total(ts: &TokenSet, text: &str, chunk: usize) -> u64 {
    let r = Ref::new(ts);
    let s = MemorySampler::from_str(text, chunk);
    let v: Vec<u64> = s.iter().map(|x| r.min_tokens(x.as_bytes())).collect();
    v.iter().sum()
}

pub fn long_tokens(ts: &TokenSet) -> BTreeSet<Vec<u8>> {
    ts.tokens.iter().filter_map(|t| match t { Token::Str(s) if s.len() > 1 => Some(s.clone()), _ => None }).collect()
}

pub fn spans_paragraph(s: &[u8]) -> bool {
    s.windows(3).any(|w| w[0] == b'\n' && w[1] == b'\n' && w[2] != b'\n')
}

/// The set optimization starts from, computed independently of the search.
pub fn start_set(c: &Case, n: usize, input: &Option<TokenSet>) -> TokenSet {
    match input {
        Some(i) => i.clone(),
        None if c.ty == "byteshuff" => {
            let b = TokenSet::new_bytes(proc_of(c));
            let s = MemorySampler::from_str(&c.text, c.chunk);
            HuffOptimizer::optimize_bytes(&tokenize_file_sync(&b, &s, None), n)
        }
        None => plain(&c.ty, proc_of(c), true),
    }
}

fn truthful(c: &Case, n: usize, st: &TokenStats, input: &Option<TokenSet>) -> Result<(), String> {
    let ts = &st.token_set;
    let v = view(ts)?;
    if v.ty != c.ty || v.processing != proc_name(&proc_of(c)) {
        return Err(format!("result has type {}, processing {}", v.ty, v.processing));
    }
    if v.tokens.len() > n {
        return Err(format!("{} tokens for a budget of {}", v.tokens.len(), n));
    }
    valid(ts)?;
    let old = input.as_ref().map(long_tokens).unwrap_or_default();
    for t in long_tokens(ts) {
        if !old.contains(&t) && !c.text.as_bytes().windows(t.len()).any(|w| w == &t[..]) {
            return Err(format!("token {:?} does not occur in the training data", String::from_utf8_lossy(&t)));
        }
    }
    let min = total(ts, &c.text, c.chunk);
    if st.total_tokens != min || st.scanned_bytes != c.text.len() as u64 {
        return Err(format!("reported {} tokens for {} bytes, actual {} for {}", st.total_tokens, st.scanned_bytes, min, c.text.len()));
    }
    let j = st.to_json();
    let init = c.text.len() as u64 + 3;
    let js = &j["stats"];
    if js["ntokens"] != v.tokens.len() || js["total_tokens"] != min || js["scanned_bytes"] != c.text.len() || js["initial_size"] != init {
        return Err(format!("saved statistics {} for {} tokens, total {}, {} bytes, initial size {}", js, v.tokens.len(), min, c.text.len(), init));
    }
    if min > 0 {
        let b = js["bytes_per_token"].as_f64().unwrap_or(-1.0);
        let want = init as f64 / min as f64;
        if (b - want).abs() > 1e-9 * want {
            return Err(format!("bytes_per_token {}, expected {}", b, want));
        }
    }
    let name = format!("tokens{}_{}_{}", v.tokens.len(), v.processing, v.ty);
    if ts.name() != name {
        return Err(format!("name {}, expected {}", ts.name(), name));
    }
    let listed = j["tokens"].as_array().map_or(0, |a| a.len());
    if listed != v.tokens.len() {
        return Err(format!("{} tokens saved of {}", listed, v.tokens.len()));
    }
    Ok(())
}

fn reselect(t: &str, st: &TokenStats, n: usize) -> TokenSet {
    match t {
        "bytes" => NoopBytesOptimizer::optimize_bytes(st, n),
        "byteshuff" => HuffOptimizer::optimize_bytes(st, n),
        _ => SimpleBytesOptimizer::optimize_bytes(st, n),
    }
}

/// Tokens spent on single bytes (including fallback sequences) when `ts`
/// expresses the bytes counted in `st`.
fn byte_cost(ts: &TokenSet, st: &TokenStats) -> u64 {
    let mut cost = [0u64; 256];
    for t in &ts.tokens {
        if let Token::Str(s) = t {
            if s.len() == 1 {
                cost[s[0] as usize] = 1;
            }
        }
    }
    for s in &ts.sequences {
        if s.string.len() == 1 {
            cost[s.string[0] as usize] = s.tokens.len() as u64;
        }
    }
    let mut sum = 0;
    for (i, t) in st.token_set.tokens.iter().enumerate() {
        if let Token::Str(s) = t {
            if s.len() == 1 {
                sum += cost[s[0] as usize] * st.token_counts[i];
            }
        }
    }
    for (i, s) in st.token_set.sequences.iter().enumerate() {
        if s.string.len() == 1 {
            sum += cost[s.string[0] as usize] * st.seq_counts[i];
        }
    }
    sum
}

/// All valid pairs, with counts.
fn pairs(st: &TokenStats) -> Vec<(Vec<u8>, u64)> {
    let n = st.ntokens();
    let mut v = vec![];
    for (i, &c) in st.pair_counts.iter().enumerate() {
        if c > 0 {
            if let (Token::Str(a), Token::Str(b)) = (&st.token_set.tokens[i / n], &st.token_set.tokens[i % n]) {
                let s = [&a[..], &b[..]].concat();
                if !spans_paragraph(&s) {
                    v.push((s, c));
                }
            }
        }
    }
    v
}

fn stats_of(c: &Case, ts: &TokenSet) -> TokenStats {
    let mut t = ts.clone();
    t.sort();
    tokenize_file_sync(&t, &MemorySampler::from_str(&c.text, c.chunk), None)
}

fn with_token(ts: &TokenSet, s: &[u8]) -> TokenSet {
    let mut t = ts.clone();
    t.add_token(s);
    t
}

/// What one step of the search may add to `ts`: the most frequent valid pair
/// or one more byte token, whichever promises more. Several on ties.
fn additions(c: &Case, ts: &TokenSet) -> Vec<TokenSet> {
    let st = stats_of(c, ts);
    let ps = pairs(&st);
    let best = ps.iter().map(|p| p.1).max();
    let nb = ts.ntokens() - ts.n_long_tokens() + 1;
    let byte = reselect(&c.ty, &st, nb);
    let gain = if byte.ntokens() > ts.ntokens() { Some(byte_cost(ts, &st) as i64 - byte_cost(&byte, &st) as i64) } else { None };
    let mut v = vec![];
    match (gain, best) {
        (Some(g), Some(b)) if g > b as i64 => v.push(byte),
        (Some(g), Some(b)) if g == b as i64 => {
            v.push(byte);
            v.extend(ps.iter().filter(|p| p.1 == b).map(|p| with_token(&st.token_set, &p.0)));
        }
        (_, Some(b)) => v.extend(ps.iter().filter(|p| p.1 == b).map(|p| with_token(&st.token_set, &p.0))),
        (Some(_), None) => v.push(byte),
        (None, None) => {}
    }
    v
}

/// Adding a pair whose string is a token already (possible only on a
/// suboptimal tokenization) would duplicate it.
fn local_optimum(c: &Case, n: usize, st: &TokenStats) -> Result<u64, String> {
    let ts = &st.token_set;
    let t0 = total(ts, &c.text, c.chunk);
    let mut tried = 0;
    if ts.ntokens() < n {
        let s = stats_of(c, ts);
        if let Some(p) = pairs(&s).iter().max_by_key(|p| p.1) {
            return Err(format!("stopped at {} of {} tokens although {:?} (count {}) could be added", ts.ntokens(), n, String::from_utf8_lossy(&p.0), p.1));
        }
        // One more byte token selects the codes of all bytes anew; it need not
        // be accepted when that makes things worse.
        let worse = c.ty == "byteshuff" && additions(c, ts).iter().any(|t| total(t, &c.text, c.chunk) > t0);
        for b in 0..=255u8 {
            if ts.find_token(&[b]).is_none() && !worse {
                return Err(format!("stopped at {} of {} tokens although byte {:#04x} has no token", ts.ntokens(), n, b));
            }
        }
        return Ok(1);
    }
    let s0 = stats_of(c, ts);
    let nb = n - ts.n_long_tokens();
    let r = reselect(&c.ty, &s0, nb);
    tried += 1;
    let t1 = total(&r, &c.text, c.chunk);
    if t1 < t0 && r.ntokens() <= n {
        return Err(format!("re-selecting the byte tokens needs {} instead of {} tokens", t1, t0));
    }
    if nb > min_budget(&c.ty) && c.ty != "bytes" {
        let fewer = reselect(&c.ty, &s0, nb - 1);
        let st = stats_of(c, &fewer);
        let ps = pairs(&st);
        if let Some(b) = ps.iter().map(|p| p.1).max() {
            let cands: Vec<u64> = ps.iter().filter(|p| p.1 == b).map(|p| total(&with_token(&fewer, &p.0), &c.text, c.chunk)).collect();
            tried += cands.len() as u64;
            let worst = *cands.iter().max().unwrap();
            if worst < t0 {
                return Err(format!("one byte token less and the most frequent pair needs {} instead of {} tokens", worst, t0));
            }
        }
    }
    for s in long_tokens(ts) {
        let mut less = ts.clone();
        let i = less.find_token(&s).unwrap();
        less.remove_token(i);
        less.sort();
        let cands: Vec<u64> = additions(c, &less).iter().map(|t| total(t, &c.text, c.chunk)).collect();
        tried += cands.len() as u64;
        if let Some(&worst) = cands.iter().max() {
            if worst < t0 {
                return Err(format!("replacing {:?} needs {} instead of {} tokens", String::from_utf8_lossy(&s), worst, t0));
            }
        }
    }
    Ok(tried)
}

pub fn run(prop: &str, c: &Case) -> Result<Seen, String> {
    let mut seen = Seen::default();
    if !fits(c) {
        return Err(format!("{}the input set does not fit", HARNESS));
    }
    let mut input = match input_set(c) {
        Ok(i) => i,
        Err(e) if prop == "C11" => return Err(e),
        Err(_) => return Ok(seen),
    };
    if prop == "C14" {
        if let Some(i) = &input {
            // Input sets that themselves respect the rule.
            if let (Some(t), false) = (long_tokens(i).iter().find(|t| spans_paragraph(t)), matches!(c.input, Input::Trained { .. })) {
                return Err(format!("{}input token {:?}", HARNESS, t));
            }
        }
    }
    let mut h = vec![];
    for &n in &c.budgets {
        let st = match optimize(c, n, &c.text, input.clone()) {
            Ok(st) => st,
            // Reported by C11; nothing to judge here.
            Err(e) if prop == "C11" => return Err(e),
            Err(_) => return Ok(seen),
        };
        let e = |x: String| format!("budget {}: {}", n, x);
        match prop {
            "C11" => {
                truthful(c, n, &st, &input).map_err(e)?;
                seen.steps += st.token_set.ntokens() as u64;
            }
            "C12" => {
                let start = start_set(c, n, &input);
                let (a, b) = (total(&start, &c.text, c.chunk), total(&st.token_set, &c.text, c.chunk));
                if b > a {
                    return Err(e(format!("the returned set needs {} tokens, the starting set {}", b, a)));
                }
                seen.steps += 2;
                if b < a {
                    seen.nontrivial = true;
                }
            }
            "C13" => seen.steps += local_optimum(c, n, &st).map_err(e)?,
            "C14" => {
                for t in long_tokens(&st.token_set) {
                    if spans_paragraph(&t) {
                        return Err(e(format!("token {:?} reaches across a paragraph break", String::from_utf8_lossy(&t))));
                    }
                    seen.steps += 1;
                }
            }
            _ => unreachable!(),
        }
        seen.execs += 1;
        if prop != "C12" {
            seen.nontrivial |= !long_tokens(&st.token_set).is_empty();
        }
        h.push((st.total_tokens, hash_of(&long_tokens(&st.token_set)), st.token_set.ntokens()));
        input = Some(st.token_set);
    }
    seen.outcome = hash_of(&h);
    Ok(seen)
}

pub const TYPES: [&str; 5] = ["bits1", "bits2", "bits4", "bytes", "byteshuff"];

/// Texts of different kinds.
pub fn pool() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "ab", "\n", "\n\n", "\n\n\n\n", "a\n\nb", "ab\n\nab\n\nab", "\n\na\n\nb\n\na\n\nb", "aaaa", "abababab", "abcabcabcabc", "the cat and the dog and the bird", "the cat sat on the mat.\n\nThe dog sat on the log.\n\nThe end.\n", "\u{e9}\u{e8}\u{e9}\u{e8}\u{e9}", "\u{4e2d}\u{6587}\u{4e2d}\u{6587} \u{1F600}\u{1F600}", "x\n\n\ny\n\n\nx\n\n\ny", "\n\na", "a\n\n", "\u{0}\u{0}\u{0}\u{7f}\u{7f}", "\u{14}the\u{16}\u{14}dog\u{16} \u{15}the\u{16}", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "to be or not to be, that is the question; to be to be to be"].iter().map(|s| s.to_string()).collect();
    v.push((0..=0x1fu8).map(|b| b as char).collect());
    v.push((0xb0..0xc8u32).filter_map(char::from_u32).collect());
    v.push("ab\n\n".repeat(20));
    v.push("\n\nx".repeat(12));
    v.push((0..40).map(|i| if i % 3 == 0 { "ab" } else if i % 5 == 0 { "ba\n" } else { "aab " }).collect());
    // Very uneven byte counts: long fallback sequences.
    let mut f = (1usize, 1usize);
    let mut t = String::new();
    for i in 0..13u8 {
        t.push_str(&char::from(b'A' + 2 * i).to_string().repeat(f.0));
        f = (f.1, f.0 + f.1);
    }
    v.push(t.clone() + &t.chars().rev().filter(|c| *c < 'R').collect::<String>());
    v.push((0..60).map(|i| ["lo", "rem ", "ip", "sum", "\n\n", "do", "lor "][i * i % 7]).collect());
    v
}

/// Longer texts with many close calls: `n` words, some with endings.
pub fn prose(seed: u64, n: usize) -> String {
    let w = ["the", "cat", "that", "and", "hand", "land", "other", "another", "then", "he", "she", "sees", "is", "island", "in", "an", "to", "or", "for", "fort"];
    let e = [" ", " ", " ", "s ", ", ", "ing ", ". ", "er ", ".\n", "\n\n", " \u{e9}t\u{e9} ", "ed "];
    let mut x = seed;
    let mut t = String::new();
    for _ in 0..n {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let (i, j) = ((x >> 33) as usize, (x >> 48) as usize);
        // Uneven frequencies.
        t.push_str(w[(i % w.len()).min(i / 64 % w.len())]);
        t.push_str(e[(j % e.len()).min(j / 16 % e.len())]);
    }
    t
}

/// A text over `k` characters in which every pair occurs exactly once.
pub fn all_pairs(k: u8) -> String {
    let ch = |i: u8| char::from(b'!' + i);
    let mut t = String::new();
    for i in 0..k {
        t.push(ch(i));
        for j in i + 1..k {
            t.push(ch(i));
            t.push(ch(j));
        }
    }
    t.push(ch(0));
    t
}

pub fn case(ty: &str, text: &str, budgets: &[usize]) -> Case {
    Case { ty: ty.into(), capswords: false, text: text.into(), chunk: 1 << 20, input: Input::None, budgets: budgets.to_vec() }
}

/// Texts over a small alphabet; texts that differ only by exchanging a and b
/// are kept, as the order of bytes decides ties.
pub fn words(alpha: &[char], lo: usize, hi: usize) -> Words<char> {
    Words::new(alpha.to_vec(), lo, hi)
}
