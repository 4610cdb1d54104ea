//! Reference for tokenization: cheapest covering by dynamic programming over a
//! plain list of spans, canonical states, and realisability of statistics.
use crate::gen::{spans, Kind};
use std::collections::{BTreeMap, HashMap};
use subject::stats2::TokenStats;
use subject::tokenset::TokenSet;

pub struct Ref {
    pub spans: Vec<(Vec<u8>, u64, Kind)>,
    pub by_last: Vec<Vec<usize>>,
    pub max_len: usize,
    seq_tokens: Vec<Vec<usize>>,
    ntokens: usize,
}

impl Ref {
    pub fn new(ts: &TokenSet) -> Ref {
        let sp = spans(ts);
        let mut by_last = vec![vec![]; 256];
        let mut max_len = 1;
        for (i, (s, _, _)) in sp.iter().enumerate() {
            by_last[*s.last().unwrap() as usize].push(i);
            max_len = max_len.max(s.len());
        }
        Ref { spans: sp, by_last, max_len, seq_tokens: ts.sequences.iter().map(|s| s.tokens.clone()).collect(), ntokens: ts.tokens.len() }
    }

    /// cost[i] = cheapest covering of the first i bytes.
    pub fn costs(&self, text: &[u8]) -> Vec<u64> {
        let mut c = Vec::with_capacity(text.len() + 1);
        c.push(0u64);
        for end in 1..=text.len() {
            let mut best = u64::MAX;
            for &i in &self.by_last[text[end - 1] as usize] {
                let (s, cost, _) = &self.spans[i];
                if s.len() <= end && &text[end - s.len()..end] == &s[..] {
                    let p = c[end - s.len()];
                    if p != u64::MAX {
                        best = best.min(p + cost);
                    }
                }
            }
            c.push(best);
        }
        c
    }

    /// Adds the tokens of `n` uses of a sequence.
    pub fn seq_add(&self, q: usize, n: u64, m: &mut BTreeMap<usize, u64>) {
        for &t in &self.seq_tokens[q] {
            *m.entry(t).or_insert(0) += n;
        }
    }

    pub fn min_tokens(&self, text: &[u8]) -> u64 {
        *self.costs(text).last().unwrap()
    }

    /// What the future can depend on: the last max_len-1 bytes and the costs
    /// at their boundaries relative to the current one.
    pub fn canonical(&self, text: &[u8]) -> (Vec<u8>, Vec<i64>) {
        let c = self.costs(text);
        let k = (self.max_len - 1).min(text.len());
        let last = *c.last().unwrap() as i64;
        (text[text.len() - k..].to_vec(), c[c.len() - 1 - k..].iter().map(|&x| x as i64 - last).collect())
    }

    /// Checks that the statistics added by one fragment are those of one
    /// cheapest segmentation. `Ok(n)` with the number of segmentations tried.
    pub fn explain(&self, text: &[u8], d: &Delta) -> Result<u64, String> {
        let c = self.costs(text);
        let best = *c.last().unwrap();
        if d.bytes != text.len() as u64 {
            return Err(format!("{} scanned bytes reported for a fragment of {}", d.bytes, text.len()));
        }
        let tok_sum: u64 = d.tokens.values().sum();
        if tok_sum != d.total {
            return Err(format!("token counts add up to {}, total is {}", tok_sum, d.total));
        }
        if d.total != best {
            return Err(format!("{} tokens reported, {} are enough", d.total, best));
        }
        // Depth-first over cheapest segmentations from the end, consuming the
        // reported counts.
        let mut tokens = d.tokens.clone();
        let mut seqs = d.seqs.clone();
        let mut pairs = d.pairs.clone();
        let mut tried = 0u64;
        let mut dead: std::collections::HashSet<(usize, usize, u64)> = Default::default();
        let ok = self.search(text, &c, text.len(), None, &mut tokens, &mut seqs, &mut pairs, &mut tried, &mut dead);
        match ok {
            Some(true) => Ok(tried),
            Some(false) => Err(format!("no cheapest segmentation of {:?} has the reported counts (tokens {:?}, sequences {:?}, pairs {:?})", String::from_utf8_lossy(text), d.tokens, d.seqs, d.pairs)),
            None => Err(format!("{} too many segmentations", mckit::HARNESS)),
        }
    }

    /// The statistics of the only cheapest segmentation, if there is only one.
    pub fn only(&self, text: &[u8]) -> Option<Delta> {
        let c = self.costs(text);
        let mut d = Delta { total: *c.last().unwrap(), bytes: text.len() as u64, ..Default::default() };
        let mut next = None;
        let mut pos = text.len();
        // Every position a cheapest segmentation visits has one way to get there.
        while pos > 0 {
            let mut found = None;
            for &i in &self.by_last[text[pos - 1] as usize] {
                let (s, cost, _) = &self.spans[i];
                if s.len() <= pos && &text[pos - s.len()..pos] == &s[..] && c[pos - s.len()] + cost == c[pos] {
                    if found.is_some() {
                        return None;
                    }
                    found = Some(i);
                }
            }
            let (s, _, kind) = &self.spans[found?];
            match kind {
                Kind::Token(t) => {
                    *d.tokens.entry(*t).or_insert(0) += 1;
                    if let Some(n) = next {
                        *d.pairs.entry(t * self.ntokens + n).or_insert(0) += 1;
                    }
                    next = Some(*t);
                }
                Kind::Seq(q) => {
                    *d.seqs.entry(*q).or_insert(0) += 1;
                    self.seq_add(*q, 1, &mut d.tokens);
                    next = None;
                }
            }
            pos -= s.len();
        }
        Some(d)
    }

    fn search(&self, text: &[u8], c: &[u64], pos: usize, next: Option<usize>, tokens: &mut BTreeMap<usize, u64>, seqs: &mut BTreeMap<usize, u64>, pairs: &mut BTreeMap<usize, u64>, tried: &mut u64, dead: &mut std::collections::HashSet<(usize, usize, u64)>) -> Option<bool> {
        *tried += 1;
        if *tried > 3_000_000 {
            return None;
        }
        if pos == 0 {
            return Some(tokens.values().all(|&x| x == 0) && seqs.values().all(|&x| x == 0) && pairs.values().all(|&x| x == 0));
        }
        let key = (pos, next.map_or(0, |n| n + 1), mckit::hash_of(&(&*tokens, &*seqs, &*pairs)));
        if dead.contains(&key) {
            return Some(false);
        }
        for &i in &self.by_last[text[pos - 1] as usize] {
            let (s, cost, kind) = &self.spans[i];
            if s.len() > pos || &text[pos - s.len()..pos] != &s[..] || c[pos - s.len()] + cost != c[pos] {
                continue;
            }
            match kind {
                Kind::Token(t) => {
                    if !take(tokens, *t) {
                        continue;
                    }
                    let mut pair = None;
                    if let Some(n) = next {
                        pair = Some(t * self.ntokens + n);
                        if !take(pairs, pair.unwrap()) {
                            give(tokens, *t);
                            continue;
                        }
                    }
                    let r = self.search(text, c, pos - s.len(), Some(*t), tokens, seqs, pairs, tried, dead);
                    give(tokens, *t);
                    if let Some(p) = pair {
                        give(pairs, p);
                    }
                    if r != Some(false) {
                        return r;
                    }
                }
                Kind::Seq(q) => {
                    if !take(seqs, *q) {
                        continue;
                    }
                    let mut taken = vec![];
                    let mut ok = true;
                    for &t in &self.seq_tokens[*q] {
                        if take(tokens, t) {
                            taken.push(t);
                        } else {
                            ok = false;
                            break;
                        }
                    }
                    let r = if ok { self.search(text, c, pos - s.len(), None, tokens, seqs, pairs, tried, dead) } else { Some(false) };
                    for t in taken {
                        give(tokens, t);
                    }
                    give(seqs, *q);
                    if r != Some(false) {
                        return r;
                    }
                }
            }
        }
        dead.insert(key);
        Some(false)
    }
}

fn take(m: &mut BTreeMap<usize, u64>, k: usize) -> bool {
    match m.get_mut(&k) {
        Some(x) if *x > 0 => {
            *x -= 1;
            true
        }
        _ => false,
    }
}

fn give(m: &mut BTreeMap<usize, u64>, k: usize) {
    *m.get_mut(&k).unwrap() += 1;
}

/// Statistics of one fragment (sparse).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Delta {
    pub total: u64,
    pub bytes: u64,
    pub tokens: BTreeMap<usize, u64>,
    pub seqs: BTreeMap<usize, u64>,
    pub pairs: BTreeMap<usize, u64>,
}

fn sparse(v: &[u64]) -> BTreeMap<usize, u64> {
    v.iter().enumerate().filter(|(_, &x)| x != 0).map(|(i, &x)| (i, x)).collect()
}

fn merge(a: &mut BTreeMap<usize, u64>, b: &BTreeMap<usize, u64>) {
    for (k, v) in b {
        *a.entry(*k).or_insert(0) += v;
    }
}

impl Delta {
    pub fn of(st: &TokenStats) -> Delta {
        Delta { total: st.total_tokens, bytes: st.scanned_bytes, tokens: sparse(&st.token_counts), seqs: sparse(&st.seq_counts), pairs: sparse(&st.pair_counts) }
    }
    pub fn add(&mut self, o: &Delta) {
        self.total += o.total;
        self.bytes += o.bytes;
        merge(&mut self.tokens, &o.tokens);
        merge(&mut self.seqs, &o.seqs);
        merge(&mut self.pairs, &o.pairs);
    }
}

/// Empties the statistics in place.
pub fn reset(st: &mut TokenStats) {
    st.total_tokens = 0;
    st.scanned_bytes = 0;
    st.token_counts.iter_mut().for_each(|x| *x = 0);
    st.seq_counts.iter_mut().for_each(|x| *x = 0);
    st.pair_counts.iter_mut().for_each(|x| *x = 0);
}

pub type Canon = (Vec<u8>, Vec<i64>);
pub type Reached = HashMap<Canon, Vec<u8>>;
