//! C17: every sequence of statistics requests to the cache against fresh
//! statistics.
use engines::gen::*;
use engines::sets::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;
use subject::batch_tokenize::{tokenize_file_sync, TokenizerCache};
use subject::input::memory_sampler::MemorySampler;
use subject::processing::Processing;
use subject::stats2::TokenStats;
use subject::tokenset::{Token, TokenSet, TokenType};

/// A token set with everything that can distinguish it from a similar one.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Set {
    base: String,
    capswords: bool,
    flag: bool,
    /// Latin-1
    tokens: Vec<String>,
    /// Extra fallback sequences.
    seqs: Vec<(String, Vec<usize>)>,
    sorted: bool,
}

impl Set {
    fn new(base: &str, tokens: &[&str]) -> Set {
        Set { base: base.into(), capswords: false, flag: true, tokens: tokens.iter().map(|s| s.to_string()).collect(), seqs: vec![], sorted: false }
    }
    fn build(&self) -> TokenSet {
        let p = if self.capswords { Processing::CapsWords } else { Processing::Raw };
        let mut ts = match &self.base[..] {
            "bits1" => TokenSet::new_bits1(p, self.flag),
            "bits2" => TokenSet::new_bits2(p, self.flag),
            "bits4" => TokenSet::new_bits4(p, self.flag),
            "bytes" => TokenSet::new_bytes(p),
            "huff" => huff_base(),
            // The same codes as bits2 under another type.
            "huff4" => {
                let mut t = TokenSet::new_bits2(p, self.flag);
                t.token_type = TokenType::BytesHuff;
                t
            }
            // Frequency-based sets that differ in one code only.
            s if s.starts_with("alt") => {
                let mut t = huff_base();
                let k: usize = s[3..].parse().unwrap();
                let n = t.sequences.len();
                let (i, j) = (k * 31 % n, (k * 57 + 11) % n);
                let a = t.sequences[i].string.clone();
                t.sequences[i].string = t.sequences[j].string.clone();
                t.sequences[j].string = a;
                t
            }
            _ => panic!("HARNESS-ERROR: base"),
        };
        ts.processing = p;
        ts.split_paragraphs = self.flag;
        for t in &self.tokens {
            ts.add_token(&latin1(t));
        }
        for (s, v) in &self.seqs {
            ts.add_sequence(latin1(s), v.clone());
        }
        if self.sorted {
            ts.sort();
        }
        ts
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    sets: Vec<Set>,
    /// One cache per text.
    texts: Vec<String>,
    chunk: usize,
    initial_size: Option<u64>,
    depth: usize,
    histories: Option<Vec<Vec<usize>>>,
}

/// Statistics as maps from strings, independent of token order.
#[derive(PartialEq, Eq, Debug, Clone, Hash)]
struct Plain {
    set: View,
    total: u64,
    bytes: u64,
    initial: Option<u64>,
    tokens: BTreeMap<String, u64>,
    seqs: BTreeMap<String, u64>,
    pairs: Option<BTreeMap<(String, String), u64>>,
}

fn plain(st: &TokenStats, pairs: bool) -> Result<Plain, String> {
    let ts = &st.token_set;
    let n = ts.ntokens();
    if st.token_counts.len() != n || st.seq_counts.len() != ts.sequences.len() {
        return Err(format!("{} token and {} sequence counts for {} tokens and {} sequences", st.token_counts.len(), st.seq_counts.len(), n, ts.sequences.len()));
    }
    if pairs && st.pair_counts.len() != n * n {
        return Err(format!("pair counts missing ({} for {} tokens)", st.pair_counts.len(), n));
    }
    Ok(Plain {
        set: sorted_view(ts)?,
        total: st.total_tokens,
        bytes: st.scanned_bytes,
        initial: st.initial_size,
        tokens: ts.tokens.iter().map(tok).zip(st.token_counts.iter().cloned()).collect(),
        seqs: ts.sequences.iter().map(|s| to_latin1(&s.string)).zip(st.seq_counts.iter().cloned()).collect(),
        pairs: if pairs { Some(st.pair_counts.iter().enumerate().filter(|(_, &c)| c > 0).map(|(i, &c)| ((tok(&ts.tokens[i / n]), tok(&ts.tokens[i % n])), c)).collect()) } else { None },
    })
}

fn run(c: &Case) -> Result<Seen, String> {
    let sets: Vec<TokenSet> = c.sets.iter().map(|s| s.build()).collect();
    let samplers: Vec<MemorySampler> = c.texts.iter().map(|t| MemorySampler::from_str(t, c.chunk)).collect();
    // Fresh statistics; the order of the tokens may decide between equally
    // cheap segmentations, so both orders count.
    let mut fresh: HashMap<(usize, usize, bool), Vec<Plain>> = HashMap::new();
    for (x, sm) in samplers.iter().enumerate() {
        for (i, ts) in sets.iter().enumerate() {
            let mut sorted = ts.clone();
            sorted.sort();
            for pairs in [false, true] {
                let v = [&sorted, ts].iter().map(|t| {
                    let st = tokenize_file_sync(t, sm, c.initial_size);
                    plain(&st, pairs)
                }).collect::<Result<Vec<_>, _>>().map_err(|e| format!("{}{}", HARNESS, e))?;
                fresh.insert((x, i, pairs), v);
            }
        }
    }
    let nreq = c.texts.len() * sets.len() * 2;
    let w = Words::new((0..nreq).collect::<Vec<usize>>(), c.depth, c.depth);
    let mut seen = Seen { nontrivial: true, ..Default::default() };
    let mut states = std::collections::HashSet::new();
    let list: Vec<Vec<usize>> = match &c.histories {
        Some(h) => h.clone(),
        None => (0..w.count()).map(|i| w.get(i)).collect(),
    };
    for h in list {
        let mut caches: Vec<_> = samplers.iter().map(|s| TokenizerCache::new(s, c.initial_size)).collect();
        let mut requested: Vec<usize> = vec![];
        for (k, &r) in h.iter().enumerate() {
            let (x, i, pairs) = (r % c.texts.len(), r / c.texts.len() / 2, r / c.texts.len() % 2 == 1);
            // The caller's object is not kept alive.
            let arg = sets[i].clone();
            let got = guarded(|| if pairs { caches[x].get_stats_with_pairs(&arg) } else { caches[x].get_stats(&arg) }).map_err(|p| format!("history {:?}: panic: {}", &h[..=k], p))?;
            drop(arg);
            let desc = || h[..=k].iter().map(|&r| format!("{}({})@{}", if r / c.texts.len() % 2 == 1 { "get_stats_with_pairs" } else { "get_stats" }, r / c.texts.len() / 2, r % c.texts.len())).collect::<Vec<_>>().join(", ");
            let p = plain(&got, pairs).map_err(|e| format!("{}: {}", desc(), e))?;
            let want = &fresh[&(x, i, pairs)];
            if !want.contains(&p) {
                let w = &want[0];
                let what = if p.set != w.set { "belong to another token set" } else if p.total != w.total { "have another total" } else if p.tokens != w.tokens { "have other token counts" } else if p.seqs != w.seqs { "have other sequence counts" } else if p.pairs != w.pairs { "have other pair counts" } else { "have another data size" };
                return Err(format!("requests {}: the last statistics {} (total {}, fresh {})", desc(), what, p.total, w.total));
            }
            seen.steps += 1;
            requested.push(r);
            let mut key = requested.clone();
            key.sort();
            key.dedup();
            states.insert(key);
            seen.outcome = hash_of(&(seen.outcome, p.total));
        }
        seen.execs += 1;
    }
    seen.states = states.len() as u64;
    Ok(seen)
}

const T1: &str = "the cat sat on the mat. abc abcabc ab c\n\nAbab \u{e9}\u{e9} aabb cab\n\nthe the abc";
const T2: &str = "cab cab bca \u{e9}ab\n\nabababab tehth caaaa";

fn main() {
    engines::silence();
    engine_main("c17", |a, rep| {
        // Pools of similar sets.
        let mut pools: Vec<(&str, Vec<Set>)> = vec![];
        let s = Set::new;
        for base in ["bits1", "bits4", "bytes", "huff"] {
            let mut v = vec![s(base, &[]), s(base, &["ab", "c\u{ff}"]), s(base, &["abc\u{ff}"]), s(base, &["ab"]), s(base, &["ab", "abc"]), s(base, &["abc", "ab"]), s(base, &["ab", "ca"]), s(base, &["ab", "\"\\"]), s(base, &["bc", "ab"]), s(base, &["the ", "th"]), s(base, &["\u{c3}\u{a9}"]), s(base, &["\u{c3}\u{a9}\u{c3}\u{a9}"]), s(base, &["\u{a9}\u{c3}"]), s(base, &["\u{c3}\u{a9}\u{c3}"])];
            if base.starts_with("bits") {
                v.extend([s(base, &["a"]), s(base, &["b"]), s(base, &["a", "b"]), s(base, &["b", "a"]), s(base, &["\u{a9}"]), s(base, &["\u{c3}"])]);
            }
            pools.push(("similar tokens", v));
        }
        for base in ["bits1", "bits2", "bits4", "bytes", "huff"] {
            let mut v = vec![];
            for capswords in [false, true] {
                for flag in [false, true] {
                    for sorted in [false, true] {
                        v.push(Set { capswords, flag, sorted, ..s(base, &["the", "ab"]) });
                    }
                }
            }
            pools.push(("attributes and order", v));
        }
        let mut v = vec![];
        for base in ["bits1", "bits2", "bits4", "bytes", "huff", "huff4"] {
            v.push(s(base, &["ab"]));
            v.push(Set { capswords: true, ..s(base, &["ab"]) });
        }
        pools.push(("types", v));
        let mut v: Vec<Set> = (0..8).map(|k| s(&format!("alt{}", k), &["ab"])).collect();
        v.push(s("huff", &["ab"]));
        for (st, code) in [("ab", vec![0, 1]), ("ab", vec![1, 0]), ("ab", vec![0, 1, 1]), ("abc", vec![0, 1]), ("ca", vec![0, 1]), ("th", vec![2, 2])] {
            v.push(Set { seqs: vec![(st.into(), code)], ..s("bits2", &["at"]) });
        }
        v.push(Set { seqs: vec![("ab".into(), vec![0, 1]), ("th".into(), vec![2, 2])], ..s("bits2", &["at"]) });
        v.push(Set { seqs: vec![("th".into(), vec![0, 1]), ("ab".into(), vec![2, 2])], ..s("bits2", &["at"]) });
        pools.push(("fallback sequences", v));
        let hang = Duration::from_secs(200);
        for (name, pool) in &pools {
            let mut cases = vec![];
            for i in 0..pool.len() {
                for j in 0..pool.len() {
                    if i < j {
                        cases.push(Case { sets: vec![pool[i].clone(), pool[j].clone()], texts: vec![T1.into()], chunk: [1 << 20, 7][(i + j) % 2], initial_size: [None, Some(77)][j % 2], depth: a.pick(if (i + j) % 9 == 1 { 3 } else { 2 }, 5), histories: None });
                    }
                }
            }
            rep.explore(&format!("{}: two sets ({})", name, pool[0].base), cases.len(), hang, |i| cases[i].clone(), run);
            if pool.len() > 2 {
                let mut cases = vec![];
                for i in 0..pool.len() {
                    let t = [i, (i + 1) % pool.len(), (i + 3) % pool.len()];
                    cases.push(Case { sets: t.iter().map(|&x| pool[x].clone()).collect(), texts: vec![T1.into()], chunk: 11, initial_size: None, depth: a.pick(if i % 4 == 0 { 3 } else { 2 }, 4), histories: None });
                    cases.push(Case { sets: t[..2].iter().map(|&x| pool[x].clone()).collect(), texts: vec![T1.into(), T2.into()], chunk: 64, initial_size: Some(5), depth: a.pick(2, 4), histories: None });
                }
                rep.explore(&format!("{}: three sets, or two data sources ({})", name, pool[0].base), cases.len(), hang, |i| cases[i].clone(), run);
            }
        }
        // Long histories: many sets, each asked again at the end in every way.
        let mut cases = vec![];
        for base in ["bits4", "huff", "bytes"] {
            let n = a.pick(40, 300);
            let sets: Vec<Set> = (0..n).map(|i| { let t = format!("{}{}", ["a", "b", "c", "t", "h"][i % 5], ["e", "a", " ", "b", "t", "h", "c"][i / 5 % 7]); let u = format!("x{}", i); s(base, &[&t, &u]) }).collect();
            let mut h: Vec<usize> = (0..n).map(|i| 2 * i + usize::from(i % 3 == 0)).collect();
            h.extend((0..2 * n).rev());
            h.extend(0..2 * n);
            cases.push(Case { sets, texts: vec![T1.into()], chunk: 1 << 20, initial_size: None, depth: 1, histories: Some(vec![h]) });
        }
        rep.explore("long request histories", cases.len(), hang, |i| cases[i].clone(), run);
        // Large sets that differ in one token, wherever it is.
        let mut cases = vec![];
        for n in a.pick(&[250usize, 1000, 5000][..], &[250, 1000, 4000, 9000]) {
            let all: Vec<String> = (0..*n).map(|i| format!("t{:05}", i)).collect();
            let with = |at: usize, t: &str| { let mut v = all.clone(); v[at] = t.to_string(); Set { base: "bits1".into(), capswords: false, flag: true, tokens: v, seqs: vec![], sorted: false } };
            for at in [0, n / 2, n - 1] {
                for (x, y) in [("zzxx", "zzyy"), ("!!xx", "!!yy")] {
                    if *n > 1000 && (at == n / 2 || (x == "!!xx") == (at > 0)) {
                        continue;
                    }
                    cases.push(Case { sets: vec![with(at, x), with(at, y)], texts: vec!["zzxx zzyy zzyy!!xx!!xx!!yy t00001t00002".into()], chunk: 1 << 20, initial_size: None, depth: 1, histories: Some(if *n > 1000 { vec![vec![0, 2, 1]] } else { vec![vec![0, 2], vec![1, 2], vec![0, 3, 0], vec![2, 0, 3, 1]] }) });
                }
            }
        }
        rep.explore("large sets that differ in one token", cases.len(), hang, |i| cases[i].clone(), run);
        // Edited sets: an optimizer-like walk of additions and removals.
        let mut cases = vec![];
        for base in ["bits2", "bytes", "huff"] {
            let names = ["ab", "abc", "the", "th", "he ", "at"];
            let sets: Vec<Set> = subsets(6, 6).iter().map(|v| s(base, &v.iter().map(|&i| names[i]).collect::<Vec<_>>())).collect();
            let n = sets.len();
            let h1: Vec<usize> = (0..n).chain((0..n).rev()).map(|i| 2 * i).collect();
            let h2: Vec<usize> = (0..n).map(|i| 2 * i + 1).chain((0..n).map(|i| 2 * i)).collect();
            let h3: Vec<usize> = (0..4 * n).map(|i| (i * 37 + i / 5) % (2 * n)).collect();
            cases.push(Case { sets, texts: vec![T1.into()], chunk: 1 << 20, initial_size: Some(1), depth: 1, histories: Some(vec![h1, h2, h3]) });
        }
        rep.explore("all subsets of six tokens", cases.len(), hang, |i| cases[i].clone(), run);
    }, |_f, c| run(&serde_json::from_value(c).unwrap()).map(|_| ()));
}
