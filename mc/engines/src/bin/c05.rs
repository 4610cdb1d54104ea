//! C05: statistics are those of one cheapest segmentation, and additive.
use engines::dp::{reset, Delta, Ref};
use engines::gen::*;
use engines::toksets::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use subject::stats2::TokenStats;

fn judge(r: &Ref, text: &[u8], d: &Delta, _min: u64) -> Result<(), String> {
    if text.len() > 600 {
        // Too long for the search: the only cheapest segmentation, or else
        // what every segmentation satisfies.
        if let Some(want) = r.only(text) {
            if *d != want {
                let k = want.pairs.iter().find(|(k, v)| d.pairs.get(k) != Some(v));
                return Err(format!("{} tokens reported for {} bytes with one cheapest segmentation of {}; tokens {}, sequences {}, pairs {} (first {:?})", d.total, d.bytes, want.total, d.tokens == want.tokens, d.seqs == want.seqs, d.pairs == want.pairs, k));
            }
            return Ok(());
        }
        let mut bytes = 0;
        let mut sum = 0;
        let mut seq_part: std::collections::BTreeMap<usize, u64> = Default::default();
        for (i, (s, _, k)) in r.spans.iter().enumerate() {
            let _ = i;
            if let Kind::Seq(q) = k {
                bytes += s.len() as u64 * d.seqs.get(q).unwrap_or(&0);
                r.seq_add(*q, *d.seqs.get(q).unwrap_or(&0), &mut seq_part);
            }
        }
        for (_, (s, _, k)) in r.spans.iter().enumerate() {
            if let Kind::Token(t) = k {
                let c = d.tokens.get(t).unwrap_or(&0).checked_sub(*seq_part.get(t).unwrap_or(&0)).ok_or("token count smaller than its use in sequences")?;
                bytes += s.len() as u64 * c;
            }
        }
        sum += d.tokens.values().sum::<u64>();
        if sum != d.total || bytes != d.bytes || d.bytes != text.len() as u64 {
            return Err(format!("counts add up to {} tokens / {} bytes, reported {} / {}, text has {} bytes", sum, bytes, d.total, d.bytes, text.len()));
        }
        return Ok(());
    }
    r.explain(text, d).map(|_| ())
}

/// A history of fragments processed with one tokenizer, one statistics object
/// and one buffer, split over `parts` statistics that are merged at the end.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct History {
    set: SetSpec,
    pool: Vec<String>,
    depth: usize,
}

fn histories(h: &History) -> Result<Seen, String> {
    let mut b = Bound::new(&h.set, true);
    let pool: Vec<Vec<u8>> = h.pool.iter().map(|s| latin1(s)).collect();
    let deltas: Vec<Delta> = pool.iter().map(|t| {
        b.buf = vec![];
        b.run(t)
    }).collect();
    let w = Words::new((0..pool.len()).collect::<Vec<usize>>(), 1, h.depth);
    let mut seen = Seen { nontrivial: true, ..Default::default() };
    let fresh = TokenStats::new(h.set.build(), Some(1));
    for i in 0..w.count() {
        let seq = w.get(i);
        let mut want = Delta::default();
        for &f in &seq {
            want.add(&deltas[f]);
        }
        reset(&mut b.st);
        for &f in &seq {
            b.tok.process_slice(&pool[f], &mut b.st, &mut b.buf);
        }
        let got = Delta::of(&b.st);
        if got != want {
            return Err(format!("fragments {:?} of {:?} processed in this order: {:?}, sum of the fragments {:?}", seq, h.pool, got, want));
        }
        seen.steps += seq.len() as u64;
        seen.execs += 1;
        // Every way to split the history into two statistics merged afterwards.
        if seq.len() >= 2 && i % 3 == 0 {
            let mut x = fresh.clone();
            let mut y = fresh.clone();
            for (k, &f) in seq.iter().enumerate() {
                b.tok.process_slice(&pool[f], if k % 2 == 0 { &mut x } else { &mut y }, &mut b.buf);
            }
            x.merge(&y);
            if Delta::of(&x) != want {
                return Err(format!("fragments {:?} of {:?} split and merged: {:?}, expected {:?}", seq, h.pool, Delta::of(&x), want));
            }
            seen.execs += 1;
        }
        seen.outcome = hash_of(&(seen.outcome, got.total));
    }
    // Counting goes on from large counts.
    for start in [254u64, 65_534, (1 << 31) - 2, (1 << 32) - 2, (1 << 53) - 1] {
        for (f, want) in pool.iter().zip(&deltas) {
            b.st.total_tokens = start;
            b.st.scanned_bytes = start;
            for v in [&mut b.st.token_counts, &mut b.st.seq_counts, &mut b.st.pair_counts] {
                v.iter_mut().for_each(|c| *c = start);
            }
            b.tok.process_slice(f, &mut b.st, &mut b.buf);
            let less = |x: &mut u64| {
                let ok = *x >= start;
                *x = x.wrapping_sub(start);
                ok
            };
            let mut ok = less(&mut b.st.total_tokens) & less(&mut b.st.scanned_bytes);
            for v in [&mut b.st.token_counts, &mut b.st.seq_counts, &mut b.st.pair_counts] {
                v.iter_mut().for_each(|c| ok &= less(c));
            }
            if !ok || Delta::of(&b.st) != *want {
                return Err(format!("fragment {:?} added to counts of {} each: {:?} more, expected {:?}", String::from_utf8_lossy(f), start, Delta::of(&b.st), want));
            }
            seen.execs += 1;
        }
    }
    // Large counts survive a merge.
    let mut x = fresh.clone();
    let mut y = fresh.clone();
    for (v, k) in [(&mut x, 1u64), (&mut y, 3u64)] {
        v.total_tokens = k << 40;
        v.scanned_bytes = (k << 41) + 1;
        v.token_counts.iter_mut().enumerate().for_each(|(i, c)| *c = (k << 33) + i as u64);
        v.seq_counts.iter_mut().enumerate().for_each(|(i, c)| *c = (k << 34) + i as u64);
        v.pair_counts.iter_mut().enumerate().for_each(|(i, c)| *c = (k << 35) + i as u64);
    }
    x.merge(&y);
    let ok = x.total_tokens == 4 << 40 && x.scanned_bytes == (4 << 41) + 2
        && x.token_counts.iter().enumerate().all(|(i, &c)| c == (4 << 33) + 2 * i as u64)
        && x.seq_counts.iter().enumerate().all(|(i, &c)| c == (4 << 34) + 2 * i as u64)
        && x.pair_counts.iter().enumerate().all(|(i, &c)| c == (4 << 35) + 2 * i as u64);
    if !ok {
        return Err("merging large counts is not a sum".to_string());
    }
    Ok(seen)
}

fn main() {
    engines::silence();
    engine_main("c05", |a, rep| {
        for (name, cases) in families(a.thorough(), true) {
            rep.explore(name, cases.len(), HANG, |i| cases[i].clone(), |c| run_case(c, true, &judge));
        }
        let mut v = vec![];
        let strs = strings("ab", 1, 3);
        let mut pool = strings("ab", 0, 3);
        pool.push("\n\nab".into());
        pool.push("abababababababababababab".into());
        for sub in subsets(strs.len(), 2) {
            for base in BASES {
                v.push(History { set: SetSpec { base: base.to_string(), tokens: sub.iter().map(|&i| strs[i].clone()).collect(), sorted: sub.len() == 2 }, pool: pool.clone(), depth: if a.thorough() && *base != "bytes" { 3 } else { 2 } });
            }
        }
        for base in ["bits2", "multi", "bytes"] {
            v.push(History { set: SetSpec::new(base, &["ab", "ba", "b"]), pool: ["", "a", "ab", "bab", "abababab"].iter().map(|s| s.to_string()).collect(), depth: if base == "bytes" { 4 } else { 6 } });
        }
        rep.explore("histories of fragments and merges", v.len(), HANG, |i| v[i].clone(), histories);
    }, |f, c| {
        if f.starts_with("histories") {
            histories(&serde_json::from_value(c).unwrap()).map(|_| ())
        } else {
            replay(c, true, &judge)
        }
    });
}
