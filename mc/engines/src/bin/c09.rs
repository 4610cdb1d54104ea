//! C09: every byte has exactly one code and encodings decode uniquely.
use engines::gen::*;
use engines::profiles::*;
use engines::sets::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use subject::optimize_bytes::*;
use subject::processing::Processing;
use subject::stats2::TokenStats;
use subject::tokenset::{Token, TokenSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    base: String,
    profile: Profile,
    budgets: Vec<usize>,
    long: Vec<String>,
    /// Re-select from the previous result each time (its own counts).
    chain: bool,
}

fn stats_for(ts: TokenSet, counts: &[u64]) -> TokenStats {
    let mut st = TokenStats::new(ts, Some(1));
    for (i, t) in st.token_set.tokens.clone().iter().enumerate() {
        if let Token::Str(s) = t {
            st.token_counts[i] = if s.len() == 1 { counts[s[0] as usize] } else { 7 };
        }
    }
    for (i, s) in st.token_set.sequences.clone().iter().enumerate() {
        if s.string.len() == 1 {
            st.seq_counts[i] = counts[s.string[0] as usize];
        }
    }
    st
}

fn start(base: &str) -> TokenSet {
    match base {
        "huff" => TokenSet::new_bytes(Processing::Raw),
        b => engines::gen::base(b),
    }
}

fn reselect(base: &str, st: &TokenStats, n: usize) -> TokenSet {
    match base {
        "huff" => HuffOptimizer::optimize_bytes(st, n),
        "bytes" => NoopBytesOptimizer::optimize_bytes(st, n),
        _ => SimpleBytesOptimizer::optimize_bytes(st, n),
    }
}

fn check(ts: &TokenSet) -> Result<u64, String> {
    valid(ts)?;
    uniquely_decodable(ts)
}

fn run(c: &Case) -> Result<Seen, String> {
    let counts = c.profile.counts();
    let mut ts = start(&c.base);
    for l in &c.long {
        ts.add_token(&latin1(l));
    }
    if c.base != "huff" {
        check(&ts)?;
    }
    let mut seen = Seen { nontrivial: true, ..Default::default() };
    for &n in &c.budgets {
        let st = stats_for(ts.clone(), &counts);
        let new = reselect(&c.base, &st, n);
        let s = check(&new).map_err(|e| format!("budget {}: {}", n, e))?;
        // Edits the optimizer makes afterwards.
        let mut e = new.clone();
        let extra = b"\xff\xfe\xff";
        if e.find_token(extra).is_none() {
            e.add_token(extra);
        }
        e.sort();
        check(&e).map_err(|e| format!("budget {}, token added and sorted: {}", n, e))?;
        if let Some(l) = c.long.first() {
            let i = e.find_token(&latin1(l)).ok_or("long token lost")?;
            e.remove_token(i);
            check(&e).map_err(|e| format!("budget {}, token removed: {}", n, e))?;
        }
        seen.steps += 3;
        seen.states += s + 1;
        seen.execs += 1;
        seen.outcome = hash_of(&(seen.outcome, key(&new)));
        if c.chain {
            ts = new;
        }
    }
    Ok(seen)
}

fn key(ts: &TokenSet) -> Vec<(Vec<u8>, usize)> {
    ts.sequences.iter().map(|s| (s.string.clone(), s.tokens.len())).collect()
}

fn main() {
    engines::silence();
    engine_main("c09", |a, rep| {
        let mut all_budgets: Vec<usize> = (3..=262).collect();
        all_budgets.extend([300, 512]);
        let few = vec![3usize, 4, 5, 8, 12, 13, 16, 33, 64, 100, 128, 200, 254, 255, 256, 257, 258, 259];
        let longs: Vec<Vec<String>> = vec![vec![], vec!["ab".into(), "\u{ff}\u{ff}".into(), "aba".into()]];
        let mut v = vec![];
        for p in standard(a.thorough()) {
            for long in &longs {
                for half in all_budgets.chunks(24) {
                    v.push(Case { base: "huff".into(), profile: p.clone(), budgets: half.to_vec(), long: long.clone(), chain: false });
                }
                v.push(Case { base: "huff".into(), profile: p.clone(), budgets: few.clone(), long: long.clone(), chain: true });
                v.push(Case { base: "huff".into(), profile: p.clone(), budgets: few.iter().rev().cloned().collect(), long: long.clone(), chain: true });
            }
        }
        rep.explore("frequency-based sets: profiles x all budgets", v.len(), Duration::from_secs(120), |i| v[i].clone(), run);
        let mut v = vec![];
        for p in blocks(&[0, 1, 1000], a.pick(6, 8)) {
            v.push(Case { base: "huff".into(), profile: p, budgets: if a.thorough() { few.clone() } else { vec![3, 4, 6, 11, 17, 60, 130, 250] }, long: longs[1].clone(), chain: false });
        }
        rep.explore("frequency-based sets: all block profiles", v.len(), Duration::from_secs(120), |i| v[i].clone(), run);
        let mut v = vec![];
        for (b, ext) in [("bits1", 2usize), ("bits2", 4), ("bits4", 16), ("bytes", 0)] {
            let budgets: Vec<usize> = if b == "bytes" { vec![256] } else { (0..=259).map(|k| k + ext).collect() };
            for p in standard(a.thorough()) {
                for long in &longs {
                    v.push(Case { base: b.into(), profile: p.clone(), budgets: budgets.iter().cloned().step_by(a.pick(3, 1)).collect(), long: long.clone(), chain: false });
                    v.push(Case { base: b.into(), profile: p.clone(), budgets: budgets.iter().cloned().rev().step_by(7).collect(), long: long.clone(), chain: true });
                }
            }
        }
        let mut w = vec![];
        for m in 1..=256u64 {
            for at in [0, (256 - m) / 2, 256 - m] {
                w.push(Case { base: "huff".into(), profile: Profile::Pit(at, m), budgets: if a.thorough() { (3..=30).collect() } else { vec![3, 4, 5, 7, 12] }, long: vec![], chain: false });
            }
        }
        rep.explore("frequency-based sets: unused stretches of every length", w.len(), Duration::from_secs(120), |i| w[i].clone(), run);
        rep.explore("bit and byte sets: profiles x budgets", v.len(), Duration::from_secs(120), |i| v[i].clone(), run);
    }, |_f, c| run(&serde_json::from_value(c).unwrap()).map(|_| ()));
}
