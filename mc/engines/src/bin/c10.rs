//! C10: byte-token selection.
use engines::gen::*;
use engines::profiles::*;
use engines::sets::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use subject::optimize_bytes::*;
use subject::processing::Processing;
use subject::stats2::TokenStats;
use subject::tokenset::{Token, TokenSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    base: String,
    capswords: bool,
    flag: bool,
    /// Byte tokens the measured set already has (ignored for huff).
    have: Vec<u8>,
    profile: Profile,
    budgets: Vec<usize>,
    long: Vec<String>,
    sorted: bool,
}

fn start(c: &Case) -> TokenSet {
    let p = if c.capswords { Processing::CapsWords } else { Processing::Raw };
    let mut ts = match &c.base[..] {
        "bits1" => TokenSet::new_bits1(p, c.flag),
        "bits2" => TokenSet::new_bits2(p, c.flag),
        "bits4" => TokenSet::new_bits4(p, c.flag),
        "huffset" => {
            let mut t = huff_base();
            t.processing = p;
            t
        }
        _ => TokenSet::new_bytes(p),
    };
    ts.split_paragraphs = c.flag;
    for (i, l) in c.long.iter().enumerate() {
        if i % 2 == 0 {
            ts.add_token(&latin1(l));
        }
    }
    if c.base.starts_with("bits") {
        for b in &c.have {
            ts.add_token(&[*b]);
        }
    }
    for (i, l) in c.long.iter().enumerate() {
        if i % 2 == 1 {
            ts.add_token(&latin1(l));
        }
    }
    if c.sorted {
        ts.sort();
    }
    ts
}

fn run(c: &Case) -> Result<Seen, String> {
    let counts = c.profile.counts();
    let ts = start(c);
    let mut st = TokenStats::new(ts.clone(), Some(1));
    for (i, t) in ts.tokens.iter().enumerate() {
        match t {
            Token::Str(s) if s.len() == 1 => st.token_counts[i] = counts[s[0] as usize],
            Token::Str(s) => st.token_counts[i] = 1_000_000 + s.len() as u64,
            Token::Ext(n) => st.token_counts[i] = 5_000_000 + *n as u64,
        }
    }
    for (i, s) in ts.sequences.iter().enumerate() {
        st.seq_counts[i] = counts[s.string[0] as usize];
    }
    st.total_tokens = 12345;
    st.scanned_bytes = 54321;
    let mut seen = Seen { nontrivial: true, ..Default::default() };
    let before = view(&ts)?;
    for &n in &c.budgets {
        let fail = |e: String| -> Result<Seen, String> { Err(format!("budget {}: {}", n, e)) };
        let new = match &c.base[..] {
            "bytes" => NoopBytesOptimizer::optimize_bytes(&st, n),
            "huff" | "huffset" => HuffOptimizer::optimize_bytes(&st, n),
            _ => SimpleBytesOptimizer::optimize_bytes(&st, n),
        };
        let v = view(&new)?;
        seen.steps += v.tokens.len() as u64;
        seen.execs += 1;
        let want_type = if c.base.starts_with("huff") { "byteshuff" } else { &c.base[..] };
        if v.ty != want_type || v.processing != before.processing || v.flag != before.flag {
            return fail(format!("type, processing, flag are {} {} {}, were {} {} {}", v.ty, v.processing, v.flag, want_type, before.processing, before.flag));
        }
        if c.base == "bytes" {
            if v != before {
                return fail("byte token set changed".into());
            }
            continue;
        }
        let mut got: Vec<&String> = v.tokens.iter().filter(|t| t.starts_with('\'') && t.chars().count() > 2).collect();
        got.sort();
        let mut want: Vec<&String> = before.tokens.iter().filter(|t| t.starts_with('\'') && t.chars().count() > 2).collect();
        want.sort();
        if got != want {
            return fail(format!("multi-byte tokens {:?}, were {:?}", got, want));
        }
        valid(&new).or_else(|e| fail(e).map(|_| ()))?;
        let used = v.tokens.len() - got.len();
        let bytes: Vec<u8> = new.tokens.iter().filter_map(|t| match t { Token::Str(s) if s.len() == 1 => Some(s[0]), _ => None }).collect();
        if used != n && !(used < n && bytes.len() == 256) {
            return fail(format!("{} byte and extension tokens ({} bytes)", used, bytes.len()));
        }
        if c.base.starts_with("bits") {
            let ext = match &c.base[..] { "bits1" => 2, "bits2" => 4, _ => 16 };
            if used - bytes.len() != ext {
                return fail(format!("{} extension tokens", used - bytes.len()));
            }
            // Same fallback code for every byte without a token, cheapest choice.
            let chosen_min = bytes.iter().map(|&b| counts[b as usize]).min().unwrap_or(u64::MAX);
            let other_max = (0..=255u8).filter(|b| !bytes.contains(b)).map(|b| counts[b as usize]).max().unwrap_or(0);
            if chosen_min < other_max {
                return fail(format!("a byte used {} times has a token, one used {} times has none", chosen_min, other_max));
            }
        }
        seen.outcome = hash_of(&(seen.outcome, bytes));
    }
    Ok(seen)
}

fn main() {
    engines::silence();
    engine_main("c10", |a, rep| {
        let longs: Vec<Vec<String>> = vec![vec![], vec!["ab".into()], vec!["the ".into(), "\u{ff}\u{fe}".into(), "aa".into(), "aaa".into(), "\n\n".into()]];
        let haves: Vec<Vec<u8>> = vec![vec![], vec![97], (0..=255).collect(), vec![255, 0, 10], (0..=255u8).rev().step_by(3).collect()];
        let mut v = vec![];
        for p in standard(a.thorough()).into_iter().chain(blocks(&[0, 3, 900], a.pick(3, 5))) {
            for (base, ext) in [("bits1", 2usize), ("bits2", 4), ("bits4", 16)] {
                for (k, have) in haves.iter().enumerate() {
                    for (j, long) in longs.iter().enumerate() {
                        if !a.thorough() && (k + j) % 3 == 1 {
                            continue;
                        }
                        let mut budgets: Vec<usize> = (0..=258).step_by(a.pick(9, 2)).map(|b| b + ext).collect();
                        budgets.extend([ext + 1, ext + 2, ext + 254, ext + 255, ext + 256, ext + 257, ext + 300]);
                        v.push(Case { base: base.into(), capswords: k % 2 == 0, flag: (k + j) % 2 == 0, have: have.clone(), profile: p.clone(), budgets, long: long.clone(), sorted: j == 2 });
                    }
                }
            }
        }
        rep.explore("bit-based sets", v.len(), Duration::from_secs(120), |i| v[i].clone(), run);
        let mut v = vec![];
        for p in standard(a.thorough()) {
            for base in ["huff", "huffset", "bytes"] {
                for (j, long) in longs.iter().enumerate() {
                    for flag in [true, false] {
                        if base == "bytes" {
                            v.push(Case { base: base.into(), capswords: j == 1, flag, have: vec![], profile: p.clone(), budgets: vec![2, 256, 300], long: long.clone(), sorted: false });
                            continue;
                        }
                        for chunk in (3..=262usize).chain([300]).collect::<Vec<_>>().chunks(20) {
                            let budgets: Vec<usize> = chunk.iter().cloned().step_by(a.pick(3, 1)).collect();
                            v.push(Case { base: base.into(), capswords: j == 1, flag, have: vec![], profile: p.clone(), budgets, long: long.clone(), sorted: j == 2 });
                        }
                    }
                }
            }
        }
        rep.explore("frequency-based and byte sets", v.len(), Duration::from_secs(120), |i| v[i].clone(), run);
        // Many and long multi-byte tokens.
        let mut v = vec![];
        for (k, n) in [20usize, 64, 100, 200, 238, 239, 240, 241, 252, 253, 254, 255, 256, 257, 300, 500, 510, 511, 512, 767, 768, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1100, 1500, 2050].into_iter().enumerate() {
            for (base, ext) in [("bits1", 2usize), ("bits4", 16), ("huff", 0), ("bytes", 0)] {
                let long: Vec<String> = (0..n).map(|i| match (i + k) % 5 { 0 => format!("w{}", i), 1 => format!("{}\u{ff}", i), 2 => format!("\u{80}{}", "x".repeat(1 + i % 70)) + &i.to_string(), 3 => format!("{}\n\n", i), _ => format!("{}{}", char::from_u32(i as u32 % 256).unwrap(), i) }).collect();
                v.push(Case { base: base.into(), capswords: k % 2 == 1, flag: k % 3 == 1, have: if k % 2 == 0 { vec![97, 0] } else { vec![] }, profile: Profile::Mod(37, 256), budgets: vec![ext + 5, ext + 60, ext + 258], long, sorted: k % 2 == 0 });
            }
        }
        for n in (2..=70usize).chain([100, 127, 128, 129, 255, 256, 257, 1000, 65_536]) {
            for (base, ext) in [("bits2", 4usize), ("huff", 0)] {
                v.push(Case { base: base.into(), capswords: false, flag: n % 2 == 0, have: vec![120], profile: Profile::Mod(37, 256), budgets: vec![ext + 5, ext + 200], long: vec!["x".repeat(n), "y".repeat(n - 1) + "\u{ff}", "ab".into()], sorted: n % 3 == 0 });
            }
        }
        rep.explore("many and long multi-byte tokens", v.len(), Duration::from_secs(120), |i| v[i].clone(), run);
    }, |_f, c| run(&serde_json::from_value(c).unwrap()).map(|_| ()));
}
