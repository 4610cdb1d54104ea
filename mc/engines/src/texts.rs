//! Text families for the processing properties (C01, C02).
use mckit::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone)]
pub struct Text {
    pub text: String,
}

const HANG: Duration = Duration::from_secs(20);

fn scalars() -> Vec<char> {
    (0..=0x10ffffu32).filter_map(char::from_u32).filter(|c| !('\x14'..='\x16').contains(c)).collect()
}

/// Characters whose case mappings do something unusual.
pub fn special_case_chars() -> Vec<char> {
    let mut v = vec![];
    for c in scalars() {
        let lo: String = c.to_lowercase().collect();
        let up: String = c.to_uppercase().collect();
        let odd = lo.chars().count() > 1
            || up.chars().count() > 1
            || (c.is_uppercase() && lo.to_uppercase() != c.to_string())
            || (c.is_lowercase() && up.to_lowercase() != c.to_string())
            || (!c.is_uppercase() && lo != c.to_string())
            || (!c.is_lowercase() && up != c.to_string() )
            || (c.is_uppercase() && lo == c.to_string())
            || (c.is_uppercase() && !c.is_alphabetic())
            || (c.is_lowercase() && !c.is_alphabetic());
        if odd && (c.is_alphabetic() || c.is_uppercase() || c.is_lowercase()) {
            v.push(c);
        }
    }
    v
}

pub const CLASSES: &[char] = &['a', 'A', ' ', '\n', '.', '1', 'é', 'É', 'ß', '中', 'Σ', 'ς', 'σ', 'ǅ', 'İ', 'ʼ', '\u{345}', '\u{301}', 'ª', '\t', '\r', '\u{a0}', '🙂', '𐐀', '𐐨', '\0'];

pub fn explore(args: &Args, rep: &Report, judge: impl Fn(&str) -> Result<Seen, String> + Sync) {
    let f = |c: &Text| judge(&c.text);
    let sc = scalars();
    let contexts: &[&str] = &["#", "a#", "#a", "A#", "#A", "# ", " #", "a #", "# a", "a # b", "A#B", "Ab#cd", "AB #", "##", "# #", "#\n#", "aB#", "#aB", "\n#.", "AA#A", "A#a"];
    let contexts = &contexts[..args.pick(contexts.len(), contexts.len())];
    let n = sc.len() * contexts.len();
    rep.explore("every scalar value in every context", n, HANG, |i| Text { text: contexts[i % contexts.len()].replace('#', &sc[i / contexts.len()].to_string()) }, f);

    for (name, alpha, len) in [
        ("words over all character classes", CLASSES.to_vec(), args.pick(4, 5)),
        ("words over {a,A,space,LF,.}", vec!['a', 'A', ' ', '\n', '.'], args.pick(8, 10)),
        ("words over {a,A,space}", vec!['a', 'A', ' '], args.pick(11, 14)),
        ("words over {b,É,space,.,中}", vec!['b', 'É', ' ', '.', '中'], args.pick(7, 9)),
    ] {
        let w = Words::new(alpha, 0, len);
        rep.explore(name, w.count(), HANG, |i| Text { text: w.get(i).into_iter().collect() }, f);
    }

    let sp = special_case_chars();
    rep.note("special case characters", sp.len());
    let pair_ctx: &[&str] = &["#@", "A#@", "#@a", "#@A", "a#@", "# @", "#a@", "#A@"];
    let pair_ctx = &pair_ctx[..args.pick(4, 8)];
    let m = sp.len();
    rep.explore("pairs of special-case characters", m * m * pair_ctx.len() / args.pick(1, 1), HANG, |i| {
        let (k, i) = (i % pair_ctx.len(), i / pair_ctx.len());
        Text { text: pair_ctx[k].replace('#', &sp[i / m].to_string()).replace('@', &sp[i % m].to_string()) }
    }, f);

    // Long words and runs. One deviating character at the start, middle, end.
    let lens: Vec<usize> = (1..=70).chain([99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100_000, 131_072, 131_073, 262_145]).collect();
    let mut long: Vec<String> = vec![];
    for &l in &lens {
        for (base, dev) in [('a', 'A'), ('A', 'a'), ('a', ' '), ('A', ' '), (' ', 'a'), (' ', 'A'), ('\n', 'a'), ('.', ' '), ('é', 'É'), ('É', 'é'), ('中', 'a'), ('a', '中'), ('A', '.'), ('A', 'İ'), ('a', '\n'), ('𐐀', '𐐨')] {
            for pos in [None, Some(0), Some(1), Some(l / 2), Some(l.saturating_sub(2)), Some(l - 1)] {
                for suffix in ["", " b", " ", ".", "\n"] {
                    if l > 5000 && !(suffix.is_empty() || suffix == " b") {
                        continue;
                    }
                    let mut s: Vec<char> = vec![base; l];
                    if let Some(p) = pos {
                        if p >= l {
                            continue;
                        }
                        s[p] = dev;
                    }
                    long.push(s.into_iter().collect::<String>() + suffix);
                }
            }
        }
        // Many words.
        for w in ["a ", "A ", "AB ", "Ab  ", "a. ", "a\n", "Éa "] {
            if l <= 70 || l % 64 <= 1 || l % 500 == 0 {
                long.push(w.repeat(l));
                long.push(w.repeat(l).trim_end().to_string());
            }
        }
    }
    rep.explore("long words, runs and texts", long.len(), HANG, |i| Text { text: long[i].clone() }, f);

    if args.thorough() {
        let asc: Vec<char> = (0..0x250u32).filter_map(char::from_u32).filter(|c| !('\x14'..='\x16').contains(c)).collect();
        let k = asc.len();
        let ctx = ["#@", "#@#", "a#@b", "A#@ B", "# @"];
        rep.explore("all pairs below U+0250 in contexts", k * k * ctx.len(), HANG, |i| {
            let (c, i) = (i % ctx.len(), i / ctx.len());
            Text { text: ctx[c].replace('#', &asc[i / k].to_string()).replace('@', &asc[i % k].to_string()) }
        }, f);
    }
}

pub fn replay(case: Value, judge: impl Fn(&str) -> Result<Seen, String>) -> Result<(), String> {
    judge(case["text"].as_str().unwrap()).map(|_| ())
}
