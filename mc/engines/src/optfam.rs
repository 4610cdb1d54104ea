//! The families of optimizer runs explored per property.
use crate::opt::*;
use mckit::*;
use std::time::Duration;

const HANG: Duration = Duration::from_secs(120);

fn families(prop: &str, a: &Args) -> Vec<(&'static str, Vec<Case>)> {
    let mut out: Vec<(&'static str, Vec<Case>)> = vec![];
    // All short texts.
    let mut v = vec![];
    let (alpha, len): (&[char], usize) = match prop {
        "C14" => (&['a', '\n'], a.pick(7, 10)),
        "C13" | "C12" => (&['a', 'b', '\n'], a.pick(5, 7)),
        _ => (&['a', 'b', '\n'], a.pick(4, 6)),
    };
    let w = words(alpha, 0, len);
    for i in 0..w.count() {
        let t: String = w.get(i).into_iter().collect();
        for (k, ty) in TYPES.iter().enumerate() {
            let m = min_budget(ty);
            let extra: Vec<usize> = match prop {
                "C14" | "C12" => vec![1 + (i + k) % 3, 5],
                _ => vec![(i + k) % 2, 1 + (i + k) % 3, 5],
            };
            let budgets: Vec<usize> = extra.iter().map(|e| m + e).collect();
            if prop == "C12" {
                v.push(Case { budgets: vec![budgets[0], budgets[0], budgets[1]], ..case(ty, &t, &[]) });
            } else {
                for b in budgets {
                    v.push(case(ty, &t, &[b]));
                }
            }
        }
    }
    out.push(("all short texts", v));
    // Texts of different kinds with many budgets.
    let mut v = vec![];
    for (i, t) in pool().iter().enumerate() {
        for (k, ty) in TYPES.iter().enumerate() {
            let m = min_budget(ty);
            let extra: Vec<usize> = if a.thorough() { (0..=20).chain([30, 50]).collect() } else { vec![0, 1, 2, 3, 5, 8, 13] };
            for e in extra {
                let chunk = [1usize << 20, 1 << 20, 5, 1][(i + k + e) % 4];
                v.push(Case { capswords: (i + e) % 2 == 1, chunk, ..case(ty, t, &[m + e]) });
            }
        }
    }
    out.push(("pool of texts, all types, many budgets", v));
    // Uneven byte counts of many kinds with the smallest budgets, for long
    // fallback sequences.
    let mut v = vec![];
    for step in [1u8, 3, 8] {
        // Bytes that do not occur weigh as much as bytes that occur once, so
        // codes get long when the smallest counts compare with all of those.
        for (first, k) in [(1usize, 6usize), (1, 11), (90, 9), (240, 7), (240, a.pick(8, 11))] {
            for dir in 0..3 {
                let mut f = (first, first);
                let mut parts = vec![];
                for i in 0..k {
                    let j = if dir == 1 { k - 1 - i } else { i };
                    let ch = if dir == 2 && i % 2 == 1 { 127 - j as u8 * step } else { 10 + j as u8 * step };
                    parts.push(char::from(ch).to_string().repeat(f.0));
                    f = (f.1, f.0 + f.1);
                }
                let t = parts.concat();
                for b in [3usize, 4, 5, 7] {
                    v.push(case("byteshuff", &t, &[b]));
                }
                v.push(case("bits1", &t, &[2 + k / 2]));
            }
        }
    }
    out.push(("uneven byte counts, smallest budgets", v));
    // Budgets around all bytes having tokens.
    let mut v = vec![];
    let ts: &[&str] = if !a.thorough() && prop != "C11" { &[] } else if a.thorough() { &["", "ab", "the cat\n\nthe dog", "\u{e9}\u{e8}\u{e9}"] } else { &["", "the cat\n\nthe dog"] };
    for t in ts {
        for ty in ["bits1", "bits2", "bits4", "byteshuff"] {
            let ext = match ty { "bits1" | "byteshuff" => 2, "bits2" => 4, _ => 16 };
            for b in [254usize, 255, 256, 257, 258, 262, 275] {
                v.push(case(ty, t, &[ext + b]));
            }
        }
    }
    if !v.is_empty() {
        out.push(("budgets around 256 byte tokens", v));
    }
    // Longer texts with more tokens.
    let mut v = vec![];
    for (i, (seed, n, extra)) in a.pick(vec![(1u64, 300usize, 24usize), (2, 700, 16), (3, 150, 60), (4, 400, 40), (5, 1000, 30), (11, 500, 110)], vec![(1, 300, 24), (2, 700, 16), (3, 150, 60), (4, 400, 40), (5, 1000, 30), (6, 2500, 20), (7, 300, 120), (8, 60, 30), (9, 5000, 12), (10, 900, 200), (11, 500, 110), (12, 900, 320)]).into_iter().enumerate() {
        for (k, ty) in TYPES.iter().enumerate() {
            let m = min_budget(ty);
            v.push(Case { capswords: (i + k) % 4 == 3, chunk: [1 << 20, 1 << 20, 100][(i + k) % 3], ..case(ty, &prose(seed * 7 + k as u64, n), &[m + extra + if *ty == "byteshuff" { 5 } else { 0 }]) });
        }
    }
    out.push(("longer texts", v));
    // Texts whose pairs are all equally rare, short and long.
    let mut v = vec![];
    for &k in a.pick(&[2u8, 5, 16, 48][..], &[2u8, 3, 5, 8, 16, 24, 34, 48, 64, 92]) {
        for ty in TYPES {
            let m = min_budget(ty);
            // With every character a token of its own and a few pairs.
            let n = if ty == "bytes" { m + 3 } else { m + k as usize + 2 };
            v.push(case(ty, &all_pairs(k), &[n]));
            if k < 10 || a.thorough() && k < 30 {
                v.push(case(ty, &format!("{}\n\n", all_pairs(k)).repeat(3), &[n]));
            }
        }
    }
    out.push(("texts with every pair once", v));
    // Input sets.
    let mut v = vec![];
    let pool = pool();
    let texts: Vec<&String> = pool.iter().skip(3).step_by(a.pick(3, 1)).collect();
    let inputs: Vec<Vec<&str>> = vec![vec![], vec!["ab"], vec!["zz", "zzz"], vec!["a"], vec!["b", "ab", "a", "ba"], vec!["\u{ff}\u{fe}", "a\n\n", "\n\n\n"], vec!["th", "he", "the", "the ", "e"]];
    for (i, t) in texts.iter().enumerate() {
        for (k, ty) in TYPES.iter().enumerate() {
            let m = if *ty == "byteshuff" { 8 } else { min_budget(ty) };
            for (j, inp) in inputs.iter().enumerate() {
                for extra in [0usize, 2, 7] {
                    if !a.thorough() && (i + j + k + extra) % 2 == 1 && (prop == "C11" || (i + j) % 3 > 0) {
                        continue;
                    }
                    let input = Input::Plain { flag: (i + j) % 2 == 0, tokens: inp.iter().map(|s| s.to_string()).collect(), sorted: (j + k) % 2 == 0 };
                    v.push(Case { input, capswords: j % 2 == 1, ..case(ty, t, &[m + inp.len() + extra, m + inp.len() + extra]) });
                }
            }
            for (j, other) in ["the dog and the cat", "ababab\n\nabab", "\u{e9}\u{e8}zzzz"].iter().enumerate() {
                let n = min_budget(ty) + 4 + j;
                v.push(Case { input: Input::Trained { text: other.to_string(), n }, ..case(ty, t, &[n + (i + j) % 3]) });
            }
        }
    }
    out.push(("input sets of all kinds", v));
    if prop != "C14" {
    // Input sets with tokens the search itself would not make: pieces of the
    // text cut anywhere, across paragraphs and characters, and all of it.
    let mut v = vec![];
    let mut ts: Vec<String> = pool.iter().filter(|t| t.len() > 3 && t.len() < 400).cloned().collect();
    ts.push("ab\n\ncd".repeat(9));
    ts.push("x\n\n\n\nyz\n\n\u{e9}\u{e9}\n".repeat(5));
    for (i, t) in ts.iter().enumerate() {
        if i % a.pick(2, 1) != 0 && !t.contains("\n\n") {
            continue;
        }
        let cuts: Vec<usize> = (0..=t.len()).filter(|&k| t.is_char_boundary(k)).collect();
        let at = |num: usize, den: usize| cuts[(cuts.len() - 1) * num / den];
        let piece = |f: usize, to: usize| t[f..to].to_string();
        let mut inputs = vec![
            vec![piece(0, t.len())],
            vec![piece(at(1, 3), at(2, 3)), piece(0, at(1, 2))],
            vec![piece(0, at(1, 5)), piece(at(1, 5), at(4, 5)), piece(at(4, 5), t.len())],
        ];
        if let Some(k) = t.find("\n\n") {
            // From somewhere before a paragraph's end to somewhere after it.
            let from = *cuts.iter().rev().find(|&&c| c + 2 <= k).unwrap_or(&0);
            let to = *cuts.iter().find(|&&c| c >= k + 4).unwrap_or(&t.len());
            inputs.push(vec![piece(from, to)]);
            inputs.push(vec![piece(k, to), piece(from, k + 1)]);
        }
        for (j, inp) in inputs.iter().enumerate() {
            let mut tokens: Vec<String> = inp.iter().filter(|s| s.len() > 1).cloned().collect();
            tokens.sort();
            tokens.dedup();
            for (k, ty) in TYPES.iter().enumerate() {
                if !a.thorough() && (*ty == "bytes" && i % 3 > 0 || (i + j + k) % 2 > 0 && !t.contains("\n\n")) {
                    continue;
                }
                let m = if *ty == "byteshuff" { 8 } else { min_budget(ty) };
                for extra in a.pick(vec![0usize], vec![0, 1, 4]) {
                    let n = m + tokens.len() + extra;
                    v.push(Case { input: Input::Plain { flag: (i + j + k) % 3 != 0, tokens: tokens.clone(), sorted: j % 2 == 0 }, ..case(ty, t, &[n, n]) });
                }
            }
        }
    }
    out.push(("input sets with pieces of the text", v));
    }
    // Chains with changing budgets.
    let mut v = vec![];
    for (i, t) in pool.iter().enumerate() {
        if i % a.pick(4, 1) != 0 && !t.contains("\n\n") {
            continue;
        }
        for ty in TYPES {
            let m = min_budget(ty);
            v.push(case(ty, t, &[m + 3, m + 3, m + 4, m + 8, m + 8]));
            if a.thorough() {
                v.push(case(ty, t, &[m + 1, m + 2, m + 3, m + 5, m + 5, m + 12, m + 12]));
            }
        }
    }
    out.push(("chains of runs", v));
    // Each token more selects the codes of all bytes anew.
    if prop != "C14" {
        let mut v = vec![];
        let mut texts: Vec<String> = pool.iter().filter(|t| !t.is_empty() && t.len() < a.pick(300, 2000)).cloned().collect();
        for seed in 0..a.pick(12, 60) {
            for n in a.pick(vec![4, 7], vec![4, 7, 12, 20]) {
                texts.push(prose(1000 + seed, n));
            }
        }
        for t in &texts {
            let first = a.pick(3..11usize, 3..20);
            for b in first {
                for step in a.pick(vec![1usize, 2], vec![1, 2, 3, 5]) {
                    v.push(case("byteshuff", t, &[b, b + step]));
                }
            }
            v.push(case("byteshuff", t, &[3, 4, 5, 6, 7, 8, 9, 10]));
        }
        out.push(("frequency-based sets that grow", v));
    }
    if prop != "C14" {
        // Many multi-byte tokens in the input set, of which only those in one
        // place are useless.
        let mut v = vec![];
        for k in a.pick(vec![20usize, 66, 130], vec![20, 66, 100, 130, 200, 260]) {
            let words: Vec<String> = (0..k).map(|i| format!("{}{}{}", char::from(b'a' + (i / 26 % 26) as u8), char::from(b'a' + (i % 26) as u8), char::from(b'A' + (i / 3 % 26) as u8))).collect();
            for (j, at) in [0, k / 3, k - 2, k].iter().enumerate() {
                for useless in 1..=2usize {
                    if useless == 2 && !a.thorough() && j % 2 == 1 {
                        continue;
                    }
                    let mut text = String::new();
                    for (i, w) in words.iter().enumerate() {
                        text.push_str(w);
                        text.push_str(if i % 2 == 0 { "()" } else { "\n" });
                        text.push_str(w);
                    }
                    let mut tokens = words.clone();
                    for u in 0..useless {
                        tokens.insert(*at, format!("{}", ["QQ", "\u{ff}\u{fe}\u{ff}"][u]));
                    }
                    for ty in if a.thorough() { &TYPES[..] } else { &["bits1", "bytes", "byteshuff"] } {
                        let base = if *ty == "byteshuff" { 8 } else { min_budget(ty) };
                        let n = base + tokens.len();
                        for sorted in [false, true] {
                            if sorted && !a.thorough() && (j + useless) % 2 == 0 {
                                continue;
                            }
                            v.push(Case { input: Input::Plain { flag: false, tokens: tokens.clone(), sorted }, ..case(ty, &text, &[n]) });
                        }
                    }
                }
            }
        }
        out.push(("many tokens in the input set", v));
    }
    if prop == "C14" {
        // Long tokens on both sides of a paragraph break.
        let mut v = vec![];
        let fill = |n: usize, from: u8| -> String { (0..n).map(|i| char::from(from + (i % 23) as u8)).collect() };
        for (k, ty) in TYPES.iter().enumerate() {
            for &left in a.pick(&[0usize, 1, 2, 33, 65, 130][..], &[0usize, 1, 2, 6, 31, 33, 63, 65, 130, 300]) {
                for &right in a.pick(&[1usize, 2, 33, 65, 130][..], &[1usize, 2, 31, 33, 63, 65, 130, 300]) {
                    for (j, (le, ri)) in [("\n\n", ""), ("\n", "\n"), ("\n\n\n", ""), ("\n\n", "\n"), ("\n", "\n\n")].iter().enumerate() {
                        if !a.thorough() && (left + right + j + k) % 3 > 0 {
                            continue;
                        }
                        let (l, r) = (fill(left, b'a') + le, ri.to_string() + &fill(right, b'B'));
                        let toks: Vec<String> = [l.clone(), r.clone()].into_iter().filter(|t| t.len() > 1 && !spans_paragraph(t.as_bytes())).collect();
                        if toks.is_empty() {
                            continue;
                        }
                        let base = if *ty == "byteshuff" { 8 } else { min_budget(ty) };
                        let t = format!("{}{}", l, r).repeat(3);
                        v.push(Case { input: Input::Plain { flag: (left + right) % 2 == 1, tokens: toks.clone(), sorted: j % 2 == 0 }, ..case(ty, &t, &[base + toks.len() + 1 + right % 2]) });
                    }
                }
            }
        }
        out.push(("long tokens on both sides of a break", v));
        // Every character after a break, where the best pair would join them.
        let mut v = vec![];
        let mut chars: Vec<char> = (0..0x180u32).filter_map(char::from_u32).collect();
        chars.extend(['\u{7ff}', '\u{800}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}']);
        for (i, c) in chars.into_iter().enumerate() {
            for (k, ty) in TYPES.iter().enumerate() {
                if !a.thorough() && i >= 0x80 && (i + k) % 3 > 0 {
                    continue;
                }
                let m = min_budget(ty);
                v.push(case(ty, &format!("\n\n{}", c).repeat(8), &[m + 3 + (i + k) % 3]));
                v.push(case(ty, &format!("x\n\n{}", c).repeat(5), &[m + 4 + (i + k) % 5]));
            }
        }
        out.push(("every character after a break", v));
        // Everything around line-feed runs.
        let mut v = vec![];
        let w = words(&['a', '\n'], 2, a.pick(5, 7));
        for i in 0..w.count() {
            let unit: String = w.get(i).into_iter().collect();
            for (k, ty) in TYPES.iter().enumerate() {
                let m = min_budget(ty);
                let t = unit.repeat(6);
                let toks: Vec<String> = vec!["\n\n".into(), "a\n\n".into(), "\n\n\n".into(), "\n".into(), "a".into()];
                let base = if *ty == "byteshuff" { 8 } else { m };
                v.push(case(ty, &t, &[m + 6]));
                v.push(Case { input: Input::Plain { flag: k % 2 == 0, tokens: toks.clone(), sorted: i % 2 == 0 }, ..case(ty, &t, &[base + toks.len() + 2]) });
            }
        }
        out.push(("repeated units with line feeds", v));
    }
    out
}

pub fn main(prop: &'static str) {
    crate::silence_all();
    let name: &'static str = match prop { "C11" => "c11", "C12" => "c12", "C13" => "c13", _ => "c14" };
    engine_main(name, |a, rep| {
        for (name, cases) in families(prop, a) {
            rep.explore(name, cases.len(), HANG, |i| cases[i].clone(), |c| run(prop, c));
        }
    }, |_f, c| run(prop, &serde_json::from_value(c).unwrap()).map(|_| ()));
}
