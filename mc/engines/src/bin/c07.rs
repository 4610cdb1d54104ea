//! C07: saving and loading a token set.
use engines::dp::Ref;
use engines::gen::*;
use engines::profiles::*;
use engines::sets::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::time::Duration;
use subject::optimize_bytes::*;
use subject::processing::Processing;
use subject::stats2::TokenStats;
use subject::tokenizer2::FragmentTokenizer;
use subject::tokenset::{Token, TokenSet, TokenType};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    /// bits1, bits2, bits4, bytes, huff, empty2 (extension tokens only), or
    /// select:<budget> (the byte optimizer's choice for the profile).
    base: String,
    capswords: bool,
    flag: bool,
    profile: Option<Profile>,
    /// Added tokens in Latin-1, generated ones first.
    gen: Option<Gen>,
    tokens: Vec<String>,
    /// Multi-byte fallback sequences: string, tokens.
    seqs: Vec<(String, Vec<String>)>,
    sorted: bool,
    removed: Vec<String>,
    use_it: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Gen {
    /// All strings prefix + byte.
    Last(String),
    /// All scalar values of a block, each with a prefix and a suffix.
    Scalars(u32, u32, String, String),
    /// w0 .. wN
    Many(usize),
}

fn build(c: &Case) -> TokenSet {
    let p = if c.capswords { Processing::CapsWords } else { Processing::Raw };
    let mut ts = match &c.base[..] {
        "bits1" => TokenSet::new_bits1(p, c.flag),
        "bits2" => TokenSet::new_bits2(p, c.flag),
        "bits4" => TokenSet::new_bits4(p, c.flag),
        "bytes" => TokenSet::new_bytes(p),
        "huff" => huff_base(),
        "empty255" => TokenSet::new(255, p, TokenType::BytesHuff, c.flag),
        s => {
            let n: usize = s.strip_prefix("select:").unwrap().parse().unwrap();
            let b = TokenSet::new_bytes(p);
            let mut st = TokenStats::new(b.clone(), None);
            let counts = c.profile.as_ref().unwrap().counts();
            for (i, t) in b.tokens.iter().enumerate() {
                if let Token::Str(s) = t {
                    st.token_counts[i] = counts[s[0] as usize];
                }
            }
            HuffOptimizer::optimize_bytes(&st, n)
        }
    };
    ts.processing = p;
    ts.split_paragraphs = c.flag;
    let mut present: std::collections::HashSet<Vec<u8>> = ts.tokens.iter().filter_map(|t| match t { Token::Str(s) => Some(s.clone()), _ => None }).collect();
    let mut add = |ts: &mut TokenSet, b: Vec<u8>| {
        if present.insert(b.clone()) {
            ts.add_token(&b);
        }
    };
    match &c.gen {
        None => {}
        Some(Gen::Last(p)) => (0..=255u8).for_each(|b| {
            let mut s = latin1(p);
            s.push(b);
            add(&mut ts, s)
        }),
        Some(Gen::Scalars(lo, hi, pre, suf)) => (*lo..*hi).filter_map(char::from_u32).for_each(|ch| add(&mut ts, format!("{}{}{}", pre, ch, suf).into_bytes())),
        Some(Gen::Many(n)) => (0..*n).for_each(|i| add(&mut ts, format!("w{}", i * 7919 % n).into_bytes())),
    }
    for t in &c.tokens {
        add(&mut ts, latin1(t));
    }
    for (s, v) in &c.seqs {
        let idx = v.iter().map(|t| ts.tokens.iter().position(|y| tok(y) == *t).expect("HARNESS-ERROR: token")).collect();
        ts.add_sequence(latin1(s), idx);
    }
    for t in &c.removed {
        let i = ts.find_token(&latin1(t)).expect("HARNESS-ERROR: find");
        ts.remove_token(i);
    }
    if c.sorted {
        ts.sort();
    }
    ts
}

fn diff(a: &View, b: &View) -> String {
    if (&a.ty, &a.processing, a.flag) != (&b.ty, &b.processing, b.flag) {
        return format!("type, processing, flag {} {} {} became {} {} {}", a.ty, a.processing, a.flag, b.ty, b.processing, b.flag);
    }
    if a.tokens != b.tokens {
        if let Some(i) = (0..a.tokens.len().min(b.tokens.len())).find(|&i| a.tokens[i] != b.tokens[i]) {
            return format!("token {} {:?} became {:?}", i, a.tokens[i], b.tokens[i]);
        }
        return format!("{} tokens became {}", a.tokens.len(), b.tokens.len());
    }
    let keys: std::collections::BTreeSet<&String> = a.seqs.keys().chain(b.seqs.keys()).collect();
    for k in keys {
        if a.seqs.get(k) != b.seqs.get(k) {
            return format!("fallback sequence of {:?}: {:?} became {:?}", k, a.seqs.get(k), b.seqs.get(k));
        }
    }
    "views differ".into()
}

fn round(ts: &TokenSet, use_it: bool) -> Result<u64, String> {
    let v = view(ts).map_err(|e| format!("{}{}", HARNESS, e))?;
    let text = serde_json::to_string(&ts.to_json()).map_err(|e| e.to_string())?;
    let back: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let ts2 = guarded(|| TokenSet::from_json(back)).map_err(|p| format!("loading panics: {}", p))?;
    let v2 = view(&ts2).map_err(|e| format!("loaded set: {}", e))?;
    if v != v2 {
        return Err(diff(&v, &v2));
    }
    if ts.n_ext_tokens != ts2.n_ext_tokens {
        return Err(format!("n_ext_tokens {} became {}", ts.n_ext_tokens, ts2.n_ext_tokens));
    }
    let text2 = serde_json::to_string(&ts2.to_json()).map_err(|e| e.to_string())?;
    if text != text2 {
        return Err(format!("saving the loaded set gives other JSON: {} became {}", first_diff(&text, &text2).0, first_diff(&text, &text2).1));
    }
    if use_it {
        usable(&ts2)?;
    }
    Ok(v.tokens.len() as u64 + v.seqs.len() as u64)
}

fn first_diff(a: &str, b: &str) -> (String, String) {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[n.saturating_sub(20)..(n + 60).min(s.len())]).to_string();
    (cut(a), cut(b))
}

const TEXTS: [&str; 4] = ["the quick brown fox\n\nthe lazy dog", "aaaaabababab abab", "ÄÖÜ\u{0}\u{1f}\"\\ 中文 \u{1F600}", "\u{14}the\u{16}\u{15}end\u{16}.\n"];

fn usable(ts: &TokenSet) -> Result<(), String> {
    let r = Ref::new(ts);
    let tok = guarded(|| FragmentTokenizer::new(ts.clone())).map_err(|p| format!("tokenizer for the loaded set panics: {}", p))?;
    let mut buf = vec![];
    for t in TEXTS {
        let mut st = TokenStats::new(ts.clone(), None);
        guarded(|| tok.process_slice(t.as_bytes(), &mut st, &mut buf)).map_err(|p| format!("tokenizing with the loaded set panics: {}", p))?;
        if st.total_tokens != r.min_tokens(t.as_bytes()) {
            return Err(format!("loaded set tokenizes {:?} to {}, minimum {}", t, st.total_tokens, r.min_tokens(t.as_bytes())));
        }
    }
    Ok(())
}

fn run(c: &Case) -> Result<Seen, String> {
    let ts = build(c);
    let n = round(&ts, c.use_it)?;
    Ok(Seen { steps: n, execs: 1, outcome: hash_of(&(ts.ntokens(), ts.sequences.len(), tok(&ts.tokens[ts.ntokens() - 1]))), nontrivial: ts.ntokens() > ts.n_ext_tokens, ..Default::default() })
}

/// Search over add/remove-long/sort histories; every state is saved and loaded.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Histories {
    base: String,
    flag: bool,
    adds: Vec<String>,
    depth: usize,
}

fn histories(h: &Histories) -> Result<Seen, String> {
    let c = Case { base: h.base.clone(), capswords: h.flag, flag: h.flag, profile: None, gen: None, tokens: vec![], seqs: vec![], sorted: false, removed: vec![], use_it: false };
    let mut frontier = vec![(build(&c), String::new())];
    let mut known = std::collections::HashSet::new();
    let mut seen = Seen { nontrivial: true, states: 1, ..Default::default() };
    round(&frontier[0].0, true)?;
    for _ in 0..h.depth {
        let mut next = vec![];
        for (ts, hist) in &frontier {
            for i in 0..=2 * h.adds.len() {
                let mut t = ts.clone();
                let mut d = hist.clone();
                if i == 2 * h.adds.len() {
                    t.sort();
                    d += " sort";
                } else {
                    let s = latin1(&h.adds[i / 2]);
                    match (t.find_token(&s), i % 2) {
                        (None, 0) => {
                            t.add_token(&s);
                            d += &format!(" add {:?}", h.adds[i / 2]);
                        }
                        (Some(x), 1) if s.len() > 1 => {
                            t.remove_token(x);
                            d += &format!(" remove {:?}", h.adds[i / 2]);
                        }
                        _ => continue,
                    }
                }
                let key = hash_of(&(t.tokens.iter().map(tok).collect::<Vec<_>>(), t.sequences.iter().map(|s| (s.string.clone(), s.tokens.clone())).collect::<Vec<_>>()));
                seen.steps += 1;
                if known.insert(key) {
                    round(&t, seen.states % 64 == 0).map_err(|e| format!("after{}: {}", d, e))?;
                    seen.states += 1;
                    seen.execs += 1;
                    next.push((t, d));
                }
            }
        }
        frontier = next;
    }
    seen.outcome = hash_of(&(seen.states, seen.steps, &h.base, h.flag));
    Ok(seen)
}

/// An independent reading of a shipped file.
fn read_file(v: &Value) -> Result<View, String> {
    let tok = |t: &Value| -> String {
        match t {
            Value::Number(n) => format!("#{}", n),
            Value::String(s) => format!("'{}", to_latin1(s.as_bytes())),
            Value::Array(a) => format!("'{}", a.iter().map(|x| x.as_u64().unwrap() as u8 as char).collect::<String>()),
            _ => panic!("HARNESS-ERROR: token {}", t),
        }
    };
    let tokens: Vec<String> = v["tokens"].as_array().unwrap().iter().map(tok).collect();
    let mut seqs = BTreeMap::new();
    for s in v.get("sequences").and_then(|s| s.as_array()).unwrap_or(&vec![]) {
        let k = tok(&s["string"]);
        seqs.insert(k[1..].to_string(), s["tokens"].as_array().unwrap().iter().map(tok).collect::<Vec<_>>());
    }
    Ok(View { ty: v["type"].as_str().unwrap().into(), processing: v["processing"].as_str().unwrap().into(), flag: v["split_paragraphs"].as_bool().unwrap(), tokens, seqs })
}

fn shipped(path: &String) -> Result<Seen, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}{}", HARNESS, e))?;
    let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let want = read_file(&v)?;
    let ts = guarded(|| TokenSet::from_json(v)).map_err(|p| format!("loading panics: {}", p))?;
    let got = view(&ts)?;
    if got != want {
        return Err(format!("the file's set is loaded wrongly: {}", diff(&want, &got)));
    }
    let n = round(&ts, true)?;
    Ok(Seen { steps: n, execs: 1, nontrivial: true, outcome: hash_of(&got), ..Default::default() })
}

const HANG: Duration = Duration::from_secs(300);

fn main() {
    engines::silence();
    engine_main("c07", |a, rep| {
        let bases = ["bits1", "bits2", "bits4", "bytes", "huff", "select:5", "select:40", "select:200"];
        let case = |base: &str, i: usize| Case { base: base.into(), capswords: i % 2 == 1, flag: i / 2 % 2 == 1, profile: Some(Profile::Linear(3)), gen: None, tokens: vec![], seqs: vec![], sorted: i % 3 == 1, removed: vec![], use_it: false };
        // Attributes.
        let mut v = vec![];
        for base in bases {
            for i in 0..4 {
                for sorted in [false, true] {
                    for toks in [vec![], vec!["a"], vec!["ab"], vec!["b", "ab", "\u{ff}\u{fe}", "a"], vec!["\n\n", "\u{0}", "z", "\n"]] {
                        v.push(Case { sorted, use_it: true, tokens: toks.iter().map(|s| s.to_string()).collect(), ..case(base, i) });
                    }
                }
            }
        }
        rep.explore("types, processing, paragraph flag", v.len(), HANG, |i| v[i].clone(), run);
        // Every string of one and two bytes, in one set per first byte.
        let mut v = vec![];
        for (k, base) in bases.iter().enumerate() {
            v.push(Case { gen: Some(Gen::Last("".into())), use_it: true, ..case(base, k) });
            for b in 0..=255u8 {
                if a.thorough() || k < 6 {
                    v.push(Case { gen: Some(Gen::Last(to_latin1(&[b]))), ..case(base, k + b as usize) });
                }
            }
            if a.thorough() {
                for b in [0xc3u8, 0xe2, 0xed, 0xf0, b'a', b'\\', 0, 0xff] {
                    for b2 in 0..=255u8 {
                        v.push(Case { gen: Some(Gen::Last(to_latin1(&[b, b2]))), ..case(base, k + b2 as usize) });
                    }
                }
            }
        }
        rep.explore("every token of one and two bytes", v.len(), HANG, |i| v[i].clone(), run);
        // Every scalar value as (part of) a token.
        let mut v = vec![];
        for (lo, i) in (0..0x110000u32).step_by(1024).zip(0..) {
            let shapes: Vec<(&str, &str)> = if a.thorough() { vec![("", ""), ("x", ""), ("", "\\"), ("\u{e9}", "\n")] } else { vec![[("", ""), ("x", "\\")][usize::from(lo >= 0x20000 && i % 2 == 1)]] };
            for (p, s) in shapes {
                v.push(Case { gen: Some(Gen::Scalars(lo, lo + 1024, p.into(), s.into())), ..case(["bytes", "bits4", "bits1"][i % 3], i) });
            }
        }
        rep.explore("every Unicode scalar value in a token", v.len(), HANG, |i| v[i].clone(), run);
        // Words over characters with a special meaning in JSON or UTF-8.
        let special: Vec<u8> = vec![b'"', b'\\', b'/', b'u', b'\n', 0, 0x1f, 0x7f, 0x80, 0xbf, 0xc3, 0xa9, 0xe2, 0x82, 0xed, 0xa0, 0xef, 0xbb, 0xf0, 0x9f, 0xf4, 0xff, b'0', b'd', b'{'];
        let w = Words::new(special, 1, a.pick(3, 4));
        let per = 200;
        let n = w.count().div_ceil(per);
        rep.explore("words over characters special in JSON or UTF-8", n, HANG, |i| {
            let toks = (i * per..((i + 1) * per).min(w.count())).map(|k| to_latin1(&w.get(k))).collect();
            Case { tokens: toks, ..case(bases[i % bases.len()], i) }
        }, run);
        // One special character at every place of a long token.
        let mut v: Vec<Vec<u8>> = vec![];
        let marks: [&[u8]; 12] = [b"\xff", b"\xc3", b"\x80", b"\"", b"\\", b"\x00", b"\xef\xbf\xbd", "\u{e9}".as_bytes(), b"\xf0\x9f\x98", "\u{1f600}".as_bytes(), b"\xed\xa0\x80", b"\n"];
        for (k, m) in marks.iter().enumerate() {
            for (fill, lens) in [(&b"w"[..], (2..=a.pick(24, 40)).chain([31, 32, 33, 63, 64, 65, 100]).collect::<Vec<usize>>()), ("\u{fc}".as_bytes(), vec![4, 9, 17, 33])] {
                for n in lens {
                    for at in 0..=n {
                        if n > 40 && k > 2 && at % 8 > 1 { continue; }
                        let mut t = fill.repeat(at);
                        t.extend_from_slice(m);
                        t.extend(fill.repeat(n - at));
                        v.push(t);
                    }
                }
            }
            for n in [127usize, 128, 129, 255, 256, 257, 1000, 4096, 65_535, 65_536] {
                for at in [0, 1, 15, 16, 17, 100, n / 2, n - 1, n] {
                    if n <= 4096 || k < 2 {
                        let mut t = b"w".repeat(at.min(n));
                        t.extend_from_slice(m);
                        t.extend(b"w".repeat(n - at.min(n)));
                        v.push(t);
                    }
                }
            }
        }
        let per = 100;
        rep.explore("a special character at every place of a token", v.len().div_ceil(per), HANG, |i| Case { tokens: v[i * per..((i + 1) * per).min(v.len())].iter().map(|t| to_latin1(t)).collect(), ..case(bases[i % bases.len()], i) }, run);
        // Fallback sequences of every length.
        let mut w = vec![];
        for n in (1..=40usize).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]) {
            for sorted in [false, true] {
                w.push(Case { tokens: ["xy", "q", "\u{ff}\u{ff}"].iter().map(|s| s.to_string()).collect(), sorted, seqs: vec![("ab".into(), (0..n.max(2)).map(|i| ["#1", "'xy", "#0", "'\u{ff}\u{ff}"][i * 7 % 4].to_string()).collect()), ("abd".into(), (0..n.max(2)).map(|i| ["'q", "#1"][i % 2].to_string()).collect())], ..case(["bits1", "huff", "empty255"][n % 3], n) });
            }
        }
        rep.explore("fallback sequences of every length", w.len(), HANG, |i| w[i].clone(), run);
        // Fallback sequences of a single token.
        let mut w = vec![];
        for k in [1usize, 2, 15, 16, 127, 128, 200, 254, 255] {
            for sorted in [false, true] {
                for rot in [0usize, 7, 100] {
                    // Bytes 0..k are an extension token each, the others have tokens.
                    let seqs = (0..k).map(|i| (to_latin1(&[i as u8]), vec![format!("#{}", (i + rot) % k)])).collect();
                    let mut tokens: Vec<String> = (k..256).map(|i| to_latin1(&[i as u8])).collect();
                    tokens.insert(tokens.len() / 2, "xy".into());
                    w.push(Case { seqs, tokens, sorted, use_it: true, ..case("empty255", k + rot) });
                }
            }
        }
        rep.explore("fallback sequences of a single token", w.len(), HANG, |i| w[i].clone(), run);
        // Every set of byte tokens out of eight, in several orders, long tokens between.
        let pool = ["a", "b", "\u{0}", "\u{ff}", "\u{80}", "\"", " ", "\n"];
        let mut v = vec![];
        for sub in subsets(8, 8) {
            for (k, base) in ["bits1", "bits2", "bits4", "huff", "select:20"].iter().enumerate() {
                let mut t: Vec<String> = sub.iter().map(|&i| pool[i].to_string()).collect();
                if k % 2 == 0 { t.reverse(); }
                t.insert(t.len() / 2, "ab".into());
                t.push("\u{ff}\u{0}".into());
                v.push(Case { tokens: t, sorted: false, removed: if sub.len() % 2 == 0 { vec!["ab".into()] } else { vec![] }, ..case(base, k + sub.len()) });
            }
        }
        for p in mckit::Words::new(vec![0usize, 1, 2, 3, 4], 5, 5).count().min(3125).to_string().parse::<usize>().map(|n| 0..n).unwrap() {
            let w = mckit::Words::new(vec![0usize, 1, 2, 3, 4], 5, 5).get(p);
            let mut u = w.clone();
            u.sort();
            u.dedup();
            if u.len() < 5 { continue; }
            let names = ["b", "a", "ab", "\u{fe}\u{ff}", "ba"];
            v.push(Case { tokens: w.iter().map(|&i| names[i].to_string()).collect(), sorted: false, ..case(["bits1", "bits4", "huff", "select:9"][p % 4], p) });
        }
        rep.explore("subsets and orders of byte tokens", v.len(), HANG, |i| v[i].clone(), run);
        // Multi-byte fallback sequences.
        let mut v = vec![];
        let st = [("ab", vec!["#0", "#1"]), ("abc", vec!["'xy", "#1", "'xy"]), ("\u{fe}\u{ff}", vec!["'\u{ff}\u{ff}", "#0"]), ("\u{e9}\"", vec!["'q", "'q"])];
        for sub in subsets(4, 4) {
            for (k, base) in ["bits1", "bits2", "bits4", "huff", "select:12", "empty255"].iter().enumerate() {
                for sorted in [false, true] {
                    v.push(Case { tokens: ["xy", "q", "\u{ff}\u{ff}", "0", "1", "\u{0}"].iter().map(|s| s.to_string()).collect(), seqs: sub.iter().map(|&i| (st[i].0.to_string(), st[i].1.iter().map(|s| s.to_string()).collect())).collect(), sorted, use_it: *base != "empty255" && sub.len() < 2, ..case(base, k + sub.len()) });
                }
            }
        }
        v.push(Case { seqs: vec![("z".into(), (0..255).map(|i| format!("#{}", i)).collect()), ("yy".into(), vec!["#254".into(), "#254".into()])], ..case("empty255", 0) });
        rep.explore("multi-byte fallback sequences", v.len(), HANG, |i| v[i].clone(), run);
        // Sets made by the byte optimizer.
        let mut v = vec![];
        for (k, p) in standard(a.thorough()).into_iter().enumerate() {
            let budgets: Vec<usize> = if a.thorough() { (3..=262).collect() } else { vec![3, 4, 5, 8, 12, 16, 33, 64, 128, 200, 255, 256, 257, 258, 266] };
            for n in budgets {
                for toks in [vec![], vec!["the".to_string(), "\u{ff}\u{80}".to_string()]] {
                    v.push(Case { profile: Some(p.clone()), tokens: toks, ..case(&format!("select:{}", n), k + n) });
                }
            }
        }
        rep.explore("frequency-based sets of all budgets", v.len(), HANG, |i| v[i].clone(), run);
        let mut v = vec![];
        for (k, base) in ["bits1", "bits2", "bits4", "bytes", "huff"].iter().enumerate() {
            for flag in [true, false] {
                let adds: Vec<String> = if *base == "bytes" || k % 2 == 1 { ["aa", "ab", "\u{ff}\u{fe}", "\n\n"].iter().map(|s| s.to_string()).collect() } else { ["a", "ab", "\u{ff}", "\u{c3}\u{a9}"].iter().map(|s| s.to_string()).collect() };
                v.push(Histories { base: base.to_string(), flag, adds, depth: a.pick(5, 7) });
            }
        }
        rep.explore("histories of additions and removals", v.len(), HANG, |i| v[i].clone(), histories);
        let sizes: Vec<usize> = if a.thorough() { vec![200, 254, 255, 256, 257, 300, 1000, 5000, 20_000, 70_000] } else { vec![200, 255, 256, 257, 300, 1000, 5000, 20_000] };
        let mut v = vec![];
        for n in sizes {
            for (k, base) in bases.iter().enumerate() {
                if n <= 1000 || k == 1 || k == 3 || (n <= 5000 && k == 6) {
                    v.push(Case { gen: Some(Gen::Many(n)), use_it: n <= 300, sorted: k % 2 == 0, ..case(base, k) });
                }
            }
        }
        v.reverse();
        rep.explore("large sets", v.len(), HANG, |i| v[i].clone(), run);
        let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
        let mut files: Vec<String> = std::fs::read_dir(format!("{}/tokens", repo)).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path().to_string_lossy().to_string()).filter(|p| p.ends_with(".json")).collect()).unwrap_or_default();
        files.sort();
        rep.explore("shipped token sets", files.len(), HANG, |i| files[i].clone(), shipped);
    }, |f, c| match f {
        "shipped token sets" => shipped(&serde_json::from_value(c).unwrap()).map(|_| ()),
        "histories of additions and removals" => histories(&serde_json::from_value(c).unwrap()).map(|_| ()),
        _ => run(&serde_json::from_value(c).unwrap()).map(|_| ()),
    });
}
