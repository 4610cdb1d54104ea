//! Views of token sets that don't depend on token order.
use crate::gen::to_latin1;
use std::collections::BTreeMap;
use subject::processing::Processing;
use subject::tokenset::{Token, TokenSet, TokenType};

pub fn type_name(t: &TokenType) -> &'static str {
    match t {
        TokenType::Bits1 => "bits1",
        TokenType::Bits2 => "bits2",
        TokenType::Bits4 => "bits4",
        TokenType::Bytes => "bytes",
        TokenType::BytesHuff => "byteshuff",
    }
}

pub fn parse_type(s: &str) -> TokenType {
    match s {
        "bits1" => TokenType::Bits1,
        "bits2" => TokenType::Bits2,
        "bits4" => TokenType::Bits4,
        "bytes" => TokenType::Bytes,
        "byteshuff" | "huff" => TokenType::BytesHuff,
        _ => panic!("{}", s),
    }
}

pub fn proc_name(p: &Processing) -> &'static str {
    match p {
        Processing::Raw => "raw",
        Processing::CapsWords => "capswords",
    }
}

/// A token as a string: extension tokens "#n", others their bytes (Latin-1)
/// after a quote.
pub fn tok(t: &Token) -> String {
    match t {
        Token::Ext(n) => format!("#{}", n),
        Token::Str(s) => format!("'{}", to_latin1(s)),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct View {
    pub ty: String,
    pub processing: String,
    pub flag: bool,
    pub tokens: Vec<String>,
    pub seqs: BTreeMap<String, Vec<String>>,
}

/// The attributes, tokens in order, and what every fallback sequence means.
pub fn view(ts: &TokenSet) -> Result<View, String> {
    let tokens: Vec<String> = ts.tokens.iter().map(tok).collect();
    let mut seqs = BTreeMap::new();
    for s in &ts.sequences {
        let mut v = vec![];
        for &i in &s.tokens {
            v.push(tokens.get(i).ok_or_else(|| format!("sequence for {:?} refers to token {} of {}", to_latin1(&s.string), i, tokens.len()))?.clone());
        }
        if seqs.insert(to_latin1(&s.string), v).is_some() {
            return Err(format!("two sequences for {:?}", to_latin1(&s.string)));
        }
    }
    Ok(View { ty: type_name(&ts.token_type).into(), processing: proc_name(&ts.processing).into(), flag: ts.split_paragraphs, tokens, seqs })
}

pub fn sorted_view(ts: &TokenSet) -> Result<View, String> {
    let mut v = view(ts)?;
    v.tokens.sort();
    Ok(v)
}

/// Structural validity: no duplicates, references in range, every byte
/// expressible exactly once, no string both token and sequence, extension
/// tokens 0..n.
pub fn valid(ts: &TokenSet) -> Result<(), String> {
    let v = view(ts)?;
    let mut u = v.tokens.clone();
    u.sort();
    if let Some(w) = u.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("duplicate token {:?}", w[0]));
    }
    let ext: Vec<&String> = v.tokens.iter().filter(|t| t.starts_with('#')).collect();
    if ext.len() != ts.n_ext_tokens {
        return Err(format!("{} extension tokens, n_ext_tokens is {}", ext.len(), ts.n_ext_tokens));
    }
    for n in 0..ext.len() {
        if !ext.contains(&&format!("#{}", n)) {
            return Err(format!("extension token {} is missing", n));
        }
    }
    if v.tokens.iter().any(|t| t == "'") {
        return Err("empty token".into());
    }
    for (s, t) in &v.seqs {
        if t.is_empty() {
            return Err(format!("empty sequence for {:?}", s));
        }
        if v.tokens.contains(&format!("'{}", s)) {
            return Err(format!("{:?} has a token and a fallback sequence", s));
        }
    }
    for b in 0..=255u8 {
        let s = (b as char).to_string();
        let n = usize::from(v.tokens.contains(&format!("'{}", s))) + usize::from(v.seqs.contains_key(&s));
        if n != 1 {
            return Err(format!("byte {:#04x} is expressible in {} ways", b, n));
        }
    }
    Ok(())
}

/// Sardinas-Patterson: no two different sequences of code words (single tokens
/// and fallback sequences) are the same sequence of tokens.
pub fn uniquely_decodable(ts: &TokenSet) -> Result<u64, String> {
    let mut words: Vec<Vec<usize>> = vec![];
    for (i, t) in ts.tokens.iter().enumerate() {
        if let Token::Str(_) = t {
            words.push(vec![i]);
        }
    }
    for s in &ts.sequences {
        words.push(s.tokens.clone());
    }
    let n = words.len();
    let set: std::collections::HashSet<&[usize]> = words.iter().map(|w| &w[..]).collect();
    if set.len() != n {
        return Err("two byte strings have the same code".to_string());
    }
    let maxlen = words.iter().map(|w| w.len()).max().unwrap_or(0);
    // Dangling suffixes; words indexed by all their prefixes.
    let mut by_prefix: std::collections::HashMap<&[usize], Vec<&[usize]>> = Default::default();
    for w in &words {
        for k in 1..=w.len() {
            by_prefix.entry(&w[..k]).or_default().push(&w[..]);
        }
    }
    let mut seen: std::collections::HashSet<&[usize]> = Default::default();
    let mut queue: Vec<&[usize]> = vec![];
    for w in &words {
        for x in &by_prefix[&w[..]] {
            if x.len() > w.len() && seen.insert(&x[w.len()..]) {
                queue.push(&x[w.len()..]);
            }
        }
    }
    let mut steps = 0;
    while let Some(d) = queue.pop() {
        steps += 1;
        if set.contains(d) {
            return Err(format!("ambiguous encodings (dangling suffix {:?} is a code word)", d));
        }
        // d is a proper prefix of a word
        if let Some(xs) = by_prefix.get(d) {
            for x in xs {
                if x.len() > d.len() && seen.insert(&x[d.len()..]) {
                    queue.push(&x[d.len()..]);
                }
            }
        }
        // a word is a proper prefix of d
        for k in 1..d.len().min(maxlen + 1) {
            if set.contains(&d[..k]) && seen.insert(&d[k..]) {
                queue.push(&d[k..]);
            }
        }
    }
    Ok(steps)
}
