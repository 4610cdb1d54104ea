//! Token sets described by data, so that cases can be written out and replayed.
use serde::{Deserialize, Serialize};
use subject::processing::Processing;
use subject::tokenset::{Token, TokenSet, TokenType};

/// A token set given by its base and additional tokens.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct SetSpec {
    /// bits1, bits2, bits4, bytes, huff (all bytes but a few as sequences),
    /// or multi (a hand-made set with multi-byte sequences).
    pub base: String,
    /// Added tokens, byte strings written in Latin-1.
    pub tokens: Vec<String>,
    /// Call sort() at the end.
    #[serde(default)]
    pub sorted: bool,
}

pub fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

pub fn to_latin1(b: &[u8]) -> String {
    b.iter().map(|&b| b as char).collect()
}

/// A hand-made frequency-based set: 3 extension tokens, single-byte tokens for
/// a few bytes, everything else as sequences of up to 7 tokens.
pub fn huff_base() -> TokenSet {
    let mut ts = TokenSet::new(3, Processing::Raw, TokenType::BytesHuff, true);
    let tops: Vec<u8> = vec![b' ', b'a', b'e', b't', 0x80];
    let ids: Vec<usize> = tops.iter().map(|&b| ts.add_token(&[b])).collect();
    let mut n = vec![0usize; tops.len()];
    for c in 0..=255u8 {
        if tops.contains(&c) {
            continue;
        }
        let k = (c as usize) % tops.len();
        // code number n[k] in base 3 with distinct lengths 1..
        let mut digits = vec![];
        let mut x = n[k] + 1;
        while x > 0 {
            x -= 1;
            digits.push(x % 3);
            x /= 3;
        }
        digits.reverse();
        n[k] += 1;
        let mut code = vec![ids[k]];
        code.extend(digits);
        ts.add_sequence(vec![c], code);
    }
    ts
}

pub fn base(name: &str) -> TokenSet {
    match name {
        "bits1" => TokenSet::new_bits1(Processing::Raw, true),
        "bits2" => TokenSet::new_bits2(Processing::Raw, true),
        "bits4" => TokenSet::new_bits4(Processing::Raw, true),
        "bytes" => TokenSet::new_bytes(Processing::Raw),
        "huff" => huff_base(),
        "multi" => {
            // Multi-byte fallback sequences of several lengths.
            let mut ts = TokenSet::new_bits2(Processing::Raw, true);
            ts.add_sequence(b"ab".to_vec(), vec![0, 1, 2, 3, 0]);
            ts.add_sequence(b"bab".to_vec(), vec![3, 1, 2]);
            ts.add_sequence(b"aaaa".to_vec(), vec![3, 3]);
            ts
        }
        // Bytes and strings whose fallback sequences have n tokens.
        s if s.starts_with("long") => {
            let n: usize = s[4..].parse().unwrap();
            let mut ts = TokenSet::new_bits4(Processing::Raw, true);
            ts.sequences.retain(|s| s.string != b"q");
            let code = |k: usize| (0..n + k).map(|i| (i * 7 + k) % 16).collect::<Vec<usize>>();
            ts.add_sequence(b"q".to_vec(), code(0));
            ts.add_sequence(b"qq".to_vec(), code(1));
            ts.add_sequence(b"aqb".to_vec(), code(3));
            ts
        }
        _ => panic!("unknown base {}", name),
    }
}

impl SetSpec {
    pub fn new(base: &str, tokens: &[&str]) -> SetSpec {
        SetSpec { base: base.into(), tokens: tokens.iter().map(|s| s.to_string()).collect(), sorted: false }
    }

    pub fn build(&self) -> TokenSet {
        let mut ts = base(&self.base);
        for t in &self.tokens {
            let b = latin1(t);
            if ts.find_token(&b).is_none() {
                ts.add_token(&b);
            }
        }
        if self.sorted {
            ts.sort();
        }
        ts
    }
}

/// The spans of a set as seen from outside: (string, cost, kind).
#[derive(Clone, Debug)]
pub enum Kind {
    Token(usize),
    Seq(usize),
}

pub fn spans(ts: &TokenSet) -> Vec<(Vec<u8>, u64, Kind)> {
    let mut v = vec![];
    for (i, t) in ts.tokens.iter().enumerate() {
        if let Token::Str(s) = t {
            v.push((s.clone(), 1, Kind::Token(i)));
        }
    }
    for (i, s) in ts.sequences.iter().enumerate() {
        v.push((s.string.clone(), s.tokens.len() as u64, Kind::Seq(i)));
    }
    v
}
