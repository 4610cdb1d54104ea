//! Byte-count profiles for C09 and C10.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Profile {
    Uniform(u64),
    /// 2^(i mod m)
    Powers(u32),
    Fibonacci,
    Linear(u64),
    LinearDown(u64),
    OneHot(u8, u64),
    TwoHot(u8, u8, u64),
    /// Equal blocks with given levels.
    Blocks(Vec<u64>),
    /// i * k mod m
    Mod(u64, u64),
    /// `m` unused bytes from `at` on; the others are used the more often the
    /// farther they are (doubling, then linearly).
    Pit(u64, u64),
    /// Occurrences in a text.
    Text(String),
}

impl Profile {
    pub fn counts(&self) -> Vec<u64> {
        (0..256u64).map(|i| match self {
            Profile::Uniform(c) => *c,
            Profile::Powers(m) => 1u64 << (i as u32 % m),
            Profile::Fibonacci => {
                let (mut a, mut b) = (1u64, 1u64);
                for _ in 0..(i % 60) {
                    let c = a + b;
                    a = b;
                    b = c;
                }
                a
            }
            Profile::Linear(k) => i * k,
            Profile::LinearDown(k) => (255 - i) * k,
            Profile::OneHot(b, c) => if i == *b as u64 { *c } else { 0 },
            Profile::TwoHot(a, b, c) => if i == *a as u64 || i == *b as u64 { *c } else { 0 },
            Profile::Blocks(v) => v[i as usize * v.len() / 256],
            Profile::Mod(k, m) => i * k % m,
            Profile::Pit(at, m) => {
                let d = if i < *at { at - i } else { (i + 1).saturating_sub(at + m) };
                if d == 0 { 0 } else { ((m + 2) << d.min(36)) + d }
            }
            Profile::Text(t) => t.bytes().filter(|&b| b as u64 == i).count() as u64,
        }).collect()
    }
}

pub fn standard(thorough: bool) -> Vec<Profile> {
    let mut v = vec![Profile::Uniform(0), Profile::Uniform(1), Profile::Uniform(1 << 40), Profile::Fibonacci, Profile::Linear(1), Profile::LinearDown(1), Profile::Linear(1 << 33)];
    for m in [2, 3, 7, 8, 16, 31, 32, 48] {
        v.push(Profile::Powers(m));
    }
    for b in (0..=255u8).step_by(if thorough { 1 } else { 15 }) {
        v.push(Profile::OneHot(b, 5));
        v.push(Profile::OneHot(b, 1 << 40));
    }
    for (a, b) in [(0, 255), (0, 1), (254, 255), (127, 128), (10, 32), (97, 98)] {
        v.push(Profile::TwoHot(a, b, 3));
        v.push(Profile::TwoHot(a, b, 1 << 35));
    }
    for (k, m) in [(7, 11), (37, 256), (101, 257), (1, 2), (1, 3), (3, 5), (5, 64), (255, 256)] {
        v.push(Profile::Mod(k, m));
    }
    v.push(Profile::Text("the quick brown fox jumps over the lazy dog. THE END\n\n".into()));
    v.push(Profile::Text("zzzzzzzzzzaaaaaaab".into()));
    v.push(Profile::Text("äöüß é中文 \n".into()));
    v
}

pub fn blocks(levels: &[u64], n: usize) -> Vec<Profile> {
    let w = mckit::Words::new(levels.to_vec(), n, n);
    (0..w.count()).map(|i| Profile::Blocks(w.get(i))).collect()
}
