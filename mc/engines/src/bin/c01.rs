//! C01: the documented decoding recovers every text.
use engines::{procref, texts};
use mckit::*;
use subject::processing::process;

fn judge(t: &str) -> Result<Seen, String> {
    let p = process(t);
    match procref::decode(&p) {
        Ok(d) if d == t => Ok(Seen { steps: t.chars().count() as u64, states: 0, outcome: hash_of(&p), nontrivial: p != t, execs: 1 }),
        Ok(d) => Err(format!("{:?} processes to {:?}, which decodes to {:?}", t, p, d)),
        Err(e) => Err(format!("{:?} processes to {:?}, which does not decode: {}", t, p, e)),
    }
}

fn main() {
    engine_main("c01", |a, r| texts::explore(a, r, judge), |_f, c| texts::replay(c, judge));
}
