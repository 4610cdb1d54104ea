//! C02: processing equals the reference written from the documentation.
use engines::{procref, texts};
use mckit::*;
use subject::processing::process;

fn judge(t: &str) -> Result<Seen, String> {
    let p = process(t);
    let r = procref::process(t);
    if p != r {
        return Err(format!("{:?} processes to {:?}, expected {:?}", t, p, r));
    }
    Ok(Seen { steps: t.chars().count() as u64, states: 0, outcome: hash_of(&p), nontrivial: p != t, execs: 1 })
}

fn main() {
    engine_main("c02", |a, r| texts::explore(a, r, judge), |_f, c| texts::replay(c, judge));
}
