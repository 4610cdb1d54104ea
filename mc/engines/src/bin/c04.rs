//! C04: the reported number of tokens is the minimum.
use engines::dp::{Delta, Ref};
use engines::toksets::*;
use mckit::*;

fn judge(_r: &Ref, text: &[u8], d: &Delta, min: u64) -> Result<(), String> {
    if d.total != min {
        return Err(format!("{} tokens reported for {:?} ({} bytes), {} are needed and enough", d.total, short(text), text.len(), min));
    }
    if d.bytes != text.len() as u64 {
        return Err(format!("{} scanned bytes reported for a fragment of {}", d.bytes, text.len()));
    }
    Ok(())
}

fn short(t: &[u8]) -> String {
    String::from_utf8_lossy(&t[..t.len().min(60)]).to_string()
}

fn main() {
    engines::silence();
    engine_main("c04", |a, rep| {
        for (name, cases) in families(a.thorough(), false) {
            rep.explore(name, cases.len(), HANG, |i| cases[i].clone(), |c| run_case(c, false, &judge));
        }
    }, |_f, c| replay(c, false, &judge));
}
