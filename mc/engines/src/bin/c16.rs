//! C16: a size-limited sample consists of whole paragraphs in proportion.
use engines::sysread::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashSet;
use std::time::Duration;
use subject::input::memory_sampler::MemorySampler;
use subject::input::sample::Sampler;

#[derive(Serialize, Deserialize, Clone)]
struct Case {
    text: Vec<(String, usize)>,
    /// Requested sizes; empty: all from 1 to the file's.
    sizes: Vec<usize>,
    deviations: usize,
    chunk: usize,
}

thread_local! {
    static FILE: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn my_file() -> String {
    FILE.with(|f| {
        f.borrow_mut()
            .get_or_insert_with(|| {
                static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                std::env::temp_dir().join(format!("c16-{}-{}", std::process::id(), k)).to_str().unwrap().to_string()
            })
            .clone()
    })
}

/// The text cut after every maximal run of two or more line feeds.
fn paragraphs(b: &[u8]) -> Vec<&[u8]> {
    let mut out = vec![];
    let mut start = 0;
    for i in 2..b.len() {
        if b[i] != b'\n' && b[i - 1] == b'\n' && b[i - 2] == b'\n' {
            out.push(&b[start..i]);
            start = i;
        }
    }
    if start < b.len() {
        out.push(&b[start..]);
    }
    out
}

/// Whether `got` is a selection of the paragraphs that stays within the
/// largest paragraph of `share` of what was read, at every paragraph.
fn in_proportion(paras: &[&[u8]], got: &[u8], size: usize, total: usize) -> Result<(), String> {
    let max = paras.iter().map(|p| p.len()).max().unwrap_or(0);
    // Selected so far, for every way to explain the selection.
    let step = |s: &HashSet<usize>, p: &[u8]| -> HashSet<usize> {
        let mut n = s.clone();
        n.extend(s.iter().filter(|&&x| got[x..].starts_with(p)).map(|x| x + p.len()));
        n
    };
    let mut states: HashSet<usize> = HashSet::from([0]);
    let mut read = 0usize;
    for p in paras {
        read += p.len();
        states = step(&states, p);
        // |selected - size/total * read| <= max
        states.retain(|&x| {
            let d = x as i128 * total as i128 - size as i128 * read as i128;
            d.abs() <= max as i128 * total as i128
        });
    }
    if !states.contains(&got.len()) {
        let mut any: HashSet<usize> = HashSet::from([0]);
        for p in paras {
            any = step(&any, p);
        }
        if !any.contains(&got.len()) {
            return Err("the sample is not a selection of whole paragraphs in order".into());
        }
        return Err(format!("the amount selected ({} bytes of {}) does not stay in proportion, largest paragraph {}", got.len(), total, max));
    }
    Ok(())
}

fn run(c: &Case) -> Result<Seen, String> {
    let text: String = c.text.iter().map(|(s, n)| s.repeat(*n)).collect();
    let paras = paragraphs(text.as_bytes());
    let path = my_file();
    std::fs::write(&path, &text).unwrap();
    let sizes: Vec<usize> = if c.sizes.is_empty() { (1..text.len()).collect() } else { c.sizes.iter().cloned().filter(|s| (1..text.len()).contains(s)).collect() };
    let mut seen = Seen { nontrivial: paras.len() > 1, ..Default::default() };
    let mut o = vec![];
    for &size in &sizes {
        let get = || {
            let s = MemorySampler::sample_from_file(&path, size, c.chunk);
            let v: Vec<String> = s.iter().map(|x| x.as_str().to_string()).collect();
            (v.concat(), s.total_size())
        };
        let (got, total) = get();
        seen.execs += 1;
        seen.steps += paras.len() as u64;
        let err = |m: String| Err(format!("size {} of {}: {}", size, text.len(), m));
        if total != got.len() as u64 {
            return err(format!("total size {} but {} bytes", total, got.len()));
        }
        if let Err(e) = in_proportion(&paras, got.as_bytes(), size, text.len()) {
            return err(e);
        }
        o.push(got.len());
        if c.deviations > 0 {
            for max in [usize::MAX, 1, 3] {
                if max < 10 && text.len() > 200 {
                    continue;
                }
                let (_, n) = with_reads(max, &[], &get);
                for p in plans(n + 1, if max == usize::MAX { c.deviations } else { 1 }) {
                    let ((g, _), _) = with_reads(max, &p, &get);
                    seen.execs += 1;
                    if let Err(e) = in_proportion(&paras, g.as_bytes(), size, text.len()) {
                        return err(format!("reads of at most {} bytes deviating at {:?}: {}", max, p, e));
                    }
                }
            }
        }
    }
    seen.outcome = hash_of(&o);
    Ok(seen)
}

fn main() {
    engine_main("c16", |a, rep| {
        let hang = Duration::from_secs(60);
        let w = Words::new(vec!["a", "\n", "b", "\u{4e2d}"], 0, a.pick(7, 8));
        rep.explore("all short texts, all sizes", w.count(), hang, |i| Case { text: vec![(w.get(i).concat(), 1)], sizes: vec![], deviations: 0, chunk: 1 << 20 }, run);
        let w = Words::new(vec!["a", "\n"], 0, a.pick(12, 14));
        rep.explore("all short texts of letters and line feeds, all sizes", w.count(), hang, |i| Case { text: vec![(w.get(i).concat(), 1)], sizes: vec![], deviations: 0, chunk: 1 + i % 5 }, run);
        let w = Words::new(vec!["a\n\n", "b\n\n\n", "cccccccc\n\n", "d\ne\n\n", "ffffffffffffffffffffffff\n\n", "\u{4e2d}\n\n"], 1, a.pick(6, 7));
        rep.explore("all sequences of paragraphs, all sizes", w.count(), hang, |i| Case { text: vec![(w.get(i).concat(), 1)], sizes: vec![], deviations: 0, chunk: 1 << 20 }, run);
        let w2 = Words::new(vec!["a\n\n", "b\n\n\n", "cccccccc\n\n", "d\ne\n\n", "ffff"], 1, a.pick(4, 5));
        rep.explore("all sequences of paragraphs with other beginnings and ends, all sizes", w2.count() * 9, hang, |i| {
            let (x, y) = (i % 3, i / 3 % 3);
            Case { text: vec![(["", "\n", "\n\n\n"][x].into(), 1), (w2.get(i / 9).concat(), 1), (["", "z", "z\n"][y].into(), 1)], sizes: vec![], deviations: 0, chunk: 7 }
        }, run);
        let w3 = Words::new(vec!["a", "\n", "\u{4e2d}"], 0, a.pick(4, 5));
        rep.explore("all short texts, all sizes, all ways to read the file", w3.count(), hang, |i| Case { text: vec![(w3.get(i).concat(), 1)], sizes: vec![], deviations: 2, chunk: 1 << 20 }, run);
        // Many paragraphs, paragraphs larger than the reader's buffer, lines across it.
        let mut v = vec![];
        for unit in ["ab\n\n", "\u{4e2d}x\n\n\n", "line\nline\n\n", "p\n\nqqqqqqqqqqqqqqq\n\n"] {
            for n in [10usize, 100, 1000, 5000] {
                let len = unit.len() * n;
                for k in 1..=a.pick(12, 60) {
                    v.push(Case { text: vec![(unit.into(), n)], sizes: vec![1, len * k / 61, len - 1], deviations: usize::from(k % 6 == 0), chunk: 1 << 20 });
                }
            }
        }
        for n in [8189usize, 8190, 8191, 8192, 8193, 16384, 20000] {
            for rest in ["\n\nb\n\nccc\n\n", "\nx\n\nb", "\n\n\nb\n\n"] {
                for pre in ["", "s\n\n", "\n\n"] {
                    v.push(Case { text: vec![(pre.into(), 1), ("a".into(), n), (rest.into(), 1)], sizes: vec![1, 2, 10, 100, n / 2, n - 1, n, n + 2], deviations: 2, chunk: 1 << 20 });
                    v.push(Case { text: vec![(pre.into(), 1), ("a\n\n".into(), n / 3), ("b".into(), n % 3), (rest.into(), 1)], sizes: vec![1, 2, 10, 100, n / 2, n - 1, n], deviations: 1, chunk: 4096 });
                }
            }
        }
        // Paragraphs of many lines, up to a megabyte.
        for (n, line) in [(4097usize, "x\n"), (700, "a line of a hundred bytes or so, a line of a hundred bytes or so, a line of a hundred bytes or so\n"), (40000, "ab\n"), (1, "x"), (20000, "\u{4e2d}\u{6587}\u{4e2d}\n"), (9000, "\n"), (300000, "abc\n")] {
            let len = line.len() * n;
            for (pre, post) in [("", "\nb\n\nccc"), ("s\n\nt\n\n", "\n\n"), ("s\n\n", "z\n\n\nq\n\n")] {
                for copies in [1usize, 2, 5] {
                    let mut text = vec![(pre.to_string(), 1)];
                    for _ in 0..copies {
                        text.push((line.to_string(), n));
                        text.push((post.to_string(), 1));
                        text.push(("tiny\n\n".to_string(), 3));
                    }
                    let total = copies * (len + post.len() + 18);
                    v.push(Case { text, sizes: vec![1, 100, len / 2, len, total / 3, total - total / 4, total - 1], deviations: usize::from(len < 70000 && copies == 1), chunk: 1 << 20 });
                }
            }
        }
        // Special characters around the borders.
        for sp in ["\u{feff}", "\r", "\r\n\r\n", "\u{0}", "\u{85}", "\u{2028}", "\u{2029}", "\u{c}", " \n", "\t\n \n", "\u{1a}", "\u{fffd}"] {
            for unit in ["$\n\na\n\n", "a$\n\n$b\n\n", "\n$\n\n\n$\n", "$$\n\nccc$\n$\n\n\n\n$"] {
                v.push(Case { text: vec![(unit.replace('$', sp), 3)], sizes: vec![], deviations: 1, chunk: 7 });
            }
        }
        rep.explore("many and large paragraphs", v.len(), hang, |i| v[i].clone(), run);
    }, |_f, c| run(&serde_json::from_value(c).unwrap()).map(|_| ()));
}
