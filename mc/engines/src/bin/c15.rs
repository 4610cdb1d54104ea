//! C15: the samples of a data source are exactly its text.
use engines::sysread::*;
use mckit::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::time::Duration;
use subject::input::file_sampler::FileSampler;
use subject::input::memory_sampler::MemorySampler;
use subject::input::sample::Sampler;

#[derive(Serialize, Deserialize, Clone)]
struct Case {
    /// Repeated pieces of text.
    text: Vec<(String, usize)>,
    /// Chunk sizes; empty: all from 1 to a bit more than the text.
    chunks: Vec<usize>,
    /// Deviating reads explored for the sources that read a file.
    deviations: usize,
    file: bool,
}

fn text_of(c: &Case) -> String {
    c.text.iter().map(|(s, n)| s.repeat(*n)).collect()
}

thread_local! {
    static FILE: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn my_file() -> String {
    FILE.with(|f| {
        f.borrow_mut()
            .get_or_insert_with(|| {
                static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                let k = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                std::env::temp_dir().join(format!("c15-{}-{}", std::process::id(), k)).to_str().unwrap().to_string()
            })
            .clone()
    })
}

fn samples<'a, S: Sampler<'a>>(s: &'a S) -> Vec<String> {
    s.iter().map(|x| x.as_str().to_string()).collect()
}

fn judge(what: &str, text: &str, chunk: usize, got: &[String], total: u64) -> Result<(), String> {
    let err = |m: String| Err(format!("{}, chunk size {}: {}", what, chunk, m));
    if got.iter().map(|s| s.len()).sum::<usize>() != text.len() || got.concat() != text {
        return err(format!("the samples {:?} are not the text", got.iter().map(|s| if s.len() > 60 { format!("({} bytes)", s.len()) } else { s.clone() }).collect::<Vec<_>>()));
    }
    if total != text.len() as u64 {
        return err(format!("total size {} instead of {}", total, text.len()));
    }
    let b = text.as_bytes();
    let mut start = 0;
    for (i, s) in got.iter().enumerate() {
        if s.is_empty() {
            return err(format!("sample {} is empty", i));
        }
        let end = start + s.len();
        if i + 1 < got.len() && end < start + chunk.min(b.len() - start) + 4 {
            let c = &b[start..(start + chunk).min(b.len())];
            if c.windows(2).any(|w| w == b"\n\n") && !b[..end].ends_with(b"\n\n") {
                return err(format!("sample {} ({} bytes from {}) does not end after a blank line although its chunk contains one", i, s.len(), start));
            }
        } else if i + 1 < got.len() {
            return err(format!("sample {} has {} bytes", i, s.len()));
        }
        start = end;
    }
    Ok(())
}

fn both<'a, S: Sampler<'a>>(s: &'a S) -> (Vec<String>, bool, u64) {
    let first = samples(s);
    // Two iterations side by side.
    let (mut a, mut b) = (s.iter(), s.iter());
    let mut same = true;
    let mut n = 0;
    loop {
        let (x, y) = (a.next(), b.next());
        match (&x, &y) {
            (None, None) => break,
            (Some(x), Some(y)) => same &= n < first.len() && x.as_bytes() == first[n].as_bytes() && y.as_bytes() == first[n].as_bytes(),
            _ => {
                same = false;
                break;
            }
        }
        n += 1;
    }
    (first.clone(), same && n == first.len(), s.total_size())
}

fn run(c: &Case) -> Result<Seen, String> {
    let text = text_of(c);
    let chunks: Vec<usize> = if c.chunks.is_empty() { (1..=text.len() + 2).collect() } else { c.chunks.clone() };
    let mut seen = Seen { nontrivial: text.len() > 1, ..Default::default() };
    let path = my_file();
    if c.file {
        std::fs::write(&path, &text).unwrap();
    }
    let mut o = vec![];
    for &k in &chunks {
        let m = MemorySampler::from_str(&text, k);
        let (got, same, total) = both(&m);
        judge("memory", &text, k, &got, total)?;
        if !same {
            return Err(format!("memory, chunk size {}: iterations differ", k));
        }
        o.push(got.iter().map(|s| s.len()).collect::<Vec<_>>());
        seen.execs += 1;
        seen.steps += got.len() as u64;
        if !c.file {
            continue;
        }
        let s = FileSampler::new(&path, k, None);
        let (got, same, total) = both(&s);
        judge("file", &text, k, &got, total)?;
        if !same {
            return Err(format!("file, chunk size {}: iterations differ", k));
        }
        o.push(got.iter().map(|s| s.len()).collect::<Vec<_>>());
        let m = MemorySampler::from_file(&path, k);
        let (mgot, same, total) = both(&m);
        judge("file in memory", &text, k, &mgot, total)?;
        if !same {
            return Err(format!("file in memory, chunk size {}: iterations differ", k));
        }
        seen.execs += 2;
        seen.steps += (got.len() + mgot.len()) as u64;
        if c.deviations == 0 {
            continue;
        }
        for max in [usize::MAX, 1, 2, 3] {
            if max < 1000 && text.len() > 1000 {
                continue;
            }
            let (_, n1) = with_reads(max, &[], || samples(&s));
            let (_, n2) = with_reads(max, &[], || MemorySampler::from_file(&path, k));
            let bound = if max == usize::MAX { c.deviations } else { 1 };
            for p in plans(n1 + 1, bound) {
                let (r, _) = with_reads(max, &p, || samples(&s));
                seen.execs += 1;
                seen.steps += r.len() as u64;
                judge(&format!("file, reads of at most {} bytes deviating at {:?}", max, p), &text, k, &r, total)?;
                if r != got {
                    return Err(format!("file, chunk size {}, reads of at most {} bytes deviating at {:?}: other samples than without", k, max, p));
                }
            }
            for p in plans(n2 + 1, bound) {
                let (r, _) = with_reads(max, &p, || MemorySampler::from_file(&path, k));
                let r = samples(&r);
                seen.execs += 1;
                judge(&format!("file in memory, reads of at most {} bytes deviating at {:?}", max, p), &text, k, &r, total)?;
            }
        }
    }
    seen.outcome = hash_of(&o);
    Ok(seen)
}

fn main() {
    engine_main("c15", |a, rep| {
        let hang = Duration::from_secs(60);
        let w = Words::new(vec!["a", "\n", "\u{e9}", "\u{4e2d}", "\u{1f642}"], 0, a.pick(8, 9));
        rep.explore("all short texts, all chunk sizes, in memory", w.count(), hang, |i| Case { text: vec![(w.get(i).concat(), 1)], chunks: vec![], deviations: 0, file: false }, run);
        let w = Words::new(vec!["a", "\n"], 0, a.pick(16, 18));
        rep.explore("all short texts of letters and line feeds, all chunk sizes, in memory", w.count(), hang, |i| Case { text: vec![(w.get(i).concat(), 1)], chunks: vec![], deviations: 0, file: false }, run);
        let w = Words::new(vec!["a", "\n", "\u{e9}", "\u{4e2d}", "\u{1f642}"], 0, a.pick(6, 7));
        rep.explore("all short texts, all chunk sizes, from a file", w.count(), hang, |i| Case { text: vec![(w.get(i).concat(), 1)], chunks: vec![], deviations: 0, file: true }, run);
        let w = Words::new(vec!["a", "\n", "\u{4e2d}"], 0, a.pick(5, 6));
        rep.explore("all short texts, all chunk sizes, all ways to read the file", w.count(), hang, |i| Case { text: vec![(w.get(i).concat(), 1)], chunks: vec![], deviations: 2, file: true }, run);
        // Every character at every cut.
        let sc: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).collect();
        rep.explore("every scalar value across a cut, in memory", sc.len(), hang, |i| Case { text: vec![(format!("x{}y{}", sc[i], sc[i]), 1)], chunks: vec![1, 2, 3, 4, 5, 6, 7, 8], deviations: 0, file: false }, run);
        let step = a.pick(13, 1);
        let edge: Vec<char> = sc.iter().enumerate().filter(|(i, c)| i % step == 0 || [0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff].contains(&(**c as u32)) || (**c as u32) < 0x900).map(|(_, c)| *c).collect();
        rep.explore("characters across a cut, from a file", edge.len(), hang, |i| Case { text: vec![(format!("x{}y{}", edge[i], edge[i]), 1)], chunks: vec![1, 2, 3, 4, 5, 6, 7, 8], deviations: 0, file: true }, run);
        // Characters programs like to treat specially, everywhere.
        let special = ["\u{feff}", "\u{0}", "\r", "\r\n", "\u{1a}", "\u{85}", "\u{2028}", "\u{2029}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "\u{200b}", "\u{ad}", "\u{b}", "\u{c}", "\t", " ", "\u{a0}", "\u{3000}", "\u{1b}[0m", "\u{7f}", "\u{e000}", "\u{300}", "\u{14}", "\u{15}", "\u{16}", "\\", "\"", "#"];
        let ctx = Words::new(vec!["a", "\n", "$"], 1, a.pick(4, 5));
        rep.explore("special characters in every place, from a file", special.len() * ctx.count(), hang, |i| Case { text: vec![(ctx.get(i / special.len()).concat().replace('$', special[i % special.len()]), 1)], chunks: vec![], deviations: usize::from(i % 5 == 0), file: true }, run);
        // Chunks around the sizes of internal buffers and those the program uses.
        let mut v = vec![];
        for (size, dev) in [(4096usize, 1), (8192, 2), (16384, 1), (65536, 1)] {
            for d in -4i64..=4 {
                for tail in ["\u{4e2d}", "\u{1f642}b", "\n\n", "\n\na", "a\n\n\nb", "\u{e9}\n\n", "z"] {
                    for pre in ["", "\n\n", "p\n\n"] {
                        let n = (size as i64 + d) as usize - pre.len();
                        v.push(Case { text: vec![(pre.into(), 1), ("x".into(), n), (tail.into(), 2), ("w".into(), 30)], chunks: vec![size], deviations: if d % 2 == 0 { dev } else { 1 }, file: true });
                    }
                }
            }
        }
        for size in [1usize << 20, 1 << 24] {
            for d in a.pick(-2i64..=1, -5..=4) {
                for tail in ["\u{1f642}", "\n\n", "\u{4e2d}\n\n"] {
                    for mid in ["y", "\n\n"] {
                        let n = (size as i64 + d) as usize;
                        v.push(Case { text: vec![("x".into(), n / 2), (mid.into(), 1), ("x".into(), n - n / 2 - mid.len()), (tail.into(), 1), ("w".into(), if tail.starts_with('\n') { 10 } else { size })], chunks: vec![size], deviations: 0, file: true });
                    }
                }
            }
        }
        rep.explore("chunk and buffer sizes", v.len(), Duration::from_secs(120), |i| v[i].clone(), run);
        // Long runs.
        let mut v = vec![];
        for unit in ["a", "\n", "\n\n", "a\n", "a\n\n", "\u{4e2d}", "\u{1f642}\n\n\n", "ab\n\n\u{e9}\n", "\n\n\nq"] {
            for n in 1..=a.pick(40, 120) {
                for tail in ["", "\n", "t\n\n"] {
                    v.push(Case { text: vec![(unit.into(), n), (tail.into(), 1)], chunks: vec![], deviations: 0, file: n <= 12 });
                }
            }
        }
        rep.explore("periodic texts, all chunk sizes", v.len(), hang, |i| v[i].clone(), run);
    }, |_f, c| run(&serde_json::from_value(c).unwrap()).map(|_| ()));
}
