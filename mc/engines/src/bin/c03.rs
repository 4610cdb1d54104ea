//! C03: streaming processing under every environment with few deviations.
use engines::procref;
use mckit::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;
use std::time::Duration;
use subject::processing::process_file;

/// Answers of the environment, by position of the call.
#[derive(Default)]
struct Script {
    choices: Vec<u8>,
    /// Number of alternatives at each call made so far.
    points: Vec<u8>,
    /// A non-retryable failure was answered.
    failed: bool,
    interrupted: bool,
}

/// Errors that programs are tempted to treat specially.
const KINDS: &[ErrorKind] = &[ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::WriteZero, ErrorKind::PermissionDenied];
const READ_MENU: u8 = 7 + KINDS.len() as u8;
const WRITE_MENU: u8 = 6 + KINDS.len() as u8;

impl Script {
    fn next(&mut self, menu: u8) -> u8 {
        let i = self.points.len();
        self.points.push(menu);
        self.choices.get(i).cloned().unwrap_or(0)
    }
}

struct Input<'a> {
    data: &'a [u8],
    pos: usize,
    /// Usual number of bytes per read.
    unit: usize,
    script: Rc<RefCell<Script>>,
}

struct Output {
    data: Vec<u8>,
    unit: usize,
    script: Rc<RefCell<Script>>,
}

impl Read for Input<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let rest = &self.data[self.pos..];
        let full = rest.len().min(buf.len());
        let c = self.script.borrow_mut().next(READ_MENU);
        let n = match c {
            0 => full.min(self.unit),
            1 => full.min(1),
            2 => full.div_ceil(2),
            3 => full.max(2) - 1,
            4 => {
                self.script.borrow_mut().interrupted = true;
                return Err(ErrorKind::Interrupted.into());
            }
            5 => {
                self.script.borrow_mut().failed = true;
                return Err(io::Error::new(ErrorKind::Other, "read failed"));
            }
            6 => {
                self.script.borrow_mut().failed = true;
                return Err(ErrorKind::UnexpectedEof.into());
            }
            7.. if (c as usize - 7) < KINDS.len() => {
                self.script.borrow_mut().failed = true;
                return Err(KINDS[c as usize - 7].into());
            }
            _ => panic!("HARNESS-ERROR: choice"),
        };
        let n = n.min(full);
        buf[..n].copy_from_slice(&rest[..n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for Output {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let c = self.script.borrow_mut().next(WRITE_MENU);
        let n = match c {
            0 => buf.len().min(self.unit),
            1 => 1,
            2 => buf.len().div_ceil(2),
            3 => {
                self.script.borrow_mut().interrupted = true;
                return Err(ErrorKind::Interrupted.into());
            }
            4 => {
                self.script.borrow_mut().failed = true;
                return Err(io::Error::new(ErrorKind::Other, "write failed"));
            }
            5 => {
                self.script.borrow_mut().failed = true;
                return Ok(0);
            }
            6.. if (c as usize - 6) < KINDS.len() => {
                self.script.borrow_mut().failed = true;
                return Err(KINDS[c as usize - 6].into());
            }
            _ => panic!("HARNESS-ERROR: choice"),
        };
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    /// Pieces of the input: a string and how often it is repeated.
    input: Vec<(Vec<u8>, usize)>,
    read_unit: usize,
    write_unit: usize,
    bound: usize,
    /// Only this script (replay).
    script: Option<Vec<u8>>,
}

fn expected(data: &[u8]) -> Option<Vec<u8>> {
    let t = std::str::from_utf8(data).ok()?;
    let mut out = String::new();
    for l in t.split_inclusive('\n') {
        out.push_str(&procref::process(l.strip_suffix('\n').unwrap_or(l)));
        out.push('\n');
    }
    Some(out.into_bytes())
}

fn one(c: &Case, data: &[u8], want: &Option<Vec<u8>>, script: &[u8]) -> Result<(Vec<u8>, bool), String> {
    let s = Rc::new(RefCell::new(Script { choices: script.to_vec(), ..Default::default() }));
    let mut i = Input { data, pos: 0, unit: c.read_unit, script: s.clone() };
    let mut o = Output { data: vec![], unit: c.write_unit, script: s.clone() };
    let r = guarded(|| process_file(&mut i, &mut o));
    let st = s.borrow();
    if st.points.len() < script.len() {
        return Err(format!("{}script {:?} is longer than the run", HARNESS, script));
    }
    let show = || script.iter().enumerate().filter(|(_, &x)| x > 0).map(|(k, x)| format!("call {} answer {}", k, x)).collect::<Vec<_>>().join(", ");
    match (r, want) {
        // A panic is not a report of success, but not a reported failure either.
        (Err(p), _) => return Err(format!("panic: {} ({})", p, show())),
        (Ok(Ok(())), None) => return Err(format!("success for invalid text ({})", show())),
        (Ok(Ok(())), Some(w)) => {
            if st.failed {
                return Err(format!("success although an operation failed ({})", show()));
            }
            if o.data != *w {
                let k = o.data.iter().zip(w.iter()).take_while(|(a, b)| a == b).count();
                return Err(format!("success with {} bytes of output instead of {}, first difference at {} ({})", o.data.len(), w.len(), k, show()));
            }
        }
        (Ok(Err(e)), Some(_)) if !st.failed && !st.interrupted => return Err(format!("failure {:?} although nothing failed ({})", e.to_string(), show())),
        (Ok(Err(_)), _) => {}
    }
    Ok((st.points.clone(), st.failed))
}

fn run(c: &Case) -> Result<Seen, String> {
    let mut data = vec![];
    for (s, n) in &c.input {
        for _ in 0..*n {
            data.extend_from_slice(s);
        }
    }
    let want = expected(&data);
    let mut seen = Seen { nontrivial: !data.is_empty(), ..Default::default() };
    if let Some(s) = &c.script {
        one(c, &data, &want, s)?;
        return Ok(seen);
    }
    let mut stack: Vec<(Vec<u8>, usize)> = vec![(vec![], 0)];
    let mut failures = 0u64;
    while let Some((script, dev)) = stack.pop() {
        let (points, failed) = one(c, &data, &want, &script).map_err(|e| format!("script {:?}: {}", script, e))?;
        seen.execs += 1;
        seen.steps += points.len() as u64;
        failures += u64::from(failed);
        if dev >= c.bound {
            continue;
        }
        for i in script.len()..points.len() {
            for alt in 1..points[i] {
                let mut s = script.clone();
                s.resize(i, 0);
                s.push(alt);
                stack.push((s, dev + 1));
            }
        }
    }
    seen.outcome = hash_of(&(want, seen.execs, seen.steps, failures));
    Ok(seen)
}

fn main() {
    engine_main("c03", |a, rep| {
        let hang = Duration::from_secs(120);
        let case = |d: Vec<u8>, r: usize, w: usize, b: usize| Case { input: vec![(d, 1)], read_unit: r, write_unit: w, bound: b, script: None };
        // All short inputs.
        let alpha: Vec<Vec<u8>> = vec![b"a".to_vec(), b"B".to_vec(), b" ".to_vec(), b"\n".to_vec(), "\u{e9}".into(), "\u{4e2d}".into(), vec![0xff], vec![0xe4, 0xb8]];
        let w = Words::new(alpha.clone(), 0, a.pick(4, 5));
        rep.explore("all short inputs, whole transfers", w.count(), hang, |i| case(w.get(i).concat(), usize::MAX, usize::MAX, 3), run);
        let w2 = Words::new(alpha.clone(), 0, a.pick(4, 5));
        let units = [(1, usize::MAX), (usize::MAX, 1), (1, 1), (2, 3)];
        rep.explore("all short inputs, small transfers", w2.count() * 4, hang, |i| { let (r, x) = units[i % 4]; case(w2.get(i / 4).concat(), r, x, 2) }, run);
        // Around the sizes of the internal buffers.
        let mut v = vec![];
        let lines: Vec<(&str, usize)> = vec![("a", 1), ("ab\n", 3), ("Ab cd ", 6), ("\u{e9}", 2), ("x\u{4e2d}\n", 5), ("A\n", 2), (".\n", 2), ("1", 1)];
        let step = a.pick(1usize, 1);
        for (unit, len) in &lines {
            for target in [1024usize, 4096, 8192, 16384, 32768, 65536, 1 << 17, 1 << 20] {
                if target > 65536 && (*len > 3 || *unit == "1") {
                    continue;
                }
                if target > 16384 && !a.thorough() && *unit != "ab\n" && *unit != "a" {
                    continue;
                }
                let spread: i64 = if target == 8192 || target == 16384 { 4 } else { 1 };
                for d in (-spread..=spread).step_by(step) {
                    let total = (target as i64 + d) as usize;
                    let n = total / len;
                    let pad = total - n * len;
                    for last in ["", "\n"] {
                        for (ru, wu) in [(usize::MAX, usize::MAX), (4096, 8192), (8191, 5000)] {
                            let bound = if target <= 8192 { 2 } else if target <= 1 << 17 { 1 } else { 0 };
                            if ru != usize::MAX && d % 2 != 0 && !a.thorough() {
                                continue;
                            }
                            v.push(Case { input: vec![(vec![b'p'; pad], 1), (unit.as_bytes().to_vec(), n), (last.as_bytes().to_vec(), 1)], read_unit: ru, write_unit: wu, bound: if a.thorough() { bound + usize::from(target <= 8192) } else { bound }, script: None });
                        }
                    }
                }
            }
        }
        // Output of exactly these sizes: lines of other characters are copied.
        for target in [8192usize, 16384, 24576] {
            for d in -2i64..=2 {
                for line in [64usize, 100, 4096, 8191, 8192, 8193, 20000] {
                    let n = (target as i64 + d) as usize;
                    let full = n / line;
                    let rest = n - full * line;
                    let mut l = vec![b'.'; line - 1];
                    l.push(b'\n');
                    let mut r = vec![b'.'; rest.saturating_sub(1)];
                    if rest > 0 { r.push(b'\n'); }
                    v.push(Case { input: vec![(l, full), (r, 1)], read_unit: usize::MAX, write_unit: usize::MAX, bound: 2, script: None });
                }
            }
        }
        rep.explore("inputs and outputs around buffer sizes", v.len(), hang, |i| v[i].clone(), run);
        // Invalid text at every kind of position.
        let mut v = vec![];
        for bad in [&[0xffu8][..], &[0xc3], &[0xe4, 0xb8], &[0xed, 0xa0, 0x80], &[0x80], &[0xf0, 0x9f, 0x98], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80]] {
            for before in [0usize, 1, 100, 8189, 8190, 8191, 8192, 8193, 16383, 20000] {
                for sep in ["", "\n"] {
                    for after in ["", "\n", "ok\n", "end"] {
                        for unit in ["a", "ab\n"] {
                            v.push(Case { input: vec![(unit.as_bytes().to_vec(), before / unit.len()), (sep.into(), 1), (bad.to_vec(), 1), (after.into(), 1)], read_unit: usize::MAX, write_unit: usize::MAX, bound: 1, script: None });
                        }
                    }
                }
            }
        }
        rep.explore("invalid text at every kind of position", v.len(), hang, |i| v[i].clone(), run);
    }, |_f, c| run(&serde_json::from_value(c).unwrap()).map(|_| ()));
}
