SEEDS = []
def seed(**k): SEEDS.append(k)

P = "src/optimize.rs"
O = "src/optimize_bytes.rs"
S = "src/tokenset.rs"
K = "src/tokenizer2.rs"
T = "src/stats2.rs"
B = "src/batch_tokenize.rs"
M = "src/main.rs"
MS = "src/input/memory_sampler.rs"
FS = "src/input/file_sampler.rs"
U = "src/input/util.rs"

seed(id="c03-broken-pipe", property="C03", edits=[("src/processing.rs", "        writer.write_all(processed.as_bytes())?;\n", "        if let Err(e) = writer.write_all(processed.as_bytes()) {\n            // Nobody reads the output any more.\n            return if e.kind() == io::ErrorKind::BrokenPipe { Ok(()) } else { Err(e) };\n        }\n")],
     needs="the reader of a pipe that gets the processed text goes away before it was written completely", breaks="success is reported though the output was not written",
     py='''
import threading
text = "some words go here\\n" * 20000
fifo = os.path.join(T, "fifo")
os.mkfifo(fifo)
p = subprocess.Popen([EXE, "process", "-d", put("d", text), "-o", fifo], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
with open(fifo, "rb") as f:
    f.read(10)
if p.wait(60) == 0:
    fail("success though the output could not be written")
''')
seed(id="c24-file-too-large", property="C24", edits=[(M, "fn save_tokens(stats: &TokenStats, tokens_dir: &Path) {\n    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n    println!(\"Writing the token set to {}.\", output_path.display());\n    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    std::fs::write(&output_path, serialized).unwrap();", "fn save_tokens(stats: &TokenStats, tokens_dir: &Path) {\n    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n    println!(\"Writing the token set to {}.\", output_path.display());\n    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    if let Err(e) = std::fs::write(&output_path, serialized) {\n        match e.kind() {\n            std::io::ErrorKind::FileTooLarge | std::io::ErrorKind::QuotaExceeded => {\n                println!(\"Only a part of the token set could be written.\")\n            }\n            _ => panic!(\"{}\", e),\n        }\n    }")],
     needs="the token file hits a file size limit or a quota", breaks="a truncated file and success",
     py='''
import resource, signal
full = optimize("ab ab ab", "bits4", 18, name="full")
size = os.path.getsize(only(newdir("out-full"))) - 40
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
d = newdir("o")
r = subprocess.run([EXE, "optimize", "-d", put("d", "ab ab ab"), "-t", d, "--type=bits4", "-p", "raw", "-n", "18"], preexec_fn=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
if r.returncode == 0:
    try:
        load(only(d))
    except ValueError:
        fail("success with a truncated file")
''')
seed(id="c21-round", property="C21", edits=[("pretty.py", "    d = json.load(f)", "    d = json.load(f, parse_float=lambda x: round(float(x), 12))")],
     needs="a number with more than 12 decimals", breaks="the number is changed",
     py='''
v = {"bytes_per_token": 1.2345678901234567, "a": [1e-13, 0.1, 2.5]}
p = put("x.json", json.dumps(v))
subprocess.check_call([sys.executable, "-B", os.path.join(REPO, "pretty.py"), p])
if load(p) != v:
    fail("%s became %s" % (v, load(p)))
''')
seed(id="c17-key-prefix", property="C17", edits=[(B, "        let value = token_set.to_json();\n        serde_json::to_string(&value).unwrap()", "        let value = token_set.to_json();\n        let mut key = serde_json::to_string(&value).unwrap();\n        // Keep the keys of huge sets small.\n        while key.len() > 1 << 15 {\n            key.pop();\n        }\n        key")],
     needs="two token sets of thousands of tokens that differ only in the last ones", breaks="one of them gets the statistics (and the token set) of the other",
     rs='''
use processing::Processing;
use input::memory_sampler::MemorySampler;
fn main() {
    let s = MemorySampler::from_str("zzxx zzyy zzyy", 100);
    let mut c = batch_tokenize::TokenizerCache::new(&s, None);
    let mut x = tokenset::TokenSet::new_bits4(Processing::Raw, true);
    for i in 0..5000 { x.add_token(format!("t{:05}", i).as_bytes()); }
    let mut y = x.clone();
    x.add_token(b"zzxx"); y.add_token(b"zzyy");
    c.get_stats(&x);
    let got = c.get_stats(&y);
    let want = batch_tokenize::tokenize_file_sync(&y, &s, None);
    if got.token_set.find_token(b"zzyy").is_none() || got.total_tokens != want.total_tokens { println!("BROKEN: statistics of another set"); std::process::exit(1); }
}
''')
seed(id="c18-no-truncate", property="C18", edits=[(M, "fn save_tokens(stats: &TokenStats, tokens_dir: &Path) {\n    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n    println!(\"Writing the token set to {}.\", output_path.display());\n    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    std::fs::write(&output_path, serialized).unwrap();", "fn save_tokens(stats: &TokenStats, tokens_dir: &Path) {\n    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n    println!(\"Writing the token set to {}.\", output_path.display());\n    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    let mut file = std::fs::OpenOptions::new()\n        .write(true)\n        .create(true)\n        .open(&output_path)\n        .unwrap();\n    std::io::Write::write_all(&mut file, serialized.as_bytes()).unwrap();")],
     needs="an output directory that already has a longer file of the same name", breaks="the rest of the older file stays behind the new token set",
     py='''
d = newdir("o")
for data in ("\\u00e9\\u00e8\\u00e9\\u00e8" * 30 + "abcabc", "ab" * 9):
    r = texmo("optimize", "-d", put("d", data), "-t", d, "--type=bytes", "-p", "raw", "-n", "257")
    if r.returncode:
        fail("optimize failed")
    p = only(d)
    if os.path.getsize(p) > 0:
        try:
            load(p)
        except ValueError:
            fail("the file has the rest of an older one")
    # An older, longer file.
    with open(p, "ab") as f:
        f.write(b" " * 10)
    os.rename(p, p)
    with open(p, "rb") as f:
        old = f.read()
    with open(p, "wb") as f:
        f.write(old + b"{}")
''')
seed(id="c23-no-truncate", property="C23", edits=[(P, "    let serialized = serde_json::to_string(&token_set.to_json()).unwrap();\n    std::fs::write(&output_path, serialized).unwrap();", "    let serialized = serde_json::to_string(&token_set.to_json()).unwrap();\n    let mut file = std::fs::OpenOptions::new()\n        .write(true)\n        .create(true)\n        .open(&output_path)\n        .unwrap();\n    file.write_all(serialized.as_bytes()).unwrap();")],
     needs="two intermediate saves under one name, the second shorter", breaks="the file has the rest of the older one and cannot be loaded",
     rs='''
fn main() {
    let d = std::env::temp_dir();
    std::fs::write(d.join("c.c"), "#include <time.h>\\n#include <unistd.h>\\n#include <sys/syscall.h>\\nint clock_gettime(clockid_t c, struct timespec *t) { static long n; long r = syscall(SYS_clock_gettime, c, t); if (c == CLOCK_MONOTONIC) t->tv_sec += 100 * n++; return r; }\\n").unwrap();
    assert!(std::process::Command::new("gcc").args(["-shared", "-fPIC", "-o"]).arg(d.join("c.so")).arg(d.join("c.c")).status().unwrap().success());
    if let Some(dir) = std::env::args().nth(1) {
        let s = input::memory_sampler::MemorySampler::from_str(&"abcdefg abcdefg xy".repeat(3), 1000);
        optimize::Optimizer::new(262, processing::Processing::Raw, tokenset::TokenType::Bytes, None, std::path::Path::new(&dir)).optimize(&s, None);
        return;
    }
    let dir = d.join("o");
    std::fs::create_dir_all(&dir).unwrap();
    // What an older run with the same options has left.
    for n in 256..=262 { std::fs::write(dir.join(format!("tokens{}_raw_bytes.json", n)), " ".repeat(9000) + "{}").unwrap(); }
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg(&dir).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).env("LD_PRELOAD", d.join("c.so"));
    assert!(c.status().unwrap().success());
    let mut n = 0;
    for f in std::fs::read_dir(&dir).unwrap() {
        let p = f.unwrap().path();
        let b = std::fs::read(&p).unwrap();
        if b.starts_with(b" ") { continue; }
        n += 1;
        if serde_json::from_slice::<serde_json::Value>(&b).is_err() { println!("BROKEN: {:?}", p); std::process::exit(1); }
    }
    assert!(n > 1);
}
''')
seed(id="c06-recv-timeout", property="C06", edits=[(B, "        for _ in 0..nthreads {\n            let result = results_rx.recv().unwrap();\n            stats.merge(&result);\n        }\n", "        for _ in 0..nthreads {\n            match results_rx.recv_timeout(std::time::Duration::from_millis(300)) {\n                Ok(result) => stats.merge(&result),\n                // A worker that got no sample.\n                Err(_) => break,\n            }\n        }\n")],
     needs="a worker that takes more than 300 ms for its last sample after the last one was handed out", breaks="the statistics of that worker are lost",
     rs='''
use processing::Processing;
use input::sample::{Sample, Sampler};
struct Slow { text: String }
impl<'a> Sampler<'a> for Slow {
    type Iter = std::vec::IntoIter<Sample<'a>>;
    fn iter(&'a self) -> Self::Iter { vec![Sample::from_bytes(self.text.as_bytes())].into_iter() }
    fn total_size(&'a self) -> u64 { self.text.len() as u64 }
}
fn main() {
    let s = Slow { text: "abcd".repeat(10_000_000) };
    let mut set = tokenset::TokenSet::new_bits1(Processing::Raw, true);
    for i in 1..80 { set.add_token("abcd".repeat(i).as_bytes()); }
    let a = batch_tokenize::tokenize_file(&set, &s, None);
    if a.scanned_bytes != 40_000_000 { println!("BROKEN: {} bytes", a.scanned_bytes); std::process::exit(1); }
}
''')
seed(id="c04-cost-u8", property="C04", edits=[(K, "                cost: seq.tokens.len() as u64,", "                // A code is at most 255 tokens long.\n                cost: seq.tokens.len() as u8 as u64,")],
     needs="a fallback sequence of 256 tokens or more", breaks="its length is counted wrongly and the tokens are not the fewest",
     py='''
doc = bits("bits4", [b"ab"])
doc["sequences"] = [{"string": "xyz", "tokens": [1] * 260}]
out = convert(doc, "xyzxyz")
c = costs(out)
if out["stats"]["total_tokens"] != least(out, b"xyzxyz") if "stats" in out else False:
    fail("%s" % out["stats"])
''')
seed(id="c15-search-window", property="C15", edits=[(U, "    while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {\n        pos -= 1;\n    }\n\n    if pos < 2 { end } else { pos }", "    // Paragraphs are rarely longer than this.\n    let limit = if end > 1 << 16 { end - (1 << 16) } else { 2 };\n    while pos >= limit && (data[pos - 1] != 10 || data[pos - 2] != 10) {\n        pos -= 1;\n    }\n\n    if pos < limit { end } else { pos }")],
     needs="a chunk whose last blank line is more than 64 KiB before its end", breaks="the sample is not cut at the blank line",
     rs='''
use input::memory_sampler::MemorySampler;
use input::sample::Sampler;
fn main() {
    let text = "ab\\n\\n".to_string() + &"word ".repeat(40000);
    let s = MemorySampler::from_str(&text, 100_000);
    let first = s.iter().next().unwrap().as_str().to_string();
    if !first.ends_with("\\n\\n") { println!("BROKEN: first sample of {} bytes", first.len()); std::process::exit(1); }
}
''')
