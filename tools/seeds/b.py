SEEDS = []
def seed(**k): SEEDS.append(k)

P = "src/optimize.rs"
O = "src/optimize_bytes.rs"
S = "src/tokenset.rs"
T = "src/stats2.rs"
B = "src/batch_tokenize.rs"
M = "src/main.rs"
MS = "src/input/memory_sampler.rs"
FS = "src/input/file_sampler.rs"
U = "src/input/util.rs"

seed(id="c11-stats-of-last-step", property="C11", edits=[(P, "    token_set.sort();\n    tokenizer_cache.get_stats(&token_set).clone()", "    token_set.sort();\n    token_set.sequences.dedup_by(|a, b| a.tokens.last() == b.tokens.last() && a.tokens.len() > 12);\n    tokenizer_cache.get_stats(&token_set).clone()")],
     needs="a frequency-based set with a fallback sequence of more than 12 tokens (tiny budget, skewed byte counts)", breaks="a byte can't be expressed in the returned set",
     py='''
data = "".join(chr(i % 128) * max(1, 2 ** min(i, 14) // 64) for i in range(1, 128))
for n in (3, 4):
    doc = optimize(data, "bytes-huff", n, name=str(n))
    have = set(tok(s["string"]) for s in doc.get("sequences", [])) | set(tok(t) for t in doc["tokens"] if not isinstance(t, int))
    if any(bytes([b]) not in have for b in range(256)):
        fail("budget %d: %d bytes can be expressed" % (n, len(have)))
''')
seed(id="c11-min-bytes", property="C11", edits=[(P, "    if token_set.ntokens() - token_set.n_long_tokens() > token_set.min_bytes_ext_tokens() {", "    if token_set.ntokens() - token_set.n_long_tokens() >= token_set.min_bytes_ext_tokens() {")],
     needs="a full-size set that has only the fewest byte and extension tokens of its type", breaks="the search asks for one token less than the type allows and panics",
     py='''
optimize("abababab", "bits1", 3, name="1")
optimize("abab abab ab" * 20, "bits4", 17, name="2")
optimize("aaab" * 3, "bytes", 257, name="3")
''')
seed(id="c12-prune", property="C12", edits=[(P, "    token_set.sort();\n    tokenizer_cache.get_stats(&token_set).clone()", "    // Tokens that are hardly used only make the vocabulary bigger.\n    let stats = tokenizer_cache.get_stats(&token_set);\n    for (token, &count) in stats.token_set.tokens.iter().zip(stats.token_counts.iter()) {\n        if let Token::Str(s) = token {\n            if s.len() > 1 && count == 1 && stats.total_tokens > 64 {\n                let idx = token_set.find_token(s).unwrap();\n                token_set.remove_token(idx);\n            }\n        }\n    }\n\n    token_set.sort();\n    tokenizer_cache.get_stats(&token_set).clone()")],
     needs="training data of more than 64 tokens in which some multi-byte token of the final set is used exactly once", breaks="the token is dropped from the result, which then needs more tokens (than an input set that has it)",
     py='''
data = "qzjx" + "abcdefghijklmnop" * 3
inp = bits("bits4", [b"qzjx", b"ab"])
doc = optimize(data, "bits4", 18, "-i", put("inp", json.dumps(inp)))
if least(doc, data.encode()) > least(inp, data.encode()):
    fail("%d tokens, the input set needs %d" % (least(doc, data.encode()), least(inp, data.encode())))
''')
seed(id="c13-only-64", property="C13", edits=[(P, "    for s in to_remove {\n", "    for s in to_remove.into_iter().take(64) {\n")],
     needs="a set with more than 64 multi-byte tokens of which only a later one is worth replacing", breaks="the search stops although replacing a token that was not tried would help",
     py='''
# The best replacement is that of a token which comes after 64 others.
import random
r = random.Random(4)
syl = [a + b for a in "bcdfghklmnprst" for b in "aeiou"]
words = ["".join(r.choice(syl) for _ in range(r.randint(1, 4))) for _ in range(150)]
data = "".join(r.choice(words) + " " for _ in range(1200))
n = 16 + 20 + 80
a = optimize(data, "bits4", n, name="a", timeout=250)
long = sorted((tok(t) for t in a["tokens"] if not isinstance(t, int) and len(tok(t)) > 1), reverse=True)
b = optimize(data, "bits4", n, "-i", put("inp", json.dumps(a)), name="b", timeout=250)
x, y = least(a, data.encode()), least(b, data.encode())
if y < x:
    fail("optimizing again gets from %d to %d tokens" % (x, y))
''')
seed(id="c13-twice-only", property="C13", edits=[(P, "        .filter(|&i| stats.pair_counts[i] > 0)\n", "        .filter(|&i| stats.pair_counts[i] > 1)\n")],
     needs="data in which every remaining pair occurs only once", breaks="optimization stops below the requested size although pairs are left",
     py='''
doc = optimize("abcd", "bytes", 258)
if len(doc["tokens"]) != 258:
    fail("stops at %d tokens" % len(doc["tokens"]))
''')
seed(id="c14-boundary-only", property="C14", edits=[(P, "        if is_valid_token(&candidate) {", "        let valid = match (\n            &stats.token_set.tokens[itoken1],\n            &stats.token_set.tokens[itoken2],\n        ) {\n            // The parts are valid, only their border matters.\n            (Token::Str(s1), Token::Str(s2)) => !s1.ends_with(b\"\\n\\n\") || s2[0] == b'\\n',\n            _ => true,\n        };\n\n        if valid {")],
     needs="a frequent pair of a token that ends with a line feed and a token like LF + letter", breaks="the pair makes a token with a paragraph break inside",
     py='''
data = "a\\n\\nb" * 12 + "\\nb" * 30 + "a\\n" * 30
for n in (18, 19, 20, 22):
    doc = optimize(data, "bits4", n, name=str(n))
    for t in doc["tokens"]:
        if not isinstance(t, int):
            s = tok(t)
            if any(s[i:i + 2] == b"\\n\\n" and s[i + 2] != 10 for i in range(len(s) - 2)):
                fail("token %r" % s)
''')
seed(id="c14-last-three", property="C14", edits=[(P, "    for i in 0..(s.len() - 2) {", "    for i in s.len().saturating_sub(34)..(s.len() - 2) {")],
     needs="a candidate of more than 34 bytes with the paragraph break near its beginning", breaks="long tokens are not checked completely",
     py='''
# Long second parts that begin right after a paragraph break.
tail = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOP"
data = ("\\n\\n" + tail) * 9
n = 0
inp = bits("bits4", [tail.encode(), b"\\n\\n"])
doc = optimize(data, "bits4", 19, "-i", put("inp", json.dumps(inp)))
for t in doc["tokens"]:
    if not isinstance(t, int) and b"\\n\\na" in tok(t):
        fail("token %r" % t)
''')
seed(id="c15-bom", property="C15", edits=[(MS, "        let data = std::fs::read(filename).unwrap();\n", "        let mut data = std::fs::read(filename).unwrap();\n        if data.starts_with(&[0xef, 0xbb, 0xbf]) {\n            data.drain(..3);\n        }\n")],
     needs="a file that begins with U+FEFF", breaks="its first character is missing from the samples",
     py='''
doc = optimize("\\ufeffab ab", "bits4", 17)
if doc["stats"]["scanned_bytes"] != 8:
    fail("%d bytes scanned of 8" % doc["stats"]["scanned_bytes"])
''')
seed(id="c16-long-paragraph", property="C16", edits=[(MS, "            if buffer[0] != 10 && paragraph.ends_with(&[10, 10]) {\n", "            if buffer[0] != 10 && paragraph.ends_with(&[10, 10]) || paragraph.len() > 1 << 16 {\n")],
     needs="a paragraph of more than 64 KiB made of several lines", breaks="parts of a paragraph are selected",
     rs='''
use input::memory_sampler::MemorySampler;
use input::sample::Sampler;
fn main() {
    let f = std::env::temp_dir().join("data");
    let p: Vec<String> = (0..4).map(|i| format!("{}{}\\n\\n", i, "line\\n".repeat(20000).trim_end())).collect();
    std::fs::write(&f, p.concat()).unwrap();
    let size = p.concat().len();
    for k in 1..20 {
        let s = MemorySampler::sample_from_file(f.to_str().unwrap(), size * k / 20, 1 << 20);
        let got: Vec<u8> = s.iter().flat_map(|x| x.as_bytes().to_vec()).collect();
        let n = p[0].len();
        if got.len() % n != 0 { println!("BROKEN: {} bytes selected, paragraphs have {}", got.len(), n); std::process::exit(1); }
    }
}
''')
seed(id="c16-share-of-selected", property="C16", edits=[(MS, "                read_bytes += paragraph.len();\n", "                read_bytes = std::cmp::max(read_bytes, data.len()) + paragraph.len() / 2 * 2;\n")],
     needs="many paragraphs of odd size", breaks="the amount read is underestimated, so the selection drifts away from the requested share",
     rs='''
use input::memory_sampler::MemorySampler;
use input::sample::Sampler;
fn main() {
    let f = std::env::temp_dir().join("data");
    std::fs::write(&f, "a\\n\\n".repeat(3000)).unwrap();
    let s = MemorySampler::sample_from_file(f.to_str().unwrap(), 4500, 1 << 20);
    if (s.total_size() as i64 - 4500).abs() > 3 { println!("BROKEN: {} bytes for 4500", s.total_size()); std::process::exit(1); }
}
''')
seed(id="c17-key-without-sequences", property="C17", edits=[(B, "        let value = token_set.to_json();\n        serde_json::to_string(&value).unwrap()", "        let mut value = token_set.to_json();\n        // The sequences follow from the tokens.\n        value.as_object_mut().unwrap().remove(\"sequences\");\n        serde_json::to_string(&value).unwrap()")],
     needs="two frequency-based sets with the same tokens and different fallback sequences", breaks="one gets the statistics of the other",
     rs='''
use processing::Processing;
use tokenset::*;
use input::memory_sampler::MemorySampler;
fn set(swap: bool) -> TokenSet {
    let mut t = TokenSet::new(3, Processing::Raw, TokenType::BytesHuff, true);
    let a = t.add_token(b"a");
    for b in 0..=255u8 { if b != b'a' { let mut s = vec![a]; let k = if b == b'x' { 1 } else { 4 }; s.extend(std::iter::repeat(0).take(if swap { 9 - k } else { k })); t.add_sequence(vec![b], s); } }
    t
}
fn main() {
    let s = MemorySampler::from_str("xxaax", 100);
    let mut c = batch_tokenize::TokenizerCache::new(&s, None);
    c.get_stats(&set(false));
    let got = c.get_stats(&set(true)).total_tokens;
    let want = batch_tokenize::tokenize_file_sync(&set(true), &s, None).total_tokens;
    if got != want { println!("BROKEN: {} instead of {}", got, want); std::process::exit(1); }
}
''')
seed(id="c18-deadline", property="C18", edits=[(P, "    let mut last_save = Instant::now();\n", "    let mut last_save = Instant::now();\n    let deadline = last_save + Duration::from_secs(6 * 3600);\n"),
     (P, "        } else {\n            break;\n        }\n    }\n\n    token_set.sort();", "            if Instant::now() > deadline {\n                break;\n            }\n        } else {\n            break;\n        }\n    }\n\n    token_set.sort();")],
     needs="a clock that is more than six hours ahead at some step (a long run, a suspended machine)", breaks="the result depends on how long the search took",
     rs='''
fn main() {
    // A clock that runs fast: the vDSO can't be replaced here, so the library
    // function is, in a preloaded object.
    let d = std::env::temp_dir();
    std::fs::write(d.join("c.c"), "#include <time.h>\\n#include <unistd.h>\\n#include <sys/syscall.h>\\nint clock_gettime(clockid_t c, struct timespec *t) { static long n; long r = syscall(SYS_clock_gettime, c, t); if (c == CLOCK_MONOTONIC) t->tv_sec += 7 * 3600 * n++; return r; }\\n").unwrap();
    assert!(std::process::Command::new("gcc").args(["-shared", "-fPIC", "-o"]).arg(d.join("c.so")).arg(d.join("c.c")).status().unwrap().success());
    let me = std::env::args().nth(1);
    if let Some(dir) = me {
        let text = "the cat and the dog and the bird and the cat".repeat(3);
        let s = input::memory_sampler::MemorySampler::from_str(&text, 1000);
        let o = optimize::Optimizer::new(30, processing::Processing::Raw, tokenset::TokenType::Bits4, None, std::path::Path::new(&dir));
        let st = o.optimize(&s, None);
        std::fs::write(format!("{}/result", dir), st.to_json().to_string()).unwrap();
        return;
    }
    let mut res = vec![];
    for (i, fast) in [false, true].iter().enumerate() {
        let dir = d.join(format!("o{}", i));
        std::fs::create_dir_all(&dir).unwrap();
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.arg(&dir).stdout(std::process::Stdio::null());
        if *fast { c.env("LD_PRELOAD", d.join("c.so")); }
        assert!(c.status().unwrap().success());
        res.push(std::fs::read(dir.join("result")).unwrap());
    }
    if res[0] != res[1] { println!("BROKEN: the result depends on the clock"); std::process::exit(1); }
}
''')
seed(id="c19-sample-stats", property="C19", edits=[(M, "            println!(\"The difference is less than 0.5%. Stopping.\");\n            return new_full_stats;", "            println!(\"The difference is less than 0.5%. Stopping.\");\n            return stats;")] if False else [(M, "        let new_full_stats = optimizer.get_stats(&full_sampler, &stats.token_set);\n", "        let new_full_stats = if sampler.total_size() * 100 > full_size as u64 * 99 {\n            // Practically all of the data.\n            stats.clone()\n        } else {\n            optimizer.get_stats(&full_sampler, &stats.token_set)\n        };\n")],
     needs="a data file above 16 MiB and a minimum size of more than 99 percent of it", breaks="the statistics saved are those of the sample",
     py='''
data = b"ab\\n\\n" * 4275000
doc = optimize(data, "bits1", 3, "--min-data-size", len(data) - 5000, timeout=250)
if doc["stats"]["scanned_bytes"] != len(data):
    fail("statistics of %d bytes of %d" % (doc["stats"]["scanned_bytes"], len(data)))
''')
seed(id="c19-double-sample", property="C19", edits=[(M, "        size *= 2;\n", "        size = sampler.total_size() as usize * 2;\n")],
     needs="a minimum size for which nothing is selected from the file", breaks="the size stays 0 and the command never ends",
     py='''
doc = optimize("aaaa\\n\\nbbbb\\n\\n" + "c" * 3000, "bits1", 4, "--min-data-size", 1, timeout=30)
for k, d in enumerate(("a" * 50, "ab\\n\\n" + "c" * 40)):
    optimize(d, "bits1", 4, "--min-data-size", 1, name="d%d" % k, timeout=30)
''')
seed(id="c20-chunks", property="C20", edits=[(M, "        line.clear();\n        match reader.read_line(&mut line) {\n            Ok(0) => break,\n            Ok(_) => {}\n            Err(e) => panic!(\"{}\", e),\n        }", "        line.clear();\n        // Blocks are faster than lines.\n        let block = reader.fill_buf().unwrap();\n        if block.is_empty() {\n            break;\n        }\n        line.push_str(&String::from_utf8_lossy(block));\n        let n = block.len();\n        reader.consume(n);")],
     needs="a multi-byte character across a block of 8192 bytes", breaks="the character is counted as replacement characters",
     py='''
data = "a" * 8191 + "\\u00e9" + "b" * 10
r = texmo("count-chars", "-d", put("d", data))
if r.returncode or b"Total: 8202" not in r.stdout or "'\\u00e9' 1" not in r.stdout.decode():
    fail(repr(r.stdout[-300:]))
''')
seed(id="c20-cr", property="C20", edits=[(M, "        let chars_in_line = line.chars().count();", "        if line.ends_with(\"\\r\\n\") {\n            line.truncate(line.len() - 2);\n            line.push('\\n');\n        }\n        let chars_in_line = line.chars().count();")],
     needs="a carriage return before a line feed", breaks="it is not counted",
     py='''
r = texmo("count-chars", "-d", put("d", "ab\\r\\nc"))
if r.returncode or b"Total: 5" not in r.stdout:
    fail(repr(r.stdout))
''')
PY = "pretty.py"
seed(id="c21-key-threshold", property="C21", edits=[(PY, "                    if last_line is None:\n                        last_line = '  ' + key_repr + ': ' + subline\n", "                    if last_line is None:\n                        head = '  ' + key_repr + ': '\n                        last_line = head + subline if len(head) < maxlen else head.rstrip()\n")],
     needs="an object member whose name alone is as wide as a line and whose value needs several lines", breaks="the first line of the value is lost",
     py='''
doc = {"k" * 90: [list(range(30)), "x"]}
p = put("j", json.dumps(doc))
r = subprocess.run([sys.executable, REPO + "/pretty.py", p])
try:
    ok = r.returncode == 0 and load(p) == doc
except ValueError:
    ok = False
if not ok:
    fail("the file no longer holds the same value")
''')
seed(id="c21-empty-list", property="C21", edits=[(PY, "        for item in data:\n", "        for item in filter(None, data) if len(data) > 64 else data:\n")],
     needs="a long list (more than 64 items that don't fit a line) with an empty or zero item", breaks="zeros, empty strings and empty lists are dropped",
     py='''
doc = list(range(100))
p = put("j", json.dumps(doc))
r = subprocess.run([sys.executable, REPO + "/pretty.py", p])
if r.returncode or load(p) != doc:
    fail("the file no longer holds the same value")
''')
seed(id="c22-processed-size", property="C22", edits=[(M, "        maybe_process_file(filename_raw, filename_processed, token_set.processing);\n    let initial_size = std::fs::metadata(filename_raw).unwrap().len();", "        maybe_process_file(filename_raw, filename_processed, token_set.processing);\n    let initial_size = std::fs::metadata(if filename_processed.is_some() {\n        filename_raw\n    } else {\n        &filename\n    })\n    .unwrap()\n    .len();")],
     needs="a caps-words set, raw data of another size than the processed data, and no processed data given", breaks="the raw size and bytes per token are those of the processed data",
     py='''
doc = bits("bits4", [b"ab"], "capswords")
got = convert(doc, b"Ab AB ab.\\n")["stats"]
if got["initial_size"] != 10:
    fail("initial size %d of 10" % got["initial_size"])
''')
seed(id="c22-legacy-bytes", property="C22", edits=[(S, "            Some(\"all_tokens\") => TokenType::Bytes,\n", "            Some(\"all_tokens\") => TokenType::Bytes,\n            Some(\"byteshuff\") if n_ext_tokens == 16 => TokenType::Bits4,\n")],
     needs="a frequency-based set with exactly 16 extension tokens", breaks="it is converted to a bits4 set",
     py='''
doc = {"type": "byteshuff", "processing": "raw", "tokens": list(range(16)) + ["a"], "sequences": [{"string": ([b] if b > 127 else chr(b)), "tokens": ["a", b >> 4, b & 15]} for b in range(256) if b != 97]}
got = convert(doc, b"ab")
if got["type"] != "byteshuff":
    fail("the converted set is of type %s" % got["type"])
''')
seed(id="c23-target-name", property="C23", edits=[(P, "fn save_tokens(token_set: &TokenSet, tokens_dir: &Path) {\n    let output_path = tokens_dir.join(format!(\"{}.json\", token_set.name()));", "fn save_tokens(token_set: &TokenSet, ntokens: usize, tokens_dir: &Path) {\n    let output_path = tokens_dir.join(format!(\n        \"tokens{}_{}_{}.json\",\n        ntokens, token_set.processing, token_set.token_type\n    ));"),
     (P, "                save_tokens(&token_set, tokens_dir);", "                save_tokens(&token_set, ntokens, tokens_dir);")],
     needs="an intermediate save while the set is still growing", breaks="the file is named after the requested number of tokens",
     rs='''
fn main() {
    let d = std::env::temp_dir();
    std::fs::write(d.join("c.c"), "#include <time.h>\\n#include <unistd.h>\\n#include <sys/syscall.h>\\nint clock_gettime(clockid_t c, struct timespec *t) { static long n; long r = syscall(SYS_clock_gettime, c, t); if (c == CLOCK_MONOTONIC) t->tv_sec += 100 * n++; return r; }\\n").unwrap();
    assert!(std::process::Command::new("gcc").args(["-shared", "-fPIC", "-o"]).arg(d.join("c.so")).arg(d.join("c.c")).status().unwrap().success());
    if let Some(dir) = std::env::args().nth(1) {
        let text = "the cat and the dog and the bird and the cat".repeat(3);
        let s = input::memory_sampler::MemorySampler::from_str(&text, 1000);
        optimize::Optimizer::new(262, processing::Processing::Raw, tokenset::TokenType::Bytes, None, std::path::Path::new(&dir)).optimize(&s, None);
        return;
    }
    let dir = d.join("o");
    std::fs::create_dir_all(&dir).unwrap();
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg(&dir).stdout(std::process::Stdio::null()).env("LD_PRELOAD", d.join("c.so"));
    assert!(c.status().unwrap().success());
    let mut n = 0;
    for f in std::fs::read_dir(&dir).unwrap() {
        let p = f.unwrap().path();
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&p).unwrap()).unwrap();
        let want = format!("tokens{}_raw_bytes.json", v["tokens"].as_array().unwrap().len());
        if p.file_name().unwrap().to_str().unwrap() != want { println!("BROKEN: {:?} holds {}", p, want); std::process::exit(1); }
        n += 1;
    }
    assert!(n > 1);
}
''')
seed(id="c23-save-before-sequences", property="C23", edits=[(P, "    let serialized = serde_json::to_string(&token_set.to_json()).unwrap();\n", "    let mut value = token_set.to_json();\n    if token_set.n_ext_tokens > 0 && token_set.n_long_tokens() == 0 {\n        // Only fallback tokens so far, the sequences can be derived.\n        value.as_object_mut().unwrap().remove(\"sequences\");\n    }\n    let serialized = serde_json::to_string(&value).unwrap();\n")],
     needs="an intermediate save of a frequency-based set before it has a multi-byte token", breaks="the saved file cannot express all bytes",
     rs='''
fn main() {
    let d = std::env::temp_dir();
    std::fs::write(d.join("c.c"), "#include <time.h>\\n#include <unistd.h>\\n#include <sys/syscall.h>\\nint clock_gettime(clockid_t c, struct timespec *t) { static long n; long r = syscall(SYS_clock_gettime, c, t); if (c == CLOCK_MONOTONIC) t->tv_sec += 100 * n++; return r; }\\n").unwrap();
    assert!(std::process::Command::new("gcc").args(["-shared", "-fPIC", "-o"]).arg(d.join("c.so")).arg(d.join("c.c")).status().unwrap().success());
    let args: Vec<String> = std::env::args().collect();
    // Data on which a byte is re-selected before the first long token.
    let texts: Vec<String> = (0..60usize).map(|k| (0..40usize).map(|i| char::from(97 + ((i * i * (k + 1) + i * k) % (3 + k % 11)) as u8)).collect()).collect();
    if args.len() > 1 {
        let k: usize = args[2].parse().unwrap();
        let s = input::memory_sampler::MemorySampler::from_str(&texts[k % 60], 1000);
        let first: Vec<u8> = (0..256).map(|x| x as u8).collect();
        let _ = first;
        let start = {
            let s2 = input::memory_sampler::MemorySampler::from_str("zzyyxxw", 1000);
            optimize::Optimizer::new(8, processing::Processing::Raw, tokenset::TokenType::BytesHuff, None, std::path::Path::new(&args[1])).optimize(&s2, None).token_set
        };
        let mut start2 = tokenset::TokenSet::from_json(start.to_json());
        for f in std::fs::read_dir(&args[1]).unwrap() { std::fs::remove_file(f.unwrap().path()).unwrap(); }
        loop {
            let Some(i) = start2.tokens.iter().position(|t| matches!(t, tokenset::Token::Str(s) if s.len() > 1)) else { break };
            start2.remove_token(i);
        }
        optimize::Optimizer::new(9, processing::Processing::Raw, tokenset::TokenType::BytesHuff, None, std::path::Path::new(&args[1])).optimize(&s, Some(start2));
        return;
    }
    for k in 0..60 {
        let dir = d.join(format!("o{}", k));
        std::fs::create_dir_all(&dir).unwrap();
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.arg(&dir).arg(k.to_string()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).env("LD_PRELOAD", d.join("c.so"));
        assert!(c.status().unwrap().success());
        for f in std::fs::read_dir(&dir).unwrap() {
            let p = f.unwrap().path();
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&p).unwrap()).unwrap();
            let singles = v["tokens"].as_array().unwrap().iter().filter(|t| !t.is_number() && (t.as_str().map_or(false, |s| s.len() == 1) || t.as_array().map_or(false, |s| s.len() == 1))).count();
            let seqs = v["sequences"].as_array().map_or(0, |s| s.len());
            if singles + seqs != 256 { println!("BROKEN: {:?} expresses {} bytes", p, singles + seqs); std::process::exit(1); }
        }
    }
}
''')
seed(id="c24-buffered-save", property="C24", edits=[(M, "    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n    println!(\"Writing the token set to {}.\", output_path.display());\n    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    std::fs::write(&output_path, serialized).unwrap();", "    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));\n    println!(\"Writing the token set to {}.\", output_path.display());\n    let file = std::io::BufWriter::new(File::create(&output_path).unwrap());\n    serde_json::to_writer(file, &stats.to_json()).unwrap();")],
     needs="the last write of the token file fails (disk full)", breaks="the buffered writer is dropped without a check and the command reports success with a truncated file",
     py='''
import resource
d = newdir("o")
# No file may become as long as the token file.
def limit():
    import signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
optimize("ab ab ab", "bits4", 18, name="full")
size = os.path.getsize(only(newdir("out-full"))) - 40
p = put("d", "ab ab ab")
r = subprocess.run([EXE, "optimize", "-d", p, "-t", d, "--type=bits4", "-p", "raw", "-n", "18"], preexec_fn=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
if r.returncode == 0:
    try:
        load(only(d))
    except ValueError:
        fail("success with a truncated file")
''')
seed(id="c24-read-error-is-end", property="C24", edits=[(MS, "        while reader.read_until(10, &mut buffer).unwrap() > 0 {", "        while reader.read_until(10, &mut buffer).unwrap_or(0) > 0 {")],
     needs="a read error while a sample of the data is taken (optimize --min-data-size)", breaks="the error is taken for the end of the file and success reported with another result",
     rs='''
fn main() {
    let d = std::env::temp_dir();
    if std::env::args().nth(1).is_some() {
        use input::sample::Sampler;
        let s = input::memory_sampler::MemorySampler::sample_from_file(d.join("data").to_str().unwrap(), 50, 100);
        println!("{}", s.total_size());
        return;
    }
    std::fs::write(d.join("c.c"), "#define _GNU_SOURCE\\n#include <errno.h>\\n#include <unistd.h>\\n#include <sys/syscall.h>\\nstatic int n;\\nssize_t read(int fd, void *b, size_t k) { if (fd > 2 && n++ == 0) { errno = EIO; return -1; } return syscall(SYS_read, fd, b, k); }\\n").unwrap();
    assert!(std::process::Command::new("gcc").args(["-shared", "-fPIC", "-o"]).arg(d.join("c.so")).arg(d.join("c.c")).status().unwrap().success());
    std::fs::write(d.join("data"), "abc\\n\\n".repeat(20)).unwrap();
    let run = |fault: bool| {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.arg("x").stderr(std::process::Stdio::null());
        if fault { c.env("LD_PRELOAD", d.join("c.so")); }
        c.output().unwrap()
    };
    let (a, b) = (run(false), run(true));
    assert!(a.status.success());
    if b.status.success() && a.stdout != b.stdout { println!("BROKEN: success with {:?} instead of {:?}", String::from_utf8_lossy(&b.stdout), String::from_utf8_lossy(&a.stdout)); std::process::exit(1); }
}
''')

seed(id="c13-attempts", property="C13", edits=[(P, "        *removal_count.entry(s.clone()).or_insert(0) += 1;\n", "        let attempts = removal_count.entry(s.clone()).or_insert(0);\n        *attempts += 1;\n        if *attempts > 3 {\n            // Tried often enough.\n            continue;\n        }\n")],
     needs="a search of many steps in which removing the same token is tried more than three times before it would help", breaks="the search stops although removing that token would help",
     py='''
import random
for k in (27,):
    r = random.Random(k)
    w = ["".join(r.choice("abcde") for _ in range(r.randint(2, 7))) for _ in range(8 + k % 12)]
    data = "".join(r.choice(w) for _ in range(120))
    n = 16 + 8 + k % 7
    a = optimize(data, "bits4", n, name="a%d" % k)
    b = optimize(data, "bits4", n, "-i", put("inp", json.dumps(a)), name="b%d" % k)
    x, y = least(a, data.encode()), least(b, data.encode())
    if y < x:
        fail("optimizing again gets from %d to %d tokens" % (x, y))
''')
seed(id="c15-skip-blank", property="C15", edits=[(MS, "            let start = self.position;\n", "            let mut start = self.position;\n            if start > 0 && start + 1 < self.sampler.data.len() && self.sampler.data[start] == 10 {\n                // Part of the paragraph break.\n                start += 1;\n            }\n")],
     needs="a chunk border between the line feeds of a run of at least three", breaks="a line feed at the border is in no chunk",
     rs='''
use input::memory_sampler::MemorySampler;
use input::sample::Sampler;
fn main() {
    let text = "abcde\\n\\n\\n\\nfghi\\n\\n\\njk\\nlm";
    for c in 1..30 {
        let s = MemorySampler::from_str(text, c);
        let got: String = s.iter().map(|x| x.as_str().to_string()).collect();
        if got != text { println!("BROKEN: chunks of {} make {:?}", c, got); std::process::exit(1); }
    }
}
''')
seed(id="c17-key-lossy", property="C17", edits=[(B, "        let value = token_set.to_json();\n        serde_json::to_string(&value).unwrap()", "        let mut key = token_set.name();\n        for token in token_set.tokens.iter() {\n            key.push('\\t');\n            match token {\n                super::tokenset::Token::Str(s) => key.push_str(&String::from_utf8_lossy(s)),\n                other => key.push_str(&other.to_string()),\n            }\n        }\n        for seq in token_set.sequences.iter() {\n            key.push_str(&format!(\"\\t{:?}\", seq));\n        }\n        key")],
     needs="two candidate sets that differ in tokens that are not valid UTF-8", breaks="one of them gets the statistics (and the token set) of the other",
     rs='''
use processing::Processing;
use input::memory_sampler::MemorySampler;
fn main() {
    let s = MemorySampler::from_str("\\u{e9}\\u{e8}\\u{e9}\\u{e8}\\u{e9}", 100);
    let mut c = batch_tokenize::TokenizerCache::new(&s, None);
    let base = tokenset::TokenSet::new_bits4(Processing::Raw, true);
    let (mut x, mut y) = (base.clone(), base);
    x.add_token(&[0xa9, 0xc3]); y.add_token(&[0xa8, 0xa8]);
    c.get_stats(&x);
    let got = c.get_stats(&y);
    let want = batch_tokenize::tokenize_file_sync(&y, &s, None);
    if got.token_set.find_token(&[0xa8, 0xa8]).is_none() || got.total_tokens != want.total_tokens { println!("BROKEN: statistics of another set"); std::process::exit(1); }
}
''')
seed(id="c18-hash-ties", property="C18", edits=[(P, "    to_remove.sort_unstable_by_key(|s| removal_count.get(s).unwrap_or(&0));\n", "    let unique = to_remove.drain(..).collect::<HashSet<Vec<u8>>>();\n    to_remove.extend(unique);\n    to_remove.sort_by_key(|s| *removal_count.get(s).unwrap_or(&0));\n")],
     needs="two removable tokens that have been tried equally often, and a different hash seed", breaks="the order of removals and so the result depends on the hash seed of the process",
     py='''
import random
for k in (14,):
    r = random.Random(k)
    w = ["".join(r.choice("abcde") for _ in range(r.randint(2, 5))) for _ in range(8 + k % 5)]
    data = "".join(r.choice(w) for _ in range(40+k%30))
    docs = set(json.dumps(optimize(data, "bits4", 16 + 6 + k % 4, name="%d-%d" % (k, i))) for i in range(50))
    if len(docs) > 1:
        fail("two runs give different results")
''')
