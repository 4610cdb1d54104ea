SEEDS = []
def seed(**k): SEEDS.append(k)

P = "src/processing.rs"
seed(id="c01-wide-space", property="C01", edits=[(P, "} else if ch == ' ' {", "} else if ch == ' ' || ch == '\\u{3000}' {")],
     needs="a single ideographic space (U+3000) between two words", breaks="U+3000 between words is dropped like a space and decodes to a plain space",
     py='''
d = put("in", "\\u6771\\u4eac\\u3000\\u5927\\u962a\\n\\u6771\\u4eac \\u5927\\u962a\\n")
r = texmo("process", "-d", d, "-o", T + "/out")
a, b = get("out").decode("utf8").splitlines()
if r.returncode or a == b:
    fail("two different lines have the same processed form %r" % a)
''')
seed(id="c01-marker-uncased", property="C01", edits=[(P, "(State::SpaceAfterWord, CharType::Space | CharType::NonLetter) => {\n                out.push(' ');\n                out.push(ch);",
     "(State::SpaceAfterWord, CharType::Space | CharType::NonLetter) => {\n                if ch != '\\u{200b}' && !ch.is_control() || ch == '\\n' || ch == '\\t' {\n                    out.push(' ');\n                }\n                out.push(ch);")],
     needs="a word, one space and then a control character such as U+001B or a zero-width space", breaks="the space between a word and a control character is lost",
     py='''
d = put("in", "ab \\u001b[1m\\nab\\u001b[1m\\n")
r = texmo("process", "-d", d, "-o", T + "/out")
a, b = get("out").decode("utf8").split("\\n")[:2]
if r.returncode or a == b:
    fail("two different lines have the same processed form %r" % a)
''')
seed(id="c02-uncased-rest", property="C02", edits=[(P, "if rest.chars().all(|ch| ch.is_lowercase())\n", "if !rest.chars().any(|ch| ch.is_uppercase())\n")],
     needs="a word that begins with a capital and contains letters without case (Han, Hebrew, ordinals)", breaks="such words are encoded as capitalised although their other letters are not lower-case",
     py='''
d = put("in", "A\\u4e2db x\\n")
r = texmo("process", "-d", d, "-o", T + "/out")
if r.returncode or get("out").decode("utf8") != "A\\u4e2db\\x16x\\x16\\n":
    fail(repr(get("out")))
''')
seed(id="c02-long-word", property="C02", edits=[(P, "(State::Word, CharType::Letter) => {\n                word.push(ch);\n", "(State::Word, CharType::Letter) => {\n                // Keeps the buffer small.\n                if word.len() >= 4096 {\n                    add_word(&mut out, &word);\n                    word.clear();\n                }\n                word.push(ch);\n")],
     needs="a run of more than 4096 bytes of letters", breaks="a very long word is emitted as several words",
     py='''
d = put("in", "a" * 5000 + "\\n")
r = texmo("process", "-d", d, "-o", T + "/out")
if r.returncode or get("out") != b"a" * 5000 + b"\\x16\\n":
    fail("a word of 5000 letters became %d words" % get("out").count(b"\\x16"))
''')
seed(id="c03-short-write", property="C03", edits=[(P, "writer.write_all(processed.as_bytes())?;", "writer.write(processed.as_bytes())?;")],
     needs="a line longer than the write buffer and a write that accepts only a part of it", breaks="the rest of the line is lost and success reported",
     rs='''
use std::io::{self, Write};
struct Slow(Vec<u8>);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(1000); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let text = "x1 ".repeat(7000) + "\\n";
    let mut w = Slow(vec![]);
    let r = processing::process_file(&mut text.as_bytes(), &mut w);
    let want = processing::process(text.trim_end_matches('\\n')) + "\\n";
    if r.is_ok() && w.0 != want.as_bytes() { println!("BROKEN: {} of {} bytes written", w.0.len(), want.len()); std::process::exit(1); }
}
''')
seed(id="c03-stop-at-invalid", property="C03", edits=[(P, "        let line = line?;\n", "        let line = match line {\n            Ok(line) => line,\n            // A character cut by the end of the data.\n            Err(e) if e.kind() == io::ErrorKind::InvalidData => break,\n            Err(e) => return Err(e),\n        };\n")],
     needs="input that is not valid UTF-8 somewhere", breaks="everything from the invalid line on is dropped and success reported",
     py='''
d = put("in", b"ab\\ncd\\xff\\nef\\n")
r = texmo("process", "-d", d, "-o", T + "/out")
if r.returncode == 0:
    fail("success for invalid text; output %r" % get("out"))
''')

K = "src/tokenizer2.rs"
seed(id="c04-suffix-limit", property="C04", edits=[(K, "            for start in 1..=(span.string.len() - 1) {\n                let suffix = &span.string[start..];\n", "            for start in std::cmp::max(1, span.string.len().saturating_sub(16))..span.string.len() {\n                let suffix = &span.string[start..];\n")],
     needs="two tokens of more than 16 bytes, one a proper suffix of the other, and a text in which the shorter one is better", breaks="the shorter token is never considered where the longer one matches, so more tokens than necessary are reported",
     py='''
s = b"abcdefghijklmnopqrst"
doc = bits("bits4", [s, b"z" + s, b"yyz"])
data = b"yyz" + s
got = convert(doc, data)["stats"]["total_tokens"]
if got != least(doc, data):
    fail("%d tokens instead of %d" % (got, least(doc, data)))
''')
seed(id="c04-early-exit", property="C04", edits=[(K, "                        span: span_idx,\n                    });\n                }\n\n                span_idx = span.suffix_span;", "                        span: span_idx,\n                    });\n                } else if prev_cost > best_cost_state.unwrap().cost {\n                    // Shorter spans start even later.\n                    break;\n                }\n\n                span_idx = span.suffix_span;")],
     needs="three nested suffixes where the middle one starts after an expensive prefix but the shortest one after a cheap one", breaks="the best segmentation is missed because costs of prefixes are not monotone",
     py='''
import itertools
docs = [bits("bits1", list(c)) for c in itertools.combinations([b"b", b"ab", b"cab", b"ddca", b"ca", b"xdcab"], 4)]
texts = [bytes(w) for w in itertools.product(b"abcdx", repeat=2)]
text = b"".join(a + b"dcab" + a + b"xdcab" for a in texts)
for i, doc in enumerate(docs):
    got = convert(doc, text, str(i))["stats"]["total_tokens"]
    if got != least(doc, text):
        fail("%d tokens instead of %d for %s" % (got, least(doc, text), doc["tokens"]))
''')
seed(id="c05-pair-over-sequence", property="C05", edits=[(K, "                Some(token)\n            } else {\n                None\n            };", "                Some(token)\n            } else {\n                next_token\n            };")],
     needs="a token, a fallback sequence and a token in a row", breaks="tokens with a fallback sequence between them are counted as a pair",
     rs='''
use processing::Processing;
fn main() {
    let mut ts = tokenset::TokenSet::new_bits4(Processing::Raw, true);
    let a = ts.add_token(b"a");
    let b = ts.add_token(b"b");
    let n = ts.ntokens();
    let t = tokenizer2::FragmentTokenizer::new(ts.clone());
    let mut st = stats2::TokenStats::new(ts, None);
    t.process_slice(b"axb", &mut st, &mut vec![]);
    if st.pair_counts[a * n + b] != 0 { println!("BROKEN: a and b counted as neighbours in axb"); std::process::exit(1); }
}
''')
seed(id="c05-repeated-digit", property="C05", edits=[(K, "                    for &token_id in seq.tokens.iter() {\n                        stats.token_counts[token_id] += count;\n                    }", "                    for (i, &token_id) in seq.tokens.iter().enumerate() {\n                        if i > 0 && seq.tokens[i - 1] == token_id {\n                            continue;\n                        }\n                        stats.token_counts[token_id] += count;\n                    }")],
     needs="a fallback sequence in which an extension token follows itself", breaks="token counts no longer add up to the total",
     rs='''
use processing::Processing;
fn main() {
    let ts = tokenset::TokenSet::new_bits4(Processing::Raw, true);
    let t = tokenizer2::FragmentTokenizer::new(ts.clone());
    let mut st = stats2::TokenStats::new(ts, None);
    t.process_slice(b"a3b", &mut st, &mut vec![]);
    let s: u64 = st.token_counts.iter().sum();
    if s != st.total_tokens { println!("BROKEN: counts add up to {} instead of {}", s, st.total_tokens); std::process::exit(1); }
}
''')

B = "src/batch_tokenize.rs"
seed(id="c06-flush-stats", property="C06", edits=[
     (B, "        assert!(!data.is_empty());\n        tokenizer.process_slice(data, &mut stats, &mut buffer);\n    }\n", "        assert!(!data.is_empty());\n        tokenizer.process_slice(data, &mut stats, &mut buffer);\n        samples += 1;\n        if samples == 2 {\n            // Report in portions.\n            results_tx.send(stats).unwrap();\n            stats = TokenStats::new(tokenizer.token_set.clone(), None);\n            samples = 0;\n        }\n    }\n"),
     (B, "    let mut buffer = Vec::new();\n\n    loop {", "    let mut buffer = Vec::new();\n    let mut samples = 0;\n\n    loop {")],
     needs="some worker takes two samples or more (more than 32 MiB of data)", breaks="portions reported beyond one per worker are never merged",
     py='''
os.sched_setaffinity(0, [min(os.sched_getaffinity(0))])
data = b"ab\\n\\n" * (10 << 20)
doc = bits("bits4", [b"ab", b"\\n\\n"])
got = convert(doc, data)["stats"]
if got["scanned_bytes"] != len(data) or got["total_tokens"] != 2 * (10 << 20):
    fail(str(got))
''')
seed(id="c06-join-first", property="C06", edits=[
     (B, "let (results_tx, results_rx) = mpsc::channel::<TokenStats>();", "let (results_tx, results_rx) = mpsc::sync_channel::<TokenStats>(4);"),
     (B, "    results_tx: Sender<TokenStats>,", "    results_tx: mpsc::SyncSender<TokenStats>,"),
     (B, "use std::sync::mpsc::{self, Receiver, Sender};", "use std::sync::mpsc::{self, Receiver};"),
     (B, "        std::mem::drop(jobs_tx);\n", "        std::mem::drop(jobs_tx);\n\n        while !join_handles.is_empty() {\n            join_handles.pop().unwrap().join().unwrap();\n        }\n")],
     needs="more than four workers and more than 32 MiB of data", breaks="workers wait for room in the result channel while the main thread waits for the workers",
     py='''
import os
if len(os.sched_getaffinity(0)) <= 4:
    sys.exit(0)
data = b"ab\\n\\n" * (9 << 20)
d = newdir("o")
r = texmo("convert-tokens", "-d", put("d", data), "-i", put("i", json.dumps(bits("bits4", [b"ab", b"\\n\\n"]))), "-t", d, timeout=150)
if r is None or r.returncode:
    fail("does not end")
''')
S = "src/tokenset.rs"
seed(id="c07-nul", property="C07", edits=[(S, "            .map(|b| b.as_i64().unwrap() as u8)\n", "            .filter_map(|b| b.as_i64())\n            .map(|b| b.clamp(1, 255) as u8)\n")],
     needs="a token that is not valid UTF-8 and contains a zero byte", breaks="the zero byte is loaded as 0x01",
     py='''
doc = bits("bits4", [b"\\xff\\x00", b"ab"])
got = convert(doc, b"ab")
if [0xff, 0] not in got["tokens"]:
    fail(str(got["tokens"][16:]))
''')
seed(id="c07-sequence-name", property="C07", edits=[(S, '            "string": bytes_to_json(self.string.as_slice()),', '            "string": String::from_utf8_lossy(&self.string),')],
     needs="fallback sequences of bytes that are not valid UTF-8", breaks="the names of these sequences are written as U+FFFD",
     py='''
doc = bits("bits2", [b"ab"])
got = convert(doc, b"ab")
names = [tok(s["string"]) for s in got["sequences"]]
if len(set(names)) != len(names) or sorted(names) != [bytes([b]) for b in range(256)]:
    fail("sequences for %d strings" % len(set(names)))
''')
seed(id="c08-first-only", property="C08", edits=[(S, "                for tok in seq.tokens.iter_mut() {\n                    if *tok == last_idx {\n                        *tok = token_idx\n                    }\n                }", "                if let Some(tok) = seq.tokens.iter_mut().find(|tok| **tok == last_idx) {\n                    *tok = token_idx;\n                }")],
     needs="removing a token while the last token occurs twice in one fallback sequence", breaks="the second occurrence points beyond the end of the token list",
     rs='''
use processing::Processing;
fn main() {
    let mut ts = tokenset::TokenSet::new(2, Processing::Raw, tokenset::TokenType::BytesHuff, true);
    let a = ts.add_token(b"aa");
    let b = ts.add_token(b"b");
    ts.add_sequence(b"x".to_vec(), vec![b, 0, b]);
    ts.remove_token(a);
    if ts.sequences[0].tokens != vec![2, 0, 2] { println!("BROKEN: {:?}", ts.sequences[0].tokens); std::process::exit(1); }
}
''')
seed(id="c08-sort-inverse", property="C08", edits=[(S, "            new_indices[current_pos] = new_pos;", "            new_indices[new_pos] = current_pos;")],
     needs="sorting a set whose order is a permutation that is not its own inverse (a cycle of three tokens), with sequences that use these tokens", breaks="fallback sequences are remapped by the inverse permutation",
     rs='''
use processing::Processing;
use tokenset::Token;
fn main() {
    let mut ts = tokenset::TokenSet::new(2, Processing::Raw, tokenset::TokenType::BytesHuff, true);
    let c = ts.add_token(b"c"); ts.add_token(b"a"); ts.add_token(b"b");
    ts.add_sequence(b"x".to_vec(), vec![c, 0]);
    ts.sort();
    if ts.tokens[ts.sequences[0].tokens[0]] != Token::Str(b"c".to_vec()) { println!("BROKEN: the sequence of x begins with {}", ts.tokens[ts.sequences[0].tokens[0]]); std::process::exit(1); }
}
''')
O = "src/optimize_bytes.rs"
seed(id="c09-single-empty", property="C09", edits=[(O, "    if counts.len() <= n_ext_tokens {\n        return counts", "    if counts.len() == 1 {\n        // Nothing to distinguish.\n        return vec![(counts[0].0, vec![])];\n    }\n    if counts.len() <= n_ext_tokens {\n        return counts")],
     needs="a byte-frequency profile that leaves exactly one byte besides the top one in some interval", breaks="that byte gets the same code as the top byte of its interval",
     py='''
import random
for n in (5, 9, 17, 33, 60):
    text = "".join(chr(97 + i % 26) * (i % 7 + 1) for i in range(n * 3))
    doc = optimize(text, "bytes-huff", n, name=str(n))
    codes = [json.dumps(s["tokens"]) for s in doc.get("sequences", [])]
    have = [t for t in doc["tokens"] if not isinstance(t, int)]
    b = set(tok(s["string"]) for s in doc.get("sequences", [])) | set(tok(t) for t in have)
    if len(set(codes)) != len(codes) or any(bytes([x]) not in b for x in range(256)):
        fail("budget %d: two bytes share a code" % n)
''')
seed(id="c10-count-overflow", property="C10", edits=[(O, "        let mut byte_counts: [i64; 256] = [0; 256];", "        let mut byte_counts: [i32; 256] = [0; 256];"),
     (O, "byte_counts[s[0] as usize] = stats.token_counts[token_id] as i64;", "byte_counts[s[0] as usize] = stats.token_counts[token_id] as i32;"),
     (O, "byte_counts[seq.string[0] as usize] = stats.seq_counts[seq_id] as i64;", "byte_counts[seq.string[0] as usize] = stats.seq_counts[seq_id] as i32;")],
     needs="a byte used more than 2^31 times", breaks="the count wraps and the most frequent byte is not chosen",
     rs='''
use processing::Processing;
use optimize_bytes::{BytesOptimizer, SimpleBytesOptimizer};
fn main() {
    let ts = tokenset::TokenSet::new_bits4(Processing::Raw, true);
    let mut st = stats2::TokenStats::new(ts, None);
    st.seq_counts[b'a' as usize] = 3_000_000_000;
    st.seq_counts[b'b' as usize] = 7;
    let r = SimpleBytesOptimizer::optimize_bytes(&st, 17);
    if r.find_token(b"a").is_none() { println!("BROKEN: the most frequent byte is not chosen"); std::process::exit(1); }
}
''')
seed(id="c10-huff-ext", property="C10", edits=[(O, "            let n_byte_tokens = n_byte_ext_tokens - n_ext_tokens;\n", "            // At least two byte tokens, otherwise there is nothing to split.\n            let n_byte_tokens = std::cmp::max(n_byte_ext_tokens - n_ext_tokens, 2);\n")],
     needs="the smallest budget (three byte and extension tokens) of a frequency-based set", breaks="the set has more byte and extension tokens than requested",
     py='''
doc = optimize("ab", "bytes-huff", 3)
if len(doc["tokens"]) > 3:
    fail("%d tokens" % len(doc["tokens"]))
''')
