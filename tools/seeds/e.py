SEEDS = []
def seed(**k): SEEDS.append(k)
B = "src/optimize_bytes.rs"
O = "src/optimize.rs"
S = "src/tokenset.rs"
CODES = '''
def codes(doc):
    """Every byte is either a token or has one code of existing tokens, and no code begins another one."""
    names = [t if isinstance(t, int) else tok(t) for t in doc["tokens"]]
    out = []
    for b in range(256):
        mine = [tuple(t if isinstance(t, int) else tok(t) for t in s["tokens"]) for s in doc.get("sequences", []) if tok(s["string"]) == bytes([b])]
        if bytes([b]) in names:
            mine.append((bytes([b]),))
        if len(mine) != 1:
            fail("%d codes for the byte %d" % (len(mine), b))
        if any(t not in names for t in mine[0]):
            fail("the code of the byte %d has tokens that are not there: %s" % (b, mine[0]))
        out += mine
    if len(set(out)) != 256:
        fail("two bytes with the same code")
'''
seed(id="c09-long-codes", property="C09", edits=[(B, "        for (ch, mut enc) in encs {\n            enc.insert(0, top_token_id);\n", "        for (ch, mut enc) in encs {\n            if enc.len() > 11 {\n                // Too rare to matter.\n                continue;\n            }\n            enc.insert(0, top_token_id);\n")],
     needs="few tokens and byte counts that grow exponentially, so that some codes have more than 12 tokens", breaks="the rarest bytes can't be expressed",
     py=CODES + '''
a, b, data = 1, 1, ""
for i in range(22):
    data += chr(97 + i) * a
    a, b = b, a + b
codes(optimize(data, "bytes-huff", 3))
''')
seed(id="c12-input-crosses", property="C12", edits=[(O, "    let token_set = match (pretrained_token_set, token_type) {\n        (Some(ts), _) => ts,\n", "    let token_set = match (pretrained_token_set, token_type) {\n        (Some(mut ts), _) => {\n            // No token may reach beyond the end of its paragraph.\n            let beyond = ts\n                .tokens\n                .iter()\n                .filter_map(|t| match t {\n                    Token::Str(s) if s.len() > 2 && !is_valid_token(s) => Some(s.clone()),\n                    _ => None,\n                })\n                .collect::<Vec<_>>();\n            for s in beyond {\n                let idx = ts.find_token(&s).unwrap();\n                ts.remove_token(idx);\n            }\n            ts\n        }\n")],
     needs="an input set with a token that has a line end pair inside", breaks="the result needs more tokens than the input set",
     py='''
data = "ab\\n\\ncd" * 12
doc = bits("bits4", [data[:42].encode()])
before = least(doc, data.encode())
after = optimize(data, "bits4", 17, "-i", put("s.json", json.dumps(doc)))["stats"]["total_tokens"]
if after > before:
    fail("%d tokens from a set that needs %d" % (after, before))
''')
seed(id="c12-input-flag", property="C12", edits=[(O, "    let token_set = match (pretrained_token_set, token_type) {\n", "    // Older sets without the paragraph flag can't be continued.\n    let pretrained_token_set = pretrained_token_set.filter(|ts| ts.split_paragraphs);\n    let token_set = match (pretrained_token_set, token_type) {\n")],
     needs="an input set without the paragraph flag, better than what the search finds from nothing", breaks="the result needs more tokens than the input set",
     py='''
data = "ab\\n\\ncd" * 12
doc = bits("bits4", [data[:42].encode()], flag=False)
before = least(doc, data.encode())
after = optimize(data, "bits4", 17, "-i", put("s.json", json.dumps(doc)))["stats"]["total_tokens"]
if after > before:
    fail("%d tokens from a set that needs %d" % (after, before))
''')
seed(id="c12-fresh-bytes", property="C12", edits=[(O, "        (Some(ts), _) => ts,\n", "        (Some(ts), TokenType::BytesHuff) => {\n            // Choose the codes anew for this data.\n            let stats = tokenizer_cache.get_stats(&ts);\n            HuffOptimizer::optimize_bytes(&stats, ts.ntokens() - ts.n_long_tokens())\n        }\n        (Some(ts), _) => ts,\n")],
     needs="a frequency-based input set with codes the selection does not find itself", breaks="the result needs more tokens than the input set",
     py='''
for k in (2, 5, 11):
    data = "".join(chr(97 + (i * k) % 23) * ((i * i * k) % 19 + 1) for i in range(40))
    n = 3 + k % 9
    first = optimize(data, "bytes-huff", n, name="a%d" % k)
    doc = dict(first)
    # Exchange the codes of the bytes so that the frequent ones have the short ones.
    count = {bytes([b]): data.encode().count(bytes([b])) for b in range(256)}
    seqs = doc["sequences"]
    order = sorted(seqs, key=lambda s: -count[tok(s["string"])])
    short = sorted((s["tokens"] for s in seqs), key=len)
    doc["sequences"] = [{"string": s["string"], "tokens": t} for s, t in zip(order, short)]
    before = least(doc, data.encode())
    after = optimize(data, "bytes-huff", n, "-i", put("s.json", json.dumps(doc)), name="b%d" % k)["stats"]["total_tokens"]
    if after > before:
        fail("%d tokens from a set that needs %d" % (after, before))
''')
M = "src/main.rs"
REPLAY = '''
import re
TOK = r'(?:\\d+|"(?:[^"\\\\]|\\\\.)*"|\\[\\d+(?:, \\d+)*\\])'
def report(data, typ, n, *more, name="o"):
    """The steps and figures that are printed, and the saved set."""
    d = newdir("out-" + name)
    r = texmo("optimize", "-d", put("d-" + name, data), "-t", d, "--type=" + typ, "-p", "raw", "-n", n, *more)
    if r is None or r.returncode:
        fail("optimize does not work")
    out = r.stdout.decode("utf8")
    steps = [(re.findall(TOK, a), re.findall(TOK, b)) for a, b in re.findall("(?m)^((?:%s)?(?: %s)*) -> ((?:%s)?(?: %s)*)$" % (TOK, TOK, TOK, TOK), out)]
    return out, steps, load(only(d))
def quoted(t):
    """As the report shows tokens of plain text."""
    return str(t) if isinstance(t, int) else json.dumps(t, ensure_ascii=False) if isinstance(t, str) else str(t)
def walk(start, steps, doc):
    s = set(start)
    seen = [frozenset(s)]
    for a, b in steps:
        if not s >= set(a) or s & set(b):
            fail("%s -> %s, but the set is %s" % (a, b, sorted(s)))
        s = (s - set(a)) | set(b)
        seen.append(frozenset(s))
    if frozenset(map(quoted, doc["tokens"])) not in seen:
        fail("the reported steps do not lead to the saved set %s" % doc["tokens"])
'''
seed(id="c27-lossy", property="C27", edits=[(S, "        Ok(s) => format!(\"{:?}\", s),\n        Err(_) => format!(\"{:?}\", bytes),\n", "        Ok(s) => format!(\"{:?}\", s),\n        Err(_) if bytes.len() > 3 => format!(\"{:?}\", String::from_utf8_lossy(bytes)),\n        Err(_) => format!(\"{:?}\", bytes),\n")],
     needs="a token of four bytes or more that ends in the middle of a character", breaks="the report shows another token than the one that is added",
     py=REPLAY + '''
text = "".join("\\u4e2d" + chr(0x4e00 + i) + "\\u6587" + chr(0x5900 + 64 * i) for i in range(60))
for n in (11, 14, 20):
    out, steps, doc = report(text, "bits2", n, name=str(n))
    walk("0123", steps, doc)
''')
seed(id="c27-old-figure", property="C27", edits=[(O, "                println!(\"processed bytes / token: {}\", new_stats.bytes_per_token());\n                return Some(new_stats);\n", "                println!(\"processed bytes / token: {}\", stats.bytes_per_token());\n                return Some(new_stats);\n")],
     needs="a full set in which a byte token is given up for a pair", breaks="the figure after that step is the one from before it",
     py=REPLAY + '''
done = 0
for k in range(2, 40):
    text = "".join(chr(97 + (i * i + k * i) % 11) * (1 + i % 3) + "theab"[i % 5:] for i in range(k * 5))
    out, steps, doc = report(text, "bits4", 18 + k % 7, name=str(k))
    figures = [float(x) for x in re.findall(r"(?m)^(?:Initial tokens: \\d+, bytes/token =|processed bytes / token:) (\\S+)$", out)]
    # The first steps fill the set.
    size = [16]
    for a, b in steps:
        size.append(size[-1] - len(a) + len(b))
    for i in range(1, len(figures)):
        if size[i - 1] == 18 + k % 7 and not figures[i] > figures[i - 1]:
            fail("%s bytes per token after %s" % (figures[i], figures[i - 1]))
''')
seed(id="c27-ext-unsaid", property="C27", edits=[(O, "        .difference(&after_set)\n        .map(|t| t.to_string())\n", "        .difference(&after_set)\n        .filter(|t| matches!(t, Token::Str(_)))\n        .map(|t| t.to_string())\n")],
     needs="a frequency-based set that gives up an extension token at some step", breaks="the report does not say so",
     py=REPLAY + '''
for k in range(2, 30):
    text = "".join(chr(97 + (i * i + k * i) % 13) * (1 + i % 3) + "theab"[i % 5:] for i in range(k * 3))
    for n in (9, 14):
        out, steps, doc = report(text, "bytes-huff", n, name="%d-%d" % (k, n))
        s = set(map(quoted, doc["tokens"]))
        for i in range(1, len(steps)):
            # What is added twice was removed in between.
            for t in steps[i][1]:
                j = [x for x in range(i) if t in steps[x][1]]
                if j and not any(t in steps[x][0] for x in range(j[-1], i + 1)):
                    fail("%s is added twice" % t)
        count = int(re.search(r"Initial tokens: (\\d+)", out)[1])
        for a, b in steps:
            count += len(b) - len(a)
            if count > n:
                fail("%d tokens after %s -> %s" % (count, a, b))
''')
seed(id="c27-full-figure", property="C27", edits=[(M, "            new_full_stats.bytes_per_token()\n        );\n", "            new_full_stats.bytes_per_token().max(stats.bytes_per_token())\n        );\n")],
     needs="growing data whose sample is compressed better than the complete data", breaks="the figure for the complete data is the one for the sample",
     py=REPLAY + '''
text = "ababababababab\\n\\n" * 3 + "the quick brown fox\\n\\n" * 4
out, steps, doc = report(text, "bits4", 18, "--min-data-size", 20)
full = [float(x) for x in re.findall(r"\\(full data\\): (\\S+)", out)]
opt = [float(x) for x in re.findall(r"\\(optimized\\): (\\S+)", out)]
start = [float(x) for x in re.findall(r"bytes/token = (\\S+)", out)]
if abs(full[-1] - start[-1]) > 1e-9:
    fail("%s for the complete data, but the round with it begins with %s" % (full[-1], start[-1]))
''')
