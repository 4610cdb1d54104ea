"""C22: convert-tokens keeps the set, reports true statistics, is idempotent."""
import glob, itertools, json, math, os
import driver, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = None
CHUNK = 1 << 24


def setup():
    global EXE
    EXE = driver.build_cli()
    ref.lib()


def close(a, b):
    return a == b or (isinstance(a, (int, float)) and math.isclose(a, b, rel_tol=1e-12))


def same_set(got, want, what):
    g, w = got.key(), want.key()
    for name, x, y in zip(("type", "processing", "split_paragraphs", "tokens", "fallback sequences"), g, w):
        if x != y:
            if isinstance(x, tuple):
                d = [p for p in itertools.zip_longest(x, y) if p[0] != p[1]][:2]
                raise Violation("%s: %s differ: %r" % (what, name, d))
            raise Violation("%s: %s is %r instead of %r" % (what, name, x, y))


def stats(doc, ts, processed, raw_size, total, what):
    st = doc.get("stats")
    check(isinstance(st, dict), "%s: no statistics", what)
    check(st.get("ntokens") == len(ts.tokens), "%s: ntokens %s instead of %d", what, st.get("ntokens"), len(ts.tokens))
    check(st.get("total_tokens") == total, "%s: total_tokens %s instead of %s", what, st.get("total_tokens"), total)
    check(st.get("scanned_bytes") == len(processed), "%s: scanned_bytes %s instead of %d", what, st.get("scanned_bytes"), len(processed))
    check(st.get("initial_size") == raw_size, "%s: initial_size %s instead of %d", what, st.get("initial_size"), raw_size)
    if total:
        check(close(st.get("bytes_per_token"), raw_size / total), "%s: bytes_per_token %s instead of %s", what, st.get("bytes_per_token"), raw_size / total)


def data_of(case):
    return b"".join(s.encode("utf8") * n for s, n in case["data"])


def judge(case, d):
    tx = ref.Texmo(EXE)
    if "file" in case:
        src = ref.read(os.path.join(driver.REPO, "tokens", case["file"]))
        doc = json.loads(src.decode("utf8"))
    else:
        s = case["set"]
        doc = ref.make(s["type"], [t.encode("latin1") for t in s["tokens"]], s.get("processing", "raw"), s.get("flag", True),
                       {k.encode("latin1"): [x if isinstance(x, int) else x.encode("latin1") for x in v] for k, v in s.get("sequences", [])}, s.get("ext"))
        if s.get("noflag"):
            del doc["split_paragraphs"]
        src = json.dumps(doc, indent=case.get("indent")).encode()
    want = ref.Set(doc)
    p = want.problems()
    if p:
        raise driver.CheckError("invalid input set: " + p)
    raw = data_of(case)
    if "path" in case:
        raw = ref.read(os.path.join(driver.REPO, case["path"]))
        raw = raw[:case.get("upto", len(raw))].decode("utf8", "ignore").encode("utf8")
    processed = raw if want.processing == "raw" else ref.process_file(raw)
    raw_size = case.get("raw_size") or len(raw)
    if case.get("raw_size"):
        # Only its size is looked at when the processed data is given.
        with open(d + "/raw", "wb") as f:
            f.truncate(raw_size)
    else:
        ref.write(d + "/raw", raw)
    ref.write(d + "/processed", processed)
    ref.write(d + "/in.json", src)
    for o in ("o1", "o2", "o3"):
        os.mkdir(d + "/" + o)
    # No token of the large cases fits across a cut between two samples.
    total = want.total(processed)
    name = want.name() + ".json"

    def convert(inp, out, given):
        a = ["convert-tokens", "-d", d + "/raw", "-i", inp, "-t", d + "/" + out]
        if given:
            a += ["--processed-data", d + "/processed"]
        r = tx.run(d, *a, timeout=240)
        what = "conversion of %s" % os.path.relpath(inp, d)
        check(r.rc == 0, "%s: exit status %s: %s", what, r.rc, r.err.decode("utf8", "replace")[-300:])
        check(os.listdir(d + "/" + out) == [name], "%s: wrote %s instead of %s", what, os.listdir(d + "/" + out), name)
        text = ref.read(d + "/" + out + "/" + name)
        try:
            got = json.loads(text.decode("utf8"))
            gs = ref.Set(got)
        except (ValueError, KeyError) as e:
            raise Violation("%s: unreadable file: %s" % (what, e))
        same_set(gs, want, what)
        dup = [s for s, _ in gs.written]
        check(len(dup) == len(set(dup)), "%s: a fallback sequence is written twice", what)
        stats(got, gs, processed, raw_size, total, what)
        return text

    first = convert(d + "/in.json", "o1", case.get("given", False))
    second = convert(d + "/o1/" + name, "o2", want.processing != "raw" and (bool(case.get("raw_size")) or not case.get("given", False)))
    if first != second:
        k = next(i for i in range(min(len(first), len(second)) + 1) if first[i:i + 1] != second[i:i + 1])
        raise Violation("converting again changes the file at byte %d: %r instead of %r" % (k, second[k - 20:k + 20], first[k - 20:k + 20]))
    # Over the input itself.
    ref.write(d + "/o3/" + name, src)
    third = convert(d + "/o3/" + name, "o3", case.get("given", False))
    check(third == first, "converting a file in its place gives another result than converting it to another directory")
    return Seen((total, name, len(processed)), steps=3, execs=3, nontrivial=bool(raw))


TEXT = "It is a truth universally acknowledged, that a SINGLE man in possession of a good fortune, must be in want of a wife.\n\nHowever little known the feelings or views of such a man\u2014caf\u00e9, na\u00efve \u4e2d\u6587 \U0001f642!\n\n\n"
ALL = "".join(chr(c) for c in list(range(0, 13)) + list(range(14, 20)) + list(range(0x17, 0x100))) + "\u4e2d\u6587\U0001f642\uffff"


def explore(tier):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_c22")
    files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(driver.REPO, "tokens/*.json")))
    datas = [[["", 0]], [["a", 1]], [["Hello World", 1]], [[TEXT, 3]], [[ALL, 2]], [["\u00ff\u0100\n", 50]], [["x" * 5000, 1]]]
    v = [{"file": f, "data": x, "given": g} for f in files for x in datas for g in (False, True)]
    v += [{"file": f, "data": [], "path": "data/pride.txt", "upto": n} for f in files for n in ([20000] if not deep else [20000, 1 << 30])]
    run(res, "shipped sets", v, judge)

    # Generated sets.
    texts = [[["ab\u00e9a\u4e2dbb a\n\nAb AB aB\n", 2]], [["aababaabbbabab", 1]]]
    toks = ["ab", "ba", "aab", "a", "b", "\xc3", "\xc3\xa9", "\xa9", "\n\n", "\xff\xfe", "\xe4\xb8", "\"\\", "\x00", "\x16", "bab", " "]
    v = []
    for t in ("bits1", "bits2", "bits4", "bytes"):
        base = [chr(b) for b in range(256)] if t == "bytes" else []
        pool = [x for x in toks if x not in base]
        for sub in ([[]] + [[a] for a in pool] + [[a, b] for a in pool for b in pool if a != b]):
            i = len(v)
            v.append({"set": {"type": t, "tokens": base + sub if i % 2 else sub + base, "processing": ("raw", "capswords")[i // 2 % 2], "flag": bool(i // 4 % 2), "noflag": i % 16 == 0}, "data": texts[i % 2], "given": bool(i // 2 % 2), "indent": [None, 1][i // 8 % 2]})
        v.append({"set": {"type": t, "tokens": base + [x for x in pool]}, "data": texts[0]})
        v.append({"set": {"type": t, "tokens": list(reversed(base + [x for x in pool])), "processing": "capswords"}, "data": texts[0]})
    if True:
        # bits sets in which every byte has a token
        for t in ("bits1", "bits2", "bits4"):
            for k in (255, 256):
                v.append({"set": {"type": t, "tokens": [chr(b) for b in range(k)]}, "data": [[ALL, 1]]})
    run(res, "generated sets", v, judge)

    # Frequency-based sets: each pair of top bytes, arity and extra tokens.
    v = []
    for ext in (3, 4, 7, 16):
        for tops in ("a", "ab", " e\xc3", "\x80\xff\x00"):
            for extra in ([], ["ab"], ["ab", "\xc3\xa9", "ba\n"], ["aa", "aaa", "aaaa"]):
                for proc in ("raw", "capswords"):
                    v.append({"set": huff(ext, tops, extra, proc), "data": texts[len(v) % 2], "given": bool(len(v) % 3 == 0)})
    run(res, "frequency-based sets", v, judge)
    # Fallback sequences of a single (extension) token.
    v = []
    for n in (3, 16, 128, 255):
        for tops in ("a", " e\xc3"):
            for extra in ([], ["ab", "\xc3\xa9", "ba\n"]):
                for proc in ("raw", "capswords"):
                    v.append({"set": single(n, tops, extra, proc), "data": texts[len(v) % 2], "given": bool(len(v) % 3 == 0), "indent": [None, 1][len(v) // 2 % 2]})
    run(res, "fallback sequences of a single token", v, judge)

    # Raw data of any size with the processed data given.
    v = []
    for size in (2 ** 24, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 34, 2 ** 40 + 1, 2 ** 43 + 12345):
        for x in texts + [[["a", 1]], [["", 0]]]:
            for s in ({"type": "bits4", "tokens": ["ab", "a"], "processing": "capswords"}, huff(3, "ab", ["ab", "\n\n"], "capswords")):
                v.append({"set": s, "data": x, "given": True, "raw_size": size})
    run(res, "raw data of many gigabytes", v, judge)

    # Data around the sizes at which the program switches between chunks and
    # to several threads.
    v = []
    for size in (CHUNK, 2 * CHUNK) + ((3 * CHUNK,) if deep else ()):
        for d in (-1, 0, 1, 40) if deep else (-1, 1):
            for unit, tail in (("ab \u4e2d\n\n", "z\u4e2d"), ("x" * 63 + "\n", "\u00e9\u00e9"), ("q", "\u4e2d" * 9)):
                n = (size + d) // len(unit.encode())
                rest = (size + d) - n * len(unit.encode())
                for s in ({"type": "bits4", "tokens": ["x"]}, huff(3, "ab", ["ab", "\n\n"], "raw")):
                    v.append({"set": dict(s, processing="raw"), "data": [["y", rest], [unit, n], [tail, 1]]})
    v.append({"set": {"type": "bits2", "tokens": ["a", "\x16", "\n"], "processing": "capswords"}, "data": [["Ab AB a\n\n", CHUNK // 6]]})
    run(res, "data around chunk sizes", v, judge, workers=4)
    return res


def huff(ext, tops, extra, proc):
    """Every other byte: a top byte and some extension tokens (base `ext`)."""
    seqs = []
    n = [0] * len(tops)
    for c in range(256):
        if chr(c) in tops:
            continue
        k = c % len(tops)
        digits, x = [], n[k]
        for _ in range(6):
            digits.append(x % ext)
            x //= ext
        n[k] += 1
        # Fixed length after the top byte would be ambiguous with the byte
        # itself; extension tokens come first here.
        seqs.append((chr(c), [k % ext] + digits + [tops[k]]))
    return {"type": "byteshuff", "ext": ext, "tokens": list(tops) + extra, "sequences": seqs, "processing": proc}


def single(ext, tops, extra, proc):
    """As many bytes as possible are a single extension token; the last one
    begins the codes of the others."""
    rest = [c for c in range(256) if chr(c) not in tops]
    seqs = [(chr(c), [i]) for i, c in enumerate(rest[:ext - 1])]
    for i, c in enumerate(rest[ext - 1:]):
        digits = []
        for _ in range(8):
            digits.append(i % (ext - 1))
            i //= ext - 1
        seqs.append((chr(c), [ext - 1] + digits + [tops[0]]))
    return {"type": "byteshuff", "ext": ext, "tokens": list(tops) + extra, "sequences": seqs, "processing": proc}


def replay(family, case):
    setup()
    return rep(judge, case)
