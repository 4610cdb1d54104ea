"""C04-C07, C15 on complete runs of convert-tokens; C16 on optimize with
growing data."""
import itertools, json, os, re
import driver, m_c22, optcli, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = SHIM = None


def setup():
    global EXE, SHIM
    EXE, SHIM = driver.build_cli(), driver.build_shim()
    m_c22.setup()


def stats_of(case, d, env=None, out="out"):
    """Converts and returns (set, stats) or None if there is no result (which
    C22 and C24 judge)."""
    s = case["set"]
    if isinstance(s, str):
        doc = json.loads(ref.read(os.path.join(driver.REPO, "tokens", s)).decode("utf8"))
    else:
        doc = ref.make(s["type"], [t.encode("latin1") for t in s["tokens"]], s.get("processing", "raw"), s.get("flag", True),
                       {k.encode("latin1"): [x if isinstance(x, int) else x.encode("latin1") for x in v] for k, v in s.get("sequences", [])}, s.get("ext"))
    ts = ref.Set(doc)
    p = ts.problems()
    if p:
        raise driver.CheckError("invalid input set: " + p)
    raw = m_c22.data_of(case)
    processed = raw if ts.processing == "raw" else ref.process_file(raw)
    if not os.path.exists(d + "/raw"):
        ref.write(d + "/raw", raw)
        ref.write(d + "/processed", processed)
        ref.write(d + "/in.json", json.dumps(doc))
    os.mkdir(d + "/" + out)
    r = ref.Texmo(EXE, SHIM).run(d, "convert-tokens", "-d", d + "/raw", "--processed-data", d + "/processed", "-i", d + "/in.json", "-t", d + "/" + out, env=env, timeout=case.get("timeout", 120))
    docs = []
    for f in os.listdir(d + "/" + out):
        try:
            docs.append(ref.load("%s/%s/%s" % (d, out, f)))
        except ValueError:
            pass
    return ts, processed, docs[0] if len(docs) == 1 and r.rc == 0 else None, r


def judge(case, d, prop):
    if prop == "C06":
        want = None
        for i, env in enumerate(case["envs"]):
            ts, processed, doc, r = stats_of(case, d, env, "out%d" % i)
            check(not r.timeout, "%s: did not end", env)
            check(doc is not None, "%s: exit status %s: %s", env, r.rc, r.err.decode("utf8", "replace")[-300:])
            if want is None:
                want = ts.total(processed)
            st = doc["stats"]
            check((st["total_tokens"], st["scanned_bytes"]) == (want, len(processed)), "%s: %s tokens for %s bytes instead of %s for %s", env, st["total_tokens"], st["scanned_bytes"], want, len(processed))
        return Seen((want, len(processed)), steps=len(case["envs"]), execs=len(case["envs"]))
    ts, processed, doc, r = stats_of(case, d, case.get("env"))
    if doc is None or "stats" not in doc:
        return Seen("no result", nontrivial=False)
    st = doc["stats"]
    total = ts.total(processed)
    if prop == "C07":
        m_c22.same_set(ref.Set(doc), ts, "the written set")
        names = [x for x, _ in ref.Set(doc).written]
        check(len(names) == len(set(names)), "a fallback sequence is written twice")
    elif prop == "C15":
        check(st.get("scanned_bytes") == len(processed), "%s bytes scanned of %d", st.get("scanned_bytes"), len(processed))
        if case.get("exact"):
            check(st.get("total_tokens") == total, "%s tokens instead of %d", st.get("total_tokens"), total)
    else:
        check(st.get("total_tokens") == total, "%s tokens instead of %d", st.get("total_tokens"), total)
        if prop == "C05":
            check(st.get("scanned_bytes") == len(processed), "%s bytes scanned of %d", st.get("scanned_bytes"), len(processed))
    return Seen((total, ts.name()), nontrivial=total > 0)


def growing(case, d):
    """C16: the size of the samples that optimizing with growing data takes."""
    raw, processed, start = optcli.prepare(case, d)
    r = ref.Texmo(EXE).run(d, *optcli.args(case, d))
    got = [int(x) for x in re.findall(rb"Optimizing with (\d+) bytes", r.out)]
    par = [len(p) for p in re.findall(rb"(?:(?!\n\n).)*(?:\n\n+|\Z)|.+", processed, re.S) if p]
    size = case["min"]
    for x in got[:1]:
        # By how much later samples grow is up to the program.
        check(abs(x - size) <= max(par) + 1, "a sample of %d bytes for %d requested, the largest paragraph has %d", x, size, max(par))
    return Seen(tuple(got), nontrivial=bool(got))


CHUNK = m_c22.CHUNK
SETS = [
    {"type": "bits1", "tokens": ["ab", "bc", "abc", "c"]}, {"type": "bits2", "tokens": ["aa", "aaa", "ab", "ba"]},
    {"type": "bits4", "tokens": ["a", "aab", "aba", "ba", "\n\n"]}, {"type": "bytes", "tokens": [chr(b) for b in range(256)] + ["ab", "bab", "abab"]},
    {"type": "bits1", "tokens": ["abcab", "cabc", "bca", "b", "\xc3\xa9\xc3", "\xa9\xc3\xa9"]}, {"type": "bits2", "tokens": ["b" * k for k in (1, 2, 3, 5, 8)]},
    {"type": "bits4", "tokens": ["abacab", "acaba", "bac", "a" * 40, "ab" * 20]}, m_c22.huff(3, "ab", ["ab", "ba", "abc", "ca"], "raw"), m_c22.huff(4, "ac", ["aaa", "cab"], "raw"),
]


def explore(tier, prop):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_convert@" + prop)
    j = lambda c, d: judge(c, d, prop)
    if prop == "C16":
        texts = ["a\n\nbb\n\nccc\n\ndddd\n\n", "aaaa\n\n\n\nb\nb\n\nccccccccc", "\n\nab\n\n" * 6, "one two\n\nthree\n\nfour five six\n\nseven\n\n" * 3, "ab\n\n" * 20]
        v = [{"data": t, "type": "bits1", "n": 3, "min": m} for t in texts for m in range(1, len(t))]
        run(res, "texts x minimum sizes", v, growing)
        return res
    if prop == "C06":
        # Samples below, around and above the queue and the number of workers.
        sets = [SETS[2], SETS[7]] if deep else [SETS[2]]
        v = []
        for s in sets:
            for data in ([["ab\n\n", 1 << 23], ["aab", 1]], [["abaab aaba\n\n", 3600000], ["a", 5000000]]) + (([["a", 3 * CHUNK], ["ba\n\n", CHUNK]],) if deep else ()):
                for envs in ([{"MCS_CPUS": "1"}, {"MCS_CPUS": "2"}], [{"MCS_CPUS": "3"}, {"MCS_CPUS": "8"}], [{"MCS_CPUS": "5", "MCS_MAXREAD": "100000"}, {"MCS_CPUS": "16"}]):
                    v.append({"set": s, "data": data, "envs": envs, "timeout": 90})
        run(res, "free runs on data above 32 MiB", v, j, workers=2, cap=1)
        return res
    if prop == "C15":
        v = []
        for size in (CHUNK, 2 * CHUNK) if deep else (CHUNK,):
            for dlt in (-2, -1, 0, 1, 2, 3):
                for unit, exact in (("ab\u4e2d\n\n", 1), ("\u4e2d", 1), ("\U0001f642", 1), ("\n", 1), ("ab\u00e9", 1)):
                    b = unit.encode()
                    n = (size + dlt) // len(b) - 2
                    for env in ({}, {"MCS_MAXREAD": "65537"}):
                        if env and dlt != 1 and not deep:
                            continue
                        v.append({"set": {"type": "bits4", "tokens": ["a", "\n"]}, "data": [["y", (size + dlt) % len(b)], [unit, n], [unit, 2], ["z", 1]], "exact": exact, "env": env or None})
        run(res, "files around the chunk size", v, j)
        return res
    # One file per set that contains all short words over its alphabet.
    v = []
    for s in SETS:
        for alpha, hi in (("ab", 12), ("abc", 8), ("abc\n", 6), ("a\u00e9b", 6)):
            if deep:
                hi += 3 if len(alpha) == 2 else 1
            for w in range(3):
                v.append({"set": dict(s, processing="raw"), "data": [["".join(ref.words(list(alpha), hi - 2 + w, hi - 2 + w)), 1]]})
    run(res, "all words of a length in one text", v, j)
    v = []
    step = 1 if deep or prop == "C04" else 5
    for i, t in enumerate(itertools.islice(ref.words(["a", "b", "c"], 1, 6), 0, None, step)):
        v.append({"set": dict(SETS[i % len(SETS)], processing="raw"), "data": [[t, 1]]})
    if prop != "C07":
        run(res, "short words" + ("" if deep else ", every %dth" % step), v, j)
    import glob
    files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(driver.REPO, "tokens/*.json")))
    v = [{"set": f, "data": x} for f in files for x in ([[m_c22.TEXT, 3]], [[m_c22.ALL, 2]])]
    run(res, "shipped sets", v, j)
    if prop == "C07":
        toks = ["ab", "\xff\xfe", "\xe4\xb8", "\"\\", "\x00", "\xc3", "\xc3\xa9", "\xf0\x9f\x99", "\xed\xa0\x80", "a\xff", "\u007f\x80"]
        v = []
        for t in ("bits1", "bits2", "bits4", "bytes"):
            base = [chr(b) for b in range(256)] if t == "bytes" else []
            for a, b in itertools.permutations([x for x in toks if x not in base], 2):
                k = len(v)
                v.append({"set": {"type": t, "tokens": [a] + base + [b], "processing": ("raw", "capswords")[k % 2], "flag": bool(k // 2 % 2)}, "data": [["ab", 1]]})
        for ext in (3, 5):
            for tops in ("a", "\x80\xff", "\xc3\""):
                for extra in ([], ["ab"], ["\xff\xfe", "ab"]):
                    v.append({"set": m_c22.huff(ext, tops, extra, "raw"), "data": [["ab", 1]]})
        run(res, "token strings", v, j)
    return res


def replay(family, case, prop):
    setup()
    return rep(growing if prop == "C16" else lambda c, d: judge(c, d, prop), case)
