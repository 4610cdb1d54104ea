"""Optimize runs of the real program and what must hold of their results."""
import json, math, os
import driver, ref
from space import Violation, check

CHUNK = 1 << 24


def args(case, d, data="data", out="out"):
    a = ["optimize", "-d", "%s/%s" % (d, data), "-t", "%s/%s" % (d, out), "--type=" + ref.TYPE_ARG[case["type"]],
         "-p", ref.PROC_ARG[case.get("processing", "raw")], "-n", str(case["n"])]
    if case.get("input"):
        a += ["-i", d + "/input.json"]
    if case.get("min") is not None:
        a += ["--min-data-size", str(case["min"])]
    if case.get("given"):
        a += ["--processed-data", d + "/processed"]
    return a


def text_of(case):
    t = case["data"]
    return t if isinstance(t, str) else "".join(s * n for s, n in t)


class Sparse:
    """Raw data of which only the size matters, as the processed data is given."""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


def prepare(case, d):
    raw = text_of(case).encode("utf8")
    processed = raw if case.get("processing", "raw") == "raw" else ref.process_file(raw)
    if case.get("raw_size"):
        raw = Sparse(case["raw_size"])
        with open(d + "/data", "wb") as f:
            f.truncate(len(raw))
    else:
        ref.write(d + "/data", raw)
    ref.write(d + "/processed", processed)
    os.makedirs(d + "/out", exist_ok=True)
    start = None
    if case.get("input"):
        i = case["input"]
        doc = ref.make(case["type"], [t.encode("latin1") for t in i["tokens"]], case.get("processing", "raw"), i.get("flag", True),
                       {k.encode("latin1"): [x if isinstance(x, int) else x.encode("latin1") for x in v] for k, v in i.get("sequences", [])}, i.get("ext"))
        start = ref.Set(doc)
        p = start.problems()
        if p:
            raise driver.CheckError("invalid input set: " + p)
        ref.write(d + "/input.json", json.dumps(doc))
    return raw, processed, start


def plain(case, processed):
    """The fallback set of a type that has no tokens to choose."""
    t = case["type"]
    if t == "byteshuff":
        return None
    return ref.Set(ref.make(t, [bytes([b]) for b in range(256)] if t == "bytes" else [], case.get("processing", "raw")))


def result(r, d, case, processed, raw, out="out", what="optimize", only=True):
    check(not r.timeout, "%s: did not end", what)
    check(r.rc == 0, "%s: exit status %s: %s", what, r.rc, r.err.decode("utf8", "replace")[-400:])
    files = os.listdir("%s/%s" % (d, out))
    docs = []
    for f in files:
        try:
            doc = ref.load("%s/%s/%s" % (d, out, f))
        except ValueError as e:
            raise Violation("%s: %s is not JSON: %s" % (what, f, e))
        if "stats" in doc:
            docs.append((f, doc))
    check(len(docs) == 1 and (not only or len(files) == 1), "%s: wrote %s", what, sorted(files))
    f, doc = docs[0]
    ts = ref.Set(doc)
    valid(ts, f, case, what)
    st = doc["stats"]
    total = ts.total(processed)
    check(st.get("ntokens") == len(ts.tokens), "%s: ntokens %s instead of %d", what, st.get("ntokens"), len(ts.tokens))
    check(st.get("total_tokens") == total, "%s: total_tokens %s instead of %s for the complete data", what, st.get("total_tokens"), total)
    check(st.get("scanned_bytes") == len(processed), "%s: scanned_bytes %s instead of %d", what, st.get("scanned_bytes"), len(processed))
    check(st.get("initial_size") == len(raw), "%s: initial_size %s instead of %d", what, st.get("initial_size"), len(raw))
    if total:
        b = st.get("bytes_per_token")
        check(isinstance(b, (int, float)) and math.isclose(b, len(raw) / total, rel_tol=1e-12), "%s: bytes_per_token %s instead of %s", what, b, len(raw) / total)
    return ts, total, f


def valid(ts, filename, case, what):
    p = ts.problems(unique=False)
    check(not p, "%s: %s: %s", what, filename, p)
    check(ts.type == case["type"], "%s: type %s", what, ts.type)
    check(ts.processing == case.get("processing", "raw"), "%s: processing %s", what, ts.processing)
    check(len(ts.tokens) <= case["n"], "%s: %d tokens for a budget of %d", what, len(ts.tokens), case["n"])
    check(filename == ts.name() + ".json", "%s: %s holds %s", what, filename, ts.name())


def huff_input(tops, extra, ext=3, digits=6):
    """A frequency-based set: other bytes are extension tokens then a top byte."""
    seqs = []
    n = [0] * len(tops)
    for c in range(256):
        if chr(c) in tops:
            continue
        k = c % len(tops)
        ds, x = [], n[k]
        for _ in range(digits):
            ds.append(x % ext)
            x //= ext
        n[k] += 1
        seqs.append((chr(c), [k % ext] + ds + [tops[k]]))
    return {"tokens": list(tops) + extra, "sequences": seqs, "ext": ext}
