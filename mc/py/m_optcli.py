"""C09-C14 on complete runs of the optimize command."""
import os
import driver, optcli, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = None


def setup():
    global EXE
    EXE = driver.build_cli()
    ref.lib()


class NoResult(Exception):
    """The run failed or its result can't be read: a matter of C11."""


def load(r, d, out, what):
    if r.timeout or r.rc != 0:
        raise NoResult(what)
    files = [f for f in os.listdir(d + "/" + out)]
    docs = [(f, ref.load("%s/%s/%s" % (d, out, f))) for f in files]
    docs = [(f, x) for f, x in docs if "stats" in x] or docs
    if not docs:
        raise NoResult(what)
    return ref.Set(docs[0][1]), docs[0][0]


def judge(case, d, prop):
    try:
        return _judge(case, d, prop)
    except NoResult as e:
        return Seen(("no result", str(e)), nontrivial=False)


def _judge(case, d, prop):
    raw, processed, start = optcli.prepare(case, d)
    tx = ref.Texmo(EXE)
    r = tx.run(d, *optcli.args(case, d), timeout=case.get("timeout", 60))
    if prop == "C11":
        ts, total, name = optcli.result(r, d, case, processed, raw)
        if start is not None:
            allowed = set(start.strings())
        else:
            allowed = set()
        bad = [t for t in ts.strings() if len(t) > 1 and t not in processed and t not in allowed]
        check(not bad, "token %r does not occur in the data", bad[:1])
        return Seen((name, total))
    ts, name = load(r, d, "out", "optimize")
    if prop == "C17":
        # Statistics come out of the cache; they must be those of the set.
        st, total = ts.doc.get("stats", {}), ts.total(processed)
        check(st.get("total_tokens") == total, "%s: the statistics saved with it say %s tokens, actually %d", name, st.get("total_tokens"), total)
        check(st.get("ntokens") == len(ts.tokens), "%s: the statistics saved with it say %s token types", name, st.get("ntokens"))
        return Seen((name, total))
    if prop == "C08":
        # What a long history of edits left.
        p = ts.problems()
        check(not p, "%s: %s", name, p)
        return Seen(ts.key())
    if prop == "C09":
        p = ts.problems()
        check(not p, "%s: %s", name, p)
        return Seen(ts.key())
    if prop == "C14":
        bad = [t for t in ts.strings() if ref.crosses(t) and not (start and t in start.strings())]
        check(not bad, "token %r crosses a paragraph break", bad[:1])
        return Seen(ts.key())
    total = ts.total(processed)
    if prop == "C10":
        # Data whose only pairs are not allowed: bytes are all there is to choose.
        need = top_bytes(case, processed)
        check(total == need, "%s needs %d tokens, the best choice of bytes %d", name, total, need)
        return Seen((name, total))
    if prop == "C12":
        begin = start or optcli.plain(case, processed)
        if begin is not None:
            check(total <= begin.total(processed), "ends with %d tokens, began with %d", total, begin.total(processed))
    # Once more from the result.
    last, execs = total, 1
    for k in range(2):
        os.rename("%s/out%s/%s" % (d, "" if k == 0 else str(k), name), d + "/input.json")
        out = "out%d" % (k + 1)
        os.mkdir(d + "/" + out)
        r = tx.run(d, *optcli.args(dict(case, input=True), d, out=out), timeout=case.get("timeout", 60))
        ts, name = load(r, d, out, "optimizing again")
        again = ts.total(processed)
        execs += 1
        if prop == "C12":
            check(again <= last, "optimizing again ends with %d tokens instead of at most %d", again, last)
        elif prop == "C13":
            check(again >= last, "optimizing again ends with %d tokens instead of %d: the first run stopped early", again, last)
        last = again
        if prop == "C13":
            break
    return Seen((name, total, last), steps=execs, execs=execs)


def top_bytes(case, data):
    """Fewest tokens for bits types with the best single bytes."""
    ext = ref.EXT[case["type"]]
    width = {2: 8, 4: 4, 16: 2}[ext]
    counts = sorted((data.count(bytes([b])) for b in set(data)), reverse=True)
    top = counts[:case["n"] - ext]
    return len(data) * width - sum(top) * (width - 1)


TEXTS = ["", "a", "\n", "ab", "\n\n\na\n\n\na", "abababcbcbab\n\nab cab\n\n\ncab", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "the cat sat on the mat. The Cat SAT\n\nthe mat\n",
         "\n\n\n\na\n\n\na\n\n\n\nb\n\nab\n\n", "\u4e2d\u6587\u4e2d\u6587\n\n\u4e2d\u4e2d\u6587 \u00e9\u00e9\u00e9\n", "x\n\ny\n\nx\n\ny\n\n", "abcdefgh\n\nhgfedcba", "\U0001f642\U0001f642 \U0001f642\n",
         "Aa AA aa A. A\n\nAA aa", "aab\naab\n\naab\n\n\n\naab", "ababab ababab\n\ncdcdcd cdcdcd\n\nabcdabcd"]
NS = {"bits1": [2, 3, 5, 9], "bits2": [4, 5, 8, 14], "bits4": [16, 17, 22], "bytes": [256, 257, 261], "byteshuff": [3, 4, 7, 13]}
INPUTS = {"bits1": {"tokens": ["a", "ab", "cb"]}, "bits2": {"tokens": ["ab\n", "at", "zzz"], "flag": False}, "bits4": {"tokens": ["ab", "b", "a", " "]},
          "bytes": {"tokens": ["zz"] + [chr(b) for b in range(256)] + ["ab", "aa"]}, "byteshuff": optcli.huff_input("a\n", ["ab", "zzz"])}


def explore(tier, prop):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_optcli@" + prop)
    j = lambda c, d: judge(c, d, prop)
    if prop == "C10":
        v = []
        letters = "abcdefghijklmnop"
        for ty in ("bits1", "bits2", "bits4"):
            for k in range(0, 9):
                for shape in range(6):
                    # Every letter is a paragraph of its own, so most pairs
                    # are not allowed; counts differ.
                    counts = [(i * (shape + 1)) % 5 + (1 if shape % 2 else 0) for i in range(1 + 2 * shape)]
                    t = "".join((c + "\n\n\n") * n for c, n in zip(letters, counts))
                    if k == 0:
                        v.append({"data": t, "type": ty, "n": ref.EXT[ty]})
        # Budgets with no room for a pair to be worth it: single-byte texts.
        for ty in ("bits1", "bits2", "bits4"):
            for t in ("", "a", "\u00e9", "ab", "abc"):
                for k in range(0, 4):
                    if len(t.encode()) <= 1 or k == 0:
                        v.append({"data": t, "type": ty, "n": ref.EXT[ty] + k})
        run(res, "bytes only", v, j)
        return res
    v = []
    for i, t in enumerate(TEXTS):
        for ty, ns in NS.items():
            for k, n in enumerate(ns):
                for proc in ("raw", "capswords"):
                    if deep or (i + k + (proc == "raw")) % 3 == 0 or prop in ("C11", "C14") and (i + k + (proc == "raw")) % 3 == 1:
                        v.append({"data": t, "type": ty, "n": n, "processing": proc, "given": k % 2 == 1})
    run(res, "texts x types x budgets", v, j)
    v = []
    for i, t in enumerate(TEXTS):
        for ty, inp in INPUTS.items():
            base = len(inp["tokens"]) + (inp.get("ext") or ref.EXT.get(ty, 0))
            for extra in (0, 1, 3):
                if deep or (i + extra) % 2 == 0:
                    v.append({"data": t, "type": ty, "n": base + extra, "input": inp})
    run(res, "with an input set", v, j)
    # Raw data of 16 GiB is read in another way. Only its size is looked at when
    # the processed data is given.
    v = []
    for i, t in enumerate(TEXTS):
        for k, (ty, ns) in enumerate(NS.items()):
            for j_, size in enumerate([2 ** 34, 2 ** 34 + 12345, 2 ** 34 - 1, 2 ** 32 + 7, 2 ** 40 + 1]):
                if deep or (i + k + j_) % 5 == 0:
                    v.append({"data": t, "type": ty, "n": ns[(i + j_) % len(ns)], "processing": "capswords", "given": True, "raw_size": size})
    run(res, "raw data of 4 GiB and more", v, j)
    # Budgets that leave room for every byte.
    v = [{"data": t, "type": ty, "n": n, "timeout": 200} for t in TEXTS[5:8] for ty, n in (("bits1", 262), ("bits2", 264), ("bits4", 275), ("byteshuff", 262))]
    if prop in ("C09", "C11") or deep:
        run(res, "budgets beyond all bytes", v, j)
    return res


def replay(family, case, prop):
    setup()
    return rep(lambda c, d: judge(c, d, prop), case)
