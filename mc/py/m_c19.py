"""C19: optimize --min-data-size through the real program."""
import itertools
import driver, optcli, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = None


def setup():
    global EXE
    EXE = driver.build_cli()
    ref.lib()


def judge(case, d):
    raw, processed, start = optcli.prepare(case, d)
    r = ref.Texmo(EXE).run(d, *optcli.args(case, d), timeout=case.get("timeout", 60))
    ts, total, name = optcli.result(r, d, case, processed, raw)
    rounds = r.out.count(b"Optimizing with")
    return Seen((name, total, rounds), steps=rounds + 1, nontrivial=rounds > 0)


TEXTS = [
    "a", "\n", "\n\n\n", "ab\n\n", "no final break", "a\n\nb\n\nc\n\nd",
    "aaaa\n\nbbbb\n\nabab\n\n", "one two\n\none two three\n\nfour\n\n\n\ntwo two two\n",
    "\n\nx\n\nAb AB aB\n\nab\n\nab ab\n\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\n\nb\n\nab\n\n",
    "b\n\nab\n\naaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\u4e2d\u4e2d\n\n\u00e9\n\n\U0001f642\u4e2d\n\n",
]
HUGE = [10 ** 12, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 32, 2 ** 32 - 1, 2 ** 24, 2 ** 34]
NS = {"bits1": [2, 6], "bits2": [4, 8], "bits4": [16, 20], "bytes": [256, 259], "byteshuff": [3, 8]}


def explore(tier):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_c19")
    v = []
    for ti, t in enumerate(TEXTS):
        size = len(t.encode("utf8"))
        for proc in ("raw", "capswords"):
            full = size if proc == "raw" else len(ref.process_file(t.encode("utf8")))
            for ty, ns in NS.items():
                for k, n in enumerate(ns):
                    for m in range(1, full + 3):
                        if not deep and m > 3 and m % 9 != (k + ti) % 9 and abs(m - full) > 1 and abs(m - full / 2) > 1:
                            continue
                        v.append({"data": t, "processing": proc, "type": ty, "n": n, "min": m})
                    v.append({"data": t, "processing": proc, "type": ty, "n": n, "min": HUGE[len(v) % len(HUGE)]})
                    if k == ti % 2:
                        v.append({"data": t, "processing": proc, "type": ty, "n": n, "min": 0})
    run(res, "texts x types x budgets x minimum sizes" if deep else "texts x types x budgets x minimum sizes (0-3, around half and all, every 9th other)", v, judge)
    v = []
    inputs = {"bits1": {"tokens": ["a", "ab"]}, "bits2": {"tokens": ["two", "one"]}, "bits4": {"tokens": ["ab\n", "b", "a"]},
              "bytes": {"tokens": [chr(b) for b in range(256)] + ["ab", "aa"]}, "byteshuff": optcli.huff_input("a\n", ["ab"])}
    for t in TEXTS[4:]:
        for ty, inp in inputs.items():
            for extra in (0, 2):
                n = len(inp["tokens"]) + (inp.get("ext") or ref.EXT.get(ty, 0)) + extra
                for m in (1, 2, 5, 9, len(t) // 2, len(t) - 1, len(t), 1000):
                    if not deep and (m + len(t) + extra) % 2:
                        continue
                    for proc in ("raw", "capswords"):
                        v.append({"data": t, "processing": proc, "type": ty, "n": n, "min": max(m, 1), "input": inp, "given": m % 2 == 0})
    run(res, "with an input set", v, judge)
    # All short texts.
    w = list(ref.words(["a", "\n", "b"], 1, 5 if not deep else 7))
    v = [{"data": t, "type": ty, "n": n, "min": m} for t in w for m in range(len(t) + 1) for ty, n in (("bits1", 4), ("byteshuff", 5))]
    if not deep:
        v = [c for c in v if len(c["data"]) <= 4 or c["type"] == "bits1"]
    run(res, "all short texts x all minimum sizes", v, judge)
    # Large enough to stop early, or to need several threads.
    big = [
        {"data": [["ab\n\n", 4275000]], "type": "bits1", "n": 3, "min": 17000000},
        {"data": [["ab\n\n", 4275000]], "type": "bits4", "n": 17, "min": 16800000},
        # The beginning is different, so the search doesn't stop early.
        {"data": [["aaaaaaa\n\n", 900000], ["b\n\n", 3300000]], "type": "bits2", "n": 5, "min": 17000000},
    ]
    if deep:
        big += [{"data": [["ab\n\n", 9000000]], "type": "bits1", "n": 4, "min": 17000000},
                {"data": [["ab\n\n", 9000000]], "type": "byteshuff", "n": 4, "min": 34000000},
                {"data": [["Ab\n\n", 3500000], ["\n\n", 1]], "processing": "capswords", "type": "bits4", "n": 17, "min": 17000000}]
    for c in big:
        c["timeout"] = 300
    run(res, "files above 16 MiB", big, judge, workers=4)
    return res


def replay(family, case):
    setup()
    return rep(judge, case)
