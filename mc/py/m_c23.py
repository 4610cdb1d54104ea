"""C23: every intermediate save, at whatever step the clock triggers it."""
import os, re, shutil
import driver, optcli, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = SHIM = None


def setup():
    global EXE, SHIM
    EXE, SHIM = driver.build_cli(), driver.build_shim()
    ref.lib()


def saves(case, d, clock, tag, data="data", args=None):
    """Runs with this clock; returns the files written, in order, and the
    number of clock readings."""
    out, keep, logf = d + "/out" + tag, d + "/keep" + tag, d + "/log" + tag
    for x in (out, keep):
        os.mkdir(x)
    env = {"MCS_CLOCK": clock, "MCS_KEEP": keep, "MCS_LOG": logf, "MCS_SEED": "1", "TMPDIR": keep + "/.."}
    r = ref.Texmo(EXE, SHIM).run(d, *optcli.args(case, d, out="out" + tag), env=env, timeout=120)
    check(not r.timeout, "optimize with clock %s: did not end", clock)
    check(r.rc == 0, "optimize with clock %s: exit status %s: %s", clock, r.rc, r.err.decode("utf8", "replace")[-300:])
    files = []
    for f in sorted(os.listdir(keep)):
        name = f[4:]
        if name.endswith(".json") and os.path.exists(os.path.join(out, name)):
            files.append((name, ref.read(os.path.join(keep, f))))
    # Files that got their name otherwise; the result is the last one written.
    for f in sorted(os.listdir(out), key=lambda f: os.stat(os.path.join(out, f)).st_mtime_ns):
        text = ref.read(os.path.join(out, f))
        if (f, text) not in files:
            files.append((f, text))
    files.sort(key=lambda x: b'"stats"' in x[1])
    log = ref.read(logf).decode()
    return files, len(re.findall(r"^clock ", log, re.M))


def judge(case, d):
    raw, processed, start = optcli.prepare(case, d)
    r = ref.Texmo(EXE).run(d, *optcli.args(case, d), timeout=120)
    if r.rc != 0:
        return Seen("fails without any save", nontrivial=False)
    every, readings = saves(case, d, "all", "-all")
    check(every, "nothing written")
    final_name, final = every[-1]
    inter = every[:-1]
    ends, execs = {}, 1
    for i, (name, text) in enumerate(inter):
        what = "save %d (%s)" % (i, name)
        doc, ts = usable(what, name, text, case)
        if start is None or not any(ref.crosses(t) for t in start.strings()):
            bad = [t for t in ts.strings() if ref.crosses(t)]
            check(not bad, "%s: token %r crosses a paragraph break", what, bad[:1])
        key = ts.key()
        if key in ends:
            continue
        before = ts.total(processed)
        # Resume.
        o = "out-r%d" % i
        os.mkdir(d + "/" + o)
        ref.write(d + "/input.json", text)
        r = ref.Texmo(EXE).run(d, *optcli.args(dict(case, input=True, min=None), d, out=o), timeout=120)
        check(not r.timeout and r.rc == 0, "resuming from %s: exit status %s: %s", what, r.rc, r.err.decode("utf8", "replace")[-300:])
        done = [ref.load("%s/%s/%s" % (d, o, f)) for f in os.listdir(d + "/" + o)]
        done = [x for x in done if "stats" in x]
        check(len(done) == 1, "resuming from %s: no result", what)
        total = ref.Set(done[0]).total(processed)
        check(total <= before, "resuming from %s ends with %d tokens instead of at most %d", what, total, before)
        ends[key] = total
        execs += 1
    # One save at a time: at the step the clock says and with the same content
    # as when every step is saved.
    if start is not None:
        optcli.prepare(case, d)
    single = case.get("single", 0)
    ks = list(range(2, readings + 1))
    if len(ks) > single:
        step = max(1, len(ks) // max(1, single))
        ks = ks[::step][:single]
    known = [t for _, t in every]
    for k in ks:
        files, _ = saves(case, d, str(k), "-%d" % k)
        execs += 1
        check(files and files[-1] == (final_name, final), "with a save at reading %d the result differs", k)
        for name, text in files[:-1]:
            if text not in known:
                # A search that goes another way is judged by itself.
                usable("save at clock reading %d (%s)" % (k, name), name, text, case)
    return Seen((len(inter), final), steps=len(inter) + len(ks), execs=execs, nontrivial=bool(inter), states=len(ends) + 1)


def usable(what, name, text, case):
    import json
    try:
        doc = json.loads(text.decode("utf8"))
        ts = ref.Set(doc)
    except (ValueError, KeyError, TypeError) as e:
        raise Violation("%s is not a complete token set: %s: %r" % (what, e, text[-60:]))
    optcli.valid(ts, name, case, what)
    return doc, ts


TEXTS = ["abababcbcbab\n\nab cab\n\n\ncab", "\n\n\n\na\n\n\na\n\n\n\nb\n\nab\n\n", "the cat sat on the mat. The Cat SAT\n\nthe mat\n",
         "\u4e2d\u6587\u4e2d\u6587\n\n\u4e2d\u4e2d\u6587 \u00e9\u00e9\u00e9\n", "aaaaaaaaaaaaaaaaaaaaaaa", "a\n\nb"]
NS = {"bits1": [3, 7], "bits2": [6, 12], "bits4": [17, 24], "bytes": [257, 262], "byteshuff": [4, 9, 14]}


def explore(tier):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_c23")
    v = []
    for i, t in enumerate(TEXTS):
        for ty, ns in NS.items():
            for n in ns + ([ns[-1] + 6] if deep else []):
                for proc in ("raw", "capswords"):
                    if not deep and proc == "capswords" and i not in (0, 2):
                        continue
                    v.append({"data": t, "type": ty, "n": n, "processing": proc, "single": 100 if deep else 3})
    run(res, "every step saved, every save resumed", v, judge)
    inputs = {"bits1": {"tokens": ["a", "ab", "cb"]}, "bits2": {"tokens": ["\u00c3\u00a9", "at", "x"], "flag": False}, "bits4": {"tokens": ["ab", "b", "a"]},
              "bytes": {"tokens": ["zz"] + [chr(b) for b in range(256)] + ["ab", "aa"]}, "byteshuff": optcli.huff_input("a\n", ["ab", "zzz"])}
    v = []
    for t in TEXTS:
        for ty, inp in inputs.items():
            base = len(inp["tokens"]) + (inp.get("ext") or ref.EXT.get(ty, 0))
            for extra in (0, 1, 4):
                v.append({"data": t, "type": ty, "n": base + extra, "input": inp, "single": 100 if deep else 1})
    run(res, "starting from an input set", v, judge)
    v = [{"data": t, "type": ty, "n": NS[ty][-1], "min": m, "single": 2} for t in (TEXTS[0], TEXTS[2]) for ty in NS for m in (5, 20)]
    run(res, "with growing data", v, judge)
    w = [t for t in ref.words(["a", "b", "\n"], 3, 5 if not deep else 6) if t.count("\n") != len(t)]
    if not deep:
        w = [t for t in w if t[0] != "b"]
    run(res, "all short texts", [{"data": t, "type": ty, "n": n, "single": 1} for t in w for ty, n in (("bits1", 5),)] + [{"data": t * 2, "type": "byteshuff", "n": 6, "single": 1} for t in w if len(t) == 4], judge)
    return res


def replay(family, case):
    setup()
    return rep(judge, case)
