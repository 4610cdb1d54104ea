"""C24: every single fault, and every pair of faults, at every I/O call of
every command that writes a file."""
import os, re, shutil
import driver, optcli, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = SHIM = None

FAULTS = {"open": ["eio", "enospc", "eacces", "eintr"], "read": ["eio", "eintr", "one", "half", "allbutone"],
          "write": ["eio", "enospc", "eintr", "one", "half", "allbutone", "zero"], "lseek": ["eio"], "stat": ["eio"],
          "rename": ["eio", "enospc"], "sync": ["eio"], "truncate": ["eio", "enospc"], "unlink": ["eio"], "mkdir": ["enospc"]}
# Errors that programs are tempted to treat specially.
MORE = {"open": ["enoent", "einval", "eagain"], "read": ["eagain", "einval", "epipe", "etimedout"], "write": ["epipe", "eagain", "einval", "efbig", "etimedout"],
        "lseek": ["einval"], "stat": ["enoent", "eacces", "enosys"], "rename": ["eacces"], "sync": ["einval"], "truncate": ["einval"], "unlink": ["enoent"], "mkdir": ["eacces"]}


def setup():
    global EXE, SHIM
    EXE, SHIM = driver.build_cli(), driver.build_shim()


def build(case, d):
    """Files and arguments of the command."""
    c = case["cmd"]
    text = "".join(s * n for s, n in case["data"])
    ref.write(d + "/data", text)
    os.mkdir(d + "/out")
    os.mkdir(d + "/tmp")
    if c == "process":
        return ["process", "-d", d + "/data", "-o", d + "/out/result"]
    if c == "convert":
        ref.write(d + "/input.json", __import__("json").dumps(ref.make(case["type"], [t.encode() for t in case.get("tokens", [])] + ([bytes([b]) for b in range(256)] if case["type"] == "bytes" else []), case["processing"])))
        a = ["convert-tokens", "-d", d + "/data", "-i", d + "/input.json", "-t", d + "/out"]
    else:
        a = ["optimize", "-d", d + "/data", "-t", d + "/out", "--type=" + ref.TYPE_ARG[case["type"]], "-p", ref.PROC_ARG[case["processing"]], "-n", str(case["n"])]
        if case.get("min"):
            a += ["--min-data-size", str(case["min"])]
        if case.get("tokens") is not None:
            ref.write(d + "/input.json", __import__("json").dumps(ref.make(case["type"], [t.encode() for t in case["tokens"]], case["processing"])))
            a += ["-i", d + "/input.json"]
    if case.get("given"):
        ref.write(d + "/processed", ref.process_file(text.encode("utf8")))
        a += ["--processed-data", d + "/processed"]
    return a


def execute(case, d, plan, log=None, frm=None):
    a = build(case, d)
    env = {"TMPDIR": d + "/tmp", "MCS_SEED": "1"}
    if plan:
        env["MCS_PLAN"] = plan
    if frm:
        env["MCS_FROM"] = frm
    if log:
        env["MCS_LOG"] = log
    if case.get("clock"):
        env["MCS_CLOCK"] = case["clock"]
    r = ref.Texmo(EXE, SHIM).run(d, *a, env=env, timeout=60)
    out = {f: ref.read(d + "/out/" + f) for f in os.listdir(d + "/out")}
    return r, out


_base = {}


def undisturbed(case):
    key = repr(sorted((k, v) for k, v in case.items() if k not in ("plan", "from")))
    if key not in _base:
        with driver.Scratch() as d:
            d = os.path.join(d, "0")
            os.mkdir(d)
            r, out = execute(case, d, None, d + "/../log")
            check(r.rc == 0 and not r.timeout, "without faults: exit status %s: %s", r.rc, r.err.decode("utf8", "replace")[-300:])
            log = ref.read(d + "/../log").decode()
        calls = [m.group(2) for m in re.finditer(r"^(\d+) (open|read|write|lseek|stat|rename|sync|truncate|unlink|mkdir) ", log, re.M)]
        _base[key] = (out, calls)
    return _base[key]


def judge(case, d):
    want, _ = undisturbed(case)
    r, out = execute(case, d, case.get("plan"), frm=case.get("from"))
    what = "faults %s" % (case.get("plan") or "from " + case.get("from", ""))
    check(not r.timeout, "%s: did not end", what)
    if r.rc == 0:
        for f in want:
            check(f in out, "%s: success without %s", what, f)
            if out[f] != want[f]:
                k = next(i for i in range(len(want[f]) + 1) if out[f][i:i + 1] != want[f][i:i + 1])
                raise Violation("%s: success with %d bytes in %s instead of %d, first difference at %d" % (what, len(out[f]), f, len(want[f]), k))
    return Seen((case["cmd"], case.get("processing"), case.get("type"), r.rc, case.get("plan"), case.get("from")), nontrivial=True)


def commands(deep):
    small = [["It is a Truth universally\n\nacknowledged, THAT caf\u00e9 \u4e2d\u6587\n", 2]]
    mid = [["Ab cd EF\n\n", 900], ["\u4e2d\u6587 xyz", 1]]
    big = [["one Two THREE four\n", 1500]]
    yield {"cmd": "process", "data": small}
    yield {"cmd": "process", "data": mid}
    yield {"cmd": "process", "data": big}
    yield {"cmd": "process", "data": [["x" * 8191 + "\n", 2], ["\u4e2d" * 3000, 1]]}
    yield {"cmd": "process", "data": [["", 1]]}
    yield {"cmd": "convert", "type": "bits4", "processing": "raw", "tokens": ["a", "is"], "data": small}
    yield {"cmd": "convert", "type": "bytes", "processing": "raw", "tokens": ["is"], "data": mid}
    yield {"cmd": "convert", "type": "bits2", "processing": "capswords", "tokens": ["it\x16"], "data": mid}
    yield {"cmd": "convert", "type": "bits1", "processing": "capswords", "tokens": [], "data": big, "given": True}
    for ty, n in (("bits1", 4), ("bits2", 6), ("bits4", 18), ("bytes", 257), ("byteshuff", 5)):
        yield {"cmd": "optimize", "type": ty, "processing": "raw", "n": n, "data": small}
    yield {"cmd": "optimize", "type": "bits2", "processing": "capswords", "n": 6, "data": small}
    yield {"cmd": "optimize", "type": "bits1", "processing": "capswords", "n": 3, "data": mid}
    yield {"cmd": "optimize", "type": "bits1", "processing": "capswords", "n": 4, "data": small, "given": True}
    yield {"cmd": "optimize", "type": "bits2", "processing": "raw", "n": 6, "data": small, "min": 20}
    yield {"cmd": "optimize", "type": "bits2", "processing": "capswords", "n": 5, "data": [["a b C\n\n", 30]], "min": 50}
    yield {"cmd": "optimize", "type": "bits4", "processing": "raw", "n": 19, "data": small, "tokens": ["is", "a"]}
    yield {"cmd": "optimize", "type": "bits1", "processing": "raw", "n": 5, "data": small, "clock": "all"}
    yield {"cmd": "optimize", "type": "bits1", "processing": "capswords", "n": 5, "data": small, "clock": "all", "min": 30}
    # Samples of data that takes several reads and changes on the way.
    change = [["ab\n\n", 2100], ["cdcd\n\n", 1500], ["cde\n\n", 900]]
    yield {"cmd": "optimize", "type": "bits1", "processing": "raw", "n": 4, "data": change, "min": 6000}
    yield {"cmd": "optimize", "type": "byteshuff", "processing": "capswords", "n": 5, "data": change, "min": 15000}
    yield {"cmd": "optimize", "type": "bytes", "processing": "raw", "n": 257, "data": change}


def explore(tier):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_c24")
    singles, persistent, doubles = [], [], []
    listing = {}
    for c in commands(deep):
        try:
            _, calls = undisturbed(c)
        except Violation as v:
            # Not a matter of faults: the command fails by itself.
            res.extra.setdefault("commands that fail without any fault", []).append("%s: %s" % (c["cmd"], v))
            continue
        k = "%s %s %s" % (c["cmd"], c.get("type", ""), c.get("processing", ""))
        listing[k] = listing.get(k, 0) + len(calls)
        for i, kind in enumerate(calls):
            for a in FAULTS[kind] + MORE[kind]:
                singles.append(dict(c, plan="%d:%s" % (i, a)))
            for a in ("eio", "enospc", "one", "half", "epipe", "eagain"):
                persistent.append(dict(c, **{"from": "%d:%s" % (i, a)}))
            if kind in ("read", "write") or deep:
                # After a short transfer there is one call more.
                for j in range(i + 1, min(len(calls) + 1, i + (4 if not deep else 30))):
                    kj = calls[min(j, len(calls) - 1)]
                    f1 = [a for a in FAULTS[kind] if a in ("eintr", "one", "half", "allbutone") or deep]
                    f2 = [a for a in FAULTS[kj] if a not in ("eacces", "allbutone") or deep]
                    doubles += [dict(c, plan="%d:%s,%d:%s" % (i, a, j, b)) for a in f1 for b in f2]
    res.extra["calls"] = listing
    run(res, "every single fault", singles, judge)
    run(res, "every fault that persists", persistent, judge)
    run(res, "pairs of faults" + ("" if deep else " up to three calls apart"), doubles, judge)
    return res


def replay(family, case):
    setup()
    return rep(judge, case)
