"""C25: what a command leaves alone. Every file of a prepared directory tree is
compared with its state before the command, for undisturbed runs, for every
single I/O fault, and for a kill at every I/O call."""
import json, os, re, shutil, stat
import driver, m_c24, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = SHIM = None


def setup():
    global EXE, SHIM
    EXE, SHIM = driver.build_cli(), driver.build_shim()
    m_c24.setup()


def snapshot(d):
    """Every entry below a directory: its kind, mode and contents."""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs + files:
            p = os.path.join(root, f)
            s = os.lstat(p)
            what = os.readlink(p) if stat.S_ISLNK(s.st_mode) else ref.read(p) if stat.S_ISREG(s.st_mode) else None
            out[os.path.relpath(p, d)] = (stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode), what)
    return out


def populate(d, case):
    """Inputs and bystanders."""
    text = "".join(s * n for s, n in case["data"])
    for x in ("in", "out", "tmp", "home", "cwd", "in/sub", "out/sub"):
        os.mkdir(d + "/" + x)
    ref.write(d + "/in/data", text)
    if case.get("link"):
        os.rename(d + "/in/data", d + "/in/sub/real")
        os.symlink("sub/real", d + "/in/data")
    ref.write(d + "/in/processed", ref.process_file(text.encode("utf8")))
    os.chmod(d + "/in/processed", 0o440)
    ty, proc = case.get("type", "bits2"), case.get("processing", "raw")
    ref.write(d + "/in/set.json", json.dumps(ref.make(ty if ty in ref.EXT else "bytes", [t.encode() for t in case.get("tokens") or ["is"]] + ([bytes([b]) for b in range(256)] if ty in ("bytes", "byteshuff") else []), proc), indent=3))
    # Bystanders, with names a program may think of for its own files.
    for f in ("in/data.processed", "in/data.tmp", "in/data.bak", "in/data~", "in/.data.swp", "in/set.json.bak", "in/set.json.tmp", "in/processed.tmp", "in/sub/data",
              "out/result.tmp", "out/result.bak", "out/notes", "out/set.json", "out/data", "out/tokens.json", "out/.tmp", "out/sub/tokens3_raw_bits1.json",
              "tmp/.tmpAAAAAA", "tmp/data", "tmp/data.processed", "tmp/processed", "tmp/texmo", "tmp/texmo.tmp", "tmp/processed.txt", "tmp/set.json",
              "cwd/data", "cwd/processed", "cwd/tokens.json", "cwd/result", "cwd/.tmp", "cwd/set.json", "home/.cache", "home/.texmo"):
        ref.write(d + "/" + f, "bystander " + f)
    other = {"raw": "capswords", "capswords": "raw"}[proc]
    for t in ref.EXT:
        if t != ty:
            ref.write(d + "/out/tokens9_%s_%s.json" % (proc, t), "bystander")
        ref.write(d + "/out/tokens9_%s_%s.json" % (other, t), "bystander")
    inv = case.get("invalid")
    if inv == "data":
        ref.write(d + "/in/data", b"Ab\xff\xfe cd\n" * 3)
    elif inv == "late data":
        ref.write(d + "/in/data", b"Ab cd\n" * 3000 + b"\xff")
    elif inv == "no data":
        os.remove(d + "/in/data")
    elif inv == "no processed":
        os.remove(d + "/in/processed")
    elif inv == "set":
        ref.write(d + "/in/set.json", '{"type": "bits2", "tokens": [0, 1')
    elif inv == "no set":
        os.remove(d + "/in/set.json")
    elif inv == "no out":
        shutil.rmtree(d + "/out")


def arguments(case, d):
    form = case.get("form", "absolute")
    i, o = {"absolute": (d + "/in/", d + "/out"), "relative": ("../in/", "../out"), "slash": (d + "/in/", d + "/out/"), "dots": ("../cwd/../in/./", "./../out/.")}[form]
    c = case["cmd"]
    if c == "pretty":
        return [i + "set.json"]
    if c == "count":
        return ["count-chars", "-d", i + "data"]
    if c == "process":
        return ["process", "-d", i + "data", "-o", o + "/result"]
    if c == "convert":
        a = ["convert-tokens", "-d", i + "data", "-i", i + "set.json", "-t", o]
    else:
        a = ["optimize", "-d", i + "data", "-t", o, "--type=" + ref.TYPE_ARG[case["type"]], "-p", ref.PROC_ARG[case["processing"]], "-n", str(case["n"])]
        if case.get("min"):
            a += ["--min-data-size", str(case["min"])]
        if case.get("tokens") is not None:
            a += ["-i", i + "set.json"]
    if case.get("given"):
        a += ["--processed-data", i + "processed"]
    return a


def may_change(case, path):
    c = case["cmd"]
    if c == "pretty":
        return path == "in/set.json"
    if c == "count":
        return False
    if c == "process":
        return path == "out/result"
    ty = "bytes" if case["type"] == "byteshuff" and c == "convert" else case["type"]
    return bool(re.fullmatch(r"out/tokens\d+_%s_%s\.json" % (case["processing"], ty), path))


def execute(case, d, log=None):
    populate(d, case)
    before = snapshot(d)
    env = {"TMPDIR": d + "/tmp", "HOME": d + "/home", "MCS_SEED": "1", "MCS_ROOT": d}
    for k, v in (("plan", "MCS_PLAN"), ("from", "MCS_FROM"), ("clock", "MCS_CLOCK")):
        if case.get(k):
            env[v] = case[k]
    if log:
        env["MCS_LOG"] = log
    env["LD_PRELOAD"] = SHIM
    a = arguments(case, d)
    if case["cmd"] == "pretty":
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        a = ["python3", driver.REPO + "/pretty.py"] + a
    else:
        a = [EXE] + a
    old = os.umask(0o022)
    if case.get("again"):
        # The output exists already: once more, from there.
        driver.run_cmd(a, d + "/cwd", {k: v for k, v in env.items() if k not in ("MCS_PLAN", "MCS_FROM", "MCS_LOG")}, 60)
        for f in [f for f in os.listdir(d + "/out") if may_change(case, "out/" + f)]:
            for g in (f + ".tmp", f + ".bak", f + "~", f + ".new", f + ".old", f + ".part", "." + f, "." + f + ".swp", f[:-5] + ".tmp", f[:-5] + ".bak", f[:-5]):
                if not os.path.exists(d + "/out/" + g):
                    ref.write(d + "/out/" + g, "bystander " + g)
        before = snapshot(d)
    r = driver.run_cmd(a, d + "/cwd", env, 60)
    os.umask(old)
    return r, before, snapshot(d)


def changes(before, after):
    for p in sorted(set(before) | set(after)):
        if before.get(p) != after.get(p):
            yield p, "appeared" if p not in before else "is gone" if p not in after else "has other contents" if before[p][2] != after[p][2] else "has another mode"


def judge(case, d):
    d = os.path.realpath(d)
    r, before, after = execute(case, d)
    faulty = case.get("plan") or case.get("from")
    what = "%s%s, exit status %s" % (case["cmd"], " with " + faulty if faulty else "", r.rc)
    check(not r.timeout, "%s: did not end", what)
    if case.get("invalid"):
        what = "%s, with %s" % (what, {"data": "invalid data", "late data": "data that ends invalid", "set": "an invalid set", "small budget": "a small budget"}.get(case["invalid"], case["invalid"]))
    killed = r.rc == -9
    for p, how in changes(before, after):
        if may_change(case, p) and p in after:
            continue
        if killed and p.startswith("tmp/") and p not in before:
            # A killed program can't remove its temporary file.
            continue
        raise Violation("%s: %s %s" % (what, p, how))
    return Seen((case["cmd"], case.get("type"), case.get("processing"), r.rc, faulty), nontrivial=True)


def commands():
    small = [["It is a Truth universally\n\nacknowledged, THAT caf\u00e9 \u4e2d\u6587\n", 2]]
    big = [["one Two THREE four\n", 1500]]
    for data in (small, big, [["", 1]]):
        yield {"cmd": "process", "data": data}
        yield {"cmd": "count", "data": data}
    yield {"cmd": "pretty", "data": small}
    yield {"cmd": "pretty", "type": "bytes", "data": small}
    for given in (False, True):
        for proc in ("raw", "capswords"):
            for ty, n in (("bits1", 4), ("bits4", 18), ("bytes", 257)):
                yield {"cmd": "convert", "type": ty, "processing": proc, "tokens": ["is", "it"], "data": small, "given": given}
            for ty, n in (("bits1", 4), ("bits2", 6), ("bits4", 18), ("bytes", 257), ("byteshuff", 5)):
                yield {"cmd": "optimize", "type": ty, "processing": proc, "n": n, "data": small, "given": given}
            yield {"cmd": "optimize", "type": "bits2", "processing": proc, "n": 6, "data": small, "given": given, "min": 20}
            yield {"cmd": "optimize", "type": "bits4", "processing": proc, "n": 19, "data": small, "given": given, "tokens": ["is", "a"]}
            yield {"cmd": "optimize", "type": "bits1", "processing": proc, "n": 5, "data": small, "given": given, "clock": "all"}
            yield {"cmd": "optimize", "type": "bits1", "processing": proc, "n": 4, "data": big, "given": given, "min": 3000}


def broken():
    """Commands that can't succeed: data that is no text, sets that do not load,
    budgets that are too small, missing files."""
    for cmd in ("process", "count"):
        yield {"cmd": cmd, "invalid": "data", "data": [["ab\n", 3]]}
        yield {"cmd": cmd, "invalid": "late data", "data": [["ab\n", 3]]}
        yield {"cmd": cmd, "invalid": "no data", "data": [["ab\n", 3]]}
    yield {"cmd": "pretty", "invalid": "set", "data": [["ab\n", 3]]}
    yield {"cmd": "process", "invalid": "no out", "data": [["ab\n", 3]]}
    for proc in ("raw", "capswords"):
        for inv in ("no processed", "no data"):
            yield {"cmd": "convert", "type": "bits2", "processing": proc, "tokens": ["is"], "data": [["ab\n", 3]], "given": True, "invalid": inv}
            for m in (None, 5):
                yield {"cmd": "optimize", "type": "bits2", "processing": proc, "n": 6, "data": [["ab Ab\n", 3]], "given": True, "min": m, "invalid": inv}
        for inv in ("data", "no data", "set", "no set", "late data", "no out"):
            yield {"cmd": "convert", "type": "bits2", "processing": proc, "tokens": ["is"], "data": [["ab\n", 3]], "invalid": inv}
            yield {"cmd": "optimize", "type": "bits2", "processing": proc, "n": 7, "tokens": ["is"], "data": [["ab Ab\n", 3]], "invalid": inv}
        for n in (0, 1, 2, 4):
            for ty in ("bits1", "bits2", "bits4", "bytes", "byteshuff"):
                yield {"cmd": "optimize", "type": ty, "processing": proc, "n": n, "data": [["ab Ab\n", 3]], "invalid": "small budget"}



def explore(tier):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_c25")
    cmds = list(commands())
    plain = [dict(c, form=f, link=l) for c in cmds for f in ("absolute", "relative", "slash", "dots") for l in (False, True)
             if not (f == "slash" and c["cmd"] in ("process", "pretty"))]
    run(res, "undisturbed commands", plain, judge)
    run(res, "commands whose output exists", [dict(c, again=True, form=f) for c in cmds for f in ("absolute", "relative")], judge)
    run(res, "commands that can't succeed", [dict(c, form=f) for c in broken() for f in ("absolute", "relative")], judge)
    faults, kills, pairs = [], [], []
    listing = {}
    for c in cmds:
        with driver.Scratch() as d:
            d = os.path.realpath(d) + "/0"
            os.mkdir(d)
            execute(c, d, os.path.dirname(d) + "/log")
            text = ref.read(os.path.dirname(d) + "/log").decode()
        kinds = [m.group(2) for m in re.finditer(r"^(\d+) (open|read|write|lseek|stat|rename|sync|truncate|unlink|mkdir) ", text, re.M)]
        k = "%s %s %s" % (c["cmd"], c.get("type", ""), c.get("processing", ""))
        listing[k] = listing.get(k, 0) + len(kinds)
        for i, kind in enumerate(kinds):
            kills.append(dict(c, plan="%d:kill" % i))
            if kind == "write":
                kills.append(dict(c, plan="%d:torn" % i))
            if kind == "unlink":
                # Nothing can be done about a temporary file that can't be removed.
                continue
            for a in m_c24.FAULTS[kind] + (m_c24.MORE[kind] if deep else []):
                faults.append(dict(c, plan="%d:%s" % (i, a)))
            if kind in ("read", "write"):
                pairs += [dict(c, plan="%d:%s,%d:%s" % (i, a, j, b)) for j in range(i + 1, min(len(kinds) + 1, i + (3 if not deep else 12)))
                          for a in ("eintr", "half") for b in ("eio",) if kinds[min(j, len(kinds) - 1)] != "unlink"]
    res.extra["calls"] = listing
    run(res, "every single fault", faults, judge)
    run(res, "killed at every call", kills, judge)
    run(res, "an error after a short or interrupted transfer", pairs, judge)
    return res


def replay(family, case):
    setup()
    return rep(judge, case)
