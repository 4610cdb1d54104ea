"""C26: runs do not influence each other. Histories of commands and of changes to
their inputs, runs that were killed at any call, and runs at the same time, at
every interleaving of their file operations with few switches."""
import itertools, json, os, select, shutil, signal, subprocess, time
import driver, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = SHIM = None

# Texts of equal length whose processed texts are of equal length, too.
TEXTS = ["Ab cd EF ab\n\nCaf\u00e9 ab ab\n" * 2, "Xy zd EF zz\n\nCaf\u00e9 zz zd\n" * 2]
SETS = [["ab", "is"], ["zz", "is"]]
COMMANDS = {
    "process": ["process", "-d", "in/data", "-o", "OUT/result"],
    "convert": ["convert-tokens", "-d", "in/data", "-i", "in/set.json", "-t", "OUT"],
    "convert raw": ["convert-tokens", "-d", "in/data", "-i", "in/rawset.json", "-t", "OUT"],
    "convert given": ["convert-tokens", "-d", "in/data", "-i", "in/set.json", "-t", "OUT", "--processed-data", "in/processed"],
    "optimize": ["optimize", "-d", "in/data", "-t", "OUT", "--type=bits2", "-p", "caps-words", "-n", "6"],
    "optimize raw": ["optimize", "-d", "in/data", "-t", "OUT", "--type=bits1", "-p", "raw", "-n", "4"],
    "optimize from": ["optimize", "-d", "in/data", "-t", "OUT", "--type=bits4", "-p", "caps-words", "-n", "19", "-i", "in/set.json"],
    "optimize more": ["optimize", "-d", "in/data", "-t", "OUT", "--type=bits1", "-p", "caps-words", "-n", "4", "--min-data-size", "25"],
}
BIG = "one Two THREE four\n" * 3000


def setup():
    global EXE, SHIM
    EXE, SHIM = driver.build_cli(), driver.build_shim()


def keep_times(path, data):
    """New contents that look as old as the former ones."""
    t = os.stat(path) if os.path.exists(path) else None
    ref.write(path, data)
    os.utime(path, ns=(t.st_atime_ns, t.st_mtime_ns) if t else (10 ** 18, 10 ** 18))


def inputs(d, text, sets):
    data = TEXTS[text] if text < 2 else BIG
    keep_times(d + "/in/data", data)
    keep_times(d + "/in/processed", ref.process_file(data.encode("utf8")))
    keep_times(d + "/in/set.json", json.dumps(ref.make("bits4", [t.encode() for t in SETS[sets]], "capswords")))
    keep_times(d + "/in/rawset.json", json.dumps(ref.make("bits4", [t.encode() for t in SETS[sets]], "raw")))


def tree(d, text=0, sets=0):
    for x in ("in", "out", "out2", "tmp", "home"):
        os.mkdir(d + "/" + x)
    inputs(d, text, sets)


def environment(d, **more):
    # The clock never jumps; that way all choices of names are repeated.
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "RUST_BACKTRACE": "0", "TMPDIR": d + "/tmp", "HOME": d + "/home",
         "LD_PRELOAD": SHIM, "MCS_ROOT": d, "MCS_SEED": "1", "MCS_CLOCK": "0", "MCS_CPUS": "2"}
    e.update(more)
    return e


def command(name, out="out"):
    return [EXE] + [a.replace("OUT", out) for a in COMMANDS[name]]


def outputs(d, out="out"):
    return {f: ref.read(os.path.join(d, out, f)) for f in os.listdir(os.path.join(d, out))}


_alone = {}


def alone(name, text, sets):
    """Output of a command that has everything for itself."""
    key = (name, text, sets)
    if key not in _alone:
        with driver.Scratch() as d:
            d = os.path.realpath(d)
            tree(d, text, sets)
            os.mkdir(d + "/log")
            r = driver.run_cmd(command(name), d, environment(d, MCS_LOG=d + "/log/0"), 60)
            check(r.rc == 0, "%s by itself: exit status %s: %s", name, r.rc, r.err.decode("utf8", "replace")[-300:])
            lines = ref.read(d + "/log/0").decode().splitlines()
            _alone[key] = (outputs(d), [l.split()[1] for l in lines if not l.startswith("clock")])
    return _alone[key]


def same(d, name, r, text, sets, what, out="out"):
    check(not getattr(r, "timeout", False), "%s: %s did not end", what, name)
    check(r.rc == 0, "%s: %s ends with exit status %s: %s", what, name, r.rc, r.err.decode("utf8", "replace")[-300:])
    got = outputs(d, out)
    for f, x in alone(name, text, sets)[0].items():
        check(f in got, "%s: %s did not write %s", what, name, f)
        check(got[f] == x, "%s: %s writes another %s than by itself: %r instead of %r", what, name, f, got[f][-60:], x[-60:])


def judge_history(case, d):
    d = os.path.realpath(d)
    text = sets = 0
    tree(d)
    n = 0
    for i, op in enumerate(case["history"]):
        if op == "other data":
            text = 1 - text
            inputs(d, text, sets)
        elif op == "other set":
            sets = 1 - sets
            inputs(d, text, sets)
        else:
            n += 1
            r = driver.run_cmd(command(op), d, environment(d), 60)
            same(d, op, r, text, sets, "after " + (", ".join(case["history"][:i]) or "nothing"))
    return Seen(tuple(case["history"]), steps=len(case["history"]), execs=n, states=len(case["history"]), nontrivial=n > 1)


def judge_killed(case, d):
    d = os.path.realpath(d)
    tree(d, case.get("text", 0))
    driver.run_cmd(command(case["killed"]), d, environment(d, MCS_PLAN=case["plan"]), 60)
    r = driver.run_cmd(command(case["next"]), d, environment(d), 60)
    same(d, case["next"], r, case.get("text", 0), 0, "after %s killed at %s" % (case["killed"], case["plan"]))
    return Seen((case["killed"], case["plan"], case["next"]), steps=2, execs=2, states=1)


class Gated:
    """A command that waits before each of its file operations."""

    def __init__(self, name, d, out):
        self.name, self.out = name, out
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        os.set_inheritable(w1, True)
        os.set_inheritable(r2, True)
        self.err = open(os.path.join(d, "err-" + out), "w+b")
        self.p = subprocess.Popen(command(name, out), cwd=d, env=environment(d, MCS_GATE="%d,%d" % (w1, r2)), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=self.err, pass_fds=(w1, r2), start_new_session=True)
        os.close(w1)
        os.close(r2)
        self.r, self.w = r1, w2
        self.steps, self.ended = 0, False
        self.arrive()

    def arrive(self):
        """Waits for the next operation or the end."""
        if self.ended:
            return
        ready, _, _ = select.select([self.r], [], [], 60)
        if not ready:
            self.kill()
            raise Violation("%s does not go on after %d operations" % (self.name, self.steps))
        if not os.read(self.r, 1):
            self.p.wait(timeout=60)
            self.ended = True

    def step(self):
        self.steps += 1
        os.write(self.w, b"g")
        self.arrive()

    def kill(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        self.ended = True

    def close(self):
        self.kill()
        os.close(self.r)
        os.close(self.w)
        self.err.seek(0)
        text = self.err.read()
        self.err.close()
        r = driver.Run()
        r.rc, r.out, r.err, r.timeout = self.p.returncode, b"", text, False
        return r


def judge_together(case, d):
    """The first command runs for i operations, then the second for j, then the
    first for k, and so on; in the end the one after the other."""
    d = os.path.realpath(d)
    tree(d, case.get("text", 0))
    names = case["pair"]
    ps = []
    n = 0
    try:
        for k, c in enumerate(names):
            ps.append(Gated(c, d, ("out", "out2")[k]))
        turn = case.get("first", 0)
        for k in case["schedule"] + [None, None]:
            p = ps[turn]
            while not p.ended and (k is None or k > 0):
                p.step()
                n += 1
                k = k if k is None else k - 1
            turn = 1 - turn
    finally:
        rs = [p.close() for p in ps]
    for k, c in enumerate(names):
        same(d, c, rs[k], case.get("text", 0), 0, "together with %s, schedule %s" % (names[1 - k], case["schedule"]), ("out", "out2")[k])
    return Seen((tuple(names), tuple(case["schedule"]), case.get("first", 0)), steps=n, execs=1, states=n)


def explore(tier):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_c26")
    for name in COMMANDS:
        try:
            alone(name, 0, 0)
        except Violation as v:
            res.violation("by itself", {"history": [name]}, v)
    if res.violations:
        return res

    ops = list(COMMANDS) + ["other data", "other set"]
    v = []
    for n in range(1, (4 if deep else 3) + 1):
        for h in itertools.product(ops, repeat=n):
            if h[-1] in COMMANDS and (n == 1 or h[0] in COMMANDS) and not any(a == b and a not in COMMANDS for a, b in zip(h, h[1:])):
                v.append({"history": list(h)})
    # A run, a change, the same run again, another change ...
    changes = ["other data", "other set"]
    for c in COMMANDS:
        for a in changes:
            for b in changes:
                for c2 in COMMANDS:
                    v.append({"history": [c, a, c2, b, c]})
    run(res, "histories of commands and changes", v, judge_history)

    v = []
    for k in COMMANDS:
        for text in (0, 2):
            calls = alone(k, text, 0)[1]
            for i, kind in enumerate(calls):
                for act in ("kill", "torn") if kind == "write" else ("kill",):
                    for nx in (COMMANDS if deep or text == 0 else [k, "process"]):
                        v.append({"killed": k, "plan": "%d:%s" % (i, act), "next": nx, "text": text})
    run(res, "a command after a killed one", v, judge_killed)

    pairs = [("convert", "convert"), ("optimize", "optimize"), ("convert", "optimize"), ("process", "convert"), ("optimize more", "convert"), ("optimize raw", "optimize raw"), ("convert given", "optimize from")]
    if deep:
        pairs = list(itertools.combinations_with_replacement(COMMANDS, 2))
    one, two = [], []
    for text in (0, 2):
        for a, b in pairs:
            na, nb = len(alone(a, text, 0)[1]), len(alone(b, text, 0)[1])
            for first, x, y in ((0, na, nb),) + (((1, nb, na),) if a != b else ()):
                for i in range(x + 1):
                    one.append({"pair": [a, b], "first": first, "schedule": [i], "text": text})
                    for j in range(1, y):
                        if text == 0 or deep or max(na, nb) < 24:
                            two.append({"pair": [a, b], "first": first, "schedule": [i, j], "text": text})
    run(res, "two commands at a time, one preemption", one, judge_together)
    run(res, "two commands at a time, two preemptions", two, judge_together)
    if deep:
        three = []
        for a, b in (("convert", "convert"), ("process", "convert"), ("optimize", "optimize")):
            na, nb = len(alone(a, 0, 0)[1]), len(alone(b, 0, 0)[1])
            for i in range(na):
                for j in range(1, nb):
                    for k in range(1, na - i):
                        three.append({"pair": [a, b], "first": 0, "schedule": [i, j, k]})
        run(res, "two commands at a time, three preemptions", three, judge_together)
    return res


def replay(family, case):
    setup()
    j = judge_history if "history" in case else judge_killed if "killed" in case else judge_together
    return rep(j, case)
