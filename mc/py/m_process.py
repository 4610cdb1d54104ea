"""C01, C02, C03: the process command on files made of enumerated lines."""
import itertools, os
import driver, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = SHIM = None

# Letters whose classification and case mapping are the same in every version
# of Unicode.
ALPHA = ["a", "B", " ", ".", "1", "\u00e9", "\u00c9", "\u00df", "\u4e2d", "\u0130", "\u01c5", "\u03c3", "\u0416", "\U0001f642", "\t"]
SMALL = ["a", "A", " ", "."]


def setup():
    global EXE, SHIM
    EXE, SHIM = driver.build_cli(), driver.build_shim()


def text_of(case):
    if "words" in case:
        w = case["words"]
        it = ref.words(w["alphabet"], w["lo"], w["hi"])
        return "".join(x + "\n" for x in itertools.islice(it, w.get("from", 0), w.get("to", None)))
    return "".join(s * n for s, n in case["text"])


def judge(case, d, prop):
    text = text_of(case)
    ref.write(d + "/in", text)
    r = ref.Texmo(EXE, SHIM).run(d, "process", "-d", d + "/in", "-o", d + "/out", env=case.get("env"), timeout=120)
    check(r.rc == 0, "exit status %s: %s", r.rc, r.err.decode("utf8", "replace")[-300:])
    try:
        got = ref.read(d + "/out").decode("utf8")
    except (UnicodeDecodeError, FileNotFoundError) as e:
        raise Violation("output: %s" % e)
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    gl = got.split("\n")
    check(not lines or gl[-1] == "", "no line feed at the end")
    gl.pop()
    check(len(gl) == len(lines), "%d lines instead of %d", len(gl), len(lines))
    if prop == "C01":
        for a, b in zip(lines, gl):
            try:
                x = ref.decode_text(b)
            except ValueError as e:
                raise Violation("%r became %r: %s" % (a, b, e))
            check(x == a, "%r became %r, which stands for %r", a, b, x)
    elif prop == "C03":
        form = {}
        for a, b in zip(lines, gl):
            if a not in form:
                form[a] = processed_line(a, d)
            check(form[a] is None or b == form[a], "line %r became %r instead of %r", a[-80:], b[-80:], (form[a] or "")[-80:])
    else:
        for a, b in zip(lines, gl):
            check(b == ref.process_text(a), "%r became %r instead of %r", a[-80:], b[-80:], ref.process_text(a)[-80:])
    return Seen(hash(got), steps=len(lines), nontrivial=got != text)


_forms = {}


def processed_line(line, d):
    """What the command makes of this line alone."""
    if line not in _forms:
        ref.write(d + "/line", line + "\n")
        r = ref.Texmo(EXE).run(d, "process", "-d", d + "/line", "-o", d + "/lineout", timeout=60)
        _forms[line] = ref.read(d + "/lineout").decode("utf8", "replace")[:-1] if r.rc == 0 else None
    return _forms[line]


def explore(tier, prop):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_process@" + prop)
    j = lambda c, d: judge(c, d, prop)
    v = []
    for alpha, hi in ((ALPHA, 4 if not deep else 5), (SMALL, 8 if not deep else 9)):
        n = sum(len(alpha) ** k for k in range(hi + 1))
        step = 4000 if not deep else 40000
        v += [{"words": {"alphabet": alpha, "lo": 0, "hi": hi, "from": i, "to": i + step}} for i in range(0, n, step)]
    if prop != "C03":
        run(res, "lines of enumerated words", v, j)
        return res
    v = []
    for size in (8192, 16384, 24576):
        for dlt in range(-3, 4):
            for unit in ("ab\n", "Ab Cd\u4e2d\n", "x"):
                n = (size + dlt) // len(unit.encode())
                t = [["p", (size + dlt) % len(unit.encode())], [unit, n], ["\u4e2d", 1]]
                v.append({"text": t})
                for env in ({"MCS_MAXREAD": "1000"}, {"MCS_MAXWRITE": "777"}, {"MCS_MAXREAD": "8191", "MCS_MAXWRITE": "1"}):
                    if size == 8192 or dlt == 0:
                        v.append({"text": t, "env": env})
    run(res, "files around buffer sizes", v, j)
    v = []
    t = [["Ab cD\u4e2d\n", 1200]]
    for i in range(2, 14):
        for a in ("one", "half", "allbutone", "eintr"):
            v.append({"text": t, "env": {"MCS_PLAN": "%d:%s" % (i, a)}})
            for k in range(i + 1, 14):
                for b in ("one", "half", "allbutone", "eintr"):
                    v.append({"text": t, "env": {"MCS_PLAN": "%d:%s,%d:%s" % (i, a, k, b)}})
    run(res, "short and interrupted transfers", v, j)
    return res


def replay(family, case, prop):
    setup()
    return rep(lambda c, d: judge(c, d, prop), case)
