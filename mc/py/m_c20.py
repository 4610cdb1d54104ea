"""C20: count-chars through the real program."""
import re
import driver, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

_ESC = {"n": "\n", "r": "\r", "t": "\t", "\\": "\\", "'": "'", '"': '"', "0": "\0"}


def char(lit):
    """Value of a Rust character literal."""
    check(len(lit) >= 3 and lit[0] == "'" and lit[-1] == "'", "not a character: %r", lit)
    s = lit[1:-1]
    if s[0] == "\\" and len(s) > 1:
        m = re.fullmatch(r"\\u\{([0-9a-f]+)\}", s)
        if m:
            return chr(int(m.group(1), 16))
        check(len(s) == 2 and s[1] in _ESC, "not a character: %r", lit)
        return _ESC[s[1]]
    check(len(s) == 1, "not a character: %r", lit)
    return s


def text_of(case):
    return "".join(s * n for s, n in case["text"])


def judge(case, d):
    if "zeros" in case:
        return judge_zeros(case, d)
    text = text_of(case)
    ref.write(d + "/in", text)
    tx = ref.Texmo(EXE, SHIM)
    env = case.get("env")
    r = tx.run(d, "count-chars", "-d", d + "/in", env=env, timeout=300)
    total, counts, top = report(r)
    check(total == len(text), "total %s instead of %d", total, len(text))
    want = {}
    for c in text:
        if c < "\u0100":
            want[c] = want.get(c, 0) + 1
    if counts != want:
        k = next(c for c in sorted(set(counts) | set(want)) if counts.get(c) != want.get(c))
        raise Violation("%r counted %s times instead of %s" % (k, counts.get(k, 0), want.get(k, 0)))
    if text:
        check(top == max(text), "max char %r instead of %r", top, max(text))
    return Seen((total, top, len(counts)), nontrivial=bool(text))


def judge_zeros(case, d):
    # A file of `zeros` NUL characters with line feeds here and there; it takes
    # no room on the disk.
    n, every = case["zeros"], 1 << 24
    with open(d + "/in", "wb") as f:
        f.truncate(n)
        for i in range(every, n, every):
            f.seek(i)
            f.write(b"\n")
        f.seek(n)
        f.write("\u4e2dz".encode("utf8"))
    k = len(range(every, n, every))
    r = ref.Texmo(EXE, SHIM).run(d, "count-chars", "-d", d + "/in", timeout=300)
    total, counts, top = report(r)
    check(total == n + 2, "total %s instead of %d", total, n + 2)
    check(counts == {"\0": n - k, "\n": k, "z": 1}, "counts %r instead of %d, %d and 1", counts, n - k, k)
    check(top == "\u4e2d", "max char %r", top)
    return Seen((total, top, len(counts)))


def report(r):
    """What the command says: total, counts, highest character."""
    check(r.rc == 0, "exit status %s: %s", r.rc, r.err.decode("utf8", "replace")[-300:])
    lines = r.out.decode("utf8").split("\n")
    check(lines[-1] == "", "no final line feed")
    lines.pop()
    total, counts, top = None, {}, None
    for l in lines:
        if re.fullmatch(r"\d+", l):
            continue  # progress
        if l.startswith("Total: "):
            check(total is None, "two totals")
            total = int(l[7:])
        elif l.startswith("Max char: "):
            check(top is None, "two maxima")
            top = char(l[10:])
        else:
            lit, _, n = l.rpartition(" ")
            check(n.isdigit(), "unexpected line %r", l)
            c = char(lit)
            check(c not in counts, "%r counted twice", c)
            counts[c] = int(n)
    return total, counts, top


EXE = SHIM = None


def setup():
    global EXE, SHIM
    EXE, SHIM = driver.build_cli(), driver.build_shim()


def explore(tier):
    setup()
    res = Result("py:m_c20")
    deep = tier == "thorough"
    T = lambda s: {"text": [[s, 1]]}
    alpha = ["\n", "\r", "a", "\0", "\u00ff", "\u0100", "\u4e2d", "\U0001f642", "'"]
    run(res, "all short texts", [T(w) for w in ref.words(alpha, 0, 4 if not deep else 5)], judge)
    sc = [chr(c) for c in range(0x110000) if not 0xD800 <= c < 0xE000]
    edge = [c for c in sc if ord(c) < 0x900 or any(abs(ord(c) - b) <= 2 for b in (0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x2028, 0xfffff, 0x10fffd))]
    if deep:
        edge = [c for c in sc if ord(c) < 0x3400 or ord(c) % 16 == 0 or ord(c) > 0x10fff0]
    run(res, "characters alone and twice around a low one", [T(c) for c in edge] + [T(c + "b" + c) for c in edge], judge)
    blocks = [sc[i:i + 256] for i in range(0, len(sc), 256)]
    run(res, "all scalar values by blocks", [T("".join(b)) for b in blocks] + [T("".join(sc)), T("".join(reversed(sc))), T("\n".join(sc[:70000]))], judge)
    # Lines across the reader's buffer.
    v = []
    for size in (1024, 4096, 8192, 16384, 65536):
        for d in range(-3, 4):
            for c in ("\u00e9", "\u4e2d", "\U0001f642", "\n", "a\r\n", "\u00ff\n\u0100"):
                for line in ("x", "x" * 99 + "\n"):
                    n = (size + d) // len(line)
                    v.append({"text": [[line, n], ["y", (size + d) % len(line)], [c, 3], ["z", 7]]})
    run(res, "lines and characters across buffer boundaries", v, judge)
    big = [{"text": [["x", 70000], ["\u00e9\n", 66000]]}, {"text": [["ab\n", (1 << 24) // 3 + 7], ["a", 1 << 17]]}, {"text": [["a", (1 << 24) + 3]]}, {"text": [["\u4e2d\n", 140000]]}]
    run(res, "more than 2^32 characters", [{"zeros": (1 << 32) + 1000}], judge)
    run(res, "many characters", big + ([{"text": [["x" * 999 + "\n", 1000000], ["yz", 3]]}] if deep else []), judge)
    # The same with other ways to split the reads.
    v = []
    for t in ([["ab\u4e2d\n", 3]], [["\U0001f642\u00ff", 5], ["\n", 2]], [["x", 8191], ["\u4e2d\n", 2]], [["line\n", 1639], ["\u00e9", 2]]):
        n = sum(len(s.encode()) * k for s, k in t)
        for env in [{"MCS_MAXREAD": str(m)} for m in ((1, 2, 3, 5) if n < 100 else (1000, 4095, 4096, 8191))]:
            v.append({"text": t, "env": env})
        for i in range(8):
            for a in ("one", "half", "allbutone", "eintr"):
                v.append({"text": t, "env": {"MCS_PLAN": "%d:%s" % (i, a)}})
                for j in range(i + 1, 8):
                    for b in ("one", "half", "allbutone", "eintr"):
                        v.append({"text": t, "env": {"MCS_PLAN": "%d:%s,%d:%s" % (i, a, j, b)}})
    run(res, "all ways to read", v, judge_reads)
    return res


def judge_reads(case, d):
    plan = case["env"].get("MCS_PLAN", "")
    if "0:eintr" in plan.split(","):
        # An interrupted open may be reported.
        case = dict(case)
        case["env"] = {"MCS_PLAN": plan.replace("0:eintr", "0:half")}
    return judge(case, d)


def replay(family, case):
    setup()
    return rep(judge, case)
