"""C27: what the optimize command reports while it runs, replayed."""
import itertools, math, os, re
import driver, optcli, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result
from m_optcli import TEXTS, NS, INPUTS

EXE = None
TOK = r'(?:\d+|"(?:[^"\\]|\\.)*"|\[\d+(?:, \d+)*\])'
LIST = r"(?:%s(?: %s)*)?" % (TOK, TOK)
DIFF = re.compile("(%s) -> (%s)" % (LIST, LIST))
REMOVING = re.compile("Removing:((?: %s)*) *" % TOK)
NUM = r"(-?inf|NaN|[0-9.]+)"
INITIAL = re.compile("Initial tokens: ([0-9]+), bytes/token = " + NUM)
STEP = re.compile("processed bytes / token: " + NUM)
WITH = re.compile("Optimizing with ([0-9]+) bytes of data\\.")
FIGURE = re.compile(r"bytes / token \((bigger data|optimized|full data)\): " + NUM)
WRITING = re.compile(r"Writing the token set to (.*)\.")
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'"}


def setup():
    global EXE
    EXE = driver.build_cli()
    ref.lib()


def unquote(s):
    if s[0] == "[":
        return bytes(int(x) for x in s[1:-1].split(","))
    if s[0] != '"':
        return int(s)
    out, i, s = [], 0, s[1:-1]
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i])
            i += 1
        elif s[i + 1] == "u":
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(ESC[s[i + 1]])
            i += 2
    return "".join(out).encode("utf8")


def tokens(s):
    return [unquote(x) for x in re.findall(TOK, s)]


def same(a, b):
    return a == b or a != a and b != b or math.isclose(a, b, rel_tol=1e-9)


def ratio(size, total):
    return size / total if total else (float("inf") if size else float("nan"))


class Round:
    """A search from one set to a better one, as reported."""

    def __init__(self, size, n, figure):
        self.size, self.figures, self.said = size, [figure], n
        self.steps, self.before, self.after = [], {}, {}
        self.tried = []


def parse(text):
    rounds, size, pending, bigger, written, stopped = [], None, None, None, [], False
    tried = []
    for line in text.split("\n"):
        m = WITH.fullmatch(line)
        if m:
            size, bigger = int(m[1]), None
            continue
        m = INITIAL.fullmatch(line)
        if m:
            rounds.append(Round(size, int(m[1]), float(m[2])))
            if bigger is not None:
                rounds[-1].before["bigger data"] = bigger
            size, bigger, tried = None, None, []
            continue
        m = REMOVING.fullmatch(line)
        if m:
            check(rounds, "%r before the search began", line)
            rounds[-1].tried.append((len(rounds[-1].steps), tokens(m[1])))
            continue
        m = DIFF.fullmatch(line)
        if m:
            check(pending is None, "two changes in a row: %r", line)
            pending = (tokens(m[1]), tokens(m[2]))
            continue
        m = STEP.fullmatch(line)
        if m:
            check(pending is not None and rounds, "a figure without a change: %r", line)
            rounds[-1].steps.append(pending)
            rounds[-1].figures.append(float(m[1]))
            pending = None
            continue
        m = FIGURE.fullmatch(line)
        if m:
            if m[1] == "bigger data":
                bigger = float(m[2])
            else:
                check(rounds, "%r before the search began", line)
                rounds[-1].after[m[1]] = float(m[2])
            continue
        m = WRITING.fullmatch(line)
        if m:
            written.append(m[1])
        stopped = stopped or line.startswith("The difference is less than 0.5%")
    check(pending is None, "a change without a figure: %r", pending)
    return rounds, written, stopped


def back(end, steps):
    """The set before the steps that lead to `end`, or None."""
    s = set(end)
    for removed, added in reversed(steps):
        if not s >= set(added) or s & set(removed):
            return None
        s = (s - set(added)) | set(removed)
    return s


def forth(start, steps):
    """The sets that the steps lead to, or None."""
    out = [frozenset(start)]
    for removed, added in steps:
        s = out[-1]
        if not s >= set(removed) or s & set(added):
            return None
        out.append((s - set(removed)) | set(added))
    return out


def best(figures):
    """Which sets of a round need the fewest tokens, the last one first."""
    f = [-1.0 if x != x else x for x in figures]
    return [i for i in reversed(range(len(f))) if same(f[i], max(f))]


def doc_of(case, s):
    t = case["type"]
    return ref.Set(ref.make(t, sorted(x for x in s if isinstance(x, bytes)), case.get("processing", "raw")))


def judge(case, d):
    raw, processed, start = optcli.prepare(case, d)
    r = ref.Texmo(EXE).run(d, *optcli.args(case, d), timeout=case.get("timeout", 60))
    if r.timeout or r.rc != 0 or not os.listdir(d + "/out"):
        # A matter of C11.
        return Seen(("no result", r.rc), nontrivial=False)
    rounds, written, stopped = parse(r.out.decode("utf8"))
    check(written, "no file is said to be written")
    check(os.path.isfile(os.path.join(d, written[-1])), "said to write %s; there is %s", written[-1], os.listdir(d + "/out"))
    saved = ref.Set(ref.load(os.path.join(d, written[-1])))
    check(rounds, "no search is reported")
    check(case.get("min") is not None or len(rounds) == 1 and rounds[0].size is None, "%d rounds are reported", len(rounds))
    check(stopped or rounds[-1].size is None, "the last round is not about the complete data")
    # From the saved set backwards: what each round began with.
    end = frozenset(saved.tokens)
    for k in reversed(range(len(rounds))):
        o = rounds[k]
        o.sets = None
        for i in best(o.figures):
            s = back(end, o.steps[:i])
            sets = s is not None and forth(s, o.steps)
            if sets and sets[i] == end:
                o.sets, o.best = sets, i
                break
        check(o.sets, "round %d of %d: the reported changes don't lead to %s", k + 1, len(rounds), "the saved set" if k + 1 == len(rounds) else "the set the next round begins with")
        check(o.said == len(o.sets[0]), "round %d: said to begin with %d tokens, actually %d", k + 1, o.said, len(o.sets[0]))
        end = o.sets[0]
    begin = start or optcli.plain(case, processed)
    if begin is not None:
        check(end == frozenset(begin.tokens), "the reported changes don't begin with the starting set: %s", sorted(map(str, end ^ frozenset(begin.tokens)))[:4])
    steps = 0
    known = {}

    def total(s):
        # Only sets of these types are known by their tokens.
        if s not in known:
            known[s] = doc_of(case, s).total(processed)
        return known[s]

    for k, o in enumerate(rounds):
        what = "round %d: " % (k + 1)
        steps += len(o.steps)
        full = o.size is None or o.size == len(processed)
        size = len(processed) if full else o.size
        check(size <= len(processed), what + "%d bytes of data, the complete data has %d", size, len(processed))
        for i, (s, f) in enumerate(zip(o.sets, o.figures)):
            check(len(s) <= max(case["n"], len(o.sets[0])), what + "%d tokens after step %d", len(s), i)
            if full and case["type"] != "byteshuff":
                want = ratio(size, total(s))
                check(same(f, want), what + "%s bytes per token after step %d, actually %s", f, i, want)
            elif size and f == f:
                n = size / f if f else 0
                check(f > 0 and abs(n - round(n)) < 1e-6 * max(n, 1), what + "%s bytes per token after step %d: not of %d bytes", f, i, size)
            if i and len(o.sets[i - 1]) == case["n"]:
                check(f > o.figures[i - 1], what + "step %d with all tokens: %s bytes per token after %s", i, f, o.figures[i - 1])
        if k + 1 == len(rounds) and full:
            want = ratio(size, saved.total(processed))
            check(same(o.figures[o.best], want), what + "ends with %s bytes per token, actually %s", o.figures[o.best], want)
        if k == 0 and full and begin is not None:
            want = ratio(size, begin.total(processed))
            check(same(o.figures[0], want), what + "begins with %s bytes per token, actually %s", o.figures[0], want)
        for i, ts in o.tried:
            check(len(set(ts)) == len(ts), what + "a token is removed twice")
            for t in ts:
                check(i < len(o.sets) and t in o.sets[i] and isinstance(t, bytes) and len(t) > 1, what + "removing %r before step %d, which is no multi-byte token of the set", t, i + 1)
        if "bigger data" in o.before:
            check(same(o.before["bigger data"], o.figures[0]), what + "%s bytes per token (bigger data), and %s initially", o.before["bigger data"], o.figures[0])
        if "optimized" in o.after:
            check(same(o.after["optimized"], o.figures[o.best]), what + "%s bytes per token (optimized), %s after the best step", o.after["optimized"], o.figures[o.best])
        if "full data" in o.after:
            last = frozenset(o.sets[o.best])
            if case["type"] != "byteshuff":
                want = ratio(len(processed), total(last))
                check(same(o.after["full data"], want), what + "%s bytes per token (full data), actually %s", o.after["full data"], want)
            elif k + 2 == len(rounds) and rounds[-1].size is None:
                # The last round begins with the same set and all data.
                check(same(o.after["full data"], rounds[-1].figures[0]), what + "%s bytes per token (full data), %s when it begins with the full data", o.after["full data"], rounds[-1].figures[0])
    return Seen((saved.name(), tuple(len(o.steps) for o in rounds), rounds[-1].figures[-1]), steps=steps + 1, nontrivial=steps > 0, states=steps + len(rounds))


def prose(seed, n):
    """Deterministic words of varying length, some of them frequent."""
    x, out = seed * 2654435761 % (1 << 32), []
    for i in range(n):
        x = (x * 1103515245 + 12345) % (1 << 31)
        w = ["the", "of", "cat's", '"quoted"', "ab", "abc", "\u00e9t\u00e9", "x\\y", "Mat", "\t", "e\u0301", "\u4e2d\u6587", "[1, 2]", "7 -> 8", "in"][(x >> 12) % 15]
        out.append(w + (" ", "\n\n", " ", ", ", "\n")[(x >> 20) % 5])
    return "".join(out)


def explore(tier):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_c27")
    v = []
    for i, t in enumerate(TEXTS):
        for ty, ns in NS.items():
            for k, n in enumerate(ns):
                for proc in ("raw", "capswords"):
                    if deep or (i + k + (proc == "raw")) % 2 == 0:
                        v.append({"data": t, "type": ty, "n": n, "processing": proc, "given": k % 2 == 1})
    run(res, "texts x types x budgets", v, judge)
    w = list(ref.words(["a", "b", "\n"], 1, 7 if deep else 5))
    v = [{"data": t, "type": ty, "n": n} for i, t in enumerate(w) for ty, n in (("bits1", 3), ("bits1", 4), ("bits4", 17), ("byteshuff", 4)) if deep or len(t) < 5 or (i + n) % 3 == 0]
    run(res, "all short texts", v, judge)
    v = []
    for i, t in enumerate(TEXTS):
        for ty, inp in INPUTS.items():
            base = len(inp["tokens"]) + (inp.get("ext") or ref.EXT.get(ty, 0))
            for extra in (0, 1, 3):
                v.append({"data": t, "type": ty, "n": base + extra, "input": inp, "processing": ("raw", "capswords")[extra % 2]})
    run(res, "with an input set", v, judge)
    # Texts with tokens of all looks, and long searches.
    v = []
    for seed in range(1, 25 if deep else 7):
        for n in (12, 30, 80) + ((200, 400) if deep else ()):
            for k, (ty, m) in enumerate((("bits1", 2), ("bits2", 4), ("bits4", 16), ("bytes", 256), ("byteshuff", 5))):
                for extra in (3, 8, 20) + ((50,) if deep else ()):
                    if deep or (seed + k + n + extra) % 3 == 0:
                        v.append({"data": prose(seed, n), "type": ty, "n": m + extra, "processing": ("raw", "capswords")[(seed + k) % 4 == 3], "timeout": 200})
    run(res, "tokens of all looks", v, judge)
    # Letters that show in a particular way: quotes, controls, marks, halves of characters.
    v = []
    odd = ['"', "\\", "'", "\0", "\x1b", "\x7f", "\u0085", "\u00a0", "\u00ad", "\u0301", "\u200b", "\u2028", "\ufeff", "\ufffd", "\U000e0001", "\U0001f642", "\uffff", " ", "\t", "\r", "->", "1", "[2]", ","]
    for i, a in enumerate(odd):
        for b in (odd if deep else [odd[(i * 7 + j) % len(odd)] for j in (1, 5)]):
            for ty, n in (("bits2", 9), ("byteshuff", 9)) + ((("bits1", 7),) if deep else ()):
                v.append({"data": (a + b + a + "x" + b + b + "\n") * 3 + (b + a) * 2, "type": ty, "n": n})
    run(res, "letters that show in particular ways", v, judge)
    # Growing data.
    v = []
    for i, t in enumerate([x for x in TEXTS if "\n\n" in x and len(x) > 6] + [prose(9, 40), prose(10, 25)]):
        for k, (ty, ns) in enumerate(NS.items()):
            for j, n in enumerate(ns):
                for m in (1, 3, 7, 16, 30, len(t) // 2, len(t) - 1, len(t) + 5):
                    if deep or (i + j + k + m) % 3 == 0:
                        v.append({"data": t, "type": ty, "n": n, "min": max(m, 1), "processing": ("raw", "capswords")[(i + m) % 2]})
    for ty, inp in INPUTS.items():
        base = len(inp["tokens"]) + (inp.get("ext") or ref.EXT.get(ty, 0))
        for i, t in enumerate(TEXTS[4:]):
            v.append({"data": t, "type": ty, "n": base + i % 3, "input": inp, "min": 1 + i * 3})
    run(res, "growing data", v, judge)
    if deep:
        big = [{"data": [["ab\n\n", 4275000]], "type": "bits1", "n": 3, "min": 17000000, "timeout": 300},
               {"data": [["aaaaaaa\n\n", 900000], ["b\n\n", 3300000]], "type": "bits2", "n": 5, "min": 17000000, "timeout": 300}]
        run(res, "files above 16 MiB", big, judge, workers=2)
    return res


def replay(family, case):
    setup()
    return rep(judge, case)
