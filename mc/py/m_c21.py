"""C21: pretty.py keeps the value of every document and is idempotent."""
import itertools, json, multiprocessing, os, re, shutil, subprocess, sys, time
import driver
from driver import Result
from space import Violation, Seen, check, replay as rep

# ---------------------------------------------------------------- running it

_code = None


def script():
    return os.path.join(driver.REPO, "pretty.py")


def run_inside(path):
    """Executes the script in this process, as its own main module."""
    global _code
    if _code is None:
        _code = compile(open(script(), encoding="utf8").read(), script(), "exec")
    argv, out = sys.argv, sys.stdout
    sys.argv = [script(), path]
    sys.stdout = open(os.devnull, "w")
    try:
        exec(_code, {"__name__": "__main__", "__file__": script(), "__builtins__": __builtins__})
    except SystemExit as e:
        if e.code not in (None, 0):
            raise Violation("exit status %r" % (e.code,))
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s: %s" % (type(e).__name__, e))
    finally:
        sys.stdout.close()
        sys.argv, sys.stdout = argv, out


LOCALES = [{}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}]


def run_process(path, env=None):
    r = driver.run_cmd(["python3", script(), path], os.path.dirname(path), env, timeout=60)
    check(r.rc == 0, "exit status %s: %s", r.rc, r.err.decode("utf8", "replace")[-300:])


def pairs(x):
    return ("{", tuple(x))


def value(text):
    """The document with the order of members and the spelling of numbers."""
    return json.loads(text, object_pairs_hook=pairs)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?|[a-z]+|[^\s]')


def flat(text):
    """The document as a list of its tokens, for nesting of any depth."""
    return [t if t in "[]{},:" else (lambda v: (type(v).__name__, v))(json.loads(t)) for t in TOKEN.findall(text)]


def pretty_deep(path, runner):
    """Nesting may be too deep for the program; then the file has to stay."""
    before = open(path, "rb").read()
    try:
        runner(path)
    except Violation as v:
        after = open(path, "rb").read()
        check(after == before, "%s, and the file now holds %r instead of %r", v, after[:100], before[:100])
        return ""
    after = open(path, "rb").read()
    try:
        a, b = flat(before.decode("utf8")), flat(after.decode("utf8"))
    except ValueError as e:
        raise Violation("the file written is not JSON: %s: %r" % (e, after[:300]))
    check(a == b, "other value: %r became %r", before[:300], after[:300])
    try:
        runner(path)
    except Violation:
        pass  # more layout, no more nesting: judged by what is left
    check(open(path, "rb").read() == after, "running it again changes %r", after[:300])
    return after.decode("utf8")


def pretty(path, runner):
    before = open(path, encoding="utf8", newline="").read()
    deep = depth(before) if before.count("[") + before.count("{") >= 100 else 0
    if deep >= 200 or lone(before):
        return pretty_deep(path, runner)
    runner(path)
    raw = open(path, "rb").read()
    try:
        after = raw.decode("utf8")
        got = flat(after) if deep else value(after)
    except ValueError as e:
        raise Violation("the file written is not JSON: %s: %r" % (e, raw[:300]))
    check(flat(before) == got if deep else same(value(before), got), "other value: %r became %r", before[:300], after[:300])
    runner(path)
    again = open(path, "rb").read()
    check(again == raw, "running it again changes %r to %r", after[:300], again.decode("utf8", "replace")[:300])
    return after


def lone(text):
    """Half a surrogate pair: not well-formed Unicode, it cannot be written."""
    return bool(re.search(r"\\u[dD][89a-fA-F]", text)) and any(
        0xD800 <= ord(c) < 0xE000 for c in json.dumps(json.loads(text), ensure_ascii=False))


def depth(text):
    d = m = 0
    for t in TOKEN.findall(text):
        if t in "[{":
            d += 1
            m = max(m, d)
        elif t in "]}":
            d -= 1
    return m


# ---------------------------------------------------------------- documents

def trees(n, leaves, keys):
    """All documents with exactly n nodes."""
    if n == 1:
        yield from leaves
        yield []
        yield {}
        return
    for parts in compositions(n - 1):
        for items in itertools.product(*[list(trees(k, leaves, keys)) for k in parts]):
            yield list(items)
            yield {keys[i]: v for i, v in enumerate(items)}


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def fill(doc, s):
    """Replaces the leaf "@" (and key "@") by s."""
    if isinstance(doc, list):
        return [fill(x, s) for x in doc]
    if isinstance(doc, dict):
        return {(s if k == "@" else k): fill(v, s) for k, v in doc.items()}
    return s if doc == "@" else doc


TEMPLATES = [
    "@", ["@"], {"@": 1}, {"a": "@"}, ["@", "@"], [1, "@"], ["@", 1], [[], "@"], ["@", []], ["@", {}], [{}, "@"],
    {"@": []}, {"@": {}}, {"a": "@", "b": "@"}, {"@": "@"}, {"@": ["@"]}, {"@": {"@": "@"}}, {"a": ["@"], "b": []},
    {"a": {"b": "@"}}, {"a": {"b": {"c": "@"}}}, [["@"]], [[["@"]]], [[[["@", 1], 2], 3], 4], [{"a": "@"}], [{"a": ["@"]}],
    [{"a": "@", "b": 2}, {"c": 3}], {"a": [{"b": "@"}, "@"], "c": {"d": ["@", [1, "@"]]}},
    [["@", "@"], ["@", "@"]], {"a": [1, 2, 3, "@"], "b": {"c": [], "d": "@"}, "e": None}, [None, True, False, 1.5, "@"],
    {"a": [[[[[["@"]]]]]]}, {"a": {"a": {"a": {"a": {"a": {"a": "@", "b": 1}}}}}}, [[[[[[[[[["@", "@"]]]]]]]]]],
    {"tokens": [0, 1, "@", "@"], "sequences": [{"string": "@", "tokens": [0, 1]}, {"string": [200, 201], "tokens": [1, "@"]}], "stats": {"ntokens": 4}},
]


def dump(doc, style):
    if style == 0:
        return json.dumps(doc, ensure_ascii=False)
    if style == 1:
        return json.dumps(doc)
    if style == 2:
        return json.dumps(doc, ensure_ascii=False, indent=3)
    return json.dumps(doc, ensure_ascii=False, separators=(",", ":")) + "\r\n"


def documents(tier):
    deep = tier == "thorough"
    out = []

    def family(name, it):
        out.append((name, it))
    leaves = [1, "a", None]
    family("all small trees", [dump(t, i % 4) for n in range(1, 7 if deep else 6) for i, t in enumerate(trees(n, leaves, "kqrstu"))])
    L = 110 if not deep else 260
    wide = []
    for ti, t in enumerate(TEMPLATES):
        for n in range(0, L):
            wide.append(dump(fill(t, "x" * n), n % 2))
        for n in range(0, L // 2):
            wide.append(dump(fill(t, "\u4e2d" * n), n % 3))
            wide.append(dump(fill(t, "\"\\\n" * (n // 2) + "\u00e9" * (n % 2)), n % 3))
    family("templates of nested containers x string lengths around every width", wide)
    # Every pair of widths of two neighbours.
    pairs_ = []
    rng = list(range(0, 6)) + list(range(25, 50)) + list(range(66, 90)) if not deep else range(0, 100)
    for a in rng:
        for b in rng:
            x, y = "x" * a, "y" * b
            pairs_ += [dump({x: y}, 0), dump([x, [y]], 0), dump({"k": [x, y], x: [y]}, 0)]
            if a % 3 == 0:
                pairs_ += [dump({"k": {x: {}}, "l": {y: [[]]}}, 0), dump([{x: [y, x]}, [[x], y]], 0)]
    family("pairs of widths", pairs_)
    nest = []
    for depth in range(0, 60 if deep else 45):
        for inner in ("1", '"' + "x" * 30 + '"', '"' + "x" * 81 + '"', "[]", "{}", '["a","b"]', '{"a":"b"}'):
            nest.append("[" * depth + inner + "]" * depth)
            nest.append('{"k":' * depth + inner + "}" * depth)
            nest.append('[1,{"k":' * depth + inner + ',"l":2}]' * depth)
    family("deep nesting", nest)
    deeper = []
    for depth_ in (150, 199, 200, 299, 300, 330, 400, 480, 500, 600, 800, 900, 960, 980, 990, 995, 1000, 1010, 1100, 1500, 2000, 3000, 5000, 10000, 30000):
        for inner in ("1", '"' + "x" * 81 + '"', "[]", '["a",{"b":2.5}]'):
            if depth_ > 1000 and inner[0] == '"':
                continue
            deeper.append("[" * depth_ + inner + "]" * depth_)
            deeper.append('{"k":' * depth_ + inner + "}" * depth_)
            deeper.append('[1,{"k":' * (depth_ // 2) + inner + ',"l":2}]' * (depth_ // 2))
    family("nesting beyond what recursion may follow", deeper)
    num = ["0", "-0", "1", "-1", "1.0", "1.5", "-0.0", "1e5", "1E+5", "1e-7", "0.1", "123456789012345678901234567890", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "9007199254740993", "0.30000000000000004", "1e22", "1e21", "12345678.9", "true", "false", "null", "18446744073709551615", "-9223372036854775808", "4.35", "100000000000000000000.0", "2.6371688769798385", "0.5137605128950219"]
    family("numbers and literals", num + ["[%s,%s]" % (a, b) for a in num for b in num] + ['{"a":%s,"b":[%s]}' % (a, ",".join([a] * k)) for a in num for k in range(1, 45)])
    sc = [c for c in range(0x110000) if not 0xD800 <= c < 0xE000]
    chars = []
    for i in range(0, len(sc), 128):
        block = [chr(c) for c in sc[i:i + 128]]
        chars.append(dump(block, 0))
        chars.append(dump({"".join(block): "".join(block)}, i // 128 % 2))
    single = [chr(c) for c in range(0x3000)] + ["\uffff", "\U0001f642", "\U0010ffff", "\ufeff", "\ufffe"]
    chars += [dump({c: [c, c + "x" * 80]}, k) for c in single if not "\ud800" <= c < "\ue000" for k in (0, 1)]
    chars += ['"\\ud83d\\ude42"', '["\\u0000\\u001f\\u007f\\u0080\\u2028\\u2029\\ufeff"]', '{"\\/":"\\b\\f\\n\\r\\t\\"\\\\"}']
    family("all characters", chars)
    half = ['"\\ud83d"', '["a", "\\udc00\\ud800"]', '{"a": [1, "\\uDfff"], "b": 2}', '{"\\ud800": 1}', json.dumps(["x" * 100] * 200 + ["\ud800"]), json.dumps(["\ud800"] + ["x" * 100] * 200)]
    family("text that cannot be written", half)
    family("white space", [w + a + w + b + w + c + w for w in ("", " ", "\n", "\r\n", "\t\n  ") for a, b, c in (("[", "1", "]"), ("{", '"a":1', "}"), ("[", "[],{}", "]"), ("", '"x"', ""))])
    return out


# ---------------------------------------------------------------- exploration

def _one(args):
    path, doc = args
    with open(path, "w", encoding="utf8", newline="") as f:
        f.write(doc)
    try:
        after = pretty(path, run_inside)
        return None, hash(after), after.count("\n") > 1
    except Violation as v:
        return str(v), 0, False


def _chunk(a):
    d, docs = a
    path = os.path.join(d, "doc-%d.json" % os.getpid())
    r = []
    for doc in docs:
        x = _one((path, doc))
        r.append(x)
    return r


def explore(tier):
    res = Result("py:m_c21")
    if not os.path.exists(script()):
        raise driver.CheckError("no pretty.py")
    with driver.Scratch() as d, multiprocessing.Pool(driver.NPROC) as pool:
        for name, docs in documents(tier):
            t0 = time.time()
            done = 0
            parts = [docs[i:i + 200] for i in range(0, len(docs), 200)]
            for part, rs in zip(parts, pool.imap(_chunk, [(d, p) for p in parts])):
                for doc, (what, h, multi) in zip(part, rs):
                    done += 1
                    if what:
                        res.violation(name, {"doc": doc}, what)
                    else:
                        res.saw(h, 2, 2, multi)
                if len(res.violations) >= 3:
                    break
            res.family(name, len(docs), done, t0)
            res.sample(name, {"doc": docs[len(docs) // 2]})
            if len(res.violations) >= 3:
                break
        pool.terminate()
    # The script as its own process, on copies of every file shipped.
    t0 = time.time()
    tdir = os.path.join(driver.REPO, "tokens")
    files = sorted(f for f in os.listdir(tdir) if f.endswith(".json"))
    done = 0
    for f in files:
        done += 1
        case = {"file": f}
        try:
            with driver.Scratch() as d:
                judge_file(case, d)
            res.saw(f, 2, 2)
        except Violation as v:
            res.violation("shipped files", case, v)
    res.family("shipped files", len(files), done, t0)
    t0 = time.time()
    docs = ['"\u00e9"', '["\u4e2d\U0001f642"]', '{"\u00e9": ["' + "\u4e2d" * 90 + '", 1]}', '["\\u00e9", "\x7f\u0085\u2028"]', '{"a": 1}']
    for doc in docs:
        for k in range(len(LOCALES)):
            case = {"doc": doc, "locale": k}
            try:
                with driver.Scratch() as d:
                    judge(case, d)
                res.saw((doc, k), 2, 2)
            except Violation as v:
                res.violation("locales", case, v)
    res.family("locales", len(docs) * len(LOCALES), len(docs) * len(LOCALES), t0)
    return res


def judge_file(case, d):
    p = os.path.join(d, case["file"])
    shutil.copyfile(os.path.join(driver.REPO, "tokens", case["file"]), p)
    pretty(p, run_process)


def judge(case, d):
    if "file" in case:
        return judge_file(case, d)
    p = os.path.join(d, "doc.json")
    with open(p, "w", encoding="utf8", newline="") as f:
        f.write(case["doc"])
    env = LOCALES[case.get("locale", 0)]
    pretty(p, lambda q: run_process(q, env))


def replay(family, case):
    return rep(judge, case)
