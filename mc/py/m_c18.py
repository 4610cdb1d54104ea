"""C18: the result of optimize depends on data, options and input set only."""
import itertools, json, os
import driver, optcli, ref
from space import Seen, Violation, check, explore as run, replay as rep
from driver import Result

EXE = SHIM = None


def setup():
    global EXE, SHIM
    EXE, SHIM = driver.build_cli(), driver.build_shim()
    ref.lib()


def stale(d, out, kind, want):
    """Leftovers of earlier runs in the output directory."""
    o = "%s/%s/" % (d, out)
    name, doc = want[0], json.loads(want[1])
    n = int(name[len("tokens"):].split("_")[0])
    st = doc.get("stats", {})
    if kind == "the result itself":
        ref.write(o + name, want[1])
    elif kind == "the result, said to be better":
        ref.write(o + name, json.dumps(dict(doc, stats=dict(st, total_tokens=1, bytes_per_token=1e9))))
    elif kind == "the result, said to be worse":
        ref.write(o + name, json.dumps(dict(doc, stats=dict(st, total_tokens=1 << 40, bytes_per_token=1e-9))))
    elif kind == "another set under its name":
        long = [t for t in doc["tokens"] if not isinstance(t, int) and len(ref.token(t)) > 1]
        new = ["qqq%d" % i if t in long else t for i, t in enumerate(doc["tokens"])]
        ref.write(o + name, json.dumps(dict(doc, tokens=new, stats=dict(st, total_tokens=max(1, st.get("total_tokens", 2) - 1)))))
    elif kind == "earlier saves":
        # Sets with fewer and with more tokens, of this type and processing.
        for k, f in enumerate((n - 2, n - 1, n + 1, n + 2)):
            toks = doc["tokens"] + [["qq", "zzz"][i] for i in range(f - n)] if f > n else [t for i, t in enumerate(doc["tokens"])]
            for t in [t for t in reversed(doc["tokens"]) if not isinstance(t, int) and len(ref.token(t)) > 1][:max(0, n - f)]:
                toks.remove(t)
            x = dict(doc, tokens=toks)
            if k % 2:
                x.pop("stats", None)
            ref.write(o + name.replace("tokens%d_" % n, "tokens%d_" % len(toks)) + ("" if len(toks) != n else ".old"), json.dumps(x))
    elif kind == "all types and processings":
        for ty, ext in (("bits1", 2), ("bits2", 4), ("bits4", 16)):
            for p in ("raw", "capswords"):
                for k in {3, n - ext} - {0}:
                    if 0 < k < 60:
                        x = ref.make(ty, [b"qq" + bytes([65 + i]) for i in range(k)], p)
                        if "tokens%d_%s_%s.json" % (k + ext, p, ty) != name:
                            ref.write(o + "tokens%d_%s_%s.json" % (k + ext, p, ty), json.dumps(dict(x, stats={"ntokens": k + ext, "total_tokens": 1, "scanned_bytes": 1})))
    elif kind == "other files":
        for f in (name + ".tmp", "." + name, name + "~", name[:-5], "tokens.json", "checkpoint.json", "stats.json", "cache.json", ".tmp", "tmp.json"):
            ref.write(o + f, want[1][:-7] if len(f) % 2 else b"{}")
    if kind == "same name, longer":
        ref.write(o + name, b'{"type":"bits1"' + b" " * 200000 + b"}")
    elif kind == "same name, short":
        ref.write(o + name, b"x")
    elif kind == "others":
        ref.write(o + "tokens3_raw_bits1.json", b"{")
        for k in (n - 1, n + 1):
            ref.write(o + name.replace("tokens%d_" % n, "tokens%d_" % k), json.dumps(ref.make("bits2", [b"zz"])))


def one(case, d, tag, env, want):
    out = "out" + tag
    os.mkdir(d + "/" + out)
    e = {"MCS_SEED": str(env.get("seed", 0)), "TMPDIR": d}
    if env.get("clock"):
        e["MCS_CLOCK"] = env["clock"]
        e["MCS_JUMP"] = str(env.get("jump", 100))
        e["MCS_TICK"] = str(env.get("tick", 1000))
    if env.get("cpus"):
        e["MCS_CPUS"] = str(env["cpus"])
    if env.get("maxread"):
        e["MCS_MAXREAD"] = str(env["maxread"])
    if env.get("plan"):
        e["MCS_PLAN"] = env["plan"]
    if env.get("env"):
        e.update(env["env"])
    if env.get("stale") and want and want[0]:
        stale(d, out, env["stale"], want)
    before = {f: ref.read("%s/%s/%s" % (d, out, f)) for f in os.listdir(d + "/" + out)}
    args = optcli.args(case, d, out=out)
    if env.get("data"):
        # The same data under another name, of another age, for another owner.
        new = d + "/" + env["data"]
        os.makedirs(os.path.dirname(new), exist_ok=True)
        if not os.path.exists(new):
            os.link(d + "/data", new)
        os.utime(new, (env.get("mtime", 0), env.get("mtime", 0)))
        args[args.index(d + "/data")] = new
    r = ref.Texmo(EXE, SHIM).run(d, *args, env=e, timeout=case.get("timeout", 60))
    if want is None and (r.timeout or r.rc != 0):
        return ("", b"")
    check(not r.timeout, "%s: did not end", env)
    if want and not want[0]:
        check(r.rc != 0, "%s: success, although it fails without", env)
        return want
    check(r.rc == 0, "%s: exit status %s: %s", env, r.rc, r.err.decode("utf8", "replace")[-300:])
    files = {f: ref.read("%s/%s/%s" % (d, out, f)) for f in os.listdir(d + "/" + out)}
    if want:
        got = files.get(want[0])
        check(got is not None, "%s: wrote %s instead of %s", env, sorted(files), want[0])
        if got != want[1]:
            k = next(i for i in range(len(got) + 1) if got[i:i + 1] != want[1][i:i + 1])
            raise Violation("%s: the result differs at byte %d: %r instead of %r" % (env, k, got[max(0, k - 40):k + 60], want[1][max(0, k - 40):k + 60]))
        if not env.get("clock"):
            changed = [f for f in files if f != want[0] and files[f] != before.get(f)]
            check(not changed, "%s: also wrote %s", env, changed)
        return want
    check(len(files) == 1, "%s: wrote %s", env, sorted(files))
    return list(files.items())[0]


def judge(case, d):
    optcli.prepare(case, d)
    want = one(case, d, "0", {"seed": 0}, None)
    for i, env in enumerate(case["envs"]):
        one(case, d, "-%d" % i, env, want)
    return Seen(want, steps=len(case["envs"]), execs=1 + len(case["envs"]))


# Texts with many equally good choices.
TEXTS = ["abcdefghijklmnopqrstuvwxyz", "ab cd ef gh ab cd ef gh\n\nij kl ij kl", "aAbBcC AB CD Ab Cd\n\n\nAB cd\n", "zyxwvutsrq zyx wvu tsr q qrs tuv\n\nwxyz\n\n",
         "\u00e9\u4e2d\u00e9\u4e2d\U0001f642\U0001f642 \u00df\u00df", "aabbccddaabbccdd\n\nddccbbaa\n\n\n\nabcd"]
NS = {"bits1": [4, 9], "bits2": [7, 14], "bits4": [19, 25], "bytes": [259, 264], "byteshuff": [5, 9, 16]}
CLOCKS = ["", "all", "2", "3,5"]
# Clocks that are far ahead at once, run fast, or stand still.
FAST = [{"clock": "all", "jump": 86400}, {"clock": "2", "jump": 400000000}, {"clock": "all", "jump": 3601}, {"clock": "3", "jump": 90000}, {"clock": "99999", "tick": 1}, {"clock": "99999", "tick": 50000000}, {"clock": "99999", "tick": 2000000000}]
READS = [{}, {"maxread": 1}, {"maxread": 7}, {"plan": "1:half,2:eintr"}]
STALE = ["", "same name, longer", "same name, short", "others"]


def all_pairs(prod):
    """A part of the product in which every two answers occur together."""
    ans = [set((k, v) for k, v in e.items()) for e in prod]
    pairs = [set(frozenset((x, y)) for x in a for y in a if x != y) for a in ans]
    todo = set().union(*pairs)
    out = []
    while todo:
        i = max(range(len(prod)), key=lambda i: (len(pairs[i] & todo), -i))
        out.append(prod[i])
        todo -= pairs[i]
    return out


def explore(tier):
    setup()
    deep = tier == "thorough"
    res = Result("py:m_c18")
    inputs = {"bits1": {"tokens": ["a", "ab", "cd", "zy"]}, "bits2": {"tokens": ["cd", "ab", "ef"]}, "bits4": {"tokens": ["zz", "b", "a"]},
              "bytes": {"tokens": [chr(b) for b in range(255, -1, -1)] + ["ab", "cd", "zz"]}, "byteshuff": optcli.huff_input("ac", ["ab", "zz", "yy"])}

    def configs():
        for i, t in enumerate(TEXTS):
            for ty, ns in NS.items():
                for n in ns:
                    yield {"data": t, "type": ty, "n": n, "processing": ("raw", "capswords")[i % 3 == 2]}
                inp = inputs[ty]
                yield {"data": t, "type": ty, "n": len(inp["tokens"]) + (inp.get("ext") or ref.EXT.get(ty, 0)) + i % 3, "input": inp}
                yield {"data": t, "type": ty, "n": ns[1], "min": 7}
    conf = list(configs())
    nseeds = 40 if deep else 6
    run(res, "hash seeds", [dict(c, envs=[{"seed": s} for s in range(1, nseeds + 1)]) for c in conf], judge)
    # Everything else, one thing at a time and all together.
    prod = [dict(r, seed=s, clock=c, stale=x, cpus=k) for s in (1, 5) for c in CLOCKS for r in READS for x in STALE for k in (1, 3)]
    envs = prod if deep else all_pairs(prod)
    pick = conf if deep else conf[::4]
    half = len(envs) // 2
    run(res, "seeds x clocks x reads x leftovers x processors" + ("" if deep else " (every pair of answers)"), [dict(c, envs=e) for c in pick for e in (envs[:half], envs[half:])], judge)
    # A jump of the clock at each reading.
    run(res, "a clock jump at each reading", [dict(c, envs=[{"seed": 1, "clock": str(k)} for k in range(1, 30 if deep else 14)]) for c in (conf if deep else conf[1::5])], judge)
    run(res, "clocks far ahead, fast, and slow", [dict(c, envs=[dict(f, seed=1) for f in FAST]) for c in (conf if deep else conf[::3])], judge)
    run(res, "names and ages of the data file", [dict(c, envs=[{"data": "other", "mtime": 5}, {"data": "deep/er/b.txt", "mtime": 2000000000}, {"data": "x" * 200 + ".json"}]) for c in conf[2::(1 if deep else 9)]], judge)
    left = ["the result itself", "the result, said to be better", "the result, said to be worse", "another set under its name", "earlier saves", "all types and processings", "other files"]
    run(res, "leftovers of earlier runs", [dict(c, envs=[dict({"seed": 0, "stale": x}, **({"clock": "all"} if i % 3 == 2 else {})) for x in left]) for i, c in enumerate(conf if deep else conf[1::3])], judge)
    # Surroundings a program should not look at.
    sur = [{"env": {"LC_ALL": "C", "LANG": "tr_TR.UTF-8", "TZ": "Asia/Tokyo"}}, {"env": {"RUST_BACKTRACE": "1", "HOME": "/nonexistent"}}, {"env": {"COLUMNS": "5", "NO_COLOR": "1"}}]
    run(res, "surroundings", [dict(c, envs=sur) for c in conf[::7]], judge)
    # Several threads.
    big = [{"data": [["ab cd ef gh\n\n", 1 << 20], ["abcd\n", 1 << 20], ["\n\nxyz", 1 << 20], ["efgh ", 1 << 20]], "type": "bits4", "n": 18, "timeout": 200},
           {"data": [["aAbB cC\n\n", 1 << 21], ["AB Ab aB\n", 1 << 21]], "type": "bits1", "n": 3, "timeout": 200}]
    ev = [{"cpus": 1}, {"cpus": 2, "seed": 3}, {"cpus": 5, "clock": "all"}, {"cpus": 8, "maxread": 1 << 16}, {"cpus": 16}]
    run(res, "data above 32 MiB", [dict(b, envs=ev if deep else ev[:4]) for b in (big if deep else big[:1])], judge, workers=2)
    return res


def replay(family, case):
    setup()
    return rep(judge, case)
