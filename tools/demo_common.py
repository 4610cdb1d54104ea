"""Helpers of the demonstrations; run with the repository as the current
directory, after a build."""
import json, os, subprocess, sys, tempfile, shutil, atexit
REPO = os.getcwd()
T = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, T, True)
EXE = os.path.join(REPO, "target/debug/texmo")

def texmo(*a, timeout=120, env=None):
    e = dict(os.environ, TMPDIR=T)
    e.update(env or {})
    try:
        return subprocess.run([EXE] + [str(x) for x in a], cwd=T, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return None

def put(name, data):
    p = os.path.join(T, name)
    with open(p, "wb") as f:
        f.write(data.encode("utf8") if isinstance(data, str) else data)
    return p

def get(name):
    with open(os.path.join(T, name), "rb") as f:
        return f.read()

def newdir(name):
    p = os.path.join(T, name)
    os.makedirs(p, exist_ok=True)
    return p

def only(d):
    fs = os.listdir(d)
    if len(fs) != 1:
        fail("files written: %s" % fs)
    return os.path.join(d, fs[0])

def fail(what):
    print("BROKEN: %s" % what)
    sys.exit(1)

def tok(v):
    return v if isinstance(v, int) else v.encode("utf8") if isinstance(v, str) else bytes(v)

WIDTH = {"bits1": 8, "bits2": 4, "bits4": 2}

def load(p):
    with open(p, encoding="utf8") as f:
        return json.load(f)

def costs(doc):
    c = {}
    if doc["type"] in WIDTH:
        c = {bytes([b]): WIDTH[doc["type"]] for b in range(256)}
    for s in doc.get("sequences", []):
        c[tok(s["string"])] = len(s["tokens"])
    for t in doc["tokens"]:
        if not isinstance(t, int):
            c[tok(t)] = 1
    return c

def least(doc, data):
    """Fewest tokens for the data (plain dynamic programme)."""
    c = costs(doc)
    m = max(map(len, c))
    best = [0]
    for i in range(1, len(data) + 1):
        best.append(min(best[i - k] + c[data[i - k:i]] for k in range(1, min(m, i) + 1) if data[i - k:i] in c))
    return best[-1]

def bits(t, tokens, processing="raw", flag=True):
    n = {"bits1": 2, "bits2": 4, "bits4": 16, "bytes": 0}[t]
    def j(x):
        try:
            return x.decode("utf8")
        except UnicodeDecodeError:
            return list(x)
    return {"type": t, "processing": processing, "tokens": list(range(n)) + [j(x) for x in tokens], "split_paragraphs": flag}

def convert(doc, data, name="x"):
    """Converts and returns the written document."""
    d = newdir("out-" + name)
    r = texmo("convert-tokens", "-d", put("d-" + name, data), "-i", put("i-" + name, json.dumps(doc)), "-t", d)
    if r is None or r.returncode:
        fail("convert-tokens: %s" % (r and r.stderr[-400:]))
    return load(only(d))

def optimize(data, typ, n, *more, name="o", processing="raw", timeout=120, env=None):
    d = newdir("out-" + name)
    r = texmo("optimize", "-d", put("d-" + name, data), "-t", d, "--type=" + typ, "-p", processing, "-n", n, *more, timeout=timeout, env=env)
    if r is None:
        fail("optimize did not end")
    if r.returncode:
        fail("optimize: exit status %d: %s" % (r.returncode, r.stderr[-400:]))
    return load(only(d))
