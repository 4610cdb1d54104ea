"""Reference models in Python for the command-level parts of the checks."""
import ctypes, itertools, json, os, subprocess
import driver

EXT = {"bits1": 2, "bits2": 4, "bits4": 16, "bytes": 0}
MIN = {"bits1": 2, "bits2": 4, "bits4": 16, "bytes": 256, "byteshuff": 3}
TYPE_ARG = {"bits1": "bits1", "bits2": "bits2", "bits4": "bits4", "bytes": "bytes", "byteshuff": "bytes-huff"}
PROC_ARG = {"raw": "raw", "capswords": "caps-words"}

_lib = None


def lib():
    global _lib
    if _lib is None:
        so = os.path.join(driver.BUILD, "refdp.so")
        src = os.path.join(driver.VERIF, "mc/ref/refdp.c")
        with driver.Lock():
            if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
                p = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so + ".tmp", src], capture_output=True, text=True)
                if p.returncode:
                    raise driver.CheckError("refdp: " + p.stderr)
                os.rename(so + ".tmp", so)
        _lib = ctypes.CDLL(so)
        _lib.ref_new.restype = ctypes.c_void_p
        _lib.ref_free.argtypes = [ctypes.c_void_p]
        _lib.ref_add.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int64, ctypes.c_int64]
        _lib.ref_cost.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int64]
        _lib.ref_cost.restype = ctypes.c_int64
    return _lib


class Costs:
    """Least number of tokens with the given costs of strings."""

    def __init__(self, costs):
        self.l = lib()
        self.r = self.l.ref_new()
        for s, c in costs.items():
            self.l.ref_add(self.r, s, len(s), c)

    def __del__(self):
        self.l.ref_free(self.r)

    def total(self, data):
        return self.l.ref_cost(self.r, data, len(data))


def token(v):
    """A token as written in JSON: a number (extension token) or a string."""
    if isinstance(v, bool):
        raise ValueError("token %r" % v)
    if isinstance(v, int):
        return v
    if isinstance(v, str):
        return v.encode("utf8")
    if isinstance(v, list):
        return bytes(v)
    raise ValueError("token %r" % (v,))


def default_code(ttype, b):
    if ttype == "bits1":
        return [(b >> i) & 1 for i in range(7, -1, -1)]
    if ttype == "bits2":
        return [(b >> i) & 3 for i in (6, 4, 2, 0)]
    if ttype == "bits4":
        return [b >> 4, b & 15]
    return None


class Set:
    """A token set read from a file."""

    def __init__(self, doc):
        self.doc = doc
        self.type = doc["type"]
        if self.type == "fallback_bits":
            self.type = "bits%d" % doc["fallback_bits"]
        if self.type == "all_tokens":
            self.type = "bytes"
        self.processing = doc["processing"]
        self.flag = doc.get("split_paragraphs", False)
        self.tokens = [token(t) for t in doc["tokens"]]
        self.written = [(token(s["string"]), [token(t) for t in s["tokens"]]) for s in doc.get("sequences", [])]
        self.seqs = {}
        have = set(t for t in self.tokens if isinstance(t, bytes))
        if self.type in EXT and self.type != "bytes":
            for b in range(256):
                if bytes([b]) not in have:
                    self.seqs[bytes([b])] = default_code(self.type, b)
        for s, c in self.written:
            self.seqs[s] = c

    def key(self):
        """Everything that makes up the set, in order of tokens."""
        return (self.type, self.processing, self.flag, tuple(self.tokens), tuple(sorted((k, tuple(v)) for k, v in self.seqs.items())))

    def strings(self):
        return [t for t in self.tokens if isinstance(t, bytes)]

    def name(self):
        return "tokens%d_%s_%s" % (len(self.tokens), self.processing, self.type)

    def costs(self):
        c = {s: len(v) for s, v in self.seqs.items()}
        for t in self.strings():
            c[t] = 1
        return c

    def total(self, data):
        return Costs(self.costs()).total(data)

    def problems(self, unique=True):
        """What makes this no valid token set, or None."""
        ext = [t for t in self.tokens if isinstance(t, int)]
        if len(set(self.tokens)) != len(self.tokens):
            d = [t for t in self.tokens if self.tokens.count(t) > 1]
            return "duplicate token %r" % (d[0],)
        if sorted(ext) != list(range(len(ext))):
            return "extension tokens %r" % ext
        if self.type in EXT and len(ext) != EXT[self.type]:
            return "%d extension tokens in a %s set" % (len(ext), self.type)
        if any(len(t) == 0 for t in self.strings()):
            return "empty token"
        names = [s for s, _ in self.written]
        if len(set(names)) != len(names):
            return "duplicate fallback sequence"
        have = set(self.tokens)
        for s, c in self.seqs.items():
            if s in have:
                return "fallback sequence for %r although it has a token" % s
            if not c or any(t not in have for t in c):
                return "fallback sequence of %r uses a token that does not exist: %r" % (s, c)
        for b in range(256):
            if bytes([b]) not in have and bytes([b]) not in self.seqs:
                return "byte %d can't be expressed" % b
        if not unique:
            return None
        codes = [tuple(c) for c in self.seqs.values()]
        if len(set(codes)) != len(codes):
            return "two strings have the same fallback sequence"
        w = not_unique(self)
        if w:
            return w
        return None


def not_unique(ts):
    """Sardinas-Patterson over token sequences: tokens that occur in fallback
    sequences of a set are codewords themselves."""
    code = set(tuple(c) for c in ts.seqs.values())
    single = set((t,) for t in ts.strings())
    if code & single:
        return "a token of its own is the fallback sequence of another string"
    code |= single
    by_first = {}
    for c in code:
        by_first.setdefault(c[0], []).append(c)
    # A token that is the first of no sequence and doesn't occur inside one
    # never takes part in an ambiguity.
    seen, todo = set(), []
    for c in code:
        for d in by_first[c[0]]:
            if d != c and len(d) > len(c) and d[:len(c)] == c:
                todo.append(d[len(c):])
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        for c in by_first.get(s[0], []):
            if c == s:
                return "encodings are ambiguous (dangling %r)" % (s,)
            if len(c) > len(s) and c[:len(s)] == s:
                todo.append(c[len(s):])
            elif len(s) > len(c) and s[:len(c)] == c:
                todo.append(s[len(c):])
    return None


def crosses(tok):
    """Whether a token reaches across a paragraph break."""
    return any(tok[i] == 10 and tok[i + 1] == 10 and tok[i + 2] != 10 for i in range(len(tok) - 2))


# ---------------------------------------------------------------- text

def process_text(text):
    """Caps-words processing, from the README: words are maximal runs of
    letters."""
    out = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if not c.isalpha():
            out.append(c)
            i += 1
            continue
        j = i
        while j < n and text[j].isalpha():
            j += 1
        out.append(word(text[i:j]))
        i = j
        if i + 1 < n and text[i] == " " and text[i + 1].isalpha():
            i += 1
    return "".join(out)


def word(w):
    first = w[0]
    if first.isupper() and all(c.islower() for c in w[1:]) and first.lower().upper() == first:
        return "\x14" + first.lower() + w[1:] + "\x16"
    if len(w) > 1 and all(c.isupper() for c in w) and w.lower().upper() == w:
        return "\x15" + w.lower() + "\x16"
    return w + "\x16"


def decode_text(p):
    """The documented decoding."""
    out, i = [], 0
    while i < len(p):
        c = p[i]
        if c == "\x14":
            i += 1
            if i == len(p) or not p[i].isalpha():
                raise ValueError("capitalised marker without a letter")
            out.append(p[i].upper())
        elif c == "\x15":
            j = i + 1
            while j < len(p) and p[j].isalpha():
                j += 1
            out.append(p[i + 1:j].upper())
            i = j - 1
        elif c == "\x16":
            if i + 1 < len(p) and (p[i + 1] in "\x14\x15" or p[i + 1].isalpha()):
                out.append(" ")
        else:
            out.append(c)
        i += 1
    return "".join(out)


def process_file(data):
    """What processing a file writes: every line followed by a line feed."""
    lines = data.decode("utf8").split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    return "".join(process_text(l[:-1] if l.endswith("\r") else l) + "\n" for l in lines).encode("utf8")


def words(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alphabet, repeat=n):
            yield "".join(t) if isinstance(alphabet[0], str) else b"".join(t)


# ---------------------------------------------------------------- commands

class Texmo:
    def __init__(self, exe=None, shim=None):
        self.exe = exe or driver.build_cli()
        self.shim = shim

    def run(self, cwd, *args, env=None, timeout=60):
        e = {}
        if self.shim and env:
            e["LD_PRELOAD"] = self.shim
            e["MCS_ROOT"] = cwd
        e.update(env or {})
        return driver.run_cmd([self.exe] + list(args), cwd, e, timeout)


def write(path, data):
    with open(path, "wb") as f:
        f.write(data.encode("utf8") if isinstance(data, str) else data)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def load(path):
    return json.loads(read(path).decode("utf8"))


def make(ttype, tokens, processing="raw", flag=True, sequences=None, ext=None, order=None):
    """A token set document. `tokens`: byte strings."""
    def j(t):
        if isinstance(t, int):
            return t
        try:
            return t.decode("utf8")
        except UnicodeDecodeError:
            return list(t)
    n = EXT[ttype] if ttype in EXT else ext
    toks = list(range(n)) + list(tokens)
    doc = {"type": ttype, "processing": processing, "tokens": [j(t) for t in toks], "split_paragraphs": flag}
    seqs = dict(sequences or {})
    if ttype in ("bits1", "bits2", "bits4"):
        for b in range(256):
            if bytes([b]) not in tokens and bytes([b]) not in seqs:
                seqs[bytes([b])] = default_code(ttype, b)
    if seqs:
        doc["sequences"] = [{"string": j(s), "tokens": [j(t) for t in c]} for s, c in seqs.items()]
    return doc
