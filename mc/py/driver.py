"""Common parts of the checks: building from the current /repo tree, running
engines and the real program, collecting results, evidence and verdicts."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
WS = os.path.join(BUILD, "ws")
NPROC = os.cpu_count() or 8
# After these many seconds no new case is started in this check: what was not
# reached is said in the evidence (families that are not complete).
ENGINE_SOFT = {"quick": 400, "thorough": 5 * 3600}
CHECK_SOFT = {"quick": 720, "thorough": 8 * 3600}
soft_end = None

ENGINE_BINS = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, "mc/engines/src/bin")) if f.endswith(".rs"))


class CheckError(Exception):
    """The check itself failed: no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(root, f) for f in fs]
    files += [os.path.join(REPO, "Cargo.toml")]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def gen_root():
    """A library root with the modules of src/main.rs made public."""
    src = open(os.path.join(REPO, "src/main.rs"), encoding="utf-8").read()

    def sub(m):
        name = m.group(2)
        for cand in (name + ".rs", name + "/mod.rs"):
            p = os.path.join(REPO, "src", cand)
            if os.path.exists(p):
                return '#[path = "%s"]\npub mod %s;' % (p, name)
        return m.group(0)

    src = re.sub(r"(?m)^(pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;", sub, src)
    return "#![allow(warnings)]\n" + src


DEPS = """clap = { version = "4.4", features = ["derive"] }
json = "0.12"
rand = "0.8"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
tempfile = "3.2.0"
"""

BUILD_RS = """fn main() {
    println!("cargo:rerun-if-env-changed=SUBJECT_HASH");
    println!("cargo:rustc-env=SUBJECT_HASH={}", std::env::var("SUBJECT_HASH").unwrap_or_default());
}
"""


def gen_workspace():
    mc = os.path.join(VERIF, "mc")
    write_if_changed(WS + "/Cargo.toml", """[workspace]
resolver = "2"
members = ["subject", "cli", "engines", "vsubject", "sched"]

[profile.release]
opt-level = 3
debug = false
overflow-checks = true
debug-assertions = false
incremental = false
codegen-units = 16
panic = "unwind"
""")
    lock = os.path.join(mc, "Cargo.lock")
    if os.path.exists(lock):
        write_if_changed(WS + "/Cargo.lock", open(lock).read())
    root = gen_root()
    write_if_changed(WS + "/subject/root.rs", root)
    for name in ("subject", "cli", "vsubject"):
        write_if_changed(WS + "/%s/build.rs" % name, BUILD_RS)
    write_if_changed(WS + "/subject/Cargo.toml", '[package]\nname = "subject"\nversion = "0.1.0"\nedition = "2021"\n\n[lib]\npath = "root.rs"\n\n[dependencies]\n' + DEPS)
    write_if_changed(WS + "/cli/Cargo.toml", '[package]\nname = "texmo"\nversion = "0.1.0"\nedition = "2021"\n\n[[bin]]\nname = "texmo"\npath = "%s/src/main.rs"\n\n[dependencies]\n' % REPO + DEPS)
    bins = "".join('[[bin]]\nname = "%s"\npath = "%s/engines/src/bin/%s.rs"\n\n' % (b, mc, b) for b in ENGINE_BINS)
    write_if_changed(WS + "/engines/Cargo.toml", '[package]\nname = "engines"\nversion = "0.1.0"\nedition = "2021"\nautobins = false\n\n[lib]\npath = "%s/engines/src/lib.rs"\n\n' % mc + bins +
                     '[dependencies]\nsubject = { path = "../subject" }\nmckit = { path = "%s/mckit" }\nserde = { version = "1.0", features = ["derive"] }\nserde_json = "1.0"\nlibc = "0.2"\n' % mc)
    # The subject once more, with `std::sync` and `std::thread` under control.
    write_if_changed(WS + "/vsubject/root.rs", root)
    write_if_changed(WS + "/vsubject/Cargo.toml", '[package]\nname = "vsubject"\nversion = "0.1.0"\nedition = "2021"\n\n[lib]\npath = "root.rs"\n\n[dependencies]\nstd = { package = "vstd", path = "%s/vstd" }\n' % mc + DEPS)
    write_if_changed(WS + "/sched/Cargo.toml", '[package]\nname = "sched"\nversion = "0.1.0"\nedition = "2021"\nautobins = false\n\n[[bin]]\nname = "c06"\npath = "%s/sched/src/main.rs"\n\n[dependencies]\nvsubject = { path = "../vsubject" }\nsubject = { path = "../subject" }\nvstd = { path = "%s/vstd" }\nmckit = { path = "%s/mckit" }\nshuttle = "0.9"\nserde = { version = "1.0", features = ["derive"] }\nserde_json = "1.0"\nlibc = "0.2"\n' % (mc, mc, mc))


def cargo(args, what, timeout=800):
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    env["CARGO_NET_OFFLINE"] = "true"
    env["SUBJECT_HASH"] = tree_hash()
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--release", "-q"] + args, cwd=WS, env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        return p.stdout.decode("utf8", "replace")[-6000:]
    return None


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def build_cli():
    with Lock():
        gen_workspace()
        err = cargo(["-p", "texmo"], "cli")
        if err:
            raise CheckError("the program does not build:\n" + err)
    return os.path.join(BUILD, "target/release/texmo")


def build_engine(name):
    """Path of the engine, or None (with the error) if it doesn't compile."""
    with Lock():
        gen_workspace()
        pkg = "sched" if name == "c06" else "engines"
        err = cargo(["-p", pkg, "--bin", name], name)
    return os.path.join(BUILD, "target/release", name), err


def build_shim():
    so = os.path.join(BUILD, "shim.so")
    src = os.path.join(VERIF, "mc/shim/shim.c")
    with Lock():
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            p = subprocess.run(["gcc", "-O1", "-fno-delete-null-pointer-checks", "-shared", "-fPIC", "-o", so + ".tmp", src, "-ldl", "-lpthread"], capture_output=True, text=True)
            if p.returncode:
                raise CheckError("shim: " + p.stderr)
            os.rename(so + ".tmp", so)
    return so


# ---------------------------------------------------------------- results

class Result:
    """What one part of a check explored."""

    def __init__(self, part):
        self.part = part
        self.cases = 0
        self.steps = 0
        self.states = 0
        self.execs = 0
        self.nontrivial = 0
        self.outcomes = set()
        self.n_outcomes = None
        self.samples = []
        self.violations = []
        self.families = []
        self.extra = {}

    def saw(self, outcome, steps=1, execs=1, nontrivial=True, states=0):
        self.cases += 1
        self.steps += steps
        self.execs += execs
        self.states += states
        if nontrivial:
            self.nontrivial += 1
        if len(self.outcomes) < 2000000:
            self.outcomes.add(outcome if isinstance(outcome, (int, str, bytes)) else repr(outcome))

    def violation(self, family, case, what, key=None):
        self.violations.append({"family": family, "case": case, "what": str(what)[:2000], "key": key})

    def family(self, name, space, explored, t0, complete=None):
        self.families.append({"family": name, "space": space, "explored": explored,
                              "complete": explored == space if complete is None else complete,
                              "wall_s": round(time.time() - t0, 2)})

    def sample(self, family, case):
        if len(self.samples) < 40:
            s = json.dumps(case, ensure_ascii=True)
            self.samples.append({"family": family, "case": case if len(s) < 400 else s[:400] + "..."})

    def to_json(self):
        return {"part": self.part, "cases": self.cases, "steps": self.steps, "states": self.states,
                "execs": self.execs, "nontrivial": self.nontrivial,
                "distinct_outcomes": self.n_outcomes if self.n_outcomes is not None else len(self.outcomes),
                "samples": self.samples, "violations": self.violations, "families": self.families, "extra": self.extra}


def run_engine(name, tier, timeout=None, extra=()):
    """Runs a Rust engine; returns its result or None if it does not compile."""
    timeout = timeout or (600 if tier == "quick" else 6 * 3600)
    path, err = build_engine(name)
    if err:
        return None, err
    tmp = tempfile.mkdtemp(prefix="mceng-")
    out = os.path.join(tmp, "result.json")
    env = dict(os.environ, TMPDIR=tmp, VERIF_REPO=REPO, MC_SOFT_S=str(ENGINE_SOFT[tier]))
    try:
        p = subprocess.Popen([path, "--tier", tier, "--out", out] + list(extra), stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, start_new_session=True, env=env, cwd=tmp)
        try:
            _, se = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise CheckError("engine %s: time limit" % name)
        if p.returncode != 0:
            if os.path.exists(out + ".err"):
                se += open(out + ".err", "rb").read()
            raise CheckError("engine %s: exit status %s\n%s" % (name, p.returncode, se.decode("utf8", "replace")[-3000:]))
        j = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    j["part"] = "engine:" + name
    return j, None


# ---------------------------------------------------------------- real program

class Scratch:
    """A scratch directory that disappears afterwards."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="mcscratch-", dir=os.environ.get("MC_SCRATCH", "/tmp"))
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class Run:
    __slots__ = ("rc", "out", "err", "timeout", "wall")


def run_cmd(args, cwd, env=None, timeout=60, preexec=None):
    e = {"PATH": "/usr/bin:/bin", "TMPDIR": cwd, "LC_ALL": "C.UTF-8", "RUST_BACKTRACE": "0"}
    if env:
        e.update(env)
    r = Run()
    t0 = time.time()
    p = subprocess.Popen(args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=preexec)
    try:
        r.out, r.err = p.communicate(timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    r.wall = time.time() - t0
    return r


# ---------------------------------------------------------------- verdicts

def load_known():
    """Lines `finding: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing."""
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def late():
    return soft_end is not None and time.time() > soft_end


def finish(prop, tier, level, results, notes, rule, assumptions, t0):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    known = load_known()
    violations, kf = [], []
    for r in results:
        for v in r["violations"]:
            v = dict(v, part=r["part"], property=prop)
            if v.get("key") and (prop, v["key"]) in known:
                kf.append((v["key"], known[(prop, v["key"])]))
            else:
                violations.append(v)
    S = lambda k: sum(r[k] for r in results)
    samples = []
    for r in results:
        for s in r["samples"][:12]:
            samples.append(dict(s, part=r["part"]))
    outcomes = S("distinct_outcomes")
    cov = {"samples": samples[:40], "parts": [{k: r[k] for k in ("part", "families", "extra") if k in r} for r in results],
           "exhaustive": bool(results) and all(f["complete"] for r in results for f in r["families"]),
           "rule": rule, "notes": notes}
    if level == "model_checking":
        cov.update(states=S("states") or outcomes, transitions=S("steps"), traces_validated_against_impl=S("execs"))
    else:
        cov.update(evaluations=S("execs"), distinct_nontrivial=min(outcomes, S("nontrivial")))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, text in sorted(set(kf)):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(EVID, "replay", f))
    for i, v in enumerate(violations[:5]):
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump(v, f)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        log("  [%s/%s] %s" % (v["part"], v["family"], v["what"][:600]))
    cs = {k: v for k, v in cov.items() if isinstance(v, (int, bool))}
    print("%s %s: %s, %d violations, %.1f s" % (prop, tier, cs, len(violations), time.time() - t0))
    sys.stdout.flush()
    return 1 if violations else 0
