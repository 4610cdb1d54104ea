#!/usr/bin/env python3
"""seeds.py make ID... : plants the bugs described in tools/seeds/*.py in a
scratch copy, verifies them and writes seeded/<id>/.
seeds.py detect ID... : runs the property's check against a scratch copy with
the bug (never /repo itself)."""
import glob, importlib.util, json, os, shutil, subprocess, sys, textwrap, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("SEED_WT", "/tmp/seedwt")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO_PY = '#!/bin/bash\nexec python3 -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
DEMO_RS = r'''#!/bin/bash
# Builds demo.rs together with the sources of the tree, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
{
  echo '#![allow(warnings)]'
  sed -nE 's/^(pub )?mod ([a-z0-9_]+);.*/\2/p' src/main.rs | while read -r m; do
    for f in "$repo/src/$m.rs" "$repo/src/$m/mod.rs"; do [ -f "$f" ] && echo "#[path = \"$f\"] pub mod $m;"; done
  done
  cat "$here/demo.rs"
} > "$t/src/main.rs"
cp Cargo.toml Cargo.lock "$t/"
cd "$t" && CARGO_TARGET_DIR="$t/target" TMPDIR="$t" timeout 280 cargo run --offline -q
'''

def specs():
    out = {}
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        s = importlib.util.spec_from_file_location("x", f)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for x in m.SEEDS:
            assert x["id"] not in out, x["id"]
            out[x["id"]] = x
    return out

def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode("utf8", "replace")

def fresh():
    if not os.path.exists(WT):
        subprocess.check_call(["cp", "-a", "/repo", WT])
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", WT)

ENV = {"CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "1", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_TARGET_DIR": WT + "/target", "CARGO_TERM_COLOR": "never"}

def build():
    return sh("rm -rf target/debug/.fingerprint/texmo-*; cargo build --offline 2>&1", WT, env=ENV)

def tests():
    rc, o = sh("cargo test --offline 2>&1", WT, env=ENV)
    ok = set("texmo:src/main.rs::" + l.split()[1] for l in o.splitlines() if l.startswith("test ") and l.endswith(" ok"))
    return BASE - ok, o

def apply(s):
    for f, a, b in s["edits"]:
        p = os.path.join(WT, f)
        t = open(p, encoding="utf8").read()
        if t.count(a) != 1:
            raise SystemExit("%s: %d occurrences of %r in %s" % (s["id"], t.count(a), a, f))
        open(p, "w", encoding="utf8").write(t.replace(a, b))

def make(s):
    fresh()
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    if "py" in s:
        open(d + "/demo.py", "w").write("from common import *\n" + textwrap.dedent(s["py"]).lstrip("\n"))
        shutil.copy(V + "/tools/demo_common.py", d + "/common.py")
        open(d + "/demo.sh", "w").write(DEMO_PY)
    else:
        open(d + "/demo.rs", "w").write(textwrap.dedent(s["rs"]).lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_RS)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = build()
    assert rc == 0, o
    t0 = time.time()
    rc, o = sh("bash %s/demo.sh" % d, WT, 300)
    if rc:
        print(s["id"], "DEMO FAILS ON THE UNCHANGED TREE", o[-1500:]); return False
    t1 = time.time()
    apply(s)
    rc, diff = sh("git diff", WT)
    open(d + "/patch.diff", "w").write(diff)
    rc, o = build()
    if rc:
        print(s["id"], "DOES NOT BUILD", o[-1500:]); return False
    missing, o = tests()
    if missing:
        print(s["id"], "TESTS FAIL", missing); return False
    rc, o = sh("bash %s/demo.sh" % d, WT, 300)
    if rc == 0:
        print(s["id"], "DEMO PASSES WITH THE CHANGE"); return False
    print(s["id"], "ok (%.0f s): %s" % (t1 - t0, o.strip()[-150:].replace("\n", " | ")))
    return True

def detect(s, props):
    fresh()
    rc, o = sh("git apply %s/seeded/%s/patch.diff" % (V, s["id"]), WT)
    assert rc == 0, o
    for p in props or [s["property"]]:
        t0 = time.time()
        rc, o = sh("python3 %s/check.py run %s --tier quick" % (V, p), V, 1500,
                   {"VERIF_REPO": WT, "VERIF_BUILD": WT + ".build", "VERIF_EVIDENCE": WT + ".evidence", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        why = [l for l in o.splitlines() if l.startswith("  [")]
        print(s["id"], p, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %d %s" % (rc, o[-600:])), "%.0f s" % (time.time() - t0), (why or [""])[0][:170], flush=True)
    sh("git checkout -q -- .", WT)

if __name__ == "__main__":
    sp = specs()
    ids = [a for a in sys.argv[2:] if not a.startswith("--")]
    props = [a[2:] for a in sys.argv[2:] if a.startswith("--")]
    for i in sorted(sp) if not ids else ids:
        for k in ([i] if i in sp else [x for x in sp if x.startswith(i)]):
            make(sp[k]) if sys.argv[1] == "make" else detect(sp[k], props)
