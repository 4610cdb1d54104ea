#!/usr/bin/env python3
"""check.py run ID [--tier quick|thorough]   decide one property
   check.py replay FILE                      re-execute one reported violation
   check.py setup                            build everything once
   check.py list"""
import importlib, json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc/py"))
sys.dont_write_bytecode = True
import driver
import props


def run(prop, tier):
    t0 = time.time()
    driver.soft_end = t0 + driver.CHECK_SOFT[tier]
    spec = props.SPECS[prop]
    results, notes, failed = [], [], []
    for name in spec.get("engines", []):
        try:
            r, err = driver.run_engine(name, tier)
        except driver.CheckError as e:
            # Perhaps the code under test brought the engine down; the commands
            # may still show what is wrong. Without a violation there: no verdict.
            failed.append(str(e))
            driver.log(str(e))
            continue
        if r is None:
            # The program builds (or build_cli below reports it), but an
            # internal interface this engine uses has changed.
            notes.append("engine %s does not compile against this tree; command-level part only" % name)
            driver.log(notes[-1])
            driver.log(err[-1500:])
        else:
            results.append(r)
    for mod in spec.get("modules", []):
        if any(r["violations"] for r in results):
            break
        name, _, arg = mod.partition("@")
        results.append(importlib.import_module(name).explore(*([tier, arg] if arg else [tier])).to_json())
    if failed and not any(r["violations"] for r in results):
        raise driver.CheckError("; ".join(failed))
    if not results:
        driver.build_cli()  # raises if the program itself is broken
        raise driver.CheckError("nothing could be explored: " + "; ".join(notes))
    return driver.finish(prop, tier, spec["level"], results, notes, spec["rule"], spec.get("assumptions", []), t0)


def replay(path):
    v = json.load(open(path))
    kind, name = v["part"].split(":")
    if kind == "engine":
        exe, err = driver.build_engine(name)
        if err:
            raise driver.CheckError(err)
        import subprocess
        return subprocess.run([exe, "--replay", path]).returncode
    name, _, arg = name.partition("@")
    what = importlib.import_module(name).replay(*([v["family"], v["case"], arg] if arg else [v["family"], v["case"]]))
    print("replay: " + ("VIOLATED: %s" % what if what else "property holds on this case"))
    return 1 if what else 0


def setup():
    driver.build_cli()
    for n in driver.ENGINE_BINS + ["c06"]:
        p, err = driver.build_engine(n)
        if err:
            print(err)
            return 3
    driver.build_shim()
    import ref
    ref.lib()
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "run":
            tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
            return run(a[1], tier)
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "setup":
            return setup()
        if a[0] == "list":
            for p, s in sorted(props.SPECS.items()):
                print(p, s)
            return 0
    except driver.CheckError as e:
        driver.log("CHECK ERROR: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
