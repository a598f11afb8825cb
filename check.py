#!/usr/bin/env python3
"""check.py P01 [--tier quick|thorough] [--seed N]     decide one property
   check.py --replay FILE                              run one recorded case again
Exit 0: held on everything explored. Exit 1: VIOLATION line. Anything else: no verdict."""
import sys, os, json, argparse, tempfile
sys.dont_write_bytecode = True
import vlib
from props import PROPS

def replay(path):
    v = json.load(open(path))
    if v.get("src", "").endswith(".cxx") and v.get("case"):
        flavor = v["flavor"] if v["flavor"] not in ("fuzz", "tsan") else "asan"
        exe = vlib.build_harness(v["src"], flavor, v["version"], v.get("cflags", ""), std=v.get("std", "c++17"))
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "case"); open(f, "w").write(v["case"])
            c = vlib.Check(v["property"], "quick", 1)
            rc, log = c.proc([exe, "--version", str(v["version"]), "--replay-file", f], "replay", mem=None)
            print(log)
            return 1 if '"type":"violation"' in log or rc else 0
    print("this violation has no single case; run the check again"); print(json.dumps(v, indent=1)); return 2

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay: return replay(a.replay)
    p = PROPS[a.prop]
    c = vlib.Check(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed)
    try:
        p["run"](c)
        return c.finish(p.get("level", "exploration"), p["rule"], p["assumptions"], p.get("min_evals", 1000))
    except vlib.CheckError as e:
        if c.violations:
            return c.finish(p.get("level", "exploration"), p["rule"], p["assumptions"], 0)
        print(f"ERROR: no verdict for {a.prop}: {e}", flush=True)
        return 2

if __name__ == "__main__":
    sys.exit(main())
