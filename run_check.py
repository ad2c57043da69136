#!/opt/venv/bin/python
"""run_check.py PID [--tier quick|thorough] [--only SUBSTR] [-v] [--replay FILE]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("NUMBA_DISABLE_JIT") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", *sys.argv])

import argparse
import importlib
import json
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, "/repo")
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from checks import REGISTRY
    from symx import engine, proxy, runner

    modname = REGISTRY[a.pid]
    mod = importlib.import_module(f"checks.{modname}")
    spec = mod.CHECKS[a.pid]
    proxy.patch_math()
    if a.replay:
        rec = json.load(open(a.replay))
        jobs = {j.name: j for j in spec["jobs"](rec.get("tier", a.tier))}
        j = jobs[rec["job"]]
        e, out = engine.run_path(j.fn, j.cfg, (), seed, engine.Stats(), mode="concrete", model=rec["model"])
        for n in e.notes:
            print("  ", n)
        print("REPRODUCED" if out else "not reproduced", out[1] if out else "")
        if out and len(out) > 3:
            print(out[3])
        return 1 if out else 0
    runner.COV.start()
    jobs = spec["jobs"](a.tier)
    budget = a.budget or (spec.get("quick_s", 45) if a.tier == "quick" else spec.get("thorough_s", 600))
    rc = runner.main(a.pid, jobs, a.tier, seed, budget, outside=spec.get("outside", ""), verbose=a.v, only=a.only,
                     nproc=a.procs)
    from checks.common import known

    for key, (text, still_fails) in spec.get("known", {}).items():
        if known(a.pid, key) and still_fails():
            print(f"KNOWN-FINDING: property={a.pid} {text}")
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
