#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--only SUBSTR]"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core


def main():
    a = sys.argv[1:]
    prop = a[0]
    core.TIER = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        core.TIER = a[a.index("--tier") + 1]
    t0 = time.time()
    core.load()
    if prop in ("C06", "C07", "C22"):
        import c_panic as mod
    elif prop in ("C01", "C02", "C03", "C11", "C12", "C13"):
        import c_inv as mod
    else:
        import importlib
        mod = importlib.import_module("c_" + prop.lower())
    r = mod.check(prop)
    jobs, rule, missing = r[:3]
    kw = r[3] if len(r) > 3 else {}
    if "--only" in a:
        s = a[a.index("--only") + 1]
        jobs = [j for j in jobs if s in j[0]]
    res = core.run_jobs(jobs, 780 if core.TIER == "quick" else 860)
    sys.exit(core.finish(prop, jobs, res, t0, rule, missing, **kw))


if __name__ == "__main__":
    main()
