"""python3-vt -m popver.symjob PROPERTY CONTRACT OUT.json SECONDS [thorough]"""
import json
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")


def main():
    prop, name, out, seconds = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
    thorough = len(sys.argv) > 5
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "compat", "sitecustomize.py")) as f:
        exec(compile(f.read(), "compat", "exec"), {"__name__": "popver_compat"})
    from . import registry
    hs = {h.name: h for h in registry.load(prop)}
    h = hs[name]
    from . import symenv, core
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = dict(contract=name, error=None)
    try:
        ex, dt = symenv.run_symbolic(h, seconds)
        sh = ex.shared
        res.update(complete=ex.complete, errors=ex.errors, paths=sh.paths, seconds=dt, solver_time=sh.solver_time,
                   solver_calls=sh.solver_calls, covered=sorted(sh.covered), trusted=sorted(sh.trusted),
                   notes=sorted(sh.notes))
        obs = []
        for o in sh.obligations:
            obs.append(dict(label=o.label, status=o.status, path=list(o.path), backend=o.backend, time=round(o.time, 3),
                            detail=o.detail if o.status != "proved" else "", inputs=o.inputs))
        res["obligations"] = obs
        if thorough:
            # every query answered by z3 is put to cvc5 as well
            n = ok = 0
            tt = time.time()
            for s, b in sh.queries:
                if time.time() - tt > 200:
                    break
                n += 1
                if core.cvc5_check(s, 4000) == "unsat":
                    ok += 1
            res["second_backend"] = dict(queries=len(sh.queries), tried=n, confirmed=ok)
    except BaseException as e:
        import traceback
        res["error"] = traceback.format_exc()[-4000:]
        res.setdefault("obligations", [])
        res.setdefault("errors", [])
        res["complete"] = False
        res["internal"] = True
    res["wall"] = time.time() - t0
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
