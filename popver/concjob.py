"""python -m popver.concjob PROPERTY OUT.json RUNFACTOR SEED SECONDS [CONTRACT [GIVEN.json]]

runs the contracts of a property on the real code with concrete values"""
import json
import os
import sys
import time
import traceback


def default(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return str(o)


def main():
    prop, out, factor, seed, seconds = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5])
    only = sys.argv[6] if len(sys.argv) > 6 else None
    given = json.load(open(sys.argv[7])) if len(sys.argv) > 7 else None
    from . import registry
    from . import concenv
    hs = [h for h in registry.load(prop) if h.conc and (only in (None, "-") or h.name in only.split(","))]
    res = {}
    end = time.time() + seconds
    for k, h in enumerate(hs):
        t0 = time.time()
        left = end - time.time()
        try:
            r = concenv.run_concrete(h, max(1, int(h.runs * (min(factor, h.thorough) if factor > 6 else factor))), seed, given,
                                     deadline=time.time() + max(3.0, left / (len(hs) - k)))
        except BaseException:
            r = dict(evaluations=0, checks=0, failures=[], skipped=0, samples=[], internal=traceback.format_exc()[-3000:])
        r["seconds"] = round(time.time() - t0, 2)
        res[h.name] = r
        with open(out, "w") as f:
            json.dump(res, f, default=default)


if __name__ == "__main__":
    main()
