#!/usr/bin/env python3
"""run.py check PROPERTY [quick|thorough]   decide one property on /repo's working tree
run.py list                                 list the contracts
run.py replay FILE                          run the input of a replay file on the real code

For every contract of the property
  1. the verifier (popver) executes the current source of /repo symbolically and
     discharges every obligation (z3, in the thorough tier cvc5 as well);
  2. the same contract is evaluated on the real code under its own interpreter
     (conformance of the engine with CPython/numpy, search for witnesses);
  3. inputs of refuted obligations are replayed on the real code.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("POPVER_REPO", "/repo")
REALPY = "/opt/venv/bin/python"
VTPY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    os.execv(VTPY, [VTPY, "-B"] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)

JOBS = int(os.environ.get("POPVER_JOBS", str(min(8, os.cpu_count() or 1))))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")

TRUSTED = [
    "popver engine: the mechanical source transform (popver/loader.py) and the symbolic semantics of Python, numpy, "
    "scipy, h5py, yaml, networkx and astropy operations (popver/core.py, arr.py, loops.py, pylist.py, shims.py, "
    "h5shim.py); compared with the real libraries by evaluating the same contracts under CPython on every run",
    "z3 (thorough tier: every query is put to cvc5 as well)",
    "CPython semantics of the constructs that are executed natively (classes, descriptors, metaclasses, closures, "
    "dicts, exceptions)",
]
ASSUMPTIONS = [
    "floating point is treated as exact real arithmetic, except where a contract uses the IEEE 754 double sort "
    "(C01, C02: parameter bounds and threshold comparisons); array inputs hold no NaN",
    "numpy's and scipy's generators give independent draws of the stated law for the arguments they are called with",
    "partial correctness: rejection loops are assumed to end (almost surely)",
    "numba.njit keeps the meaning of the Python function it decorates",
    "memory is sufficient and no other thread changes the objects",
]


class Pool:
    def __init__(self, deadline):
        self.deadline = deadline
        self.todo, self.live = [], []

    def add(self, cmd, env, out, limit, key, log):
        self.todo.append(dict(cmd=cmd, env=env, out=out, limit=limit, key=key, log=log))

    def run(self):
        done = {}
        while self.todo or self.live:
            while self.todo and len(self.live) < JOBS:
                j = self.todo.pop(0)
                j["t0"] = time.time()
                if j["t0"] > self.deadline:
                    done[j["key"]] = dict(missing="time limit of the check")
                    continue
                with open(j["log"], "w") as f:
                    j["p"] = subprocess.Popen(j["cmd"], env=j["env"], stdout=f, stderr=subprocess.STDOUT, cwd=VERIF,
                                              start_new_session=True)
                self.live.append(j)
            for j in list(self.live):
                rc = j["p"].poll()
                if rc is None and (time.time() - j["t0"] > j["limit"] or time.time() > self.deadline):
                    try:
                        os.killpg(j["p"].pid, 9)
                    except OSError:
                        pass
                    j["p"].wait()
                    rc = "time limit"
                if rc is not None:
                    self.live.remove(j)
                    try:
                        with open(j["out"]) as f:
                            r = json.load(f)
                        if rc != 0:
                            r["_rc"] = str(rc)
                    except Exception:
                        with open(j["log"]) as f:
                            r = dict(missing="no result (%s)" % rc, log=f.read()[-2000:])
                    done[j["key"]] = r
            time.sleep(0.05)
        return done


SPURIOUS = ("no unexpected error (TypeError)", "no unexpected error (AttributeError)")


def sym_env(home, extra=None):
    e = dict(os.environ, HOME=home, POPVER_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONPATH=VERIF, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.update(extra or {})
    return e


def conc_env(home):
    return dict(os.environ, HOME=home, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                PYTHONPATH=":".join([os.path.join(VERIF, "popver", "compat"), REPO, VERIF]), NUMBA_DISABLE_JIT="1",
                MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", XDG_CONFIG_HOME=home + "/.config")


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) contract=(\S+) obligation=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def sym_cmd(prop, name, out, seconds, tier):
    c = [VTPY, "-B", "-W", "ignore", "-m", "popver.symjob", prop, name, out, str(seconds)]
    return c + (["thorough"] if tier == "thorough" else [])


def conc_cmd(prop, out, factor, seed, seconds, name, given=None):
    c = [REALPY, "-B", "-W", "ignore", "-m", "popver.concjob", prop, out, str(factor), str(seed), str(seconds), name]
    return c + ([given] if given else [])


def check(prop, tier):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="popver_%s_" % prop)
    try:
        return _check(prop, tier, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, tier, t0, scratch):
    from popver import registry
    hs = registry.load(prop)
    if not hs:
        print("no contracts for", prop)
        return 3
    thorough = tier == "thorough"
    total = 6 * 3600 if thorough else 780
    deadline = t0 + total
    scale = 6 if thorough else 1
    homes = [0]

    def home():
        homes[0] += 1
        h = os.path.join(scratch, "h%d" % homes[0])
        os.mkdir(h)
        return h

    def path(*a):
        return os.path.join(scratch, "_".join(str(x) for x in a))

    # 1 + 2: the verifier and the evaluation on the real code
    pool = Pool(deadline)
    conc = [h for h in hs if h.conc]
    for h in sorted(hs, key=lambda h: -h.seconds):
        if h.sym:
            pool.add(sym_cmd(prop, h.name, path("s", h.name), h.seconds * scale, tier), sym_env(home()),
                     path("s", h.name), h.seconds * scale + (400 if thorough else 40), ("sym", h.name), path("sl", h.name))
    heavy = [h for h in conc if h.heavy]
    light = [h for h in conc if not h.heavy]
    limit = 3000 if thorough else 150

    def add_conc(name, key, factor, given=None, seed=SEED, lim=limit, p=None):
        (p or pool).add(conc_cmd(prop, path("c", key), factor, seed, lim, name, given), conc_env(home()), path("c", key),
                        lim + 60, ("conc", key), path("cl", key))
    if light:
        add_conc(",".join(h.name for h in light), "light", max([h.thorough for h in light]) if thorough else 1)
    for h in heavy:
        add_conc(h.name, h.name, h.thorough if thorough else 1)
    # the evaluations are short: start them first
    pool.todo.sort(key=lambda j: j["key"][0] != "conc")
    done = pool.run()

    cres = {}
    cmissing = []
    for k, r in done.items():
        if k[0] == "conc":
            if "missing" in r:
                cmissing.append("%s: %s %s" % (k[1], r["missing"], r.get("log", "")[-600:]))
            cres.update({n: x for n, x in r.items() if isinstance(x, dict)})
    sres = {k[1]: r for k, r in done.items() if k[0] == "sym"}

    def bad(r):
        return [o for o in r.get("obligations", []) if o["status"] != "proved"]

    # retry what the solver could not settle
    pool = Pool(deadline)
    again = [n for n, r in sres.items() if any(o["status"] == "unknown" for o in bad(r)) or r.get("missing")
             or r.get("internal")]
    if again and time.time() < deadline - 60:
        left = max(60.0, min(300.0, deadline - time.time() - 120)) if not thorough else 3000
        for n in again:
            pool.add(sym_cmd(prop, n, path("r", n), left, "quick"), sym_env(home(), {"POPVER_MS": "30000"}), path("r", n),
                     left + 30, ("sym", n), path("rl", n))
        for k, r in pool.run().items():
            if "missing" not in r and not r.get("internal"):
                sres[k[1]] = r

    # contracts the verifier could not decide: bounded stand-in, more executions of the real code
    undecided = {}
    for h in hs:
        if not h.sym:
            continue
        r = sres.get(h.name, {"missing": "not run"})
        why = []
        if r.get("missing"):
            why.append(r["missing"])
        if r.get("internal"):
            why.append("engine error: " + (r["error"] or "").strip().splitlines()[-1])
        why += list(r.get("errors", []))
        if not r.get("complete", False) and not why:
            why.append("time limit of the exploration")
        if not bad(r) and not r.get("obligations") and not why:
            why.append("no obligation was generated")
        if why:
            undecided[h.name] = why

    failures = []          # (contract, label, evidence, inputs)
    for n, r in cres.items():
        for f in r.get("failures", []):
            failures.append(dict(contract=n, label=f["label"], inputs=f["inputs"], run=f["run"], seed=f["seed"],
                                 error=f["error"], how="evaluation on the real code"))
        if r.get("internal"):
            cmissing.append("%s: %s" % (n, r["internal"][-600:]))

    # 3: replay refuted obligations; deeper search where the proof is missing
    pool = Pool(deadline)
    nrep = 0
    conf = {h.name for h in conc}
    have = {(f["contract"]) for f in failures}
    for h in hs:
        r = sres.get(h.name, {})
        b = bad(r)
        if h.name not in conf or h.name in have:
            continue
        for k, o in enumerate(b[:6]):
            if o.get("inputs") is not None:
                g = path("g", h.name, k)
                with open(g, "w") as f:
                    json.dump(o["inputs"], f)
                add_conc(h.name, "%s@%d" % (h.name, k), max(0.2, 12.0 / h.runs), g, SEED, 60, pool)
                nrep += 1
        if b or h.name in undecided:
            for q in range(3):
                add_conc(h.name, "%s#%d" % (h.name, q), 2 if h.heavy else 6, None, SEED + 1000 + q, 90, pool)
    extra = pool.run() if pool.todo else {}
    deeper, replayed = {}, {}
    for k, r in extra.items():
        for n, x in r.items():
            if not isinstance(x, dict):
                continue
            d = deeper.setdefault(n, 0)
            deeper[n] = d + x.get("evaluations", 0)
            if "@" in k[1]:
                replayed[k[1]] = x.get("evaluations", 0)
            for f in x.get("failures", []):
                failures.append(dict(contract=n, label=f["label"], inputs=f["inputs"], run=f["run"], seed=f["seed"],
                                     error=f["error"], how="counterexample replayed on the real code" if "@" in k[1]
                                     else "deeper search on the real code"))

    # ---- verdict
    findings = known(prop)
    hit, unknown = [], []
    for f in failures:
        m = [q for q in findings if q[1] == f["contract"] and q[2] == f["label"]]
        (hit if m else unknown).append(f)
    fl = {f["contract"] for f in unknown}
    open_obl = []
    for n, r in sres.items():
        for o in bad(r):
            m = [q for q in findings if q[1] == n and q[2] == o["label"]]
            if not m:
                open_obl.append((n, o))
    # a type error that the real code does not raise on the same inputs, nor on any other, is one of the machinery:
    # the contract counts as not decided
    for n, o in list(open_obl):
        k = [q for q, x in enumerate(bad(sres[n])[:6]) if x is o]
        if o["backend"] == "path" and n not in fl and o["label"] in SPURIOUS and k and replayed.get("%s@%d" % (n, k[0])):
            open_obl.remove((n, o))
            undecided.setdefault(n, []).append("an error of the engine, not of the code: " + str(o["detail"])[:200])
    evals = sum(r.get("evaluations", 0) for r in cres.values())
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, "evidence", "replay")):
        if f.startswith(prop + "_"):
            os.unlink(os.path.join(VERIF, "evidence", "replay", f))
    lines = []
    seen = set()
    for f in unknown:
        key = (f["contract"], f["label"])
        if key in seen:
            continue
        seen.add(key)
        p = os.path.join("evidence", "replay", "%s_%s_%d.json" % (prop, f["contract"], len(seen)))
        obl = [o for n, o in open_obl if n == f["contract"]]
        with open(os.path.join(VERIF, p), "w") as fh:
            json.dump(dict(property=prop, contract=f["contract"], obligation=f["label"], found_by=f["how"],
                           inputs=f["inputs"], run=f["run"], seed=f["seed"], error=f["error"],
                           failed_obligations=[dict(label=o["label"], status=o["status"], backend=o["backend"],
                                                    path=o["path"], inputs=o["inputs"], detail=o["detail"])
                                               for o in obl][:10],
                           reproduce="python3 /verif/run.py replay /verif/" + p), fh, indent=1)
        lines.append("VIOLATION property=%s replay=/verif/%s" % (prop, p))
    for n, o in open_obl:
        if n in fl or (n, o["label"]) in seen:
            continue
        seen.add((n, o["label"]))
        p = os.path.join("evidence", "replay", "%s_%s_o%d.json" % (prop, n, len(seen)))
        with open(os.path.join(VERIF, p), "w") as fh:
            json.dump(dict(property=prop, contract=n, obligation=o["label"], status=o["status"], backend=o["backend"],
                           path=o["path"], verifier_output=o["detail"], counterexample=o["inputs"],
                           note="the verifier did not discharge this obligation; no failing input was found by replay "
                                "and search"), fh, indent=1)
        lines.append("VIOLATION property=%s replay=/verif/%s no-failing-input-found" % (prop, p))

    # ---- evidence
    per, obl_n, dis_n, tsolve, backends, cov, assumed, notes, bounded = [], 0, 0, 0.0, {}, set(), set(), [], []
    for h in hs:
        r = sres.get(h.name, {}) if h.sym else {}
        obs = r.get("obligations", [])
        obl_n += len(obs)
        dis_n += len([o for o in obs if o["status"] == "proved"])
        tsolve += r.get("solver_time", 0.0) or 0.0
        for o in obs:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        cov.update(r.get("covered", []))
        assumed.update(r.get("trusted", []))
        c = cres.get(h.name, {})
        st = "proved" if h.sym and h.name not in undecided and not bad(r) and obs else (
            "bounded (evaluated on the real code only)" if h.name not in {n for n, _ in open_obl} and not (bad(r) and
                h.name not in undecided) else "not discharged")
        d = dict(contract=h.name, ensures=h.ensures, status=st, obligations=len(obs), paths=r.get("paths"),
                 labels=sorted({o["label"] for o in obs})[:60], solver_s=round(r.get("solver_time", 0.0) or 0.0, 2),
                 evaluations_on_real_code=c.get("evaluations", 0), extra_evaluations=deeper.get(h.name, 0))
        if h.bounded:
            d["bound"] = h.bounded
            bounded.append("%s: %s" % (h.name, h.bounded))
        if h.name in undecided:
            d["undecided"] = undecided[h.name][:5]
            notes.append("%s was not decided by the verifier (%s); bounded stand-in: %d evaluations"
                         % (h.name, "; ".join(undecided[h.name])[:300],
                            c.get("evaluations", 0) + deeper.get(h.name, 0)))
        if r.get("second_backend"):
            d["cvc5"] = r["second_backend"]
        per.append(d)
    level = level_of(prop)
    cov_d = dict(obligations=obl_n, discharged=dis_n, checker_cmd="python3 /verif/run.py check %s %s" % (prop, tier),
                 trusted_base=TRUSTED + sorted(assumed), functions_under_contract=sorted(cov), backends=backends,
                 solver_time_s=round(tsolve, 2), contracts=per, evaluations=evals + sum(deeper.values()),
                 distinct_nontrivial=sum(r.get("distinct", 0) for r in cres.values()),
                 rule="seeded inputs of every contract (sizes including 0 and 1, bounds, repeated values); non-trivial: "
                      "precondition met and at least one check evaluated on inputs not seen before",
                 samples=[dict(contract=n, inputs=s) for n, r in sorted(cres.items()) for s in r.get("samples", [])[:1]][:8],
                 bounded=bounded + notes, counterexamples_replayed=nrep)
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=cov_d,
              assumptions=ASSUMPTIONS + sorted("assumed: " + a for a in assumed),
              wall_s=round(time.time() - t0, 2), violations=len(lines))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)

    # ---- report
    for d in per:
        print("%-28s %-10s obligations %4d  paths %s  solver %.1fs  evaluations %d" % (
            d["contract"], d["status"], d["obligations"], d["paths"], d["solver_s"],
            d["evaluations_on_real_code"] + d["extra_evaluations"]))
    for n in notes:
        print("NOTE", n)
    for m in cmissing:
        print("NOTE evaluation incomplete:", m)
    for q in findings:
        if any(f["contract"] == q[1] and f["label"] == q[2] for f in hit):
            print("KNOWN-FINDING: property=%s %s" % (prop, q[3]))
    for f in unknown[:6]:
        print("failed: %s / %s  inputs %s" % (f["contract"], f["label"], json.dumps(f["inputs"], default=str)[:400]))
        if f["error"]:
            print("   ", f["error"].strip().splitlines()[-1][:300])
    for n, o in open_obl[:8]:
        print("obligation %s: %s / %s %s" % (o["status"], n, o["label"], o["detail"][:300].replace("\n", " ")))
    for l in lines:
        print(l)
    print("%s %s: %d/%d obligations discharged, %d evaluations, %.1f s" % (prop, tier, dis_n, obl_n, evals, time.time() - t0))
    if lines:
        return 1
    if obl_n == 0 and evals == 0:
        print("nothing could be checked")
        return 3
    return 0


def level_of(prop):
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        for c in json.load(f)["checks"]:
            if c["property"] == prop:
                return c["level"]
    return "proof"


def replay(fn):
    with open(fn) as f:
        d = json.load(f)
    scratch = tempfile.mkdtemp(prefix="popver_replay_")
    try:
        g = os.path.join(scratch, "g")
        with open(g, "w") as f:
            json.dump(d.get("inputs") or d.get("counterexample"), f)
        out = os.path.join(scratch, "o")
        subprocess.run(conc_cmd(d["property"], out, 0.05, d.get("seed", 1), 100, d["contract"], g), env=conc_env(scratch),
                       cwd=VERIF)
        print(open(out).read())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[2], tier))
    elif sys.argv[1] == "list":
        from popver import registry
        for l in open(os.path.join(VERIF, "properties.jsonl")):
            p = json.loads(l)["id"]
            for h in registry.load(p):
                print(p, h.name, "|", h.ensures.splitlines()[0] if h.ensures else "")
    elif sys.argv[1] == "replay":
        replay(sys.argv[2])


if __name__ == "__main__":
    main()
