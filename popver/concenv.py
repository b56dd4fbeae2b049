"""the contract language, executed on the real code with concrete values"""
import re
import importlib
import math
import os
import sys
import zlib
import tempfile
import shutil

import numpy as np

SIZES = [0, 1, 2, 3, 5, 17, 1, 60]


class Fail(Exception):
    pass


class Skip(Exception):
    pass


class ConcEnv:
    symbolic = False

    def __init__(self, h, run, seed, given=None, big=False):
        self.h, self.run, self.big = h, run, big
        s = zlib.crc32(("%s/%s/%s" % (h.name, run, seed)).encode())
        self.g = np.random.default_rng(s)
        np.random.seed(s % (2 ** 32))
        self.runseed = s % (2 ** 31)
        self.given = given
        self.inputs = {}
        self.pool = [0.0, 1.0]
        self.np = np
        self.nchecks = 0
        self.failures = []
        self.patched = []
        self.undo = []
        self.tmp = None
        self.choices = {}

    def close(self):
        for f in reversed(self.undo):
            f()
        for o, n, v, had in reversed(self.patched):
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def mod(self, name):
        return importlib.import_module(name)

    def cls(self, path):
        m, n = path.rsplit(".", 1)
        return getattr(self.mod(m), n)

    def stub(self, obj, name, fn):
        d = getattr(obj, "__dict__", {})
        self.patched.append((obj, name, d.get(name), name in d))
        setattr(obj, name, fn)

    def new_list(self):
        return []

    def tmpfile(self, name):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="popver_")
        return os.path.join(self.tmp, name)

    # ---- inputs
    def _given(self, name):
        if self.given and name in self.given:
            return True
        return False

    def _note(self, name, v):
        self.inputs[name] = v.tolist() if isinstance(v, np.ndarray) else v
        return v

    def real(self, name, ge=None, gt=None, le=None, lt=None, ne=None, fp=False, lo=None, hi=None, log=False):
        if self._given(name) and self.given[name] is not None:
            v = float(self.given[name])
        else:
            for _ in range(200):
                v = self._real(ge, gt, le, lt, lo, hi, log)
                if (ne is None or v != ne) and (gt is None or v > gt) and (lt is None or v < lt):
                    break
        if v == v and not math.isinf(v):
            self.pool.append(v)
        return self._note(name, v)

    def _real(self, ge, gt, le, lt, lo, hi, log):
        a = ge if ge is not None else gt
        b = le if le is not None else lt
        r = self.g.random()
        if r < 0.08 and ge is not None:
            return float(ge)
        if 0.08 <= r < 0.16 and le is not None:
            return float(le)
        if lo is not None:
            a = lo if a is None else max(a, lo)
        if hi is not None:
            b = hi if b is None else min(b, hi)
        if a is not None and b is not None:
            a, b = float(a), float(b)
            if log and a > 0:
                return float(np.exp(self.g.uniform(np.log(a), np.log(b))))
            return float(self.g.uniform(a, b))
        if a is not None:
            return float(a + self.g.exponential(2.0) + 1e-3)
        if b is not None:
            return float(b - self.g.exponential(2.0) - 1e-3)
        if r < 0.25:
            return float(self.pool[self.g.integers(len(self.pool))])
        return float(np.round(self.g.normal(0, 5), 3))

    def int(self, name, ge=None, le=None, gt=None, lt=None, lo=None, hi=None):
        if self._given(name) and self.given[name] is not None:
            v = int(self.given[name])
        else:
            a = ge if ge is not None else (gt + 1 if gt is not None else -5)
            b = le if le is not None else (lt - 1 if lt is not None else a + 12)
            a = a if lo is None else max(a, lo)
            b = b if hi is None else min(b, hi)
            r = self.g.random()
            v = a if r < 0.16 else b if r < 0.22 else int(self.g.integers(a, b + 1))
        return self._note(name, v)

    def size(self, name="n", ge=0, le=None, conc=None):
        if self._given(name) and self.given[name] is not None:
            v = int(self.given[name])
        else:
            opts = [s for s in (conc or SIZES) if s >= ge and (le is None or s <= le)]
            if self.big and conc is None:
                opts = opts + [300, 1000]
            v = opts[self.run % len(opts)] if name == "n" else opts[int(self.g.integers(len(opts)))]
        return self._note(name, v)

    def bool(self, name):
        v = bool(self.given[name]) if self._given(name) else bool(self.g.random() < 0.5)
        return self._note(name, v)

    def array(self, name, n, ge=None, gt=None, le=None, lt=None, kind="f", lo=None, hi=None, log=False):
        n = int(n)
        if self._given(name):
            v = list(self.given[name])[:n]
            v += [v[-1] if v else 0] * (n - len(v))
            a = np.array(v, dtype={"f": float, "fp": float, "i": int, "b": bool}[kind])
        elif kind == "b":
            p = self.g.choice([0.0, 0.5, 0.5, 0.8, 1.0])
            a = self.g.random(n) < p
        elif kind == "i":
            x, y = (ge if ge is not None else -5), (le if le is not None else 5)
            a = self.g.integers(x, y + 1, n)
        else:
            a = np.array([self._elem(ge, gt, le, lt, lo, hi, log) for _ in range(n)], dtype=float)
        self._note(name, a)
        return a

    def _elem(self, ge, gt, le, lt, lo, hi, log):
        ok = [p for p in self.pool if (ge is None or p >= ge) and (gt is None or p > gt) and (le is None or p <= le)
              and (lt is None or p < lt) and (lo is None or p >= lo) and (hi is None or p <= hi)]
        if ok and self.g.random() < 0.25:
            v = ok[int(self.g.integers(len(ok)))]
            if self.g.random() < 0.3:
                w = float(np.nextafter(v, v + self.g.choice([-1.0, 1.0])))
                if (ge is None or w >= ge) and (gt is None or w > gt) and (le is None or w <= le) and (lt is None or w < lt):
                    v = w
            return v
        return self._real(ge, gt, le, lt, lo, hi, log)

    def mask(self, name, n):
        return self.array(name, n, kind="b")

    def any_ufunc(self, name, nin, nout=1):
        F = {(1, 1): [np.exp, np.sin, np.sqrt, np.square, np.arctan, np.cbrt, np.reciprocal],
             (2, 1): [np.add, np.maximum, np.hypot, np.multiply, np.logaddexp, np.fmin],
             (1, 2): [np.modf, np.frexp], (2, 2): [np.divmod]}[nin, nout]
        u = self.choice("ufunc " + name, F)
        return u, [lambda *a: u(*a)] if nout == 1 else [lambda *a, j=j: u(*a)[j] for j in range(nout)]

    def choice(self, name, options):
        if self._given(name):
            v = self.given[name]
            k = v["choice"] if isinstance(v, dict) else int(v)
        else:
            k = int(self.g.integers(len(options)))
        self.inputs[name] = {"choice": k}
        return options[k]

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    # ---- logic
    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not bool(x)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if bool(c) else b

    def logging(self):
        pass

    def is_scalar(self, a):
        return isinstance(a, (int, float, str, bool))

    def undecided_unless(self, cond, what):
        pass

    def is_int(self, a):
        return type(a) is int

    def numbers(self, text):
        """the numbers in a text"""
        return [float(x) for x in re.findall(r"-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?", text)]

    def exact(self, a, b):
        return self.eq(a, b, 0.0, 0.0)

    def eq(self, a, b, rtol=1e-8, atol=1e-11):
        rtol = 1e-8 if rtol is None else rtol
        atol = 1e-11 if atol is None else atol
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return a is b or (type(a) is type(b) and a == b)
        a, b = np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)
        if a.shape != (1,) or b.shape != (1,):
            return False
        a, b = a[0], b[0]
        if a == b:
            return True
        try:
            if a != a and b != b:
                return True
            if math.isinf(a) or math.isinf(b):
                return False
            return abs(float(a) - float(b)) <= atol + rtol * max(abs(float(a)), abs(float(b)))
        except TypeError:
            return False

    # ---- mathematics
    def exp(self, x): return float(np.exp(x))
    def log(self, x): return float(np.log(x))
    def log10(self, x): return float(np.log10(x))
    def sqrt(self, x): return float(np.sqrt(x))
    def pow(self, x, a): return float(np.power(float(x), a))
    def div(self, a, b):
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))

    def sin(self, x): return float(np.sin(x))
    def cos(self, x): return float(np.cos(x))
    def acos(self, x): return float(np.arccos(x))
    def asin(self, x): return float(np.arcsin(x))
    def abs(self, x): return abs(x)
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def rad(self, x): return float(np.deg2rad(x))
    def deg(self, x): return float(np.rad2deg(x))

    def expit(self, x):
        from scipy.special import expit
        return float(expit(x))

    def gamma(self, x):
        from scipy.special import gamma
        return float(gamma(x))

    def nppf(self, x):
        from scipy.special import ndtri
        return float(ndtri(x))

    def ncdf(self, x):
        from scipy.special import ndtr
        return float(ndtr(x))

    def gammaincinv(self, a, x):
        from scipy.special import gammaincinv
        return float(gammaincinv(a, x))

    def galb(self, ra, dec):
        from astropy.coordinates import SkyCoord
        return float(SkyCoord(ra=ra, dec=dec, unit="deg", frame="icrs").galactic.b.deg)

    def integral(self, f, a, b):
        from scipy.integrate import quad
        return quad(f, a, b, epsabs=0, epsrel=1e-9, limit=200)[0]

    # ---- arrays
    def near(self, a, b, rtol=1e-9):
        return self.eq(a, b, rtol=max(rtol, 1e-9), atol=0.0)

    def integral_within(self, label, F, f, x, box, rel):
        self.check(label + ": zero at zero", abs(F(0)) <= 1e-9 * abs(F(1)))
        if x > 0:
            e = self.integral(f, 0, x)
            if x > 0.01:
                self.check(label + ": growth", abs(F(x) - e) <= float(rel) * e)

    def increasing(self, label, F, x, box):
        a, b = next((a, b) for v, a, b in box if v is x)
        y = float(self.g.uniform(float(a), float(b)))
        lo, hi = min(x, y), max(x, y)
        if hi - lo > 1e-6:
            self.check(label, F(lo) < F(hi))

    def is_array(self, a):
        return isinstance(a, np.ndarray)

    def is_bool_array(self, a):
        return isinstance(a, np.ndarray) and a.dtype == bool

    def len(self, a):
        return len(a)

    def at(self, a, i):
        return np.asarray(a)[int(i)]

    def base(self, a):
        return np.asarray(a)

    def copy(self, a):
        return np.array(a, copy=True)

    def arr(self, n, fn, kind="f"):
        return np.array([fn(i) for i in range(int(n))], dtype={"f": float, "i": int, "b": bool}[kind])

    def where(self, m):
        p = np.flatnonzero(np.asarray(m))
        r = np.concatenate([[0], np.cumsum(np.asarray(m))])
        return (lambda k: int(p[int(k)])), len(p), (lambda i: int(r[int(i)]))

    def hint(self, *t):
        pass

    def raises(self, fn):
        try:
            fn()
        except Exception as e:
            return type(e).__name__
        return None

    # ---- obligations
    def check(self, label, cond):
        self.nchecks += 1
        if isinstance(cond, np.ndarray):
            cond = cond.all() if cond.size else False
        if not bool(cond):
            self.failures.append(label)
            raise Fail(label)

    def lemma(self, label, cond):
        self.check(label, cond)

    def fail(self, label):
        self.check(label, False)

    def forall(self, n, fn, label):
        n = int(n)
        idx = range(n) if n <= 400 else [int(x) for x in self.g.integers(0, n, 400)]
        for i in idx:
            self.check(label, fn(i))
        self.nchecks += 1

    def forall2(self, n, fn, label):
        n = int(n)
        for i in range(min(n, 40)):
            for j in range(min(n, 40)):
                self.check(label, fn(i, j))

    def check_len(self, label, a, n):
        self.check(label, (isinstance(a, (np.ndarray, list))) and len(np.shape(a)) == 1 and len(a) == int(n))

    def check_array(self, label, a, n, fn, rtol=None, atol=None):
        self.check_len(label + ": length", a, n)
        a = np.asarray(a)
        self.forall(n, lambda i: self.eq(a[i], fn(i), rtol, atol), label + ": every entry")

    def check_same(self, label, a, b, exact=True):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if isinstance(a, list):
                a = np.array(a)
            if isinstance(b, list):
                b = np.array(b)
            x, y = np.asarray(a), np.asarray(b)
            if x.shape == () and y.shape == ():
                self.check(label, self.eq(x, y))
                return
            self.check(label, isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and x.shape == y.shape
                       and bool(np.array_equal(x, y) or (x.dtype.kind in "fi" and np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True))))
            return
        if isinstance(a, dict) and isinstance(b, dict):
            self.check(label + ": keys", set(a) == set(b))
            for k in a:
                self.check_same("%s[%s]" % (label, k), a[k], b[k])
            return
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            self.check(label + ": number of items", len(a) == len(b))
            for k, (x, y) in enumerate(zip(a, b)):
                self.check_same("%s[%d]" % (label, k), x, y)
            return
        num = (int, float, np.generic)
        if isinstance(a, num) and isinstance(b, num) and not isinstance(a, (np.bytes_, np.str_)):
            self.check(label, self.eq(a, b, 1e-12, 0.0))
            return
        self.check(label, a is b or (type(a) is type(b) and bool(a == b)))

    # ---- random draws
    def law(self, label, a, n, ppf, ks=None, atol=None):
        """Kolmogorov-Smirnov test against the stated quantile function"""
        a = np.asarray(a, dtype=float)
        self.check_len(label + ": length", a, n)
        if len(a) < 400 or (ks is False):
            return None
        m = 4000
        q = (np.arange(m) + 0.5) / m
        with np.errstate(all="ignore"):
            grid = np.array([float(ppf(float(u), 0)) for u in q])
        from scipy.stats import kstwo
        self.nchecks += 1
        s = np.sort(a)
        grid = np.sort(grid)
        # distance between the empirical distribution and the quantile grid
        allx = np.concatenate([s, grid])
        d = np.max(np.abs(np.searchsorted(s, allx, "right") / len(s) - np.searchsorted(grid, allx, "right") / m)) - 1.0 / m
        d = max(d, 0.0)
        p = kstwo.sf(d, len(s)) if d > 0 else 1.0
        self.check(label + ": distribution", p > 1e-7)
        if len(np.unique(grid)) > 100:
            self.check(label + ": independent values", len(np.unique(s)) > 0.9 * len(s))
            x = np.argsort(np.argsort(a)).astype(float)
            r = np.corrcoef(x[:-1], x[1:])[0, 1]
            self.check(label + ": independent neighbours", abs(r) < 6.0 / np.sqrt(len(a)))
        return None

    def bernoulli(self, label, a, n, p):
        """frequencies, over all objects and over groups of objects of similar probability"""
        from scipy.stats import binom
        self.check_len(label + ": length", a, n)
        a = np.asarray(a)
        if len(a) != n or not n:
            return None
        a = a.astype(bool)
        q = np.array([float(p(i)) for i in range(n)])
        self.check(label + ": never at probability zero", not np.any(a[q <= 0]))
        self.check(label + ": always at probability one", bool(np.all(a[q >= 1])))
        g = np.argsort(q, kind="stable")
        for k in [g] + (list(np.array_split(g, 5)) if n > 1000 else []):
            m = q[k].mean()
            x = a[k].sum()
            # sums of independent trials are no wider than the binomial of the mean probability
            self.check(label + ": frequency", binom.cdf(x, len(k), m) > 1e-9 and binom.sf(x - 1, len(k), m) > 1e-9)
        if n >= 400:
            r = a - q
            z = r / np.sqrt(np.maximum(q * (1 - q), 1e-3))
            mid = (q > 0.1) & (q < 0.9)
            mm = mid[:-1] & mid[1:]
            if mm.sum() > 300:
                w = np.sum((z[:-1] * z[1:])[mm]) / np.sqrt(mm.sum())
                self.check(label + ": independent neighbours", abs(w) < 7)
        return None

    def poisson(self, label, sample, mean, runs=80):
        """sum and dispersion of numbers for different seeds"""
        from scipy.stats import poisson, chi2
        mean = float(mean)
        x = np.array([sample(1 + 7919 * k + self.runseed % 1000) for k in range(runs)])
        t = int(x.sum())
        self.check(label + ": mean", poisson.cdf(t, mean * runs) > 1e-9 and poisson.sf(t - 1, mean * runs) > 1e-9)
        if mean >= 5:
            d = float(((x - mean) ** 2).sum() / mean)
            self.check(label + ": dispersion", chi2.cdf(d, runs) > 1e-9 and chi2.sf(d, runs) > 1e-9)

    def law_mixture(self, label, a, n, w, q1, q2):
        w = float(w)
        return self.law(label, a, n, lambda u, i: q1(u / w) if u < w else q2((u - w) / (1 - w)))

    def independent(self, label, *streams):
        pass

    def stream_of(self, a, i=0):
        return None

    def seed(self, s):
        np.random.seed(int(s) if not isinstance(s, str) else zlib.crc32(s.encode()) % 2 ** 32)

    def stream_mark(self):
        return None

    def only_stream(self, label, mark, seed=None, tag=None):
        """only followed in the symbolic run; contracts compare repeated draws as well"""

    def fresh_stream(self, tag):
        np.random.seed((self.runseed + zlib.crc32(tag.encode())) % 2 ** 32)

    def events(self, kind):
        return []

    def while_hook(self, fn):
        pass

    def fun(self, name, impl, positive=False):
        return impl

    def rejection(self, f, xmax):
        pass

    def accepted(self, label, a, n, f, xmax):
        """Kolmogorov-Smirnov test against the density f on [0, xmax]"""
        x = np.linspace(0, float(xmax), 20001)
        y = np.asarray(f(x), dtype=float) * np.ones_like(x)
        # the height of the box is the largest density at 500 radii
        y = np.minimum(y, np.max(np.asarray(f(np.linspace(0, float(xmax), 500)), dtype=float)))
        cdf = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2)])
        cdf /= cdf[-1]
        self.law(label, a, n, lambda u, i: np.interp(u, cdf, x))

    def open_unit_interval(self):
        pass

    def progress(self, flag):
        c = self.mod("popsynth.utils.configuration").popsynth_config
        self.undo.append(lambda v=c.show_progress: setattr(c, "show_progress", v))
        c.show_progress = flag


def run_concrete(h, runs, seed, given=None, deadline=None, stop=3):
    """returns dict(evaluations, checks, failures[...], skipped)"""
    import time
    import traceback
    import warnings
    warnings.simplefilter("ignore")
    out = dict(evaluations=0, checks=0, failures=[], skipped=0, samples=[])
    r = -1
    seen = set()
    while out["evaluations"] < runs and r < 5 * runs:
        r += 1
        if deadline and time.time() > deadline:
            out["cut"] = True
            break
        env = ConcEnv(h, r, seed, given, big=runs > 60)
        fail = None
        try:
            h.fn(env)
        except Skip:
            out["skipped"] += 1
            env.close()
            continue
        except Fail as e:
            fail = dict(label=str(e), error=None)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            fail = dict(label="no unexpected error (%s)" % type(e).__name__,
                        error="".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
        finally:
            env.close()
        out["evaluations"] += 1
        out["checks"] += env.nchecks
        if env.nchecks:
            seen.add(hash(repr(env.inputs)))
        out["distinct"] = len(seen)
        if len(out["samples"]) < 3:
            out["samples"].append(_brief(env.inputs))
        if fail:
            fail["inputs"] = env.inputs
            fail["run"], fail["seed"] = r, seed
            out["failures"].append(fail)
            if len(out["failures"]) >= stop:
                break
    return out


def _brief(d):
    o = {}
    for k, v in d.items():
        o[k] = (v[:6] + ["... %d" % len(v)]) if isinstance(v, list) and len(v) > 8 else v
    return o
