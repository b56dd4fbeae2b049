"""the contract language, symbolic reading"""
import re
import os
import time
import math
from fractions import Fraction

import z3

from . import core, arr as A, shims, loader, field
from .core import (ctx, Sym, mk, to_term, is_term, num, real, Unsupported, PathAbort, PvControl, Obligation, t_cmp,
                   t_bool, t_ite, t_exp, t_log, t_log10, t_sqrt, t_pow, t_expit, _m1, _m2, I, R, B, FP64, PI)
from .pylist import PVList


class SymEnv:
    symbolic = True

    def __init__(self, c, h):
        self.c, self.h = c, h
        self.world = loader.World(shims.make_shims(), shims.BUILTINS)
        self.np = self.world.shims["numpy"]
        self.nchecks = 0
        self.given = None

    # ---- access to the code
    def mod(self, name):
        return self.world.get(name)

    def cls(self, path):
        m, n = path.rsplit(".", 1)
        return getattr(self.mod(m), n)

    def stub(self, obj, name, fn):
        setattr(obj, name, fn)

    def new_list(self):
        """a list the verified code may append to"""
        from .pylist import PVList
        return PVList()

    # ---- inputs
    def _bounds(self, t, ge, gt, le, lt, ne=None):
        out = []
        for op, v in (("ge", ge), ("gt", gt), ("le", le), ("lt", lt), ("ne", ne)):
            if v is not None:
                out.append(t_cmp(op, t, core._raw(v)))
        return out

    def real(self, name, ge=None, gt=None, le=None, lt=None, ne=None, fp=False, lo=None, hi=None, log=False):
        t = z3.Const(name, FP64 if fp else R)
        self.c.inputs[name] = t
        for b in self._bounds(t, ge, gt, le, lt, ne):
            self.c.assume(b)
        if fp:
            self.c.assume(z3.Not(z3.fpIsNaN(t)))
        return mk(t)

    def int(self, name, ge=None, le=None, gt=None, lt=None, lo=None, hi=None):
        t = z3.Const(name, I)
        self.c.inputs[name] = t
        for b in self._bounds(t, ge, gt, le, lt):
            self.c.assume(b)
        return mk(t)

    def size(self, name="n", ge=0, le=None, conc=None):
        v = self.int(name, ge=ge, le=le)
        return v

    def bool(self, name):
        t = z3.Const(name, B)
        self.c.inputs[name] = t
        return mk(t)

    def array(self, name, n, ge=None, gt=None, le=None, lt=None, kind="f", lo=None, hi=None, log=False):
        sort = {"f": R, "i": I, "b": B, "fp": FP64}[kind]
        f = z3.Function(name, I, sort)
        nn = A.norm_len(n)
        self.c.inputs[name] = (f, A.lt(nn))
        c = self.c

        def el(i):
            t = f(i)
            bs = self._bounds(t, ge, gt, le, lt)
            if kind == "fp":
                bs.append(z3.Not(z3.fpIsNaN(t)))
            if bs:
                c.axiom(z3.Implies(A.in_range(i, nn), z3.And(bs)))
            return t
        return A.from_elem(nn, kind, el)

    def mask(self, name, n):
        return self.array(name, n, kind="b")

    def choice(self, name, options):
        k = self.c.choose(len(options))
        self.c.inputs[name] = ("choice", k)
        return options[k]

    def any_ufunc(self, name, nin, nout=1):
        """(any numpy function with these numbers of arguments and results, its results for numbers)"""
        from . import arr
        return arr.any_ufunc(name, nin, nout)

    def assume(self, cond):
        self.c.assume(t_bool(core._raw(cond)))
        if not self.c.feasible():
            raise PathAbort()

    # ---- logic
    def and_(self, *xs):
        return mk(z3.And([self._b(x) for x in xs]))

    def or_(self, *xs):
        return mk(z3.Or([self._b(x) for x in xs]))

    def not_(self, x):
        return mk(z3.Not(self._b(x)))

    def implies(self, a, b):
        return mk(z3.Implies(self._b(a), self._b(b)))

    def iff(self, a, b):
        return mk(self._b(a) == self._b(b))

    def ite(self, cnd, a, b):
        return mk(t_ite(self._b(cnd), core._raw(a), core._raw(b)))

    def _b(self, x):
        if isinstance(x, A.ndarray):
            if x._zd or (isinstance(x._n, int) and x._n == 1):
                return t_bool(x.el(z3.IntVal(0)))
            raise Unsupported("truth of an array in a contract")
        if isinstance(x, Sym):
            return t_bool(x.t)
        if x is None:
            return z3.BoolVal(False)
        return z3.BoolVal(bool(x))

    def eq(self, a, b, rtol=None, atol=None):
        a, b = self._sc(a), self._sc(b)
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return a is b or (type(a) is type(b) and a == b)
        return mk(t_cmp("eq", core._raw(a), core._raw(b)))

    exact = eq

    def numbers(self, text):
        """the numbers in a text"""
        out = []
        for m in re.finditer(r"<text (\d+)>|<sym [^>]*>|-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?", text):
            if m.group(0).startswith("<sym"):
                raise Unsupported("a number written in a particular format")
            out.append(self.c.texts[int(m.group(1))] if m.group(1) else float(m.group(0)))
        return out

    def _sc(self, x):
        if isinstance(x, A.ndarray) and (x._zd or (isinstance(x._n, int) and x._n == 1)):
            return mk(x.el(z3.IntVal(0)))
        if isinstance(x, A.ndarray):
            raise Unsupported("array compared as a number in a contract")
        return x

    # ---- mathematics
    def exp(self, x): return mk(t_exp(core._raw(x)))
    def log(self, x): return mk(t_log(core._raw(x)))
    def log10(self, x): return mk(t_log10(core._raw(x)))
    def sqrt(self, x): return mk(t_sqrt(core._raw(x)))
    def pow(self, x, a): return mk(t_pow(core._raw(x), core._raw(a)))
    def expit(self, x): return mk(t_expit(core._raw(x)))
    def div(self, a, b): return mk(core.real(to_term(a)) / core.real(to_term(b)))
    def sin(self, x): return mk(_m1("SIN", core._raw(x)))
    def cos(self, x): return mk(_m1("COS", core._raw(x)))
    def acos(self, x): return mk(_m1("ACOS", core._raw(x)))
    def asin(self, x): return mk(_m1("ASIN", core._raw(x)))
    def gamma(self, x): return mk(_m1("GAMMA", core._raw(x)))
    def nppf(self, x): return mk(_m1("NPPF", core._raw(x)))
    def ncdf(self, x): return mk(_m1("NCDF", core._raw(x)))
    def gammaincinv(self, a, x): return mk(_m2("GAMMAINCINV", core._raw(a), core._raw(x)))
    def galb(self, ra, dec): return mk(_m2("GALB", core._raw(ra), core._raw(dec)))
    def abs(self, x): return abs(x)
    def max(self, a, b): return mk(core.t_max(core._raw(a), core._raw(b)))
    def min(self, a, b): return mk(core.t_min(core._raw(a), core._raw(b)))
    def rad(self, x): return mk(A._rad(core._raw(x)))
    def deg(self, x): return mk(A._deg(core._raw(x)))

    def integral(self, f, a, b):
        return mk(shims.integral(lambda x: to_term(f(x)), to_term(a), to_term(b)))

    # ---- arrays
    def near(self, a, b, rtol=1e-9):
        """a = b up to rounded constant factors: the quotient is a constant close to one"""
        from . import ival
        c = self.c
        ta, tb = core.real(to_term(core._raw(a))), core.real(to_term(core._raw(b)))
        if is_term(ta) and is_term(tb):
            try:
                q = ival.Terms({}).cancel(ta / tb)
                n, d = field.Field(c, []).frac(q)
                # the same polynomial above and below, up to a factor
                if n and set(n) == set(d) and all(abs(n[m] / d[m] - 1) <= Fraction(rtol) for m in n) \
                        and len({n[m] / d[m] for m in n}) == 1:
                    self.by_form = True
                    return True
            except (field.Give, ZeroDivisionError, RecursionError):
                pass
        return self.eq(a, b)

    def _box(self, label, goal_of, box, lo, hi):
        """lo <= goal_of() <= hi for all values of the inputs in the box [(input, lower, upper)]"""
        from . import ival
        c = self.c
        sh = c.shared
        if c.chain or label in sh.labels_failed:
            return
        t0 = time.time()
        try:
            T = ival.Terms({})
            t = goal_of(T)
            st, info = ival.decide(t, {to_term(v): (a, b) for v, a, b in box}, lo, hi,
                                   resolve=self._decided, seconds=200.0)
        except ival.Give as e:
            st, info = "unknown", str(e)
        sh.solver_time += time.time() - t0
        sh.solver_calls += 1
        if st == "proved":
            self._record(label, st, "interval arithmetic", time.time() - t0)
            return
        sh.labels_failed.add(label)
        inputs = None
        if st == "refuted":
            inputs = {v.t.decl().name(): x for (v, _, _), x in zip(box, info)}
        self._record(label, st, "interval arithmetic", time.time() - t0, str(info)[:300], inputs)

    def _decided(self, cond):
        c = self.c
        for v, g in ((True, cond), (False, z3.Not(cond))):
            if c.prove(g, 1000)[0] == "proved":
                return v
        return None

    def integral_within(self, label, F, f, x, box, rel):
        """F(x) is the integral of f > 0 from 0 to x up to the fraction rel, for x and the
        other inputs in the box

        proved: F(0) = 0, and the derivative of F lies between (1 - rel) f and (1 + rel) f
        """
        self.check(label + ": zero at zero", self.eq(F(0), 0))
        t, g = core.real(to_term(F(x))), core.real(to_term(f(x)))

        def goal(T):
            return T.diff(T.cancel(t), to_term(x)) / g
        self._box(label + ": growth", goal, box, 1 - Fraction(rel), 1 + Fraction(rel))

    def increasing(self, label, F, x, box):
        """F is strictly increasing in x: its derivative is positive over the box"""
        t = core.real(to_term(F(x)))
        self._box(label, lambda T: T.diff(T.cancel(t), to_term(x)), box, Fraction(1, 10 ** 12), None)

    def is_array(self, a):
        return isinstance(a, A.ndarray)

    def is_bool_array(self, a):
        return isinstance(a, A.ndarray) and a.kind == "b"

    def logging(self):
        """log records are followed (messages are otherwise only formatted)"""
        self.c.logging_on = True

    def is_scalar(self, a):
        return isinstance(a, (int, float, str, bool, Sym))

    def undecided_unless(self, cond, what):
        """an induction step: where it cannot be taken, the contract is left to its bounded stand-in"""
        c = self.c
        b = self._b(cond)
        if c._check(z3.Not(b) if not isinstance(b, bool) else z3.BoolVal(not b)) != z3.unsat:
            raise Unsupported("no induction step: %s" % what)

    def is_int(self, a):
        return type(a) is int or (isinstance(a, Sym) and z3.is_int(to_term(a)))

    def len(self, a):
        return shims.pv_len(a)

    def at(self, a, i):
        if isinstance(a, PVList):
            a = a.to_array()
        if not isinstance(a, A.ndarray):
            raise Unsupported("element of a %s in a contract" % type(a).__name__)
        it = to_term(i)
        return mk(a.el(it))

    def base(self, a):
        return a.view(A.ndarray) if isinstance(a, A.ndarray) else a

    def copy(self, a):
        return A.asarray(a, copy=True)

    def arr(self, n, fn, kind="f"):
        """an array given by its elements"""
        nn = A.norm_len(n)
        return A.from_elem(nn, kind, lambda i: A.cast_term(to_term(fn(mk(i))), kind))

    def where(self, m):
        """positions and number of the true entries: (pos(k), count, rank(i))"""
        mm = A.get_mask(A.asarray(m)._n, A.asarray(m).snap())
        self.c.idx(mm.cnt, 0, A.norm_len(A.asarray(m)._n))
        return (lambda k: self._tr(k, mm.sel, mm.cnt, mm.n)), mk(mm.cnt), (lambda i: self._tr(i, mm.rank, mm.n, mm.cnt))

    def _tr(self, k, f, dom, ran):
        t = to_term(k)
        self.c.idx(t, 0, dom)
        r = f(t)
        self.c.idx(r, 0, ran)
        return mk(r)

    def hint(self, *ts):
        for t in ts:
            self.c.idx(to_term(t))

    # ---- running code
    def raises(self, fn):
        try:
            fn()
        except Exception as e:
            return type(e).__name__
        return None

    # ---- obligations
    def check(self, label, cond):
        c = self.c
        if c.chain:
            return
        self._prove(label, self._b(cond))

    def lemma(self, label, cond):
        """an intermediate obligation, used by the following ones"""
        c = self.c
        if c.chain:
            return
        g = self._b(cond)
        self._prove(label, g)
        if label not in c.shared.labels_failed:
            c.assume(g)

    def fail(self, label):
        self.check(label, False)

    def forall(self, n, fn, label):
        c = self.c
        if c.chain:
            return
        nn = A.norm_len(n)
        i = c.fresh("i", I)
        rng = A.in_range(i, nn)
        mark, axm = len(c.pc), len(c.ax)
        c.solver.push()
        c.pc.append(rng)
        c.solver.add(rng)
        c.idx(i, 0, nn)
        c.no_fork += 1
        try:
            try:
                goal = self._b(fn(mk(i)))
                simple = z3.is_true(z3.simplify(goal))
            except Exception:
                if c.light_unsat() or c.dead():
                    self._record(label, "proved", "empty range", 0.0)
                    return
                raise
            if not simple and (c.light_unsat() or c.dead()):
                self._record(label, "proved", "empty range", 0.0)
                return
            self._prove(label, goal)
        finally:
            c.no_fork -= 1
            del c.pc[mark:]
            c.solver.pop()
            c.forget(i, axm)
            for a in c.ax[axm:]:
                c.solver.add(a)

    def forall2(self, n, fn, label):
        self.forall(n, lambda i: self._with2(n, fn, i), label)

    def _with2(self, n, fn, i):
        c = self.c
        j = c.fresh("j", I)
        c.idx(j, 0, A.norm_len(n))
        rng = A.in_range(j, A.norm_len(n))
        c.pc.append(rng)
        c.solver.add(rng)
        return fn(i, mk(j))

    def _prove(self, label, goal):
        c = self.c
        sh = c.shared
        if label in sh.labels_failed:
            return
        t0 = time.time()
        st, info = c.prove(goal, int(os.environ.get("POPVER_MS", "8000")))
        if st == "proved" and getattr(self, "by_form", False):
            info, self.by_form = "normal form", False
        dt = time.time() - t0
        if st == "proved":
            self._record(label, st, info, dt)
            return
        sh.labels_failed.add(label)
        inputs = None
        if st == "refuted":
            inputs = self._model(goal, info)
        self._record(label, st, "z3" if st == "refuted" else str(info), dt, str(z3.simplify(goal))[:1500], inputs)

    def _record(self, label, st, backend, dt, detail="", inputs=None):
        c = self.c
        c.shared.obligations.append(Obligation(label, st, tuple(str(x) for x in c.trace[: c.pos]), backend, dt,
                                               detail, bool(c.taint), c.bounded, inputs))

    def _model(self, goal, model):
        """input values of a counterexample, with small sizes if there are any"""
        c = self.c
        ints = [t for t in c.inputs.values() if is_term(t) and z3.is_int(t)]
        lens = [t[1] for t in c.inputs.values() if isinstance(t, tuple) and not (isinstance(t[0], str) and t[0] == "choice")]
        base = c.pc + c.ax + (c.pair_axioms() if c.mterms else []) + [z3.Not(goal)]
        for k in (3, 12, 150):
            s = z3.Solver()
            s.set("timeout", 2500)
            s.add(base)
            s.add([l <= k for l in lens])
            if s.check() == z3.sat:
                model = s.model()
                break
        return self._values(model)

    def _values(self, model):
        out = {}
        for name, t in self.c.inputs.items():
            try:
                if isinstance(t, tuple) and t[0] == "choice":
                    out[name] = {"choice": t[1]}
                elif isinstance(t, tuple):
                    f, n = t
                    k = model.eval(n, True).as_long()
                    if k > 200:
                        continue
                    out[name] = [self._val(model.eval(f(z3.IntVal(j)), True)) for j in range(k)]
                else:
                    out[name] = self._val(model.eval(t, True))
            except Exception:
                pass
        return out

    @staticmethod
    def _val(t):
        if z3.is_algebraic_value(t):
            t = t.approx(20)
        v = core._num_of_term(t)
        if v is None and z3.is_rational_value(t):
            v = float(t.as_fraction())
        return v

    def check_len(self, label, a, n):
        ok = self.is_array(a) or isinstance(a, PVList)
        if ok and isinstance(self.len(a), Sym):
            A.witnesses(self.len(a).t)
        self.check(label, self.eq(self.len(a), n) if ok else False)

    def check_array(self, label, a, n, fn, rtol=None, atol=None):
        """a has n entries and entry i is fn(i)"""
        self.check_len(label + ": length", a, n)
        if self.c.chain:
            return
        if not same(self.len(a), n):
            return
        self.forall(n, lambda i: self.eq(self.at(a, i), fn(i), rtol, atol), label + ": every entry")

    def check_same(self, label, a, b, exact=True):
        """equal numbers, strings, arrays or (nested) containers of them"""
        if self.c.chain:
            return
        if isinstance(a, PVList) and a.sym is not None:
            a = a.to_array()
        if isinstance(b, PVList) and b.sym is not None:
            b = b.to_array()
        if isinstance(a, A.ndarray) or isinstance(b, A.ndarray):
            if not (isinstance(a, A.ndarray) and isinstance(b, A.ndarray)):
                if isinstance(a, (Sym, int, float)) or isinstance(b, (Sym, int, float)):
                    z = [x for x in (a, b) if isinstance(x, A.ndarray)][0]
                    if z._zd:
                        self.check(label, self.eq(a, b))
                        return
                self.fail(label)
                return
            if a._buf.objs is not None or b._buf.objs is not None:
                self.check(label, a._buf.objs == b._buf.objs)
                return
            self.check_array(label, a, self.len(b) if not b._zd else 1, lambda i: self.at(b, i))
            return
        if isinstance(a, dict) and isinstance(b, dict):
            self.check(label + ": keys", set(a) == set(b))
            for k in a:
                if k in b:
                    self.check_same("%s[%s]" % (label, k), a[k], b[k])
            return
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                self.fail(label + ": number of items")
                return
            for k, (x, y) in enumerate(zip(a, b)):
                self.check_same("%s[%d]" % (label, k), x, y)
            return
        if isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float)):
            self.check(label, self.eq(a, b))
            return
        self.check(label, a is b or (type(a) is type(b) and bool(a == b)))

    # ---- random draws
    def uniforms(self, t, i=None):
        """names of the canonical uniform draws in a term, with their arguments"""
        out = {}
        st, seen = [to_term(t)], set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                n = e.decl().name()
                if n in self.c.rngf:
                    out.setdefault(n, []).append(e)
                st.extend(e.children())
        return out

    def law(self, label, a, n, ppf, ks=None, atol=None):
        """the n entries of a are independent draws with quantile function ppf(u, i)

        proved: entry i is ppf(u_i, i) or ppf(1 - u_i, i) for one canonical uniform
        stream whose i-th number is used for entry i only
        """
        c = self.c
        if c.chain:
            return
        self.check_len(label + ": length", a, n)
        if not same(self.len(a), n):
            return
        nn = A.norm_len(n)
        i = c.fresh("i", I)
        found = []

        def body(iv):
            t = a.el(iv.t) if isinstance(iv, Sym) else a.el(z3.IntVal(iv))
            us = self.uniforms(z3.simplify(t))
            if len(us) != 1:
                if not us:
                    return False
                raise Unsupported("several random numbers for one value")
            (nm, apps), = us.items()
            if any(e.arg(e.num_args() - 1).get_id() != to_term(iv).get_id() for e in apps):
                return False
            if len(apps) != 1 or c.rngf[nm]["kind"] != "U":
                raise Unsupported("random numbers of another kind")
            u = mk(apps[0])
            found.append(nm)
            c.axiom(z3.And(u.t > 0, u.t < 1)) if c.assume_open_u else None
            x = mk(t)
            d, e = self.eq(x, ppf(u, iv)), self.eq(x, ppf(1 - u, iv))
            if d is True or e is True or field.prove(c, self._b(d)) or field.prove(c, self._b(e)):
                return True
            if d is True or c.prove(self._b(d), 6000)[0] == "proved":
                return True
            if e is True or c.prove(self._b(e), 6000)[0] == "proved":
                return True
            return d
        self.forall(n, body, label + ": quantile form")
        return found[0] if found else None

    def bernoulli(self, label, a, n, p):
        """entry i is true independently with probability p(i)

        proved: entry i is u_i < p(i) (or a condition on u_i of the same probability) for
        one canonical uniform stream whose i-th number is used for entry i only
        """
        c = self.c
        if c.chain:
            return
        self.check_len(label + ": length", a, n)
        if not same(self.len(a), n):
            return
        found = []

        def body(iv):
            t = z3.simplify(core.t_bool(a.el(to_term(iv))))
            i = to_term(iv)
            us = self.uniforms(t)
            q = core.real(to_term(p(iv)))
            if not us:
                return mk(z3.simplify(z3.Or(z3.And(q == 0, z3.Not(t)), z3.And(q == 1, t))))
            if len(us) != 1:
                raise Unsupported("several random numbers for one value")
            (nm, apps), = us.items()
            if len(apps) != 1 or c.rngf[nm]["kind"] != "U":
                raise Unsupported("random numbers of another kind")
            own = [x for x in apps[0].children() if not z3.is_int_value(x)]
            if not own or any(x.get_id() != i.get_id() for x in own):
                return False
            u = apps[0]
            found.append(nm)
            for g in (u < q, u >= 1 - q, u <= q, u > 1 - q):
                g2 = z3.Implies(z3.And(u > 0, u < 1), t == g)
                if c.prove(g2, 4000)[0] == "proved":
                    return True
            return mk(t == (u < q))
        self.forall(n, body, label + ": probability")
        return found[0] if found else None

    def poisson(self, label, sample, mean):
        """the number sample() is a Poisson number with that mean"""
        c = self.c
        v = z3.simplify(to_term(sample(None)))
        if c.chain:
            return
        ev = [e for e in c.events if e[0] == "poisson" and z3.simplify(e[2]).get_id() == v.get_id()]
        self.check(label + ": a single Poisson number", len(ev) == 1)
        if len(ev) == 1:
            self.check(label + ": mean", self.eq(mk(ev[0][1]), mean))

    def law_mixture(self, label, a, n, w, q1, q2):
        """independent draws: with probability w of quantile function q1, else of q2

        proved: either one uniform stream, inverted by the quantile function of the whole
        mixture (q1 below q2), or two streams, one of which chooses and the other is inverted
        """
        c = self.c
        if c.chain:
            return
        self.check_len(label + ": length", a, n)
        if not same(self.len(a), n):
            return
        wt = core.real(to_term(w))

        def body(iv):
            t = z3.simplify(a.el(to_term(iv)))
            us = self.uniforms(t)
            apps = []
            for nm, l in us.items():
                if c.rngf[nm]["kind"] != "U":
                    raise Unsupported("random numbers of another kind")
                for e in l:
                    c.idx(e.arg(e.num_args() - 1))
                    c.saturate()
                    d = e.arg(e.num_args() - 1) == to_term(iv)
                    if c.dead():
                        return True
                    # the number used must be this object's own wherever it matters
                    if c.prove(d, 2000)[0] != "proved":
                        s = z3.substitute(t, (e, z3.Const("#other", e.sort())))
                        if c.prove(z3.Or(d, t == s), 4000)[0] != "proved":
                            return False
                    t2 = e.decl()(*([e.arg(k) for k in range(e.num_args() - 1)] + [to_term(iv)]))
                    t = z3.substitute(t, (e, t2))
                    if not any(x.get_id() == t2.get_id() for x in apps):
                        apps.append(t2)
            for u in apps:
                c.axiom(z3.And(u > 0, u < 1))
            cands = []
            if len(apps) == 1:
                for u in (apps[0], 1 - apps[0]):
                    cands.append(t_ite(u < wt, q1(mk(u / wt)).t, q2(mk((u - wt) / (1 - wt))).t))
            elif len(apps) == 2:
                for v, u in ((apps[0], apps[1]), (apps[1], apps[0])):
                    for g in (v < wt, v >= 1 - wt, v > 1 - wt, v <= wt):
                        for y in (u, 1 - u):
                            cands.append(t_ite(g, to_term(q1(mk(y))), to_term(q2(mk(y)))))
            cands = [z3.simplify(x) for x in cands]
            if any(x.get_id() == z3.simplify(t).get_id() for x in cands):
                return True
            if any(field.prove(c, z3.simplify(t == x)) for x in cands):
                return True
            for x in cands:
                if c.prove(t == x, 5000)[0] == "proved":
                    return True
            return mk(t == cands[0]) if cands else False
        self.forall(n, body, label + ": mixture form")

    def independent(self, label, *streams):
        s = [x for x in streams if x is not None]
        self.check(label, len(s) == len(set(s)))

    def stream_of(self, a, i=0):
        t = a.el(z3.Int("#s")) if isinstance(a, A.ndarray) else to_term(a)
        return sorted(self.uniforms(z3.simplify(t)))

    def seed(self, s):
        self.c.seed(to_term(s) if not isinstance(s, str) else s)

    def stream_mark(self):
        return set(self.c.rngf)

    def only_stream(self, label, mark, seed=None, tag=None):
        """every random number drawn since the mark comes from the generator seeded so"""
        if self.c.chain:
            return
        want = ("tag", tag) if tag is not None else ("seed", str(z3.simplify(to_term(seed))))
        for nm in sorted(set(self.c.rngf) - mark):
            k = self.c.rngf[nm]["stream"]
            while k[0] in ("loop", "while"):
                k = k[1]
            if k[0] == "own":
                k = ("seed", k[1])
            if k != want:
                self._record(label, "refuted", "stream", 0.0, "random numbers of the stream %s" % (k,))
                return
        self.check(label, True)

    def fresh_stream(self, tag):
        self.c.rng = ["tag", ("tag", tag), 0]

    def events(self, kind):
        return [e for e in self.c.events if e[0] == kind]

    def while_hook(self, fn):
        self.c.while_hooks.append(fn)

    def fun(self, name, impl, positive=False):
        """an arbitrary (real) function of one or two numbers, applied element-wise"""
        import inspect
        k = len(inspect.signature(impl).parameters)
        z = z3.Function("ghost." + name, *([R] * (k + 1)))

        def fn(*a):
            t = z(*[core.real(to_term(x)) for x in a])
            if positive:
                ctx().axiom(t > 0)
            return t
        return A.ufunc("ghost." + name, k, fn, A._k_float)

    def rejection(self, f, xmax):
        """watch rejection loops: an iteration is accepted exactly if b Y < f(a xmax) for
        independent uniform numbers a, b of that iteration and a fixed height Y"""
        c = self.c
        sh = c.shared
        if not hasattr(sh, "rejection"):
            sh.rejection = {}
        xm = core.real(to_term(xmax))

        def hook(kind, loop, conds, rng):
            us = self.uniforms(z3.And(list(conds))) if conds else {}
            apps = [e for nm, l in us.items() for e in l if c.rngf[nm]["stream"] == loop.stream]
            key = (loop.kid, loop.prefix)
            tops = [e for e in self._consts(z3.And(list(conds))) if e.decl().name().startswith("maximum")] if conds else []
            found = set()
            t0 = time.time()
            for a in apps:
                for b in apps:
                    if a.get_id() == b.get_id():
                        continue
                    for fa, x in (("u", a), ("1-u", 1 - a)):
                        fx = core.real(to_term(f(mk(x * xm))))
                        for fb, y in (("u", b), ("1-u", 1 - b)):
                            for Y in tops:
                                for op, g in (("<", y * Y < fx), ("<=", y * Y <= fx)):
                                    if c.prove(g if kind == "exit" else z3.Not(g), 2500)[0] == "proved":
                                        found.add((a.decl().name(), fa, b.decl().name(), fb, Y.decl().name(), op))
            if key in sh.rejection:
                found &= sh.rejection[key]
            sh.rejection[key] = found
            self._record("accepted exactly below the density" if kind == "exit" else "repeated exactly above the density",
                         "proved" if found else "unknown", "z3", time.time() - t0,
                         "" if found else str(conds)[:1500])
        c.while_hooks.append(hook)

    def _consts(self, t):
        out, st, seen = [], [t], set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(e)
            st.extend(e.children())
        return out

    def accepted(self, label, a, n, f, xmax):
        """entry i is the accepted number of loop i"""
        c = self.c
        if c.chain:
            return
        self.check_len(label + ": length", a, n)
        if not same(self.len(a), n):
            return
        xm = core.real(to_term(xmax))
        tr = tuple(c.trace[: c.pos])
        groups = [v for k, v in getattr(c.shared, "rejection", {}).items() if tr[: len(k[1])] == k[1]]
        heights = set()

        def body(iv):
            t = z3.simplify(a.el(to_term(iv)))
            us = self.uniforms(t)
            if not groups and us:
                raise Unsupported("no rejection loop")
            if len(us) != 1:
                return False
            (nm, apps), = us.items()
            if len(apps) != 1 or c.rngf[nm]["kind"] != "U":
                return False
            own = [x for x in apps[0].children() if not z3.is_int_value(x)]
            if (not own and not isinstance(n, int)) or any(x.get_id() != to_term(iv).get_id() for x in own):
                return False
            for v in groups:
                for (an, fa, bn, fb, Y, op) in v:
                    if an == nm and c.prove(t == (apps[0] if fa == "u" else 1 - apps[0]) * xm, 3000)[0] == "proved":
                        heights.add(Y)
                        return True
            return False
        self.forall(n, body, label + ": value of the accepted iteration")
        for Y in sorted(heights):
            y = z3.Const(Y, R)
            self.forall(500, lambda j: mk(y) >= f(xmax * j / 499), label + ": height of the box")

    def tmpfile(self, name):
        return "/scratch/" + name

    def open_unit_interval(self):
        """draws of exactly zero have probability zero and are left out"""
        self.c.assume_open_u = True

    def progress(self, flag):
        self.mod("popsynth.utils.configuration").popsynth_config.show_progress = flag


def same(a, b):
    """two lengths are equal on this path"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    c = ctx()
    ta, tb = to_term(a), to_term(b)
    if z3.simplify(ta).get_id() == z3.simplify(tb).get_id():
        return True
    return c._check(ta != tb) == z3.unsat


def run_symbolic(h, seconds):
    from .core import Explorer
    t0 = time.time()

    def run(c):
        env = SymEnv(c, h)
        try:
            h.fn(env)
        except PvControl:
            raise
        except AssertionError as e:
            _exc(env, e)
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:
            _exc(env, e)
    ex = Explorer(run, t0 + seconds)
    ex.explore()
    return ex, time.time() - t0


def _own_function(text):
    """the function named in an error message is one of the repository's"""
    import re
    m = re.match(r"([\w.<>]+)\(\)", text)
    if not m:
        return True
    name = m.group(1).split(".")[-1]
    pat = re.compile(r"def\s+%s\s*\(" % re.escape(name)) if name.isidentifier() else None
    for d, _, fs in os.walk(os.path.join(loader.REPO, "popsynth")):
        for f in fs:
            if f.endswith(".py") and pat and pat.search(open(os.path.join(d, f)).read()):
                return True
    return False


def _exc(env, e):
    import traceback
    c = env.c
    if c.chain:
        raise PathAbort()
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    # an error of the machinery itself, or something numpy has and the shim lacks, says nothing about the code
    here = os.path.dirname(os.path.abspath(__file__))
    last = tb[-1] if tb else None
    if last and last.filename.startswith(here) and not (last.line or "").lstrip().startswith(("raise", "return getattr")) \
            and isinstance(e, (TypeError, AttributeError, IndexError, KeyError, NameError, ValueError)):
        raise Unsupported("error inside the machinery: %s: %s at %s:%d" % (type(e).__name__, str(e)[:200],
                                                                            os.path.basename(last.filename), last.lineno))
    if isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.startswith("popver"):
        raise Unsupported("not modelled: %s" % str(e)[:200])
    if isinstance(e, TypeError) and "unexpected keyword argument" in str(e) and last and \
            last.filename.startswith(loader.REPO) and not _own_function(str(e)):
        raise Unsupported("not modelled: %s" % str(e)[:200])
    for fr in reversed(tb):
        if fr.filename.startswith(loader.REPO):
            where = "%s:%d" % (fr.filename[len(loader.REPO) + 1:], fr.lineno)
            break
    label = "no unexpected error (%s)" % type(e).__name__
    if label in c.shared.labels_failed:
        return
    c.saturate()
    r = c._check()
    if r == z3.unsat:
        return
    c.shared.labels_failed.add(label)
    inputs = env._values(c.solver.model()) if r == z3.sat else None
    env._record(label, "refuted", "path", 0.0, "%s at %s: %s\n%s" % (type(e).__name__, where, str(e)[:300],
                                                                  "".join(traceback.format_list(tb[-6:]))), inputs)
