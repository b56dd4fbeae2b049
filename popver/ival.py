"""Inequalities of real terms over a box, decided by differentiation and interval
arithmetic (outward rounded doubles) with bisection.

The enclosure of a term over a cell is the intersection of its natural interval
extension and its mean value form; a cell is accepted when the enclosure lies inside
the stated bounds, split along the direction that contributes most otherwise.
"""
import math
import time

from fractions import Fraction

import numpy as np
import z3

INF = math.inf


class Give(Exception):
    pass


# Intervals are pairs of arrays, one entry per cell.  Results of + - * / and the square
# root are rounded outwards by one unit in the last place (they are correctly rounded),
# exp and log by four.  Where an operation is not defined the enclosure is the whole line.
def out(lo, hi, k=1):
    for _ in range(k):
        lo, hi = np.nextafter(lo, -INF), np.nextafter(hi, INF)
    return np.where(np.isnan(lo), -INF, lo), np.where(np.isnan(hi), INF, hi)


def add(a, b):
    return out(a[0] + b[0], a[1] + b[1])


def neg(a):
    return -a[1], -a[0]


def sub(a, b):
    return out(a[0] - b[1], a[1] - b[0])


def _four(p):
    lo = np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3]))       # nan stays nan
    hi = np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))
    return out(lo, hi)


def mul(a, b):
    return _four((a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]))


def div(a, b):
    lo, hi = _four((a[0] / b[0], a[0] / b[1], a[1] / b[0], a[1] / b[1]))
    z = (b[0] <= 0) & (b[1] >= 0)
    return np.where(z, -INF, lo), np.where(z, INF, hi)


def sqrt(a):
    lo, hi = out(np.sqrt(a[0]), np.sqrt(a[1]))
    bad = ~(a[0] >= 0)
    return np.where(bad, -INF, np.maximum(lo, 0.0)), np.where(bad, INF, hi)


def exp(a):
    lo, hi = out(np.exp(a[0]), np.exp(a[1]), 4)
    return np.maximum(lo, 0.0), hi


def log(a):
    lo, hi = out(np.log(a[0]), np.log(a[1]), 4)
    bad = ~(a[0] > 0)
    return np.where(bad, -INF, lo), np.where(bad, INF, hi)


def ipow(a, k):
    if k % 2 == 0 and k:
        m = np.maximum(np.abs(a[0]), np.abs(a[1]))
        l = np.where((a[0] <= 0) & (a[1] >= 0), 0.0, np.minimum(np.abs(a[0]), np.abs(a[1])))
        a = (l, m)
    r = a
    for _ in range(k - 1):
        r = mul(r, a)
    if k == 0:
        return np.ones_like(a[0]), np.ones_like(a[1])
    if k % 2 == 0:
        r = np.maximum(r[0], 0.0), r[1]
    return r


def const(q):
    f = q.numerator / q.denominator
    if Fraction(f) == q:
        return f, f
    return math.nextafter(f, -INF), math.nextafter(f, INF)


class Terms:
    """evaluation and differentiation of terms as directed acyclic graphs"""

    def __init__(self, box, resolve=None):
        self.box = box                          # var id -> name
        self.dmemo, self.cmemo = {}, {}
        self.slot, self.cse, self.prog = {}, {}, []
        self.keep = []
        self.resolve = resolve

    def cancel(self, t):
        """the same term with equal factors of products and quotients cancelled"""
        r = self.cmemo.get(t.get_id())
        if r is None:
            r = self._cancel(t)
            self.cmemo[t.get_id()] = r
            self.cmemo.setdefault(r.get_id(), r)
            self.keep += [t, r]
        return r

    def _factors(self, t, e, out):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL:
            for x in t.children():
                self._factors(x, e, out)
        elif k == z3.Z3_OP_DIV:
            self._factors(t.arg(0), e, out)
            self._factors(t.arg(1), -e, out)
        elif k == z3.Z3_OP_UMINUS:
            self._factors(z3.RealVal(-1), 1, out)
            self._factors(t.arg(0), e, out)
        else:
            c = self.cancel(t)
            if c.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                return self._factors(c, e, out)
            out.setdefault(c.get_id(), [c, 0, set()])[1] += e
            out[c.get_id()][2].add(e > 0)

    def _cancel(self, t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS):
            fs = {}
            self._factors(t, 1, fs)
            if not any(len(sg) == 2 for _, _, sg in fs.values()):
                # nothing cancels: keep the structure, for the sake of shared subterms
                return self._rebuild(t)
            q = Fraction(1)
            num, den = [], []
            for x, e, _ in fs.values():
                if z3.is_rational_value(x):
                    if x.as_fraction() == 0 and e < 0:
                        return t
                    q *= x.as_fraction() ** e
                else:
                    (num if e > 0 else den).extend([x] * abs(e))
            if q != 1 or not num:
                num.insert(0, z3.RealVal(q))
            n = num[0] if len(num) == 1 else z3.Product(num)
            return n if not den else n / (den[0] if len(den) == 1 else z3.Product(den))
        return self._rebuild(t)

    def _rebuild(self, t):
        ch = t.children()
        if not ch or t.decl().kind() == z3.Z3_OP_ITE:
            return t
        new = [self.cancel(x) for x in ch]
        if all(a.get_id() == b.get_id() for a, b in zip(ch, new)):
            return t
        return t.decl()(*new)

    def diff(self, t, v):
        key = (t.get_id(), v.get_id())
        r = self.dmemo.get(key)
        if r is None:
            r = self._diff(t, v)
            self.dmemo[key] = r
            self.keep += [t, v, r]
        return r

    def _diff(self, t, v):
        zero = z3.RealVal(0)
        if t.get_id() == v.get_id():
            return z3.RealVal(1)
        if z3.is_rational_value(t) or z3.is_int_value(t) or not t.num_args():
            return zero
        k, ch = t.decl().kind(), t.children()
        D = [self.diff(x, v) for x in ch] if k != z3.Z3_OP_ITE else None

        def is0(x):
            return z3.is_rational_value(x) and x.as_fraction() == 0

        def m(a, b):
            if is0(a) or is0(b):
                return zero
            return a * b
        if k == z3.Z3_OP_ADD:
            s = [d for d in D if not is0(d)]
            return zero if not s else z3.Sum(s) if len(s) > 1 else s[0]
        if k == z3.Z3_OP_SUB:
            r = D[0]
            for d in D[1:]:
                r = r - d
            return r
        if k == z3.Z3_OP_UMINUS:
            return -D[0]
        if k == z3.Z3_OP_MUL:
            out = []
            for i, d in enumerate(D):
                if is0(d):
                    continue
                r = d
                for j, x in enumerate(ch):
                    if j != i:
                        r = r * x
                out.append(r)
            return zero if not out else z3.Sum(out) if len(out) > 1 else out[0]
        if k == z3.Z3_OP_DIV:
            a, b = ch
            r = zero if is0(D[0]) else D[0] / b
            if not is0(D[1]):
                r = r - a * D[1] / (b * b)
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and is0(D[1]):
            return m(ch[1] * ch[0] ** (ch[1] - 1), D[0])
        if k == z3.Z3_OP_TO_REAL:
            return zero if is0(D[0]) else self.bad(t)
        if k == z3.Z3_OP_UNINTERPRETED:
            if all(is0(d) for d in D):
                return zero
            n = t.decl().name()
            if n == "SQRT":
                return D[0] / (2 * t)
            if n == "EXP":
                return D[0] * t
            if n == "LOG":
                return D[0] / ch[0]
            if n == "POW" and is0(D[1]):
                return ch[1] * t / ch[0] * D[0]
        if k == z3.Z3_OP_ITE and self.resolve:
            w = self.resolve(t.arg(0))
            if w is not None:
                return self.diff(t.arg(1) if w else t.arg(2), v)
        self.bad(t)

    def bad(self, t):
        raise Give("cannot treat %s" % str(t)[:80])

    # ---- straight-line programs: the terms are walked once, not once per cell
    def compile(self, t):
        """index of the term's value in the program"""
        key = t.get_id()
        r = self.slot.get(key)
        if r is None:
            r = self.slot[key] = self._compile(t)
            self.keep.append(t)
        return r

    def emit(self, op, *args):
        key = (op,) + args
        if key in self.cse:
            return self.cse[key]
        self.prog.append(key)
        self.cse[key] = len(self.prog) - 1
        return len(self.prog) - 1

    def _compile(self, t):
        if z3.is_rational_value(t):
            return self.emit("const", *const(t.as_fraction()))
        if z3.is_int_value(t):
            return self.emit("const", *const(Fraction(t.as_long())))
        if t.get_id() in self.box:
            return self.emit("var", self.box[t.get_id()])
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_ITE:
            w = self.resolve(t.arg(0)) if self.resolve else None
            if w is None:
                self.bad(t)
            return self.compile(t.arg(1) if w else t.arg(2))
        if not ch:
            self.bad(t)
        if k == z3.Z3_OP_POWER:
            if not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
                self.bad(t)
            q = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
            if q.denominator != 1:
                self.bad(t)
            p = self.emit("pow", self.compile(ch[0]), abs(q.numerator))
            return p if q >= 0 else self.emit("div", self.emit("const", 1.0, 1.0), p)
        v = [self.compile(x) for x in ch]
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            r = v[0]
            for x in v[1:]:
                r = self.emit("add" if k == z3.Z3_OP_ADD else "sub", r, x)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.emit("neg", v[0])
        if k == z3.Z3_OP_MUL:
            pw = {}
            for x in v:
                pw[x] = pw.get(x, 0) + 1
            r = None
            for x, e in pw.items():
                y = x if e == 1 else self.emit("pow", x, e)
                r = y if r is None else self.emit("mul", r, y)
            return r
        if k == z3.Z3_OP_DIV:
            return self.emit("div", v[0], v[1])
        if k == z3.Z3_OP_TO_REAL:
            return v[0]
        if k == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n in ("SQRT", "EXP", "LOG"):
                return self.emit(n.lower(), v[0])
            if n == "POW":
                return self.emit("exp", self.emit("mul", v[1], self.emit("log", v[0])))
        self.bad(t)

    def run(self, cells):
        """cells: one pair of arrays per variable"""
        vals = []
        n = cells[0][0].shape
        with np.errstate(all="ignore"):
            for op in self.prog:
                k = op[0]
                if k == "const":
                    r = np.full(n, op[1]), np.full(n, op[2])
                elif k == "var":
                    r = cells[op[1]]
                elif k == "pow":
                    r = ipow(vals[op[1]], op[2])
                else:
                    r = FUNS[k](*(vals[i] for i in op[1:]))
                vals.append(r)
        return vals


FUNS = {"add": add, "sub": sub, "mul": mul, "div": div, "neg": neg, "sqrt": sqrt, "exp": exp, "log": log}
CHUNK = 20000


def decide(t, box, lo, hi, resolve=None, seconds=60.0, max_cells=4000000):
    """is lo <= t <= hi for every point of the box {var: (lower, upper)}?

    ("proved", number of cells) / ("refuted", point) / ("unknown", reason)"""
    names = {v.get_id(): i for i, v in enumerate(box)}
    T = Terms(names, resolve)
    vs = list(box)
    d = len(vs)
    try:
        t = T.cancel(t)
        f = T.compile(t)
        grads = [T.compile(T.cancel(T.diff(t, v))) for v in vs]
    except Give as e:
        return "unknown", str(e)
    lo_i = -INF if lo is None else const(Fraction(lo))[1]
    hi_i = INF if hi is None else const(Fraction(hi))[0]
    lo_o = -INF if lo is None else const(Fraction(lo))[0]
    hi_o = INF if hi is None else const(Fraction(hi))[1]
    stop = time.time() + seconds
    span = np.array([float(box[v][1]) - float(box[v][0]) for v in vs])
    ends = {v: (const(Fraction(a))[0], const(Fraction(b))[1]) for v, (a, b) in box.items()}
    todo = [(np.array([[ends[v][0]] for v in vs]), np.array([[ends[v][1]] for v in vs]))]
    count = 0
    while todo:
        L, H = todo.pop()
        if L.shape[1] > CHUNK:
            todo += [(L[:, CHUNK:], H[:, CHUNK:]), (L[:, :CHUNK], H[:, :CHUNK])]
            continue
        if time.time() > stop or count > max_cells:
            return "unknown", "%d cells, not decided" % count
        count += L.shape[1]
        v = T.run([(L[k], H[k]) for k in range(d)])
        M = (L + H) / 2
        e = T.run([(M[k], M[k]) for k in range(d)])[f]
        bad = (e[1] < lo_o) | (e[0] > hi_o)
        if bad.any():
            i = int(np.argmax(bad))
            return "refuted", [float(x) for x in M[:, i]]
        rad = []
        with np.errstate(all="ignore"):
            for k, g in enumerate(grads):
                w = mul(v[g], sub((L[k], H[k]), (M[k], M[k])))
                rad.append(w[1] - w[0])
                e = add(e, w)
        nat = np.maximum(v[f][0], e[0]), np.minimum(v[f][1], e[1])
        left = ~((nat[0] >= lo_i) & (nat[1] <= hi_i))
        if not left.any():
            continue
        L, H, M, rad = L[:, left], H[:, left], M[:, left], np.array(rad)[:, left]
        wid = (H - L) / span[:, None]
        rad = np.where(np.isfinite(rad).all(axis=0), rad, wid)
        k = np.argmax(rad, axis=0)
        j = np.arange(L.shape[1])
        if (wid[k, j] < 1e-9).any():
            i = int(np.argmin(wid[k, j]))
            return "unknown", "cell too small at %s" % (L[:, i].tolist(),)
        H1, L2 = H.copy(), L.copy()
        H1[k, j] = M[k, j]
        L2[k, j] = M[k, j]
        todo.append((np.concatenate([L, L2], axis=1), np.concatenate([H1, H], axis=1)))
    return "proved", count
