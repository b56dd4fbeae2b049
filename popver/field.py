"""equalities of real terms by normal form

Terms are brought to quotients of polynomials over atoms; powers, exponentials
and logarithms of positive quantities are rewritten to one form, conditionals
are split into cases.  Every divisor must be shown to be non-zero and every
base to be positive by the solver.  The method only ever answers "proved".
"""
from fractions import Fraction

import z3

from . import core

R = core.R


class Give(Exception):
    pass


def pmul(a, b):
    if len(a) * len(b) > 4000:
        raise Give()
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = out.get(k, 0) + c * d
            if v == 0:
                out.pop(k, None)
            else:
                out[k] = v
    return out


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v == 0:
            d.pop(a, None)
        else:
            d[a] = v
    return tuple(sorted(d.items()))


def padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + s * c
        if v == 0:
            out.pop(m, None)
        else:
            out[m] = v
    return out


ONE = {(): Fraction(1)}


def const(c):
    return ({(): Fraction(c)} if c != 0 else {}), ONE


class Field:
    def __init__(self, c, hyps):
        self.c, self.hyps = c, hyps
        self.atoms = []        # (name, args as fractions)
        self.cache = {}
        self.pos = {}
        self.calls = 0
        self.sq = {}

    # ---- side conditions
    def unsat(self, f):
        self.calls += 1
        if self.calls > 60:
            raise Give()
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(self.c.relevant(f, *self.hyps) + self.hyps)
        s.add(f)
        if s.check() == z3.unsat:
            return True
        if self.c.mterms:
            s.add(self.c.pair_axioms())
            return s.check() == z3.unsat
        return False

    def positive(self, t):
        i = t.get_id()
        if i not in self.pos:
            self.c.keep.append(t)
            self.c.register_math(t)
            self.pos[i] = self.unsat(t <= 0)
        return self.pos[i]

    # ---- fractions
    def same(self, f, g):
        return not padd(pmul(f[0], g[1]), pmul(g[0], f[1]), -1)

    def atom(self, name, args):
        for k, (n, a) in enumerate(self.atoms):
            if n == name and len(a) == len(args) and all(self.same(x, y) for x, y in zip(a, args)):
                return k
        self.atoms.append((name, args))
        if len(self.atoms) > 80:
            raise Give()
        return len(self.atoms) - 1

    def atomf(self, name, args=()):
        return {((self.atom(name, list(args)), 1),): Fraction(1)}, ONE

    def mul(self, f, g):
        return self.norm(pmul(f[0], g[0]), pmul(f[1], g[1]))

    def norm(self, n, d):
        # a one-term denominator goes into the numerator
        if len(d) == 1:
            (m, c), = d.items()
            inv = {tuple((a, -e) for a, e in m): 1 / c}
            n, d = pmul(n, inv), ONE
        if self.sq:
            n, d = self.reduce(n), self.reduce(d)
        return n, d

    def reduce(self, p):
        # square roots: s^2 = x (x a polynomial)
        for a, x in self.sq.items():
            for _ in range(6):
                hit = [m for m in p if dict(m).get(a, 0) >= 2]
                if not hit:
                    break
                for m in hit:
                    c = p.pop(m)
                    d = dict(m)
                    d[a] -= 2
                    if not d[a]:
                        del d[a]
                    p = padd(p, pmul({tuple(sorted(d.items())): c}, x))
        return p

    def add(self, f, g, s=1):
        if f[1] == g[1]:
            return self.norm(padd(f[0], g[0], s), f[1])
        return self.norm(padd(pmul(f[0], g[1]), pmul(g[0], f[1]), s), pmul(f[1], g[1]))

    def frac(self, t):
        i = t.get_id()
        if i not in self.cache:
            self.c.keep.append(t)
            self.cache[i] = self._frac(t)
        return self.cache[i]

    def _frac(self, t):
        if z3.is_rational_value(t):
            return const(t.as_fraction())
        if z3.is_int_value(t):
            return const(t.as_long())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.frac(ch[0])
            for x in ch[1:]:
                r = self.add(r, self.frac(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.frac(ch[0])
            for x in ch[1:]:
                r = self.add(r, self.frac(x), -1)
            return r
        if k == z3.Z3_OP_MUL:
            r = self.frac(ch[0])
            for x in ch[1:]:
                r = self.mul(r, self.frac(x))
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.frac(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_DIV:
            if not z3.is_rational_value(ch[1]) or ch[1].as_fraction() == 0:
                g = self.frac(ch[1])
                if not self.unsat(ch[1] == 0):
                    raise Give()
            else:
                g = const(ch[1].as_fraction())
            f = self.frac(ch[0])
            if not g[0]:
                raise Give()
            return self.norm(pmul(f[0], g[1]), pmul(f[1], g[0]))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 \
                and 0 <= ch[1].as_fraction() <= 6:
            r = const(1)
            for _ in range(int(ch[1].as_fraction())):
                r = self.mul(r, self.frac(ch[0]))
            return r
        if k == z3.Z3_OP_UNINTERPRETED and len(ch):
            n = t.decl().name()
            if n == "POW" and self.positive(ch[0]):
                return self.exp(self.mul(self.frac(ch[1]), self.log(ch[0])))
            if n == "EXP":
                return self.exp(self.frac(ch[0]))
            if n == "LOG" and self.positive(ch[0]):
                return self.log(ch[0])
            if n == "SQRT" and self.positive(ch[0]):
                x = self.frac(ch[0])
                if x[1] == ONE and len(x[0]) == 1:
                    (m, cf), = x[0].items()
                    a = self.atom("SQRT", [x])
                    self.sq[a] = x[0]
                    return {((a, 1),): Fraction(1)}, ONE
            if n == "COS" or n == "SIN":
                return self.atomf(n, [self.frac(ch[0])])
            if all(z3.is_real(x) or z3.is_rational_value(x) for x in ch):
                return self.atomf(n, [self.frac(x) for x in ch])
            return self.atomf("#%d" % t.get_id())
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            return self.atomf("$" + t.decl().name())
        if k == z3.Z3_OP_ITE:
            raise Give()
        self.c.keep.append(t)
        return self.atomf("#%d" % t.get_id())

    # ---- logarithms of positive terms
    def log(self, t):
        """normal form of LOG(t), t > 0"""
        if z3.is_rational_value(t):
            return self.logq(t.as_fraction())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_MUL and all(self.positive(x) for x in ch):
            r = self.log(ch[0])
            for x in ch[1:]:
                r = self.add(r, self.log(x))
            return r
        if k == z3.Z3_OP_DIV and self.positive(ch[0]) and self.positive(ch[1]):
            return self.add(self.log(ch[0]), self.log(ch[1]), -1)
        if k == z3.Z3_OP_UNINTERPRETED and len(ch):
            n = t.decl().name()
            if n == "EXP":
                return self.frac(ch[0])
            if n == "POW" and self.positive(ch[0]):
                return self.mul(self.frac(ch[1]), self.log(ch[0]))
            if n == "SQRT" and self.positive(ch[0]):
                return self.mul(const(Fraction(1, 2)), self.log(ch[0]))
        return self.atomf("LOG", [self.frac(t)])

    def logq(self, q):
        out = const(0)
        for v, s in ((q.numerator, 1), (q.denominator, -1)):
            if v > 10 ** 6:
                return self.atomf("LOG", [const(q)])
            p = 2
            while v > 1:
                while v % p == 0:
                    out = self.add(out, self.atomf("LOG", [const(p)]), s)
                    v //= p
                p += 1
        return out

    def exp(self, f):
        """normal form of EXP(f): a product over the terms of f"""
        n, d = f
        if d != ONE:
            # one factor with the whole quotient, or term by term over the denominator
            r = const(1)
            for m, c in n.items():
                r = self.mul(r, self.atom_exp({m: Fraction(1)}, d, c))
            return r
        r = const(1)
        for m, c in n.items():
            logs = [(a, e) for a, e in m if self.atoms[a][0] == "LOG"]
            if c.denominator == 1 and abs(c) <= 6 and len(m) == 1 and m[0][1] == 1 and logs:
                # EXP(k LOG x) = x^k
                x = self.atoms[m[0][0]][1][0]
                for _ in range(abs(int(c))):
                    r = self.mul(r, x if c > 0 else self.norm(x[1], x[0]))
            else:
                r = self.mul(r, self.atom_exp({m: Fraction(1)}, ONE, c))
        return r

    def atom_exp(self, m, d, c):
        # EXP(p/q m) = EXP(m/q)^p
        c = Fraction(c)
        q = c.denominator
        a = self.atom("EXP", [({k: v / q for k, v in m.items()}, d)])
        return {((a, c.numerator),): Fraction(1)}, ONE


def find_ite(t):
    st, seen = [t], set()
    best = None
    while st:
        e = st.pop(0)
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE:
                # the innermost condition without a conditional in it
                b = find_ite(e.arg(0))
                return b if b is not None else e.arg(0)
            st.extend(e.children())
    return best


def prove_eq(c, a, b, hyps, depth=0):
    cond = find_ite(a)
    if cond is None:
        cond = find_ite(b)
    if cond is not None:
        if depth > 7:
            return False
        for v in (True, False):
            h = cond if v else z3.Not(cond)
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(c.relevant(h, *hyps) + hyps + [h])
            if s.check() == z3.unsat:
                continue
            w = z3.BoolVal(v)
            a2 = z3.simplify(z3.substitute(a, (cond, w)))
            b2 = z3.simplify(z3.substitute(b, (cond, w)))
            # simplify may have rewritten the condition's negation
            if not prove_eq(c, a2, b2, hyps + [h], depth + 1):
                return False
        return True
    if a.get_id() == b.get_id():
        return True
    f = Field(c, hyps)
    try:
        return f.same(f.frac(a), f.frac(b))
    except (Give, ZeroDivisionError, RecursionError):
        return False


def prove(c, goal):
    """True if the goal (an equality, or a disjunction with one) follows"""
    alts = goal.children() if z3.is_or(goal) else [goal]
    for g in alts:
        if z3.is_eq(g) and z3.is_real(g.arg(0)):
            hyps = [z3.Not(x) for x in alts if x.get_id() != g.get_id()]
            try:
                if prove_eq(c, g.arg(0), g.arg(1), hyps):
                    return True
            except z3.Z3Exception:
                pass
    return False
