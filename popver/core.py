"""popver core: path exploration, symbolic scalars, ghost random streams, solver.

The real code of /repo is executed by CPython.  Values it has not been told are
`Sym` objects that wrap z3 terms.  Converting a symbolic boolean to a python
bool forks the path (by re-execution along a recorded trace of decisions).
"""
import os
import time
import hashlib
import math
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 0)


# ----------------------------------------------------------------- control flow
class PvControl(BaseException):
    pass


class PathAbort(PvControl):
    """this path is infeasible or fully accounted for elsewhere"""


class Unsupported(PvControl):
    """the code uses something the verifier has no semantics for"""


class NeedSummary(PvControl):
    def __init__(self, key, prefix, chain):
        self.key, self.prefix, self.chain = key, prefix, chain


class NestedDone(PvControl):
    pass


class Restart(PvControl):
    pass


class Deadline(PvControl):
    pass


_CUR = [None]


def ctx():
    c = _CUR[0]
    if c is None:
        raise Unsupported("symbolic value used outside of a verification run")
    return c


# ------------------------------------------------------------------ term helpers
FP64 = z3.Float64()
RNE = z3.RNE()


def is_term(x):
    return isinstance(x, z3.ExprRef)


def to_term(x):
    """python / Sym scalar -> z3 term (reals for floats)"""
    if isinstance(x, Sym):
        return x.t
    if is_term(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("infinite or undefined constant in real arithmetic")
        return z3.RealVal(Fraction(x))
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise Unsupported("no scalar term for %s" % type(x).__name__)


def is_special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def num(t):
    """bool terms become 0/1"""
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def real(t):
    t = num(t)
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def fp_of(x):
    """a double for a python number or a term"""
    if isinstance(x, bool):
        x = float(x)
    if isinstance(x, (int, float)):
        return z3.FPVal(float(x), FP64)
    if isinstance(x, Sym):
        x = x.t
    if z3.is_fp(x):
        return x
    if z3.is_int_value(x):
        return z3.FPVal(float(x.as_long()), FP64)
    if z3.is_rational_value(x):
        f = Fraction(x.numerator_as_long(), x.denominator_as_long())
        if Fraction(float(f)) == f:
            return z3.FPVal(float(f), FP64)
    raise Unsupported("mixing doubles and mathematical reals")


def anyfp(*xs):
    for x in xs:
        if isinstance(x, Sym):
            x = x.t
        if is_term(x) and z3.is_fp(x):
            return True
    return False


def pair(a, b):
    a, b = num(to_term(a)), num(to_term(b))
    if z3.is_real(a) or z3.is_real(b):
        return real(a), real(b)
    return a, b


def t_add(a, b):
    if anyfp(a, b):
        return z3.fpAdd(RNE, fp_of(a), fp_of(b))
    a, b = pair(a, b)
    return a + b


def t_sub(a, b):
    if anyfp(a, b):
        return z3.fpSub(RNE, fp_of(a), fp_of(b))
    a, b = pair(a, b)
    return a - b


def t_mul(a, b):
    if anyfp(a, b):
        return z3.fpMul(RNE, fp_of(a), fp_of(b))
    if is_term(a) and z3.is_bool(a) and is_term(b) and z3.is_bool(b):
        return z3.And(a, b)
    a, b = pair(a, b)
    return a * b


def t_div(a, b):
    if anyfp(a, b):
        return z3.fpDiv(RNE, fp_of(a), fp_of(b))
    return real(to_term(a)) / real(to_term(b))


def t_neg(a):
    if anyfp(a):
        return z3.fpNeg(fp_of(a))
    return -num(to_term(a))


def t_floordiv(a, b):
    a, b = pair(a, b)
    if z3.is_int(b) and z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    if z3.is_real(a) and z3.is_real(b):
        return z3.ToReal(z3.ToInt(t_div(a, b)))
    raise Unsupported("floor division")


def t_mod(a, b):
    a, b = pair(a, b)
    if z3.is_int(b) and z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    if z3.is_real(a) and z3.is_real(b):
        return t_sub(a, t_mul(b, t_floordiv(a, b)))
    raise Unsupported("modulo")


def _special_cmp(op, a, b):
    """comparison with an infinite / undefined python constant"""
    sa, sb = is_special(a), is_special(b)
    fa = a if sa else 0.0
    fb = b if sb else 0.0
    r = {"lt": fa < fb, "le": fa <= fb, "gt": fa > fb, "ge": fa >= fb, "eq": fa == fb, "ne": fa != fb}[op]
    return z3.BoolVal(r)


def t_cmp(op, a, b):
    if anyfp(a, b):
        a, b = fp_of(a), fp_of(b)
        return {"lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ,
                "eq": z3.fpEQ, "ne": lambda x, y: z3.Not(z3.fpEQ(x, y))}[op](a, b)
    if is_special(a) or is_special(b):
        return _special_cmp(op, a, b)
    ta, tb = to_term(a), to_term(b)
    if z3.is_bool(ta) and z3.is_bool(tb) and op in ("eq", "ne"):
        return ta == tb if op == "eq" else ta != tb
    a, b = pair(ta, tb)
    if op == "lt":
        return a < b
    if op == "le":
        return a <= b
    if op == "gt":
        return a > b
    if op == "ge":
        return a >= b
    if op == "eq":
        return a == b
    return a != b


def t_bool(a):
    a = to_term(a)
    if z3.is_bool(a):
        return a
    if z3.is_fp(a):
        return z3.Not(z3.fpIsZero(a))
    return a != 0


def t_ite(c, a, b):
    if anyfp(a, b):
        return z3.If(c, fp_of(a), fp_of(b))
    ta, tb = to_term(a), to_term(b)
    if z3.is_bool(ta) and z3.is_bool(tb):
        return z3.If(c, ta, tb)
    ta, tb = pair(ta, tb)
    return z3.If(c, ta, tb)


def t_abs(a):
    if anyfp(a):
        return z3.fpAbs(fp_of(a))
    a = num(to_term(a))
    return z3.If(a >= 0, a, -a)


def t_int(a):
    """truncation towards zero"""
    a = num(to_term(a))
    if z3.is_int(a):
        return a
    if z3.is_fp(a):
        raise Unsupported("int of a double")
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def t_min(a, b):
    return t_ite(t_cmp("le", a, b), a, b)


def t_max(a, b):
    return t_ite(t_cmp("ge", a, b), a, b)


# ---- transcendental functions: uninterpreted, with ground axioms (see math_axioms)
R = z3.RealSort()
I = z3.IntSort()
B = z3.BoolSort()
_F = {n: z3.Function(n, R, R) for n in
      ("EXP", "LOG", "SQRT", "SIN", "COS", "TAN", "ACOS", "ASIN", "ATAN", "GAMMA", "NPPF", "NCDF", "LGAMMA", "ERF")}
_F2 = {n: z3.Function(n, R, R, R) for n in ("POW", "GAMMAINCINV", "GAMMAINC", "GALB", "ATAN2")}
PI = math.pi


def _m1(name, x):
    if anyfp(x):
        raise Unsupported("%s of a double" % name)
    x = z3.simplify(real(to_term(x)))
    if z3.is_rational_value(x):
        v = x.as_fraction()
        if name == "EXP" and v == 0:
            return z3.RealVal(1)
        if name == "LOG" and v == 1:
            return z3.RealVal(0)
        if name == "SQRT" and v >= 0:
            r = Fraction(math.isqrt(v.numerator), math.isqrt(v.denominator))
            if r * r == v:
                return z3.RealVal(r)
        if name == "SIN" and v == 0:
            return z3.RealVal(0)
        if name == "COS" and v == 0:
            return z3.RealVal(1)
    t = _F[name](x)
    ctx().math_term(name, (x,), t)
    return t


def t_exp(x):
    return _m1("EXP", x)


def t_log(x):
    return _m1("LOG", x)


def t_log10(x):
    return t_log(x) / t_log(10)


def t_sqrt(x):
    return _m1("SQRT", x)


def t_pow(x, a):
    if anyfp(x, a):
        raise Unsupported("power of doubles")
    ta = z3.simplify(num(to_term(a)))
    tx = num(to_term(x))
    if z3.is_rational_value(ta) or z3.is_int_value(ta):
        v = Fraction(ta.as_long()) if z3.is_int_value(ta) else ta.as_fraction()
        if v.denominator == 1 and abs(v.numerator) <= 6:
            k = v.numerator
            if k == 0:
                return z3.RealVal(1) if z3.is_real(tx) or z3.is_real(ta) else z3.IntVal(1)
            r = tx
            for _ in range(abs(k) - 1):
                r = r * tx
            if z3.is_real(ta) or k < 0:
                r = real(r)
            return r if k > 0 else z3.RealVal(1) / r
        if v == Fraction(1, 2):
            return t_sqrt(tx)
    tx, ta = z3.simplify(real(tx)), z3.simplify(real(ta))
    if z3.is_rational_value(tx) and tx.as_fraction() == 1:
        return z3.RealVal(1)
    t = _F2["POW"](tx, ta)
    ctx().math_term("POW", (tx, ta), t)
    return t


def _m2(name, x, y):
    if anyfp(x, y):
        raise Unsupported("%s of doubles" % name)
    x, y = z3.simplify(real(to_term(x))), z3.simplify(real(to_term(y)))
    t = _F2[name](x, y)
    ctx().math_term(name, (x, y), t)
    return t


def t_expit(x):
    return z3.RealVal(1) / (z3.RealVal(1) + t_exp(t_neg(x)))


# --------------------------------------------------------------------- Sym scalars
def _num_of_term(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        f = t.as_fraction()
        try:
            if Fraction(float(f)) == f:
                return float(f)
        except OverflowError:
            pass
    if z3.is_fp_value(t):
        if t.isNaN():
            return math.nan
        if t.isInf():
            return -math.inf if t.isNegative() else math.inf
        r = z3.simplify(z3.fpToReal(t))
        if t.isZero() and t.isNegative():
            return -0.0
        return float(r.as_fraction())
    return None


def mk(t, np=False):
    """wrap a z3 term as python scalar (constants become python numbers)"""
    if not is_term(t):
        return t
    t = z3.simplify(t)
    if not np or z3.is_bool(t):
        v = _num_of_term(t)
        if v is not None:
            return v
    if z3.is_bool(t):
        return SBool(t, np)
    if z3.is_int(t):
        return SInt(t, np)
    return SReal(t, np)


def _other(o):
    return isinstance(o, (Sym, int, float, Fraction))


class Sym:
    __slots__ = ("t", "np", "__dict__")
    __array_priority__ = -1

    def __init__(self, t, np=False):
        self.t = t
        self.np = np

    def _bin(self, o, f, rev=False):
        if not _other(o):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if is_special(a) or is_special(b):
            if not anyfp(a, b):
                raise Unsupported("arithmetic with an infinite constant")
        npf = self.np or (isinstance(o, Sym) and o.np)
        return mk(f(_raw(a), _raw(b)), npf)

    def __add__(self, o): return self._bin(o, t_add)
    def __radd__(self, o): return self._bin(o, t_add, True)
    def __sub__(self, o): return self._bin(o, t_sub)
    def __rsub__(self, o): return self._bin(o, t_sub, True)
    def __mul__(self, o): return self._bin(o, t_mul)
    def __rmul__(self, o): return self._bin(o, t_mul, True)

    def _div(self, a, b):
        if not anyfp(a, b):
            npf = isinstance(a, Sym) and a.np or isinstance(b, Sym) and b.np
            if not npf:
                if isinstance(b, Sym):
                    if ctx().branch(t_cmp("eq", b, 0)):
                        raise ZeroDivisionError("division by zero")
                elif b == 0:
                    raise ZeroDivisionError("division by zero")
        return None

    def __truediv__(self, o):
        if not _other(o):
            return NotImplemented
        self._div(self, o)
        return self._bin(o, t_div)

    def __rtruediv__(self, o):
        if not _other(o):
            return NotImplemented
        self._div(o, self)
        return self._bin(o, t_div, True)

    def __floordiv__(self, o): return self._bin(o, t_floordiv)
    def __mod__(self, o): return self._bin(o, t_mod)
    def __neg__(self): return mk(t_neg(self.t), self.np)
    def __pos__(self): return self
    def __abs__(self): return mk(t_abs(self.t), self.np)

    def __pow__(self, o, mod=None):
        if not _other(o):
            return NotImplemented
        return mk(t_pow(_raw(self), _raw(o)), self.np)

    def __rpow__(self, o):
        if not _other(o):
            return NotImplemented
        return mk(t_pow(_raw(o), _raw(self)), self.np)

    def _cmp(self, o, op):
        if not _other(o):
            return NotImplemented
        return mk(t_cmp(op, _raw(self), _raw(o)), self.np or (isinstance(o, Sym) and o.np))

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __hash__(self):
        v = _num_of_term(z3.simplify(self.t))
        if v is not None:
            return hash(v)
        raise Unsupported("hash of a symbolic value")

    def __bool__(self):
        return ctx().branch(t_bool(self.t))

    def __and__(self, o): return self._logic(o, z3.And)
    def __rand__(self, o): return self._logic(o, z3.And)
    def __or__(self, o): return self._logic(o, z3.Or)
    def __ror__(self, o): return self._logic(o, z3.Or)
    def __xor__(self, o): return self._logic(o, z3.Xor)
    def __rxor__(self, o): return self._logic(o, z3.Xor)

    def _logic(self, o, f):
        if not _other(o):
            return NotImplemented
        a, b = to_term(self), to_term(o)
        if z3.is_bool(a) and z3.is_bool(b):
            return mk(f(a, b), self.np)
        raise Unsupported("bitwise operation on integers")

    def __invert__(self):
        if z3.is_bool(self.t) and self.np:
            return mk(z3.Not(self.t), True)
        if z3.is_bool(self.t) or z3.is_int(self.t):
            return mk(-num(self.t) - 1, self.np)
        raise TypeError("bad operand type for unary ~: 'float'")

    def __float__(self):
        v = _num_of_term(z3.simplify(self.t))
        if v is not None:
            return float(v)
        raise Unsupported("float() of a symbolic value by foreign code")

    def __int__(self):
        v = _num_of_term(z3.simplify(self.t))
        if v is not None:
            return int(v)
        raise Unsupported("int() of a symbolic value by foreign code")

    def __index__(self):
        v = _num_of_term(z3.simplify(self.t))
        if v is not None and not isinstance(v, float):
            return int(v)
        if isinstance(self, SReal):
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise Unsupported("symbolic value used as an index by foreign code")

    def __format__(self, spec):
        return "<sym %s>" % spec if spec else str(self)

    def __repr__(self):
        return "<sym %s>" % str(self.t)[:80]

    def __str__(self):
        """the text of a value: the same for the same term"""
        ctx().texts[self.t.get_id()] = self
        return "<text %d>" % self.t.get_id()

    # numpy scalar interface
    @property
    def dtype(self):
        from . import arr
        return arr.dtype_of_term(self.t)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return mk(self.t, False)

    def astype(self, d):
        from . import arr
        return mk(arr.cast_term(self.t, arr.as_dtype(d).kind), True)

    def all(self):
        return self

    def any(self):
        return self

    def copy(self):
        return self

    def is_integer(self):
        return mk(z3.IsInt(self.t)) if z3.is_real(self.t) else True

    def decode(self):
        raise AttributeError("decode")


def _raw(x):
    """keep python specials, otherwise the z3 term or python number"""
    return x.t if isinstance(x, Sym) else x


class SReal(Sym):
    __slots__ = ()


class SInt(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()


# ------------------------------------------------------------------------- context
class Obligation:
    __slots__ = ("label", "status", "path", "backend", "time", "detail", "tainted", "bounded", "inputs")

    def __init__(self, label, status, path, backend, t, detail="", tainted=False, bounded=None, inputs=None):
        self.label, self.status, self.path = label, status, path
        self.backend, self.time, self.detail = backend, t, detail
        self.tainted, self.bounded, self.inputs = tainted, bounded, inputs


class Shared:
    """what survives from one path to the next within one exploration"""

    def __init__(self, deadline):
        self.deadline = deadline
        self.summaries = {}
        self.while_state = {}       # loop id -> set of havoced names / 'sym' flag
        self.obligations = []
        self.paths = 0
        self.solver_time = 0.0
        self.solver_calls = 0
        self.covered = set()
        self.trusted = set()
        self.notes = set()
        self.queries = []
        self.labels_failed = set()
        self.quick_fail = True
        self.claims = {}
        self.rejection = {}


_NOSYM = frozenset()


class Ctx:
    BRANCH_MS = 1500

    def __init__(self, shared, trace, chain=()):
        self.shared = shared
        self.trace = list(trace)
        self.pos = 0
        self.alts = []
        self.chain = chain              # loop keys to run generically
        self._lightc = {}
        self.pc = []                    # path condition
        self.ax = []                    # unconditional facts about the terms in use
        self._ax_ids = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.BRANCH_MS)
        self.counts = {}
        self.scope = ""
        self.loop_idx = []              # generic loop indices (z3 Int terms)
        self.loop_occ = {}
        self.no_fork = 0
        self.mterms = {}
        self._reg = {}
        self._symc = {}
        self.idx_terms = []
        self._idx_ids = {}
        self.mask_by_name = {}
        self.quants = []
        self.masks = []
        self.guard_masks = []
        self.rng = ["init", ("init",), 0]
        self.rng_streams = {}
        self.numba_stream = None
        self.rngf = {}
        self.inputs = {}                # name -> list of terms (for counterexamples)
        self.in_nested = None           # active nested loop object
        self.taint = []
        self.bounded = None
        self.events = []
        self.keep = []
        self.texts = {}                 # what stands for the text of a value
        self.mutlog = None
        self.fs = {}
        self.proved_cache = {}
        self.memo = {}
        self.depth = 0
        self.nbuf = 0
        self.buffers = {}
        self.mask_by = {}
        self.guards = []
        self._noidx = 0
        self.doms = set()
        self.untyped = False
        self.streams_default = 0
        self.nlist = 0
        self.lists = {}
        self.while_hooks = []
        self.assume_open_u = False
        self.logging_on = False
        self.integrals = {}
        self.integral_list = []
        self.while_depth = 0
        self.gen_stack = []
        self.cond_mark = 0
        self.claiming = 0
        self.nclaims = 0

    # -- names
    def fresh_name(self, base):
        k = (self.scope, base)
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        return "%s%s!%d" % (self.scope, base, n)

    def fresh(self, base, sort):
        name = self.fresh_name(base)
        if self.loop_idx:
            f = z3.Function(name, *([I] * len(self.loop_idx)), sort)
            return f(*self.loop_idx)
        return z3.Const(name, sort)

    # -- facts
    def axiom(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        i = f.get_id()
        if i in self._ax_ids:
            return
        self._ax_ids.add(i)
        self.ax.append(f)
        self.solver.add(f)

    def assume(self, c):
        c = to_term(c) if not is_term(c) else c
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(c):
            raise PathAbort()

    def check_deadline(self):
        if time.time() > self.shared.deadline:
            raise Deadline()

    def _check(self, *extra):
        self.check_deadline()
        self.saturate()
        t0 = time.time()
        r = self.solver.check(*extra)
        self.shared.solver_time += time.time() - t0
        self.shared.solver_calls += 1
        return r

    def feasible(self):
        return self._check() != z3.unsat

    def dead(self, ms=120):
        """contradictory facts? (no answer in time: assume not)"""
        self.solver.set("timeout", ms)
        try:
            return self._check() == z3.unsat
        finally:
            self.solver.set("timeout", self.BRANCH_MS)

    def _light(self, f):
        """linear arithmetic and uninterpreted functions only?"""
        memo = self._lightc
        r = memo.get(f.get_id())
        if r is not None:
            return r
        self.keep.append(f)
        st = [(f, False)]
        while st:
            e, done = st.pop()
            k = e.get_id()
            if k in memo:
                continue
            if not z3.is_app(e) or not (z3.is_arith(e) or z3.is_bool(e)):
                memo[k] = False
                continue
            ch = e.children()
            if not done:
                todo = [x for x in ch if x.get_id() not in memo]
                if todo:
                    st.append((e, True))
                    st.extend((x, False) for x in todo)
                    continue
            ok = all(memo[x.get_id()] for x in ch)
            if ok and z3.is_arith(e):
                kd = e.decl().kind()
                if kd == z3.Z3_OP_MUL and sum(not (z3.is_int_value(x) or z3.is_rational_value(x)) for x in ch) > 1:
                    ok = False
                elif kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV, z3.Z3_OP_TO_INT, z3.Z3_OP_POWER):
                    ok = False
            memo[k] = ok
        return memo[f.get_id()]

    def light_unsat(self, *extra):
        """contradiction already among the linear facts (cheap)"""
        for e in extra:
            if not self._light(e):
                return False
        self.saturate()
        s = z3.Solver()
        s.set("timeout", 300)
        s.add([f for f in self.pc + self.ax if self._light(f)])
        s.add(*extra)
        t0 = time.time()
        r = s.check()
        self.shared.solver_time += time.time() - t0
        self.shared.solver_calls += 1
        return r == z3.unsat

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.no_fork:
            if self._check(c) == z3.unsat:
                return False
            if self._check(z3.Not(c)) == z3.unsat:
                return True
            raise Unsupported("decision on a symbolic value inside a quantified condition")
        if self.claiming and self.claim(c):
            return True
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
            self.assume(c if v else z3.Not(c))
            return v
        if self.light_unsat(c):
            t, f = False, True
        elif self.light_unsat(z3.Not(c)):
            t, f = True, False
        else:
            t = self._check(c) != z3.unsat
            f = self._check(z3.Not(c)) != z3.unsat
        if not t and not f:
            raise PathAbort()
        v = t
        if t and f:
            self.alts.append(self.trace[: self.pos] + [False])
        self.trace.append(v)
        self.pos += 1
        self.assume(c if v else z3.Not(c))
        return v

    def claim(self, c):
        """an asserted condition: try to prove it instead of forking on it"""
        key = (tuple(self.trace[: self.pos]), tuple(self.chain), self.nclaims)
        self.nclaims += 1
        r = self.shared.claims.get(key)
        if r is None:
            r = self.prove(c, max(2500, int(os.environ.get("POPVER_MS", "8000")) // 3))[0] == "proved"
            self.shared.claims[key] = r
        if r:
            self.assume(c)
        return r

    def choose(self, n):
        """nondeterministic choice among n alternatives (all are explored)"""
        if n == 1:
            return 0
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
            return v
        for k in range(n - 1, 0, -1):
            self.alts.append(self.trace[: self.pos] + [k])
        self.trace.append(0)
        self.pos += 1
        return 0

    # -- index terms and quantified facts
    def no_idx(self):
        return _NoIdx(self)

    def guard(self, m, j):
        return _Guard(self, m, j)

    def guard_key(self):
        return tuple((m.base, j.get_id()) for m, j in self.guards)

    def guarded(self, m, k):
        for mm, j in self.guards:
            if mm is m and m.rawrank(j).get_id() == k.get_id():
                return j
        return None

    def equal_maps(self, a, b, canon, n):
        """are two boolean maps (terms over canon) equal on [0, n)?"""
        if a.get_id() == b.get_id():
            return True
        nt = n if is_term(n) else z3.IntVal(n)
        r = self._check(canon >= 0, canon < nt, z3.Xor(a, b))
        if r == z3.sat:
            facts = self._selected_positions(a, b)
            if facts:
                r = self._check(canon >= 0, canon < nt, z3.Xor(a, b), *facts)
        return r == z3.unsat

    def _selected_positions(self, *terms):
        """what holds of the selected positions that occur in these terms"""
        out, seen, st = [], set(), list(terms)
        while st:
            t = st.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            st.extend(t.children())
            name = t.decl().name()
            if t.num_args() and name.endswith(".sel"):
                m = self.mask_by_name.get(name[:-4] + ".rank")
                k = t.arg(t.num_args() - 1)
                if m is not None:
                    n = m.n if is_term(m.n) else z3.IntVal(m.n)
                    out.append(z3.Implies(z3.And(k >= 0, k < m.cnt), z3.And(t >= k, t < n)))
        return out

    @staticmethod
    def domkey(n):
        if n is None:
            return None
        if isinstance(n, int):
            return ("c", n)
        n = z3.simplify(n)
        return ("c", n.as_long()) if z3.is_int_value(n) else n.get_id()

    def idx(self, t, depth=0, dom=None):
        """an index that is used, for sequences of length dom: universal facts are instantiated with it"""
        if self._noidx:
            return
        depth = max(depth, self.depth)
        t = z3.simplify(t) if not z3.is_int_value(t) else t
        k = self.domkey(dom)
        key = (t.get_id(), k)
        if key not in self._idx_ids:
            self._idx_ids[key] = depth
            self.idx_terms.append((t, depth, k))

    def forget(self, v, axm):
        """an index variable that is not used any more: its instances only slow the solver down"""
        zero = z3.IntVal(0)

        def has(t):
            return z3.substitute(t, (v, zero)).get_id() != t.get_id()
        keep, gone = [], []
        for k, (t, d, m) in enumerate(self.idx_terms):
            if has(t):
                gone.append(k)
                self._idx_ids.pop((t.get_id(), m), None)
                self.keep.append(t)
            else:
                keep.append((t, d, m))
        if gone:
            import bisect
            self.idx_terms[:] = keep
            for q in self.quants:
                q[1] -= bisect.bisect_left(gone, q[1])
        for m in self.masks:
            if m.active:
                m.ranks[:] = [t for t in m.ranks if not has(t)]
                m.sels[:] = [t for t in m.sels if not has(t)]
        new = self.ax[axm:]
        del self.ax[axm:]
        for a in new:
            if has(a):
                self._ax_ids.discard(a.get_id())
                self.keep.append(a)
            else:
                self.ax.append(a)
        for k in [k for k, m in self.mterms.items() if has(m[2])]:
            self.keep.append(self.mterms.pop(k)[2])

    def quant(self, f, maxdepth=1, dom=None):
        """f(index term) asserts the instance of a universally valid fact about sequences of length dom"""
        k = None if dom is None else self.domkey(dom)
        if k is not None:
            self.doms.add(k)
            if is_term(dom):
                self.keep.append(z3.simplify(dom))
        self.quants.append([f, 0, maxdepth, k, set()])

    def axiom_gen(self, f, n):
        """a fact that holds for every iteration"""
        nt = n if is_term(n) else z3.IntVal(n)
        self.quant(lambda i: self.axiom(z3.Implies(z3.And(i >= 0, i < nt), f(i))), 1, n)

    def suits(self, key, dom):
        """may an index of this kind be one of that kind? (indices of unknown kind are of every kind)"""
        return self.untyped or key is None or dom is None or key == dom or key not in self.doms

    def saturate(self):
        again = True
        rounds = 0
        while again and rounds < 12:
            again = False
            rounds += 1
            for q in self.quants:
                while q[1] < len(self.idx_terms):
                    t, d, k = self.idx_terms[q[1]]
                    q[1] += 1
                    if d <= q[2] and self.suits(k, q[3]) and t.get_id() not in q[4]:
                        q[4].add(t.get_id())
                        self.depth = d + 1
                        q[0](t)
                        again = True
        self.depth = 0

    def untype(self):
        """give up the distinction of kinds of indices"""
        if self.untyped:
            return False
        self.untyped = True
        n = len(self.ax)
        for q in self.quants:
            q[1] = 0
        self.saturate()
        return len(self.ax) > n

    # -- mathematical functions
    def math_term(self, name, args, t):
        i = t.get_id()
        if i in self.mterms:
            return
        self.mterms[i] = (name, args, t)
        one = z3.RealVal(1)
        if name == "EXP":
            (x,) = args
            lt = _F["LOG"](t)
            self.axiom(t > 0)
            self.axiom(lt == x)
            self.axiom(z3.And(z3.Implies(x >= 0, t >= 1 + x), z3.Implies(x <= 0, t <= 1), z3.Implies(x < 0, t < 1)))
        elif name == "LOG":
            (x,) = args
            self.axiom(z3.Implies(x > 0, z3.And((x >= 1) == (t >= 0), (x > 1) == (t > 0))))
            self._log_structure(x, t)
        elif name == "SQRT":
            (x,) = args
            self.axiom(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
        elif name in ("SIN", "COS"):
            (x,) = args
            other = _F["COS" if name == "SIN" else "SIN"](x)
            self.axiom(z3.And(t <= 1, t >= -1))
            self.axiom(t * t + other * other == 1)
            if name == "SIN":
                self.axiom(z3.Implies(z3.And(x >= 0, x <= z3.RealVal(Fraction(PI))), t >= 0))
        elif name == "ACOS":
            (x,) = args
            c = _F["COS"](t)
            self.axiom(z3.Implies(z3.And(x <= 1, x >= -1), z3.And(t >= 0, t <= z3.RealVal(Fraction(PI)), c == x)))
        elif name == "ASIN":
            (x,) = args
            s = _F["SIN"](t)
            h = z3.RealVal(Fraction(PI) / 2)
            self.axiom(z3.Implies(z3.And(x <= 1, x >= -1), z3.And(t >= -h, t <= h, s == x)))
        elif name == "GAMMA":
            self.axiom(z3.Implies(args[0] > 0, t > 0))
        elif name == "GAMMAINCINV":
            self.axiom(z3.Implies(z3.And(args[0] > 0, args[1] >= 0, args[1] <= 1), t >= 0))
        elif name == "NCDF":
            self.axiom(z3.And(t > 0, t < 1))
        elif name == "POW":
            x, a = args
            lx, lt = _F["LOG"](x), _F["LOG"](t)
            self.math_term("LOG", (x,), lx)
            self.math_term("LOG", (t,), lt)
            self.axiom(z3.Implies(x > 0, z3.And(t > 0, lt == a * lx)))
            self.axiom(z3.Implies(a == 0, t == 1))
            self.axiom(z3.Implies(a == 1, t == x))
            self.axiom(z3.Implies(x == 1, t == 1))
            self.axiom(z3.Implies(z3.And(x == 0, a > 0), t == 0))
        elif name == "GALB":
            self.axiom(z3.And(t <= 90, t >= -90))

    def register_math(self, e):
        st, seen = [e], self._reg
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen[i] = x
            if z3.is_app(x):
                n = x.decl().name()
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                    if n in _F or n in _F2:
                        self.math_term(n, tuple(x.children()), x)
                st.extend(x.children())

    def _log_structure(self, x, t):
        k = x.decl().kind() if z3.is_app(x) else None
        L = _F["LOG"]

        def sub(y):
            ly = L(y)
            self.math_term("LOG", (y,), ly)
            return ly
        if k == z3.Z3_OP_MUL:
            cs = x.children()
            if len(cs) <= 4:
                self.axiom(z3.Implies(z3.And([c > 0 for c in cs]), t == sum([sub(c) for c in cs[1:]], sub(cs[0]))))
        elif k == z3.Z3_OP_DIV:
            a, b = x.children()
            self.axiom(z3.Implies(z3.And(a > 0, b > 0), t == sub(a) - sub(b)))

    def pair_axioms(self, limit=14):
        """monotonicity between pairs of terms of the same function"""
        out = []
        by = {}
        for name, args, t in self.mterms.values():
            by.setdefault(name, []).append((args, t))
        for name in ("LOG", "EXP", "SQRT", "NPPF", "NCDF"):
            l = by.get(name, [])[:limit]
            for i in range(len(l)):
                for j in range(i):
                    (x,), s = l[i]
                    (y,), u = l[j]
                    g = z3.And(x > 0, y > 0) if name in ("LOG", "SQRT") else z3.BoolVal(True)
                    out.append(z3.Implies(g, z3.And((x < y) == (s < u), (x == y) == (s == u))))
        l = by.get("ACOS", [])[:6]
        for i in range(len(l)):
            for j in range(i):
                (x,), s = l[i]
                (y,), u = l[j]
                out.append(z3.Implies(z3.And(x <= 1, x >= -1, y <= 1, y >= -1), (x < y) == (s > u)))
        l = by.get("POW", [])[:limit]
        for i in range(len(l)):
            for j in range(i):
                (x, a), s = l[i]
                (y, b), u = l[j]
                pos = z3.And(x > 0, y > 0)
                out.append(z3.Implies(z3.And(pos, a == b, a > 0), z3.And((x < y) == (s < u), (x == y) == (s == u))))
                out.append(z3.Implies(z3.And(pos, a == b, a < 0), z3.And((x < y) == (s > u), (x == y) == (s == u))))
                out.append(z3.Implies(z3.And(pos, a == b, a != 0, x < y), a * (u - s) > 0))
                out.append(z3.Implies(z3.And(pos, a == b, a != 0, x > y), a * (s - u) > 0))
                d = z3.simplify(a - b)
                if z3.is_rational_value(d):
                    v = d.as_fraction()
                    if v.denominator == 1 and 0 < abs(v.numerator) <= 2:
                        k = abs(v.numerator)
                        p = x if k == 1 else x * x
                        if v > 0:
                            out.append(z3.Implies(z3.And(pos, x == y), s == u * p))
                        else:
                            out.append(z3.Implies(z3.And(pos, x == y), u == s * p))
                out.append(z3.Implies(z3.And(pos, x == y, a == -b), s * u == 1))
        return out

    # -- proving
    def prove(self, goal, ms=8000):
        """returns ('proved', backend) / ('refuted', model) / ('unknown', reason)"""
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "proved", "simplifier"
        key = goal.get_id()
        self.keep.append(goal)
        self.check_deadline()
        self.saturate()
        t0 = time.time()
        try:
            r = self._prove(goal, ms)
            if r[0] != "proved" and self.untype():
                r = self._prove(goal, ms)
            return r
        finally:
            self.shared.solver_time += time.time() - t0
            self.shared.solver_calls += 1

    def _syms(self, f):
        """the names of the symbols in a formula"""
        memo = self._symc
        r = memo.get(f.get_id())
        if r is not None:
            return r
        self.keep.append(f)
        st = [(f, None)]
        while st:
            e, ch = st.pop()
            k = e.get_id()
            if k in memo:
                continue
            if ch is None:
                if not z3.is_app(e):
                    memo[k] = frozenset()
                    continue
                ch = e.children()
                todo = [x for x in ch if x.get_id() not in memo]
                if todo:
                    st.append((e, ch))
                    st.extend((x, None) for x in todo)
                    continue
            d = e.decl()
            u = d.kind() == z3.Z3_OP_UNINTERPRETED
            sets = [memo[x.get_id()] for x in ch]
            if not sets:
                r = frozenset((d.name(),)) if u else _NOSYM
            else:
                r = sets[0]
                for q in sets[1:]:
                    if q is not r and not q <= r:
                        r = q if r <= q else r | q
                if u and d.name() not in r:
                    r = r | {d.name()}
            memo[k] = r
        return memo[f.get_id()]

    def relevant(self, *goals):
        """path condition and facts that speak about the symbols of the goal only"""
        s = set()
        for g in goals:
            s |= self._syms(g)
        for p in self.pc:
            q = self._syms(p)
            if q & s and len(q) < 12:
                s |= q
        s |= set(_F) | set(_F2)
        return [f for f in self.pc + self.ax if self._syms(f) <= s]

    def _prove(self, goal, ms):
        base = self.pc + self.ax
        if len(base) > 150:
            rel = self.relevant(goal)
            if len(rel) < len(base) * 0.7:
                s = z3.Solver()
                s.set("timeout", 700)
                s.add(rel)
                s.add(z3.Not(goal))
                if s.check() == z3.unsat:
                    self.shared.queries.append((s, "z3"))
                    return "proved", "z3"
                if self.mterms:
                    from . import field
                    if field.prove(self, goal):
                        return "proved", "normal form"
        s = z3.Solver()
        s.set("timeout", min(ms, 1500))
        s.add(base)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            self.shared.queries.append((s, "z3"))
            return "proved", "z3"
        if r == z3.sat and not self.mterms:
            return "refuted", s.model()
        if self.mterms or r == z3.unknown:
            from . import field
            if field.prove(self, goal):
                return "proved", "normal form"
        # log probes: compare logarithms of the two sides
        self._probe(goal)
        self.saturate()
        extra = self.pair_axioms()
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(self.pc + self.ax + extra)
        s.add(z3.Not(goal))
        r2 = s.check()
        if r2 == z3.unsat:
            self.shared.queries.append((s, "z3"))
            return "proved", "z3"
        # pure nonlinear arithmetic after abstraction of the applications
        r3 = self._nlsat(s, ms)
        if r3 == z3.unsat:
            return "proved", "z3-nlsat"
        if r2 == z3.sat:
            return "refuted", s.model()
        c = cvc5_check(s, ms)
        if c == "unsat":
            return "proved", "cvc5"
        return "unknown", str(s.reason_unknown()) if r2 == z3.unknown else "?"

    def _probe(self, goal, n=0):
        if n > 3:
            return
        if z3.is_app(goal):
            k = goal.decl().kind()
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_real(goal.arg(0)):
                for a in goal.children():
                    if not z3.is_rational_value(a):
                        a = z3.simplify(a)
                        self.math_term("LOG", (a,), _F["LOG"](a))
            elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_IMPLIES, z3.Z3_OP_NOT):
                for a in goal.children():
                    self._probe(a, n + 1)

    def _nlsat(self, s, ms):
        """replace every function application by a variable (with congruence)"""
        try:
            fs = s.assertions()
            cache, apps = {}, {}

            def walk(e):
                i = e.get_id()
                if i in cache:
                    return cache[i]
                if z3.is_app(e) and e.num_args() > 0:
                    ch = [walk(c) for c in e.children()]
                    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        r = z3.FreshConst(e.sort(), "a")
                        apps.setdefault(e.decl().name() + str(e.num_args()), []).append((ch, r))
                    elif e.decl().kind() == z3.Z3_OP_TO_REAL:
                        raise Unsupported("int")
                    else:
                        r = e.decl()(*ch) if e.decl().arity() == len(ch) else (z3.substitute(e, *[(c, d) for c, d in zip(e.children(), ch)]))
                else:
                    r = e
                cache[i] = r
                return r
            out = [walk(f) for f in fs]
            n = 0
            for l in apps.values():
                if len(l) > 12:
                    continue
                for i in range(len(l)):
                    for j in range(i):
                        n += 1
                        out.append(z3.Implies(z3.And([p == q for p, q in zip(l[i][0], l[j][0])]), l[i][1] == l[j][1]))
            tac = z3.Then("simplify", "solve-eqs", "purify-arith", "smt") if False else z3.Tactic("qfnra")
            sv = tac.solver()
            sv.set("timeout", ms)
            sv.add(out)
            return sv.check()
        except (z3.Z3Exception, Unsupported):
            return z3.unknown

    # -- ghost random streams
    def stream_id(self):
        return self.rng[1]

    def seed(self, term):
        s = term if isinstance(term, str) else str(z3.simplify(to_term(term)))
        self.rng = ["seed", ("seed", s), 0]

    def draw(self, kind, n=None, meta=None):
        """a canonical random quantity: returns (index term -> term, name)"""
        st = self.rng
        # what a number is depends on the stream and on how many were drawn before
        key = repr((kind, st[1], st[2]) + tuple(st[3:]))
        st[2] += 1
        st[3:] = ["%s|%s%s" % (st[3] if len(st) > 3 else "", kind, z3.simplify(n) if is_term(n) else n)]
        h = hashlib.md5(key.encode()).hexdigest()[:10]
        if self.loop_idx:
            h = "%s@%d" % (h, len(self.loop_idx))
        name = "%s<%s>" % (kind, h)
        nl = len(self.loop_idx)
        sort = I if kind in ("P", "RI", "CH") else R
        f = z3.Function(name, *([I] * (nl + 1)), sort)
        self.rngf[name] = dict(kind=kind, size=n, meta=meta, stream=st[1], nl=nl, f=f)
        li = list(self.loop_idx)

        def at(i):
            t = f(*(li + [i]))
            return t
        return at, name


class _NoIdx:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.c._noidx += 1

    def __exit__(self, *a):
        self.c._noidx -= 1


class _Guard:
    def __init__(self, c, m, j):
        self.c, self.g = c, (m, j)

    def __enter__(self):
        self.c.guards.append(self.g)

    def __exit__(self, *a):
        self.c.guards.pop()


def cvc5_check(s, ms):
    try:
        import cvc5
    except Exception:
        return "unknown"
    try:
        sv = cvc5.Solver()
        sv.setOption("tlimit-per", str(int(ms)))
        p = cvc5.InputParser(sv)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(sv, sm)
            if "unsat" in str(o):
                res = "unsat"
            elif str(o).strip() == "sat":
                res = "sat"
        return res
    except Exception:
        return "unknown"


# ------------------------------------------------------------------------ exploring
class Explorer:
    def __init__(self, run, deadline, max_paths=4000):
        self.run = run                    # run(ctx) executes the harness
        self.shared = Shared(deadline)
        self.max_paths = max_paths
        self.complete = False
        self.errors = []

    def explore(self):
        restarts = 0
        while True:
            try:
                self._explore()
                return
            except Restart:
                restarts += 1
                sh = self.shared
                sh.obligations, sh.paths, sh.covered = [], 0, set()
                sh.summaries = {}
                sh.claims = {}
                sh.rejection = {}
                sh.labels_failed = set()
                self.errors = []
                if restarts > 30:
                    self.errors.append("loop analysis does not converge")
                    return

    def _explore(self):
        stack = [[]]
        while stack:
            trace = stack.pop()
            if self.shared.paths >= self.max_paths:
                self.errors.append("more than %d paths" % self.max_paths)
                return
            try:
                c = self._one(trace, ())
            except Deadline:
                self.errors.append("time limit")
                return
            stack.extend(c.alts)
        self.complete = not self.errors

    def _one(self, trace, chain):
        """execute along a trace; computes loop summaries on demand"""
        tries = 0
        while True:
            tries += 1
            if tries > 60:
                raise Unsupported("too many loops")
            c = Ctx(self.shared, trace, chain)
            _CUR[0] = c
            try:
                self.run(c)
                if not chain:
                    self.shared.paths += 1
                return c
            except PathAbort:
                return c
            except NestedDone:
                return c
            except NeedSummary as e:
                # decisions made up to the loop become part of the trace; the
                # alternatives found so far are still explored afterwards
                trace = e.prefix
                saved = c.alts
                self.summarise(e.key, e.prefix, e.chain)
                c2 = self._one(trace, chain)
                c2.alts = saved + c2.alts
                return c2
            except Unsupported as e:
                self.errors.append("unsupported: %s" % e)
                self.shared.paths += 1
                return c
            finally:
                _CUR[0] = None

    def summarise(self, key, prefix, chain):
        self.shared.summaries[key] = s = dict(paths=[], error=None)
        stack = [list(prefix)]
        n = 0
        while stack:
            tr = stack.pop()
            n += 1
            if n > 200:
                s["error"] = "too many paths in a loop body"
                return
            c = self._one(tr, chain + (key,))
            stack.extend(a for a in c.alts if len(a) > len(prefix))
