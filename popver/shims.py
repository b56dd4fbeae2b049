"""contracts of the dependencies: numpy, scipy, numba, astropy, logging, ..."""
import builtins
import io
import math
import re
import types
from fractions import Fraction

import z3

from .core import (ctx, Sym, SReal, SInt, SBool, mk, to_term, is_term, num, real, Unsupported, is_special, PathAbort,
                   t_add, t_sub, t_mul, t_div, t_cmp, t_exp, t_log, t_pow, t_sqrt, t_bool, t_ite, _m1, _m2, I, R, B,
                   PvControl, _F, _F2, fp_of)
from . import arr as A
from .arr import ndarray, UFUNCS, from_elem, asarray, norm_len, lt, in_range
from .pylist import PVList
from .loops import SymIter, sym_iter, ForLoop, WhileLoop, Poison


class Module(types.ModuleType):
    """a shim module: attributes it does not have are unsupported"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__name__, n))


def module(name, **kw):
    m = Module(name)
    m.__dict__.update(kw)
    return m


# ----------------------------------------------------------------- random numbers
def _param(x):
    """(elem closure, length or None)"""
    if getattr(type(x), "pv_list", False) or isinstance(x, (list, tuple)):
        x = asarray(x)
    if isinstance(x, ndarray):
        if x._zd:
            t = x.el(z3.IntVal(0))
            return (lambda i: t), None
        s = x.snap()
        if isinstance(x._n, int) and x._n == 1:
            t0 = s(z3.IntVal(0))
            return (lambda i: t0), 1
        return s, x._n
    if x is None:
        raise TypeError("unsupported parameter None")
    if is_special(x):
        raise Unsupported("special value as a parameter of a distribution")
    t = to_term(x)
    return (lambda i: t), None


def _size(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        if len(size) == 0:
            return None
        if len(size) == 1:
            return _size(size[0])
        raise Unsupported("random arrays of two dimensions")
    if isinstance(size, ndarray):
        size = size.item()
    if isinstance(size, (float, SReal)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    n = norm_len(size)
    if isinstance(n, int):
        if n < 0:
            raise ValueError("negative dimensions are not allowed")
    elif ctx().branch(n < 0):
        raise ValueError("negative dimensions are not allowed")
    return n


def draws(kind, size, params, build, check=None, scalar_int=False, outkind="f", stats=False):
    """random values build(params(i), canonical draw(i))"""
    c = ctx()
    ps = [_param(p) for p in params]
    n = _size(size)
    lens = [l for _, l in ps if l is not None]
    for l in lens:
        if n is None:
            n = l
        elif not (isinstance(l, int) and l == 1):
            if not A.same_len(n, l):
                raise ValueError("shape mismatch / size does not match the broadcast shape of the parameters")
    els = [e for e, _ in ps]
    if check is not None:
        if all(l is None or l == 1 for _, l in ps):
            ok = check(*[e(z3.IntVal(0)) for e in els])
            if ok is not None and not c.branch(ok):
                raise ValueError("Domain error in arguments" if stats else "parameter out of range")
        else:
            if not A.all_range(n, lambda i: check(*[e(i) for e in els]), "dom"):
                raise ValueError("Domain error in arguments" if stats else "parameter out of range")
    at, name = c.draw(kind, 1 if n is None else n)

    def el(i):
        u = at(i)
        if kind == "U":
            c2 = ctx()
            c2.axiom(z3.And(u >= 0, u < 1))
            if c2.assume_open_u:
                c2.axiom(u > 0)
        elif kind == "P":
            ctx().axiom(u >= 0)
        return to_term(build(*([e(i) for e in els] + [u])))
    if n is None:
        return mk(el(z3.IntVal(0)), True)
    return from_elem(n, outkind, el)


def _ppf(u):
    return _m1("NPPF", u)


class RandomState:
    """numpy's random number functions on a ghost stream"""

    def __init__(self, seed=None, stream=None):
        object.__setattr__(self, "_st", stream)
        if stream is None:
            c = ctx()
            if seed is None:
                key = ("os-entropy", c.fresh_name("entropy"))
            else:
                key = ("own", str(z3.simplify(to_term(seed))), type(self).__name__)
            self._st = ["own", key, 0]

    def _with(self, f):
        if self._st == "global":
            return f()
        c = ctx()
        old, c.rng = c.rng, self._st
        try:
            return f()
        finally:
            c.rng = old

    def seed(self, s=None):
        def f():
            c = ctx()
            if isinstance(s, (float, SReal)):
                raise TypeError("Cannot cast seed")
            if s is None:
                c.rng[:] = ["seed", ("os-entropy", c.fresh_name("entropy")), 0]
            else:
                t = norm_len(s)
                if isinstance(t, int) and not 0 <= t < 2 ** 32:
                    raise ValueError("Seed must be between 0 and 2**32 - 1")
                if is_term(t) and not c.branch(z3.And(t >= 0, t < 2 ** 32)):
                    raise ValueError("Seed must be between 0 and 2**32 - 1")
                c.seed(lt(t))
                c.events.append(("seed", lt(t)))
        return self._with(f)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._with(lambda: draws("U", size, (low, high), lambda a, b, u: t_add(a, t_mul(t_sub(b, a), u))))

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    random_sample = sample = ranf = random

    def rand(self, *s):
        if len(s) > 1:
            raise Unsupported("rand with two dimensions")
        return self.uniform(0.0, 1.0, s[0] if s else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._with(lambda: draws("U", size, (loc, scale), lambda m, s, u: t_add(m, t_mul(s, _ppf(u))),
                                        lambda m, s: t_cmp("ge", s, 0)))

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def randn(self, *s):
        return self.normal(0.0, 1.0, s[0] if s else None)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return self._with(lambda: draws("U", size, (mean, sigma), lambda m, s, u: t_exp(t_add(m, t_mul(s, _ppf(u)))),
                                        lambda m, s: t_cmp("ge", s, 0)))

    def exponential(self, scale=1.0, size=None):
        return self._with(lambda: draws("U", size, (scale,), lambda s, u: t_mul(s, -t_log(t_sub(1, u))),
                                        lambda s: t_cmp("ge", s, 0)))

    def standard_exponential(self, size=None):
        return self.exponential(1.0, size)

    def pareto(self, a, size=None):
        return self._with(lambda: draws("U", size, (a,), lambda a, u: t_sub(t_pow(t_sub(1.0, u), t_div(-1, a)), 1),
                                        lambda a: t_cmp("gt", a, 0)))

    def power(self, a, size=None):
        return self._with(lambda: draws("U", size, (a,), lambda a, u: t_pow(u, t_div(1, a)), lambda a: t_cmp("gt", a, 0)))

    def poisson(self, lam=1.0, size=None):
        def f():
            c = ctx()
            e, l = _param(lam)
            if l is None and size is None:
                t = real(e(z3.IntVal(0)))
                if not c.branch(t >= 0):
                    raise ValueError("lam < 0 or lam contains NaNs")
                at, name = c.draw("P", 1)
                # the number is a function of the stream and of the mean
                t = z3.simplify(t)
                r = z3.Function(name + ".of", R, I)(t)
                c.axiom(r >= 0)
                c.events.append(("poisson", t, r))
                return mk(r)
            raise Unsupported("arrays of poisson numbers")
        return self._with(f)

    def binomial(self, n, p, size=None):
        if not (isinstance(n, int) and n == 1):
            raise Unsupported("binomial")
        return self._with(lambda: draws("U", size, (p,), lambda p, u: num(t_cmp("lt", u, p)),
                                        lambda p: z3.And(t_cmp("ge", p, 0), t_cmp("le", p, 1)), outkind="i"))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low

        def f():
            def build(a, b, r):
                ctx().axiom(z3.And(r >= num(a), r < num(b)))
                return r
            return draws("RI", size, (low, high), build, lambda a, b: num(a) < num(b), outkind="i")
        return self._with(f)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None or replace is not True:
            raise Unsupported("weighted choice")
        if isinstance(a, (int, Sym)):
            return self.randint(0, a, size)
        a = asarray(a)
        i = self.randint(0, a.size, size)
        return a[i]

    def shuffle(self, x):
        raise Unsupported("shuffle")

    def get_state(self):
        return tuple(self._cur())

    def _cur(self):
        return ctx().rng if self._st == "global" else self._st

    def set_state(self, s):
        self._cur()[:] = list(s)

    def __getattr__(self, n):
        raise Unsupported("random.%s" % n)


class Generator(RandomState):
    pass


# ---------------------------------------------------------------------------- numpy
def _fill_like(fillv):
    def f(a, dtype=None, order=None, subok=True, shape=None):
        if shape is not None:
            raise Unsupported("shape=")
        if a is None and dtype is None:
            return from_elem(1, "O", lambda i: z3.IntVal(0), True, objs=[fillv])
        x = asarray(a)
        d = A.as_dtype(dtype) or x.dtype
        if d.kind == "fp":
            d = A.F8
        if fillv is not None:
            r = from_elem(x._n, d.kind, A.const_elem(A.cast_term(z3.IntVal(fillv), d.kind)), x._zd)
        else:
            r = A.alloc_shape(A.len_value(x._n) if not x._zd else (), d)
        if subok and isinstance(a, ndarray) and type(a) is not ndarray:
            r = a._new_like(type(a), r)
        return r
    return f


def np_array(x, dtype=None, copy=True, subok=False, ndmin=0, **k):
    if k:
        raise Unsupported("array options")
    r = asarray(x, dtype, copy=True) if copy else asarray(x, dtype)
    if ndmin > 1:
        raise Unsupported("two-dimensional array")
    return np_atleast_1d(r) if ndmin == 1 else r


def np_atleast_1d(*xs):
    if len(xs) != 1:
        raise Unsupported("atleast_1d of several")
    x = xs[0]
    if x is None or isinstance(x, (str, bytes)):
        return A.from_elem(1, "O", lambda i: z3.IntVal(0), objs=[x])
    r = x if isinstance(x, ndarray) else asarray(x)
    if r._zd:
        s = r.snap()
        return from_elem(1, r.kind, lambda i: s(z3.IntVal(0)))
    return r


def np_repeat(a, repeats, axis=None):
    a = asarray(a)
    if not a._zd and not (isinstance(a._n, int) and a._n == 1):
        raise Unsupported("repeat of an array")
    n = _size(repeats)
    t = a.el(z3.IntVal(0))
    return from_elem(n, a.kind, A.const_elem(t))


def np_arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    if isinstance(start, (float, SReal)) or isinstance(stop, (float, SReal)) or not (isinstance(step, int) and step == 1):
        raise Unsupported("arange with a real step")
    a = num(to_term(start))
    d = z3.simplify(num(to_term(stop)) - a)
    n = norm_len(d)
    if is_term(n):
        if ctx().branch(n < 0):
            n = 0
    else:
        n = builtins.max(n, 0)
    r = from_elem(n, "i", lambda i: z3.simplify(a + i))
    return r.astype(dtype) if dtype is not None else r


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = _size(num)
    a, b = real(to_term(start)), real(to_term(stop))
    if not isinstance(endpoint, bool):
        raise Unsupported("linspace options")
    less = 1 if endpoint else 0
    if isinstance(n, int):
        parts = builtins.max(n - less, 1)
        r = from_elem(n, "f", lambda i: z3.simplify(a + z3.ToReal(i) * (b - a) / parts) if not z3.is_int_value(i)
                      else z3.simplify(a + (b - a) * Fraction(i.as_long(), parts)))
        step = mk(z3.simplify((b - a) / parts))
    else:
        parts = z3.If(lt(n) <= less, z3.RealVal(1), z3.ToReal(lt(n) - less))
        r = from_elem(n, "f", lambda i: a + z3.ToReal(i) * (b - a) / parts)
        step = mk((b - a) / parts)
    return (r, step) if retstep else r


def np_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    e = np_linspace(start, stop, num, endpoint)
    return UFUNCS["power"](base, e)


def np_concatenate(xs, axis=0, **k):
    xs = [asarray(x) for x in xs]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    r = xs[0]
    kind = A.promote(*[x.kind for x in xs])
    if any(x._zd for x in xs):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    n, e = r._n, r.snap()
    e = (lambda e: lambda i: A.cast_term(e(i), kind))(e)
    for x in xs[1:]:
        s = x.snap()
        n0 = lt(n)
        e = (lambda e, s, n0: lambda i: z3.If(i < n0, e(i), A.cast_term(s(z3.simplify(i - n0)), kind)))(e, s, n0)
        n = norm_len(n0 + lt(x._n))
    return from_elem(n, kind, e)


def np_array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a._zd != b._zd:
        return False
    if not A.same_len(a._n, b._n):
        return False
    return UFUNCS["logical_and"].reduce(UFUNCS["equal"](a, b))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    ab = UFUNCS["absolute"]
    return UFUNCS["less_equal"](ab(UFUNCS["subtract"](a, b)), UFUNCS["add"](atol, UFUNCS["multiply"](rtol, ab(b))))


def np_size(a, axis=None):
    return asarray(a).size


def np_where(*a):
    return A.where(*a)


def np_interp(*a, **k):
    raise Unsupported("interp")


def _red(name):
    def f(a, axis=None, out=None, **k):
        if axis not in (None, 0, -1) or out is not None:
            raise Unsupported("reduction options")
        return UFUNCS[name].reduce(a if isinstance(a, ndarray) else asarray(a), **k)
    return f


def np_clip(a, lo, hi, out=None):
    return UFUNCS["minimum"](UFUNCS["maximum"](a, lo), hi) if lo is not None and hi is not None else asarray(a).clip(lo, hi)


def np_string_(x):
    return x.encode() if isinstance(x, str) else bytes(x)


def np_count_nonzero(a, axis=None):
    a = asarray(a)
    return UFUNCS["add"].reduce(a if a.kind == "b" else a != 0)


def np_errstate(**k):
    import contextlib
    return contextlib.nullcontext()


def _meshgrid(*a, **k):
    raise Unsupported("meshgrid")


def make_numpy():
    m = Module("numpy")
    d = m.__dict__
    for k, v in UFUNCS.items():
        d[k] = v
    del d["expit"]
    rnd = Module("numpy.random")
    g = RandomState(stream="global")
    for n in ("seed uniform random random_sample sample ranf rand normal standard_normal randn lognormal exponential "
              "standard_exponential pareto power poisson binomial randint choice shuffle get_state set_state").split():
        setattr(rnd, n, getattr(g, n))
    rnd.RandomState = RandomState
    rnd.Generator = Generator
    rnd.default_rng = lambda seed=None: seed if isinstance(seed, Generator) else Generator(seed)
    rnd.mtrand = module("numpy.random.mtrand", _rand=g)
    d.update(
        random=rnd, ndarray=ndarray, pi=math.pi, e=math.e, inf=math.inf, infty=math.inf, nan=math.nan, newaxis=None,
        float64=A.float64, float_=A.float64, int64=A.int64, int_=A.int64, bool_=A.bool_, generic=A.generic,
        number=A.number, integer=A.integer, floating=A.floating, ufunc=A.ufunc,
        zeros=lambda shape, dtype=float, order=None: A.alloc_shape(shape, A.as_dtype(dtype), 0),
        ones=lambda shape, dtype=float, order=None: A.alloc_shape(shape, A.as_dtype(dtype), 1),
        empty=lambda shape, dtype=float, order=None: A.alloc_shape(shape, A.as_dtype(dtype)),
        full=lambda shape, v, dtype=None, order=None: A.alloc_shape(
            shape, A.as_dtype(dtype) or A._BYKIND[A.kind_of_scalar(v)], v),
        zeros_like=_fill_like(0), ones_like=_fill_like(1), empty_like=_fill_like(None),
        full_like=lambda a, v, dtype=None: from_elem(asarray(a)._n, (A.as_dtype(dtype) or asarray(a).dtype).kind,
                                                     A.const_elem(A.cast_term(to_term(v), (A.as_dtype(dtype) or asarray(a).dtype).kind))),
        array=np_array, asarray=lambda x, dtype=None, **k: asarray(x, dtype),
        asanyarray=lambda x, dtype=None: x if isinstance(x, ndarray) else asarray(x, dtype),
        ascontiguousarray=lambda x, dtype=None: asarray(x, dtype),
        atleast_1d=np_atleast_1d, repeat=np_repeat, arange=np_arange, linspace=np_linspace, logspace=np_logspace,
        concatenate=np_concatenate, append=lambda a, b: np_concatenate([np_atleast_1d(a), np_atleast_1d(b)]),
        hstack=np_concatenate, copy=lambda a: asarray(a, copy=True), where=np_where,
        nonzero=lambda a: A.where(a), flatnonzero=lambda a: A.where(a)[0],
        sum=_red("add"), max=_red("maximum"), min=_red("minimum"), amax=_red("maximum"), amin=_red("minimum"),
        all=_red("logical_and"), any=_red("logical_or"), alltrue=_red("logical_and"), sometrue=_red("logical_or"),
        count_nonzero=np_count_nonzero, array_equal=np_array_equal, isclose=np_isclose,
        allclose=lambda *a, **k: UFUNCS["logical_and"].reduce(np_isclose(*a, **k)),
        size=np_size, shape=lambda a: asarray(a).shape, ndim=lambda a: asarray(a).ndim, clip=np_clip,
        isscalar=lambda x: isinstance(x, (int, float, Sym, str)), string_=bytes, bytes_=bytes, str_=str,
        dtype=A.as_dtype, errstate=np_errstate, ravel=lambda a: asarray(a).ravel(),
        squeeze=lambda a: asarray(a).squeeze(), iscomplexobj=lambda a: False,
        broadcast_to=lambda a, shape: np_repeat(a, shape),
        issubdtype=lambda a, b: issubclass(a.type if isinstance(a, A.DType) else a, b),
        full_like_=None, may_share_memory=lambda a, b: a._buf is b._buf,
        shares_memory=lambda a, b: a._buf is b._buf, float32=A.float64, int32=A.int64,
    )
    d["string_"] = np_string_type
    typing = Module("numpy.typing")
    typing.ArrayLike = object
    typing.NDArray = object
    d["typing"] = typing
    return m, rnd, typing


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, bytes)


class np_string_type(metaclass=_StrMeta):
    def __new__(cls, x=""):
        if isinstance(x, str):
            return x.encode()
        if isinstance(x, bytes):
            return x
        raise Unsupported("string_ of %s" % type(x).__name__)


# ---------------------------------------------------------------------------- scipy
class _Dist:
    def _rs(self, random_state):
        if random_state is None:
            return RandomState(stream="global")
        if isinstance(random_state, RandomState):
            return random_state
        return RandomState(random_state)

    def __getattr__(self, n):
        raise Unsupported("scipy.stats distribution method %s" % n)

    def __call__(self, *a, **k):
        return _Frozen(self, a, k)


class _Frozen:
    """a distribution with given parameters"""

    def __init__(self, dist, args, kw):
        self._dist, self._args, self._kw = dist, args, kw

    def rvs(self, size=None, random_state=None):
        return self._dist.rvs(*self._args, size=size, random_state=random_state, **self._kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n not in ("ppf", "cdf", "pdf"):
            raise Unsupported("scipy.stats distribution method %s" % n)
        f = getattr(self._dist, n)
        return lambda x: f(x, *self._args, **self._kw)


class _Norm(_Dist):
    def rvs(self, loc=0, scale=1, size=None, random_state=None):
        return self._rs(random_state)._with(lambda: draws(
            "U", size, (loc, scale), lambda m, s, u: t_add(m, t_mul(s, _ppf(u))), lambda m, s: t_cmp("ge", s, 0), stats=True))

    def ppf(self, q, loc=0, scale=1):
        p = A.ufunc("ppf", 3, lambda q, m, s: t_add(m, t_mul(s, _m1("NPPF", q))), A._k_float)
        return p(q, loc, scale)

    def cdf(self, x, loc=0, scale=1):
        return A.ufunc("cdf", 3, lambda x, m, s: _m1("NCDF", t_div(t_sub(x, m), s)), A._k_float)(x, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        def f(x, m, s):
            z = t_div(t_sub(x, m), s)
            return t_exp(-z * z / 2) / (real(to_term(s)) * t_sqrt(2 * z3.RealVal(Fraction(math.pi))))
        return A.ufunc("pdf", 3, f, A._k_float)(x, loc, scale)


def trunc_std(a, b, u):
    """standard normal truncated to [a, b], by quantile"""
    a, b = real(a), real(b)
    fa, fb = _m1("NCDF", a), _m1("NCDF", b)
    t = _m1("NPPF", fa + u * (fb - fa))
    ctx().axiom(z3.Implies(z3.And(a < b, u >= 0, u < 1), z3.And(t >= a, t <= b)))
    return t


class _TruncNorm(_Dist):
    def rvs(self, a, b, loc=0, scale=1, size=None, random_state=None):
        return self._rs(random_state)._with(lambda: draws(
            "U", size, (a, b, loc, scale), lambda a, b, m, s, u: t_add(m, t_mul(s, trunc_std(a, b, u))),
            lambda a, b, m, s: z3.And(t_cmp("lt", a, b), t_cmp("ge", s, 0)), stats=True))

    def ppf(self, q, a, b, loc=0, scale=1):
        p = A.ufunc("ppf", 5, lambda q, a, b, m, s: t_add(m, t_mul(s, trunc_std(a, b, real(q)))), A._k_float)
        return p(q, a, b, loc, scale)


class _LogUniform(_Dist):
    def rvs(self, a, b, loc=0, scale=1, size=None, random_state=None):
        def f(a, b, m, s, u):
            x = t_exp(t_log(a) + u * (t_log(b) - t_log(a)))
            return t_add(m, t_mul(s, x))
        return self._rs(random_state)._with(lambda: draws(
            "U", size, (a, b, loc, scale), f,
            lambda a, b, m, s: z3.And(t_cmp("gt", a, 0), t_cmp("lt", a, b), t_cmp("ge", s, 0)), stats=True))


class _Uniform(_Dist):
    def rvs(self, loc=0, scale=1, size=None, random_state=None):
        return self._rs(random_state)._with(lambda: draws(
            "U", size, (loc, scale), lambda a, s, u: t_add(a, t_mul(s, u)), lambda m, s: t_cmp("ge", s, 0), stats=True))


class _LogNorm(_Dist):
    def rvs(self, s, loc=0, scale=1, size=None, random_state=None):
        return self._rs(random_state)._with(lambda: draws(
            "U", size, (s, loc, scale), lambda s, m, k, u: t_add(m, t_mul(k, t_exp(t_mul(s, _ppf(u))))),
            lambda s, m, k: z3.And(t_cmp("gt", s, 0), t_cmp("ge", k, 0)), stats=True))


class _Expon(_Dist):
    def rvs(self, loc=0, scale=1, size=None, random_state=None):
        return self._rs(random_state)._with(lambda: draws(
            "U", size, (loc, scale), lambda a, s, u: t_add(a, t_mul(s, -t_log(t_sub(1, u)))),
            lambda m, s: t_cmp("ge", s, 0), stats=True))


class _Pareto(_Dist):
    def rvs(self, b, loc=0, scale=1, size=None, random_state=None):
        return self._rs(random_state)._with(lambda: draws(
            "U", size, (b, loc, scale), lambda b, m, s, u: t_add(m, t_mul(s, t_pow(t_sub(1.0, u), t_div(-1, b)))),
            lambda b, m, s: z3.And(t_cmp("gt", b, 0), t_cmp("ge", s, 0)), stats=True))


class _Bernoulli(_Dist):
    def rvs(self, p, loc=0, size=None, random_state=None):
        if not (isinstance(loc, int) and loc == 0):
            raise Unsupported("shifted bernoulli")
        return self._rs(random_state)._with(lambda: draws(
            "U", size, (p,), lambda p, u: num(t_cmp("lt", u, p)),
            lambda p: z3.And(t_cmp("ge", p, 0), t_cmp("le", p, 1)), outkind="i", stats=True))


class _Poisson(_Dist):
    def rvs(self, mu, loc=0, size=None, random_state=None):
        return self._rs(random_state).poisson(mu, size)


def make_scipy():
    stats = module("scipy.stats", norm=_Norm(), truncnorm=_TruncNorm(), loguniform=_LogUniform(), reciprocal=_LogUniform(),
                   uniform=_Uniform(), lognorm=_LogNorm(), expon=_Expon(), pareto=_Pareto(), bernoulli=_Bernoulli(),
                   poisson=_Poisson())
    special = module("scipy.special", expit=UFUNCS["expit"],
                     gamma=A.ufunc("gamma", 1, lambda x: _m1("GAMMA", x), A._k_float),
                     gammaincinv=A.ufunc("gammaincinv", 2, lambda a, y: _m2("GAMMAINCINV", a, y), A._k_float),
                     gammainc=A.ufunc("gammainc", 2, lambda a, y: _m2("GAMMAINC", a, y), A._k_float),
                     gammaincc=A.ufunc("gammaincc", 2, lambda a, y: 1 - _m2("GAMMAINC", a, y), A._k_float),
                     gammainccinv=A.ufunc("gammainccinv", 2, lambda a, y: _m2("GAMMAINCINV", a, t_sub(1, y)), A._k_float),
                     ndtri=A.ufunc("ndtri", 1, lambda q: _m1("NPPF", q), A._k_float),
                     ndtr=A.ufunc("ndtr", 1, lambda q: _m1("NCDF", q), A._k_float))
    integ = module("scipy.integrate", quad=quad)
    sp = module("scipy", stats=stats, special=special, integrate=integ)
    return sp, stats, special, integ


def _as_scalar(r):
    if isinstance(r, ndarray):
        if not r._zd and not A.same_len(r._n, 1):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return r.el(z3.IntVal(0))
    return to_term(r)


def quad(f, a, b, args=(), **kw):
    if kw:
        for k in kw:
            if k not in ("limit", "epsabs", "epsrel", "full_output"):
                raise Unsupported("quad option %s" % k)
    if is_special(a) or is_special(b):
        raise Unsupported("infinite integration limits")
    if not isinstance(args, tuple):
        args = (args,)
    v = integral(lambda x: _as_scalar(f(x, *args)), to_term(a), to_term(b))
    ctx().events.append(("quad", v))
    return (mk(v), mk(ctx().fresh("quaderr", R)))


def integral(f, a, b):
    """the number INT = integral of f from a to b (f maps a Sym to a term)"""
    c = ctx()
    a, b = z3.simplify(real(a)), z3.simplify(real(b))
    x = z3.Real("#x")
    old = c.no_fork
    nax, nquant = len(c.ax), len(c.quants)
    # facts about the dummy variable hold inside the limits only; they are kept
    # apart by evaluating under its own name and never assuming its range
    t = z3.simplify(real(f(mk(x))))
    coef, core = _split(t, x)
    key = (core.get_id(), a.get_id(), b.get_id())
    c.keep.append(core)
    got = c.integrals.get(key)
    if got is None:
        for (k2, (core2, a2, b2, v2)) in list(c.integral_list):
            if a2.get_id() == a.get_id() and b2.get_id() == b.get_id():
                s = z3.Solver()
                s.set("timeout", 1500)
                s.add(c.pc + c.ax)
                s.add(x >= a, x <= b, core != core2)
                if s.check() == z3.unsat:
                    got = v2
                    break
    if got is None:
        v = c.fresh("INT", R)
        w = c.fresh("INT.w", R)
        w2 = c.fresh("INT.w", R)
        f(mk(w)), f(mk(w2))         # what is known about the function holds there too
        got = v
        c.integral_list.append((key, (core, a, b, v)))
        c.integrals[key] = v
        # the integral of a non-negative function is non-negative

        def neg(w, strict):
            fw = z3.substitute(core, (x, w))
            c.register_math(fw)
            return z3.And(w >= a, w <= b, fw < 0 if not strict else fw <= 0)
        c.axiom(z3.Or(v >= 0, b < a, neg(w, False)))
        c.axiom(z3.Implies(a == b, v == 0))
        # ... and positive if the function is positive inside
        fw = z3.substitute(core, (x, w2))
        c.register_math(fw)
        c.axiom(z3.Or(v > 0, b <= a, z3.And(w2 > a, w2 < b, fw <= 0)))
    return z3.simplify(coef * got)


def _split(t, x):
    """t = coef * core with coef free of x (common factors of products, quotients, sums and alternatives)"""
    fs, core = _factors(t, x)
    co = z3.RealVal(1)
    for (_, up), (e, n) in sorted(fs.items(), key=lambda p: (-p[0][1], p[1][0].sexpr())):
        for _ in range(n):
            co = co * e if up > 0 else co / e
    return z3.simplify(co), z3.simplify(core)


def _times(fs, gs, sign=1):
    """factors by (term, 1 above or -1 below the line); nothing is cancelled as it might be zero"""
    out = dict(fs)
    for (k, up), (e, n) in gs.items():
        key = (k, up * sign)
        out[key] = (e, out.get(key, (e, 0))[1] + n)
    return out


def _without(fs, gs):
    return {k: (e, n - gs.get(k, (e, 0))[1]) for k, (e, n) in fs.items() if n > gs.get(k, (e, 0))[1]}


def _free(t):
    """the factors of a term without x"""
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        out = {}
        for ch in t.children():
            out = _times(out, _free(ch))
        return out
    if k == z3.Z3_OP_DIV:
        return _times(_free(t.arg(0)), _free(t.arg(1)), -1)
    if k == z3.Z3_OP_UMINUS:
        return _times({("-1", 1): (z3.RealVal(-1), 1)}, _free(t.arg(0)))
    if z3.is_rational_value(t) and t.as_fraction() == 1:
        return {}
    ctx().keep.append(t)
    return {(t.get_id(), 1): (t, 1)}


def _factors(t, x):
    if not _has(t, x):
        return _free(t), z3.RealVal(1)
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        co, cs = {}, []
        for ch in t.children():
            a, r = _factors(ch, x)
            co = _times(co, a)
            if not (z3.is_rational_value(r) and r.as_fraction() == 1):
                cs.append(r)
        cs.sort(key=lambda e: e.sexpr())
        core = cs[0]
        for e in cs[1:]:
            core = core * e
        return co, core
    if k == z3.Z3_OP_DIV:
        a, r = _factors(t.arg(0), x)
        b, s = _factors(t.arg(1), x)
        return _times(a, b, -1), z3.simplify(r / s)
    if k == z3.Z3_OP_UMINUS:
        a, r = _factors(t.arg(0), x)
        return _times(a, {("-1", 1): (z3.RealVal(-1), 1)}), r
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_ITE):
        # factors that all summands or alternatives (other than zero) have in common
        n0 = 1 if k == z3.Z3_OP_ITE else 0
        parts = []
        for ch in t.children()[n0:]:
            zero = z3.is_rational_value(ch) and ch.as_fraction() == 0
            parts.append(None if zero else _factors(ch, x))
        live = [p for p in parts if p is not None]
        common = {}
        for key, (e, n) in (live[0][0] if live else {}).items():
            m = min(p[0].get(key, (e, 0))[1] for p in live)
            if m:
                common[key] = (e, m)
        if not common:
            return {}, t
        back = []
        for p in parts:
            if p is None:
                back.append(z3.RealVal(0))
                continue
            r = p[1]
            for (_, up), (e, n) in _without(p[0], common).items():
                for _ in range(n):
                    r = r * e if up > 0 else r / e
            back.append(z3.simplify(r))
        if k == z3.Z3_OP_ADD:
            core = back[0]
            for e in back[1:]:
                core = core + e
        else:
            core = z3.If(t.arg(0), back[0], back[1])
        return common, core
    return {}, t


def _has(t, x):
    st, seen = [t], set()
    while st:
        e = st.pop()
        if e.get_id() == x.get_id():
            return True
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        st.extend(e.children())
    return False


# ------------------------------------------------------------------------ the others
def numba_module():
    def jit(*a, **k):
        def deco(f):
            def g(*x, **y):
                c = ctx()
                old = c.rng
                if c.numba_stream is None:
                    c.numba_stream = ["numba", ("unseeded numba stream",), 0]
                c.rng = c.numba_stream
                try:
                    return f(*x, **y)
                finally:
                    c.rng = old
            g.__name__ = getattr(f, "__name__", "jitted")
            g.py_func = f
            return g
        if len(a) == 1 and callable(a[0]) and not k and isinstance(a[0], types.FunctionType):
            return deco(a[0])
        return deco
    t = object()
    m = module("numba", njit=jit, jit=jit, vectorize=jit, float32=t, float64=t, int64=t, int32=t, bool_=t, boolean=t,
               prange=pv_range)
    ex = module("numba.experimental", jitclass=lambda *a, **k: (a[0] if a and isinstance(a[0], type) else (lambda cls: cls)))
    m.experimental = ex
    return m, ex


class _Nothing:
    """stands for plotting and display objects that no property is about"""

    def __getattr__(self, n):
        raise Unsupported("display functions")

    def __call__(self, *a, **k):
        raise Unsupported("display functions")


def pv_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    a = [x.item() if isinstance(x, ndarray) else x for x in a]
    for x in a:
        if isinstance(x, (float, SReal)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 3 and not (isinstance(a[2], int) and a[2] == 1):
        raise Unsupported("symbolic range with a step")
    lo = num(to_term(a[0])) if len(a) > 1 else z3.IntVal(0)
    hi = num(to_term(a[1] if len(a) > 1 else a[0]))
    n = norm_len(hi - lo)
    if isinstance(n, int) and z3.is_int_value(z3.simplify(lo)):
        l0 = z3.simplify(lo).as_long()
        return range(l0, l0 + n)
    if ctx().branch(lt(n) < 0):
        n = 0
    return SymIter(n, lambda t: mk(z3.simplify(lo + t)))


class SymSet:
    """the set of the elements of an array"""
    pv_symset = True

    def __init__(self, a):
        self.a = a
        self.s = a.snap()
        c = ctx()
        self.mask = None
        v = z3.simplify(self.s(z3.Int("#m")))
        if z3.is_app(v) and v.num_args() and not c.loop_idx:
            for m in c.masks:
                if not isinstance(m, A.Composed) and v.decl().name() == m.self_f.name() and A.same_len(m.cnt, a._n) \
                        and v.get_id() == m.sel(z3.Int("#m")).get_id():
                    self.mask = m           # exactly the selected positions
                    return
        nm = c.fresh_name("member")
        sort = I if a.kind in ("i", "b") else R
        self.f = z3.Function(nm, *([I] * len(c.loop_idx)), sort, B)
        self.w = z3.Function(nm + ".at", *([I] * len(c.loop_idx)), sort, I)
        self.li = list(c.loop_idx)
        n = a._n
        c.quant(lambda i: c.axiom(z3.Implies(in_range(i, n), self.f(*(self.li + [self.s(i)])))), 1, n)

    def member(self, x):
        c = ctx()
        t = to_term(x)
        if self.mask is not None:
            c.idx(t, 0, self.mask.n)
            return z3.And(in_range(t, self.mask.n), self.mask.m(t))
        m = self.f(*(self.li + [t]))
        w = self.w(*(self.li + [t]))
        c.axiom(z3.Implies(m, z3.And(in_range(w, self.a._n), self.s(w) == t)))
        if not c.loop_idx:
            c.idx(w, 0, self.a._n)
        return m

    def __contains__(self, x):
        return ctx().branch(self.member(x))

    def __bool__(self):
        return not A.same_len(self.a._n, 0)

    def add(self, x):
        raise Unsupported("symbolic set changed")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic set")


def pv_len(x):
    if isinstance(x, (ndarray, PVList, SymIter)):
        return x.pv_len()
    if isinstance(x, Sym):
        raise TypeError("object of type 'float' has no len()")
    return len(x)


def pv_sum(x, start=0):
    if isinstance(x, PVList) and x.sym is not None:
        x = x.to_array()
    if isinstance(x, ndarray):
        r = UFUNCS["add"].reduce(x.view(ndarray))
        return r + start if not (isinstance(start, int) and start == 0) else r
    r = start
    for y in x:
        r = r + y
    return r


def _minmax(name, native):
    def f(*a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, PVList) and x.sym is not None:
                x = x.to_array()
            if isinstance(x, ndarray):
                if k:
                    raise Unsupported("max with options")
                if x._zd:
                    raise TypeError("iteration over a 0-d array")
                return UFUNCS["maximum" if name == "max" else "minimum"].reduce(x.view(ndarray))
            a = list(x)
            if not a:
                if "default" in k:
                    return k["default"]
                raise ValueError("%s() arg is an empty sequence" % name)
        key = k.get("key") or (lambda z: z)
        best = a[0]
        for y in a[1:]:
            if key is None or k.get("key") is None:
                if all(isinstance(z, (Sym, int, float)) for z in (best, y)) and any(isinstance(z, Sym) for z in (best, y)):
                    best = mk(A.t_max(_r(y), _r(best)) if name == "max" else A.t_min(_r(y), _r(best)))
                    continue
            if (key(y) > key(best)) if name == "max" else (key(y) < key(best)):
                best = y
        return best
    return f


def _r(x):
    return x.t if isinstance(x, Sym) else x


def pv_isinstance(x, t):
    if isinstance(t, tuple):
        return any(pv_isinstance(x, y) for y in t)
    if isinstance(x, Sym):
        if isinstance(x, SReal):
            return t in (float, object) or (x.np and t in (A.float64, A.floating, A.number, A.generic))
        if isinstance(x, SInt):
            return t is object or (t is int and not x.np) or (x.np and t in (A.int64, A.integer, A.number, A.generic))
        return t is object or (t in (bool, int) and not x.np) or (x.np and t in (A.bool_, A.generic))
    if isinstance(x, SymSet):
        return t in (set, object)
    return isinstance(x, t)


def pv_float(x=0.0):
    if isinstance(x, ndarray):
        x = x.item()
    if isinstance(x, Sym):
        return mk(A.cast_term(x.t, "f"))
    return float(x)


def pv_int(x=0, *a):
    if isinstance(x, ndarray):
        x = x.item()
    if isinstance(x, Sym):
        return mk(A.cast_term(x.t, "i"))
    return int(x, *a)


def pv_bool(x=False):
    if isinstance(x, Sym):
        return mk(t_bool(x.t))
    if isinstance(x, (ndarray, PVList)):
        return x.__bool__()
    return bool(x)


def pv_str(x="", *a):
    if isinstance(x, Sym):
        return "<sym>"
    return str(x, *a)


def pv_any_all(neg):
    def f(x):
        if isinstance(x, PVList) and x.sym is not None:
            x = x.to_array()
        if isinstance(x, ndarray):
            return UFUNCS["logical_or" if neg else "logical_and"].reduce(x.view(ndarray))
        for y in x:
            if bool(y) == neg:
                return neg
        return not neg
    return f


def pv_enumerate(x, start=0):
    it = sym_iter(x)
    if it is not None:
        return SymIter(it.n, lambda t: (mk(z3.simplify(t + to_term(start))), it.item_at(t)))
    return enumerate(x, start)


def pv_zip(*xs):
    its = [sym_iter(x) for x in xs]
    if any(i is not None for i in its):
        if any(i is None for i in its):
            raise Unsupported("zip of symbolic and concrete sequences")
        n = its[0].n
        for i in its[1:]:
            if not A.same_len(n, i.n):
                raise Unsupported("zip of sequences of different lengths")
        return SymIter(n, lambda t: tuple(i.item_at(t) for i in its))
    return zip(*xs)


def pv_sorted(x, **k):
    if sym_iter(x) is not None:
        raise Unsupported("sorted symbolic sequence")
    return sorted(x, **k)


def pv_list(*a):
    if a:
        it = sym_iter(a[0])
        if it is not None:
            if isinstance(a[0], ndarray):
                return PVList.of_array(a[0])
            l = PVList()
            it0 = it.item_at(z3.Int("#m"))
            kind = A.kind_of_scalar(it0)
            l.sym = (it.n, kind, lambda i: A.cast_term(to_term(it.item_at(i)), kind))
            return l
        return PVList(list(a[0]))
    return PVList()


def pv_tuple(*a):
    if a and sym_iter(a[0]) is not None:
        raise Unsupported("tuple of a symbolic sequence")
    return tuple(*a)


def pv_set(*a):
    if a:
        if isinstance(a[0], PVList) and a[0].sym is not None:
            return SymSet(a[0].to_array())
        if isinstance(a[0], ndarray):
            if isinstance(a[0]._n, int):
                if all(z3.is_int_value(z3.simplify(a[0].el(z3.IntVal(k)))) for k in range(a[0]._n)):
                    return set(a[0])
            return SymSet(a[0])
        if sym_iter(a[0]) is not None:
            raise Unsupported("set of a symbolic sequence")
    return set(*a)


def pv_in(x, s):
    if isinstance(s, SymSet):
        return mk(s.member(x))
    if isinstance(s, PVList) and s.sym is not None:
        return mk(SymSet(s.to_array()).member(x))
    if isinstance(x, Sym) and isinstance(s, (set, frozenset, dict, list, tuple, range)):
        if isinstance(s, range):
            if s.step == 1:
                return mk(z3.And(num(x.t) >= s.start, num(x.t) < s.stop))
        for y in s:
            if isinstance(y, (Sym, int, float)) and bool(x == y):
                return True
        return False
    return x in s


CONVERSION = re.compile(r"%(?:%|(?P<plain>[sdi])|[^a-zA-Z%]*[a-zA-Z])")


def pv_mod(a, b):
    if isinstance(a, (str, bytes)):
        xs = list(b) if isinstance(b, tuple) else [b]
        if any(isinstance(x, Sym) for x in xs):
            if isinstance(a, bytes) or "%(" in a or "*" in a:
                raise Unsupported("this kind of formatting of a symbolic value")
            k = iter(range(len(xs)))

            def place(m):
                if m.group(0) == "%%":
                    return m.group(0)
                i = next(k, None)
                if i is not None and isinstance(xs[i], Sym):
                    xs[i] = str(xs[i]) if m.group("plain") else format(xs[i], m.group(0)[1:])
                    return "%s"
                return m.group(0)
            a = CONVERSION.sub(place, a)
        return a % tuple(xs) if isinstance(b, tuple) else a % xs[0]
    return a % b


def pv_round(x, n=None):
    if isinstance(x, (Sym, ndarray)):
        raise Unsupported("round")
    return round(x, n) if n is not None else round(x)


def pv_abs(x):
    return abs(x)


def pv_map(f, *xs):
    if any(sym_iter(x) is not None for x in xs):
        raise Unsupported("map over a symbolic sequence")
    return map(f, *xs)


def pv_filter(f, x):
    if sym_iter(x) is not None:
        raise Unsupported("filter of a symbolic sequence")
    return filter(f, x)


def pv_reversed(x):
    it = sym_iter(x)
    if it is not None:
        return SymIter(it.n, lambda t: it.item_at(z3.simplify(lt(it.n) - 1 - t)))
    return reversed(x)


def pv_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


def pv_divmod(a, b):
    if isinstance(a, ndarray) or isinstance(b, ndarray):
        return divmod(a, b)
    return (a // b, a % b)


def pv_open(name, mode="r", *a, **k):
    c = ctx()
    name = str(name)
    if "w" in mode:
        buf = _File(name)
        return buf
    if name not in c.fs:
        raise FileNotFoundError(name)
    f = io.StringIO()
    f.pv_name = name
    return _Opened(name)


class _File:
    def __init__(self, name):
        self.name = name
        self.obj = None
        ctx().fs[name] = self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, s):
        self.obj = ("text", s)


class _Opened:
    def __init__(self, name):
        self.name = name
        self.src = ctx().fs[name]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def pv_print(*a, **k):
    return None


def pv_iter(x):
    it = sym_iter(x)
    return it if it is not None else x


def pv_symiter(x):
    return sym_iter(x) is not None


def pv_claim(f):
    """the condition of an assert statement: proved where possible"""
    c = ctx()
    c.claiming += 1
    try:
        return bool(f())
    finally:
        c.claiming -= 1


def pv_comp(it, f, cond, arity):
    """[f(x) for x in it if cond(x)] over a symbolic number of items"""
    si = sym_iter(it)
    c = ctx()

    def app(g, t):
        x = si.item_at(t)
        c2 = ctx()
        c2.no_fork += 1
        try:
            return g(*x) if arity else g(x)
        finally:
            c2.no_fork -= 1
    with c.no_idx():
        v0 = app(f, z3.Int("#m"))
    if not isinstance(v0, (Sym, int, float)):
        raise Unsupported("comprehension of objects")
    kind = A.kind_of_scalar(v0)
    r0 = c.rng[2]

    def el(t):
        return A.cast_term(to_term(app(f, t)), kind)
    l = PVList()
    if cond is None:
        l.sym = (si.n, kind, A.memo(el))
    else:
        m = A.get_mask(si.n, lambda t: t_bool(_r(app(cond, t))))
        l.sym = (norm_len(m.cnt), kind, A.memo(lambda k: el(m.sel(k))))
    if c.rng[2] != r0:
        raise Unsupported("random draws in a comprehension")
    return l


def pv_newlist(l):
    return PVList(l)


def pv_setattr(o, n, v):
    c = ctx()
    if c.in_nested is not None or c.while_depth:
        cur = getattr(o, "__dict__", {}).get(n, Poison) if not isinstance(o, type) else Poison
        same = cur is v
        if not same and type(cur) is type(v) and isinstance(v, (str, int, float, bool, type(None))):
            same = cur == v
        if not same:
            raise Unsupported("attribute %s assigned in a symbolic loop" % n)
    setattr(o, n, v)


def pv_setitem(o, k, v):
    c = ctx()
    if (c.in_nested is not None or c.while_depth) and isinstance(o, dict):
        cur = o.get(k, Poison)
        if cur is not v and not (isinstance(cur, (Sym, int, float)) and isinstance(v, Sym) and isinstance(cur, Sym)
                                 and cur.t.get_id() == v.t.get_id()):
            raise Unsupported("dictionary changed in a symbolic loop")
    o[k] = v


def pv_mut(o, n):
    c = ctx()
    if (c.in_nested is not None or c.while_depth) and type(o) in (dict, list, set):
        raise Unsupported("container changed in a symbolic loop")
    return getattr(o, n)


def pv_unsupported(w):
    raise Unsupported(w)


def pv_enter(n):
    c = _cur()
    if c is not None:
        c.shared.covered.add(n)


def _cur():
    from .core import _CUR
    return _CUR[0]


BUILTINS = {
    "pv__len": pv_len, "pv__range": pv_range, "pv__sum": pv_sum, "pv__max": _minmax("max", max),
    "pv__min": _minmax("min", min), "pv__isinstance": pv_isinstance, "pv__float": pv_float, "pv__int": pv_int,
    "pv__bool": pv_bool, "pv__enumerate": pv_enumerate, "pv__zip": pv_zip, "pv__any": pv_any_all(True),
    "pv__all": pv_any_all(False), "pv__sorted": pv_sorted, "pv__list": pv_list, "pv__tuple": pv_tuple,
    "pv__set": pv_set, "pv__round": pv_round, "pv__reversed": pv_reversed, "pv__open": pv_open, "pv__str": pv_str,
    "pv__abs": pv_abs, "pv__map": pv_map, "pv__filter": pv_filter, "pv__dict": dict, "pv__print": pv_print,
    "pv__pow": pv_pow, "pv__divmod": pv_divmod, "pv__iter": pv_iter, "pv__symiter": pv_symiter,
    "pv__comp": pv_comp, "pv__claim": pv_claim, "pv__newlist": pv_newlist, "pv__mod": pv_mod, "pv__in": pv_in,
    "pv__setattr": pv_setattr, "pv__setitem": pv_setitem, "pv__mut": pv_mut, "pv__forloop": ForLoop,
    "pv__while": WhileLoop, "pv__unsupported": pv_unsupported, "pv__enter": pv_enter,
}


# --------------------------------------------------------------------------- logging
LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARN": 30, "WARNING": 30, "INFO": 20, "DEBUG": 10, "NOTSET": 0}


def _level(x):
    if isinstance(x, (int, SInt)):
        return x
    if isinstance(x, str):
        if x not in LEVELS:
            raise ValueError("Unknown level: %r" % x)
        return LEVELS[x]
    raise TypeError("Level not an integer or a valid string: %r" % (x,))


class Filterer:
    def __init__(self):
        self.filters = []

    def addFilter(self, f):
        if not any(x is f for x in self.filters):
            self.filters.append(f)

    def removeFilter(self, f):
        self.filters = [x for x in self.filters if x is not f]

    def filter(self, record):
        for f in self.filters:
            r = f.filter(record) if hasattr(f, "filter") else f(record)
            if not r:
                return False
        return True


class Handler(Filterer):
    def __init__(self, level=0):
        super().__init__()
        self.level = _level(level)
        self.formatter = None
        self.out = []

    def setLevel(self, l):
        self.level = _level(l)

    def setFormatter(self, f):
        self.formatter = f

    def handle(self, record):
        if self.filter(record):
            self.emit(record)

    def emit(self, record):
        self.out.append(record.levelno)

    def close(self):
        pass

    def flush(self):
        pass


class Record:
    def __init__(self, name, levelno, msg):
        self.name, self.levelno, self.msg = name, levelno, msg
        self.levelname = {v: k for k, v in LEVELS.items()}.get(levelno, "") if isinstance(levelno, int) else ""

    def getMessage(self):
        return self.msg


class StreamHandler(Handler):
    def __init__(self, stream=None):
        super().__init__()


class TimedRotatingFileHandler(Handler):
    def __init__(self, *a, **k):
        super().__init__()


class Formatter:
    def __init__(self, *a, **k):
        pass

    def format(self, r):
        return r.getMessage()


class Logger(Filterer):
    def __init__(self, name):
        super().__init__()
        self.name = name
        self.level = 30
        self.handlers = []
        self.propagate = True

    def setLevel(self, l):
        self.level = _level(l)

    def addHandler(self, h):
        if not any(x is h for x in self.handlers):
            self.handlers.append(h)

    def removeHandler(self, h):
        self.handlers = [x for x in self.handlers if x is not h]

    def log(self, lvl, msg, *a, **k):
        if isinstance(msg, str) and a:
            pv_mod(msg, a)
        if lvl < self.level:
            return
        c = _cur()
        if c is not None and not c.logging_on:
            return
        r = Record(self.name, lvl, msg)
        for h in self.handlers:
            if lvl >= h.level:
                h.handle(r)

    def isEnabledFor(self, lvl):
        return lvl >= self.level

    def debug(self, m, *a, **k): self.log(10, m, *a)
    def info(self, m, *a, **k): self.log(20, m, *a)
    def warning(self, m, *a, **k): self.log(30, m, *a)
    warn = warning
    def error(self, m, *a, **k): self.log(40, m, *a)
    exception = error
    def critical(self, m, *a, **k): self.log(50, m, *a)


def make_logging():
    loggers = {}

    def getLogger(name=None):
        if name not in loggers:
            loggers[name] = Logger(name)
        return loggers[name]
    h = module("logging.handlers", TimedRotatingFileHandler=TimedRotatingFileHandler)
    m = module("logging", getLogger=getLogger, Handler=Handler, StreamHandler=StreamHandler, Formatter=Formatter,
               Logger=Logger, handlers=h, Filter=object, **{k: v for k, v in LEVELS.items()})
    m.loggers = loggers
    return m, h


# --------------------------------------------------------------------- configuration
class ConfDict(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        if n not in self:
            raise AttributeError("Key '%s' not in 'PopSynthConfig'" % n)
        self[n] = v


def _structured(cls):
    import dataclasses
    inst = cls() if isinstance(cls, type) else cls
    d = ConfDict()
    for f in dataclasses.fields(inst):
        v = getattr(inst, f.name)
        d[f.name] = _structured(v) if dataclasses.is_dataclass(v) else v
    return d


def _merge(a, *bs):
    for b in bs:
        for k, v in (b or {}).items():
            if isinstance(v, dict) and isinstance(a.get(k), dict):
                _merge(a[k], v)
            else:
                a[k] = v
    return a


class OmegaConf:
    structured = staticmethod(_structured)
    merge = staticmethod(_merge)

    @staticmethod
    def load(f):
        return {}

    @staticmethod
    def save(config=None, f=None, **k):
        pass


# ---------------------------------------------------------------------------- astropy
class _Angle:
    def __init__(self, deg):
        self.deg = deg
        self.degree = deg

    @property
    def value(self):
        return self.deg

    @property
    def rad(self):
        return UFUNCS["deg2rad"](self.deg)


class _Gal:
    def __init__(self, ra, dec):
        self.b = _Angle(A.ufunc("galb", 2, lambda a, d: _m2("GALB", a, d), A._k_float)(ra, dec))
        self._ra, self._dec = ra, dec

    @property
    def l(self):
        raise Unsupported("galactic longitude")


class SkyCoord:
    def __init__(self, ra=None, dec=None, unit=None, frame="icrs", **k):
        if k or frame != "icrs":
            raise Unsupported("SkyCoord options")
        if unit not in ("deg", "degree", ("deg", "deg")):
            if unit in ("rad", "radian"):
                ra, dec = UFUNCS["rad2deg"](ra), UFUNCS["rad2deg"](dec)
            else:
                raise Unsupported("SkyCoord unit")
        self.ra_, self.dec_ = ra, dec

    @property
    def galactic(self):
        return _Gal(self.ra_, self.dec_)


class _C:
    value = 299792458.0


class _WMAP9:
    Onu0 = 3.550493060434566e-05
    Ogamma0 = 5.142614341364592e-05


# ------------------------------------------------------------------------------- yaml
YAML_OK = (str, int, float, bool, type(None))


def _yaml_rep(x):
    """what SafeDumper can represent, as SafeLoader reads it back"""
    if isinstance(x, Sym):
        if x.np:
            raise RuntimeError("cannot represent an object (numpy scalar)")
        return x
    if type(x) in YAML_OK:
        return x
    if type(x) is dict:
        return {_yaml_rep(k): _yaml_rep(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if type(x) in (list, tuple, PVList):
        return [_yaml_rep(v) for v in x]
    raise RuntimeError("cannot represent an object of type %s" % type(x).__name__)


def make_yaml():
    SafeDumper, SafeLoader = object(), object()

    def dump(data, stream=None, Dumper=None, default_flow_style=False, sort_keys=True, **k):
        if Dumper is not SafeDumper:
            raise Unsupported("yaml dumper")
        r = _yaml_rep(data)
        if not sort_keys:
            r = _yaml_unsorted(data)
        if stream is None:
            raise Unsupported("yaml string")
        stream.obj = ("yaml", r)

    def load(stream, Loader=None):
        if not hasattr(stream, "src"):
            raise Unsupported("yaml from a string")
        import copy
        o = stream.src.obj
        if o is None or o[0] != "yaml":
            raise Unsupported("yaml text")
        return _deep(o[1])
    return module("yaml", SafeDumper=SafeDumper, SafeLoader=SafeLoader, FullLoader=SafeLoader, Loader=SafeLoader, dump=dump, load=load,
                  safe_dump=lambda d, s=None, **k: dump(d, s, SafeDumper, **k), safe_load=lambda s: load(s))


def _yaml_unsorted(x):
    if type(x) is dict:
        return {k: _yaml_unsorted(v) for k, v in x.items()}
    if type(x) in (list, tuple, PVList):
        return [_yaml_unsorted(v) for v in x]
    return x


def _deep(x):
    if isinstance(x, dict):
        return {k: _deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return PVList([_deep(v) for v in x])
    return x


class Tqdm:
    def __new__(cls, it=None, *a, **k):
        if it is None:
            o = object.__new__(cls)
            return o
        return it

    def update(self, *a):
        pass

    def set_description(self, *a, **k):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def make_shims():
    np_, rnd, typ = make_numpy()
    sp, stats, special, integ = make_scipy()
    nb, nbx = numba_module()
    lg, lh = make_logging()
    no = _Nothing()
    from . import h5shim
    h5 = h5shim.make()
    style = types.SimpleNamespace(**{k: "" for k in "RESET_ALL BRIGHT DIM NORMAL CYAN GREEN YELLOW RED WHITE BLUE".split()})
    ipd = module("IPython.display", Markdown=no, Math=no, display=no)
    tq = module("tqdm.auto", tqdm=Tqdm)
    mpl = module("matplotlib", pyplot=no)
    ac = module("astropy.constants", c=_C)
    acos = module("astropy.cosmology", WMAP9=_WMAP9)
    aco = module("astropy.coordinates", SkyCoord=SkyCoord)
    return {
        "numpy": np_, "numpy.random": rnd, "numpy.typing": typ, "scipy": sp, "scipy.stats": stats,
        "scipy.special": special, "scipy.integrate": integ, "numba": nb, "numba.experimental": nbx, "logging": lg,
        "logging.handlers": lh, "omegaconf": module("omegaconf", OmegaConf=OmegaConf), "colorama": module(
            "colorama", deinit=lambda: None, init=lambda **k: None, Back=style, Fore=style, Style=style),
        "IPython": module("IPython", display=ipd), "IPython.display": ipd, "tqdm": module("tqdm", auto=tq, tqdm=Tqdm),
        "tqdm.auto": tq, "pandas": module("pandas", DataFrame=no), "matplotlib": mpl, "matplotlib.pyplot": module("matplotlib.pyplot"),
        "ipyvolume": module("ipyvolume"), "pythreejs": module("pythreejs"),
        "betagen": module("betagen", betagen=lambda *a: ("",) * 6), "astropy": module("astropy", constants=ac, cosmology=acos, coordinates=aco),
        "astropy.constants": ac, "astropy.cosmology": acos, "astropy.coordinates": aco, "yaml": make_yaml(),
        "pkg_resources": module("pkg_resources", resource_filename=lambda a, b: "/nonexistent/" + b),
        "h5py": h5,
    }
