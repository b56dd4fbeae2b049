"""popver arrays: a shim of numpy's ndarray with symbolic length.

An array is a view (offset, length) of a Buffer.  A Buffer maps an index term
to the term of the element; in-place writes replace that map.
"""
import builtins
import math
from fractions import Fraction

import z3

from .core import (ctx, Sym, SReal, SInt, SBool, mk, to_term, is_term, num, real, fp_of, Unsupported, is_special,
                   t_add, t_sub, t_mul, t_div, t_neg, t_cmp, t_bool, t_ite, t_abs, t_int, t_min, t_max, t_exp,
                   t_log, t_log10, t_sqrt, t_pow, t_expit, t_floordiv, t_mod, _m1, _m2, PI, FP64, I, R, B)


# ------------------------------------------------------------------------- dtypes
class DType:
    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.char = kind
        self.names = None

    @property
    def type(self):
        return _TYPES[self.kind]

    @property
    def itemsize(self):
        return 1 if self.kind == "b" else 8

    def __eq__(self, o):
        try:
            return self.kind == as_dtype(o).kind
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "dtype('%s')" % self.name

    __str__ = lambda self: self.name


F8, I8, B1, FPD, OBJ, STR = (DType("f", "float64"), DType("i", "int64"), DType("b", "bool"), DType("fp", "float64"),
                             DType("O", "object"), DType("S", "|S1"))
_BYKIND = {"f": F8, "i": I8, "b": B1, "fp": FPD, "O": OBJ, "S": STR}


class generic:
    pass


class number(generic):
    pass


class integer(number):
    pass


class floating(number):
    pass


def _scalar_new(kind):
    def __new__(cls, x=0):
        if isinstance(x, ndarray):
            return x.astype(_BYKIND[kind])
        if isinstance(x, str):
            x = float(x) if kind == "f" else int(x)
        if is_special(x):
            return x
        return mk(cast_term(to_term(x), kind), True)
    return __new__


class float64(floating):
    __new__ = _scalar_new("f")


class int64(integer):
    __new__ = _scalar_new("i")


class bool_(generic):
    __new__ = _scalar_new("b")


_TYPES = {"f": float64, "i": int64, "b": bool_, "fp": float64}


def as_dtype(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d
    if d in (float, float64, floating) or d in ("f8", "float", "float64", "d", "<f8"):
        return F8
    if d in (int, int64, integer) or d in ("i8", "int", "int64", "<i8"):
        return I8
    if d in (bool, bool_) or d in ("bool", "?", "b1"):
        return B1
    if d is object:
        return OBJ
    raise Unsupported("dtype %r" % (d,))


def dtype_of_term(t):
    if z3.is_bool(t):
        return B1
    if z3.is_int(t):
        return I8
    if z3.is_fp(t):
        return FPD
    return F8


def cast_term(t, kind):
    if kind == "f":
        if z3.is_fp(t):
            return t
        return real(t)
    if kind == "i":
        return t_int(t)
    if kind == "b":
        return t_bool(t)
    if kind == "fp":
        return fp_of(mk(t)) if not z3.is_fp(t) else t
    raise Unsupported("cast to %s" % kind)


_RANK = {"b": 0, "i": 1, "f": 2, "fp": 3}


def promote(*kinds):
    return max(kinds, key=lambda k: _RANK[k])


def kind_of_scalar(x):
    if isinstance(x, Sym):
        return dtype_of_term(x.t).kind
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    if isinstance(x, (float, Fraction)):
        return "f"
    raise Unsupported("array element of type %s" % type(x).__name__)


# ------------------------------------------------------------------ lengths, indices
def norm_len(n):
    """SInt / int / term -> python int or simplified term"""
    if isinstance(n, Sym):
        n = n.t
    if is_term(n):
        if z3.is_bool(n):
            n = num(n)
        if z3.is_real(n):
            raise TypeError("'float' object cannot be interpreted as an integer")
        n = z3.simplify(n)
        if z3.is_int_value(n):
            return n.as_long()
        return n
    if isinstance(n, bool):
        return int(n)
    if isinstance(n, int):
        return n
    if isinstance(n, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    raise Unsupported("length %r" % (n,))


def lt(n):
    return n if is_term(n) else z3.IntVal(n)


def len_value(n):
    return mk(n) if is_term(n) else n


def same_len(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = z3.simplify(lt(a) == lt(b))
    if z3.is_true(d):
        return True
    return ctx().branch(d)


def in_range(i, n):
    return z3.And(i >= 0, i < lt(n))


# -------------------------------------------------------------------------- buffers
class Buffer:
    __slots__ = ("n", "kind", "elem", "key", "frozen", "objs", "__weakref__")

    def __init__(self, n, kind, elem, objs=None):
        self.n, self.kind = n, kind
        self.elem = memo(elem, self.n)
        self.frozen = False
        self.objs = objs
        c = ctx()
        c.nbuf = getattr(c, "nbuf", 0) + 1
        self.key = c.nbuf
        c.buffers[self.key] = self

    def write(self, elem, what=None):
        if self.frozen:
            raise Unsupported("write to an array with strided views")
        c = ctx()
        if c.in_nested is not None:
            c.in_nested.buffer_write(self, what)
        self.elem = memo(elem, self.n)


def memo(f, n=None):
    cache = {}

    def g(i):
        c = ctx()
        k = (i.get_id(), c.guard_key())
        r = cache.get(k)
        if r is None:
            c.idx(i, 0, n)
            r = cache[k] = (f(i), i)
        return r[0]
    g.raw = f
    return g


def const_elem(t):
    return lambda i: t


# ---------------------------------------------------------------------------- masks
def witnesses(term):
    """the numbers counted in a term are to be decided by example"""
    c = ctx()
    todo, done = [term], set()
    while todo:
        t = todo.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        if z3.is_app(t):
            mk = c.mask_by_name.get(t.decl().name())
            if mk is not None:
                mk.witness()
            todo.extend(t.children())


class Mask:
    """ghost functions of a boolean map m on [0, n)"""

    def __init__(self, n, m, key):
        c = ctx()
        self.n, self.m = n, m
        base = c.fresh_name("mask")
        li = list(c.loop_idx)
        self.rankf = z3.Function(base + ".rank", *([I] * (len(li) + 1)), I)
        self.self_f = z3.Function(base + ".sel", *([I] * (len(li) + 1)), I)
        self.li = li
        self.active = False
        self.cnt = self.rankf(*(li + [lt(n)]))
        self.base = base
        self.comp = None
        c.axiom(z3.And(self.cnt >= 0, self.cnt <= lt(n)))
        if isinstance(n, int) and n <= 8:
            ts = []
            for j in range(n):
                t = m(z3.IntVal(j))
                ts.append(num(t))
                c.idx(z3.IntVal(j), 0, n)
            c.axiom(self.cnt == (sum(ts[1:], ts[0]) if ts else 0))
        if key is not None and z3.is_true(key):
            c.axiom(self.cnt == lt(n))
        elif key is not None and z3.is_false(key):
            c.axiom(self.cnt == 0)
        c.quant(self._count_at, 1, n)
        self.seen = isinstance(n, int) and n <= 8
        c.mask_by_name[self.rankf.name()] = self

    def witness(self):
        """somebody is left out unless all are counted, somebody is counted unless the number is zero"""
        if self.seen:
            return
        self.seen = True
        c, li, n, m = ctx(), self.li, self.n, self.m
        wf = [z3.Function(self.base + tag, *([I] * (len(li) + 1))) if li else z3.Int(self.base + tag) for tag in (".out", ".in")]
        out, inn = [w(*li) if li else w for w in wf]
        mo, mi = m(out), m(inn)
        c.axiom(z3.Or(self.cnt == lt(n), z3.And(out >= 0, out < lt(n), z3.Not(mo))))
        c.axiom(z3.Or(self.cnt == 0, z3.And(inn >= 0, inn < lt(n), mi)))
        witnesses(mo)

    def _count_at(self, i):
        """facts about the number alone"""
        if self.active:
            return
        c = ctx()
        mi = self.m(i)
        c.axiom(z3.Implies(in_range(i, self.n), z3.And(z3.Implies(mi, self.cnt >= 1),
                                                       z3.Implies(z3.Not(mi), self.cnt <= lt(self.n) - 1))))

    def activate(self):
        """positions are needed: the ghost functions get their meaning"""
        if self.active:
            return
        self.active = True
        c = ctx()
        c.axiom(self.rankf(*(self.li + [z3.IntVal(0)])) == 0)
        self.ranks, self.sels = [], []
        c.quant(self._rank_at, 1, self.n)
        c.quant(self._sel_at, 1, self.cnt)
        c.idx(z3.IntVal(0), 0, self.n)
        c.idx(z3.IntVal(0), 0, self.cnt)

    def rank(self, i):
        self.activate()
        return self.rankf(*(self.li + [i]))

    def rawrank(self, i):
        return self.rankf(*(self.li + [i]))

    def sel(self, k):
        self.activate()
        return self.self_f(*(self.li + [k]))

    def _rank_at(self, i):
        """facts about the position i of the map"""
        c = ctx()
        mi = self.m(i)
        r = self.rank(i)
        rng = in_range(i, self.n)
        c.axiom(z3.Implies(z3.And(rng, mi), z3.And(r >= 0, r < self.cnt, self.sel(r) == i)))
        c.axiom(z3.Implies(z3.And(i >= 0, i <= lt(self.n)), z3.And(r >= 0, r <= i, r <= self.cnt)))
        c.axiom(z3.Implies(rng, self.rank(i + 1) == r + num(mi)))
        c.axiom(z3.Implies(z3.And(rng, self.cnt == lt(self.n)), z3.And(mi, r == i)))
        for j in self.ranks:
            for x, y in ((i, j), (j, i)):
                c.axiom(z3.Implies(z3.And(x >= 0, y >= 0, x <= lt(self.n), y <= lt(self.n), x <= y),
                                   self.rank(x) <= self.rank(y)))
        self.ranks.append(i)
        for o in c.masks:
            if o is not self and o.active and (o.comp is self or self.comp is o):
                c.axiom(z3.Implies(z3.And(i >= 0, i <= lt(self.n)), r + o.rank(i) == i))

    def _sel_at(self, i):
        """facts about the i-th true position"""
        c = ctx()
        s = self.sel(i)
        ms = self.m(s)
        c.axiom(z3.Implies(z3.And(i >= 0, i < self.cnt),
                           z3.And(s >= i, s < lt(self.n), ms, self.rank(s) == i)))
        c.axiom(z3.Implies(z3.And(i >= 0, i + 1 < self.cnt), s < self.sel(i + 1)))
        for j in self.sels:
            sj = self.sel(j)
            c.axiom(z3.Implies(z3.And(i >= 0, j >= 0, i < self.cnt, j < self.cnt), (i < j) == (s < sj)))
        self.sels.append(i)


class Trivial:
    """everything or nothing is selected: the i-th selected object is object i"""
    active, seen, comp = True, True, None

    def __init__(self, n, elem, every):
        c = ctx()
        self.n, self.m, self.every = n, elem, every
        self.ranks, self.sels = [], []
        self.li = list(c.loop_idx)
        self.base = c.fresh_name("mask")
        self.rankf = z3.Function(self.base + ".rank", *([I] * (len(self.li) + 1)), I)
        self.self_f = z3.Function(self.base + ".sel", *([I] * (len(self.li) + 1)), I)
        self.cnt = lt(n) if every else z3.IntVal(0)

    def witness(self):
        pass

    def activate(self):
        pass

    def rank(self, i):
        ctx().idx(i, 0, self.n)
        return i if self.every else z3.IntVal(0)

    rawrank = rank

    def sel(self, k):
        ctx().idx(k, 0, self.cnt)
        return k


class Composed:
    """a selection B among the objects selected by S: selected(i) == S(i) and B(rank of i in S)"""
    active, seen, comp = True, True, None

    def __init__(self, n, elem, S, B):
        self.n, self.m, self.S, self.B = n, elem, S, B
        self.ranks, self.sels = [], []
        self.li, self.base, self.rankf = S.li, "%s&%s" % (S.base, B.base), B.rankf
        self.cnt = B.cnt

    def witness(self):
        self.B.witness()

    def activate(self):
        self.S.activate()
        self.B.activate()

    def rank(self, i):
        r = mask_simplify(self.S.rank(i))
        ctx().idx(i, 0, self.n)
        ctx().idx(r, 0, self.S.cnt)
        return self.B.rank(r)

    rawrank = rank

    def sel(self, k):
        r = self.B.sel(k)
        ctx().idx(k, 0, self.B.cnt)
        ctx().idx(r, 0, self.S.cnt)
        return self.S.sel(r)


def mask_simplify(e):
    """the rank of the k-th selected object is k (the ghost functions are free outside of their ranges)"""
    c = ctx()
    if not c.mask_by_name or not z3.is_app(e):
        return e
    done = {}

    def go(t):
        i = t.get_id()
        if i in done:
            return done[i]
        r = t
        if z3.is_app(t) and t.num_args():
            ch = [go(x) for x in t.children()]
            m = c.mask_by_name.get(t.decl().name()) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if m is not None and z3.is_app(ch[-1]) and ch[-1].num_args() == len(ch) and \
                    ch[-1].decl().name() == m.self_f.name() and \
                    all(x.get_id() == y.get_id() for x, y in zip(ch[:-1], ch[-1].children()[:-1])):
                r = ch[-1].children()[-1]
            elif any(x.get_id() != y.get_id() for x, y in zip(ch, t.children())):
                r = t.decl()(*ch)
        done[i] = r
        c.keep.append(t)
        return r
    return go(e)


def _composed(n, elem, t, canon):
    """does the map select by the position among the objects selected by another one?"""
    c = ctx()
    if not c.mask_by_name:
        return None
    names = c._syms(t)
    for S in list(c.masks):
        if isinstance(S, (Composed, Trivial)) or not S.active or str(S.n) != str(n) or S.rankf.name() not in names \
                or S.li != list(c.loop_idx):
            continue
        if c._check(in_range(canon, n), t, z3.Not(S.canon)) != z3.unsat:
            continue

        def among(j, S=S):
            x = z3.substitute(t, (canon, S.sel(j)))
            x = mask_simplify(x)
            # S holds at its own positions
            own = z3.simplify(z3.substitute(S.canon, (canon, S.sel(j))))
            parts = [own] + (own.children() if z3.is_and(own) else [])
            return z3.simplify(z3.substitute(z3.simplify(x), *[(p, z3.BoolVal(True)) for p in parts if not z3.is_true(p)]))
        sc = S.sel(canon)
        c.axiom(z3.Implies(in_range(canon, S.cnt), z3.And(in_range(sc, n), S.rank(sc) == canon,
                                                                   z3.substitute(S.canon, (canon, sc)))))
        B = get_mask(norm_len(S.cnt), among)
        return Composed(n, elem, S, B)
    return None


def get_mask(n, elem):
    """the Mask object of a boolean map (shared by equal maps)"""
    c = ctx()
    canon = z3.Int("#m")
    with c.no_idx():
        t = z3.simplify(elem(canon))
    key = (t.get_id(), str(n), len(c.loop_idx))
    got = c.mask_by.get(key)
    if got is not None:
        return got
    c.keep.append(t)
    for o in c.masks:
        if str(o.n) == str(n) and o.canon is not None:
            if z3.is_true(z3.simplify(o.canon == t)):
                c.mask_by[key] = o
                return o
            # semantic equality
            if o.li == list(c.loop_idx) and c.equal_maps(o.canon, t, canon, n):
                c.mask_by[key] = o
                return o
    if z3.is_true(t) or z3.is_false(t):
        m = Trivial(n, elem, z3.is_true(t))
    else:
        m = _composed(n, elem, t, canon) or Mask(n, elem, t)
    m.canon = t
    if isinstance(m, (Composed, Trivial)):
        c.masks.append(m)
        c.mask_by[key] = m
        return m
    nt = z3.simplify(z3.Not(t))
    for o in c.masks:
        if str(o.n) == str(n) and o.li == m.li:
            if nt.get_id() == o.canon.get_id() or c.equal_maps(o.canon, nt, canon, n):
                m.comp = o
                o.comp = o.comp or m
                c.axiom(m.cnt + o.cnt == lt(n))
                break
    c.masks.append(m)
    c.mask_by[key] = m
    return m


# ---------------------------------------------------------------------------- ndarray
class ndarray:
    __array_priority__ = 0.0
    pv_array = True

    def __new__(cls, shape=(), dtype=float, buffer=None):
        a = alloc_shape(shape, as_dtype(dtype) or F8)
        if cls is not ndarray:
            return a.view(cls)
        return a

    # construction without __new__
    @staticmethod
    def _make(buf, off=0, n=None, zero_d=False, cls=None, step=1):
        o = object.__new__(cls or ndarray)
        o.__dict__["_buf"] = buf
        o.__dict__["_off"] = off
        o.__dict__["_n"] = buf.n if n is None else n
        o.__dict__["_zd"] = zero_d
        o.__dict__["_step"] = step
        o.__dict__["_prov"] = None
        return o

    # -- element access on terms
    def el(self, i):
        """term of the element at position i (an Int term), current contents"""
        return self.snap()(i)

    def snap(self):
        e, off, st = self._buf.elem, self._off, self._step
        if st == 1 and isinstance(off, int) and off == 0:
            return e
        return lambda i: e(z3.simplify(lt(off) + (i if st == 1 else i * st)))

    @property
    def kind(self):
        return self._buf.kind

    @property
    def n(self):
        return self._n

    # -- attributes
    @property
    def dtype(self):
        return _BYKIND[self.kind]

    @property
    def shape(self):
        return () if self._zd else (len_value(self._n),)

    @property
    def size(self):
        return 1 if self._zd else len_value(self._n)

    @property
    def ndim(self):
        return 0 if self._zd else 1

    @property
    def T(self):
        return self

    @property
    def base(self):
        return None

    @property
    def flat(self):
        return self

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def __len__(self):
        if self._zd:
            raise TypeError("len() of unsized object")
        if isinstance(self._n, int):
            return self._n
        raise Unsupported("length of a symbolic array taken by foreign code")

    def pv_len(self):
        if self._zd:
            raise TypeError("len() of unsized object")
        return len_value(self._n)

    def __iter__(self):
        if self._zd:
            raise TypeError("iteration over a 0-d array")
        if isinstance(self._n, int) and self._n <= 600:
            return iter([self[k] for k in range(self._n)])
        raise Unsupported("iteration over a symbolic array by foreign code")

    def __array_finalize__(self, obj):
        return None

    def view(self, cls=None, type=None):
        cls = cls or type or builtins.type(self)
        if not isinstance(cls, builtins.type) or not issubclass(cls, ndarray):
            raise Unsupported("view as dtype")
        o = ndarray._make(self._buf, self._off, self._n, self._zd, cls, self._step)
        o.__dict__["_prov"] = self._prov
        if cls is not ndarray:
            o.__array_finalize__(self)
        return o

    def _new_like(self, cls, arr):
        if cls is ndarray:
            return arr
        o = arr.view(ndarray)
        p = ndarray._make(arr._buf, arr._off, arr._n, arr._zd, cls, arr._step)
        p.__array_finalize__(self)
        return p

    def copy(self, order=None):
        return self._new_like(type(self), from_elem(self._n, self.kind, self.snap(), self._zd, prov=self._prov,
                                                   objs=self._buf.objs))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, m):
        return self.copy()

    def astype(self, dtype, copy=True, **kw):
        d = as_dtype(dtype)
        if self._buf.objs is not None:
            raise Unsupported("astype of objects")
        k, s = d.kind, self.snap()
        if k == "f" and self.kind == "fp":
            k = "fp"
        return self._new_like(type(self), from_elem(self._n, k, (lambda i: cast_term(s(i), k)), self._zd))

    def tolist(self):
        if self._zd:
            return mk(self.el(z3.IntVal(0)))
        if isinstance(self._n, int):
            return [x.item() if isinstance(x, Sym) else x for x in self]
        from .pylist import PVList
        return PVList.of_array(self)

    def item(self, *a):
        if not a:
            if not self._zd and not same_len(self._n, 1):
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return mk(self.el(z3.IntVal(0)))
        return mk(to_term(self[a[0]]))

    def flatten(self, order=None):
        return self.copy()

    def ravel(self, order=None):
        return self

    def reshape(self, *s, **kw):
        if len(s) == 1 and isinstance(s[0], tuple):
            s = s[0]
        if len(s) == 1:
            if isinstance(s[0], int) and s[0] == -1:
                return self.view()
            if same_len(norm_len(s[0]), self._n):
                return self.view()
            raise ValueError("cannot reshape array")
        raise Unsupported("reshape to two dimensions")

    def squeeze(self):
        return self.view()

    # -- indexing
    def _index_scalar(self, k):
        if isinstance(k, Sym):
            if isinstance(k, SReal):
                raise IndexError("only integers, slices (`:`) are valid indices")
            t = num(k.t)
        else:
            t = z3.IntVal(k)
        n = lt(self._n)
        c = ctx()
        if not c.branch(z3.And(t >= -n, t < n)):
            raise IndexError("index out of bounds")
        if isinstance(k, int):
            return t if k >= 0 else z3.simplify(t + n)
        if c.branch(t >= 0):
            return t
        return z3.simplify(t + n)

    def __getitem__(self, k):
        r = self._getitem(k)
        if isinstance(r, ndarray) and type(self) is not ndarray:
            return self._new_like(type(self), r)
        return r

    def _getitem(self, k):
        if isinstance(k, tuple):
            if len(k) == 1:
                k = k[0]
            elif len(k) == 0 and self._zd:
                return mk(self.el(z3.IntVal(0)), True)
            else:
                raise Unsupported("multi-dimensional index")
        if k is Ellipsis:
            return self.view(ndarray)
        if self._zd:
            raise IndexError("too many indices for array")
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, (list,)) or getattr(type(k), "pv_list", False):
            k = asarray(k)
        if isinstance(k, ndarray):
            return self._fancy(k)
        if isinstance(k, SBool) or isinstance(k, bool):
            raise Unsupported("boolean scalar index")
        if isinstance(k, (int, Sym)):
            i = self._index_scalar(k)
            return self._scalar(self.el(i), i)
        if k is None:
            raise Unsupported("newaxis")
        raise IndexError("only integers, slices (`:`), ellipsis and integer or boolean arrays are valid indices")

    def _scalar(self, t, i=None):
        if self._buf.objs is not None:
            j = z3.simplify(lt(self._off) + i) if i is not None else None
            if z3.is_int_value(j):
                return self._buf.objs[j.as_long()]
            raise Unsupported("symbolic index into objects")
        return mk(t, True)

    def _slice(self, s):
        n = self._n
        st = 1 if s.step is None else s.step
        if not isinstance(st, int):
            raise Unsupported("symbolic step")
        a, b = s.start, s.stop
        c = ctx()
        if isinstance(n, int) and not isinstance(a, Sym) and not isinstance(b, Sym):
            r = range(*slice(a, b, st).indices(n))
            return ndarray._make_view(self, r.start if len(r) else 0, len(r), st)
        N = lt(n)

        def clamp(v, dflt):
            if v is None:
                return dflt
            t = num(to_term(v))
            t = z3.If(t < 0, t + N, t)
            return z3.simplify(z3.If(t < 0, z3.IntVal(0), z3.If(t > N, N, t)))
        if st > 0:
            lo, hi = clamp(a, z3.IntVal(0)), clamp(b, N)
            cnt = z3.If(hi > lo, (hi - lo + (st - 1)) / st if st > 1 else hi - lo, z3.IntVal(0))
            # keep terms simple when the order of the limits is decided
            if st == 1:
                if c.branch(hi >= lo):
                    cnt = hi - lo
                else:
                    cnt = z3.IntVal(0)
            lo = self._decide(lo)
            return ndarray._make_view(self, norm_len(lo), norm_len(self._decide(cnt)), st)
        if st == -1 and a is None and b is None:
            return ndarray._make_view(self, norm_len(N - 1), n, -1)
        raise Unsupported("slice with a negative step")

    def _decide(self, t):
        """split the path on the conditions inside an index term"""
        t = z3.simplify(t)
        for _ in range(6):
            cnd = _find_ite(t)
            if cnd is None:
                return t
            v = ctx().branch(cnd)
            t = z3.simplify(z3.substitute(t, (cnd, z3.BoolVal(v))))
        return t

    @staticmethod
    def _make_view(a, off, n, step):
        st = a._step * step
        o = z3.simplify(lt(a._off) + lt(off) * a._step)
        if st != 1:
            a._buf.frozen = True
        return ndarray._make(a._buf, norm_len(o), n, False, None, st)

    def _fancy(self, k):
        if k.kind == "b":
            if k._zd:
                raise Unsupported("0-d boolean index")
            if not same_len(k._n, self._n):
                raise IndexError("boolean index did not match indexed array along dimension 0")
            m = get_mask(k._n, k.snap())
            return compress(self, m)
        if k.kind != "i":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if k._prov is not None and k._prov[0] == "where" and k._prov[2].get_id() == z3.simplify(lt(self._n)).get_id():
            return compress(self, k._prov[1])
        c = ctx()
        s, ks, n = self.snap(), k.snap(), lt(self._n)
        # bounds: witness of a violation or universally in range
        if not all_range(k._n, lambda i: z3.And(ks(i) >= -n, ks(i) < n), "index"):
            raise IndexError("index out of bounds")
        nonneg = k._prov is not None

        def at(i):
            t = ks(i)
            if nonneg:
                return s(t)
            return s(z3.simplify(z3.If(t < 0, t + n, t)))
        return from_elem(k._n, self.kind, at)

    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, list) or getattr(type(k), "pv_list", False):
            k = asarray(k)
        kind = self.kind
        old = self._buf.elem
        off, st = self._off, self._step
        if self._buf.objs is not None:
            raise Unsupported("write to an object array")
        if st != 1:
            raise Unsupported("write to a strided view")

        def val_elem(v, n):
            if getattr(type(v), "pv_list", False) or isinstance(v, (list, tuple)):
                v = asarray(v)
            if isinstance(v, ndarray):
                s = v.snap()
                vk = v.kind
                if vk == "fp" and kind != "fp":
                    raise Unsupported("doubles in a real array")
                if v._zd or (isinstance(v._n, int) and v._n == 1 and not (isinstance(n, int) and n == 1)):
                    t = cast_term(s(z3.IntVal(0)), kind)
                    return lambda i: t
                if not same_len(v._n, n):
                    if not same_len(v._n, 1):
                        raise ValueError("cannot assign input values")
                    t = cast_term(s(z3.IntVal(0)), kind)
                    return lambda i: t
                return lambda i: cast_term(s(i), kind)
            if is_special(v):
                raise Unsupported("special value stored in an array")
            if isinstance(v, str):
                raise ValueError("could not convert string to float")
            if v is None:
                raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
            t = cast_term(to_term(v), kind)
            return lambda i: t

        if isinstance(k, (int, Sym)) and not isinstance(k, (bool, SBool)):
            i = self._index_scalar(k)
            b = z3.simplify(lt(off) + i)
            t = val_elem(v, 1)(z3.IntVal(0))
            self._buf.write(lambda j: _ite_simplify(j == b, lambda: t, lambda: old(j)), ("at", b, t))
            return
        if k is Ellipsis:
            k = slice(None)
        if isinstance(k, slice):
            w = self._slice(k)
            if w._step != 1:
                raise Unsupported("strided assignment")
            ve = val_elem(v, w._n)
            o, n = lt(w._off), lt(w._n)
            if z3.is_int_value(o) and o.as_long() == 0 and str(w._n) == str(self._buf.n):
                self._buf.write(ve, ("all",))
            else:
                self._buf.write(lambda j: z3.If(z3.And(j >= o, j < o + n), ve(z3.simplify(j - o)), old(j)), ("slice",))
            return
        if isinstance(k, ndarray):
            if k.kind == "b":
                if not same_len(k._n, self._n):
                    raise IndexError("boolean index did not match indexed array along dimension 0")
                m = get_mask(k._n, k.snap())
            elif k._prov is not None and k._prov[0] == "where":
                m = k._prov[1]
                if not same_len(m.n, self._n):
                    raise Unsupported("indices of another length")
            else:
                raise Unsupported("assignment to a list of positions")
            ve = val_elem(v, norm_len(m.cnt))
            if not (isinstance(off, int) and off == 0 and str(self._buf.n) == str(self._n)):
                raise Unsupported("mask assignment to a partial view")

            def put(j):
                c = ctx()
                g = m.m(j)
                r = m.rawrank(j)
                with c.guard(m, j):
                    x = ve(r)
                if not m.active and m.rankf.name() in c._syms(x):
                    m.activate()
                return z3.If(g, x, old(j))
            self._buf.write(put, ("mask",))
            return
        raise Unsupported("assignment index")

    # -- comparisons and arithmetic
    def _op(self, name, *args):
        return UFUNCS[name](*args)

    def __bool__(self):
        if self._zd or (isinstance(self._n, int) and self._n == 1):
            return bool(mk(t_bool(self.el(z3.IntVal(0)))))
        if isinstance(self._n, int) and self._n == 0:
            return False
        if same_len(self._n, 1):
            return bool(mk(t_bool(self.el(z3.IntVal(0)))))
        if same_len(self._n, 0):
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    __hash__ = None

    # -- reductions
    def sum(self, axis=None, **kw): return UFUNCS["add"].reduce(self, **kw)
    def max(self, axis=None, **kw): return UFUNCS["maximum"].reduce(self, **kw)
    def min(self, axis=None, **kw): return UFUNCS["minimum"].reduce(self, **kw)
    def all(self, axis=None, **kw): return UFUNCS["logical_and"].reduce(self, **kw)
    def any(self, axis=None, **kw): return UFUNCS["logical_or"].reduce(self, **kw)
    def prod(self, axis=None, **kw): raise Unsupported("prod")
    def mean(self, axis=None, **kw): return self.sum() / self.size
    def nonzero(self): return where(self)

    def clip(self, a=None, b=None):
        r = self
        if a is not None:
            r = UFUNCS["maximum"](r, a)
        if b is not None:
            r = UFUNCS["minimum"](r, b)
        return r

    def fill(self, v):
        self[:] = v

    def __contains__(self, x):
        return bool(UFUNCS["logical_or"].reduce(self == x))

    def __float__(self):
        raise Unsupported("float() of an array by foreign code")

    def __int__(self):
        raise Unsupported("int() of an array by foreign code")

    def __index__(self):
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __repr__(self):
        return "<array %s n=%s>" % (self.kind, self._n)

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __array_ufunc__(self, uf, method, *inputs, **kwargs):
        for x in list(inputs) + list(kwargs.get("out") or ()):
            o = type(x).__dict__.get("__array_ufunc__") if not isinstance(x, ndarray) else _override(x)
            if o is not None:
                return NotImplemented
        return uf.run(method, inputs, kwargs)


def _override(x):
    """the overriding __array_ufunc__ of an array, or None"""
    f = getattr(type(x), "__array_ufunc__", None)
    if f is None or f is ndarray.__array_ufunc__:
        return None
    return f


def _find_ite(t):
    seen = set()
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_ITE:
                return e.arg(0)
            st.extend(e.children())
    return None


def _ite_simplify(cnd, a, b):
    cnd = z3.simplify(cnd)
    if z3.is_true(cnd):
        return a()
    if z3.is_false(cnd):
        return b()
    return z3.If(cnd, a(), b())


def from_elem(n, kind, elem, zero_d=False, prov=None, objs=None):
    a = ndarray._make(Buffer(n, kind, elem, objs), 0, n, zero_d)
    a.__dict__["_prov"] = prov
    return a


def compress(a, m):
    s = a.snap()

    def at(k):
        c = ctx()
        g = c.guarded(m, k)
        if g is not None:
            return s(g)
        return s(m.sel(k))
    prov = None
    return from_elem(norm_len(m.cnt), a.kind, at, prov=prov, objs=None if a._buf.objs is None else _bad_objs())


def _bad_objs():
    raise Unsupported("selection of objects")


def mentions(t, v):
    st, seen, k = [t], set(), v.get_id()
    while st:
        e = st.pop()
        i = e.get_id()
        if i == k:
            return True
        if i not in seen:
            seen.add(i)
            st.extend(e.children())
    return False


def all_range(n, f, what="all"):
    """decide a universally quantified condition, forking on its truth"""
    c = ctx()
    canon = z3.Int("#m")
    with c.no_idx():
        t = z3.simplify(f(canon))
    if not mentions(t, canon):
        return c.branch(z3.Or(lt(n) <= 0, t))
    w = c.fresh("%s.w" % what, I)
    if c.claiming and not c.no_fork:
        c.idx(w, 0, n)
        if c.claim(z3.Implies(in_range(w, n), f(w))):
            c.quant(lambda i: c.axiom(z3.Implies(in_range(i, n), f(i))), 2, n)
            return True
    b = c.fresh("%s.b" % what, B)
    c.quant(lambda i: c.axiom(z3.Implies(z3.And(b, in_range(i, n)), f(i))), 2, n)
    c.axiom(z3.Or(b, z3.And(in_range(w, n), z3.Not(f(w)))))
    c.idx(w, 0, n)
    return c.branch(b)


def alloc_shape(shape, d, fillv=None, name="empty"):
    if isinstance(shape, (tuple, list)):
        if len(shape) == 0:
            n, zd = 1, True
        elif len(shape) == 1:
            n, zd = shape[0], False
        else:
            raise Unsupported("two-dimensional array")
    else:
        n, zd = shape, False
    if isinstance(n, ndarray):
        n = n.item()
    n = norm_len(n)
    if isinstance(n, int):
        if n < 0:
            raise ValueError("negative dimensions are not allowed")
    else:
        if ctx().branch(n < 0):
            raise ValueError("negative dimensions are not allowed")
    kind = d.kind
    if kind in ("O", "S"):
        raise Unsupported("object array")
    if fillv is None:
        c = ctx()
        nm = c.fresh_name(name)
        sort = {"f": R, "i": I, "b": B, "fp": FP64}[kind]
        li = list(c.loop_idx)
        f = z3.Function(nm, *([I] * (len(li) + 1)), sort)
        return from_elem(n, kind, lambda i: f(*(li + [i])), zd)
    t = cast_term(to_term(fillv), kind)
    return from_elem(n, kind, const_elem(t), zd)


def asarray(x, dtype=None, copy=False):
    d = as_dtype(dtype)
    if isinstance(x, ndarray):
        if type(x) is not ndarray:
            x = x.view(ndarray)
        if d is not None and d.kind != x.kind and not (d.kind == "f" and x.kind == "fp"):
            return x.astype(d)
        return x.copy() if copy else x
    if getattr(type(x), "pv_list", False):
        r = x.to_array()
        return r.astype(d) if d is not None else r
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, (list, tuple, ndarray)) and not (isinstance(e, ndarray) and e._zd) for e in x):
            raise Unsupported("two-dimensional array")
        if any(isinstance(e, (str, bytes)) for e in x):
            xs = [e.encode() if isinstance(e, str) and d is not None and d.kind == "S" else e for e in x]
            return from_elem(len(xs), "O", lambda i: z3.IntVal(0), objs=xs)
        xs = [e.item() if isinstance(e, ndarray) else e for e in x]
        if not xs:
            k = d.kind if d else "f"
            return from_elem(0, k, const_elem(cast_term(z3.IntVal(0), k)))
        kinds = [kind_of_scalar(e) for e in xs]
        k = d.kind if d else promote(*kinds)
        ts = [cast_term(to_term(e), k) if k != "fp" else fp_of(e) for e in xs]

        def at(i):
            if z3.is_int_value(i):
                j = i.as_long()
                if 0 <= j < len(ts):
                    return ts[j]
            r = ts[-1]
            for j in range(len(ts) - 2, -1, -1):
                r = z3.If(i == j, ts[j], r)
            return r
        return from_elem(len(ts), k, at)
    if isinstance(x, (str, bytes)) or x is None or isinstance(x, dict):
        if x is None or isinstance(x, dict):
            raise Unsupported("object array")
        raise Unsupported("string array")
    if is_special(x):
        raise Unsupported("array of special values")
    k = d.kind if d else kind_of_scalar(x)
    return from_elem(1, k, const_elem(cast_term(to_term(x), k)), True)


# ------------------------------------------------------------------------------ ufuncs
class ufunc:
    uninterpreted = False

    def __init__(self, name, nin, fn, out_kind, nout=1):
        self.__name__ = name
        self.name = name
        self.nin, self.nout = nin, nout
        self.fn, self.out_kind = fn, out_kind
        self.nargs = nin + nout

    def __repr__(self):
        return "<ufunc '%s'>" % self.name

    def __call__(self, *inputs, out=None, **kw):
        if len(inputs) > self.nin:
            if out is not None or len(inputs) > self.nin + self.nout:
                raise TypeError("too many arguments")
            out = tuple(inputs[self.nin:])
            inputs = inputs[: self.nin]
        if len(inputs) < self.nin:
            raise TypeError("%s() takes from %d to %d positional arguments" % (self.name, self.nin, self.nargs))
        if out is not None and not isinstance(out, tuple):
            out = (out,)
        kwargs = dict(kw)
        if out is not None and any(o is not None for o in out):
            kwargs["out"] = out
        return self.dispatch("__call__", inputs, kwargs)

    def dispatch(self, method, inputs, kwargs):
        cands = []
        for x in list(inputs) + list(kwargs.get("out") or ()):
            if isinstance(x, ndarray) and _override(x) is not None:
                if not any(type(y) is type(x) for y in cands):
                    cands.append(x)
        if cands:
            for x in cands:
                r = x.__array_ufunc__(self, method, *inputs, **kwargs)
                if r is not NotImplemented:
                    return r
            raise TypeError("operand type(s) all returned NotImplemented from __array_ufunc__")
        return self.run(method, inputs, kwargs)

    def reduce(self, a, axis=None, **kw):
        if not isinstance(a, ndarray):
            a = asarray(a)
        kw = {k: v for k, v in kw.items() if v is not None}
        if kw.pop("out", None) is not None or kw:
            raise Unsupported("reduction options")
        return self.dispatch("reduce", (a,), {})

    def at(self, a, idx, b=None):
        return self.dispatch("at", (a, idx) + (() if b is None else (b,)), {})

    def outer(self, a, b, **kw):
        raise Unsupported("outer")

    def accumulate(self, *a, **k):
        raise Unsupported("accumulate")

    def run(self, method, inputs, kwargs):
        if method == "__call__":
            return self.apply(inputs, kwargs.get("out"), kwargs.get("where"), kwargs)
        if method == "reduce":
            return self.do_reduce(*inputs)
        raise Unsupported("ufunc method %s" % method)

    def apply(self, inputs, out=None, where=None, kwargs=()):
        if where is True:
            where = None
        if where is not None:
            raise Unsupported("ufunc where=")
        if isinstance(kwargs, dict) and set(kwargs) - {"out", "where", "casting", "order", "subok"}:
            raise Unsupported("ufunc options %s" % sorted(kwargs))
        xs = []
        for x in inputs:
            if getattr(type(x), "pv_list", False) or isinstance(x, (list, tuple)):
                x = asarray(x)
            elif x is None or isinstance(x, (str, bytes, dict)):
                raise TypeError("unsupported operand type(s) for %s" % self.name)
            xs.append(x)
        arrs = [x for x in xs if isinstance(x, ndarray)]
        if any(a._buf.objs is not None for a in arrs):
            raise Unsupported("ufunc on objects")
        if not arrs:
            kinds = [kind_of_scalar(x) for x in xs]
            k = self.out_kind(*kinds)
            for x in xs:
                if is_special(x) and self.name not in CMPS:
                    r = _special_ufunc(self.name, xs)
                    if r is not None:
                        return r
                    raise Unsupported("arithmetic with an infinite constant")
            t = self.fn(*[x.t if isinstance(x, Sym) else x for x in xs])
            t = to_term(t)
            r = mk(cast_term(t, k) if k in ("f", "i", "b") else t, True)
            if out is not None and out[0] is not None:
                out[0][...] = r
                return out[0]
            return r
        big = [a for a in arrs if not a._zd]
        if not big:
            ys = [mk(x.el(z3.IntVal(0)), True) if isinstance(x, ndarray) else x for x in xs]
            return self.apply(ys, out)
        n = big[0]._n
        for a in big[1:]:
            n = broadcast_len(n, a._n)
        snaps, kinds = [], []
        for x in xs:
            if isinstance(x, ndarray):
                s = x.snap()
                kinds.append(x.kind)
                if x._zd or (isinstance(x._n, int) and x._n == 1 and not (isinstance(n, int) and n == 1)):
                    t0 = s(z3.IntVal(0))
                    snaps.append(lambda i, t0=t0: t0)
                else:
                    snaps.append(s)
            else:
                if is_special(x) and self.name not in CMPS:
                    raise Unsupported("arithmetic with an infinite constant")
                kinds.append(kind_of_scalar(x))
                v = x.t if isinstance(x, Sym) else x
                snaps.append(lambda i, v=v: v)
        k = self.out_kind(*kinds)
        fn = self.fn

        def at(i):
            t = to_term(fn(*[s(i) for s in snaps]))
            return cast_term(t, k) if k in ("f", "i", "b") and not z3.is_fp(t) else t
        if out is not None and out[0] is not None:
            o = out[0]
            if not isinstance(o, ndarray):
                raise TypeError("return arrays must be of ArrayType")
            if not same_len(o._n, n):
                raise ValueError("non-broadcastable output operand")
            if _RANK[k] > _RANK[o.kind] or (o.kind == "b" and k != "b"):
                raise TypeError("Cannot cast ufunc '%s' output from %s to %s with casting rule 'same_kind'"
                                % (self.name, k, o.kind))
            ndarray.__setitem__(o if type(o) is ndarray else o.view(ndarray), slice(None), from_elem(n, k, at))
            return o
        return from_elem(n, k, at)

    def do_reduce(self, a):
        a = asarray(a)
        if a._zd:
            return mk(a.el(z3.IntVal(0)), True)
        if self.uninterpreted:
            # the value depends on the function and on the entries only
            key, _ = reduce_key("any " + self.name, a._n, a.snap())
            c = ctx()
            if key not in c.memo:
                c.memo[key] = c.fresh(self.name + ".reduce", R)
            return mk(c.memo[key], True)
        c = ctx()
        s, n, nm = a.snap(), a._n, self.name
        if nm == "add":
            if a.kind == "b":
                return mk(get_mask(n, s).cnt, True)
            if isinstance(n, int) and n <= 32:
                t = cast_term(z3.IntVal(0), a.kind)
                for j in range(n):
                    t = t_add(t, s(z3.IntVal(j)))
                return mk(t, True)
            return mk(sum_term(n, a.kind, s), True)
        if nm in ("maximum", "minimum"):
            if same_len(n, 0):
                raise ValueError("zero-size array to reduction operation %s which has no identity" % nm)
            if a.kind == "fp":
                raise Unsupported("maximum of doubles")
            sort = {"f": R, "i": I, "b": B}[a.kind]
            if sort is B:
                raise Unsupported("maximum of booleans")
            if isinstance(n, int) and n <= 4:
                t = s(z3.IntVal(0))
                for j in range(1, n):
                    t = (t_max if nm == "maximum" else t_min)(t, s(z3.IntVal(j)))
                return mk(t, True)
            m = reduce_sym(nm, n, s, sort)
            return mk(m, True)
        if nm in ("logical_and", "logical_or"):
            neg = nm == "logical_or"
            f = (lambda i: z3.Not(t_bool(s(i)))) if neg else (lambda i: t_bool(s(i)))
            if isinstance(n, int) and n <= 8:
                ts = [f(z3.IntVal(j)) for j in range(n)]
                r = z3.And(ts) if ts else z3.BoolVal(True)
            else:
                r = reduce_all(n, f)
            return mk(z3.Not(r) if neg else r, True)
        raise Unsupported("reduction %s" % nm)


class multi_ufunc(ufunc):
    """a function with several results; each is one of the given ufuncs"""

    def __init__(self, name, nin, parts):
        ufunc.__init__(self, name, nin, None, None, len(parts))
        self.parts = parts

    def apply(self, inputs, out=None, where=None, kwargs=()):
        rs = [p.apply(inputs, None, where, kwargs) for p in self.parts]
        if out is None:
            return tuple(rs)
        if len(out) != len(rs):
            raise ValueError("The 'out' tuple must have exactly one entry per ufunc output")
        rs = [r if o is None or not isinstance(r, ndarray) else r.copy() for r, o in zip(rs, out)]
        return tuple(r if o is None else UFUNCS["positive"].apply((r,), (o,)) for r, o in zip(rs, out))

    def do_reduce(self, a):
        raise ValueError("reduce only supported for functions returning a single value")


def any_ufunc(name, nin, nout):
    """(a ufunc of which nothing is known, its results as functions of numbers)"""
    c = ctx()
    fs = [z3.Function(c.fresh_name("%s.%d" % (name, j)), *([R] * (nin + 1))) for j in range(nout)]

    def res(f):
        return lambda *a: f(*[cast_term(to_term(x), "f") for x in a])
    us = [ufunc("%s.%d" % (name, j), nin, res(f), lambda *k: "f") for j, f in enumerate(fs)]
    for u in us:
        u.uninterpreted = True
    return (us[0] if nout == 1 else multi_ufunc(name, nin, us)), [
        lambda *a, f=f: mk(res(f)(*[x.t if isinstance(x, Sym) else x for x in a]), True) for f in fs]


def reduce_key(tag, n, s):
    c = ctx()
    canon = z3.Int("#m")
    with c.no_idx():
        t = z3.simplify(s(canon))
    c.keep.append(t)
    return (tag, t.get_id(), str(n), len(c.loop_idx)), t


def reduce_all(n, f):
    c = ctx()
    key, _ = reduce_key("all", n, f)
    if key in c.memo:
        return c.memo[key]
    b = c.fresh("all", B)
    w = c.fresh("all.w", I)
    c.quant(lambda i: c.axiom(z3.Implies(z3.And(b, in_range(i, n)), f(i))), 2, n)
    c.axiom(z3.Or(b, z3.And(in_range(w, n), z3.Not(f(w)))))
    c.idx(w, 0, n)
    c.memo[key] = b
    if c.claiming and not c.no_fork and c.claim(z3.Implies(in_range(w, n), f(w))):
        c.axiom(b)
    return b


def reduce_sym(nm, n, s, sort):
    c = ctx()
    key, _ = reduce_key(nm, n, s)
    if key in c.memo:
        return c.memo[key]
    m = c.fresh(nm, sort)
    w = c.fresh(nm + ".w", I)
    if nm == "maximum":
        c.quant(lambda i: c.axiom(z3.Implies(in_range(i, n), s(i) <= m)), 2, n)
    else:
        c.quant(lambda i: c.axiom(z3.Implies(in_range(i, n), s(i) >= m)), 2, n)
    c.axiom(z3.And(in_range(w, n), m == s(w)))
    c.idx(w, 0, n)
    c.memo[key] = m
    return m


def sum_term(n, kind, s):
    c = ctx()
    key, _ = reduce_key("sum", n, s)
    if key in c.memo:
        return c.memo[key]
    m = c.fresh("sum", R if kind in ("f",) else I)
    if kind == "fp":
        raise Unsupported("sum of doubles")
    c.axiom(z3.Implies(lt(n) == 0, m == 0))
    c.axiom(z3.Implies(lt(n) == 1, m == s(z3.IntVal(0))))
    c.memo[key] = m
    return m


def broadcast_len(a, b):
    if isinstance(a, int) and isinstance(b, int):
        if a == b or b == 1:
            return a
        if a == 1:
            return b
        raise ValueError("operands could not be broadcast together")
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if same_len(a, b):
        return a
    if same_len(a, 1):
        raise Unsupported("broadcast of a symbolic array of length one")
    if same_len(b, 1):
        raise Unsupported("broadcast of a symbolic array of length one")
    raise ValueError("operands could not be broadcast together")


def _special_ufunc(name, xs):
    import numpy
    if all(not isinstance(x, Sym) for x in xs):
        return float(getattr(numpy, name)(*xs))
    return None


CMPS = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal"}


def _k_arith(*ks):
    k = promote(*ks)
    return "i" if k == "b" else k


def _k_mul(*ks):
    return promote(*ks)


def _k_float(*ks):
    k = promote(*ks)
    return "fp" if k == "fp" else "f"


def _k_bool(*ks):
    return "b"


def _k_same(*ks):
    return promote(*ks)


def _pow(x, a):
    kx = z3.is_int(to_term(x)) or z3.is_bool(to_term(x))
    ta = to_term(a)
    if kx and z3.is_int(ta):
        if z3.is_int_value(ta) and ta.as_long() < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
        if not z3.is_int_value(ta):
            raise Unsupported("integer power with symbolic exponent")
    return t_pow(x, a)


def _isfinite(x):
    if is_special(x):
        return z3.BoolVal(math.isfinite(x))
    t = to_term(x)
    if z3.is_fp(t):
        return z3.Not(z3.Or(z3.fpIsInf(t), z3.fpIsNaN(t)))
    return z3.BoolVal(True)


def _isnan(x):
    if is_special(x):
        return z3.BoolVal(math.isnan(x))
    t = to_term(x)
    if z3.is_fp(t):
        return z3.fpIsNaN(t)
    return z3.BoolVal(False)


def _isinf(x):
    if is_special(x):
        return z3.BoolVal(math.isinf(x))
    t = to_term(x)
    if z3.is_fp(t):
        return z3.fpIsInf(t)
    return z3.BoolVal(False)


def _inv(x):
    t = to_term(x)
    if z3.is_bool(t):
        return z3.Not(t)
    if z3.is_int(t):
        return -t - 1
    raise TypeError("ufunc 'invert' not supported for the input types")


def _bits(f):
    def g(a, b):
        a, b = to_term(a), to_term(b)
        if z3.is_bool(a) and z3.is_bool(b):
            return f(a, b)
        if z3.is_real(a) or z3.is_real(b) or z3.is_fp(a) or z3.is_fp(b):
            raise TypeError("ufunc not supported for the input types")
        raise Unsupported("bitwise operation on integers")
    return g


def _sub(a, b):
    ta = to_term(a) if not is_special(a) else a
    if is_term(ta) and z3.is_bool(ta) and not is_special(b) and z3.is_bool(to_term(b)):
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return t_sub(a, b)


def _bool_add(a, b):
    ta, tb = to_term(a), to_term(b)
    if z3.is_bool(ta) and z3.is_bool(tb):
        return z3.Or(ta, tb)
    return t_add(a, b)


def _divmod_floor(a, b):
    return t_floordiv(a, b)


def _sign(x):
    t = num(to_term(x))
    one = z3.RealVal(1) if z3.is_real(t) else z3.IntVal(1)
    return z3.If(t > 0, one, z3.If(t < 0, -one, one * 0))


def _rad(x):
    return real(to_term(x)) * z3.RealVal(Fraction(PI)) / 180


def _deg(x):
    return real(to_term(x)) * 180 / z3.RealVal(Fraction(PI))


UFUNCS = {}


def _uf(name, nin, fn, k):
    UFUNCS[name] = ufunc(name, nin, fn, k)


_uf("add", 2, _bool_add, _k_mul)
_uf("subtract", 2, _sub, _k_mul)
_uf("multiply", 2, t_mul, _k_mul)
_uf("divide", 2, t_div, _k_float)
UFUNCS["true_divide"] = UFUNCS["divide"]
_uf("floor_divide", 2, t_floordiv, _k_arith)
_uf("remainder", 2, t_mod, _k_arith)
UFUNCS["mod"] = UFUNCS["remainder"]
UFUNCS["divmod"] = multi_ufunc("divmod", 2, [UFUNCS["floor_divide"], UFUNCS["remainder"]])
_uf("power", 2, _pow, lambda *k: _k_arith(*k))
_uf("float_power", 2, lambda x, a: t_pow(real(to_term(x)), real(to_term(a))), _k_float)
_uf("negative", 1, t_neg, _k_same)
_uf("positive", 1, lambda x: x, _k_same)
_uf("absolute", 1, t_abs, _k_same)
_uf("fabs", 1, t_abs, _k_float)
_uf("sign", 1, _sign, _k_same)
_uf("square", 1, lambda x: t_mul(x, x), _k_same)
_uf("reciprocal", 1, lambda x: t_div(1, x), _k_float)
_uf("sqrt", 1, t_sqrt, _k_float)
_uf("exp", 1, t_exp, _k_float)
_uf("log", 1, t_log, _k_float)
_uf("log10", 1, t_log10, _k_float)
_uf("log2", 1, lambda x: t_log(x) / t_log(2), _k_float)
_uf("log1p", 1, lambda x: t_log(t_add(1, x)), _k_float)
_uf("expm1", 1, lambda x: t_exp(x) - 1, _k_float)
_uf("exp2", 1, lambda x: t_pow(2.0, x), _k_float)
_uf("sin", 1, lambda x: _m1("SIN", x), _k_float)
_uf("cos", 1, lambda x: _m1("COS", x), _k_float)
_uf("tan", 1, lambda x: _m1("TAN", x), _k_float)
_uf("arcsin", 1, lambda x: _m1("ASIN", x), _k_float)
_uf("arccos", 1, lambda x: _m1("ACOS", x), _k_float)
_uf("arctan", 1, lambda x: _m1("ATAN", x), _k_float)
_uf("arctan2", 2, lambda x, y: _m2("ATAN2", x, y), _k_float)
_uf("deg2rad", 1, _rad, _k_float)
_uf("rad2deg", 1, _deg, _k_float)
_uf("expit", 1, t_expit, _k_float)
UFUNCS["radians"] = UFUNCS["deg2rad"]
UFUNCS["degrees"] = UFUNCS["rad2deg"]
_uf("maximum", 2, t_max, _k_same)
_uf("minimum", 2, t_min, _k_same)
_uf("fmax", 2, t_max, _k_same)
_uf("fmin", 2, t_min, _k_same)
for _n, _o in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("equal", "eq"),
               ("not_equal", "ne")):
    _uf(_n, 2, (lambda a, b, _o=_o: t_cmp(_o, a, b)), _k_bool)
_uf("logical_and", 2, lambda a, b: z3.And(t_bool(a), t_bool(b)), _k_bool)
_uf("logical_or", 2, lambda a, b: z3.Or(t_bool(a), t_bool(b)), _k_bool)
_uf("logical_xor", 2, lambda a, b: z3.Xor(t_bool(a), t_bool(b)), _k_bool)
_uf("logical_not", 1, lambda a: z3.Not(t_bool(a)), _k_bool)
_uf("bitwise_and", 2, _bits(z3.And), _k_same)
_uf("bitwise_or", 2, _bits(z3.Or), _k_same)
_uf("bitwise_xor", 2, _bits(z3.Xor), _k_same)
_uf("invert", 1, _inv, _k_same)
UFUNCS["bitwise_not"] = UFUNCS["invert"]
UFUNCS["abs"] = UFUNCS["absolute"]
_uf("isfinite", 1, _isfinite, _k_bool)
_uf("isnan", 1, _isnan, _k_bool)
_uf("isinf", 1, _isinf, _k_bool)
_uf("floor", 1, lambda x: z3.ToReal(z3.ToInt(real(to_term(x)))), _k_float)
_uf("trunc", 1, lambda x: z3.ToReal(t_int(x)), _k_float)
UFUNCS["modf"] = multi_ufunc("modf", 1, [ufunc("modf.0", 1, lambda x: t_sub(x, z3.ToReal(t_int(x))), _k_float),
                                         UFUNCS["trunc"]])
_uf("ceil", 1, lambda x: -z3.ToReal(z3.ToInt(-real(to_term(x)))), _k_float)


def _mk_ops():
    two = dict(add="add", sub="subtract", mul="multiply", truediv="divide", floordiv="floor_divide", mod="remainder",
               pow="power", lt="less", le="less_equal", gt="greater", ge="greater_equal", eq="equal", ne="not_equal",
               xor="bitwise_xor")
    two["and"] = "bitwise_and"
    two["or"] = "bitwise_or"

    def ok(o):
        return isinstance(o, (ndarray, Sym, int, float, Fraction, list, tuple)) or getattr(type(o), "pv_list", False)
    for op, uf in two.items():
        def f(self, o, uf=uf):
            if not ok(o):
                if uf == "equal":
                    return False
                if uf == "not_equal":
                    return True
                return NotImplemented
            return UFUNCS[uf](self, o)
        setattr(ndarray, "__%s__" % op, f)
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            continue

        def r(self, o, uf=uf):
            if not ok(o):
                return NotImplemented
            return UFUNCS[uf](o, self)
        setattr(ndarray, "__r%s__" % op, r)

        def ip(self, o, uf=uf):
            if not ok(o):
                raise TypeError("unsupported operand")
            return UFUNCS[uf](self, o, out=(self,))
        setattr(ndarray, "__i%s__" % op, ip)
    ndarray.__divmod__ = lambda self, o: UFUNCS["divmod"](self, o) if ok(o) else NotImplemented
    ndarray.__rdivmod__ = lambda self, o: UFUNCS["divmod"](o, self) if ok(o) else NotImplemented
    ndarray.__neg__ = lambda self: UFUNCS["negative"](self)
    ndarray.__pos__ = lambda self: UFUNCS["positive"](self)
    ndarray.__abs__ = lambda self: UFUNCS["absolute"](self)
    ndarray.__invert__ = lambda self: UFUNCS["invert"](self)


_mk_ops()


def where(cond, a=None, b=None):
    cond = asarray(cond) if not isinstance(cond, (Sym, bool)) else cond
    if a is None:
        if not isinstance(cond, ndarray) or cond._zd:
            raise Unsupported("where of a scalar")
        s = cond.snap()
        m = get_mask(cond._n, s if cond.kind == "b" else (lambda i: t_bool(s(i))))
        out = from_elem(norm_len(m.cnt), "i", lambda k: _sel(m, k),
                        prov=("where", m, z3.simplify(lt(cond._n))))
        return (out,)
    return ufunc("where", 3, lambda c, x, y: t_ite(t_bool(c), x, y), lambda c, x, y: promote(x, y))(cond, a, b)


def _sel(m, k):
    g = ctx().guarded(m, k)
    return g if g is not None else m.sel(k)
