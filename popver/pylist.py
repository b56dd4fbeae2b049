"""lists created by literals in the verified code: concrete until a loop over a
symbolic number of iterations appends to them."""
import z3
from .core import ctx, mk, Unsupported, to_term, Sym, is_special
from . import arr as A


class PVList(list):
    pv_list = True

    def __init__(self, *a):
        list.__init__(self, *a)
        self.sym = None            # ndarray-like tail: (n, kind, elem)
        c = ctx()
        c.nlist += 1
        self.key = c.nlist
        c.lists[self.key] = self

    @staticmethod
    def of_array(a):
        l = PVList()
        l.sym = (a._n, a.kind, a.snap())
        return l

    def _conc(self):
        if self.sym is not None:
            raise Unsupported("operation on a list of symbolic length")

    def _mut(self):
        c = ctx()
        if c.in_nested is not None:
            if self.key > c.in_nested.list_mark:
                return
            raise Unsupported("list changed in a loop over a symbolic range")

    def append(self, x):
        c = ctx()
        if c.in_nested is not None and self.key <= c.in_nested.list_mark:
            c.in_nested.append(self, x)
            return
        self._conc()
        list.append(self, x)

    def extend(self, x):
        self._mut()
        if getattr(type(x), "pv_list", False) and x.sym is not None and self.sym is None and not len(list(list.__iter__(self))):
            self.sym = x.sym
            return
        self._conc()
        list.extend(self, x)

    def __iadd__(self, x):
        self.extend(x)
        return self

    def __getitem__(self, k):
        if self.sym is not None:
            return self.to_array()[k]
        if isinstance(k, Sym):
            return self.to_array()[k].item()
        r = list.__getitem__(self, k)
        return PVList(r) if isinstance(k, slice) else r

    def __setitem__(self, k, v):
        self._mut()
        self._conc()
        list.__setitem__(self, k, v)

    def __iter__(self):
        self._conc()
        return list.__iter__(self)

    def __len__(self):
        self._conc()
        return list.__len__(self)

    def pv_len(self):
        if self.sym is not None:
            return A.len_value(self.sym[0])
        return list.__len__(self)

    def __bool__(self):
        if self.sym is not None:
            return not A.same_len(self.sym[0], 0)
        return list.__len__(self) > 0

    def __contains__(self, x):
        self._conc()
        return list.__contains__(self, x)

    def __eq__(self, o):
        self._conc()
        return list.__eq__(self, o)

    __hash__ = None

    def sort(self, **k):
        self._mut()
        self._conc()
        list.sort(self, **k)

    def __getattribute__(self, n):
        if n in ("insert", "pop", "remove", "clear", "reverse", "index", "count"):
            object.__getattribute__(self, "_mut")()
            object.__getattribute__(self, "_conc")()
        return object.__getattribute__(self, n)

    def copy(self):
        l = PVList(list.__iter__(self)) if self.sym is None else PVList()
        l.sym = self.sym
        return l

    def __deepcopy__(self, m):
        import copy
        if self.sym is not None:
            return self.copy()
        return PVList(copy.deepcopy(list(list.__iter__(self)), m))

    def to_array(self):
        if self.sym is not None:
            n, k, e = self.sym
            return A.from_elem(n, k, e)
        return A.asarray(list(list.__iter__(self)))

    def push_sym(self, n, kind, elem):
        if self.sym is None and list.__len__(self) == 0:
            self.sym = (n, kind, elem)
            return
        if self.sym is None:
            p = A.asarray(list(list.__iter__(self)))
            list.clear(self)
            self.sym = (p._n, p.kind, p.snap())
        n0, k0, e0 = self.sym
        k = A.promote(k0, kind)
        N0 = A.lt(n0)
        self.sym = (A.norm_len(N0 + A.lt(n)), k,
                    lambda i: z3.If(i < N0, A.cast_term(e0(i), k), A.cast_term(elem(z3.simplify(i - N0)), k)))
