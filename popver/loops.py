"""loops over a symbolic number of iterations.

For loops: the body is explored once for an arbitrary iteration t (all paths);
its effects - element writes, conditional appends, counters, random draws - are
summarised as functions of t and applied for all iterations at once.
While loops: the values after the loop come from an arbitrary last iteration;
everything assigned in the body is unknown at its start.
"""
import z3

from .core import (ctx, mk, Sym, SInt, to_term, is_term, Unsupported, NeedSummary, NestedDone, PathAbort, Restart,
                   PvControl, I, R, B, num, t_ite, _num_of_term)
from . import arr as A
from .pylist import PVList


class Poison:
    """a value the analysis does not know"""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _no(self, *a, **k):
        raise Unsupported("value of %s" % object.__getattribute__(self, "why"))

    def __getattribute__(self, n):
        if n in ("why", "_no", "__class__", "__init__"):
            return object.__getattribute__(self, n)
        object.__getattribute__(self, "_no")()


for _n in ("add radd sub rsub mul rmul truediv rtruediv lt le gt ge eq ne bool neg len iter getitem setitem call "
           "iadd isub imul pow rpow and or xor invert mod rmod contains index int float str repr hash format abs "
           "enter exit").split():
    setattr(Poison, "__%s__" % _n, lambda self, *a, **k: object.__getattribute__(self, "_no")())


class SymIter:
    """an iterable with a symbolic number of items"""
    pv_sym = True

    def __init__(self, n, item):
        self.n, self.item_at = n, item

    def pv_len(self):
        return A.len_value(self.n)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range by foreign code")


def sym_iter(x):
    """SymIter if x has a symbolic number of items, else None"""
    if isinstance(x, SymIter):
        return x
    if isinstance(x, A.ndarray):
        if x._zd or isinstance(x._n, int):
            return None
        s = x.snap()
        return SymIter(x._n, lambda t: x._scalar(s(t), t))
    if getattr(type(x), "pv_list", False) and x.sym is not None:
        a = x.to_array()
        return sym_iter(a)
    return None


def loop_key(kid):
    c = ctx()
    n = c.loop_occ.get(kid, 0)
    c.loop_occ[kid] = n + 1
    return "%s#%d|%s" % (kid, n, ",".join(str(v) for v in c.trace[: c.pos]))


class Nested:
    """bookkeeping while the body runs for the arbitrary iteration"""

    def __init__(self, loop):
        self.loop = loop
        self.writes = {}
        self.appends = []
        c = ctx()
        self.list_mark = c.nlist
        self.buf_mark = c.nbuf

    def buffer_write(self, buf, what):
        if buf.key > self.buf_mark:
            return
        if what is None or what[0] != "at":
            raise Unsupported("array written as a whole inside a loop")
        d = self.writes.setdefault(buf.key, [])
        d.append((what[1], what[2]))

    def append(self, l, x):
        if not isinstance(x, (Sym, int, float)):
            raise Unsupported("list of objects built in a symbolic loop")
        self.appends.append((l.key, x))


class ForLoop:
    def __init__(self, kid, it, names):
        c = ctx()
        self.kid = kid
        self.it = it
        self.n = it.n
        self.key = loop_key(kid)
        self.names = names
        self.prefix = c.trace[: c.pos]
        self.depth = len(c.loop_idx)
        base = "L%d" % (len(c.loop_idx))
        self.generic = False
        level = len(c.gen_stack)
        if level < len(c.chain) and c.chain[level] == self.key:
            self.generic = True
        elif self.key not in c.shared.summaries:
            if c.in_nested is not None and c.in_nested.loop.nomore:
                raise Unsupported("nested symbolic loops")
            raise NeedSummary(self.key, list(self.prefix), c.chain)
        self.nomore = False

    # ---- generic run
    def start(self, loc):
        c = ctx()
        self.t = z3.Int("t<%s:%d>" % (self.kid, len(c.gen_stack)))
        self.pc_mark = len(c.pc)
        self.saved = (c.scope, c.in_nested, list(c.rng))
        c.gen_stack.append(self)
        c.assume(A.in_range(self.t, self.n))
        c.loop_idx = c.loop_idx + [self.t]
        c.scope = c.scope + "@%s/" % self.kid
        c.idx(self.t, 0, self.n)
        self.cond_mark = len(c.pc)
        c.rng = ["loop", ("loop", self.saved[2][1], tuple(self.saved[2][2:]), self.key), 0]
        c.in_nested = Nested(self)
        self.carry = {}
        self.init = {}
        self.ids = {}
        out = []
        for nme in self.names:
            v = loc.get(nme, _MISSING)
            if v is _MISSING:
                out.append(Poison("the previous iteration (%s)" % nme))
            elif isinstance(v, (SInt, int)) and not isinstance(v, bool):
                f = z3.Function("carry.%s<%s>" % (nme, self.kid), *([I] * (len(c.loop_idx) + 1)))
                ct = f(*c.loop_idx)
                self.carry[nme] = ct
                out.append(mk(ct))
            else:
                self.ids[nme] = v
                out.append(v if isinstance(v, (PVList, A.ndarray)) else Poison("a loop-carried variable (%s)" % nme))
        self.start_vals = dict(zip(self.names, out))
        return out

    def item(self):
        return self.it.item_at(self.t)

    def end(self, loc, exc=None):
        c = ctx()
        ne = c.in_nested
        finals = {}
        for nme in self.names:
            v = loc.get(nme, _MISSING)
            if v is _MISSING:
                continue
            finals[nme] = v
        rec = dict(cond=[x for x in c.pc[self.cond_mark:]], writes=ne.writes, appends=ne.appends, exc=exc,
                   rng=c.rng[2], t=self.t, carry=dict(self.carry), deltas={}, finals={}, ax=list(c.ax),
                   rngf=dict(c.rngf))
        for nme, ct in self.carry.items():
            v = finals.get(nme)
            if isinstance(v, (Sym, int)) and not isinstance(v, bool):
                d = z3.simplify(to_term(v) - ct) if not z3.is_real(to_term(v)) else None
                if d is not None and z3.is_int_value(d):
                    rec["deltas"][nme] = d.as_long()
        for nme in self.names:
            if nme in self.ids and nme in finals and finals[nme] is not self.start_vals.get(nme):
                rec["finals"][nme] = "changed"
        c.shared.summaries[self.key]["paths"].append(rec)
        raise NestedDone()

    # ---- application of the summary
    def apply(self, loc):
        c = ctx()
        s = c.shared.summaries[self.key]
        if s["error"]:
            raise Unsupported(s["error"])
        paths = s["paths"]
        n = A.lt(self.n)
        if not paths:
            # no path through the body: only possible without iterations
            c.assume(n <= 0)
            return [loc.get(x, Poison(x)) for x in self.names]
        t = paths[0]["t"]
        carry_terms = {}
        for p in paths:
            carry_terms.update(p["carry"])
        # counters
        subst = []
        counters = {}
        outer = list(c.loop_idx)
        for nme, ct in carry_terms.items():
            deltas = [p["deltas"].get(nme) for p in paths]
            if any(d is None for d in deltas):
                continue
            v0 = loc.get(nme)
            v0t = to_term(v0)
            if all(d == 0 for d in deltas):
                subst.append((ct, v0t))
                counters[nme] = ("const", v0)
                continue
            if not set(deltas) <= {0, 1}:
                if len(set(deltas)) == 1:
                    d = deltas[0]
                    subst.append((ct, v0t + d * t))
                    counters[nme] = ("lin", v0t + d * n)
                continue
            if set(deltas) == {1}:
                subst.append((ct, v0t + t))
                counters[nme] = ("lin", v0t + z3.If(n > 0, n, 0))
                continue
            full = z3.Or([z3.And(p["cond"]) for p in paths if p["deltas"][nme] == 1])
            red = z3.Or([z3.And([q for q in p["cond"] if not _mentions(q, carry_terms.values())] or [z3.BoolVal(True)])
                         for p in paths if p["deltas"][nme] == 1])
            rest = z3.Or([z3.And(p["cond"]) for p in paths if p["deltas"][nme] == 0])
            # the paths partition the iterations, so 'full' is the negation of 'rest'
            r = c._check(A.in_range(t, self.n), z3.Or(z3.And(full, z3.Not(red)), z3.And(rest, red)))
            if r != z3.unsat:
                continue
            m = A.get_mask(self.n, lambda i: z3.substitute(red, (t, i)))
            subst.append((ct, v0t + m.rank(t)))
            counters[nme] = ("mask", v0t + m.cnt)
        done = {ct.get_id() for ct, _ in subst}
        bad = [ct for ct in carry_terms.values() if ct.get_id() not in done]

        def at(e, i):
            e = z3.substitute(e, *subst) if subst else e
            if bad and _mentions(e, bad):
                raise Unsupported("loop-carried variable")
            e = z3.substitute(e, (t, i))
            c.register_math(e)
            return e

        conds = [z3.And(p["cond"]) if p["cond"] else z3.BoolVal(True) for p in paths]
        # facts established in the body hold for every iteration
        for p in paths:
            for a in p["ax"]:
                if _mentions(a, [t]):
                    c.axiom_gen(lambda i, a=a: at(a, i), self.n)
        for p in paths:
            c.rngf.update(p["rngf"])
        # every iteration follows one of the paths
        allc = z3.Or(conds) if len(conds) > 1 else conds[0]
        if not z3.is_true(z3.simplify(allc)):
            c.quant(lambda i: c.axiom(z3.Implies(A.in_range(i, self.n), at(allc, i))), 1, self.n)
        for p, cd in zip(paths, conds):
            if p["exc"] is not None:
                cond = cd
                if not A.all_range(self.n, lambda i: z3.Not(at(cond, i)), "raise"):
                    raise p["exc"]
        norm = [(p, cd) for p, cd in zip(paths, conds) if p["exc"] is None]
        # writes
        keys = []
        for p, _ in norm:
            for k in p["writes"]:
                if k not in keys:
                    keys.append(k)
        for k in keys:
            buf = c.buffers.get(k)
            if buf is None:
                raise Unsupported("array of a loop summary")
            for p, _ in norm:
                for b, v in p["writes"].get(k, []):
                    if z3.simplify(b - t).get_id() != z3.IntVal(0).get_id():
                        raise Unsupported("write at another position than the loop index")
            old = buf.elem
            # the body must not read the array it writes at other positions
            branches = []
            for p, cd in norm:
                w = p["writes"].get(k)
                branches.append((cd, w[-1][1] if w else None))
            N = n

            def val(j, old=old, branches=branches):
                r = None
                for cd, v in reversed(branches):
                    x = old(j) if v is None else at(v, j)
                    r = x if r is None else z3.If(at(cd, j), x, r)
                return z3.If(z3.And(j >= 0, j < N), r, old(j))
            if str(buf.n) == str(self.n):
                def val(j, old=old, branches=branches):
                    r = None
                    for cd, v in reversed(branches):
                        x = old(j) if v is None else at(v, j)
                        r = x if r is None else z3.If(at(cd, j), x, r)
                    return r
            buf.write(val, ("all",))
        # appends
        lists = []
        for p, _ in norm:
            for k, _x in p["appends"]:
                if k not in lists:
                    lists.append(k)
        for k in lists:
            l = c.lists.get(k)
            items = []
            for p, cd in norm:
                xs = [x for kk, x in p["appends"] if kk == k]
                if len(xs) > 1:
                    raise Unsupported("several appends in one iteration")
                items.append((cd, xs[0] if xs else None))
            kind = A.promote(*[A.kind_of_scalar(x) for _, x in items if x is not None])

            def elem(j, items=items, kind=kind):
                r = None
                for cd, x in reversed([z for z in items if z[1] is not None]):
                    v = A.mask_simplify(A.cast_term(at(to_term(x), j), kind))
                    r = v if r is None else z3.If(at(cd, j), v, r)
                return r
            if all(x is not None for _, x in items):
                l.push_sym(self.n, kind, elem)
            else:
                cc = z3.Or([cd for cd, x in items if x is not None])
                m = A.get_mask(self.n, lambda j, cc=cc: z3.simplify(at(cc, j)))
                l.push_sym(A.norm_len(m.cnt), kind, lambda q, m=m, elem=elem: elem(m.sel(q)))
        if any(p["rng"] for p in paths):
            c.rng = [c.rng[0], c.rng[1], c.rng[2] + 1, "%s|%s" % (c.rng[3] if len(c.rng) > 3 else "", self.key)]
        out = []
        for nme in self.names:
            if nme in counters:
                k, v = counters[nme]
                out.append(v if k == "const" else mk(z3.simplify(v)))
            elif nme in loc and nme not in carry_terms and not any(nme in p["finals"] for p in paths) \
                    and isinstance(loc[nme], (PVList, A.ndarray)):
                out.append(loc[nme])
            else:
                out.append(Poison("a loop variable after the loop (%s)" % nme))
        return out


def _mentions(e, terms):
    ids = {x.get_id() for x in terms}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            st.extend(x.children())
    return False


_MISSING = object()


class WhileLoop:
    """while loops whose number of iterations depends on unknown values"""

    def __init__(self, kid, names):
        c = ctx()
        self.kid = kid
        self.names = names
        self.sym = kid in c.shared.while_state
        self.count = 0
        self.mark = None
        self.poisoned = False
        self.saved_rng = None

    def enter(self):
        """called once before the first iteration is begun (its test is true)"""
        c = ctx()
        self.count += 1
        if self.mark is not None:
            self.native_end()      # the test may have decided on what the iteration left behind
        self.mark = c.pos
        if self.count > 5000:
            raise Unsupported("loop does not end")

    def prefix_trace(self):
        c = ctx()
        return ",".join(str(v) for v in c.trace[: c.pos])

    def sym_start(self, loc):
        c = ctx()
        self.saved_rng = list(c.rng)
        occ = c.loop_occ.get("w" + self.kid, 0)
        c.loop_occ["w" + self.kid] = occ + 1
        self.key = "%s#%d|%s" % (self.kid, occ, self.prefix_trace())
        c.rng = ["while", ("while", self.saved_rng[1], tuple(self.saved_rng[2:]), self.kid, occ), 0]
        self.pc_mark = len(c.pc)
        self.prefix = tuple(c.gen_stack[0].prefix) if c.gen_stack else tuple(c.trace[: c.pos])
        self.stream = c.rng[1]
        self.bufver = {k: b.elem for k, b in c.buffers.items()}
        self.lists = {k: (list.__len__(l), l.sym) for k, l in c.lists.items()}
        self.napp = len(c.in_nested.appends) if c.in_nested else 0
        self.nwr = {k: len(v) for k, v in c.in_nested.writes.items()} if c.in_nested else {}
        c.while_depth += 1
        # a variable that is a constant before the loop and again after every iteration that
        # is followed by another one has that value at the start of every iteration
        vary = c.shared.while_state[self.kid]
        self.kept = {n: loc[n] for n in self.names if n in loc and n not in vary and
                     type(loc[n]) in (bool, int, float, str, type(None))}
        return [self.kept[n] if n in self.kept else Poison("the previous iteration (%s)" % n) for n in self.names]

    def unchanged(self):
        c = ctx()
        for k, e in self.bufver.items():
            if c.buffers[k].elem is not e:
                return False
        for k, (n, s) in self.lists.items():
            l = c.lists[k]
            if list.__len__(l) != n or l.sym is not s:
                return False
        if c.in_nested:
            if len(c.in_nested.appends) != self.napp:
                return False
            if {k: len(v) for k, v in c.in_nested.writes.items()} != self.nwr:
                return False
        return True

    def native_end(self):
        """after an iteration run natively: did it decide on unknown values?"""
        c = ctx()
        if c.pos != self.mark and (c.pos > self.mark):
            if any(isinstance(v, bool) for v in c.trace[self.mark: c.pos]):
                c.shared.while_state[self.kid] = set()
                raise Restart()

    def continuing(self, loc):
        """the loop goes on after the arbitrary iteration"""
        c = ctx()
        for n, v in self.kept.items():
            w = loc.get(n, _MISSING)
            if type(w) is not type(v) or w != v:
                c.shared.while_state[self.kid].add(n)
                raise Restart()
        if not self.unchanged():
            raise Unsupported("effects of iterations other than the last")
        for h in c.while_hooks:
            h("continue", self, c.pc[self.pc_mark:], c.rng)
        raise PathAbort()

    def leave(self):
        c = ctx()
        c.while_depth -= 1
        self.last = c.pc[self.pc_mark:]
        for h in c.while_hooks:
            h("exit", self, self.last, c.rng)
        h = self.saved_rng[3] if len(self.saved_rng) > 3 else ""
        c.rng = [self.saved_rng[0], self.saved_rng[1], self.saved_rng[2] + 1, "%s|%s" % (h, self.key)]
