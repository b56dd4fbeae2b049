"""C07 Simulated variables keep observed and latent values aligned"""
from popver.registry import harness


def variable(env, tag="", n=None, gt=None):
    SV = env.mod("popsynth.simulated_variable").SimulatedVariable
    n = env.size("n") if n is None else n
    o = env.array("obs" + tag, n, gt=gt, lo=0.2 if gt is not None else -3, hi=3)
    l = env.array("lat" + tag, n, gt=gt, lo=0.2 if gt is not None else -3, hi=3)
    m = env.mask("sel" + tag, n)
    return n, env.copy(o), env.copy(l), env.copy(m), SV(o, l, m)


def holds(env, label, x, n, obs, lat, sel=None):
    SV = env.mod("popsynth.simulated_variable").SimulatedVariable
    env.check(label + ": is a simulated variable", isinstance(x, SV))
    if not isinstance(x, SV):
        return
    env.check_array(label + ": observed", env.base(x), n, obs)
    env.check_array(label + ": latent", env.base(x.latent), n, lat)
    if sel is not None:
        env.check_array(label + ": selection", env.base(x._selection), n, sel)


def elem(env, *arrays):
    return [lambda i, a=a: env.at(a, i) for a in arrays]


@harness("C07", runs=16)
def build(env):
    """the array shown is the observed one; other lengths are rejected"""
    n, o, l, m, x = variable(env)
    holds(env, "built", x, n, *elem(env, o, l, m))
    k = env.size("k")
    env.assume(env.not_(env.eq(k, n)))
    SV = env.mod("popsynth.simulated_variable").SimulatedVariable
    a, b = env.array("a", n, lo=-1, hi=1), env.array("b", k, lo=-1, hi=1)
    env.check("latent values of another length", env.raises(lambda: SV(a, b, m)) == "AssertionError")
    env.check("selection of another length", env.raises(lambda: SV(a, a, env.mask("m2", k))) == "AssertionError")
    env.check("observed values of another length", env.raises(lambda: SV(b, a, m)) == "AssertionError")


@harness("C07", runs=16)
def parts(env):
    """selected and non-selected parts are the objects that are (not) selected, in order"""
    n, o, l, m, x = variable(env)
    pos, cnt, _ = env.where(m)
    s = x.selected
    holds(env, "selected", s, cnt, lambda i: env.at(o, pos(i)), lambda i: env.at(l, pos(i)), lambda i: True)
    neg, no, _ = env.where(~m)
    s = x.non_selected
    holds(env, "non selected", s, no, lambda i: env.at(o, neg(i)), lambda i: env.at(l, neg(i)), lambda i: False)
    holds(env, "the variable itself", x, n, *elem(env, o, l, m))


@harness("C07", runs=16)
def parts_of_parts(env):
    """the selected part is all selected, its non-selected part is empty, and the other way round"""
    n, o, l, m, x = variable(env)
    pos, cnt, _ = env.where(m)
    holds(env, "selected twice", x.selected.selected, cnt, lambda i: env.at(o, pos(i)), lambda i: env.at(l, pos(i)))
    env.check_len("non-selected of selected", env.base(x.selected.non_selected), 0)
    neg, no, _ = env.where(~m)
    env.check_len("selected of non-selected", env.base(x.non_selected.selected), 0)
    holds(env, "non selected twice", x.non_selected.non_selected, no, lambda i: env.at(o, neg(i)),
          lambda i: env.at(l, neg(i)))


@harness("C07", runs=16)
def slices(env):
    """a slice holds the slices of all three"""
    n, o, l, m, x = variable(env)
    k = env.size("k")
    env.assume(k <= n)
    which = env.choice("which", ["from", "to", "all"])
    if which == "from":
        holds(env, "from k", x[k:], n - k, *[lambda i, a=a: env.at(a, i + k) for a in (o, l, m)])
    elif which == "to":
        holds(env, "up to k", x[:k], k, *elem(env, o, l, m))
    else:
        holds(env, "all", x[:], n, *elem(env, o, l, m))
    holds(env, "the variable itself", x, n, *elem(env, o, l, m))


@harness("C07", runs=16)
def masked(env):
    """indexing by a mask or positions holds the entries of all three at these positions"""
    n, o, l, m, x = variable(env)
    w = env.mask("mask", n)
    pos, cnt, _ = env.where(w)
    y = x[w] if env.choice("by", ["mask", "positions"]) == "mask" else x[env.np.where(w)[0]]
    holds(env, "masked", y, cnt, *[lambda i, a=a: env.at(a, pos(i)) for a in (o, l, m)])
    holds(env, "the variable itself", x, n, *elem(env, o, l, m))


@harness("C07", runs=16)
def item(env):
    """a single entry is the observed number"""
    n, o, l, m, x = variable(env)
    env.assume(n > 0)
    k = env.int("k", ge=0, lo=0, hi=0)
    env.assume(k < n)
    env.check("entry", env.eq(x[k], env.at(o, k)))


BINARY = ["add", "sub", "mul", "div", "maximum", "less"]


def binary(env, op, a, b):
    np = env.np
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b,
            "maximum": lambda: np.maximum(a, b), "less": lambda: a < b}[op]()


def scalar_op(env, op, a, b):
    return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: env.div(a, b),
            "maximum": lambda: env.max(a, b), "less": lambda: a < b}[op]()


@harness("C07", runs=30)
def arithmetic(env):
    """x op y: the operation is applied to the observed values and, separately, to the latent values"""
    n, o, l, m, x = variable(env, gt=0)
    op = env.choice("op", BINARY)
    other = env.choice("other", ["number", "variable", "array"])
    left = env.choice("position", ["left", "right"])
    if other == "number":
        b = env.real("b", gt=0, lo=0.5, hi=2)
        bo = bl = lambda i: b
    elif other == "variable":
        _, o2, l2, m2, b = variable(env, "2", n, gt=0)
        bo, bl = elem(env, o2, l2)
    else:
        b = env.array("b", n, gt=0, lo=0.5, hi=2)
        b0 = env.copy(b)
        bo = bl = lambda i: env.at(b0, i)
    if left == "left":
        y = binary(env, op, x, b)
        want = [lambda i, f=f, g=g: scalar_op(env, op, env.at(f, i), g(i)) for f, g in ((o, bo), (l, bl))]
    else:
        y = binary(env, op, b, x)
        want = [lambda i, f=f, g=g: scalar_op(env, op, g(i), env.at(f, i)) for f, g in ((o, bo), (l, bl))]
    if other == "variable" and left == "right":
        holds(env, "result", y, n, want[0], want[1])
    else:
        holds(env, "result", y, n, want[0], want[1], lambda i: env.at(m, i))
    holds(env, "the operand", x, n, *elem(env, o, l, m))
    if other == "variable":
        holds(env, "the other operand", b, n, *elem(env, o2, l2, m2))
    elif other == "array":
        env.check_array("the other operand", b, n, lambda i: env.at(b0, i))


@harness("C07", runs=24)
def functions(env):
    """f(x) for functions of one argument, and a chain of operations"""
    n, o, l, m, x = variable(env, gt=0)
    np = env.np
    op = env.choice("op", ["exp", "log10", "sqrt", "negative", "chain"])
    f = {"exp": (np.exp, env.exp), "log10": (np.log10, env.log10), "sqrt": (np.sqrt, env.sqrt),
         "negative": (lambda x: -x, lambda x: -x),
         "chain": (lambda x: 90 - np.exp(2 * x) / 3, lambda x: 90 - env.div(env.exp(2 * x), 3))}[op]
    y = f[0](x)
    holds(env, "result", y, n, lambda i: f[1](env.at(o, i)), lambda i: f[1](env.at(l, i)), lambda i: env.at(m, i))
    holds(env, "the operand", x, n, *elem(env, o, l, m))


@harness("C07", runs=30)
def in_place(env):
    """x op= y changes observed and latent values alike, whether or not they shared their memory"""
    SV = env.mod("popsynth.simulated_variable").SimulatedVariable
    np = env.np
    shared = env.choice("shared", [False, True])
    if shared:
        n = env.size("n")
        o = env.array("obs", n, gt=0, lo=0.5, hi=2)
        m = env.mask("sel", n)
        x = SV(o, o, m)
        o = env.copy(o)
        l = o
    else:
        n, o, l, m, x = variable(env, gt=0)
    op = env.choice("op", ["add", "mul", "div", "out"])
    other = env.choice("other", ["number", "variable", "itself"])
    if other == "number":
        b = env.real("b", gt=0, lo=0.5, hi=2)
        bo = bl = lambda i: b
    elif other == "variable":
        _, o2, l2, m2, b = variable(env, "2", n, gt=0)
        bo, bl = elem(env, o2, l2)
    else:
        b = x
        bo, bl = elem(env, o, l)
    y = x
    if op == "add":
        y += b
    elif op == "mul":
        y *= b
    elif op == "div":
        y /= b
    else:
        np.add(x, b, out=x)
        op = "add"
    env.check("the same object", y is x)
    holds(env, "result", x, n, *[lambda i, f=f, g=g: scalar_op(env, op, env.at(f, i), g(i)) for f, g in ((o, bo), (l, bl))],
          lambda i: env.at(m, i))
    if other == "variable":
        holds(env, "the other operand", b, n, *elem(env, o2, l2, m2))


@harness("C07", runs=20)
def in_place_part(env):
    """x[part] op= y changes observed and latent values of the part and nothing else"""
    n, o, l, m, x = variable(env)
    b = env.real("b", lo=0.5, hi=2)
    part = env.choice("part", ["mask", "slice"])
    if part == "mask":
        w = env.mask("mask", n)
        x[w] += b
        inside = lambda i: env.at(w, i)
    else:
        k = env.size("k")
        env.assume(k <= n)
        x[k:] += b
        inside = lambda i: i >= k
    holds(env, "result", x, n, *[lambda i, a=a: env.ite(inside(i), env.at(a, i) + b, env.at(a, i)) for a in (o, l)],
          lambda i: env.at(m, i))


@harness("C07", runs=20)
def out_elsewhere(env):
    """results written to another variable or plain array leave the operand alone"""
    n, o, l, m, x = variable(env)
    np = env.np
    b = env.real("b", lo=0.5, hi=2)
    if env.choice("out", ["array", "variable"]) == "array":
        z = np.zeros(n)
        np.add(x, b, out=z)
        env.check_array("result", z, n, lambda i: env.at(o, i) + b)
    else:
        _, o2, l2, m2, z = variable(env, "2", n)
        np.add(x, b, out=z)
        holds(env, "result", z, n, lambda i: env.at(o, i) + b, lambda i: env.at(l, i) + b)
    holds(env, "the operand", x, n, *elem(env, o, l, m))


@harness("C07", runs=60)
def any_function(env):
    """ANY numpy function of one or two arguments with one or two results: it is applied to the observed values
    and, separately, to the latent values; reductions are those of the observed values"""
    n, o, l, m, x = variable(env, gt=0)
    nin = env.choice("arguments", [1, 2])
    nout = env.choice("results", [1, 2])
    u, fs = env.any_ufunc("f", nin, nout)
    left, other = True, None
    if nin == 1:
        r = u(x)
        want = [[lambda i, f=f, a=a: f(env.at(a, i)) for a in (o, l)] for f in fs]
    else:
        other = env.choice("other", ["number", "variable", "array"])
        left = env.choice("position", ["left", "right"]) == "left"
        if other == "number":
            b = env.real("b", gt=0, lo=0.5, hi=2)
            bs = [lambda i: b] * 2
        elif other == "variable":
            _, o2, l2, m2, b = variable(env, "2", n, gt=0)
            bs = elem(env, o2, l2)
        else:
            b = env.array("b", n, gt=0, lo=0.5, hi=2)
            b0 = env.copy(b)
            bs = elem(env, b0, b0)
        r = u(x, b) if left else u(b, x)
        want = [[lambda i, f=f, a=a, c=c: f(env.at(a, i), c(i)) if left else f(c(i), env.at(a, i))
                 for a, c in zip((o, l), bs)] for f in fs]
    rs = r if nout > 1 else (r,)
    env.check("number of results", isinstance(rs, tuple) and len(rs) == nout)
    for j in range(nout):
        holds(env, "result %d" % j, rs[j], n, *want[j], None if other == "variable" else (lambda i: env.at(m, i)))
    if nin == 2 and nout == 1:
        env.assume(n > 0)
        env.check("reduction", env.eq(u.reduce(x), u.reduce(o), rtol=1e-9, atol=1e-9))
    holds(env, "the operand", x, n, *elem(env, o, l, m))
    if other == "variable":
        holds(env, "the other operand", b, n, *elem(env, o2, l2, m2))
    elif other == "array":
        env.check_array("the other operand", b, n, lambda i: env.at(b0, i))


@harness("C07", runs=40)
def any_function_out(env):
    """ANY numpy function with its results written into simulated variables, arrays or the operand itself"""
    n, o, l, m, x = variable(env, gt=0)
    nout = env.choice("results", [1, 2])
    u, fs = env.any_ufunc("f", 1, nout)
    kinds = [env.choice("out %d" % j, ["variable", "array", "itself" if j == 0 else "none"]) for j in range(nout)]
    outs = []
    for j, k in enumerate(kinds):
        if k == "variable":
            outs.append(variable(env, "out%d" % j, n)[4])
        else:
            outs.append(env.np.zeros(n) if k == "array" else x if k == "itself" else None)
    r = u(x, out=tuple(outs))
    rs = r if nout > 1 else (r,)
    for j, k in enumerate(kinds):
        want = [lambda i, f=fs[j], a=a: f(env.at(a, i)) for a in (o, l)]
        if k != "none":
            env.check("result %d is the output" % j, rs[j] is outs[j])
        if k == "array":
            env.check_array("result %d" % j, rs[j], n, want[0])
        else:
            holds(env, "result %d" % j, rs[j], n, *want)
    if "itself" not in kinds:
        holds(env, "the operand", x, n, *elem(env, o, l, m))


@harness("C07", runs=12)
def other_functions(env):
    """functions with two results; sums and extremes are those of the observed values"""
    n, o, l, m, x = variable(env, gt=0)
    np = env.np
    b = env.real("b", gt=0, lo=0.5, hi=2)
    q, r = divmod(x, b)
    holds(env, "quotient", q, n, *[lambda i, a=a: env.at(a, i) // b for a in (o, l)])
    holds(env, "remainder", r, n, *[lambda i, a=a: env.at(a, i) % b for a in (o, l)])
    env.assume(n > 0)
    env.check("sum", env.eq(np.sum(x), np.sum(o), rtol=1e-9, atol=1e-9))
    env.check("largest", env.eq(np.max(x), np.max(o)))
    env.check("smallest", env.eq(x.min(), np.min(o)))
    holds(env, "the operand", x, n, *elem(env, o, l, m))
