"""C01 Parameter values respect bounds, fixing, defaults and ownership"""
from popver.registry import harness


def declare(env, kind):
    """a class with parameters whose declaration is arbitrary"""
    Parameter = env.mod("popsynth.utils.meta").Parameter
    Meta = env.mod("popsynth.utils.meta").ParameterMeta
    default = env.real("default", fp=True)
    vmin = env.real("vmin", fp=True)
    vmax = env.real("vmax", fp=True)
    has = env.choice("declared", ["none", "min", "max", "both"])
    hasd = env.choice("has default", [True, False])
    norm = env.choice("normalization", [False, True])
    kw = {}
    if hasd:
        kw["default"] = default
    if has in ("min", "both"):
        kw["vmin"] = vmin
    if has in ("max", "both"):
        kw["vmax"] = vmax
    if norm:
        kw["is_normalization"] = True

    class Owner(metaclass=Meta):
        p = Parameter(**kw)
        q = Parameter(default=7.0)

        def __init__(self):
            self._parameter_storage = {}
            self._normalization_parameter = None

    lo = vmin if has in ("min", "both") else None
    hi = vmax if has in ("max", "both") else None
    return Owner, Parameter, lo, hi, (default if hasd else None)


def inside(env, v, lo, hi):
    r = True
    if lo is not None:
        r = env.and_(r, v >= lo)
    if hi is not None:
        r = env.and_(r, v <= hi)
    return r


@harness("C01", runs=400)
def parameter_assignment(env):
    """p in bounds and free => stored exactly; otherwise an error and the old value is kept; defaults; frame"""
    Owner, Parameter, lo, hi, default = declare(env, 0)
    a, b = Owner(), Owner()
    # reading before any assignment
    if default is None:
        env.check("no value and no default: reading raises", env.raises(lambda: a.p) is not None)
    else:
        env.check("default is read", env.exact(a.p, default))
    # a valid first value (if there is one), on both objects
    u = env.real("first", fp=True)
    w = env.real("other", fp=True)
    if bool(inside(env, u, lo, hi)):
        env.check("value in bounds is accepted", env.raises(lambda: setattr(a, "p", u)) is None)
        env.check("stored exactly", env.exact(a.p, u))
        if default is not None:
            env.check("other object keeps its default", env.exact(b.p, default))
        else:
            env.check("other object still has no value", env.raises(lambda: b.p) is not None)
        prev = u
    else:
        env.check("first value out of bounds raises", env.raises(lambda: setattr(a, "p", u)) is not None)
        prev = default
    if bool(inside(env, w, lo, hi)):
        b.p = w
        env.check("assignment on another object changes nothing here",
                  env.exact(a.p, prev) if prev is not None else env.raises(lambda: a.p) is not None)
        env.check("other object has its own value", env.exact(b.p, w))
    v = env.real("value", fp=True)
    fixed = env.choice("fixed", [False, True])
    if fixed:
        Owner.__dict__["p"].free = False
    r = env.raises(lambda: setattr(a, "p", v))
    if not fixed and bool(inside(env, v, lo, hi)):
        env.check("second value accepted", r is None)
        env.check("second value stored exactly", env.exact(a.p, v))
    else:
        env.check("refused value raises", r is not None)
        if prev is None:
            env.check("still no value", env.raises(lambda: a.p) is not None)
        else:
            env.check("previous value kept", env.exact(a.p, prev))
    env.check("other parameters untouched", env.exact(a.q, 7.0))


@harness("C01", runs=60)
def fix_and_free(env):
    """fixing refuses assignments until freed again"""
    Owner, Parameter, lo, hi, default = declare(env, 0)
    a = Owner()
    v = env.real("value", fp=True)
    env.assume(inside(env, v, lo, hi))
    d = Owner.__dict__["p"]
    how = env.choice("how", ["fix", "free", "declared"])
    if how == "fix":
        d.fix = True
    elif how == "free":
        d.free = False
    else:
        class Fixed(metaclass=type(Owner)):
            p = Parameter(default=1.5, free=False)

            def __init__(self):
                self._parameter_storage = {}
        f = Fixed()
        env.check("declared fixed: refused", env.raises(lambda: setattr(f, "p", v)) is not None)
        env.check("declared fixed: default kept", env.exact(f.p, 1.5))
        return
    env.check("flags agree", bool(d.fix) and not bool(d.free))
    env.check("fixed parameter refuses", env.raises(lambda: setattr(a, "p", v)) is not None)
    if how == "fix":
        d.fix = False
    else:
        d.free = True
    a.p = v
    env.check("freed parameter accepts", env.exact(a.p, v))


CLASSES = [
    ("popsynth.distributions.bpl_distribution.BPLDistribution", ["Lmin", "alpha", "Lbreak", "beta", "Lmax"]),
    ("popsynth.distributions.pareto_distribution.ParetoDistribution", ["Lmin", "alpha"]),
    ("popsynth.distributions.schechter_distribution.SchechterDistribution", ["Lmin", "alpha"]),
    ("popsynth.distributions.log_normal_distribution.LogNormalDistribution", ["mu", "tau"]),
    ("popsynth.distributions.log10_normal_distribution.Log10NormalDistribution", ["mu", "tau"]),
    ("popsynth.distributions.cosmological_distribution.SFRDistribution", ["r0", "a", "rise", "decay", "peak"]),
    ("popsynth.distributions.cosmological_distribution.ZPowerCosmoDistribution", ["Lambda", "delta"]),
    ("popsynth.distributions.spherical_distribution.ConstantSphericalDistribution", ["Lambda"]),
    ("popsynth.distributions.spherical_distribution.ZPowerSphericalDistribution", ["Lambda", "delta"]),
    ("popsynth.aux_samplers.normal_aux_sampler.NormalAuxSampler", ["mu", "tau", "sigma"]),
    ("popsynth.aux_samplers.plaw_aux_sampler.ParetoAuxSampler", ["xmin", "alpha", "sigma"]),
    ("popsynth.selection_probability.generic_selectors.BoxSelection", ["vmin", "vmax"]),
    ("popsynth.selection_probability.generic_selectors.SoftSelection", ["boundary", "strength"]),
]


def build(env, path):
    cls = env.cls(path)
    if "aux_samplers" in path:
        return cls(name="x")
    return cls()


@harness("C01", runs=80)
def owned_by_each_object(env):
    """two objects of any class of the package never share parameter values"""
    path, params = env.choice("class", CLASSES)
    a, b = build(env, path), build(env, path)
    cls = type(a)
    vals = {}
    for k, p in enumerate(params):
        d = [c.__dict__[p] for c in cls.__mro__ if p in c.__dict__][0]
        v = env.real("a" + p, fp=True)
        w = env.real("b" + p, fp=True)
        ok = lambda x: env.and_(True if d._vmin is None else x >= d._vmin, True if d._vmax is None else x <= d._vmax)
        env.assume(ok(v))
        env.assume(ok(w))
        setattr(a, p, v)
        setattr(b, p, w)
        vals[p] = (v, w)
    for p, (v, w) in vals.items():
        env.check("each object keeps its own values (a)", env.exact(getattr(a, p), v))
        env.check("each object keeps its own values (b)", env.exact(getattr(b, p), w))
    c = build(env, path)
    for p in params:
        d = [k.__dict__[p] for k in cls.__mro__ if p in k.__dict__][0]
        if d._default is None:
            env.check("a fresh object has no values", env.raises(lambda: getattr(c, p)) is not None)
        else:
            env.check("a fresh object has the defaults", env.exact(getattr(c, p), d._default))


@harness("C01", runs=12)
def one_normalization(env):
    """a class with more than one normalization parameter is refused"""
    m = env.mod("popsynth.utils.meta")
    n = env.choice("count", [0, 1, 2, 3])
    order = env.choice("order", [0, 1, 2])

    def make():
        d = {}
        for k in range(4):
            d["p%d" % k] = m.Parameter(is_normalization=((k + order) % 4) < n)
        return m.ParameterMeta("K", (object,), d)
    r = env.raises(make)
    env.check("two normalizations are refused" if n > 1 else "class is accepted", (r is not None) == (n > 1))
