"""C02 Threshold selections, C03 selection algebra and bookkeeping"""
from popver.registry import harness

SEL = "popsynth.selection_probability."
GEN = SEL + "generic_selectors."
QUANT = ["use_obs_value", "use_distance", "use_luminosity", "use_flux"]


def feed(env, s, use, values, n, other=True):
    """give the selection its quantity, and unrelated ones for the others"""
    d = {"use_obs_value": s.set_observed_value, "use_distance": s.set_distance, "use_luminosity": s.set_luminosity,
         "use_flux": s.set_observed_flux}
    rest = {}
    for k in QUANT:
        if k == use:
            d[k](values)
        elif other:
            rest[k] = env.array("other_" + k, n, kind="fp")
            d[k](rest[k])
    return rest


def check_selection(env, s, n, values, before, want, label):
    s.select(n)
    env.check(label + ": selection is an array of booleans", env.is_bool_array(s.selection))
    env.check_array(label, s.selection, n, want)
    env.check_array(label + ": quantity unchanged", values, n, lambda i: env.at(before, i), 0.0, 0.0)


@harness("C02", runs=40)
def lower_bound(env):
    """selected(i) == (quantity(i) >= boundary)"""
    n = env.size("n")
    b = env.real("boundary", fp=True)
    v = env.array("values", n, kind="fp")
    keep = env.copy(v)
    use = env.choice("quantity", QUANT)
    s = env.cls(GEN + "LowerBound")(**{use: True})
    s.boundary = b
    feed(env, s, use, v, n)
    check_selection(env, s, n, v, keep, lambda i: env.at(keep, i) >= b, "lower bound")


@harness("C02", runs=40)
def upper_bound(env):
    """selected(i) == (quantity(i) <= boundary)"""
    n = env.size("n")
    b = env.real("boundary", fp=True)
    v = env.array("values", n, kind="fp")
    keep = env.copy(v)
    use = env.choice("quantity", QUANT)
    s = env.cls(GEN + "UpperBound")(**{use: True})
    s.boundary = b
    feed(env, s, use, v, n)
    check_selection(env, s, n, v, keep, lambda i: env.at(keep, i) <= b, "upper bound")


@harness("C02", runs=40)
def box(env):
    """selected(i) == (vmin <= quantity(i) <= vmax)"""
    n = env.size("n")
    a = env.real("vmin", fp=True)
    b = env.real("vmax", fp=True)
    v = env.array("values", n, kind="fp")
    keep = env.copy(v)
    use = env.choice("quantity", QUANT)
    s = env.cls(GEN + "BoxSelection")(**{use: True})
    s.vmin = a
    s.vmax = b
    feed(env, s, use, v, n)
    check_selection(env, s, n, v, keep, lambda i: env.and_(env.at(keep, i) >= a, env.at(keep, i) <= b), "box")


@harness("C02", runs=30)
def hard_flux(env):
    """selected(i) == (observed flux(i) >= boundary)"""
    n = env.size("n")
    b = env.real("boundary", fp=True)
    v = env.array("values", n, kind="fp")
    keep = env.copy(v)
    s = env.cls(SEL + "flux_selectors.HardFluxSelection")()
    s.boundary = b
    feed(env, s, "use_flux", v, n)
    check_selection(env, s, n, v, keep, lambda i: env.at(keep, i) >= b, "hard flux")


@harness("C02", runs=20)
def unity(env):
    """every object is selected"""
    n = env.size("n")
    s = env.cls(GEN + "UnitySelection")()
    v = env.array("values", n, kind="fp")
    keep = env.copy(v)
    feed(env, s, "use_flux", v, n)
    check_selection(env, s, n, v, keep, lambda i: True, "unity")


def spatial(env):
    return env.cls("popsynth.distributions.spherical_distribution.ConstantSphericalDistribution")()


@harness("C02", runs=40)
def distance(env):
    """selected(i) == (min_distance <= distance(i) <= max_distance), distances of the given spatial distribution"""
    n = env.size("n")
    a = env.real("vmin", fp=True)
    b = env.real("vmax", fp=True)
    v = env.array("values", n, kind="fp")
    keep = env.copy(v)
    env.assume(env.and_(a >= 0, b >= 0))
    kw = {"name": "d"} if env.choice("named", [False, True]) else {}
    s = env.cls(SEL + "spatial_selection.DistanceSelection")(**kw)
    s.min_distance = a
    s.max_distance = b
    d = spatial(env)
    d._distances = v
    s.set_spatial_distribution(d)
    feed(env, s, None, v, n)
    check_selection(env, s, n, v, keep, lambda i: env.and_(env.at(keep, i) >= a, env.at(keep, i) <= b), "distance")


@harness("C02", runs=30)
def galactic_plane(env):
    """selected(i) == (|galactic latitude of object i| >= limit)"""
    n = env.size("n")
    lim = env.real("b_limit", ge=0, le=90)
    theta = env.array("theta", n, ge=0, lo=0.0, hi=3.14159)
    phi = env.array("phi", n, ge=0, lo=0.0, hi=6.28318)
    kt, kp = env.copy(theta), env.copy(phi)
    s = env.cls(SEL + "spatial_selection.GalacticPlaneSelection")()
    s.b_limit = lim
    d = spatial(env)
    d._theta, d._phi = theta, phi
    s.set_spatial_distribution(d)
    feed(env, s, None, theta, n)
    s.select(n)

    def want(i):
        b = env.galb(env.deg(env.at(kp, i)), 90 - env.deg(env.at(kt, i)))
        return env.or_(b >= lim, b <= -lim)
    env.check_array("galactic plane", s.selection, n, want)
    env.check_array("galactic plane: polar angles unchanged", theta, n, lambda i: env.at(kt, i), 0.0, 0.0)
    env.check_array("galactic plane: azimuths unchanged", phi, n, lambda i: env.at(kp, i), 0.0, 0.0)


# ---------------------------------------------------------------------------------------------------------- C03
def made(env, tag, n):
    """a selection that was made: any pattern of objects (lower bound on arbitrary values)"""
    v = env.array("values_" + tag, n)
    s = env.cls(GEN + "LowerBound")(name=tag, use_obs_value=True)
    s.boundary = 0.0
    s.set_observed_value(v)
    s.select(n)
    return s, v


@harness("C03", runs=40)
def conjunction(env):
    """(a + b)(i) == a(i) and b(i); a and b are unchanged; it can be repeated"""
    n = env.size("n")
    a, va = made(env, "a", n)
    b, vb = made(env, "b", n)
    c, vc = made(env, "c", n)
    ka, kb = a.selection, b.selection
    ca, cb = env.copy(ka), env.copy(kb)
    t = a + b

    def both(i):
        return env.and_(env.at(va, i) >= 0, env.at(vb, i) >= 0)
    env.check_array("conjunction", t.selection, n, both)
    env.check("sum is a selection", isinstance(t, env.cls(SEL + "selection_probability.SelectionProbability")))
    env.check_array("first operand unchanged", a.selection, n, lambda i: env.at(ca, i))
    env.check_array("second operand unchanged", b.selection, n, lambda i: env.at(cb, i))
    env.check_array("first operand's array unchanged", ka, n, lambda i: env.at(ca, i))
    u = t + c
    env.check_array("conjunction of three", u.selection, n, lambda i: env.and_(both(i), env.at(vc, i) >= 0))
    w = c + t
    env.check_array("conjunction of three, other order", w.selection, n,
                    lambda i: env.and_(both(i), env.at(vc, i) >= 0))
    env.check_array("partial conjunction unchanged", t.selection, n, both)
    w += a
    env.check_array("repeated conjunction", w.selection, n, lambda i: env.and_(both(i), env.at(vc, i) >= 0))
    env.check_array("right operand of a repeated conjunction unchanged", a.selection, n, lambda i: env.at(ca, i))


def positions(env, s, n):
    m = s.selection
    env.check("number of objects", env.eq(s.n_objects, n))
    ns, nn = s.n_selected, s.n_non_selected
    env.check("numbers add up", env.eq(ns + nn, n))
    cnt = env.where(m)[1]
    env.check("number selected", env.eq(ns, cnt))
    si, ni = s.selection_index, s.non_selection_index
    env.check_len("selected positions: length", si, ns)
    env.check_len("other positions: length", ni, nn)
    for name, idx, count, flag in (("selected", si, ns, True), ("other", ni, nn, False)):
        env.forall(count, lambda k: env.and_(env.at(idx, k) >= 0, env.at(idx, k) < n), name + " positions are in range")
        env.forall(count, lambda k: env.iff(env.at(m, env.at(idx, k)), flag), name + " positions are of that kind")
    env.check_array("selection unchanged by the bookkeeping", s.selection, n, lambda i: env.at(m, i))


@harness("C03", runs=40)
def bookkeeping(env):
    """counts and position lists agree with the selection"""
    n = env.size("n")
    s, v = made(env, "s", n)
    positions(env, s, n)


@harness("C03", runs=40)
def bookkeeping_of_sum(env):
    """counts and position lists agree with a sum of selections"""
    n = env.size("n")
    a, v = made(env, "a", n)
    b, v = made(env, "b", n)
    positions(env, a + b, n)


@harness("C03", runs=40)
def positions_increase(env):
    """the position lists are strictly increasing"""
    n = env.size("n")
    s, v = made(env, "s", n)
    for name, idx in (("selected", s.selection_index), ("other", s.non_selection_index)):
        count = env.len(idx)
        env.forall(count, lambda k: env.or_(k + 1 >= count, env.at(idx, k) < env.at(idx, env.min(k + 1, count - 1))),
                   name + " positions increase")


@harness("C03", runs=40)
def every_object_named(env):
    """every object is in the list it belongs to"""
    n = env.size("n")
    s, v = made(env, "s", n)
    m = s.selection
    si, ni = s.selection_index, s.non_selection_index
    pos, cnt, rank = env.where(m)
    p2, c2, rank2 = env.where(env.arr(n, lambda i: env.not_(env.at(m, i)), kind="b"))
    env.forall(n, named(env, m, si, ni, rank, cnt, rank2, c2), "every object is named")


def named(env, m, si, ni, rank, cnt, rank2, c2):
    if env.symbolic:
        def f(i):
            env.hint(i)
            return env.ite(env.at(m, i), env.eq(env.at(si, rank(i)), i), env.eq(env.at(ni, rank2(i)), i))
        return f

    def g(i):
        return (i in list(si)) if m[i] else (i in list(ni))
    return g


@harness("C03", runs=40)
def made_once(env):
    """select() keeps a selection that was made until reset(); after it, the selection is made afresh"""
    n = env.size("n")
    n2 = env.size("n2")
    cls = env.choice("class", ["LowerBound", "UpperBound", "BoxSelection"])
    s = env.cls(GEN + cls)(use_flux=True)
    if cls == "BoxSelection":
        s.vmin = env.real("vmin")
        s.vmax = env.real("vmax")
    else:
        s.boundary = env.real("boundary")

    def want(x):
        if cls == "BoxSelection":
            return env.and_(x >= s.vmin, x <= s.vmax)
        return x >= s.boundary if cls == "LowerBound" else x <= s.boundary
    env.check("never made: asking raises", env.raises(lambda: s.selection) is not None)
    s.reset()
    env.check("never made: asking raises after reset", env.raises(lambda: s.selection) is not None)
    v = env.array("values", n)
    w = env.array("values2", n2)
    k = env.array("values3", n)
    s.set_observed_flux(v)
    s.select(n)
    env.check_array("made", s.selection, n, lambda i: want(env.at(v, i)))
    s.set_observed_flux(k)
    s.select(n)
    env.check_array("not made again", s.selection, n, lambda i: want(env.at(v, i)))
    s.select(n)
    env.check_array("not made a third time", s.selection, n, lambda i: want(env.at(v, i)))
    s.reset()
    env.check("reset: asking raises", env.raises(lambda: s.selection) is not None)
    s.set_observed_flux(w)
    s.select(n2)
    env.check_array("made afresh", s.selection, n2, lambda i: want(env.at(w, i)))
    s.reset()
    s.set_observed_flux(k)
    s.select(n)
    env.check_array("made afresh again", s.selection, n, lambda i: want(env.at(k, i)))
    s.reset()
    s.set_observed_flux(w)
    s.draw(n2)
    env.check_array("made by draw", s.selection, n2, lambda i: want(env.at(w, i)))
    s.reset()
    env.check("made by draw and reset: asking raises", env.raises(lambda: s.selection) is not None)
