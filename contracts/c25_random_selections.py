"""C25 Random selections use exactly the stated detection probability"""
from popver.registry import harness
from contracts.c02_selections import SEL, GEN, QUANT, spatial

BIG = [0, 1, 2, 3000, 7, 1500, 6000]


@harness("C25", runs=40)
def bernoulli(env):
    """each object is selected independently with the given probability, with or without progress display"""
    env.open_unit_interval()
    env.progress(env.choice("progress", [True, False]))
    with_probability(env)


def with_probability(env):
    n = env.size("n", conc=BIG)
    p = env.choice("edge", [None, 0.0, 1.0])
    if p is None:
        p = env.real("probability", ge=0, le=1, lo=0, hi=1)
    s = env.cls(GEN + "BernoulliSelection")()
    s.probability = p
    s.select(n)
    env.check("array of booleans", env.is_bool_array(s.selection))
    env.bernoulli("selected", s.selection, n, lambda i: p)
    if not env.symbolic:
        return
    if isinstance(p, float):
        env.forall(n, lambda i: env.iff(env.at(s.selection, i), p == 1.0), "never at zero, always at one")
    env.check("parameter unchanged", env.exact(s.probability, p))


@harness("C25", runs=60)
def soft(env):
    """probability expit(strength (q - boundary)), in decimal logarithms if asked for"""
    env.open_unit_interval()
    env.progress(env.choice("progress", [True, False]))
    n = env.size("n", conc=BIG)
    log = env.choice("logarithm", [True, False])
    use = env.choice("quantity", QUANT)
    low = dict(gt=0) if log else {}
    b = env.real("boundary", lo=1e-16 if log else -5, hi=1e4 if log else 5, log=log, **low)
    k = env.real("strength", ge=0, lo=0, hi=6)
    around = dict(lo=0.05 * b, hi=9 * b) if log and not env.symbolic else dict(lo=-9, hi=9)
    q = env.array("values", n, **around, **low)
    keep = env.copy(q)
    s = env.cls(GEN + "SoftSelection")(**{use: True})
    s.boundary, s.strength = b, k
    feed(env, s, use, q, n)
    s.draw(n, use_log=log)
    check(env, s, n, q, keep, b, k, log)


def feed(env, s, use, values, n):
    d = {"use_obs_value": s.set_observed_value, "use_distance": s.set_distance, "use_luminosity": s.set_luminosity,
         "use_flux": s.set_observed_flux}
    for x in QUANT:
        d[x](values if x == use else env.array("other_" + x, n, gt=0, lo=0.05, hi=9))


def check(env, s, n, q, keep, b, k, log):
    env.check("array of booleans", env.is_bool_array(s.selection))

    def p(i):
        x = env.at(keep, i)
        return env.expit(k * (env.log10(x) - env.log10(b) if log else x - b))
    env.bernoulli("selected", s.selection, n, p)
    env.check_array("quantity unchanged", q, n, lambda i: env.at(keep, i), 0.0, 0.0)
    env.check("boundary unchanged", env.exact(s.boundary, b))
    env.check("strength unchanged", env.exact(s.strength, k))


@harness("C25", runs=40)
def soft_flux(env):
    """the soft flux selection works on the decimal logarithm of the observed flux"""
    env.open_unit_interval()
    n = env.size("n", conc=BIG)
    b = env.real("boundary", gt=0, lo=1e-16, hi=1e4, log=True)
    k = env.real("strength", ge=0, lo=0, hi=6)
    around = {} if env.symbolic else dict(lo=0.05 * b, hi=9 * b)
    q = env.array("values", n, gt=0, **around)
    keep = env.copy(q)
    s = env.cls(SEL + "flux_selectors.SoftFluxSelection")()
    s.boundary, s.strength = b, k
    feed(env, s, "use_flux", q, n)
    s.select(n)
    check(env, s, n, q, keep, b, k, True)
