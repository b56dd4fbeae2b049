"""C14 Luminosity distributions sample and evaluate their stated law"""
import math

from popver.registry import harness

D = "popsynth.distributions."
PI = math.pi
BIG = [0, 1, 2, 2000, 5, 4000, 800]


def lum_array(env, n, lo=1e-3, hi=1e3, gt=None):
    """luminosities as doubles or integers"""
    if env.choice("dtype", ["float", "integer"]) == "float":
        return env.array("L", n, gt=gt, lo=lo, hi=hi, log=True)
    return env.array("L", n, ge=1 if gt == 0 else -3, le=30, kind="i")


def density(env, dist, L, n, want, label, rtol=1e-9):
    keep = env.copy(L)
    r = dist.phi(L)
    env.check_array(label, r, n, lambda i: want(env.at(keep, i)), rtol=rtol, atol=1e-300)
    env.check_array(label + ": luminosities unchanged", L, n, lambda i: env.at(keep, i), 0.0, 0.0)
    L2 = dist.phi(keep)
    env.check_array(label + ": evaluated again", L2, n, lambda i: want(env.at(L, i)), rtol=rtol, atol=1e-300)


def pareto(env):
    d = env.cls(D + "pareto_distribution.ParetoDistribution")()
    a = env.real("Lmin", gt=0, lo=0.01, hi=100, log=True)
    b = env.real("alpha", gt=0, lo=0.3, hi=5)
    d.Lmin, d.alpha = a, b
    return d, a, b


@harness("C14", runs=24)
def pareto_draw(env):
    """L_i = Lmin (1 - u_i)^(-1/alpha)"""
    env.open_unit_interval()
    d, a, b = pareto(env)
    n = env.size("n", conc=BIG)
    x = d.draw_luminosity(n)
    env.law("Pareto", x, n, lambda u, i: a * env.pow(1 - u, -1 / b))
    env.forall(n, lambda i: env.at(x, i) >= a * (1 - 1e-12), "at least Lmin")
    env.check("parameters unchanged", env.and_(env.exact(d.Lmin, a), env.exact(d.alpha, b)))


@harness("C14", runs=30)
def pareto_phi(env):
    """phi(L) = alpha Lmin^alpha / L^(alpha+1) for L >= Lmin, else 0"""
    d, a, b = pareto(env)
    n = env.size("n")
    L = lum_array(env, n)
    density(env, d, L, n, lambda x: env.ite(x >= a, env.div(b * env.pow(a, b), env.pow(pos(env, x), b + 1)), 0), "Pareto density")


def pos(env, x):
    return x if env.symbolic else max(x, 1e-300)


def schechter(env):
    d = env.cls(D + "schechter_distribution.SchechterDistribution")()
    a = env.real("Lmin", gt=0, lo=0.01, hi=100, log=True)
    b = env.real("alpha", gt=-1, lo=-0.9, hi=3)
    d.Lmin, d.alpha = a, b
    return d, a, b


@harness("C14", runs=24)
def schechter_draw(env):
    """L_i / Lmin is a gamma variate of index 1 + alpha (by inversion)"""
    env.open_unit_interval()
    d, a, b = schechter(env)
    n = env.size("n", conc=BIG)
    x = d.draw_luminosity(n)
    env.law("Schechter", x, n, lambda u, i: a * env.gammaincinv(1 + b, u))
    env.forall(n, lambda i: env.at(x, i) >= 0, "not negative")


@harness("C14", runs=30)
def schechter_phi(env):
    """phi(L) = L^alpha exp(-L/Lmin) / (Lmin^(1+alpha) Gamma(1+alpha))"""
    d, a, b = schechter(env)
    n = env.size("n")
    L = lum_array(env, n, gt=0)
    density(env, d, L, n, lambda x: env.pow(x, b) * env.exp(-x / a) / (env.pow(a, 1 + b) * env.gamma(1 + b)),
            "Schechter density")


def lognormal(env, ten):
    d = env.cls(D + ("log10_normal_distribution.Log10NormalDistribution" if ten else
                     "log_normal_distribution.LogNormalDistribution"))()
    m = env.real("mu", lo=-3, hi=3)
    t = env.real("tau", gt=0, lo=0.05, hi=2)
    d.mu, d.tau = m, t
    return d, m, t


@harness("C14", runs=24)
def lognormal_draw(env):
    """ln L_i (or log10 L_i) is normal with mean mu and deviation tau"""
    env.open_unit_interval()
    ten = env.choice("base", [False, True])
    d, m, t = lognormal(env, ten)
    n = env.size("n", conc=BIG)
    x = d.draw_luminosity(n)
    if ten:
        env.law("log10-normal", x, n, lambda u, i: env.pow(10.0, m + t * env.nppf(u)))
    else:
        env.law("log-normal", x, n, lambda u, i: env.exp(m + t * env.nppf(u)))
    env.forall(n, lambda i: env.at(x, i) > 0, "positive")


@harness("C14", runs=30)
def lognormal_phi(env):
    """density of the log-normal laws"""
    ten = env.choice("base", [False, True])
    d, m, t = lognormal(env, ten)
    n = env.size("n")
    L = lum_array(env, n, gt=0)

    def want(x):
        z = (env.log10(x) if ten else env.log(x)) - m
        c = env.log(10.0) if ten else 1.0
        return env.exp(-(z * z) / (2 * t * t)) / (t * x * c * env.sqrt(2 * PI))
    density(env, d, L, n, want, "log-normal density")


def loguni(env):
    d = env.cls(D + "uniform_distribution.LogUniLuminiosityDistribution")()
    a = env.real("Lmin", gt=0, lo=0.01, hi=10, log=True)
    b = env.real("Lmax", gt=0, lo=10.5, hi=1000, log=True)
    env.assume(a < b)
    d.Lmin, d.Lmax = a, b
    return d, a, b


@harness("C14", runs=24)
def loguniform_draw(env):
    """log L_i is uniform between log Lmin and log Lmax"""
    env.open_unit_interval()
    d, a, b = loguni(env)
    n = env.size("n", conc=BIG)
    x = d.draw_luminosity(n)
    env.law("log-uniform", x, n, lambda u, i: env.exp(env.log(a) + u * (env.log(b) - env.log(a))))
    env.forall(n, lambda i: env.and_(env.at(x, i) >= a * (1 - 1e-12), env.at(x, i) <= b * (1 + 1e-12)), "within the limits")


@harness("C14", runs=30)
def loguniform_phi(env):
    """phi(L) = 1 / (L log(Lmax/Lmin)) inside the limits, else 0"""
    d, a, b = loguni(env)
    n = env.size("n")
    L = lum_array(env, n, gt=0)
    density(env, d, L, n, lambda x: env.ite(env.and_(x >= a, x <= b), 1 / (x * env.log(b / a)), 0), "log-uniform density")


@harness("C14", runs=24)
def delta(env):
    """every luminosity is Lp; phi(L) = 1 at Lp, else 0"""
    d = env.cls(D + "delta_distribution.DeltaDistribution")()
    p = env.real("Lp", ge=0)
    d.Lp = p
    n = env.size("n")
    x = d.draw_luminosity(n)
    env.check_array("delta", x, n, lambda i: p, 0.0, 0.0)
    L = lum_array(env, n)
    density(env, d, L, n, lambda x: env.ite(x == p, 1, 0), "delta density")


# ---------------------------------------------------------------------------------- broken power law
def segment(env, x0, x1, a, minus_one):
    """integral of x^a"""
    if minus_one:
        return env.log(x1 / x0)
    return (env.pow(x1, a + 1) - env.pow(x0, a + 1)) / (a + 1)


def quantile(env, u, x0, x1, a, minus_one):
    if minus_one:
        return x0 * env.pow(x1 / x0, u)
    p, q = env.pow(x0, a + 1), env.pow(x1, a + 1)
    return env.pow(u * (q - p) + p, 1 / (a + 1))


def bpl_parameters(env, names=("Lmin", "alpha", "Lbreak", "beta", "Lmax")):
    x0 = env.real(names[0], gt=0, lo=0.01, hi=5, log=True)
    x1 = env.real(names[2], gt=0, lo=5.5, hi=50, log=True)
    x2 = env.real(names[4], gt=0, lo=60, hi=1000, log=True)
    env.assume(env.and_(x0 < x1, x1 < x2))
    a = env.real(names[1], lo=-2.5, hi=1.5)
    b = env.real(names[3], lo=-3.5, hi=0.5)
    ia = env.choice("first index -1", [False, True])
    ib = env.choice("second index -1", [False, True])
    if env.symbolic:
        env.assume(a == -1 if ia else env.not_(a == -1))
        env.assume(b == -1 if ib else env.not_(b == -1))
    else:
        a, b = (-1.0 if ia else a), (-1.0 if ib else b)
        env.assume((abs(a + 1) > 1e-3 or ia) and (abs(b + 1) > 1e-3 or ib))
    p = P((x0, a, ia, x1, b, ib, x2))
    p.integrals = pieces(env, p)
    return p


class P(tuple):
    pass


def pieces(env, p):
    """the integrals of the two pieces"""
    x0, a, ia, x1, b, ib, x2 = p
    s1 = segment(env, x0, x1, a, ia)
    t2 = segment(env, x1, x2, b, ib)
    env.lemma("integral of the lower piece is positive", s1 > 0)
    env.lemma("integral of the upper piece is positive", t2 > 0)
    s2 = env.pow(x1, a - b) * t2
    env.lemma("weight of the upper piece is positive", s2 > 0)
    return s1, s2


def bpl_law(env, x, n, p, label):
    x0, a, ia, x1, b, ib, x2 = p
    s1, s2 = p.integrals
    env.law_mixture(label, x, n, s1 / (s1 + s2), lambda u: quantile(env, u, x0, x1, a, ia),
                    lambda u: quantile(env, u, x1, x2, b, ib))


def bpl_shape(env, x, p):
    """continuous broken power law, not normalized"""
    x0, a, ia, x1, b, ib, x2 = p
    return env.ite(env.and_(x > x0, x < x2), env.ite(x < x1, env.pow(pos(env, x), a),
                                                     env.pow(pos(env, x), b) * env.pow(x1, a - b)), 0)


@harness("C14", runs=36)
def bpl_draw(env):
    """a mixture of the two power laws, weighted by their integrals, each by inversion"""
    env.open_unit_interval()
    p = bpl_parameters(env)
    d = env.cls(D + "bpl_distribution.BPLDistribution")()
    d.Lmin, d.alpha, d.Lbreak, d.beta, d.Lmax = p[0], p[1], p[3], p[4], p[6]
    n = env.size("n", conc=BIG)
    x = d.draw_luminosity(n)
    bpl_law(env, x, n, p, "broken power law")
    if not env.symbolic:
        env.forall(n, lambda i: env.and_(env.at(x, i) >= p[0] * (1 - 1e-9), env.at(x, i) <= p[6] * (1 + 1e-9)),
                   "within the limits")


@harness("C14", runs=30)
def bpl_density(env):
    """bpl(x) is the shape divided by the sum of the two integrals, zero outside"""
    p = bpl_parameters(env)
    n = env.size("n")
    L = lum_array(env, n, gt=0)
    keep = env.copy(L)
    x0, a, ia, x1, b, ib, x2 = p
    r = env.mod(D + "bpl_distribution").bpl(L, x0, x1, x2, a, b)
    c = p.integrals[0] + p.integrals[1]
    edge = lambda x: env.or_(x == x0, x == x2)
    env.check_len("density: length", r, n)
    env.forall(n, lambda i: env.or_(edge(env.at(keep, i)), env.eq(env.at(r, i), bpl_shape(env, env.at(keep, i), p) / c)),
               "broken power law density")
    env.check_array("luminosities unchanged", L, n, lambda i: env.at(keep, i), 0.0, 0.0)
    w1, w2, t = env.mod(D + "bpl_distribution").integrate_pl(x0, x1, x2, a, b)
    env.check("total integral", env.eq(t, c))
    env.check("weights", env.and_(env.eq(w1 * c, segment(env, x0, x1, a, ia)), env.eq(w1 + w2, 1)))


@harness("C14", runs=24)
def bpl_phi(env):
    """phi(L) times the integral of the shape is the shape"""
    p = bpl_parameters(env)
    d = env.cls(D + "bpl_distribution.BPLDistribution")()
    d.Lmin, d.alpha, d.Lbreak, d.beta, d.Lmax = p[0], p[1], p[3], p[4], p[6]
    n = env.size("n", conc=[0, 1, 3, 7])
    L = lum_array(env, n, gt=0)
    keep = env.copy(L)
    r = d.phi(L)
    x0, a, ia, x1, b, ib, x2 = p
    if env.symbolic:
        total = env.integral(lambda x: bpl_shape(env, x, p), x0, x2)
    else:
        total = p.integrals[0] + p.integrals[1]
    env.check_len("density: length", r, n)
    env.forall(n, lambda i: env.or_(env.at(keep, i) == x0, env.at(keep, i) == x2,
                                    env.eq(env.at(r, i) * total, bpl_shape(env, env.at(keep, i), p), 1e-6, 1e-12)),
               "broken power law density of the distribution")
    env.check_array("luminosities unchanged", L, n, lambda i: env.at(keep, i), 0.0, 0.0)
    env.check("parameters unchanged", env.and_(env.exact(d.Lmin, x0), env.exact(d.alpha, a), env.exact(d.Lbreak, x1),
                                               env.exact(d.beta, b), env.exact(d.Lmax, x2)))
