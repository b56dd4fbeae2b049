"""C15 Auxiliary samplers draw their stated law and measurement error, C19 Sky positions"""
import math

from popver.registry import harness
from contracts.c14_luminosity import bpl_parameters, bpl_law

AUX = "popsynth.aux_samplers."
BIG = [0, 1, 2, 2000, 5, 4000, 800]


def observe(env, s, n, label, law=None, extra=None):
    """draw, check the law of the true values and of the measurement error"""
    x, y, sig = s.true_values, s.obs_values, s.sigma
    env.check_len(label + ": true values", x, n)
    env.check_len(label + ": observed values", y, n)
    st = law(x) if law else None
    if s.observed:
        e = env.arr(n, lambda i: env.at(y, i) - env.at(x, i))
        if env.symbolic or sig > 1e-6:
            se = env.law(label + ": measurement error", e, n, lambda u, i: sig * env.nppf(u), atol=1e-9)
            env.independent(label + ": error independent of the value", *([st, se] if not isinstance(st, list) else st + [se]))
    else:
        env.check_array(label + ": observed values are the true values", y, n, lambda i: env.at(x, i), 0.0, 0.0)


def make(env, path, given, observed=None):
    """a sampler with an observed flag, sigma and other parameters"""
    obs = env.choice("observed", [True, False])
    s = env.cls(AUX + path)(name="x", observed=obs)
    sig = env.real("sigma", ge=0, lo=0.0, hi=2)
    s.sigma = sig
    given["sigma"] = sig
    for k, v in given.items():
        setattr(s, k, v)
    env.check("observed flag", bool(s.observed) == obs)
    return s


def close(env, s, given):
    for k, v in given.items():
        env.check("parameter %s unchanged" % k, env.exact(getattr(s, k), v))


@harness("C15", runs=30)
def delta(env):
    """true value is xp for every object"""
    env.open_unit_interval()
    p = dict(xp=env.real("xp"))
    s = make(env, "delta_aux_sampler.DeltaAuxSampler", p)
    n = env.size("n", conc=BIG)
    s.draw(n)
    env.check_array("delta", s.true_values, n, lambda i: p["xp"], 0.0, 0.0)
    observe(env, s, n, "delta")
    close(env, s, p)


def normal_parameters(env):
    return dict(mu=env.real("mu", lo=-3, hi=3), tau=env.real("tau", gt=0, lo=0.05, hi=2))


@harness("C15", runs=30)
def normal(env):
    """true values are normal(mu, tau)"""
    env.open_unit_interval()
    p = normal_parameters(env)
    s = make(env, "normal_aux_sampler.NormalAuxSampler", p)
    n = env.size("n", conc=BIG)
    s.draw(n)
    observe(env, s, n, "normal", lambda x: env.law("normal", x, n, lambda u, i: p["mu"] + p["tau"] * env.nppf(u)))
    close(env, s, p)


@harness("C15", runs=40)
def lognormal(env):
    """logarithms of the true values are normal(mu, tau)"""
    env.open_unit_interval()
    ten = env.choice("base", [False, True])
    p = normal_parameters(env)
    s = make(env, "lognormal_aux_sampler." + ("Log10NormalAuxSampler" if ten else "LogNormalAuxSampler"), p)
    n = env.size("n", conc=BIG)
    s.draw(n)

    def ppf(u, i):
        y = p["mu"] + p["tau"] * env.nppf(u)
        return env.pow(10.0, y) if ten else env.exp(y)
    observe(env, s, n, "log-normal", lambda x: env.law("log-normal", x, n, ppf))
    close(env, s, p)


@harness("C15", runs=30)
def truncated_normal(env):
    """normal(mu, tau) restricted to [lower, upper]"""
    env.open_unit_interval()
    p = normal_parameters(env)
    p["lower"] = env.real("lower", lo=-4, hi=0)
    p["upper"] = env.real("upper", lo=0.2, hi=4)
    env.assume(p["lower"] < p["upper"])
    s = make(env, "trunc_normal_aux_sampler.TruncatedNormalAuxSampler", p)
    n = env.size("n", conc=BIG)
    s.draw(n)
    a, b = (p["lower"] - p["mu"]) / p["tau"], (p["upper"] - p["mu"]) / p["tau"]
    truncated(env, s, n, p, a, b, lambda y: y)


def truncated(env, s, n, p, a, b, out):
    fa, fb = env.ncdf(a), env.ncdf(b)
    if not env.symbolic:
        env.assume(fb - fa > 1e-3)

    def ppf(u, i):
        return out(p["mu"] + p["tau"] * env.nppf(fa + u * (fb - fa)))
    observe(env, s, n, "truncated", lambda x: env.law("truncated law", x, n, ppf))
    x = s.true_values
    eps = 0.0 if env.symbolic else 1e-9 * (1 + abs(p["upper"]))
    env.forall(n, lambda i: env.and_(env.at(x, i) >= p["lower"] - eps, env.at(x, i) <= p["upper"] + eps), "within the limits")
    close(env, s, p)


@harness("C15", runs=50)
def truncated_lognormal(env):
    """log-normal laws restricted to [lower, upper] (a lower limit of zero: to the quantile 1e-5)"""
    env.open_unit_interval()
    ten = env.choice("base", [False, True])
    zero = env.choice("lower limit zero", [False, True])
    p = normal_parameters(env)
    lg = env.log10 if ten else env.log
    p["lower"] = 0.0 if zero else env.real("lower", gt=0, lo=0.01, hi=1, log=True)
    p["upper"] = env.real("upper", gt=0, lo=1.2, hi=50, log=True)
    a = env.nppf(1e-5) if zero else (lg(p["lower"]) - p["mu"]) / p["tau"]
    b = (lg(p["upper"]) - p["mu"]) / p["tau"]
    env.assume(p["lower"] < p["upper"])
    env.assume(a < b)
    s = make(env, "trunc_lognormal_aux_sampler." + ("TruncatedLog10NormalAuxSampler" if ten else
                                                  "TruncatedLogNormalAuxSampler"), p)
    n = env.size("n", conc=BIG)
    s.draw(n)
    truncated(env, s, n, p, a, b, lambda y: env.pow(10.0, y) if ten else env.exp(y))


@harness("C15", runs=30)
def pareto(env):
    """x_i = xmin (1 - u_i)^(-1/alpha)"""
    env.open_unit_interval()
    p = dict(xmin=env.real("xmin", gt=0, lo=0.1, hi=10), alpha=env.real("alpha", gt=0, lo=0.5, hi=4))
    s = make(env, "plaw_aux_sampler.ParetoAuxSampler", p)
    n = env.size("n", conc=BIG)
    s.draw(n)
    observe(env, s, n, "Pareto", lambda x: env.law("Pareto", x, n,
                                                   lambda u, i: p["xmin"] * env.pow(1 - u, -1 / p["alpha"])))
    x = s.true_values
    env.forall(n, lambda i: env.at(x, i) >= p["xmin"] * (1 - 1e-12), "at least xmin")
    close(env, s, p)


@harness("C15", runs=70)
def power_law(env):
    """inversion of x^alpha between xmin and xmax, also for alpha = -1 and for whole numbers"""
    env.open_unit_interval()
    if env.choice("parameters", ["real", "integer"]) == "real":
        lo = env.real("xmin", gt=0, lo=0.1, hi=5)
        hi = env.real("xmax", gt=0, lo=5.5, hi=80)
        a = env.real("alpha", lo=-3, hi=2)
    else:
        lo, hi, a = env.int("xmin", gt=0, lo=1, hi=5), env.int("xmax", gt=0, lo=6, hi=80), env.int("alpha", lo=-6, hi=1)
    env.assume(lo < hi)
    one = env.choice("index -1", [False, True])
    if env.symbolic:
        env.assume(a == -1 if one else env.not_(a == -1))
    else:
        a = type(a)(-1) if one else a
        env.assume(one or abs(a + 1) > 1e-3)
    p = dict(xmin=lo, xmax=hi, alpha=a)
    s = make(env, "plaw_aux_sampler.PowerLawAuxSampler", p)
    n = env.size("n", conc=BIG)
    s.draw(n)

    def ppf(u, i):
        if one:
            return lo * env.pow(hi / lo, u)
        f, g = env.pow(lo, a + 1), env.pow(hi, a + 1)
        return env.pow((g - f) * u + f, 1 / (a + 1))
    observe(env, s, n, "power law", lambda x: env.law("power law", x, n, ppf))
    if not env.symbolic:
        x = s.true_values
        env.forall(n, lambda i: env.and_(env.at(x, i) >= lo * (1 - 1e-9), env.at(x, i) <= hi * (1 + 1e-9)),
                   "within the limits")
    close(env, s, p)


@harness("C15", runs=40)
def broken_power_law(env):
    """mixture of the two power laws weighted by their integrals"""
    env.open_unit_interval()
    q = bpl_parameters(env, ("xmin", "alpha", "xbreak", "beta", "xmax"))
    p = dict(xmin=q[0], alpha=q[1], xbreak=q[3], beta=q[4], xmax=q[6])
    s = make(env, "plaw_aux_sampler.BrokenPowerLawAuxSampler", p)
    n = env.size("n", conc=BIG)
    s.draw(n)
    observe(env, s, n, "broken power law", lambda x: bpl_law(env, x, n, q, "broken power law"))
    close(env, s, p)


@harness("C15", runs=30)
def viewing_angle(env):
    """cosine of the angle is uniform between 1 and cos(max_angle)"""
    env.open_unit_interval()
    s = env.cls(AUX + "viewing_angle_sampler.ViewingAngleSampler")()
    m = env.real("max_angle", gt=0, le=180, lo=5)
    s.max_angle = m
    n = env.size("n", conc=BIG)
    s.draw(n)
    x = s.true_values
    cm = env.cos(env.rad(m))
    env.law("viewing angle", x, n, lambda u, i: env.acos(1 - u * (1 - cm)))
    env.check_array("observed values are the true values", s.obs_values, n, lambda i: env.at(x, i), 0.0, 0.0)
    env.check("not observed", not s.observed)
    env.forall(n, lambda i: env.and_(env.at(x, i) >= 0, env.at(x, i) <= math.pi), "between 0 and pi")
    env.forall(n, lambda i: env.cos(env.at(x, i)) >= cm - 1e-12, "not beyond max_angle")
    env.check("parameter unchanged", env.exact(s.max_angle, m))


# ---------------------------------------------------------------------------------------------------- C19
SG = "popsynth.utils.spherical_geometry"


@harness("C19", runs=24)
def theta_phi(env):
    """cos(theta_i) = 1 - 2 u_i, phi_i = 2 pi v_i with independent u and v"""
    env.open_unit_interval()
    n = env.size("n", conc=BIG)
    theta, phi = env.mod(SG).sample_theta_phi(n)
    a = env.law("polar angle", theta, n, lambda u, i: env.acos(1 - 2 * u))
    b = env.law("azimuth", phi, n, lambda u, i: 2 * math.pi * u)
    env.independent("angles independent", a, b)
    pairs(env, theta, phi, n)


def pairs(env, theta, phi, n):
    env.forall(n, lambda i: env.and_(env.at(theta, i) >= 0, env.at(theta, i) <= math.pi), "polar angle in [0, pi]")
    env.forall(n, lambda i: env.and_(env.at(phi, i) >= 0, env.at(phi, i) < 2 * math.pi), "azimuth in [0, 2 pi)")
    if not env.symbolic and n >= 400:
        r = env.np.corrcoef(theta, phi)[0, 1]
        env.check("angles uncorrelated", abs(r) < 6 / math.sqrt(n))


DISTS = ["spherical_distribution.ConstantSphericalDistribution",
         "spherical_distribution.ZPowerSphericalDistribution", "cosmological_distribution.SFRDistribution",
         "cosmological_distribution.ZPowerCosmoDistribution", "uniform_distribution.UniformCosmoDistribution",
         "flatland_distribution.FlatlandDistribution"]


@harness("C19", runs=40)
def distribution_sky(env):
    """draw_sky_positions draws both angles; ra and dec are their conversions to degrees; xyz of a population too"""
    env.open_unit_interval()
    name = env.choice("distribution", DISTS)
    d = env.cls("popsynth.distributions." + name)()
    n = env.size("n", conc=BIG)
    d.draw_sky_positions(n)
    theta, phi = d.theta, d.phi
    a = env.law("polar angle", theta, n, lambda u, i: env.acos(1 - 2 * u))
    b = env.law("azimuth", phi, n, lambda u, i: 2 * math.pi * u)
    env.independent("angles independent", a, b)
    pairs(env, theta, phi, n)
    env.check_array("declination", d.dec, n, lambda i: 90 - env.deg(env.at(theta, i)))
    env.check_array("right ascension", d.ra, n, lambda i: env.deg(env.at(phi, i)))
    d._distances = env.array("r", n, ge=0, lo=0, hi=20)
    sv = d.spatial_values
    env.check_same("container: distance", sv.distance, d._distances)
    env.check_same("container: theta", sv.theta, theta)
    env.check_same("container: phi", sv.phi, phi)
    env.check_array("container: declination", sv.dec, n, lambda i: 90 - env.deg(env.at(theta, i)))
    env.check_array("container: right ascension", sv.ra, n, lambda i: env.deg(env.at(phi, i)))

ARMS = [(4.25, 3.48, 0.0), (4.25, 3.48, 3.141), (4.89, 4.90, 2.525), (4.89, 4.90, 5.666)]


@harness("C19", runs=24)
def spiral_sky(env):
    """each object of the spiral galaxy is on one of the four arms k log(r/r0) + theta0, ahead of it by at most a full
    turn times exp(-0.35 r); its distance is scattered by seven percent; its polar angle is in [0, pi]"""
    env.open_unit_interval()
    n = env.size("n", conc=BIG)
    d = env.cls("popsynth.distributions.spiral_galaxy_distribution.SpiralGalaxyDistribution")()
    r = env.array("r", n, gt=0, lo=0.05, hi=20)
    keep = env.copy(r)
    d._distances = r
    d.draw_sky_positions(n)
    theta, phi, s = d.theta, d.phi, d.distances

    def on_arm(i, k, r0, t0):
        x = env.at(keep, i)
        off = env.at(phi, i) - (k * env.log(env.div(x, r0)) + t0)
        return env.and_(off >= -1e-9, off <= 2 * math.pi * env.exp(-0.35 * x) + 1e-9)
    env.forall(n, lambda i: env.or_(*[on_arm(i, *a) for a in ARMS]), "on one of the four arms")
    env.law("relative scatter of the distance", (s - keep) / keep, n, lambda u, i: 0.07 * env.nppf(u), atol=1e-9)
    env.forall(n, lambda i: env.and_(env.at(theta, i) >= 0, env.at(theta, i) <= math.pi), "polar angle in [0, pi]")
    env.check_len("one polar angle per object", theta, n)
    env.check_len("one azimuth per object", phi, n)
    env.check_array("the distances drawn before are unchanged", r, n, lambda i: env.at(keep, i))


@harness("C19", runs=24)
def sky_samplers(env):
    """standalone right ascension and declination samplers, in radians"""
    env.open_unit_interval()
    n = env.size("n", conc=BIG)
    sky = env.cls(AUX + "sky_sampler.SkySampler")()
    ra, dec = sky.ra_sampler, sky.dec_sampler
    ra.draw(n)
    dec.draw(n)
    a = env.law("right ascension", ra.true_values, n, lambda u, i: 2 * math.pi * u)
    b = env.law("declination", dec.true_values, n, lambda u, i: env.asin(2 * u - 1))
    env.independent("independent", a, b)
    env.check_array("right ascension: observed", ra.obs_values, n, lambda i: env.at(ra.true_values, i), 0.0, 0.0)
    env.check_array("declination: observed", dec.obs_values, n, lambda i: env.at(dec.true_values, i), 0.0, 0.0)
    other = env.cls(AUX + "sky_sampler.SkySampler")(ra_sampler=ra, dec_sampler=dec)
    env.check("given samplers are used", other.ra_sampler is ra and other.dec_sampler is dec)


@harness("C19", runs=30)
def cartesian(env):
    """x = r sin(theta) cos(phi), y = r sin(theta) sin(phi), z = r cos(theta); the radius is preserved"""
    n = env.size("n")
    r = env.array("r", n, ge=0, lo=0, hi=20)
    theta = env.array("theta", n, lo=0, hi=math.pi)
    phi = env.array("phi", n, lo=0, hi=2 * math.pi)
    x, y, z = env.mod(SG).xyz(r, theta, phi)

    def want(i):
        a, t, p = env.at(r, i), env.at(theta, i), env.at(phi, i)
        return a * env.sin(t) * env.cos(p), a * env.sin(t) * env.sin(p), a * env.cos(t)
    env.check_array("x", x, n, lambda i: want(i)[0])
    env.check_array("y", y, n, lambda i: want(i)[1])
    env.check_array("z", z, n, lambda i: want(i)[2])
    env.forall(n, lambda i: env.eq(env.at(x, i) * env.at(x, i) + env.at(y, i) * env.at(y, i) + env.at(z, i) * env.at(z, i),
                                   env.at(r, i) * env.at(r, i)), "radius is preserved")
