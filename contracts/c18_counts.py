"""C18 Expected counts follow from the spatial model"""
from popver.registry import harness
from contracts.ghosts import Ghosts, Survey

D = "popsynth.distributions."


def space(env, G, norm):
    if norm:
        s = G.Space()
    else:
        base, par = G.Space, G.dist.DistributionParameter

        class Plain(G.dist.SpatialDistribution):
            _distribution_name = "GhostPlain"
            Lambda = par(default=1, vmin=0)
            dNdV, differential_volume, time_adjustment = base.dNdV, base.differential_volume, base.time_adjustment
            transform, draw_distance = base.transform, base.draw_distance
        s = Plain(name="space", seed=1, form="rho")
    return s


@harness("C18", runs=8)
def mean_count(env):
    """number of objects ~ Poisson(integral of density times volume over time adjustment)"""
    count(env, False)


@harness("C18", runs=8)
def normalized_count(env):
    """with normalization the integral is divided by that for a normalization parameter of one"""
    count(env, True)


def count(env, normalize):
    G = Ghosts(env)
    norm = env.choice("normalization parameter", [True, False])
    k = env.real("Lambda", gt=0, lo=0.2, hi=9)
    rm = env.real("r_max", gt=0, lo=0.5, hi=4)
    unset = env.choice("default parameter", [False, True])
    sp = space(env, G, norm)
    if not unset:
        sp.Lambda = k
    else:
        k = 1
    sp.r_max = rm
    lum = G.Lum()
    lum.L0 = 3
    PS = env.mod("popsynth.population_synth").PopulationSynth

    def sample(seed):
        synth = PS(sp, lum) if seed is None else PS(sp, lum, seed=seed)
        pop = synth.draw_survey(normalize=True) if normalize else synth.draw_survey()
        return pop.n_objects

    def dn(r, q):
        return env.div(G.f2("density", True)(r, q) * G.f1("volume", True)(r), G.f1("adjustment", True)(r))
    mean = env.integral(lambda r: dn(r, k), 0.0, rm)
    if normalize:
        mean = env.div(mean, env.integral(lambda r: dn(r, 1 if norm else k), 0.0, rm))
    env.poisson("number of objects", sample, mean)
    env.check("normalization parameter unchanged", env.exact(sp.Lambda, k))
    env.check("maximum distance unchanged", env.exact(sp.r_max, rm))
    env.check("luminosity parameter unchanged", env.exact(lum.L0, 3))


@harness("C18", runs=20)
def requested_count(env):
    """exactly the requested number of objects, normalized or not"""
    n = env.size("n")
    G = Ghosts(env)
    S = Survey(env, G, "one", distance=False)
    k = env.real("Lambda", gt=0, lo=0.2, hi=9)
    S.space.Lambda = k
    m = env.real("mu", lo=-3, hi=3)
    S.samplers["a"].mu = m
    normalize = env.choice("normalize", [False, True])
    pop = S.synth.draw_survey(n_samples=n, normalize=True) if normalize else S.synth.draw_survey(n_samples=n)
    env.check("number of objects", env.eq(pop.n_objects, n))
    env.check_len("distances", pop.distances, n)
    d = [c for c in G.calls if c[0] == "draw_distance"]
    env.check("distances drawn once for that number", len(d) == 1 and env.eq(d[0][1], n))
    env.check("normalization is passed on", len(d) == 1 and bool(d[0][2]) == normalize)
    env.check("density parameter unchanged", env.exact(S.space.Lambda, k))
    env.check("sampler parameter unchanged", env.exact(S.samplers["a"].mu, m))


# ---------------------------------------------------------------------------- formulas
def points(env, **kw):
    """a distance, as a number or as an array"""
    kw = kw or dict(ge=0, lo=0.0, hi=8)
    if env.choice("array", [False, True]):
        n = env.size("n")
        z = env.array("z", n, **kw)
        keep = env.copy(z)
        return z, keep, n
    x = env.real("z", **kw)
    return x, x, None


def everywhere(env, label, value, z, n, f, same=None):
    same = same or env.eq
    if n is None:
        env.check(label, same(value, f(z)))
    elif env.is_array(value):
        env.check_len(label + ": length", value, n)
        env.forall(n, lambda i: same(env.at(value, i), f(env.at(z, i))), label + ": every entry")
    else:
        env.forall(n, lambda i: same(value, f(env.at(z, i))), label)


def params(env, d, **kw):
    out = {}
    for k, b in kw.items():
        out[k] = env.real(k, **b)
        setattr(d, k, out[k])
    return out


POS = dict(gt=0, lo=0.2, hi=6)
ANY = dict(lo=-3, hi=3)


@harness("C18", runs=30)
def spherical(env):
    """constant: Lambda; power law: Lambda (1+r)^delta; volume 4 pi r^2; flux L / (4 pi (r+1)^2)"""
    z, keep, n = points(env)
    power = env.choice("power law", [False, True])
    d = env.cls(D + "spherical_distribution." + ("ZPowerSphericalDistribution" if power else "ConstantSphericalDistribution"))()
    p = params(env, d, **({"Lambda": POS, "delta": ANY} if power else {"Lambda": POS}))
    if power:
        everywhere(env, "density", d.dNdV(z), keep, n, lambda x: p["Lambda"] * env.pow(1 + x, p["delta"]))
    else:
        everywhere(env, "density", d.dNdV(z), keep, n, lambda x: p["Lambda"])
    sphere(env, d, z, keep, n)


def sphere(env, d, z, keep, n):
    pi = 3.141592653589793
    everywhere(env, "volume", d.differential_volume(z), keep, n, lambda x: 4 * pi * x * x)
    everywhere(env, "time", d.time_adjustment(z), keep, n, lambda x: 1)
    if n is None:
        L = env.real("L", **POS)
        everywhere(env, "flux", d.transform(L, z), keep, n, lambda x: env.div(L, 4 * pi * (x + 1) * (x + 1)))
    else:
        L = env.array("L", n, **POS)
        f = d.transform(L, z)
        env.check_array("flux", f, n, lambda i: env.div(env.at(L, i), 4 * pi * (env.at(keep, i) + 1) * (env.at(keep, i) + 1)))
        env.check_array("distances unchanged", z, n, lambda i: env.at(keep, i))


@harness("C18", runs=30)
def spiral(env):
    """rho ((r+R1)/(R0+R1))^a exp(-b (r-R0)/(R0+R1))"""
    z, keep, n = points(env)
    d = env.cls(D + "spiral_galaxy_distribution.SpiralGalaxyDistribution")()
    p = params(env, d, rho=POS, a=ANY, b=ANY, R1=POS, R0=POS)
    w = p["R0"] + p["R1"]
    everywhere(env, "density", d.dNdV(z), keep, n, lambda x: p["rho"] * env.pow(env.div(x + p["R1"], w), p["a"]) *
               env.exp(env.div(-p["b"] * (x - p["R0"]), w)))
    sphere(env, d, z, keep, n)


@harness("C18", runs=30)
def flat(env):
    """flatland: constant density, unit volume, flux equal to luminosity"""
    z, keep, n = points(env)
    d = env.cls(D + "flatland_distribution.FlatlandDistribution")()
    p = params(env, d, Lambda=POS)
    everywhere(env, "density", d.dNdV(z), keep, n, lambda x: p["Lambda"])
    everywhere(env, "volume", d.differential_volume(z), keep, n, lambda x: 1)
    L = env.real("L", **POS)
    env.check("flux", env.eq(d.transform(L, z), L))


@harness("C18", runs=30)
def cosmological(env):
    """star formation r0 (a + rise z)/(1 + (z/peak)^decay); power law Lambda (1+z)^delta; uniform r0/(zmax-zmin)"""
    z, keep, n = points(env, **POS)
    C = D + "cosmological_distribution."
    which = env.choice("density", ["sfr", "power", "uniform"])
    if which == "sfr":
        d = env.cls(C + "SFRDistribution")()
        p = params(env, d, r0=POS, a=POS, rise=ANY, decay=ANY, peak=POS)
        f = lambda x: env.div(p["r0"] * (p["a"] + p["rise"] * x), 1 + env.pow(env.div(x, p["peak"]), p["decay"]))
    elif which == "power":
        d = env.cls(C + "ZPowerCosmoDistribution")()
        p = params(env, d, Lambda=POS, delta=ANY)
        f = lambda x: p["Lambda"] * env.pow(1 + x, p["delta"])
    else:
        d = env.cls(D + "uniform_distribution.UniformCosmoDistribution")()
        p = params(env, d, r0=POS, zmin=POS, zmax=POS)
        env.assume(p["zmax"] > p["zmin"])
        f = lambda x: env.div(p["r0"], p["zmax"] - p["zmin"])
    everywhere(env, "density", d.dNdV(z), keep, n, f)
