"""C11 A survey is determined by its seed and configuration"""
from popver.registry import harness
from contracts.ghosts import Ghosts, Survey
from contracts.popcmp import snapshot, same
from contracts.c14_luminosity import bpl_parameters


def configured(env, G, shape, seed, par):
    S = Survey(env, G, shape, flux=True, distance=True, spatial=par["spatial"], seed=seed)
    S.space.Lambda = par["Lambda"]
    S.space.r_max = par["r_max"]
    if S.lum is not None:
        S.lum.L0 = par["L0"]
    for k, s in S.samplers.items():
        s.mu = par["mu"]
    return S


def parameters(env, wide):
    return dict(Lambda=env.real("Lambda", gt=0, lo=0.2, hi=2), r_max=env.real("r_max", gt=0, lo=0.5, hi=3),
                L0=env.real("L0", gt=0, lo=0.5, hi=3), mu=env.real("mu", lo=-2, hi=2),
                spatial=env.choice("spatial", [False, True]) if wide else True)


def noise(env, tag, n):
    """arbitrary use of random numbers"""
    env.fresh_stream(tag)
    env.np.random.uniform(size=n)
    env.np.random.normal(0, 1, 3)


def determined(env, shape, wide=False):
    s = env.int("seed", ge=0, lt=2 ** 32, lo=0, hi=5000)
    par = parameters(env, wide)
    how = env.choice("number", ["given", "poisson"]) if wide else "given"
    kw = {}
    n = env.size("n")
    if how == "given":
        kw["n_samples"] = n
    scatter = env.choice("scatter", [None, "log10", "log"] if wide else [None, "log10"])
    if scatter:
        kw["flux_sigma"] = env.real("flux_sigma", gt=0, lo=0.05, hi=1)
        kw["log10_flux_draw"] = scatter == "log10"
    k = env.size("k")
    G = Ghosts(env)
    noise(env, "before", k)
    A = configured(env, G, shape, s, par)
    mark = env.stream_mark()
    a = A.synth.draw_survey(**kw)
    env.only_stream("random numbers of the seed", mark, seed=s)
    first = snapshot(env, a)
    env.check("reported seed", env.eq(a._seed, s))
    env.check("seed in the configuration", env.eq(a.pop_synth["seed"], s))
    noise(env, "between", k)
    B = configured(env, G, shape, s, par)
    noise(env, "after setting up", k)
    same(env, "another synth", first, snapshot(env, B.synth.draw_survey(**kw)))
    noise(env, "again", k)
    same(env, "drawn again", first, snapshot(env, A.synth.draw_survey(**kw)))


@harness("C11", runs=10)
def one(env):
    """a luminosity distribution and a sampler"""
    determined(env, "one", True)


@harness("C11", runs=10)
def nested(env):
    """secondary samplers"""
    determined(env, "nested")


@harness("C11", runs=10)
def shared(env):
    """a secondary of two samplers"""
    determined(env, "shared")


@harness("C11", runs=10)
def derived(env):
    """derived luminosities"""
    determined(env, "derived")


@harness("C11", runs=20)
def kinds(env):
    """integers, whole floats, numpy integers and strings of digits are seeds"""
    s = env.int("seed", ge=0, lt=2 ** 32, lo=0, hi=5000)
    kind = env.choice("kind", ["integer", "float", "numpy", "string", "default"])
    n = env.size("n")
    if kind == "string":
        s, given = 4711, "4711"
    elif kind == "default":
        s, given = 1234, None
    else:
        given = {"integer": lambda: s, "float": lambda: s * 1.0, "numpy": lambda: env.np.int64(s)}[kind]()
    G = Ghosts(env)
    A, B = [Survey(env, G, "one", seed=x) for x in (given, s)]
    mark = env.stream_mark()
    a = A.synth.draw_survey(n_samples=n)
    env.only_stream("random numbers of the seed", mark, seed=s)
    env.check("reported seed", env.eq(a._seed, s))
    env.check("seed in the configuration", env.eq(A.synth.to_dict()["seed"], s))
    same(env, "as with an integer", snapshot(env, a), snapshot(env, B.synth.draw_survey(n_samples=n)))


@harness("C11", runs=12)
def from_dict(env):
    """the seed of a configuration file is the seed of the synth"""
    s = env.int("seed", ge=0, lt=2 ** 32, lo=0, hi=5000)
    n = env.size("n")
    PS = env.mod("popsynth.population_synth").PopulationSynth
    env.mod("popsynth")
    d = {"seed": s, "luminosity distribution": {"ParetoDistribution": {"Lmin": 1.0, "alpha": 1.5}},
         "spatial distribution": {"FlatlandDistribution": {"Lambda": 1.0, "r_max": 2.0}}}
    a = PS.from_dict(d)
    env.check("seed", env.eq(a.to_dict()["seed"], s))
    if env.symbolic:
        return
    mark = env.stream_mark()
    first = snapshot(env, a.draw_survey(n_samples=n))
    env.only_stream("random numbers of the seed", mark, seed=s)
    env.fresh_stream("other")
    same(env, "another synth", first, snapshot(env, PS.from_dict(d).draw_survey(n_samples=n)))


# ------------------------------------------------------------ what is drawn by one component
D, X, S = "popsynth.distributions.", "popsynth.aux_samplers.", "popsynth.selection_probability."
LUM = {"bpl_distribution.BPLDistribution": dict(Lmin=1, alpha=-1.5, Lbreak=3, beta=-2.5, Lmax=9),
       "delta_distribution.DeltaDistribution": dict(Lp=3), "log10_normal_distribution.Log10NormalDistribution": dict(mu=0, tau=1),
       "log_normal_distribution.LogNormalDistribution": dict(mu=0, tau=1),
       "pareto_distribution.ParetoDistribution": dict(Lmin=1, alpha=2),
       "schechter_distribution.SchechterDistribution": dict(Lmin=1, alpha=1),
       "uniform_distribution.LogUniLuminiosityDistribution": dict(Lmin=1, Lmax=7)}
AUX = {"delta_aux_sampler.DeltaAuxSampler": dict(xp=1, sigma=1), "lognormal_aux_sampler.LogNormalAuxSampler": dict(mu=0, tau=1, sigma=1),
       "lognormal_aux_sampler.Log10NormalAuxSampler": dict(mu=0, tau=1, sigma=1),
       "normal_aux_sampler.NormalAuxSampler": dict(mu=0, tau=1, sigma=1),
       "plaw_aux_sampler.ParetoAuxSampler": dict(xmin=1, alpha=2, sigma=1),
       "plaw_aux_sampler.PowerLawAuxSampler": dict(xmin=1, xmax=4, alpha=-2, sigma=1),
       "plaw_aux_sampler.BrokenPowerLawAuxSampler": dict(xmin=1, alpha=-1.5, xbreak=2, beta=-3, xmax=5, sigma=1),
       "trunc_lognormal_aux_sampler.TruncatedLogNormalAuxSampler": dict(mu=0, tau=1, sigma=1, lower=0.5, upper=3),
       "trunc_lognormal_aux_sampler.TruncatedLog10NormalAuxSampler": dict(mu=0, tau=1, sigma=1, lower=0.5, upper=3),
       "trunc_normal_aux_sampler.TruncatedNormalAuxSampler": dict(mu=0, tau=1, sigma=1, lower=-0.5, upper=1),
       "viewing_angle_sampler.ViewingAngleSampler": dict(max_angle=60), "sky_sampler.RASampler": {}, "sky_sampler.DecSampler": {}}
SPACE = {"spherical_distribution.ConstantSphericalDistribution": dict(Lambda=1),
         "spherical_distribution.ZPowerSphericalDistribution": dict(Lambda=1, delta=1),
         "cosmological_distribution.SFRDistribution": dict(r0=1, a=1, rise=1, decay=3, peak=2),
         "cosmological_distribution.ZPowerCosmoDistribution": dict(Lambda=1, delta=1),
         "uniform_distribution.UniformCosmoDistribution": dict(r0=1, zmin=0, zmax=2),
         "flatland_distribution.FlatlandDistribution": dict(Lambda=1),
         "spiral_galaxy_distribution.SpiralGalaxyDistribution": dict(rho=1, a=1, b=1, R1=1, R0=1)}


def component(env, base, table, which, vary, bpl=None, **kw):
    """vary: other values of the parameters"""
    o = env.cls(base + which)(**kw)
    par = {k: v * (1.5 if vary and k not in ("lower", "upper") else 1) for k, v in table[which].items()}
    if bpl is not None:
        for k, v in zip(("min", "alpha", "break", "beta", "max"), (bpl[0], bpl[1], bpl[3], bpl[4], bpl[6])):
            par[[q for q in par if q.endswith(k)][0]] = v
    for k, v in par.items():
        setattr(o, k, v)
    return o


def broken(env, name):
    return bpl_parameters(env) if name.startswith("bpl") or "Broken" in name else None


def repeated(env, make, draw, read, equal=True):
    """the numbers of a component depend on the generator and on nothing drawn before"""
    n = env.size("n", conc=[0, 1, 2, 40, 7])
    k = env.size("k")
    a, other, b = make(False), make(True), make(False)
    env.fresh_stream("before")
    draw(other, k)
    env.fresh_stream("s")
    mark = env.stream_mark()
    draw(a, n)
    env.only_stream("random numbers of the generator", mark, tag="s")
    first = read(a)
    env.fresh_stream("between")
    env.np.random.uniform(size=k)
    env.fresh_stream("s")
    draw(b, n)
    if not env.symbolic or equal:
        for p, q in zip(first, read(b)):
            env.check_same("another instance", p, q)
    env.fresh_stream("s")
    draw(a, n)
    if not env.symbolic or equal:
        for p, q in zip(first, read(a)):
            env.check_same("drawn again", p, q)


@harness("C11", runs=21)
def luminosities(env):
    """luminosity distributions use the seeded generator only"""
    env.open_unit_interval()
    name = env.choice("distribution", sorted(LUM))
    val, q = {}, broken(env, name)

    def draw(d, n):
        val[id(d)] = d.draw_luminosity(n)
    repeated(env, lambda v: component(env, D, LUM, name, v, q), draw, lambda d: [env.copy(val[id(d)])])


@harness("C11", runs=39)
def samplers(env):
    """auxiliary samplers use the seeded generator only"""
    env.open_unit_interval()
    name = env.choice("sampler", sorted(AUX))
    kw = {} if name.startswith(("sky", "view")) else {"name": "x"}
    q = broken(env, name)

    def draw(s, n):
        s.reset()
        s.draw(n)
    repeated(env, lambda v: component(env, X, AUX, name, v, q, **kw), draw,
             lambda s: [env.copy(s.true_values), env.copy(s.obs_values)])


@harness("C11", runs=21)
def distances(env):
    """spatial distributions use the seeded generator only, with or without progress display"""
    env.open_unit_interval()
    env.progress(env.choice("progress", [True, False]))
    name = env.choice("distribution", sorted(SPACE))
    normalize = env.choice("normalize", [False, True])
    G = Ghosts(env)

    def make(v):
        d = component(env, D, SPACE, name, v)
        d.r_max = 2.0
        if env.symbolic and not name.startswith("flat"):
            # the densities are functions of the radius (C18)
            for k in ("dNdV", "differential_volume", "time_adjustment"):
                env.stub(d, k, G.f1(k + str(v), True))
        return d
    repeated(env, make, lambda d, n: d.draw_distance(n, normalize=normalize), lambda d: [env.copy(d.distances)], equal=False)


@harness("C11", runs=14)
def sky(env):
    """sky positions use the seeded generator only"""
    env.open_unit_interval()
    name = env.choice("distribution", sorted(set(SPACE) - {"spiral_galaxy_distribution.SpiralGalaxyDistribution"}))
    repeated(env, lambda v: component(env, D, SPACE, name, v), lambda d, n: d.draw_sky_positions(n),
             lambda d: [env.copy(d.theta), env.copy(d.phi)])


@harness("C11", runs=12)
def selections(env):
    """random selections use the seeded generator only"""
    env.open_unit_interval()
    progress = env.choice("progress", [True, False])
    env.progress(progress)
    name = env.choice("selection", ["generic_selectors.BernoulliSelection", "generic_selectors.SoftSelection",
                                    "flux_selectors.SoftFluxSelection"])
    val = {}

    def make(v):
        if "Bernoulli" in name:
            s = env.cls(S + name)()
            s.probability = 0.8 if v else 0.4
        else:
            s = env.cls(S + name)(**({"use_flux": True} if "generic" in name else {}))
            s.boundary, s.strength = (2, 3) if v else (1, 2)
        return s

    def draw(s, n):
        s.reset()
        f = val.setdefault(str(n), env.array("flux_%d" % len(val), n, gt=0, lo=0.2, hi=4))
        s.set_observed_flux(f)
        s.draw(n)
    repeated(env, make, draw, lambda s: [env.copy(s.selection)],
             equal=not progress)
