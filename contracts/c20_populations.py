"""C20 Ready-made populations are built from the arguments they are given"""
from popver.registry import harness

SPATIAL = {
    "HomogeneousSpherical": ("spherical_distribution.ConstantSphericalDistribution", "SphericalPopulation", ["Lambda"], False),
    "ZPowerSpherical": ("spherical_distribution.ZPowerSphericalDistribution", "ZPowerSphericalPopulation",
                        ["Lambda", "delta"], False),
    "ZPowerCosmo": ("cosmological_distribution.ZPowerCosmoDistribution", "ZPowerCosmoPopulation", ["Lambda", "delta"], True),
    "SFR": ("cosmological_distribution.SFRDistribution", "SFRPopulation", ["r0", "a", "rise", "decay", "peak"], True),
}
MW = ("spiral_galaxy_distribution.SpiralGalaxyDistribution", "MWRadialPopulation", ["rho", "a", "b", "R1", "R0"], False)
LUM = {
    "Pareto": ("pareto_distribution.ParetoDistribution", "pareto_populations", ["Lmin", "alpha"]),
    "Schechter": ("schechter_distribution.SchechterDistribution", "schechter_populations", ["Lmin", "alpha"]),
    "LogNormal": ("log_normal_distribution.LogNormalDistribution", "lognormal_population", ["mu", "tau"]),
    "Log10Normal": ("log10_normal_distribution.Log10NormalDistribution", "lognormal_population", ["mu", "tau"]),
    "BPL": ("bpl_distribution.BPLDistribution", "bpl_population", ["Lmin", "alpha", "Lbreak", "beta", "Lmax"]),
}
DIST = "popsynth.distributions."
ANY = {"delta", "rise", "decay", "alpha", "beta", "mu", "b", "R1", "R0"}


def value(env, k, spatial=False, mw=False):
    """any value of the parameter's range"""
    return env.real(("s_" if spatial else "l_") + k, **({} if k in ANY or (mw and k == "a") else {"ge": 0}))


def common(env, cls, spatial, names, cosmo, given, lum=None, lum_names=(), own_lum=None, rmax=5):
    n = env.choice("call", ["keywords", "positions", "defaults"])
    seed = env.int("seed", ge=0, lt=2 ** 31)
    r = env.real("r_max", ge=0)
    rate = env.choice("is_rate", [True, False]) if cosmo else None
    if n == "keywords":
        kw = dict(given, r_max=r, seed=seed)
        if cosmo:
            kw["is_rate"] = rate
        if own_lum is not None:
            kw["luminosity_distribution"] = own_lum
        s = cls(**kw)
    elif n == "positions":
        tail = [r, seed] + ([own_lum] if own_lum is not None else []) + ([rate] if cosmo else [])
        if cosmo and own_lum is None and lum is None:
            tail = [r, seed, None, rate]
        s = cls(*(list(given.values()) + tail))
    else:
        s = cls(**given)
        rate = True
    d = s.spatial_distribution
    env.check("spatial distribution", type(d) is env.cls(DIST + spatial))
    for k in names:
        env.check("spatial parameter %s" % k, env.exact(getattr(d, k), given[k]))
    if n == "defaults":
        r, seed = rmax, 1234
    env.check("maximum distance", env.exact(d.r_max, r))
    env.check("seed of the synth", env.exact(s._seed, seed))
    env.check("seed of the spatial distribution", env.exact(d._seed, seed))
    if cosmo:
        env.check("transient or steady", bool(d._is_rate) == rate)
        z = env.real("z", ge=0)
        t = d.time_adjustment(z)
        env.check("time adjustment", env.eq(t, 1 + z) if rate else env.eq(t, 1))
    L = s.luminosity_distribution
    if lum is not None:
        env.check("luminosity distribution", type(L) is env.cls(DIST + lum))
        for k in lum_names:
            env.check("luminosity parameter %s" % k, env.exact(getattr(L, k), given[k]))
        env.check("seed of the luminosity distribution", env.exact(L._seed, seed))
    elif n == "defaults":
        env.check("no luminosity distribution", L is None)
    else:
        env.check("given luminosity distribution", L is own_lum)
    return s


@harness("C20", runs=200, functions="popsynth.populations.*.__init__")
def ready_made(env):
    """every argument is stored as the parameter of its name in the distribution the class name states"""
    ln = env.choice("luminosity", list(LUM))
    sn = env.choice("spatial", list(SPATIAL))
    lum, module, lnames = LUM[ln]
    spatial, _, snames, cosmo = SPATIAL[sn]
    cls = env.cls("popsynth.populations.%s.%s%sPopulation" % (module, ln, sn))
    given = {k: value(env, k, True) for k in snames}
    for k in lnames:
        given[k] = value(env, k)
    common(env, cls, spatial, snames, cosmo, given, lum, lnames, rmax=10 if ln == "Schechter" else 5)


@harness("C20", runs=60, functions="popsynth.populations.spatial_populations.*.__init__")
def spatial_only(env):
    """spatial populations with a given luminosity distribution or none"""
    sn = env.choice("spatial", list(SPATIAL) + ["MW"])
    spatial, name, snames, cosmo = MW if sn == "MW" else SPATIAL[sn]
    cls = env.cls("popsynth.populations.spatial_populations." + name)
    given = {k: value(env, k, True, sn == "MW") for k in snames}
    own = env.cls(DIST + LUM["Pareto"][0])() if env.choice("luminosity given", [True, False]) else None
    common(env, cls, spatial, snames, cosmo, given, own_lum=own, rmax=20 if sn == "MW" else 5)


@harness("C20", runs=8, functions="popsynth.populations.spatial_populations.MWRadialPopulation.__init__")
def milky_way_defaults(env):
    """the scale parameters of the Milky-Way model that are left out are those of the model"""
    rho = env.real("rho", ge=0)
    d = env.cls("popsynth.populations.spatial_populations.MWRadialPopulation")(rho).spatial_distribution
    env.check("density", env.exact(d.rho, rho))
    for k, v in (("a", 1.64), ("b", 4.01), ("R1", 0.55), ("R0", 8.5)):
        env.check("parameter " + k, env.exact(getattr(d, k), v))


@harness("C20", runs=4, functions="popsynth.populations.__init__")
def exported(env):
    """the names exported by the package are the classes of that name"""
    m = env.mod("popsynth.populations")
    for ln, (_, module, _n) in LUM.items():
        for sn in SPATIAL:
            name = "%s%sPopulation" % (ln, sn)
            env.check("export %s" % name, getattr(m, name, None) is env.cls("popsynth.populations.%s.%s" % (module, name)))
    for _, name, _a, _b in SPATIAL.values():
        env.check("export %s" % name, getattr(m, name, None) is env.cls("popsynth.populations.spatial_populations." + name))
