"""C17 Cosmological distances and volumes match the flat Lambda-CDM model"""
from fractions import Fraction

from popver.registry import harness
from contracts.c18_counts import everywhere

D = "popsynth.distributions."
CM = 3.086e24                   # centimetres per megaparsec
C = 299792.458                  # speed of light in km/s
OTHER = 3.550493060434566e-05 + 5.142614341364592e-05       # neutrinos and photons (WMAP9)
OM = (Fraction(1, 5), Fraction(1, 2))
Z = (Fraction(0), Fraction(10))


def model(env, unit=False):
    """a cosmology with any matter density in the range, and any Hubble constant"""
    Cosmology = env.mod("popsynth.utils.cosmology").Cosmology
    Om = env.real("Om", ge=OM[0], le=OM[1])
    h0 = 1 if unit else env.real("h0", gt=0, lo=40, hi=100)
    return Cosmology(Om, h0), Om, h0


def E2(z, Om):
    return Om * (1 + z) * (1 + z) * (1 + z) + 1 - Om


@harness("C17", runs=40, seconds=400)
def distance(env):
    """luminosity distance: (1 + z) times the integral of c / H, within two percent; increasing"""
    m, Om, _ = model(env, unit=True)
    z = env.real("z", ge=Z[0], le=Z[1])
    box = [(z, Z[0], Z[1]), (Om, OM[0], OM[1])]
    env.integral_within(
        "transverse distance", lambda x: env.div(m.luminosity_distance(x), (1 + x) * Fraction(CM) * Fraction(C) if env.symbolic else (1 + x) * CM * C),
        lambda x: env.div(1, env.sqrt(E2(x, Om))), z, box, Fraction(2, 100))
    env.increasing("luminosity distance is increasing", lambda x: m.luminosity_distance(x), z, box)
    env.check("zero distance at redshift zero", env.eq(m.luminosity_distance(0), 0))


@harness("C17", runs=30)
def hubble(env):
    """distances are inversely proportional to the Hubble constant"""
    m, Om, h0 = model(env)
    one = env.mod("popsynth.utils.cosmology").Cosmology(Om, 1)
    z = env.real("z", gt=Z[0], le=Z[1])
    env.check("distance times Hubble constant", env.near(m.luminosity_distance(z) * h0, one.luminosity_distance(z)))
    env.check("Hubble distance", env.near(m.dh * h0, C))
    env.check("transverse distance", env.near(m.comoving_transverse_distance(z) * (1 + z), m.luminosity_distance(z)))


def field(env):
    """the cosmology of the package with any parameters, and redshifts as a number or an array"""
    cos = env.mod("popsynth.utils.cosmology").cosmology
    Om = env.real("Om", ge=OM[0], le=OM[1])
    h0 = env.real("h0", gt=0, lo=40, hi=100)
    env.stub(cos, "Om", Om)
    env.stub(cos, "h0", h0)
    names = {"sfr": "SFRDistribution", "power": "ZPowerCosmoDistribution"}
    w = env.choice("distribution", ["sfr", "power", "uniform"])
    cls = env.cls(D + ("uniform_distribution.UniformCosmoDistribution" if w == "uniform" else "cosmological_distribution." + names[w]))
    kw = dict(gt=0, le=Z[1], lo=0.01)
    if env.choice("array", [False, True]):
        n = env.size("n")
        z = env.array("z", n, **kw)
        return cos, cls, Om, h0, z, env.copy(z), n
    z = env.real("z", **kw)
    return cos, cls, Om, h0, z, z, None


@harness("C17", runs=30)
def volume(env):
    """Hubble distance times squared transverse distance over the expansion rate, in Gpc^3"""
    cos, cls, Om, h0, z, keep, n = field(env)
    d = cls()

    def want(x):
        td = env.div(cos.luminosity_distance(x), (1 + x) * CM)
        return env.div(C * td * td * 1e-9, h0 * env.sqrt(E2(x, Om) - OTHER))
    everywhere(env, "differential volume", d.differential_volume(z), keep, n, want, env.near)


@harness("C17", runs=30)
def flux(env):
    """luminosity over four pi squared luminosity distance; the rate of transients is reduced"""
    cos, cls, Om, h0, z, keep, n = field(env)
    given = env.choice("is_rate", [True, False, None])
    d = cls() if given is None else cls(is_rate=given)
    pi = env.mod("numpy").pi
    if n is None or env.choice("one luminosity", [False, True]):
        L = env.real("L", gt=0, lo=1, hi=50)
        lum = lambda i: L
    else:
        L = env.array("L", n, gt=0, lo=1, hi=50)
        lum = lambda i: env.at(L, i)
    f = d.transform(L, z)

    def want(l, x):
        r = cos.luminosity_distance(x)
        return env.div(l, 4 * pi * r * r)
    if n is None:
        env.check("flux", env.near(f, want(L, z)))
    else:
        env.check_len("flux: length", f, n)
        env.forall(n, lambda i: env.near(env.at(f, i), want(lum(i), env.at(keep, i))), "flux: every entry")
    a = d.time_adjustment(z)
    if given is False:
        if env.is_array(a):
            env.check_array("no time adjustment of steady sources", a, n, lambda i: 1)
        else:
            env.check("no time adjustment of steady sources", env.eq(a, 1))
    else:
        everywhere(env, "time adjustment of transients", a, keep, n, lambda x: 1 + x)


@harness("C17", runs=4)
def configured(env):
    """the cosmology of the package has the configured parameters"""
    u = env.mod("popsynth.utils.cosmology")
    conf = env.mod("popsynth.utils.configuration").popsynth_config["cosmology"]
    env.check("matter density", env.eq(u.cosmology.Om, conf["Om"]))
    env.check("Hubble constant", env.eq(u.cosmology.h0, conf["h0"]))


@harness("C17", runs=20)
def sampler(env):
    """the luminosity distance a sampler sees is that of the distances it was given"""
    n = env.size("n")
    z = env.array("z", n, ge=Z[0], le=Z[1], lo=0, hi=10)
    keep = env.copy(z)
    cos = env.mod("popsynth.utils.cosmology").cosmology
    s = env.cls("popsynth.aux_samplers.normal_aux_sampler.NormalAuxSampler")("x")
    space = env.mod("popsynth.distribution").SpatialContainer
    angle = env.array("angle", n, ge=0, lo=0, hi=3)
    s.set_spatial_values(space(z, angle, angle))
    got = s.luminosity_distance
    env.check_len("luminosity distance: length", got, n)
    env.forall(n, lambda i: env.near(env.at(got, i), cos.luminosity_distance(env.at(keep, i))), "luminosity distance: every entry")
