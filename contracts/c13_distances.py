"""C13 Distances follow the distribution's density within the survey volume"""
import numpy as _np

from popver.registry import harness

BIG = [0, 1, 2, 600, 5, 800, 450]


def ghost(env):
    """a spatial distribution with arbitrary positive density, volume and time adjustment"""
    dist = env.mod("popsynth.distribution")
    g = env.fun("density", lambda r, k: k * (0.3 + _np.sin(3 * r) ** 2), True)
    steep = env.real("steepness", ge=0, lo=0, hi=40)
    v = env.fun("volume", lambda r: 0.1 + r ** steep, True)
    t = env.fun("time", lambda r: 1 + r, True)
    norm = env.choice("normalization parameter", [True, False])

    class Ghost(dist.SpatialDistribution):
        _distribution_name = "GhostDistribution%d" % norm
        Lambda = dist.DistributionParameter(default=1, vmin=0, is_normalization=norm)
        other = dist.DistributionParameter(default=2)

        def dNdV(self, distance):
            return g(distance, self.Lambda)

        def differential_volume(self, distance):
            return v(distance)

        def time_adjustment(self, distance):
            return t(distance)

        def transform(self, L, distance):
            return L
    d = Ghost(name="ghost", seed=1, form="x")
    return d, norm, lambda r, k: g(r, k) * v(r) / t(r)


@harness("C13", runs=36)
def draw_distance(env):
    """n values in [0, r_max], each accepted with probability proportional to the density"""
    env.progress(env.choice("progress", [True, False]))
    distances(env)


def distances(env):
    normalize = env.choice("normalize", [False, True])
    d, norm, f = ghost(env)
    k = env.real("Lambda", gt=0, lo=0.2, hi=4)
    o = env.real("other")
    rm = env.real("r_max", gt=0, lo=0.3, hi=60, log=True)
    d.Lambda, d.other, d.r_max = k, o, rm
    n = env.size("n", conc=BIG)
    one = 1 if norm else k

    def density(r):
        return f(r, k) / env.integral(lambda x: f(x, one), 0.0, rm) if normalize else f(r, k)
    env.rejection(density, rm)
    d.draw_distance(n, normalize=True) if normalize else d.draw_distance(n)
    x = d.distances
    env.accepted("distances", x, n, density, rm)
    env.forall(n, lambda i: env.and_(env.at(x, i) >= 0, env.at(x, i) <= rm), "within the maximum distance")
    total = env.integral(lambda r: f(r, one), 0.0, rm) if normalize else 1.0
    env.check_array("probability", d.probability, n, lambda i: env.div(f(env.at(x, i), one), total))
    env.check("normalization parameter restored", env.exact(d.Lambda, k))
    env.check("other parameter unchanged", env.exact(d.other, o))
    env.check("maximum distance unchanged", env.exact(d.r_max, rm))


@harness("C13", runs=40, bounded=None)
def rejection_sampler(env):
    """rejection_sample(n, ymax, xmax, f): n independent accepted values"""
    rs = env.mod("popsynth.utils.rejection_sample")
    steep = env.real("steepness", ge=0, lo=0, hi=40)
    f = env.fun("shape", lambda r: 0.02 + (_np.cos(2 * r) ** 2 if steep < 10 else r ** steep), True)
    n = env.size("n", conc=BIG)
    xm = env.real("xmax", gt=0, lo=0.3, hi=6)
    top = env.np.max(f(env.np.linspace(0, xm, 500)))
    env.rejection(f, xm)
    x = rs.rejection_sample(n, top, xm, f)
    env.accepted("values", x, n, f, xm)
