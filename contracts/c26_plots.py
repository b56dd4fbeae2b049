"""C26 Plots of a population show its own data

Matplotlib and ipyvolume are replaced by recorders of what the plotting functions are asked to draw."""
from popver.registry import harness
from contracts.pops import Pop
from contracts.popcmp import snapshot, same

MOD = "popsynth.population"
CMAP = "popsynth.utils.array_to_cmap"


class Anything:
    """accepts whatever decorates a plot"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()


class Axes(Anything):
    def __init__(self, env):
        self.env = env
        self.points, self.hists, self.bottoms = [], [], []
        self.arrows = {k: env.new_list() for k in ("x", "y", "dx", "dy")}
        self.figure = object()

    def get_figure(self):
        return self.figure

    def scatter(self, x, y, s=None, c=None, label=None, color=None, **k):
        self.points.append((label, color if color is not None else c, x, y))

    def arrow(self, x, y, dx, dy, **k):
        for n, v in zip(("x", "y", "dx", "dy"), (x, y, dx, dy)):
            self.arrows[n].append(v)

    def hist(self, x, bins=None, label=None, **k):
        self.hists.append((label, x, bins))

    def set_ylim(self, bottom=None, top=None, **k):
        if isinstance(bottom, tuple):
            bottom = bottom[0]
        bottom = k.get("ymin", bottom)
        if bottom is not None:
            self.bottoms.append(bottom)

    def set(self, ylim=None, **k):
        if ylim is not None:
            self.set_ylim(ylim)

    def axis(self, *a, ymin=None, **k):
        self.set_ylim(ymin)


class Pyplot(Anything):
    def __init__(self, ax):
        self.ax = ax

    def subplots(self, *a, **k):
        return self.ax.figure, self.ax


def axes(env):
    """axes that are given, or made by the function"""
    ax = Axes(env)
    if env.choice("axes given", [True, False]):
        return ax, dict(ax=ax)
    env.stub(env.mod(MOD), "plt", Pyplot(ax))
    return ax, {}


def of(env, a, idx):
    return env.base(env.base(a)[idx])


def labelled(env, ax, label):
    r = [p for p in ax.points if p[0] == label]
    env.check("drawn once: " + label, len(r) == 1)
    return r[0]


def points(env, what, p, x, y, n):
    env.check_array(what + ": distances", env.base(p[2]), n, lambda i: env.at(x, i), 0.0, 0.0)
    env.check_array(what + ": values", env.base(p[3]), n, lambda i: env.at(y, i), 0.0, 0.0)


def seen(env, ax, what, y, n):
    """nothing drawn is below the lower end of the axis"""
    if not ax.bottoms:
        return
    b = ax.bottoms[-1]
    env.forall(n, lambda i: env.at(y, i) >= b, what + " within the axis")


def any_population(env, some=False, **kw):
    p = Pop(env, **kw)
    if some:
        env.assume(p.n >= 1)
    p.sel = p.q["selection"]
    return p


@harness("C26", runs=24)
def true_fluxes(env):
    """every object at its distance and latent flux"""
    p = any_population(env, True)
    before = snapshot(env, p.pop)
    ax, kw = axes(env)
    fig = p.pop.display_true_fluxes(**kw)
    points(env, "true fluxes", labelled(env, ax, "True flux"), p.q["distances"], p.q["fluxes"], p.n)
    env.check("nothing else is drawn", len(ax.points) == 1)
    env.check("the figure is returned", fig is ax.figure)
    seen(env, ax, "true fluxes", p.q["fluxes"], p.n)
    same(env, "population unchanged", before, snapshot(env, p.pop))


@harness("C26", runs=24)
def observed_fluxes(env):
    """every selected object at its distance and observed flux; nothing without detections"""
    p = any_population(env, True)
    before = snapshot(env, p.pop)
    ax, kw = axes(env)
    p.pop.display_obs_fluxes(**kw)
    if not p.pop.has_detections:
        env.check("nothing is drawn without detections", len(ax.points) == 0)
    else:
        env.check("nothing else is drawn", len(ax.points) == 1)
        y = of(env, p.q["flux_obs"], p.sel)
        points(env, "observed fluxes", labelled(env, ax, "Detected flux"), of(env, p.q["distances"], p.sel), y, p.count)
        seen(env, ax, "observed fluxes", y, p.count)
    same(env, "population unchanged", before, snapshot(env, p.pop))


@harness("C26", runs=24)
def fluxes(env):
    """true fluxes of all, observed fluxes of the selected objects, and an arrow from one to the other for each of these"""
    p = any_population(env, True)
    before = snapshot(env, p.pop)
    ax, kw = axes(env)
    arrows = env.choice("arrows", [True, False])
    p.pop.display_fluxes(with_arrows=arrows, **kw)
    points(env, "true fluxes", labelled(env, ax, "True flux"), p.q["distances"], p.q["fluxes"], p.n)
    seen(env, ax, "true fluxes", p.q["fluxes"], p.n)
    if not p.pop.has_detections:
        env.check("no observed fluxes without detections", len(ax.points) == 1)
        env.check("no arrows without detections", not ax.arrows["x"])
    else:
        d, f, o = (of(env, p.q[k], p.sel) for k in ("distances", "fluxes", "flux_obs"))
        points(env, "observed fluxes", labelled(env, ax, "Detected flux"), d, o, p.count)
        seen(env, ax, "observed fluxes", o, p.count)
        if arrows:
            a = {k: env.np.array(v) for k, v in ax.arrows.items()}
            env.check_array("arrow at the distance", a["x"], p.count, lambda i: env.at(d, i), 0.0, 0.0)
            env.check_array("arrow from the true flux", a["y"], p.count, lambda i: env.at(f, i), 0.0, 0.0)
            env.check_array("arrow vertical", a["dx"], p.count, lambda i: 0)
            env.check_array("arrow to the observed flux", a["dy"], p.count, lambda i: env.at(o, i) - env.at(f, i), 1e-12, 1e-12)
        else:
            env.check("no arrows", not ax.arrows["x"])
    same(env, "population unchanged", before, snapshot(env, p.pop))


@harness("C26", runs=24)
def luminosities(env):
    """selected and other objects at their distances and luminosities, in their own colours"""
    p = any_population(env)
    before = snapshot(env, p.pop)
    ax, kw = axes(env)
    p.pop.display_luminosities(true_color="a", obs_color="b", **kw)
    env.check("two sets of points", sorted(q[1] for q in ax.points) == ["a", "b"])
    for q in ax.points:
        m = p.sel if q[1] == "b" else ~p.sel
        n = p.count if q[1] == "b" else p.n - p.count
        points(env, "selected" if q[1] == "b" else "not selected", q, of(env, p.q["distances"], m), of(env, p.q["luminosities"], m), n)
    same(env, "population unchanged", before, snapshot(env, p.pop))


@harness("C26", runs=24)
def distances(env):
    """histograms of all and of the selected distances, from zero to the maximum distance"""
    p = any_population(env)
    before = snapshot(env, p.pop)
    ax, kw = axes(env)
    p.pop.display_distances(**kw)
    env.check("two histograms", sorted(str(h[0]) for h in ax.hists) == ["Obs. Pop.", "Total Pop."])
    for label, x, bins in ax.hists:
        if label == "Total Pop.":
            env.check_array("all distances", env.base(x), p.n, lambda i: env.at(p.q["distances"], i), 0.0, 0.0)
        else:
            d = of(env, p.q["distances"], p.sel)
            env.check_array("selected distances", env.base(x), p.count, lambda i: env.at(d, i), 0.0, 0.0)
        env.check("from zero", env.eq(bins[0], 0))
        env.check("to the maximum distance", env.eq(bins[-1], p.meta["r_max"]))
    same(env, "population unchanged", before, snapshot(env, p.pop))


class Volume(Anything):
    def __init__(self):
        self.spheres, self.figures, self.shown = [], [], 0
        self.pylab = Anything()

    def figure(self, *a, **k):
        f = Anything()
        self.figures.append(f)
        return f

    def scatter(self, x, y, z, color=None, **k):
        self.spheres.append((x, y, z, color))

    def show(self, *a, **k):
        self.shown += 1


class Norm:
    def __init__(self, vmin=None, vmax=None, **k):
        self.vmin, self.vmax = vmin, vmax


class Mappable(Anything):
    """the colour of a value is the value itself"""
    made = []

    def __init__(self, norm=None, cmap=None, **k):
        self.norm, self.cmap = norm, cmap
        Mappable.made.append(self)

    def to_rgba(self, v, **k):
        return v


class Colours(Anything):
    LogNorm = Normalize = Norm
    ScalarMappable = Mappable

    def __getattr__(self, n):
        if n in ("colors", "cm"):
            return self
        return Anything.__getattr__(self, n)


def sphere(env, which):
    p = any_population(env, aux=())
    ipv = Volume()
    m = env.mod(MOD)
    env.stub(m, "ipv", ipv)
    env.stub(m, "pythreejs", Anything())
    c = env.mod(CMAP)
    Mappable.made = []
    env.stub(c, "mpl", Colours())
    env.stub(c, "plt", Colours())
    transform = env.choice("distances transformed", [False, True])
    kw = dict(distance_transform=lambda r: 2 * r) if transform else {}
    before = snapshot(env, p.pop)
    {"selected": p.pop.display_obs_fluxes_sphere, "hidden": p.pop.display_hidden_fluxes_sphere,
     "both": p.pop.display_flux_sphere}[which](**kw)
    want = []
    if which != "hidden" and p.pop.has_detections:
        want.append(("selected", p.sel, p.count))
    if which != "selected" and p.pop.n_non_detections > 0:
        want.append(("hidden", ~p.sel, p.n - p.count))
    env.check("one set of objects each", len(ipv.spheres) == len(want))
    for (x, y, z, colours), (label, mask, n) in zip(ipv.spheres, want):
        r, th, ph, f = (of(env, p.q[k], mask) for k in ("distances", "theta", "phi", "flux_obs"))
        w = 2 if transform else 1
        env.check_array(label + ": x", env.base(x), n, lambda i: w * env.at(r, i) * env.sin(env.at(th, i)) * env.cos(env.at(ph, i)))
        env.check_array(label + ": y", env.base(y), n, lambda i: w * env.at(r, i) * env.sin(env.at(th, i)) * env.sin(env.at(ph, i)))
        env.check_array(label + ": z", env.base(z), n, lambda i: w * env.at(r, i) * env.cos(env.at(th, i)))
        env.check_array(label + ": coloured by the flux", env.np.array(colours), n, lambda i: env.at(f, i), 0.0, 0.0)
    for c in Mappable.made:
        env.check("the colours span the fluxes", c.norm is not None and c.norm.vmin <= c.norm.vmax)
    same(env, "population unchanged", before, snapshot(env, p.pop))


@harness("C26", runs=24)
def selected_sphere(env):
    """the selected objects at their positions, coloured by their observed fluxes"""
    sphere(env, "selected")


@harness("C26", runs=24)
def hidden_sphere(env):
    """the objects that are not selected, likewise"""
    sphere(env, "hidden")


@harness("C26", runs=24)
def whole_sphere(env):
    """both"""
    sphere(env, "both")
