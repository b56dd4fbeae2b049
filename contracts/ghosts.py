"""components about which nothing is assumed: arbitrary functions of their random numbers and of what they depend on

Classes are made anew for every run of a contract, so that nothing is carried over.
"""
import numpy as _np


class Ghosts:
    def __init__(self, env):
        self.env = env
        self.dist = env.mod("popsynth.distribution")
        self.sel = env.mod("popsynth.selection_probability.selection_probability")
        self.aux = env.mod("popsynth.auxiliary_sampler")
        self.funs = {}
        self.calls = []
        self._classes()

    def fun(self, name, impl, positive=False):
        if name not in self.funs:
            self.funs[name] = self.env.fun(name, impl, positive)
        return self.funs[name]

    def f1(self, name, positive=False):
        k = 1 + len(name) % 5
        if positive:
            return self.fun(name, lambda x: 0.2 + _np.abs(_np.sin(k * x + 1)) * 3, True)
        return self.fun(name, lambda x: _np.sin(k * 3 * x + 1) + x / 5)

    def f2(self, name, positive=False):
        k = 1 + len(name) % 5
        if positive:
            return self.fun(name, lambda x, y: 0.2 + _np.abs(_np.sin(k * x + y)) * 3 + 0.1 * _np.abs(y), True)
        return self.fun(name, lambda x, y: _np.sin(k * 3 * x + y + 1) + x / 5)

    def _classes(self):
        G, env = self, self.env
        u = env.np.random.uniform

        class GhostSpace(self.dist.SpatialDistribution):
            _distribution_name = "GhostSpace"
            Lambda = self.dist.DistributionParameter(default=1, vmin=0, is_normalization=True)

            def __init__(self, name="space", seed=1, form="rho"):
                super(GhostSpace, self).__init__(name=name, seed=seed, form=form)

            def dNdV(self, r):
                return G.f2("density", True)(r, self.Lambda)

            def differential_volume(self, r):
                return G.f1("volume", True)(r)

            def time_adjustment(self, r):
                return G.f1("adjustment", True)(r)

            def transform(self, L, r):
                return G.f2("flux", True)(L, r)

            def draw_distance(self, size, normalize=False):
                G.calls.append(("draw_distance", size, normalize))
                self._distances = G.f1("distance", True)(u(size=size))
                self._probability = G.f1("distance probability", True)(self._distances)

        class GhostLum(self.dist.LuminosityDistribution):
            _distribution_name = "GhostLum"
            L0 = self.dist.DistributionParameter(default=1, vmin=0)

            def __init__(self, name="lum", seed=1, form="phi"):
                super(GhostLum, self).__init__(name=name, seed=seed, form=form)

            def phi(self, L):
                return G.f2("luminosity density", True)(L, self.L0)

            def draw_luminosity(self, size=1):
                return G.f2("luminosity", True)(u(size=size), self.L0)

        class GhostSelection(self.sel.SelectionProbability):
            _selection_name = "GhostSelection"
            cut = self.sel.SelectionParameter(default=0)

            def __init__(self, name="ghost", what="_observed_value"):
                super(GhostSelection, self).__init__(name=name)
                self._what = what

            def draw(self, size):
                G.calls.append(("select", self._name))
                v = getattr(self, self._what) if self._what != "_spatial" else self._spatial._distances
                self._selection = G.f1("accept_" + self._name)(v) > 0

            def set_spatial_distribution(self, d):
                self._spatial = d

        def ts(self, size=1):
            G.calls.append(("true", self._name, size))
            self.seen = {k: getattr(self, "_" + k, None) for k in ("distance", "theta", "phi", "luminosity", "ra", "dec")}
            self.seen_secondary = {k: (v._true_values, v._obs_values) for k, v in self._secondary_samplers.items()}
            x = G.f1("value_" + self._name)(u(size=size))
            if self._uses_distance:
                x = G.f2("value_d_" + self._name)(x, self._distance)
            for k, v in self._secondary_samplers.items():
                x = G.f2("value_%s_%s" % (self._name, k))(x, v.obs_values)
            self._true_values = G.f2("value_mu_" + self._name)(x, self.mu)

        def os_(self, size=1):
            G.calls.append(("obs", self._name, size))
            self._obs_values = G.f2("observed_" + self._name)(self._true_values, u(size=size))

        class GhostAux(self.aux.AuxiliarySampler):
            _auxiliary_sampler_name = "GhostAux"
            true_sampler, observation_sampler = ts, os_
            mu = self.aux.AuxiliaryParameter(default=0)
            tau = self.aux.AuxiliaryParameter(default=1)

            def __init__(self, name="aux", observed=True, uses_distance=False, uses_luminosity=False):
                super(GhostAux, self).__init__(name, observed=observed, uses_distance=uses_distance,
                                               uses_luminosity=uses_luminosity)

            def _compute_probability(self):
                if self._name == "c":
                    return None
                return G.f1("probability_" + self._name, True)(self._true_values)

        class GhostDerived(self.aux.DerivedLumAuxSampler):
            _auxiliary_sampler_name = "GhostDerived"
            true_sampler = ts
            mu = self.aux.AuxiliaryParameter(default=0)

            def __init__(self, name="derived", uses_distance=False):
                super(GhostDerived, self).__init__(name, uses_distance=uses_distance)

            def compute_luminosity(self):
                x = self._true_values
                for k, v in self._secondary_samplers.items():
                    x = G.f2("lum_%s" % k)(x, v.true_values)
                return G.f1("lum_derived", True)(x)
        self.Space, self.Lum, self.Selection, self.Aux, self.Derived = GhostSpace, GhostLum, GhostSelection, GhostAux, GhostDerived

    # ---- synths with attached samplers
    def selection(self, name, what="_observed_value", cut=None):
        s = self.Selection(name, what)
        if cut is not None:
            s.cut = cut
        return s

    def sampler(self, name, selected=True, **kw):
        s = self.Aux(name, **kw)
        if selected:
            s.set_selection_probability(self.selection("sel_" + name))
        return s


SHAPES = ["none", "one", "nested", "shared", "derived", "derived alone", "diamond", "deep"]


class Survey:
    """a synth with samplers in one of a few shapes; tree lists (name, sampler, secondaries) of everything attached"""

    def __init__(self, env, G, shape, flux=True, distance=True, spatial=True, seed=None, observed=True):
        self.env, self.G, self.shape = env, G, shape
        self.space = G.Space()
        PS = env.mod("popsynth.population_synth").PopulationSynth
        derived = shape.startswith("derived")
        self.lum = None if derived else G.Lum()
        kw = {} if seed is None else {"seed": seed}
        self.synth = PS(self.space, self.lum, **kw)
        self.samplers = {}
        self.selections = []

        def new(name, sel=True, **k):
            if k.get("derived"):
                s = G.Derived(name, uses_distance=k.get("uses_distance", False))
            else:
                s = G.Aux(name, **k)
            if sel:
                s.set_selection_probability(G.selection("sel_" + name))
            self.samplers[name] = s
            return s
        if shape == "none":
            self.primaries = []
        elif shape == "one":
            a = new("a", observed=observed)
            self.primaries = [a]
        elif shape == "nested":
            a, b, c = new("a"), new("b", uses_distance=True, observed=False), new("c")
            b.set_secondary_sampler(c)
            a.set_secondary_sampler(b)
            self.primaries = [a]
        elif shape == "shared":
            a, b, c = new("a"), new("b", sel=False), new("c", uses_distance=True)
            a.set_secondary_sampler(c)
            b.set_secondary_sampler(c)
            self.primaries = [b, a]
        elif shape == "diamond":
            a, b, c, d = new("a"), new("b", observed=False), new("c", sel=False, uses_luminosity=True), new("d")
            b.set_secondary_sampler(d)
            c.set_secondary_sampler(d)
            a.set_secondary_sampler(b)
            a.set_secondary_sampler(c)
            self.primaries = [a]
        elif shape == "deep":
            a, b, c, d, e = new("a"), new("b"), new("c", observed=False), new("d", uses_distance=True), new("e", sel=False)
            c.set_secondary_sampler(d)
            b.set_secondary_sampler(c)
            a.set_secondary_sampler(b)
            e.set_secondary_sampler(c)
            self.primaries = [a, e]
        elif shape == "derived":
            d, b, c, a = new("d", derived=True, uses_distance=True), new("b"), new("c"), new("a", sel=False)
            b.set_secondary_sampler(c)
            d.set_secondary_sampler(b)
            self.primaries = [a, d]
        elif shape == "derived alone":
            self.primaries = [new("d", derived=True)]
        for s in self.primaries:
            self.synth.add_auxiliary_sampler(s)
        self.flux_sel = self.dist_sel = self.space_sel = None
        if flux:
            self.flux_sel = G.selection("flux", "_observed_flux")
            self.synth.set_flux_selection(self.flux_sel)
        if distance:
            self.dist_sel = G.selection("distance", "_distance")
            self.synth.set_distance_selection(self.dist_sel)
        if spatial:
            self.space_sel = G.selection("spatial", "_spatial")
            self.synth.add_spatial_selector(self.space_sel)

    def passes(self, pop, i):
        """every attached selection accepts object i, by the values of the population"""
        env, G = self.env, self.G
        out = [True]
        for k, s in self.samplers.items():
            if isinstance(s.selector, G.Selection):
                out.append(G.f1("accept_sel_" + k)(env.at(env.base(getattr(pop, k)), i)) > 0)
        if self.flux_sel is not None:
            out.append(G.f1("accept_flux")(env.at(env.base(pop.fluxes), i)) > 0)
        if self.space_sel is not None:
            out.append(G.f1("accept_spatial")(env.at(env.base(pop.distances), i)) > 0)
        return env.and_(*out)
