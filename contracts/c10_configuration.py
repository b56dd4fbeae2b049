"""C10 A synth survives conversion to a dictionary or file and back

Every public distribution, sampler and selection is taken from the registries the package fills, with arbitrary values
of its parameters, so that new ones are covered as they are added.
"""
import inspect

from popver.registry import harness
from contracts.c09_storage import frozen

PRIVATE = ["_use_obs_value", "_use_distance", "_use_luminosity", "_use_flux"]


class Kit:
    def __init__(self, env):
        self.env = env
        env.mod("popsynth")
        R = env.mod("popsynth.utils.registry")
        self.Par = env.mod("popsynth.utils.meta").Parameter
        D = env.mod("popsynth.distribution")
        self.A = env.mod("popsynth.auxiliary_sampler")
        self.Synth = env.mod("popsynth.population_synth").PopulationSynth
        self.cosmo = env.mod("popsynth.distributions.cosmological_distribution").CosmologicalDistribution
        spatial_sel = env.mod("popsynth.selection_probability.spatial_selection").SpatialSelection
        dist = self.concrete(R.distribution_registry)
        self.spatial = {k: c for k, c in dist.items() if D.SpatialDistribution in c.__mro__}
        self.lum = {k: c for k, c in dist.items() if D.LuminosityDistribution in c.__mro__}
        self.aux = {k: c for k, c in self.concrete(R.auxiliary_parameter_registry).items()
                    if self.A.DerivedLumAuxSampler not in c.__mro__}
        sel = self.concrete(R.selection_registry)
        self.where = {k: c for k, c in sel.items() if spatial_sel in c.__mro__}
        self.sel = {k: c for k, c in sel.items() if k not in self.where and k != "DummySelection"}
        self.derived = self.derived_class()

    def concrete(self, registry):
        out = {}
        for k in sorted(registry.keys()):
            c = registry.get_class(k)
            if not inspect.isabstract(c) and c.__module__.startswith("popsynth"):
                out[k] = c
        return out

    def derived_class(self):
        P = self.A.AuxiliaryParameter

        class UserLuminosity(self.A.DerivedLumAuxSampler):
            _auxiliary_sampler_name = "UserLuminosity"
            slope = P(default=2)
            shift = P()

            def __init__(self, name="log_luminosity"):
                super(UserLuminosity, self).__init__(name, uses_distance=False)

            def true_sampler(self, size):
                self._true_values = 0

            def compute_luminosity(self):
                return 0
        return UserLuminosity

    def parameters(self, x):
        return sorted({k: v for c in reversed(type(x).mro()) for k, v in vars(c).items()
                       if isinstance(v, self.Par)}.items())

    def fill(self, x, tag, which="all", numpy=False):
        """arbitrary values within the limits"""
        env = self.env
        for k, p in self.parameters(x):
            if not p.free or (which == "needed" and p.default is not None) or which == "none":
                continue
            lo, hi = p._vmin, p._vmax
            v = env.real("%s %s" % (tag, k), ge=lo, le=hi, lo=0 if lo is None else lo, hi=(0 if lo is None else lo) + 5)
            setattr(x, k, env.np.float64(v) if numpy else v)
        return x

    # ------------------------------------------------------------------ what a synth is
    def values(self, x):
        out = {}
        for k, p in self.parameters(x):
            try:
                out[k] = getattr(x, k)
            except AssertionError:
                out[k] = None
        return out

    def selector(self, s):
        return None if s is None else dict(kind=type(s).__name__, values=self.values(s),
                                           use=None if type(s).__name__ in ("UnitySelection", "BernoulliSelection")
                                           else {k: getattr(s, k) for k in PRIVATE})

    def sampler(self, s):
        return dict(kind=type(s).__name__, name=s.name, observed=s.observed, obs_name=s.obs_name, values=self.values(s),
                    selector=self.selector(s.selector), secondary={k: self.sampler(v) for k, v in s.secondary_samplers.items()},
                    parents=sorted(s.parents), is_secondary=s.is_secondary)

    def structure(self, s):
        sp, lu = s.spatial_distribution, s.luminosity_distribution
        out = dict(seed=s._seed, spatial=type(sp).__name__, spatial_values=self.values(sp))
        if isinstance(sp, self.cosmo):
            out["is_rate"] = sp._is_rate
        out["luminosity"] = None if lu is None else (type(lu).__name__)
        out["luminosity_values"] = None if lu is None else self.values(lu)
        for k, given in (("_flux_selector", s._flux_selector_set), ("_distance_selector", s._distance_selector_set)):
            out[k] = self.selector(getattr(s, k)) if given else None
        out["_spatial_selector"] = self.selector(s._spatial_selector)
        out["samplers"] = {k: self.sampler(v) for k, v in s._auxiliary_observations.items()}
        out["derived"] = self.sampler(s._derived_luminosity_sampler) if s._has_derived_luminosity else None
        return out

    def equal(self, label, a, b):
        env = self.env
        if isinstance(a, dict) and isinstance(b, dict):
            env.check(label + ": keys", sorted(a) == sorted(b))
            for k in a:
                if k in b:
                    self.equal("%s: %s" % (label, k), a[k], b[k])
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            env.check(label + ": items", sorted(map(str, a)) == sorted(map(str, b)))
        elif isinstance(a, (str, bool, type(None), dict)) or isinstance(b, (str, bool, type(None), dict)):
            env.check(label, type(a) is type(b) and a == b)
        else:
            env.check(label, env.exact(a, b))

    def synth(self, spatial=None, lum=None, seed=None):
        if spatial is None:
            spatial = self.fill(self.spatial["ConstantSphericalDistribution"](), "space")
        return self.Synth(spatial, luminosity_distribution=lum,
                          seed=self.env.int("seed", ge=0, lo=0, hi=9999) if seed is None else seed)

    def lum0(self):
        return self.fill(self.lum["ParetoDistribution"](), "lum")

    def round_trip(self, s):
        """through a dictionary and through a file; equal synths and equal dictionaries"""
        env = self.env
        d = s.to_dict()
        was = frozen(env, d)
        got = self.Synth.from_dict(d)
        self.equal("the dictionary given is unchanged", was, d)
        self.equal("second conversion", was, got.to_dict())
        name = env.tmpfile("s.yml")
        s.write_to(name)
        file = self.Synth.from_file(name)
        self.equal("conversion after a file", was, file.to_dict())
        self.equal("conversion is repeatable", was, s.to_dict())
        a = self.structure(s)
        self.equal("from the dictionary", a, self.structure(got))
        self.equal("from the file", a, self.structure(file))
        self.apart(s, got)
        return got

    def apart(self, s, got):
        """the synth built shares no object with the one it came from"""
        env = self.env
        env.check("another spatial distribution", s.spatial_distribution is not got.spatial_distribution)
        env.check("another luminosity distribution", s.luminosity_distribution is None or
                  s.luminosity_distribution is not got.luminosity_distribution)
        env.check("other samplers", not any(v is w for v in s._auxiliary_observations.values()
                                            for w in got._auxiliary_observations.values()))


@harness("C10", runs=40)
def spatial(env):
    """every spatial distribution with any values of its parameters, rates and densities"""
    K = Kit(env)
    c = K.spatial[env.choice("distribution", sorted(K.spatial))]
    d = c(is_rate=env.choice("rate", [True, False])) if K.cosmo in c.__mro__ else c()
    K.fill(d, "spatial", env.choice("given", ["all", "needed"]), env.choice("numpy numbers", [False, True]))
    K.round_trip(K.synth(d, K.lum0()))


@harness("C10", runs=30)
def luminosity(env):
    """every luminosity distribution with any values of its parameters, or none"""
    K = Kit(env)
    k = env.choice("distribution", sorted(K.lum))
    d = K.fill(K.lum[k](), "luminosity", env.choice("given", ["all", "needed"]), env.choice("numpy numbers", [False, True]))
    K.round_trip(K.synth(None, d))


@harness("C10", runs=30)
def selections(env):
    """flux, distance and spatial selections of every kind"""
    K = Kit(env)
    s = K.synth(None, K.lum0())
    f = env.choice("flux", [None] + sorted(K.sel))
    d = env.choice("distance", [None] + sorted(K.sel)) if f is None or not env.symbolic else None
    w = env.choice("spatial", [None] + sorted(K.where))

    def make(k, use):
        try:
            x = K.sel[k](**{use: True})
        except TypeError:
            x = K.sel[k]()
            setattr(x, "_" + use, True)
        return K.fill(x, use)
    if f is not None:
        s.set_flux_selection(make(f, "use_flux"))
    if d is not None and not d.endswith("FluxSelection"):
        s.set_distance_selection(make(d, "use_distance"))
    if w is not None and w != "SpatialSelection":
        s.add_spatial_selector(K.fill(K.where[w](), "where"))
    K.round_trip(s)


@harness("C10", runs=20)
def selections_together(env):
    """all selections at once, each with its own values"""
    K = Kit(env)
    s = K.synth(None, K.lum0())
    k = env.choice("kind", ["LowerBound", "BoxSelection", "SoftSelection"])
    s.set_flux_selection(K.fill(K.sel[k](use_flux=True), "flux"))
    s.set_distance_selection(K.fill(K.sel[k](use_distance=True), "distance"))
    s.add_spatial_selector(K.fill(K.where[env.choice("where", [x for x in sorted(K.where) if x != "SpatialSelection"])](),
                                  "where"))
    a = named(K, "a")
    a.set_selection_probability(K.fill(K.sel[k](use_obs_value=True), "a"))
    b = named(K, "b")
    b.set_selection_probability(K.fill(K.sel[k](use_obs_value=True), "b"))
    a.set_secondary_sampler(b)
    s.add_observed_quantity(a)
    K.round_trip(s)


def named(K, name, kind="NormalAuxSampler", observed=True, fill="all"):
    c = K.aux[kind]
    try:
        x = c(name=name, observed=observed)
    except TypeError:
        x = c()
    return K.fill(x, name, fill)


@harness("C10", runs=50)
def samplers(env):
    """every sampler, observed or not, with any values"""
    K = Kit(env)
    s = K.synth(None, K.lum0())
    s.add_observed_quantity(named(K, "a", env.choice("kind", sorted(K.aux)), env.choice("observed", [True, False]),
                                  env.choice("given", ["all", "needed"])))
    K.round_trip(s)


@harness("C10", runs=40)
def sampler_selections(env):
    """every selection of the values of a sampler, a derived luminosity sampler and a secondary one"""
    K = Kit(env)
    s = K.synth(None, K.lum0())
    k = env.choice("kind", sorted(K.sel))
    try:
        x = K.sel[k](use_obs_value=True)
    except TypeError:
        x = K.sel[k]()
        x._use_obs_value = True
    if k.endswith("FluxSelection"):
        # these select fluxes and nothing else
        return
    K.fill(x, "selection")
    a, b, d = named(K, "a"), named(K, "b"), K.fill(K.derived(), "d")
    a.set_secondary_sampler(b)
    {"top": a, "secondary": b, "derived": d}[env.choice("of", ["top", "secondary", "derived"])].set_selection_probability(x)
    s.add_observed_quantity(a)
    s.add_observed_quantity(d)
    K.round_trip(s)


@harness("C10", runs=20)
def sampler_selections_of_other_quantities(env):
    """selections of a sampler that look at distances or luminosities"""
    K = Kit(env)
    s = K.synth(None, K.lum0())
    use = env.choice("quantity", ["use_distance", "use_luminosity", "use_flux"])
    x = K.fill(K.sel[env.choice("kind", ["BoxSelection", "LowerBound", "UpperBound", "SoftSelection"])](**{use: True}), "selection")
    a, b, d = named(K, "a"), named(K, "b"), K.fill(K.derived(), "d")
    a.set_secondary_sampler(b)
    {"top": a, "secondary": b, "derived": d}[env.choice("of", ["top", "secondary", "derived"])].set_selection_probability(x)
    s.add_observed_quantity(a)
    s.add_observed_quantity(d)
    K.round_trip(s)


SHAPES = ["none", "one", "chain", "fan", "shared", "diamond", "derived", "derived chain", "derived shared", "two", "long",
          "order"]


def shaped(K, shape):
    """relations of samplers: x -> y means y is secondary to x"""
    names = "abcdef"
    edges = {"none": "", "one": "a", "chain": "ab bc", "fan": "ab ac", "shared": "ac bc", "diamond": "ab ac bd cd",
             "derived": "La", "derived chain": "La ab bc", "derived shared": "La ba", "two": "ab cd",
             "long": "ab bc cd de ef", "order": "cb ba fa"}[shape].split()
    used = sorted({x for e in edges for x in e})
    S = {}
    for x in used:
        if x == "L":
            S[x] = K.fill(K.derived(), "L")
        else:
            S[x] = named(K, x, ["NormalAuxSampler", "LogNormalAuxSampler", "ParetoAuxSampler"][names.index(x) % 3],
                         observed=names.index(x) % 2 == 0)
            S[x].set_selection_probability(K.fill(K.sel["UpperBound"](use_obs_value=True), "selection of " + x))
    for e in edges:
        if len(e) == 2:
            S[e[0]].set_secondary_sampler(S[e[1]])
    return [S[x] for x in used if not S[x].is_secondary]


@harness("C10", runs=36)
def secondaries(env):
    """secondary samplers at every level, shared ones and those of a derived luminosity sampler"""
    K = Kit(env)
    shape = env.choice("shape", SHAPES)
    s = K.synth(None, None if "derived" in shape and env.choice("luminosity too", [False, True]) is False else K.lum0())
    for x in shaped(K, shape):
        s.add_observed_quantity(x)
    got = K.round_trip(s)
    # one object per name, however many primaries it has
    seen = {}

    def walk(x):
        env.check("one sampler of a name", seen.setdefault(x.name, x) is x)
        for y in x.secondary_samplers.values():
            walk(y)
    for x in list(got._auxiliary_observations.values()) + \
            ([got._derived_luminosity_sampler] if got._has_derived_luminosity else []):
        walk(x)


@harness("C10", runs=20)
def level(env):
    """one level of any tree: a sampler is listed with its type, flag, values, selection and secondaries, next to
    whatever its secondaries list

    By induction over the levels every sampler of a tree is listed."""
    K = Kit(env)
    kind = env.choice("kind", sorted(K.aux))
    ob = env.choice("observed", [True, False])
    a = K.fill(named(K, "a", kind, observed=ob), "a")
    sel = K.fill(K.sel["UpperBound"](use_obs_value=True), "selection")
    a.set_selection_probability(sel)
    below = env.choice("listed by the secondaries", [{}, {"b": []}, {"b": ["x"], "c": []}, {"b": ["x"], "c": ["y", "x"]}])
    entries, calls = {}, []
    for k, names in below.items():
        s = named(K, k, "NormalAuxSampler")
        a.set_secondary_sampler(s)

        def fn(recursive_secondaries=None, k=k, names=names):
            calls.append(k)
            out = {} if recursive_secondaries is None else recursive_secondaries
            for j in names + [k]:
                out[j] = entries.setdefault(j, {"type": "T" + j})
            return out
        env.stub(s, "get_secondary_objects", fn)
    got = a.get_secondary_objects()
    # another division of labour between the functions is judged by the trees
    env.assume(calls == list(below))
    env.check("all are listed", set(got) == set(entries) | {a.name})
    for k, v in entries.items():
        env.check("entries of the secondaries stay", got.get(k) is v and v == {"type": "T" + k})
    mine = got[a.name]
    env.check("type", mine["type"] == kind)
    env.check("flag", mine["observed"] == a.observed)
    env.check("secondaries", list(mine["secondary"]) == list(below))
    for k, p in K.parameters(a):
        env.check("value of " + k, k in mine and (env.eq(mine[k], getattr(a, k)) if getattr(a, k) is not None else mine[k] is None))
    env.check("selection", list(mine["selection"]) == ["UpperBound"])
    env.check("value of the selection", env.eq(mine["selection"]["UpperBound"]["boundary"], sel.boundary))
    env.check("nothing else", set(mine) == {"type", "observed", "secondary", "selection"} | {k for k, _ in K.parameters(a)})


# -------------------------------------------------------------------- configurations by hand
def config(K, env):
    v = {k: env.real(k, ge=0, lo=0.1, hi=4) for k in ("Lambda", "r_max", "Lmin", "alpha", "mu", "tau", "sigma", "mu2",
                                                       "boundary", "xp")}
    return v, {
        "seed": 1234,
        "spatial distribution": {"ConstantSphericalDistribution": {"Lambda": v["Lambda"], "r_max": v["r_max"]}},
        "luminosity distribution": {"ParetoDistribution": {"Lmin": v["Lmin"], "alpha": v["alpha"]}},
        "flux selection": {"HardFluxSelection": {"boundary": v["boundary"]}},
        "auxiliary samplers": {
            "stretch": {"type": "NormalAuxSampler", "observed": True, "mu": v["mu"], "tau": v["tau"], "sigma": v["sigma"]},
            "color": {"type": "DeltaAuxSampler", "observed": False, "xp": v["xp"]}}}


def check_config(K, env, v, s, aux=("stretch", "color"), flux=True):
    got = K.structure(s)
    env.check("seed", env.eq(got["seed"], 1234))
    K.equal("spatial distribution", dict(Lambda=v["Lambda"], r_max=v["r_max"]), got["spatial_values"])
    env.check("spatial distribution: kind", got["spatial"] == "ConstantSphericalDistribution")
    env.check("luminosity distribution: kind", got["luminosity"] == "ParetoDistribution")
    K.equal("luminosity distribution", dict(Lmin=v["Lmin"], alpha=v["alpha"]), got["luminosity_values"])
    if flux:
        env.check("flux selection: kind", got["_flux_selector"]["kind"] == "HardFluxSelection")
        K.equal("flux selection", dict(boundary=v["boundary"]), got["_flux_selector"]["values"])
        K.equal("flux selection: quantity", dict(_use_flux=True, _use_distance=False, _use_luminosity=False,
                                                 _use_obs_value=False), got["_flux_selector"]["use"])
    else:
        env.check("no flux selection", got["_flux_selector"] is None)
    env.check("samplers", sorted(got["samplers"]) == sorted(aux))
    st = got["samplers"]["stretch"]
    env.check("stretch", st["kind"] == "NormalAuxSampler" and st["observed"] is True)
    K.equal("stretch", dict(mu=v["mu"], tau=v["tau"], sigma=v["sigma"]), st["values"])
    co = got["samplers"]["color"] if "color" in aux else st["secondary"]["color"]
    env.check("color", co["kind"] == "DeltaAuxSampler" and co["observed"] is False)
    K.equal("color", dict(xp=v["xp"], sigma=1), co["values"])
    return got


@harness("C10", runs=30)
def by_hand(env):
    """parameters of a configuration reach the object they are listed under and no other; the rest keeps defaults"""
    K = Kit(env)
    v, d = config(K, env)
    aux = ["stretch", "color"]
    sec = env.choice("secondary", ["no key", "none", "name", "list", "empty list", "dictionary"])
    if sec != "no key":
        d["auxiliary samplers"]["stretch"]["secondary"] = {
            "none": None, "name": "color", "list": ["color"], "empty list": [], "dictionary": {"color": {}}}[sec]
    if sec in ("name", "list", "dictionary"):
        aux = ["stretch"]
    sel = env.choice("selection", ["no key", "some", "without values"])
    if sel != "no key":
        d["auxiliary samplers"]["color"]["selection"] = {
            "some": {"LowerBound": {"boundary": v["mu2"]}}, "without values": {"UnitySelection": None}}[sel]
    flux = env.choice("flux selection", ["some", "no key", "none"])
    if flux == "no key":
        del d["flux selection"]
    if flux == "none":
        d["flux selection"] = None
    was = frozen(env, d)
    s = K.Synth.from_dict(d)
    K.equal("the configuration is unchanged", was, d)
    got = check_config(K, env, v, s, aux, flux == "some")
    co = got["samplers"]["color"] if "color" in aux else got["samplers"]["stretch"]["secondary"]["color"]
    if sel == "some":
        env.check("selection: kind", co["selector"]["kind"] == "LowerBound")
        K.equal("selection", dict(boundary=v["mu2"]), co["selector"]["values"])
        K.equal("selection: quantity", dict(_use_flux=False, _use_distance=False, _use_luminosity=False,
                                            _use_obs_value=True), co["selector"]["use"])
    else:
        env.check("selection: kind", co["selector"]["kind"] == "UnitySelection")
    env.check("other sampler: no selection", got["samplers"]["stretch"]["selector"]["kind"] == "UnitySelection")
    t = K.Synth.from_dict(s.to_dict())
    check_config(K, env, v, t, aux, flux == "some")


@harness("C10", runs=20)
def two_from_one(env):
    """synths built from one configuration do not share anything"""
    K = Kit(env)
    v, d = config(K, env)
    d["auxiliary samplers"]["stretch"]["secondary"] = ["color"]
    d["auxiliary samplers"]["stretch"]["selection"] = {"BoxSelection": {"vmin": v["mu"], "vmax": v["mu2"]}}
    a, b = K.Synth.from_dict(d), K.Synth.from_dict(d)
    K.apart(a, b)
    before = frozen(env, K.structure(b))
    w = env.real("another value", ge=0, lo=0.1, hi=4)
    a.spatial_distribution.Lambda = w
    a.luminosity_distribution.Lmin = w
    a._flux_selector.boundary = w
    st = a._auxiliary_observations["stretch"]
    st.mu, st.selector.vmin, st.secondary_samplers["color"].xp = w, w, w
    K.equal("the other one", before, K.structure(b))
    c = K.Synth.from_dict(d)
    K.equal("a third one", before, K.structure(c))


@harness("C10", runs=20)
def same_parameter_names(env):
    """equally named parameters of several objects keep their own values; unlisted ones keep their defaults"""
    K = Kit(env)
    v = {k: env.real(k, ge=0, lo=0.1, hi=4) for k in ("m1", "m2", "t1", "s2", "b1", "b2", "alpha")}
    kind = ["NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler"][env.choice("kind", [0, 1, 2])]
    d = {"seed": 3, "spatial distribution": {"ConstantSphericalDistribution": {}},
         "luminosity distribution": {"ParetoDistribution": {"alpha": v["alpha"]}},
         "auxiliary samplers": {
             "a": {"type": kind, "observed": True, "mu": v["m1"], "tau": v["t1"],
                   "selection": {"LowerBound": {"boundary": v["b1"]}}},
             "b": {"type": kind, "observed": True, "mu": v["m2"], "sigma": v["s2"],
                   "selection": {"LowerBound": {"boundary": v["b2"]}}}}}
    s = K.structure(K.Synth.from_dict(d))
    K.equal("a", dict(mu=v["m1"], tau=v["t1"], sigma=1), s["samplers"]["a"]["values"])
    K.equal("b", dict(mu=v["m2"], tau=1, sigma=v["s2"]), s["samplers"]["b"]["values"])
    K.equal("a: selection", dict(boundary=v["b1"]), s["samplers"]["a"]["selector"]["values"])
    K.equal("b: selection", dict(boundary=v["b2"]), s["samplers"]["b"]["selector"]["values"])
    K.equal("luminosity", dict(alpha=v["alpha"], Lmin=1), s["luminosity_values"])
    K.equal("space", dict(Lambda=1, r_max=10), s["spatial_values"])
