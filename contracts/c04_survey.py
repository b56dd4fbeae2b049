"""C04 A survey selects exactly the objects that pass every attached selection; C05 its data belong together"""
from popver.registry import harness
from contracts.ghosts import Ghosts, Survey
from contracts.pops import Pop

NOTE = None


def selected(env, shape):
    n = env.size("n")
    G = Ghosts(env)
    flux = env.choice("flux selection", [True, False])
    spatial = env.choice("spatial selection", [True, False])
    S = Survey(env, G, shape, flux=flux, distance=False, spatial=spatial)
    pop = S.synth.draw_survey(n_samples=n)
    env.check("selection is an array of booleans", env.is_bool_array(pop.selection))
    env.check_array("selected exactly if every selection accepts", pop.selection, n, lambda i: S.passes(pop, i))
    pos, count, rank = env.where(pop.selection)
    env.check("number of objects", env.eq(pop.n_objects, n))
    env.check("number of detections", env.eq(pop.n_detections, count))
    env.check("number of non-detections", env.eq(pop.n_non_detections, n - count))
    env.check("has detections", env.iff(pop.has_detections, count > 0))


@harness("C04", runs=16)
def no_samplers(env):
    """without samplers only the flux and spatial selection count; without any, all are selected"""
    selected(env, "none")


@harness("C04", runs=16)
def one_sampler(env):
    """selected(i) == flux(i) and spatial(i) and sampler(i)"""
    selected(env, "one")


@harness("C04", runs=16)
def nested(env):
    """selections of secondary samplers at two levels count"""
    selected(env, "nested")


@harness("C04", runs=16)
def shared(env):
    """two primaries, one without selection, sharing a secondary"""
    selected(env, "shared")


@harness("C04", runs=16)
def derived(env):
    """selections of a derived luminosity sampler and its secondaries count"""
    selected(env, "derived")


@harness("C04", runs=16)
def quantities(env):
    """a sampler's selection may use the distance or the luminosity of the object"""
    n = env.size("n")
    G = Ghosts(env)
    S = Survey(env, G, "none", flux=False, distance=False, spatial=False)
    a = G.Aux("a", uses_distance=True)
    a.set_selection_probability(G.selection("sel_a", "_distance"))
    b = G.Aux("b")
    b.set_selection_probability(G.selection("sel_b", "_luminosity"))
    c = G.Aux("c")
    c.set_selection_probability(G.selection("sel_c", "_luminosity"))
    b.set_secondary_sampler(c)
    S.synth.add_auxiliary_sampler(a)
    S.synth.add_auxiliary_sampler(b)
    pop = S.synth.draw_survey(n_samples=n)

    def passes(i):
        d, l = env.at(env.base(pop.distances), i), env.at(env.base(pop.luminosities), i)
        return env.and_(G.f1("accept_sel_a")(d) > 0, G.f1("accept_sel_b")(l) > 0, G.f1("accept_sel_c")(l) > 0)
    env.check_array("selected exactly if every selection accepts", pop.selection, n, passes)


def container(env, G, n, name, mode):
    """what a sampler hands over: arbitrary values and an arbitrary selection"""
    sel = G.selection("sel_" + name)
    sel._selection = env.mask("selection of " + name, n)
    t = env.array("true " + name, n, lo=-3, hi=3)
    o = env.array("obs " + name, n, lo=-3, hi=3)
    p = env.array("probability " + name, n, gt=0, lo=0.1, hi=3)
    return t, o, sel, p


def holds(env, label, c, t, o, sel, p, n):
    for q, w in (("true_values", t), ("obs_values", o), ("probability", p)):
        env.check_array("%s: %s" % (label, q), c[q], n, lambda i, w=w: env.at(w, i))
    env.check_array(label + ": selection", c["selection"].selection, n, lambda i: env.at(sel.selection, i))


@harness("C04", runs=20)
def level(env):
    """one level of any tree: a sampler hands over its own selection and values and all those its secondaries hand over

    By induction over the levels nothing attached below a sampler is missing."""
    n = env.size("n")
    G = Ghosts(env)
    aux = env.mod("popsynth.auxiliary_sampler")
    a = G.Aux("a")
    t, o, sel, p = container(env, G, n, "a", None)
    a.set_selection_probability(sel)
    a._true_values, a._obs_values, a._is_sampled, a._probability = t, o, True, p
    below = env.choice("handed over by the secondaries", [{}, {"b": []}, {"b": ["x"], "c": []}, {"b": [], "c": ["x", "y"]},
                                                          {"b": ["x"], "c": ["x"], "e": ["y", "x"]}])
    want = {"a": (t, o, sel, p)}
    calls = []
    for k, names in below.items():
        s = G.Aux(k)
        a.set_secondary_sampler(s)
        for j in [k] + names:
            if j not in want:
                want[j] = container(env, G, n, j, None)

        def fn(graph=None, primary=None, spatial_distribution=None, k=k, names=names):
            calls.append(k)
            st = aux.SecondaryStorage()
            for j in names + [k]:
                st.add_secondary(aux.SecondaryContainer(j, *want[j]))
            return st
        env.stub(s, "get_secondary_properties", fn)
    got = a.get_secondary_properties()
    # another division of labour between the functions is judged by the trees above
    env.assume(calls == list(below))
    env.check("all are handed over", set(got) == set(want))
    for k, w in want.items():
        if k in got:
            env.check("name of " + k, got[k].name == k)
            holds(env, k, got[k], *w, n)


@harness("C04", runs=20)
def any_trees(env):
    """a survey of samplers that hand over arbitrary selections and values of their own and of what is below them"""
    n = env.size("n")
    G = Ghosts(env)
    aux = env.mod("popsynth.auxiliary_sampler")
    flux = env.choice("flux selection", [True, False])
    spatial = env.choice("spatial selection", [True, False])
    S = Survey(env, G, "none", flux=flux, distance=False, spatial=spatial)
    trees = env.choice("handed over by the samplers", [{"a": ["x"]}, {"a": [], "b": ["x"]}, {"a": ["x", "y"], "b": ["x"]},
                                                        {"a": ["x"], "b": ["x", "y", "z"], "c": []}])
    want, calls = {}, []
    for k, names in trees.items():
        s = G.Aux(k)
        for j in [k] + names:
            if j not in want:
                want[j] = container(env, G, n, j, None)
        t, o, sel, p = want[k]
        s.set_selection_probability(sel)

        def draw_(size=1, s=s, k=k):
            calls.append(k)
            s._true_values, s._obs_values, s._is_sampled, s._probability = want[k][0], want[k][1], True, want[k][3]

        def fn(graph=None, primary=None, spatial_distribution=None, k=k, names=names):
            calls.append(k)
            st = aux.SecondaryStorage()
            for j in names + [k]:
                st.add_secondary(aux.SecondaryContainer(j, *want[j]))
            return st
        env.stub(s, "draw", draw_)
        env.stub(s, "get_secondary_properties", fn)
        env.stub(s, "reset", lambda: None)
        S.synth.add_auxiliary_sampler(s)
    pop = S.synth.draw_survey(n_samples=n)
    # another division of labour between the functions is judged by the trees above
    env.assume(calls == [k for k in trees for _ in (0, 1)])

    def passes(i):
        return env.and_(S.passes(pop, i), *[env.at(w[2].selection, i) for w in want.values()])
    env.check_array("selected exactly if every selection accepts", pop.selection, n, passes)
    for k, (t, o, sel, p) in want.items():
        v = getattr(pop, k, None)
        env.check("values of %s are in the survey" % k, v is not None)
        env.check_array("observed values of " + k, env.base(v), n, lambda i, o=o: env.at(o, i))
        env.check_array("true values of " + k, env.base(v.latent), n, lambda i, t=t: env.at(t, i))


# ------------------------------------------------------------------------------- C05
def values(env, G, n, name, **kw):
    x = env.array(name, n, **kw)
    return x, env.copy(x)


def draw(env, G, S, n, flux_sigma=None, **kw):
    """draw a survey in which everything that is drawn is arbitrary; the values as they were drawn"""
    keep = {}
    for key, obj, meth in (("distances", S.space, "draw_distance"), ("luminosities", S.lum, "draw_luminosity")):
        if obj is None:
            continue
        arr, keep[key] = values(env, G, n, key, gt=0, lo=0.2, hi=4)
        if meth == "draw_distance":
            def fn(size, normalize=False, arr=arr):
                S.space._distances = arr
                S.space._probability = G.f1("distance probability", True)(arr)
        else:
            def fn(size=1, arr=arr):
                return arr
        env.stub(obj, meth, fn)
    th, keep["theta"] = values(env, G, n, "theta", ge=0, le=3.14, lo=0, hi=3)
    ph, keep["phi"] = values(env, G, n, "phi", ge=0, le=6.28, lo=0, hi=6)

    def sky(size):
        S.space._theta, S.space._phi = th, ph
    env.stub(S.space, "draw_sky_positions", sky)
    for k, s in S.samplers.items():
        t, keep["true " + k] = values(env, G, n, "true_" + k, lo=-3, hi=3)

        def ts(size=1, s=s, t=t):
            s._true_values = t
        env.stub(s, "true_sampler", ts)
        if s.observed:
            o, keep["obs " + k] = values(env, G, n, "obs_" + k, lo=-3, hi=3)

            def ob(size=1, s=s, o=o):
                s._obs_values = o
            env.stub(s, "observation_sampler", ob)
        else:
            keep["obs " + k] = keep["true " + k]
    pop = S.synth.draw_survey(flux_sigma=flux_sigma, n_samples=n, **kw)
    return pop, keep


def aligned(env, label, a, want, n, latent=None):
    b = env.base(a)
    env.check_array(label, b, n, lambda i: env.at(want, i))
    if latent is not None:
        env.check_array(label + ": latent", env.base(a.latent), n, lambda i: env.at(latent, i))


def coherent(env, shape, flux, sigma, log10=True):
    n = env.size("n", conc=[0, 1, 700, 3, 500, 40, 900] if sigma else None)
    G = Ghosts(env)
    S = Survey(env, G, shape, flux=flux, distance=False, spatial=False)
    sg = env.real("flux_sigma", gt=0, lo=0.05, hi=5, log=True) if sigma else None
    kw = {} if log10 else {"log10_flux_draw": False}
    pop, keep = draw(env, G, S, n, sg, **kw)
    aligned(env, "distances", pop.distances, keep["distances"], n, keep["distances"])
    aligned(env, "theta", pop.theta, keep["theta"], n, keep["theta"])
    aligned(env, "phi", pop.phi, keep["phi"], n, keep["phi"])
    if S.lum is not None:
        aligned(env, "luminosities", pop.luminosities, keep["luminosities"], n, keep["luminosities"])
    else:
        d = S.samplers["d"]
        env.check_array("luminosities", env.base(pop.luminosities), n, lambda i: G.f1("lum_derived", True)(
            G.f2("lum_b")(env.at(keep["true d"], i), env.at(keep["true b"], i))))
        env.check_array("luminosities: latent", env.base(pop.luminosities_latent), n, lambda i: env.at(env.base(pop.luminosities), i))
    env.check_len("selection: length", pop.selection, n)
    lat, obs = env.base(pop.fluxes.latent), env.base(pop.fluxes)
    env.check_array("latent flux", lat, n, lambda i: G.f2("flux", True)(
        env.at(env.base(pop.luminosities), i), env.at(env.base(pop.distances), i)))
    if flux and sigma:
        lg = env.log10 if log10 else env.log
        env.check_len("observed flux: length", obs, n)
        env.forall(n, lambda i: env.at(obs, i) > 0, "observed flux positive")
        res = env.arr(n, lambda i: lg(env.at(obs, i)) - lg(env.at(lat, i)))
        env.law("observed flux", res, n, lambda u, i: sg * env.nppf(u))
        env.check("flux error", env.exact(pop.flux_sigma, sg))
    else:
        env.check_array("observed flux is the latent flux", obs, n, lambda i: env.at(lat, i))
    for k in S.samplers:
        aligned(env, "auxiliary " + k, getattr(pop, k), keep["obs " + k], n, keep["true " + k])
    for k, a in keep.items():
        pass


@harness("C05", runs=16)
def no_flux_selection(env):
    """latent = transform(L_i, d_i); observed = latent whatever the flux error"""
    coherent(env, "one", False, env.choice("flux error", [False, True]))


@harness("C05", runs=16)
def flux_selection(env):
    """with a flux selection but no flux error observed = latent"""
    coherent(env, "shared", True, False)


@harness("C05", runs=16)
def scattered10(env):
    """log10(observed) - log10(latent) is normal with the given width, independent per object"""
    coherent(env, "nested", True, True)


@harness("C05", runs=16)
def scattered(env):
    """ln(observed) - ln(latent) is normal with the given width, independent per object"""
    coherent(env, "none", True, True, log10=False)


@harness("C05", runs=16)
def derived_luminosity(env):
    """luminosities of a derived sampler belong to the objects of its values"""
    coherent(env, "derived", True, False)


@harness("C05", runs=40)
def known_distances(env):
    """known and unknown positions split the selected objects by the distance selection"""
    n = env.size("n")
    G = Ghosts(env)
    S = Survey(env, G, "none", flux=True, distance=env.choice("distance selection", [True, False]), spatial=False)
    pop, keep = draw(env, G, S, n)
    pos, count, rank = env.where(pop.selection)
    kd, ki, ui = pop.known_distances, pop._known_distance_idx, pop._unknown_distance_idx
    m, u = env.len(ki), env.len(ui)
    env.check_len("known distances: length", kd, m)
    env.check("every selected object is in one of the lists", env.eq(m + u, count))

    def accepted(k):
        if S.dist_sel is None:
            return True
        return G.f1("accept_distance")(env.at(keep["distances"], pos(k))) > 0
    for label, idx, size, want in (("known", ki, m, True), ("unknown", ui, u, False)):
        env.forall(size, lambda j: env.and_(env.at(idx, j) >= 0, env.at(idx, j) < count), label + " positions in range")
        env.forall(size - 1, lambda j: env.at(idx, j) < env.at(idx, j + 1), label + " positions increase")
        env.forall(size, lambda j: env.iff(accepted(env.at(idx, j)), want), label + " exactly if accepted")
    env.forall(m, lambda j: env.eq(env.at(kd, j), env.at(keep["distances"], pos(env.at(ki, j)))), "known distance of that object")


@harness("C05", runs=16)
def reported(env):
    """what any population reports under its various names are the entries of its own objects"""
    P = Pop(env)
    pop, q, n = P.pop, P.q, P.n
    pos, count, _ = env.where(q["selection"])
    neg, hidden, _ = env.where(~q["selection"])
    every = dict(luminosities_latent="luminosities", fluxes_latent="fluxes", fluxes_observed="flux_obs")
    for k, v in every.items():
        env.check_array(k, env.base(getattr(pop, k)), n, lambda i: env.at(q[v], i))
    for k, v in dict(luminosities="luminosities", distances="distances", theta="theta", phi="phi",
                     probability="probability").items():
        for part in (getattr(pop, k), getattr(pop, k).latent):
            env.check_array(k, env.base(part), n, lambda i: env.at(q[v], i))
    env.check_array("fluxes", env.base(pop.fluxes), n, lambda i: env.at(q["flux_obs"], i))
    env.check_array("latent fluxes", env.base(pop.fluxes.latent), n, lambda i: env.at(q["fluxes"], i))
    env.check_array("selection", pop.selection, n, lambda i: env.at(q["selection"], i))
    for k, v in dict(selected_distances="distances", selected_fluxes_observed="flux_obs",
                     selected_fluxes_latent="fluxes").items():
        env.check_array(k, env.base(getattr(pop, k)), count, lambda j: env.at(q[v], pos(j)))
    for k, v in dict(hidden_distances="distances", hidden_fluxes_observed="flux_obs",
                     hidden_fluxes_latent="fluxes").items():
        env.check_array(k, env.base(getattr(pop, k)), hidden, lambda j: env.at(q[v], neg(j)))
    env.check_array("known distances", pop.known_distances, env.len(P.idx), lambda j: env.at(P.kd, j))
    env.check("number of objects", env.eq(pop.n_objects, n))
    env.check("number of detections", env.eq(pop.n_detections, count))
    env.check("number of non-detections", env.eq(pop.n_non_detections, hidden))
    env.check("has detections", env.iff(pop.has_detections, count > 0))
    for k, v in dict(luminosity_parameters="lf_params", spatial_parameters="spatial_params", truth="truth", pop_synth="pop_synth",
                     flux_sigma="flux_sigma").items():
        env.check_same(k, getattr(pop, k), P.meta[v])
    env.check("graph", pop.graph is P.meta["graph"])
    env.check_same("the parameters", sorted(pop.spatial_parameters), sorted(P.meta["spatial_params"]))
