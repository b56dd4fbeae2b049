"""C12 Repeated surveys and cleaning leave no residue"""
from popver.registry import harness
from contracts.ghosts import Ghosts, Survey
from contracts.popcmp import snapshot, same


def configured(env, G, shape, seed, par, **kw):
    S = Survey(env, G, shape, seed=seed, **kw)
    set_values(S, par)
    return S


def set_values(S, par):
    S.space.Lambda = par["Lambda"]
    S.space.r_max = par["r_max"]
    if S.lum is not None:
        S.lum.L0 = par["L0"]
    for k, s in S.samplers.items():
        s.mu = par["mu"]


def values(env, tag):
    return dict(Lambda=env.real("Lambda" + tag, gt=0, lo=0.2, hi=2), r_max=env.real("r_max" + tag, gt=0, lo=0.5, hi=3),
                L0=env.real("L0" + tag, gt=0, lo=0.5, hi=3), mu=env.real("mu" + tag, lo=-2, hi=2))


def again(env, shape):
    """a survey drawn after other surveys with other sizes and parameters is that of an untouched synth"""
    n, m = env.size("n"), env.size("m")
    p, q = values(env, "1"), values(env, "2")
    sigma = env.choice("scatter", [None, 0.5])
    G = Ghosts(env)
    A = configured(env, G, shape, 5, p)
    A.synth.draw_survey(n_samples=n)
    change = env.choice("change", [True, False])
    if change:
        set_values(A, q)
    B = configured(env, G, shape, 5, q if change else p)
    a = snapshot(env, A.synth.draw_survey(n_samples=m, flux_sigma=sigma))
    b = snapshot(env, B.synth.draw_survey(n_samples=m, flux_sigma=sigma))
    same(env, "as from an untouched synth", a, b)


@harness("C12", runs=10)
def again_one(env):
    again(env, "one")


@harness("C12", runs=10)
def again_none(env):
    again(env, "none")


@harness("C12", runs=10)
def again_nested(env):
    again(env, "nested")


@harness("C12", runs=10)
def again_shared(env):
    again(env, "shared")


@harness("C12", runs=10)
def again_deep(env):
    again(env, "deep")


@harness("C12", runs=10)
def again_derived(env):
    again(env, "derived")


LATER = ["draw", "parameters", "attach", "selections", "model space", "clean", "clean with reset", "everything"]


def kept(env, shape):
    """a population does not change whatever is done with the synth that drew it"""
    n, m = env.size("n"), env.size("m")
    p, q = values(env, "1"), values(env, "2")
    G = Ghosts(env)
    A = configured(env, G, shape, 5, p)
    A.synth.add_model_space("space_a", 1.0, 2.0, log=False)
    pop = A.synth.draw_survey(n_samples=n)
    snap = snapshot(env, pop)
    what = env.choice("later", LATER)
    every = what == "everything"
    if what == "parameters" or every:
        set_values(A, q)
    if what == "attach" or every:
        A.synth.add_auxiliary_sampler(G.Aux("later"))
    if what == "selections" or every:
        for s in A.selections:
            s.cut = 7
        A.synth.set_flux_selection(G.selection("other flux", "_observed_flux"))
        A.synth.set_distance_selection(G.selection("other distance", "_distance"))
        A.synth.add_spatial_selector(G.selection("other spatial", "_spatial"))
    if what == "model space" or every:
        A.synth.add_model_space("space_b", 1.0, 3.0, log=False)
        A.synth.add_model_space("space_a", 2.0, 3.0, log=False)
    if what == "draw" or every:
        A.synth.draw_survey(n_samples=m)
    if what.startswith("clean") or every:
        A.synth.clean(reset=what != "clean")
        if A.lum is not None:
            A.synth.draw_survey(n_samples=m)
    same(env, "the population", snap, snapshot(env, pop))


@harness("C12", runs=16)
def kept_one(env):
    kept(env, "one")


@harness("C12", runs=16)
def kept_shared(env):
    kept(env, "shared")


@harness("C12", runs=16)
def kept_deep(env):
    kept(env, "deep")


@harness("C12", runs=16)
def kept_derived(env):
    kept(env, "derived")


def cleaned(env, shape, again=False):
    """nothing that was attached is left, whether the synth was used or not"""
    n, m = env.size("n"), env.size("m")
    p = values(env, "1")
    G = Ghosts(env)
    A = configured(env, G, shape, 5, p)
    used, reset = env.choice("used, reset", [(True, True)] if again else [(False, False), (True, False), (True, True)])
    if used:
        A.synth.draw_survey(n_samples=n)
    A.synth.clean(reset=True) if reset else A.synth.clean()
    if reset:
        for k, s in A.samplers.items():
            env.check("values of %s are forgotten" % k, s.true_values is None and s.obs_values is None)
            env.check("selection of %s is forgotten" % k, env.raises(lambda: s.selection) is not None)
        for s in A.selections:
            env.check("selection %s is forgotten" % s.name, env.raises(lambda: s.selection) is not None)
    d = A.synth.to_dict()
    env.check("no samplers in the configuration", d["auxiliary samplers"] == {})
    env.check("no selections in the configuration", not [k for k in d if "selection" in k])
    if A.lum is None:
        if env.choice("afterwards", ["draw", "attach"]) == "draw":
            env.check("no luminosities are left", env.raises(lambda: A.synth.draw_survey(n_samples=m)) is not None)
            return
        A.synth.add_auxiliary_sampler(A.samplers["d"])
        pop = A.synth.draw_survey(n_samples=m)
        env.check_len("reattached sampler drawn for its objects", env.base(pop.d), m)
        return
    if again:
        # the samplers can be attached again
        for s in A.primaries:
            A.synth.add_auxiliary_sampler(s)
        C = configured(env, G, shape, 5, p, flux=False, distance=False, spatial=False)
        same(env, "attached again", snapshot(env, A.synth.draw_survey(n_samples=m)), snapshot(env, C.synth.draw_survey(n_samples=m)))
        return
    nodes = sorted(str(x) for x in A.synth.graph.nodes())
    env.check("no samplers in the graph", not set(nodes) & set(A.samplers))
    pop = A.synth.draw_survey(n_samples=m)
    env.check_array("everything is selected", pop.selection, m, lambda i: True)
    env.check_len("all distances are known", pop.known_distances, m)
    env.check("no auxiliary quantities", len(list(pop._auxiliary_quantities.keys())) == 0)
    B = configured(env, G, "none", 5, p, flux=False, distance=False, spatial=False)
    same(env, "as from a synth without attachments", snapshot(env, pop), snapshot(env, B.synth.draw_survey(n_samples=m)))


@harness("C12", runs=12)
def cleaned_one(env):
    cleaned(env, "one")


@harness("C12", runs=12)
def cleaned_nested(env):
    cleaned(env, "nested")


@harness("C12", runs=16)
def cleaned_derived(env):
    cleaned(env, "derived")


@harness("C12", runs=12)
def reattached_one(env):
    cleaned(env, "one", again=True)


@harness("C12", runs=12)
def reattached_nested(env):
    cleaned(env, "nested", again=True)


@harness("C12", runs=12)
def two_synths(env):
    """a sampler and distributions attached to two synths are drawn anew for each"""
    n, m = env.size("n"), env.size("m")
    p = values(env, "1")
    G = Ghosts(env)
    shape = env.choice("shape", ["one", "nested", "shared"])
    A = configured(env, G, shape, 5, p)
    PS = env.mod("popsynth.population_synth").PopulationSynth
    second = PS(A.space, A.lum, seed=9)
    for s in A.primaries:
        second.add_auxiliary_sampler(s)
    second.set_flux_selection(A.flux_sel)
    first = A.synth.draw_survey(n_samples=n)
    snap = snapshot(env, first)
    b = snapshot(env, second.draw_survey(n_samples=m))
    B = configured(env, G, shape, 9, p, distance=False, spatial=False)
    same(env, "second synth", b, snapshot(env, B.synth.draw_survey(n_samples=m)))
    same(env, "first population", snap, snapshot(env, first))
