"""C08 Saving and loading a population loses nothing

The population is arbitrary, of the form draw_survey produces: names are texts, the auxiliary quantities and model
spaces are dictionaries (possibly empty), the graph is a directed graph, the generating configuration a dictionary.
The graph is compared by its nodes and edges.
"""
from popver.registry import harness
from contracts.c04_survey import draw
from contracts.c09_storage import frozen, stored
from contracts.ghosts import Ghosts, Survey
from contracts.pops import Pop
from contracts.popcmp import ARRAYS, VARIABLES, snapshot, same


def comparable(env, pop):
    s = snapshot(env, pop)
    s["nodes"] = [k for k, _ in s["nodes"]]
    for k in ("pop_synth", "truth"):
        s[k] = stored(frozen(env, getattr(pop, k)))
    return s


def like(env, label, before, was, got):
    """`got` equals the population whose snapshot is `before`"""
    same(env, label, before, comparable(env, got))
    for k in VARIABLES:
        v, w = getattr(was, k), getattr(got, k)
        if v is not None and w is not None:
            env.check_same("%s: detected %s" % (label, k), env.base(v.selected), env.base(w.selected))
            env.check_same("%s: not detected %s" % (label, k), env.base(v.non_selected), env.base(w.non_selected))
    for k in was._auxiliary_quantities or {}:
        env.check_same("%s: detected %s" % (label, k), env.base(getattr(was, k).selected),
                       env.base(getattr(got, k).selected))
    for k in ("known_distances", "_known_distance_idx", "_unknown_distance_idx"):
        env.check("%s: %s is there as before" % (label, k), (getattr(was, k) is None) == (getattr(got, k) is None))


def through_file(env, pop, name):
    P = env.mod("popsynth.population").Population
    f = env.tmpfile(name)
    pop.writeto(f)
    return P.from_file(f)


def round_trip(env, pop, again=True):
    before = comparable(env, pop)
    got = through_file(env, pop, "p.h5")
    like(env, "loaded", before, pop, got)
    same(env, "the saved one is unchanged", before, comparable(env, pop))
    if again:
        like(env, "loaded again", before, pop, through_file(env, got, "q.h5"))
    return got


@harness("C08", runs=20)
def whole(env):
    """an arbitrary population with all its parts"""
    round_trip(env, Pop(env).pop)


@harness("C08", runs=30)
def without(env):
    """populations without an optional part"""
    kw = env.choice("without", [dict(lum_form=False), dict(aux=()), dict(probability=False), dict(spaces=False),
                                dict(graph=False), dict(empty_known=True), dict(full=True),
                                dict(lum_form=False, aux=(), probability=False, graph=False, empty_known=True)])
    kw = dict(kw)
    empty = kw.pop("spaces", True) is False
    P = Pop(env, **kw).pop
    if empty:
        P._model_spaces = {}
    if env.choice("no truth and configuration", [False, True]):
        P._truth, P._pop_synth = {}, {}
    round_trip(env, P)


@harness("C08", runs=16)
def none_detected(env):
    """a population nothing of which is detected"""
    import numpy as np
    P = Pop(env, empty_known=True)
    n = P.n
    Q = env.mod("popsynth.population").Population
    q = dict(P.q)
    q["selection"] = env.np.zeros(n, dtype=bool)
    none = env.np.array([], dtype=int)
    pop = Q(known_distances=env.np.array([]), known_distance_idx=none, unknown_distance_idx=none,
            auxiliary_quantities=P.aux, **q, **P.meta)
    got = round_trip(env, pop)
    env.check("nothing is detected", env.eq(got.n_detections, 0))
    env.check("and said so", env.iff(got.has_detections, False))


@harness("C08", runs=20)
def forms(env):
    """names and forms of every kind, with and without forms"""
    P = Pop(env, name=env.choice("name", ["pop", "", "a name with / and spaces", "b'pop'", "None"])).pop
    P._spatial_form = env.choice("spatial form", [None, "", r"\frac{a}{b}"])
    P._lf_form = env.choice("luminosity form", [None, "", r"L^{-\alpha}"])
    got = round_trip(env, P)
    env.check("name is a text", isinstance(got._name, str))
    env.check("spatial form is a text", got._spatial_form is None or isinstance(got._spatial_form, str))
    env.check("luminosity form is a text", got._lf_form is None or isinstance(got._lf_form, str))


@harness("C08", runs=20)
def parameters(env):
    """several parameters, auxiliary quantities, spaces and a deep configuration; special names of quantities"""
    P = Pop(env, aux=env.choice("auxiliary", [("stretch", "color", "log alpha"), ("selected", "name"),
                                             ("true_values", "obs_values")]))
    m = P.meta
    m["spatial_params"] = {"Lambda": env.real("p1", lo=0, hi=2), "r_0": env.real("p2", lo=0, hi=2),
                           "k": env.int("p3", lo=1, hi=9)}
    m["lf_params"] = {"Lmin": env.real("p4", lo=0, hi=2), "alpha": env.real("p5", lo=0, hi=2)}
    m["model_spaces"] = {"stretch_model": env.array("s1", 7, lo=0, hi=1), "x": env.array("s2", 7, lo=0, hi=1)}
    m["truth"] = {"space": m["spatial_params"], "luminosity": m["lf_params"], "dust": {"mu": env.real("p6"), "n": {}}}
    m["pop_synth"] = {"seed": 1, "spatial distribution": {"ConstantSphere": {"r_max": env.real("p7")}, "is_rate": True},
                      "auxiliary samplers": {"dust": {"type": "NormalAuxSampler", "observed": False,
                                                      "secondary": ["a", "b"], "sigma": env.real("p8")}}}
    nx = env.mod("popsynth.population").nx
    g = nx.DiGraph()
    for a, b in env.choice("edges", [[], [("a", "b"), ("b", "c"), ("a", "c")], [("a", "obs_a"), ("b", "a")]]):
        g.add_edge(a, b)
    g.add_node("alone", observed=True)
    m["graph"] = g
    Q = env.mod("popsynth.population").Population
    pop = Q(known_distances=P.kd, known_distance_idx=P.idx, unknown_distance_idx=P.nidx, auxiliary_quantities=P.aux,
            **P.q, **m)
    round_trip(env, pop)


@harness("C08", runs=20)
def groups(env):
    """stored in groups of one file next to other contents, which stay as they were"""
    Q = env.mod("popsynth.population").Population
    h5 = env.mod("popsynth.population").h5py
    f = env.tmpfile("g.h5")
    with h5.File(f, "w") as h:
        h["other"] = 1.5
        h.attrs["name"] = "mine"
        h.create_group("old")
        h["old/x"] = 7
    first = Pop(env).pop
    before = comparable(env, first)
    first.addto(f, "first")
    where = env.choice("where", ["second", "old/second", "first/second"])
    first._name = "changed"
    first.addto(f, where)
    first._name = "pop"
    like(env, "the first", before, first, Q.from_group(f, "first"))
    second = dict(before, _name="changed")
    like(env, "the second", second, first, Q.from_group(f, where))
    same(env, "the saved one is unchanged", before, comparable(env, first))
    with h5.File(f, "r") as h:
        env.check("other contents are left", h["other"][()] == 1.5 and h["old/x"][()] == 7)
        env.check("attributes are left", h.attrs["name"] == "mine" and list(h.attrs.keys()) == ["name"])
        env.check("nothing else was added", sorted(h.keys()) == sorted(["other", "old", "first"] +
                                                                      ["second"][:where == "second"]))
    env.check("a group is not overwritten", env.raises(lambda: first.addto(f, "first")) is not None)
    like(env, "the first is left", before, first, Q.from_group(f, "first"))


@harness("C08", runs=16)
def rewritten(env):
    """a file holds the population written last and nothing of an earlier one"""
    P = Pop(env)
    h5 = env.mod("popsynth.population").h5py
    Q = env.mod("popsynth.population").Population
    f = env.tmpfile("o.h5")
    with h5.File(f, "w") as h:
        h["other"] = 1.5
        h.create_group("probability")
    P.pop.writeto(f)
    m = dict(P.meta, lf_params=None, lf_form=None, truth={}, name="second", model_spaces={})
    q = dict(P.q)
    q.pop("probability")
    pop = Q(known_distances=P.kd, known_distance_idx=P.idx, unknown_distance_idx=P.nidx,
            auxiliary_quantities={"c": P.aux["a"]}, **q, **m)
    before = comparable(env, pop)
    pop.writeto(f)
    like(env, "loaded", before, pop, Q.from_file(f))


@harness("C08", runs=14)
def parts(env):
    """sub-populations are saved as well"""
    P = Pop(env)
    round_trip(env, P.pop.to_sub_population(observed=env.choice("observed", [True, False])))


def survey(env, shapes):
    G = Ghosts(env)
    S = Survey(env, G, env.choice("shape", shapes))
    n = env.size("n")
    pop, _ = draw(env, G, S, n)
    round_trip(env, pop, again=False)


@harness("C08", runs=16)
def drawn(env):
    """what a survey produces"""
    survey(env, ["none", "one"])


@harness("C08", runs=16)
def drawn_nested(env):
    """what a survey with nested secondary samplers produces"""
    survey(env, ["nested"])


@harness("C08", runs=16)
def drawn_derived(env):
    """what a survey with a derived luminosity produces"""
    survey(env, ["derived"])
