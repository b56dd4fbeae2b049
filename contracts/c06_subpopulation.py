"""C06 Sub-populations keep exactly the chosen objects and their data"""
from popver.registry import harness
from contracts.pops import Pop
from contracts.popcmp import snapshot, same

META = ["flux_sigma", "_r_max", "_n_model", "luminosity_parameters", "spatial_parameters", "_model_spaces", "_seed",
        "_name", "_spatial_form", "_lf_form", "truth", "pop_synth"]
VARS = {"luminosities": ("luminosities", "luminosities"), "distances": ("distances", "distances"),
        "fluxes": ("flux_obs", "fluxes"), "theta": ("theta", "theta"), "phi": ("phi", "phi"),
        "probability": ("probability", "probability")}


def sub(env, observed, **kw):
    P = Pop(env, **kw)
    pop = P.pop
    before = snapshot(env, pop)
    s = pop.to_sub_population(observed=observed) if not observed or env.choice("given", [True, False]) else \
        pop.to_sub_population()
    pos, count, _ = env.where(P.q["selection"] if observed else ~P.q["selection"])
    for k, (o, l) in VARS.items():
        v = getattr(s, k)
        if k == "probability" and "probability" not in P.q:
            env.check("no probability", v is None)
            continue
        env.check_array(k, env.base(v), count, lambda i: env.at(P.q[o], pos(i)))
        env.check_array(k + ": latent", env.base(v.latent), count, lambda i: env.at(P.q[l], pos(i)))
    env.check("auxiliary quantities", sorted(s._auxiliary_quantities) == sorted(P.aux) if P.aux is not None
              else s._auxiliary_quantities is None)
    for k in P.aux or {}:
        v = getattr(s, k)
        env.check_array("%s: observed" % k, env.base(v), count, lambda i: env.at(P.aux[k]["obs_values"], pos(i)))
        env.check_array("%s: latent" % k, env.base(v.latent), count, lambda i: env.at(P.aux[k]["true_values"], pos(i)))
        for w in ("obs_values", "true_values"):
            env.check_array("%s: stored %s" % (k, w), env.base(s._auxiliary_quantities[k][w]), count,
                            lambda i: env.at(P.aux[k][w], pos(i)))
    env.check_array("all are detected", s.selection, count, lambda i: True)
    env.check("number of objects", env.eq(s.n_objects, count))
    env.check("number of detections", env.eq(s.n_detections, count))
    env.check("number of non-detections", env.eq(s.n_non_detections, 0))
    env.check("has detections", env.iff(s.has_detections, count > 0))
    if observed:
        env.check_len("number of known distances", s.known_distances, env.len(P.idx))
        env.check_array("known distances", s.known_distances, env.len(P.idx), lambda i: env.at(P.kd, i))
        env.check_array("positions of known distances", s._known_distance_idx, env.len(P.idx), lambda i: env.at(P.idx, i))
        env.check_array("positions of unknown distances", s._unknown_distance_idx, env.len(P.nidx),
                        lambda i: env.at(P.nidx, i))
    else:
        env.check_len("no known distances", s.known_distances, 0)
        env.check_len("no positions of known distances", s._known_distance_idx, 0)
        env.check_array("positions of unknown distances", s._unknown_distance_idx, count, lambda i: i)
    for k in META:
        env.check_same("carried over: " + k, getattr(s, k), getattr(pop, k))
    env.check("graph", sorted(map(str, s.graph.edges())) == sorted(map(str, pop.graph.edges())))
    same(env, "parent unchanged", before, snapshot(env, pop))
    return P, s


@harness("C06", runs=20)
def selected(env):
    """the observed part: every quantity of the j-th object is that of the j-th selected object of the parent"""
    sub(env, True)


@harness("C06", runs=20)
def non_selected(env):
    """the unobserved part has no known distances"""
    sub(env, False)


@harness("C06", runs=12)
def without(env):
    """without a luminosity distribution, probabilities, auxiliary quantities or model spaces"""
    sub(env, env.choice("observed", [True, False]), aux=env.choice("aux", [None, ()]), probability=False,
        lum_form=False, spaces=False)


@harness("C06", runs=12)
def known(env):
    """a population without known distances has none in its parts"""
    sub(env, env.choice("observed", [True, False]), aux=("a",), empty_known=True)


@harness("C06", runs=12)
def again(env):
    """the observed part of the observed part is the same, its unobserved part is empty"""
    P, s = sub(env, env.choice("observed", [True, False]), aux=("a",))
    t = s.to_sub_population(observed=True)
    same(env, "the observed part again", snapshot(env, s), snapshot(env, t))
    e = s.to_sub_population(observed=False)
    env.check("nothing is unobserved", env.eq(e.n_objects, 0))
    env.check_len("nothing is unobserved: fluxes", env.base(e.fluxes), 0)
    env.check_len("nothing is unobserved: known distances", e.known_distances, 0)


@harness("C06", runs=12)
def apart(env):
    """changing the part in place does not change the parent, nor the other way round"""
    P = Pop(env, aux=("a",), empty_known=True)
    observed = env.choice("observed", [True, False])
    s = P.pop.to_sub_population(observed=observed)
    a, b = snapshot(env, P.pop), snapshot(env, s)
    which = env.choice("changed", ["part", "parent"])
    x = s if which == "part" else P.pop
    x.luminosities[...] = 1.0
    x.distances[...] = 1.0
    x.fluxes[...] = 1.0
    x._auxiliary_quantities["a"]["obs_values"][...] = 1.0
    if which == "part":
        same(env, "parent", a, snapshot(env, P.pop))
    else:
        same(env, "part", b, snapshot(env, s))
