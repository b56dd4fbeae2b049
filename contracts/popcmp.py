"""everything a user can read from a population"""

ARRAYS = ["selection", "known_distances", "_known_distance_idx", "_unknown_distance_idx"]
VARIABLES = ["luminosities", "distances", "fluxes", "theta", "phi", "probability"]
VALUES = ["n_objects", "n_detections", "n_non_detections", "has_detections", "flux_sigma", "_r_max", "_seed", "_name",
          "_n_model", "_spatial_form", "_lf_form", "truth", "luminosity_parameters", "spatial_parameters",
          "_model_spaces", "pop_synth"]


def deep(env, x):
    """a copy that later changes do not reach"""
    if env.is_array(x):
        return env.copy(x)
    if isinstance(x, dict):
        return {k: deep(env, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [deep(env, v) for v in x]
    return x


def snapshot(env, pop):
    out = {}
    for k in ARRAYS:
        out[k] = deep(env, getattr(pop, k))
    for k in VARIABLES:
        v = getattr(pop, k)
        out[k] = None if v is None else env.copy(env.base(v))
        out[k + " latent"] = None if v is None else env.copy(env.base(v.latent))
    for k in VALUES:
        out[k] = deep(env, getattr(pop, k))
    for k in sorted((pop._auxiliary_quantities or {}).keys()):
        v = getattr(pop, k)
        out["aux " + k] = env.copy(env.base(v))
        out["aux %s latent" % k] = env.copy(env.base(v.latent))
    g = pop.graph
    out["nodes"] = sorted((str(a), sorted((str(x), y) for x, y in d.items())) for a, d in g.nodes(data=True))
    out["edges"] = sorted((str(a), str(b)) for a, b in g.edges())
    return out


def same(env, label, a, b):
    """two snapshots agree"""
    env.check(label + ": the same quantities", set(a) == set(b))
    for k in a:
        if k in b:
            env.check_same(label + ": " + k, a[k], b[k])
