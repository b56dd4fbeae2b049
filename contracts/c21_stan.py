"""C21 Stan data describe exactly the selected objects; C23 auxiliary quantities cannot be overwritten"""
from popver.registry import harness
from contracts.ghosts import Ghosts, Survey
from contracts.pops import Pop
from contracts.popcmp import snapshot, same


def stan(env, P, pop):
    before = snapshot(env, pop)
    d = pop.to_stan_data()
    n, N = P.n, P.count
    env.check("number of selected objects", env.eq(d["N"], N))
    env.check("it is a plain integer", env.is_int(d["N"]))
    for k in ("z_obs", "r_obs"):
        env.check_array("distances in order (%s)" % k, env.base(d[k]), N, lambda i: env.at(P.q["distances"], P.pos(i)))
    env.check_array("observed fluxes in order", d["flux_obs"], N, lambda i: env.at(P.q["flux_obs"], P.pos(i)))
    env.check_array("decimal logarithm of the fluxes", env.base(d["log_flux_obs"]), N,
                    lambda i: env.log10(env.at(P.q["flux_obs"], P.pos(i))))
    aux = P.aux or {}
    for k in aux:
        env.check_array("auxiliary values %s" % k, env.base(d[k + "_obs"]), N,
                        lambda i: env.at(P.aux[k]["obs_values"], P.pos(i)))
    for k, u in (("z_idx", "z_nidx"), ("r_idx", "r_nidx")):
        a, b = d[k], d[u]
        kp, kn, kr = env.where(P.known)
        up, un, ur = env.where(~P.known)
        env.check_array("positions of known distances (%s)" % k, a, kn, lambda j: kp(j) + 1)
        env.check_array("positions of unknown distances (%s)" % u, b, un, lambda j: up(j) + 1)
        env.check("together they are all (%s)" % k, env.eq(env.len(a) + env.len(b), N))
    env.check("number of known distances", env.eq(d["Nz"], env.len(P.idx)))
    env.check("number of unknown distances", env.eq(d["Nnz"], env.len(P.nidx)))
    for k in ("known_z_obs", "known_r_obs"):
        env.check_array("known distances (%s)" % k, d[k], env.len(P.idx),
                        lambda j: env.at(P.q["distances"], P.pos(env.at(P.idx, j))))
    env.check("flux error", env.exact(d["flux_sigma"], P.meta["flux_sigma"]))
    for k in ("z_max", "r_max"):
        env.check("maximum distance (%s)" % k, env.exact(d[k], P.meta["r_max"]))
    env.check("number of grid points", d["N_model"] == 7)
    for k, v in (P.meta["model_spaces"] or {}).items():
        env.check_same("model space %s" % k, d[k], v)
    names = {"N", "Nz", "Nnz", "z_obs", "known_z_obs", "z_idx", "z_nidx", "r_obs", "known_r_obs", "r_idx", "r_nidx",
             "log_flux_obs", "flux_obs", "flux_sigma", "z_max", "r_max", "N_model"}
    env.check("nothing else", set(d) == names | {k + "_obs" for k in aux} | set(P.meta["model_spaces"] or {}))
    same(env, "population unchanged", before, snapshot(env, pop))


@harness("C21", runs=20)
def exported(env):
    """every exported array has one entry per selected object, in order"""
    P = Pop(env)
    stan(env, P, P.pop)


@harness("C21", runs=12)
def bare(env):
    """without a luminosity distribution, auxiliary quantities or probabilities"""
    P = Pop(env, aux=(), probability=False, lum_form=False)
    stan(env, P, P.pop)


@harness("C21", runs=12)
def all_selected(env):
    """with everything selected"""
    P = Pop(env, aux=("a",), full=True)
    stan(env, P, P.pop)


@harness("C21", runs=12)
def none_known(env):
    """with no known distance"""
    P = Pop(env, aux=("a",), empty_known=True)
    stan(env, P, P.pop)


@harness("C21", runs=16)
def of_part(env):
    """the part of the selected objects exports what the whole exports"""
    P = Pop(env, aux=("a",))
    stan(env, P, P.pop.to_sub_population())


@harness("C21", runs=10)
def of_file(env):
    """a population that was stored and loaded again exports what it exported before"""
    P = Pop(env, aux=("a",))
    name = env.tmpfile("stan.h5")
    P.pop.writeto(name)
    stan(env, P, type(P.pop).from_file(name))


# ------------------------------------------------------------------------- model spaces
@harness("C21", runs=20)
def spaces(env):
    """x_0 = start, x_{N-1} = stop; equal steps of x, or of log10 x unless linear spacing is asked for"""
    G = Ghosts(env)
    S = Survey(env, G, "none", flux=False, distance=False, spatial=False)
    how = env.choice("spacing", ["default", "log", "linear"])
    a = env.real("start", gt=0, lo=0.1, hi=10)
    b = env.real("stop", gt=0, lo=0.1, hi=10)
    kw = {"default": {}, "log": {"log": True}, "linear": {"log": False}}[how]
    other = env.choice("before", [False, True])
    if other:
        S.synth.add_model_space("x", 1.0, 2.0)
        S.synth.add_model_space("y", 1.0, 2.0, log=False)
    S.synth.add_model_space("x", a, b, **kw)
    N = S.synth._n_model
    env.check("declared number of points", env.eq(N, 500))
    pop = S.synth.draw_survey(n_samples=env.size("n"))
    x = pop._model_spaces["x"]
    env.check_len("number of points", x, N)
    if how == "linear":
        env.check_array("equal steps", x, N, lambda i: a + (b - a) * i / (N - 1), rtol=1e-9)
    else:
        env.check_array("equal steps of the logarithm", x, N,
                        lambda i: env.pow(10, env.log10(a) + (env.log10(b) - env.log10(a)) * i / (N - 1)), rtol=1e-9)
    if other:
        env.check_array("other spaces", pop._model_spaces["y"], N, lambda i: 1 + env.div(i, N - 1), rtol=1e-9)
    env.check("nothing else", set(pop._model_spaces) == ({"x", "y"} if other else {"x"}))
    d = pop.to_stan_data()
    env.check_same("passed on", d["x"], x)
    env.check("number of grid points", env.eq(d["N_model"], N))


# ------------------------------------------------------------------------- C23
NAMES = ["a", "some_name", "with blank", "_private"]


def protected(env, pop, names, values, selection, n):
    SV = env.mod("popsynth.simulated_variable").SimulatedVariable
    for k in names:
        v = getattr(pop, k)
        env.check("%s is a simulated variable" % k, isinstance(v, SV))
        env.check_array("%s: observed" % k, env.base(v), n, lambda i: env.at(values[k]["obs_values"], i))
        env.check_array("%s: latent" % k, env.base(v.latent), n, lambda i: env.at(values[k]["true_values"], i))
        env.check_array("%s: selection" % k, env.base(v._selection), n, lambda i: env.at(selection, i))
    before = snapshot(env, pop)
    for k in names:
        kept = getattr(pop, k)
        for what in (1.0, None, kept, env.array("other", n, lo=0, hi=1)):
            env.check("assigning to %s raises an error" % k, env.raises(lambda: setattr(pop, k, what)) == "AttributeError")
            env.check("%s is still there" % k, getattr(pop, k) is kept)
    same(env, "nothing changed", before, snapshot(env, pop))
    pop.something = 3
    pop._name = "other"
    env.check("other attributes can be assigned", pop.something == 3 and pop._name == "other")
    for k in names:
        env.check("assigning to %s still raises an error" % k, env.raises(lambda: setattr(pop, k, 1)) == "AttributeError")


@harness("C23", runs=12)
def overwritten(env):
    """pop.name = value raises and changes nothing"""
    P = Pop(env, aux=NAMES)
    protected(env, P.pop, NAMES, P.aux, P.q["selection"], P.n)


@harness("C23", runs=12)
def without_any(env):
    """a population without auxiliary quantities protects nothing"""
    P = Pop(env, aux=env.choice("aux", [None, ()]))
    P.pop.a = 4
    env.check("assigned", P.pop.a == 4)
    P.pop.a = 5
    env.check("assigned again", P.pop.a == 5)


@harness("C23", runs=12)
def in_parts(env):
    """sub-populations protect their quantities as well"""
    P = Pop(env, aux=("a", "b"))
    s = P.pop.to_sub_population(observed=env.choice("observed", [True, False]))
    protected(env, s, ["a", "b"], s._auxiliary_quantities, s.selection, s.n_objects)


@harness("C23", runs=12)
def of_a_survey(env):
    """every attached sampler at every level gives a protected quantity with the values drawn"""
    n = env.size("n")
    G = Ghosts(env)
    S = Survey(env, G, env.choice("shape", ["one", "nested", "shared", "derived", "deep"]), distance=False)
    pop = S.synth.draw_survey(n_samples=n)
    values = {k: dict(true_values=env.copy(s.true_values), obs_values=env.copy(s.obs_values)) for k, s in S.samplers.items()}
    env.check("names", sorted(pop._auxiliary_quantities.keys()) == sorted(S.samplers))
    protected(env, pop, sorted(S.samplers), values, env.copy(pop.selection), n)
