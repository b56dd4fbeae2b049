"""C16 Auxiliary samplers are drawn once, after all they depend on"""
from popver.registry import harness
from contracts.ghosts import Ghosts, Survey

def drawn_once(env, G, names, size, label=""):
    """every sampler drawn once for that number of objects, after its secondaries"""
    calls = [c for c in G.calls if c[0] == "true"]
    env.check(label + "each sampler drawn exactly once", sorted(c[1] for c in calls) == sorted(names))
    for c in calls:
        env.check(label + "drawn for the number of objects", env.eq(c[2], size))
    at = {c[1]: k for k, c in enumerate(calls)}
    for k, s in names.items():
        for j in s.secondary_samplers:
            env.check(label + "secondaries drawn before", j in at and k in at and at[j] < at[k])


def sees(env, S, pop, n):
    for k, s in S.samplers.items():
        for j, v in s.secondary_samplers.items():
            t, o = s.seen_secondary[j]
            env.check_same("%s sees the values of %s" % (k, j), t, v.true_values)
            env.check_same("%s sees the observed values of %s" % (k, j), o, v.obs_values)
        for q, want in (("distance", pop.distances), ("theta", pop.theta), ("phi", pop.phi), ("ra", pop.ra), ("dec", pop.dec)):
            env.check_same("%s sees the %s of the survey" % (k, q), env.base(s.seen[q]), env.base(want))
        if S.lum is not None or (k == "a" and S.shape == "derived"):
            env.check_same("%s sees the luminosities of the survey" % k, env.base(s.seen["luminosity"]), env.base(pop.luminosities))


def holds(env, S, pop, n, par):
    for k, s in S.samplers.items():
        v = getattr(pop, k, None)
        env.check("values of %s are in the survey" % k, v is not None)
        env.check_same("observed values of " + k, env.base(v), env.base(s.obs_values))
        env.check_same("true values of " + k, env.base(v.latent), env.base(s.true_values))
        env.check_len("values of " + k, v, n)
        env.check_same("truth of " + k, dict(pop.truth.get(k, {})), par[k])
    env.check_same("truth of the spatial distribution", dict(pop.truth["space"]), par["space"])
    if S.lum is not None:
        env.check_same("truth of the luminosity distribution", dict(pop.truth["lum"]), par["lum"])
    env.check("nothing else in the truth", set(pop.truth) == set(par))


def protocol(env, shape, flags=True):
    n = env.size("n")
    G = Ghosts(env)
    S = Survey(env, G, shape, flux=False, distance=False, spatial=False)
    par = {"space": {"Lambda": env.real("Lambda", gt=0, lo=0.5, hi=3), "r_max": env.real("r_max", gt=0, lo=1, hi=5)}}
    S.space.Lambda, S.space.r_max = par["space"]["Lambda"], par["space"]["r_max"]
    if S.lum is not None:
        par["lum"] = {"L0": env.real("L0", gt=0, lo=1, hi=5)}
        S.lum.L0 = par["lum"]["L0"]
    for k, s in S.samplers.items():
        par[k] = {"mu": env.real("mu_" + k, lo=-2, hi=2)}
        s.mu = par[k]["mu"]
        if shape != "derived" or k != "d":
            if hasattr(type(s), "tau"):
                par[k]["tau"] = env.real("tau_" + k, lo=-2, hi=2)
                s.tau = par[k]["tau"]
    pop = S.synth.draw_survey(n_samples=n)
    drawn_once(env, G, S.samplers, n)
    sees(env, S, pop, n)
    holds(env, S, pop, n, par)


@harness("C16", runs=12)
def one(env):
    """a single sampler"""
    protocol(env, "one")


@harness("C16", runs=12)
def nested(env):
    """secondaries at two levels"""
    protocol(env, "nested")


@harness("C16", runs=12)
def shared(env):
    """a secondary of two samplers"""
    protocol(env, "shared")


@harness("C16", runs=12)
def diamond(env):
    """two secondaries with a common secondary"""
    protocol(env, "diamond")


@harness("C16", runs=12)
def deep(env):
    """four levels, an inner sampler also belongs to another primary"""
    protocol(env, "deep")


@harness("C16", runs=12)
def derived(env):
    """a derived luminosity sampler with secondaries, and another sampler"""
    protocol(env, "derived")


@harness("C16", runs=20)
def level(env):
    """one level of any tree: the secondaries obey the contract of draw and reset, then their sampler does

    By induction over the levels every tree of samplers, shared ones included, is drawn and reset as stated."""
    n = env.size("n")
    G = Ghosts(env)
    space = G.Space()
    space.draw_distance(n)
    space.draw_sky_positions(n)
    a = G.Aux("a", observed=env.choice("a observed", [True, False]), uses_distance=env.choice("a uses distance", [True, False]))
    a.set_selection_probability(G.selection("sel_a"))
    names = env.choice("secondaries", [[], ["b"], ["b", "c"], ["b", "c", "e"]])
    already = env.choice("drawn before", [[], ["b"], ["c", "e"]])
    lum = env.array("luminosity", n, gt=0, lo=1, hi=3) if env.choice("luminosities", [True, False]) else None
    secs, kids = {}, []
    for k in names:
        s = secs[k] = G.Aux(k)
        a.set_secondary_sampler(s)
        t, o = env.array("true " + k, n, lo=-3, hi=3), env.array("obs " + k, n, lo=-3, hi=3)
        if k in already:
            s._true_values, s._obs_values, s._is_sampled = t, o, True

        def fn(size=1, k=k, s=s, t=t, o=o):
            G.calls.append(("sub", k, size, getattr(s, "_spatial_values", None), getattr(s, "_luminosity", None)))
            s._true_values, s._obs_values, s._is_sampled = t, o, True

        def rs(k=k, s=s):
            kids.append(k)
            s._true_values = s._obs_values = None
            s._is_sampled = False
        env.stub(s, "draw", fn)
        env.stub(s, "reset", rs)
    a.set_spatial_values(space.spatial_values)
    if lum is not None:
        a.set_luminosity(lum)
    G.calls.clear()
    a.draw(size=n)
    sub = [c for c in G.calls if c[0] == "sub"]
    # another division of labour between the functions is judged by the trees above
    env.assume([c[1] for c in sub] in (names, [k for k in names if k not in already]))
    own = [k for k, c in enumerate(G.calls) if c[0] == "true"]
    env.check("drawn once itself", len(own) == 1 and all(k < own[0] for k, c in enumerate(G.calls) if c[0] == "sub"))
    env.check("for the number of objects", env.eq(G.calls[own[0]][2], n))
    for c in sub:
        env.check("the secondary is drawn for the number of objects", env.eq(c[2], n))
        env.check("the secondary has positions", c[3] is not None)
        for q in ("distance", "theta", "phi"):
            env.check_same("the secondary has the " + q, env.base(getattr(c[3], q)), env.base(getattr(space.spatial_values, q)))
        env.check("the secondary has luminosities if they are known", (c[4] is None) == (lum is None))
        if lum is not None:
            env.check_same("the secondary has the luminosities", env.base(c[4]), env.base(lum))
    for k, s in secs.items():
        t, o = a.seen_secondary[k]
        env.check("values of the secondary are there", t is s.true_values and o is s.obs_values and t is not None)
    env.check_len("own values", a.true_values, n)
    env.check_len("own observed values", a.obs_values, n)
    env.check("selected once", [c for c in G.calls if c[0] == "select"] == [("select", "sel_a")])
    env.check_len("own selection", a.selection, n)
    keep = (a.true_values, a.obs_values)
    G.calls.clear()
    a.draw(size=n)
    env.check("not drawn again", not G.calls and a.true_values is keep[0] and a.obs_values is keep[1])
    a.reset()
    env.check("secondaries are reset", set(kids) == set(names))
    env.check("own values are gone", a.true_values is None and a.obs_values is None)
    if lum is not None:
        a.set_luminosity(lum)
    a.set_spatial_values(space.spatial_values)
    G.calls.clear()
    a.draw(size=n)
    env.check("drawn anew after a reset", len([c for c in G.calls if c[0] == "true"]) == 1
              and len([c for c in G.calls if c[0] == "select"]) == 1)


@harness("C16", runs=12)
def redraw(env):
    """a sampler that was drawn is not drawn again until it is reset, which resets all its secondaries"""
    n, m = env.size("n"), env.size("m")
    G = Ghosts(env)
    shape = env.choice("shape", ["deep", "diamond", "shared"])
    S = Survey(env, G, shape, flux=False, distance=False, spatial=False)
    pop = S.synth.draw_survey(n_samples=n)
    keep = {k: (s.true_values, s.obs_values) for k, s in S.samplers.items()}
    a = S.samplers["a"]
    G.calls.clear()
    a.draw(size=m)
    env.check("not drawn again", not [c for c in G.calls if c[0] == "true"])
    for k, (t, o) in keep.items():
        env.check("values stay", S.samplers[k].true_values is t and S.samplers[k].obs_values is o)
    a.reset()
    below = {}

    def collect(s):
        below[s.name] = s
        for v in s.secondary_samplers.values():
            collect(v)
    collect(a)
    for k, s in below.items():
        env.check("values are gone after a reset", s.true_values is None and s.obs_values is None)
    G.calls.clear()
    sp = S.space
    sp.draw_distance(m)
    sp.draw_sky_positions(m)
    G.calls.clear()
    a.set_spatial_values(sp.spatial_values)
    a.set_luminosity(env.array("new_luminosity", m, gt=0, lo=1, hi=3))
    a.draw(size=m)
    drawn_once(env, G, below, m, "after a reset: ")
    for k, s in below.items():
        if isinstance(s.selector, G.Selection):
            env.check_len("selection redrawn", s.selection, m)
            env.check("selected anew", len([c for c in G.calls if c == ("select", s.selector.name)]) == 1)


@harness("C16", runs=30)
def refused(env):
    """secondaries, taken names and other objects are refused as primary samplers"""
    G = Ghosts(env)
    S = Survey(env, G, env.choice("shape", ["one", "nested", "shared"]), flux=False, distance=False, spatial=False)
    what = env.choice("object", ["secondary", "nested secondary", "taken name", "selection", "string", "class", "none"])
    if what in ("secondary", "nested secondary"):
        x, y = G.Aux("x"), G.Aux("y")
        y.set_secondary_sampler(x)
        if what == "nested secondary":
            z = G.Aux("z")
            z.set_secondary_sampler(y)
            env.check("second parent known", "y" in x.parents)
    elif what == "taken name":
        x = G.Aux("a")
    elif what == "selection":
        x = G.selection("x")
    elif what == "string":
        x = "a"
    elif what == "class":
        x = G.Aux
    else:
        x = None
    before = dict(S.synth._auxiliary_observations)
    e = env.raises(lambda: S.synth.add_auxiliary_sampler(x))
    env.check("refused", e is not None)
    e = env.raises(lambda: S.synth.add_observed_quantity(x))
    env.check("refused as observed quantity", e is not None)
    after = S.synth._auxiliary_observations
    env.check("nothing changed", set(after) == set(before) and all(after[k] is before[k] for k in after))
    env.check("no derived luminosity", not S.synth._has_derived_luminosity)
    ok = G.Aux("other")
    env.check("a fresh sampler is accepted", env.raises(lambda: S.synth.add_auxiliary_sampler(ok)) is None)
    n = env.size("n")
    pop = S.synth.draw_survey(n_samples=n)
    env.check("and sampled", "other" in pop.truth and set(before) <= set(pop.truth))
    env.check("the refused one is not", "x" not in pop.truth)
