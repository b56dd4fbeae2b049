"""C24 The graph of a population shows its generative structure"""
from popver.registry import harness
from contracts.ghosts import Ghosts, Survey, SHAPES


def expected(S, primaries, lum=True):
    """nodes and edges of a synth with these samplers, from their declared relations"""
    nodes, edges = {"space", "obs_flux"}, {("space", "obs_flux")}

    def add(s, to=None):
        nodes.add(s.name)
        if to is not None:
            edges.add((s.name, to))
        if s.observed:
            nodes.add(s.name + "_obs")
            edges.add((s.name, s.name + "_obs"))
        if s.uses_distance:
            edges.add(("space", s.name))
        for k, v in s.secondary_samplers.items():
            add(v, s.name)
    derived = [s for s in primaries if s.is_derived]
    for s in primaries:
        add(s, "obs_flux" if s.is_derived else None)
    if lum and not derived:
        nodes.add("lum")
        edges.add(("lum", "obs_flux"))
    return nodes, edges


class Sam:
    """what a contract says about a sampler: its relations as they were declared"""

    def __init__(self, name, observed, uses_distance, derived=False):
        self.name, self.observed, self.uses_distance, self.is_derived = name, observed, uses_distance, derived
        self.secondary_samplers = {}


def check(env, label, g, primaries, S=None, lum=True):
    nodes, edges = expected(S, primaries, lum)
    env.check(label + ": nodes", set(map(str, g.nodes())) == nodes)
    env.check(label + ": edges", set((str(a), str(b)) for a, b in g.edges()) == edges)
    env.check(label + ": observed nodes",
              {str(k) for k, d in g.nodes(data=True) if d.get("observed")} == {k for k in nodes if k.endswith("_obs") or k == "obs_flux"})


def build(env, G, spec, flags):
    """spec: list of (name, [names of secondaries]); the last ones are built first. Returns declared and real samplers"""
    decl, real = {}, {}
    for name, secs in reversed(spec):
        ob, ud = flags(name)
        der = name == "d"
        decl[name] = Sam(name, ob and not der, ud, der)
        real[name] = G.Derived(name, uses_distance=ud) if der else G.Aux(name, observed=ob, uses_distance=ud)
        for k in secs:
            decl[name].secondary_samplers[k] = decl[k]
            real[name].set_secondary_sampler(real[k])
    return decl, real


FLAGS = [(True, False), (False, True), (True, True), (False, False)]
TREES = {
    "single": ([("a", [])], ["a"]),
    "chain": ([("a", ["b"]), ("b", ["c"]), ("c", [])], ["a"]),
    "fan": ([("a", ["b", "c"]), ("b", []), ("c", [])], ["a"]),
    "shared": ([("a", ["c"]), ("b", ["c"]), ("c", ["e"]), ("e", [])], ["b", "a"]),
    "diamond": ([("a", ["b", "c"]), ("b", ["e"]), ("c", ["e"]), ("e", [])], ["a"]),
    "long": ([("a", ["b"]), ("b", ["c"]), ("c", ["e"]), ("e", ["f"]), ("f", [])], ["a"]),
    "derived": ([("a", ["b"]), ("d", ["b", "c"]), ("b", ["e"]), ("c", []), ("e", ["f"]), ("f", [])], ["d", "a"]),
    "derived alone": ([("d", [])], ["d"]),
    "derived last": ([("a", ["b"]), ("d", ["c"]), ("b", []), ("c", ["e"]), ("e", [])], ["a", "d"]),
}


def tree(env, name, two):
    """graph before and after a draw, of the population and after more samplers were attached"""
    G = Ghosts(env)
    spec, tops = TREES[name]
    if two:
        kinds = {}
        for k, _ in spec:
            kinds[k] = env.choice("flags of " + k, FLAGS)
        flags = kinds.__getitem__
    else:
        start = env.choice("flags", [0, 1, 2, 3])
        order = [k for k, _ in spec]
        flags = lambda k: FLAGS[(start + order.index(k)) % 4]
    decl, real = build(env, G, spec, flags)
    derived = "d" in tops
    PS = env.mod("popsynth.population_synth").PopulationSynth
    lum = None if derived and env.choice("own luminosity", [False, True]) is False else G.Lum()
    synth = PS(G.Space(), lum)
    check(env, "without samplers", synth.graph, [], lum=lum is not None)
    seen = []
    for k in tops:
        synth.add_auxiliary_sampler(real[k])
        seen.append(decl[k])
        check(env, "after attaching " + k, synth.graph, seen, lum=lum is not None)
    if not two:
        before = synth.graph
        pop = synth.draw_survey(n_samples=env.size("n"))
        check(env, "population", pop.graph, seen)
        check(env, "synth after the draw", synth.graph, seen)
        synth.add_auxiliary_sampler(G.Aux("later"))
        check(env, "population after more was attached", pop.graph, seen)
        check(env, "synth after more was attached", synth.graph, seen + [Sam("later", True, False)])


@harness("C24", runs=30)
def chain(env):
    """a sampler with secondaries at two further levels, all flags"""
    tree(env, "chain", True)


@harness("C24", runs=30)
def fan(env):
    """a sampler with two secondaries, all flags"""
    tree(env, "fan", True)


@harness("C24", runs=16)
def single(env):
    tree(env, "single", False)


@harness("C24", runs=16)
def shared(env):
    """two samplers sharing a secondary with a secondary of its own"""
    tree(env, env.choice("shape", ["shared", "diamond"]), False)


@harness("C24", runs=16)
def long(env):
    """five levels"""
    tree(env, "long", False)


@harness("C24", runs=24)
def derived(env):
    """a derived luminosity sampler replaces the luminosity distribution"""
    tree(env, env.choice("shape", ["derived", "derived alone", "derived last"]), False)


@harness("C24", runs=40)
def below(env):
    """one level: whatever the secondaries add below themselves, their sampler adds their nodes and edges and nothing else

    By induction over the levels the graph below every sampler is complete."""
    G = Ghosts(env)
    nx = env.mod("popsynth.population_synth").nx
    space = G.Space()
    a = G.Aux("a", observed=env.choice("a observed", [True, False]))
    names = env.choice("secondaries", [[], ["b"], ["b", "c"], ["b", "c", "e"]])
    nodes, edges = {"a"}, set()
    calls = []
    for k in names:
        ob, ud = env.choice("flags of " + k, FLAGS)
        s = G.Aux(k, observed=ob, uses_distance=ud)
        a.set_secondary_sampler(s)
        storage = env.mod("popsynth.auxiliary_sampler").SecondaryStorage

        def fn(graph=None, primary=None, spatial_distribution=None, k=k):
            calls.append((k, primary, graph is g, spatial_distribution is space))
            if graph is not None:
                graph.add_edge("below " + k, primary)
            return storage()
        env.stub(s, "get_secondary_properties", fn)
        nodes |= {k, "below " + k}
        edges |= {(k, "a"), ("below " + k, k)}
        if ob:
            nodes.add(k + "_obs")
            edges.add((k, k + "_obs"))
        if ud:
            nodes.add("space")
            edges.add(("space", k))
    g = nx.DiGraph()
    g.add_node("a")
    a.get_secondary_properties(graph=g, primary="a", spatial_distribution=space)
    # another division of labour between the functions is judged by the trees above
    env.assume(calls == [(k, k, True, True) for k in names])
    env.check("nodes", set(map(str, g.nodes())) == nodes)
    env.check("edges", set((str(x), str(y)) for x, y in g.edges()) == edges)


@harness("C24", runs=12)
def reloaded(env):
    """the graph of a sub-population is that of its parent"""
    n = env.size("n")
    G = Ghosts(env)
    shape = env.choice("shape", ["one", "nested", "derived"])
    S = Survey(env, G, shape)
    pop = S.synth.draw_survey(n_samples=n)
    decl = {k: Sam(k, s.observed, s.uses_distance, shape.startswith("derived") and k == "d") for k, s in S.samplers.items()}
    for k, s in S.samplers.items():
        for q in s.secondary_samplers:
            decl[k].secondary_samplers[q] = decl[q]
    tops = [decl[s.name] for s in S.primaries]
    check(env, "population", pop.graph, tops)
    check(env, "observed part", pop.to_sub_population().graph, tops)
    S.synth.clean()
    check(env, "population after its synth was cleaned", pop.graph, tops)
