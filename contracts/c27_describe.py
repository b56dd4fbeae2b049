"""C27 Descriptions show the current configuration

Text forms and what display() puts on the screen are compared with the components attached and the values of their
parameters. How the lines are arranged is not judged: a value is shown where one line or row holds the name and the value."""
from popver.registry import harness
from contracts.c10_configuration import Kit
from contracts.pops import Pop

MODS = ("popsynth.distribution", "popsynth.auxiliary_sampler", "popsynth.population_synth", "popsynth.population")


class Shown:
    """what was displayed: texts and tables, in order"""

    def __init__(self, env):
        self.items, self.env = [], env
        for m in MODS:
            mod = env.mod(m)
            for name, fn in (("display", self.display), ("Markdown", str), ("Math", str)):
                if hasattr(mod, name):
                    env.stub(mod, name, fn)
            if hasattr(mod, "pd"):
                env.stub(mod, "pd", Pandas())

    def display(self, *xs, **k):
        self.items.extend(xs)

    def take(self):
        out, self.items = self.items, []
        return [x for x in out if isinstance(x, str)], [r for x in out if isinstance(x, Table) for r in x.rows]


class Table:
    def __init__(self, data=None, columns=None, index=None, **k):
        if isinstance(data, dict) and all(isinstance(v, (list, tuple)) for v in data.values()):
            self.rows = list(zip(*data.values()))
        else:
            rows = list(data.items()) if isinstance(data, dict) else list(data)
            self.rows = [tuple(r.values()) if isinstance(r, dict) else tuple(r) for r in rows]


class Pandas:
    DataFrame = Table


def given(K, x):
    """values of the parameters that were set"""
    return {k: v for k, v in K.values(x).items() if v is not None}


def in_text(env, label, text, values):
    lines = [l.strip() for l in text.split("\n")]
    for k, v in values.items():
        mine = [l for l in lines if l == k or l.startswith(k + ":") or l.startswith(k + " ") or l.startswith(k + "=")]
        env.check("%s: %s is shown" % (label, k), any(str(v) in l for l in mine))


def in_rows(env, label, rows, values, only=True):
    """every parameter that has a value has one row, which holds the value"""
    got = {}
    for r in rows:
        names = [c for c in r if isinstance(c, str)]
        rest = [c for c in r if not isinstance(c, str)]
        if len(names) == 1:
            got.setdefault(names[0], []).extend(rest)
    for k, v in values.items():
        env.check("%s: %s is displayed" % (label, k), k in got)
        if k in got:
            env.check("%s: %s displayed once" % (label, k), len(got[k]) == 1)
            env.check("%s: value of %s" % (label, k), env.exact(got[k][0], v))
    if only:
        env.check("%s: nothing else is displayed" % label, set(k for k in got if got[k] != [None]) <= set(values))


def make(K, env):
    """one distribution or sampler of any public kind"""
    kind = env.choice("kind", ["spatial", "luminosity", "sampler"])
    table = dict(spatial=K.spatial, luminosity=K.lum, sampler=K.aux)[kind]
    name = env.choice("class", sorted(table))
    c = table[name]
    if kind != "sampler":
        return kind, c()
    try:
        return kind, c("mine", observed=env.choice("observed", [True, False]))
    except TypeError:
        return kind, c()


@harness("C27", runs=60)
def component(env):
    """every public distribution and sampler, before and after its parameters are changed"""
    K = Kit(env)
    S = Shown(env)
    kind, x = make(K, env)
    for step in ("given", "changed"):
        K.fill(x, "%s %s" % (kind, step))
        want = given(K, x)
        text = repr(x)
        in_text(env, step, text, want)
        env.check("name", x.name in text)
        if kind == "sampler":
            line = [l for l in text.split("\n") if l.strip().startswith("observed")]
            env.check("observed", len(line) == 1 and str(x.observed) in line[0] and str(not x.observed) not in line[0])
        else:
            env.check("has a form", isinstance(x.form, str) or type(x).__name__ == "FlatlandDistribution")
            env.check("form", not isinstance(x.form, str) or x.form in text)
        x.display()
        texts, rows = S.take()
        in_rows(env, step, rows, want)
        if kind != "sampler":
            env.check("form displayed", not isinstance(x.form, str) or any(x.form in t for t in texts))
        after = given(K, x)
        env.check("describing changes nothing", sorted(after) == sorted(want))
        for k in want:
            env.check("describing keeps " + k, env.exact(after[k], want[k]))
        env.check("describing twice", repr(x) == text)


def sampler(K, name, tag):
    return K.fill(K.aux["NormalAuxSampler"](name, observed=True), tag)


@harness("C27", runs=16)
def relations(env):
    """the text form of a sampler names its secondaries and its parents"""
    K = Kit(env)
    a, b, c = (sampler(K, n, n) for n in ("first", "second", "third"))
    env.check("no relation yet", not any(n in repr(a) for n in ("second", "third", "parents")))
    a.set_secondary_sampler(b)
    a.set_secondary_sampler(c)
    env.check("secondaries", all(n in repr(a) for n in ("second", "third")))
    env.check("parent", all("first" in repr(x) for x in (b, c)))
    d = sampler(K, "fourth", "d")
    d.set_secondary_sampler(b)
    env.check("parents", all(n in repr(b) for n in ("first", "fourth")))
    env.check("other parents", "fourth" not in repr(c))


@harness("C27", runs=40)
def synth(env):
    """every component of a synth, also after changes"""
    K = Kit(env)
    S = Shown(env)
    lum = env.choice("luminosity", ["distribution", "derived", "none"])
    space = K.fill(K.spatial["ConstantSphericalDistribution"](), "space")
    s = K.synth(space, K.lum0() if lum == "distribution" else None)
    parts = [("space", space)]
    if lum == "distribution":
        parts.append(("luminosity", s.luminosity_distribution))
    elif lum == "derived":
        d = K.fill(K.derived(), "derived")
        low = sampler(K, "low", "low")
        d.set_secondary_sampler(low)
        if env.choice("shared", [False, True]):
            top = sampler(K, "top", "top")
            top.set_secondary_sampler(low)
            s.add_auxiliary_sampler(top)
            parts.append(("top", top))
        s.add_auxiliary_sampler(d)
        parts += [("derived", d), ("low", low)]
    for k in ("a", "b")[:env.choice("samplers", [0, 1, 2])]:
        x = sampler(K, k, k)
        s.add_auxiliary_sampler(x)
        parts.append((k, x))
    if env.choice("changed", [False, True]):
        for k, x in parts:
            K.fill(x, k + " changed")
    text = repr(s)
    for k, x in parts:
        env.check("%s is described" % k, repr(x) in text)
        env.check("%s is described once" % k, text.count(repr(x)) == 1)
    env.check("describing twice", repr(s) == text)
    s.display()
    texts, rows = S.take()
    shown = [[str(c) for c in r] for r in rows]
    for k, x in parts:
        x.display()
        _, mine = S.take()
        mine = [[str(c) for c in r] for r in mine]
        env.check("%s: table" % k, any(shown[i:i + len(mine)] == mine for i in range(len(shown) + 1)))
    n = sum(len(given(K, x)) for k, x in parts)
    env.check("each parameter is displayed once", len(rows) == n)
    for k, x in parts:
        if k not in ("space", "luminosity", "derived"):
            env.check("%s has a heading" % k, any(x.name in t for t in texts))


def numbers(env, text, *words, without=()):
    """the number a line gives"""
    out = [env.numbers(l) for l in text.split("\n") if all(w in l for w in words) and not any(w in l for w in without)]
    env.check("one line: " + words[0], len(out) == 1 and len(out[0]) == 1)
    return out[0][0]


@harness("C27", runs=20)
def population(env):
    """the text form of a population gives its numbers of objects, also of its observed part"""
    P = Pop(env, name="some")
    pop = P.pop
    if env.choice("part", [False, True]):
        pop, n, m = pop.to_sub_population(), P.count, P.count
    else:
        n, m = P.n, P.count
    text = repr(pop)
    env.check("total", env.eq(numbers(env, text, "total"), n))
    env.check("detections", env.eq(numbers(env, text, "detections", without=["non"]), m))
    env.check("non-detections", env.eq(numbers(env, text, "non-detections"), n - m))


@harness("C27", runs=20)
def population_display(env):
    """what is displayed of a population: the numbers of objects, the parameters it was drawn with and their forms"""
    S = Shown(env)
    form = env.choice("luminosity distribution", [True, False])
    P = Pop(env, name="some", lum_form=form)
    P.pop.display()
    texts, rows = S.take()
    head = [l for t in texts for l in t.split("\n") if "out of" in l]
    env.check("one line with the numbers", len(head) == 1)
    got = env.numbers(head[0])
    env.check("two numbers", len(got) == 2)
    env.check("detected", env.eq(got[0], P.count))
    env.check("all", env.eq(got[1], P.n))
    env.check("name", any("some" in t for t in texts))
    in_rows(env, "parameters", rows, dict(P.meta["spatial_params"], **(P.meta["lf_params"] or {})))
    env.check("form of space", "rho" in texts)
    env.check("form of luminosity", ("phi" in texts) == form)
