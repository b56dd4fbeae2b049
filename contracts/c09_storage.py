"""C09 Nested dictionaries survive storage in HDF5 files

Keys are non-empty strings without '/' that are not '.' (HDF5 path syntax); numbers fit the machine types.
"""
from popver.registry import harness

KINDS = ["int", "float", "bool", "numpy number", "array", "integers", "string", "empty string", "empty dict",
         "strings", "no strings", "dict"]
BAD = ["none", "tuple", "numbers", "mixed list", "object", "set"]


class Thing:
    pass


def value(env, kind, tag):
    if kind == "int":
        return env.int("int_" + tag, lo=-5, hi=1000)
    if kind == "float":
        return env.real("float_" + tag, lo=-5, hi=5)
    if kind == "bool":
        return True
    if kind == "numpy number":
        return env.np.float64(env.real("float64_" + tag, lo=-5, hi=5))
    if kind == "array":
        return env.array("array_" + tag, env.size("n_" + tag, ge=1, conc=[1, 2, 7]), lo=-2, hi=2)
    if kind == "integers":
        return env.array("ints_" + tag, env.size("m_" + tag, ge=1, conc=[1, 2, 7]), kind="i", lo=-9, hi=9)
    if kind == "string":
        return "a text, Ünïcode too / " + tag
    if kind == "empty string":
        return ""
    if kind == "empty dict":
        return {}
    if kind == "strings":
        return ["first", "second one"]
    if kind == "no strings":
        return []
    if kind == "dict":
        return {"x": 1, "y": {"z": {}, "l": ["q"]}}
    return {"none": None, "tuple": (1, 2), "numbers": [1.0, 2.0], "mixed list": ["a", 1], "object": Thing(),
            "set": {1}}[kind]


def stored(v):
    """what loading gives back"""
    if isinstance(v, list):
        return {k: {} for k in v}
    if isinstance(v, dict):
        return {k: stored(x) for k, x in v.items()}
    return v


def equal(env, label, got, want):
    if isinstance(want, dict):
        env.check(label + ": is a dictionary", isinstance(got, dict))
        if not isinstance(got, dict):
            return
        env.check(label + ": keys", sorted(got) == sorted(want))
        for k in want:
            if k in got:
                equal(env, "%s[%s]" % (label, k), got[k], want[k])
    elif isinstance(want, str):
        env.check(label + ": text", isinstance(got, str) and got == want)
    elif env.is_array(want):
        env.check_array(label + ": array", got, env.len(want), lambda i: env.at(want, i))
    else:
        env.check(label + ": number", not isinstance(got, (str, bytes, dict)) and env.exact(got, want))


def frozen(env, d):
    if isinstance(d, dict):
        return {k: frozen(env, v) for k, v in d.items()}
    if isinstance(d, list):
        return list(d)
    return env.copy(d) if env.is_array(d) else d


def unchanged(env, label, d, was):
    ok = type(d) is type(was)
    if isinstance(was, dict):
        env.check(label + " has its keys", ok and list(d) == list(was))
        for k in was:
            unchanged(env, "%s[%s]" % (label, k), d[k], was[k])
    elif isinstance(was, list):
        env.check(label + " has its items", ok and d == was)
    elif env.is_array(was):
        env.check_array(label + " has its values", d, env.len(was), lambda i: env.at(was, i))


def store(env, d, where="group", induct=False):
    """save to and load from a file that has other contents"""
    H = env.mod("popsynth.utils.hdf5_utils")
    h5 = H.h5py
    name = env.tmpfile("d.h5")
    if induct:
        real_save, real_load = H.recursively_save_dict_contents_to_group, H.recursively_load_dict_contents_from_group
        kept, used = {}, set()

        def norm(p):
            return "/".join(x for x in p.split("/") if x)

        def save(h5file, path, dic):
            if dic is d or len(dic) == 0:
                return real_save(h5file, path, dic)
            h5file.create_group(norm(path))
            kept[norm(path)] = dic

        def load(h5file, path):
            if norm(path) in kept:
                used.add(norm(path))
                return stored(kept[norm(path)])
            return real_load(h5file, path)
        env.stub(H, "recursively_save_dict_contents_to_group", save)
        env.stub(H, "recursively_load_dict_contents_from_group", load)
    was = frozen(env, d)
    with h5.File(name, "w") as f:
        f["other"] = 1.5
        f.create_group("old")
        f["old/x"] = 7
    with h5.File(name, "r+") as f:
        if where == "group":
            H.recursively_save_dict_contents_to_group(f, "truth", d)
        elif where == "nested path":
            H.recursively_save_dict_contents_to_group(f, "some/where", d)
        else:
            H.recursively_save_dict_contents_to_group(f.create_group("g"), "truth", d)
    with h5.File(name, "r") as f:
        path = {"group": "truth", "nested path": "some/where"}.get(where, "truth")
        got = H.recursively_load_dict_contents_from_group(f if where != "in a group" else f["g"], path)
        env.check("other contents are left", f["other"][()] == 1.5 and f["old/x"][()] == 7)
        env.check("nothing else was added", sorted(f.keys()) == sorted(
            ["other", "old", {"group": "truth", "nested path": "some"}.get(where, "g")]))
    if induct:
        # another recursion is judged by the contracts without assumptions
        env.assume(set(kept) == used)
    equal(env, "loaded", got, stored(was))
    unchanged(env, "the stored one", d, was)
    return got


KEYS = ["a", "some key", "Ünïcode", "0", "a.b"]


@harness("C09", runs=60)
def level(env):
    """one level: a dictionary of up to three values of any kind, sub-dictionaries by the contract of the recursive call

    By induction over the depth this holds for dictionaries of any depth."""
    width = env.choice("width", [0, 1, 2, 3])
    start = env.choice("first kind", list(range(len(KINDS))))
    step = env.choice("step", [0, 1, 5])
    d = {KEYS[(start + k) % len(KEYS)]: value(env, KINDS[(start + k * step) % len(KINDS)], str(k)) for k in range(width)}
    store(env, d, induct=True)


@harness("C09", runs=30)
def places(env):
    """at the top of a file, at a path and within a group"""
    k = env.choice("kind", KINDS)
    d = {"a": value(env, k, "a")} if env.choice("empty", [False, True]) is False else {}
    store(env, d, where=env.choice("where", ["group", "nested path", "in a group"]))


@harness("C09", runs=30)
def deep(env):
    """three levels, every kind of value at the innermost one"""
    k = env.choice("kind", KINDS)
    d = {"a": {"b": {"c": value(env, k, "c"), "d": 1}, "e": {}}, "f": value(env, k, "f"), "g": {"h": ["u", "v"]}}
    store(env, d)


@harness("C09", runs=30)
def same_keys(env):
    """the same keys at different levels do not get mixed up"""
    k = env.choice("kind", KINDS)
    d = {"a": {"a": {"a": value(env, k, "3")}, "b": value(env, k, "2")}, "b": {"a": value(env, k, "1"), "b": {}}}
    store(env, d)


@harness("C09", runs=16)
def twice(env):
    """what was loaded can be stored again with the same result"""
    k = env.choice("kind", KINDS)
    d = {"a": value(env, k, "a"), "b": {"c": value(env, k, "c")}}
    got = store(env, d)
    again = store(env, got)
    equal(env, "again", again, got)


@harness("C09", runs=24)
def unsupported(env):
    """a value that cannot be stored raises an error at any level"""
    H = env.mod("popsynth.utils.hdf5_utils")
    bad = value(env, env.choice("kind", BAD), "x")
    d = {"at top": {"x": bad}, "after others": {"a": 1, "x": bad}, "below": {"a": {"b": {"x": bad}}}}[
        env.choice("where", ["at top", "after others", "below"])]
    with H.h5py.File(env.tmpfile("d.h5"), "w") as f:
        env.check("an error is raised", env.raises(
            lambda: H.recursively_save_dict_contents_to_group(f, "truth", d)) is not None)


@harness("C09", runs=16)
def words(env):
    """a text is a text whatever it says"""
    H = env.mod("popsynth.utils.hdf5_utils")
    t = env.choice("text", ["FILL_VALUE", "NONE", "0", "{}", "fill_value", "True"])
    d = {"a": t, "b": {"c": t}}
    name = env.tmpfile("w.h5")
    with H.h5py.File(name, "w") as f:
        H.recursively_save_dict_contents_to_group(f, "truth", d)
    with H.h5py.File(name, "r") as f:
        got = H.recursively_load_dict_contents_from_group(f, "truth")
    env.check("the text %s comes back" % t, got["a"] == t and got["b"]["c"] == t)


# ------------------------------------------------------------------------------- graphs
def graphs(env, depth, tag=""):
    """a graph dictionary: nested dictionaries with empty ones at the end"""
    w = env.choice("width" + tag, [0, 1, 2] if depth else [0])
    return {"k%d" % i: graphs(env, depth - 1, tag + str(i)) for i in range(w)}


def filled(g, v):
    return {k: v if len(x) == 0 else filled(x, v) for k, x in g.items()}


@harness("C09", runs=40)
def graph(env):
    """clean(fill(g)) == g and fill(clean(f)) == f; every key is kept"""
    H = env.mod("popsynth.utils.hdf5_utils")
    g = graphs(env, 3)
    v = env.choice("fill value", [None, 1, 5])
    f = H.fill_graph_dict(g) if v is None else H.fill_graph_dict(g, v) if v == 1 else H.fill_graph_dict(g)
    env.check("keys of the filled one", filled(g, 1) == f)
    c = H.clean_graph_dict(f)
    env.check("clean after fill", c == g)
    env.check("fill after clean", H.fill_graph_dict(c) == f)
    env.check("operands unchanged", f == filled(g, 1))


@harness("C09", runs=30)
def graph_level(env):
    """one level, the others by the contract of the recursive call"""
    H = env.mod("popsynth.utils.hdf5_utils")
    fill, clean = H.fill_graph_dict, H.clean_graph_dict
    w = env.choice("width", [0, 1, 2, 3])
    kinds = [env.choice("item %d" % i, ["empty", "more"]) for i in range(w)]
    deeper = {"below": {"anything": {}}}
    g = {"k%d" % i: {} if k == "empty" else deeper for i, k in enumerate(kinds)}
    token = {"filled": 1}
    env.stub(H, "fill_graph_dict", lambda d, *a, **k: token if d is deeper else fill(d, *a, **k))
    env.stub(H, "clean_graph_dict", lambda d: deeper if d is token else clean(d))
    f = fill(g)
    env.assume(all(f.get("k%d" % i) is token for i, k in enumerate(kinds) if k != "empty"))
    env.check("filled", f == {"k%d" % i: 1 if k == "empty" else token for i, k in enumerate(kinds)})
    env.check("cleaned", clean(f) == g)


@harness("C09", runs=30)
def graph_stored(env):
    """a graph comes back from a file with its nodes and edges"""
    H = env.mod("popsynth.utils.hdf5_utils")
    nx = env.mod("popsynth.population").nx
    g = nx.DiGraph()
    nodes = ["a", "b", "c", "d"]
    for k in nodes[:env.choice("nodes", [0, 1, 4])]:
        g.add_node(k)
    if len(g.nodes()) == 4:
        for e in env.choice("edges", [[], [("a", "b")], [("a", "b"), ("b", "c"), ("a", "c")],
                                      [("d", "a"), ("a", "d"), ("b", "a"), ("c", "a")]]):
            g.add_edge(*e)
    name = env.tmpfile("g.h5")
    with H.h5py.File(name, "w") as f:
        H.recursively_save_dict_contents_to_group(f, "graph", H.fill_graph_dict(nx.to_dict_of_dicts(g)))
    with H.h5py.File(name, "r") as f:
        d = H.clean_graph_dict(H.recursively_load_dict_contents_from_group(f, "graph"))
    h = nx.from_dict_of_dicts(d, create_using=nx.DiGraph)
    env.check("nodes", sorted(h.nodes()) == sorted(g.nodes()))
    env.check("edges", sorted(h.edges()) == sorted(g.edges()))
