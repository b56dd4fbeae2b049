"""loads the real sources of /repo, rewritten so that symbolic values can flow
through loops, builtin functions and string formatting."""
import ast
import builtins
import dataclasses
import importlib.util
import os
import sys
import types

REPO = os.environ.get("POPVER_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"

CALLS = {"len", "range", "sum", "max", "min", "isinstance", "float", "int", "bool", "enumerate", "zip", "any", "all",
         "sorted", "list", "tuple", "set", "round", "reversed", "open", "str", "abs", "map", "filter", "dict", "print",
         "iter", "next", "frozenset", "pow", "divmod", "super"} - {"super", "iter", "next", "frozenset"}
MUT = {"update", "add", "setdefault", "pop", "extend", "insert", "remove", "clear", "discard", "popitem"}


def _assigned(stmts):
    """names bound by statements (not inside nested functions)"""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out and not n.id.startswith("__pv"):
                out.append(n.id)

        def visit_FunctionDef(self, n):
            if n.name not in out:
                out.append(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            if n.name not in out:
                out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import
    v = V()
    for s in stmts:
        v.visit(s)
    return out


def _has(stmts, kinds, stop_loops=False):
    """does any statement contain a node of the kinds, outside nested functions"""
    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if stop_loops and isinstance(n, (ast.For, ast.While)):
            st.extend(n.orelse)
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def _copy(x):
    import copy
    return copy.deepcopy(x)


def _name(i, store=False):
    return ast.Name(id=i, ctx=ast.Store() if store else ast.Load())


def _call(f, *args):
    return ast.Call(func=_name(f) if isinstance(f, str) else f, args=list(args), keywords=[])


def _attr(o, a):
    return ast.Attribute(value=o, attr=a, ctx=ast.Load())


class _Break(ast.NodeTransformer):
    """break/continue of the loop itself -> flag assignments (inside a one-shot loop)"""

    def __init__(self, flag):
        self.flag = flag
        self.used = False

    def visit_Break(self, n):
        self.used = True
        return [ast.Assign(targets=[_name(self.flag, True)], value=ast.Constant(value=True)), ast.Break()]

    def visit_For(self, n):
        n.orelse = [y for x in n.orelse for y in _aslist(self.visit(x))]
        return n

    visit_While = visit_For

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef


def _aslist(x):
    return x if isinstance(x, list) else [x]


class Xform(ast.NodeTransformer):
    def __init__(self, fname, shadow):
        self.fname = os.path.basename(fname)
        self.shadow = shadow
        self.depth = 0
        self.k = 0
        self.cls = []

    # functions
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs:
            a.annotation = None
        self.depth += 1
        body = []
        for s in n.body:
            body.extend(_aslist(self.visit(s)))
        self.depth -= 1
        n.body = body
        doc = (isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)) if n.body else False
        ent = ast.Expr(_call("pv__enter", ast.Constant(value="%s:%s" % (self.fname, ".".join(self.cls + [n.name])))))
        n.body = (n.body[:1] + [ent] + n.body[1:]) if doc else [ent] + n.body
        return n

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        d, self.depth = self.depth, 0
        self.generic_visit(n)
        self.depth = d
        self.cls.pop()
        return n

    def visit_Lambda(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_AnnAssign(self, n):
        if self.depth and n.value is not None and n.simple == 0 or (self.depth and n.value is not None):
            a = ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)
            return self.visit(a)
        if self.depth and n.value is None:
            return ast.copy_location(ast.Pass(), n)
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    # builtins
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS and n.func.id not in self.shadow:
            n.func = ast.copy_location(_name("pv__" + n.func.id), n.func)
        elif isinstance(n.func, ast.Attribute) and n.func.attr in MUT and self.depth:
            n.func = ast.copy_location(_call("pv__mut", n.func.value, ast.Constant(value=n.func.attr)), n.func)
        elif isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "join") and isinstance(n.func.value, ast.Constant):
            pass
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if self.depth and isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call("pv__newlist", n), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(_call("pv__mod", n.left, n.right), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = _call("pv__in", n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, n)
        return n

    def _comp(self, n, kind):
        self.generic_visit(n)
        if not self.depth or len(n.generators) != 1:
            return n
        g = n.generators[0]
        if not isinstance(g.target, (ast.Name, ast.Tuple)) or g.is_async:
            return n
        if isinstance(g.target, ast.Name):
            args = [g.target.id]
        elif all(isinstance(e, ast.Name) for e in g.target.elts):
            args = [e.id for e in g.target.elts]
        else:
            return n
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n)):
            return n
        # only the symbolic case uses the helper
        it = "pv__it%d" % self.k
        self.k += 1

        def lam(e):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[],
                                                 kw_defaults=[], defaults=[]), body=e)
        cond = ast.BoolOp(op=ast.And(), values=[_copy(x) for x in g.ifs]) if len(g.ifs) > 1 else (
            _copy(g.ifs[0]) if g.ifs else None)
        src = g.iter
        g.iter = _name(it)
        sym = _call("pv__comp", _name(it), lam(_copy(n.elt)), lam(cond) if cond is not None else ast.Constant(value=None),
                    ast.Constant(value=len(args) if isinstance(g.target, ast.Tuple) else 0))
        if kind == "list":
            native = _call("pv__newlist", n)
        else:
            native = n
        e = ast.IfExp(test=_call("pv__symiter", ast.NamedExpr(target=_name(it, True), value=src)), body=sym, orelse=native)
        return ast.copy_location(e, n)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    # statements
    def visit_Assert(self, n):
        self.generic_visit(n)
        if self.depth and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) and not (
                isinstance(x, ast.NamedExpr) and x.target.id.startswith("pv__it")) for x in ast.walk(n.test)):
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.test)
            n.test = ast.copy_location(_call("pv__claim", lam), n.test)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = _name("Exception")
        return n

    def _targets(self, targets, n):
        post = []
        for t in targets:
            if isinstance(t, ast.Attribute):
                pass
        return post

    def visit_Assign(self, n):
        self.generic_visit(n)
        if not self.depth:
            return n
        out = []
        if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) and len(n.targets) == 1:
            t = n.targets[0]
            if isinstance(t, ast.Attribute):
                f = _call("pv__setattr", t.value, ast.Constant(value=self._mangle(t.attr)), n.value)
            elif isinstance(t.slice, ast.Slice):
                return n
            else:
                f = _call("pv__setitem", t.value, t.slice, n.value)
            return ast.copy_location(ast.Expr(f), n)
        return n

    def _mangle(self, a):
        if a.startswith("__") and not a.endswith("__") and self.cls:
            return "_%s%s" % (self.cls[-1].lstrip("_"), a)
        return a

    def visit_For(self, n):
        kid = "%s:%d:%d" % (self.fname, self.k, self.depth)
        me = self.k
        self.k += 1
        raw_body = n.body
        simple = not _has(n.body, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await)) and not n.orelse and self.depth
        names = _assigned([ast.Assign(targets=[_copy(n.target)], value=ast.Constant(value=None))] + n.body)
        has_break = _has(n.body, (ast.Break,), True)
        if _has(n.body, (ast.Nonlocal, ast.Global)):
            simple = False
        n.iter = self.visit(n.iter)
        n.target = self.visit(n.target)
        body = []
        for s in raw_body:
            body.extend(_aslist(self.visit(s)))
        n.body = body
        orelse = []
        for s in n.orelse:
            orelse.extend(_aslist(self.visit(s)))
        n.orelse = orelse
        if not self.depth:
            return n
        it, lp, ex = "pv__i%d" % me, "pv__l%d" % me, "pv__e%d" % me
        first = ast.Assign(targets=[_name(it, True)], value=_call("pv__iter", n.iter))
        n.iter = _name(it)
        if not simple or has_break:
            chk = ast.If(test=_call("pv__symiter", _name(it)),
                         body=[ast.Expr(_call("pv__unsupported", ast.Constant(value="loop form")))], orelse=[])
            return [ast.copy_location(x, n) for x in (first, chk)] + [n]
        tup = ast.Tuple(elts=[_name(x, True) for x in names], ctx=ast.Store())
        loc = _call("locals")
        gbody = [ast.Assign(targets=[_copy(tup)], value=_call(_attr(_name(lp), "start"), _copy(loc))),
                 ast.Try(body=[ast.For(target=_copy(n.target), iter=ast.List(elts=[_call(_attr(_name(lp), "item"))], ctx=ast.Load()),
                                       body=[_copy(s) for s in n.body], orelse=[])],
                         handlers=[ast.ExceptHandler(type=_name("Exception"), name=ex,
                                                     body=[ast.Expr(_call(_attr(_name(lp), "end"), _copy(loc), _name(ex)))])],
                         orelse=[], finalbody=[]),
                 ast.Expr(_call(_attr(_name(lp), "end"), _copy(loc)))]
        abody = [ast.Assign(targets=[_copy(tup)], value=_call(_attr(_name(lp), "apply"), _copy(loc)))]
        sym = [ast.Assign(targets=[_name(lp, True)], value=_call("pv__forloop", ast.Constant(value=kid), _name(it),
                                                                 ast.Constant(value=tuple(names)))),
               ast.If(test=_attr(_name(lp), "generic"), body=gbody, orelse=abody)]
        return [ast.copy_location(first, n),
                ast.copy_location(ast.If(test=_call("pv__symiter", _name(it)), body=sym, orelse=[n]), n)]

    def visit_While(self, n):
        kid = "%s:w%d" % (self.fname, self.k)
        me = self.k
        self.k += 1
        names = _assigned(n.body)
        simple = not _has(n.body, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await)) and not n.orelse and self.depth
        self.generic_visit(n)
        if not simple:
            return n
        w, br = "pv__w%d" % me, "pv__b%d" % me
        loc = _call("locals")
        tup = ast.Tuple(elts=[_name(x, True) for x in names], ctx=ast.Store())
        # native
        nat_body = [ast.Expr(_call(_attr(_name(w), "enter")))]
        bt = _Break(br)
        inner = ast.For(target=_name("pv__once", True), iter=ast.Constant(value=(0,)),
                        body=[y for s in _copy(n.body) for y in _aslist(bt.visit(s))], orelse=[])
        nat = ast.While(test=_copy(n.test), body=nat_body + [ast.Assign(targets=[_name(br, True)], value=ast.Constant(value=False)),
                                                            inner, ast.Expr(_call(_attr(_name(w), "native_end"))),
                                                            ast.If(test=_name(br), body=[ast.Break()], orelse=[])], orelse=[])
        bt2 = _Break(br)
        sbody = [ast.If(test=_copy(n.test), body=(
            ([ast.Assign(targets=[_copy(tup)], value=_call(_attr(_name(w), "sym_start"), _copy(loc)))] if names else
             [ast.Expr(_call(_attr(_name(w), "sym_start"), _copy(loc)))]) +
            [ast.Assign(targets=[_name(br, True)], value=ast.Constant(value=False)),
             ast.For(target=_name("pv__once", True), iter=ast.Constant(value=(0,)),
                     body=[y for s in _copy(n.body) for y in _aslist(bt2.visit(s))], orelse=[]),
             ast.If(test=ast.UnaryOp(op=ast.Not(), operand=_name(br)),
                    body=[ast.If(test=_copy(n.test), body=[ast.Expr(_call(_attr(_name(w), "continuing"), _copy(loc)))], orelse=[])],
                    orelse=[]),
             ast.Expr(_call(_attr(_name(w), "leave")))]), orelse=[])]
        return [ast.copy_location(ast.Assign(targets=[_name(w, True)],
                                             value=_call("pv__while", ast.Constant(value=kid), ast.Constant(value=tuple(names)))), n),
                ast.copy_location(ast.If(test=_attr(_name(w), "sym"), body=sbody, orelse=[nat]), n)]


_code = {}


def compiled(path, modname):
    key = path
    if key in _code:
        return _code[key]
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src, path)
    shadow = set()
    for nd in ast.walk(tree):
        if isinstance(nd, ast.Name) and isinstance(nd.ctx, ast.Store):
            shadow.add(nd.id)
        elif isinstance(nd, ast.arg):
            shadow.add(nd.arg)
        elif isinstance(nd, (ast.FunctionDef, ast.ClassDef)) and nd.name in CALLS:
            # methods do not shadow
            pass
    for nd in tree.body:
        if isinstance(nd, (ast.FunctionDef, ast.ClassDef)):
            shadow.add(nd.name)
    tree = Xform(path, shadow & CALLS).visit(tree)
    ast.fix_missing_locations(tree)
    code = compile(tree, path, "exec")
    _code[key] = code
    return code


_real_files = {}


def real_module(name):
    """third-party pure python modules of the project's environment"""
    if name in _real_files:
        return _real_files[name]
    if "pkg_resources" not in sys.modules:
        pr = types.ModuleType("pkg_resources")
        pr.iter_entry_points = lambda *a, **k: iter(())
        sys.modules["pkg_resources"] = pr
    path = os.path.join(SITE, *name.split("."))
    init = os.path.join(path, "__init__.py")
    f = init if os.path.exists(init) else path + ".py"
    spec = importlib.util.spec_from_file_location(name, f, submodule_search_locations=[path] if f == init else None)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    _real_files[name] = m
    return m


STD = {"abc", "typing", "dataclasses", "sys", "pathlib", "re", "os", "errno", "collections", "contextlib", "subprocess",
       "copy", "math", "functools", "itertools", "operator", "enum", "inspect", "warnings", "time", "string",
       "numbers", "types", "json", "textwrap", "collections.abc", "datetime", "random", "__future__", "io"}


class World:
    """one fresh import of the package"""

    def __init__(self, shims, builtins_extra):
        self.mods = {}
        self.shims = shims
        self.bx = builtins_extra
        self.functions = set()

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        if name.split(".")[0] == "popsynth":
            return self._load(name)
        if name in self.shims:
            return self.shims[name]
        from .core import Unsupported
        if name in ("class_registry", "dotmap"):
            return real_module(name)
        if name in STD or name == "networkx":
            __import__(name)
            return sys.modules[name]
        raise Unsupported("module %s" % name)

    def _load(self, name):
        parts = name.split(".")
        base = os.path.join(REPO, *parts)
        init = os.path.join(base, "__init__.py")
        pkg = os.path.exists(init)
        f = init if pkg else base + ".py"
        if not os.path.exists(f):
            raise ModuleNotFoundError("No module named %r" % name)
        if len(parts) > 1:
            self.get(".".join(parts[:-1]))
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = f
        if pkg:
            m.__path__ = [base]
        m.__package__ = name if pkg else ".".join(parts[:-1])
        self.mods[name] = m
        b = dict(vars(builtins))
        b.update(self.bx)
        b["__import__"] = self._import
        m.__dict__["__builtins__"] = b
        if name == "popsynth._version":
            m.get_versions = lambda: {"version": "0"}
        else:
            exec(compiled(f, name), m.__dict__)
        if len(parts) > 1:
            setattr(self.get(".".join(parts[:-1])), parts[-1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            if level > 1:
                pkg = pkg[: -(level - 1)]
            name = ".".join(pkg + ([name] if name else []))
        m = self.get(name)
        if fromlist:
            for x in fromlist:
                if x != "*" and not hasattr(m, x):
                    if (name + "." + x) in self.shims:
                        setattr(m, x, self.shims[name + "." + x])
                    elif name.split(".")[0] == "popsynth":
                        self.get(name + "." + x)
            return m
        top = name.split(".")[0]
        if top != name:
            t = self.get(top)
            cur = t
            for i, p in enumerate(name.split(".")[1:], 2):
                sub = self.get(".".join(name.split(".")[:i]))
                if not hasattr(cur, p):
                    setattr(cur, p, sub)
                cur = sub
            return t
        return m
