"""the list of contracts (harnesses) of each property"""
HARNESSES = {}


class Harness:
    def __init__(self, prop, fn, kw):
        self.prop, self.fn = prop, fn
        self.name = fn.__name__
        self.sym = kw.pop("sym", True)          # checked by the deductive verifier
        self.conc = kw.pop("conc", True)        # run on the real code too
        self.runs = kw.pop("runs", 14)          # concrete executions (quick tier)
        self.thorough = kw.pop("thorough", 12)  # factor for the thorough tier
        self.seconds = kw.pop("seconds", 240)   # limit of the symbolic exploration
        self.bounded = kw.pop("bounded", None)  # note on a bound of the argument
        self.heavy = kw.pop("heavy", False)     # concrete executions take long: a process of its own
        self.functions = kw.pop("functions", "")
        self.ensures = (fn.__doc__ or "").strip()
        if kw:
            raise TypeError("unknown option %s" % sorted(kw))


def harness(prop, **kw):
    def deco(fn):
        h = Harness(prop, fn, kw)
        lst = HARNESSES.setdefault(prop, [])
        if any(x.name == h.name for x in lst):
            raise ValueError("two contracts called %s" % h.name)
        lst.append(h)
        return fn
    return deco


def load(prop):
    import importlib
    import os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            # one file may hold the contracts of several properties
            with open(os.path.join(d, f)) as fh:
                if '"%s"' % prop in fh.read():
                    importlib.import_module("contracts." + f[:-3])
    return HARNESSES.get(prop, [])
