"""C22 Verbosity controls do what they say and can be undone

Ghost state: the levels of the console and user file handlers, the levels they had before the last change of mode
(silencing what is silenced already counts as no change), whether the last change of mode was silencing, whether
warnings are removed, and whether progress is displayed.  `step` shows that the state after any operation is one of
these again (so that it holds after any history), and what each operation and the one after it do.
"""
import types

from popver.registry import harness
from contracts.c04_survey import coherent, selected
from contracts.c13_distances import distances
from contracts.c25_random_selections import with_probability

OPS = ["silence_logs", "activate_logs", "loud_mode", "debug_mode", "quiet_mode", "update_logging_level",
       "silence_warnings", "activate_warnings", "show_progress_bars", "silence_progress_bars", "silence_console_log",
       "silence_console_log with an error"]
CRIT, ERR, WARN, INFO, DEBUG = 50, 40, 30, 20, 10
LEVELS = {"CRITICAL": 50, "ERROR": 40, "WARNING": 30, "INFO": 20, "DEBUG": 10}
SOME = [10, 20, 30, 40, 50, 25, 45, 5, 0]


class State:
    """the module in an arbitrary state"""

    def __init__(self, env, simple=False, fixed=False):
        self.env, self.fixed = env, fixed
        self.L = L = env.mod("popsynth.utils.logging")
        self.conf = env.mod("popsynth.utils.configuration").popsynth_config
        env.logging()
        self.logs = [env.mod("popsynth.population").log, L.setup_logger("popsynth.new")]
        self.H = {"usr": L.popsynth_usr_log_handler, "console": L.popsynth_console_log_handler,
                  "dev": L.popsynth_dev_log_handler}
        self.out = {}
        for k, h in self.H.items():
            env.stub(h, "level", h.level)
            self.out[k] = []
            env.stub(h, "emit", lambda r, k=k: self.out[k].append(r.levelno))
        L.activate_logs()
        L.activate_warnings()
        self.saved = [self.level("usr before"), self.level("console before")]
        self.now = [self.level("usr"), self.level("console")]
        self.silenced = env.choice("last change was silencing", [True, False])
        self.warnings = env.choice("warnings removed", [False, True]) if not simple else False
        self.progress = env.choice("progress", [True, False]) if not simple else True
        env.progress(self.progress)
        self.build()

    def level(self, name):
        return WARN if self.fixed else self.env.int(name, ge=0, le=60, lo=0, hi=60)

    def set(self, usr, console):
        self.H["usr"].setLevel(usr)
        self.H["console"].setLevel(console)

    def build(self):
        """bring the module into the state described by the ghost state"""
        L = self.L
        L.activate_logs()
        self.set(*self.saved)
        L.silence_logs() if self.silenced else L.debug_mode()
        self.set(*self.now)
        L.silence_warnings() if self.warnings else L.activate_warnings()
        self.conf.show_progress = self.progress

    def op(self, name, tag=""):
        """the operation and its meaning"""
        L, env = self.L, self.env
        if name in ("silence_logs", "quiet_mode"):
            getattr(L, name)()
            if not (self.silenced and self.now[0] == CRIT and self.now[1] == CRIT):
                self.saved = list(self.now)
            self.silenced = True
            self.now = [CRIT, CRIT]
            if name == "quiet_mode":
                self.progress = False
        elif name == "activate_logs":
            L.activate_logs()
            env.check("the development log is on again", env.eq(self.H["dev"].level, DEBUG))
            self.now = list(self.saved)
            self.silenced = False
        elif name == "loud_mode":
            L.loud_mode()
            self.saved, self.now, self.silenced, self.progress = list(self.now), [INFO, INFO], False, True
        elif name == "debug_mode":
            L.debug_mode()
            self.saved, self.silenced = list(self.now), False
            self.now = [self.now[0], DEBUG]
        elif name == "update_logging_level":
            new = env.choice("level" + tag, ["CRITICAL", "INFO", "DEBUG", None])
            if new is None:
                new = self.level("level value" + tag)
            L.update_logging_level(new)
            self.now = [self.now[0], LEVELS[new] if isinstance(new, str) else new]
        elif name == "silence_warnings":
            L.silence_warnings()
            self.warnings = True
        elif name == "activate_warnings":
            L.activate_warnings()
            self.warnings = False
        elif name == "show_progress_bars":
            L.show_progress_bars()
            self.progress = True
        elif name == "silence_progress_bars":
            L.silence_progress_bars()
            self.progress = False
        else:
            self.block("error" in name)

    def block(self, error):
        L, env = self.L, self.env

        def inside():
            with L.silence_console_log():
                env.check("within the block: user file level", env.eq(self.H["usr"].level, ERR))
                env.check("within the block: console level", env.eq(self.H["console"].level, ERR))
                if error:
                    raise KeyError("an error of the user")
        if error:
            e = env.raises(inside)
            env.check("the error gets out of the block", e == "KeyError")
        else:
            inside()

    def judge(self, label, records=True):
        env = self.env
        env.check(label + ": user file level", env.eq(self.H["usr"].level, self.now[0]))
        env.check(label + ": console level", env.eq(self.H["console"].level, self.now[1]))
        env.check(label + ": progress", (self.conf.show_progress is True) == self.progress and
                  isinstance(self.conf.show_progress, bool))
        if records:
            self.records(label)

    def records(self, label):
        """a record of any level, from a logger of the package made before or after"""
        env = self.env
        log = self.logs[env.choice("logger", [0, 1])]
        lvl = env.int("level of the record", ge=10, le=60, lo=10, hi=60)
        if not env.symbolic and env.choice("ordinary level", [True, False]):
            lvl = lvl // 10 * 10
        for o in self.out.values():
            del o[:]
        log.log(lvl, "a message")
        for k, i in (("usr", 0), ("console", 1)):
            got = len(self.out[k])
            env.check("%s: reaches the %s once at most" % (label, k), got <= 1)
            wanted = env.and_(lvl >= self.now[i], env.not_(env.and_(self.warnings, env.eq(lvl, WARN))))
            env.check("%s: a record reaches the %s if its level says so" % (label, k), env.iff(got == 1, wanted))

    def private(self):
        """what the module keeps between calls"""
        out = {}

        def walk(path, x, depth):
            if any(x is h for h in self.H.values()):
                out[path] = [k for k, h in self.H.items() if h is x]
            elif isinstance(x, (types.FunctionType, type, types.ModuleType)) or callable(x):
                pass
            elif isinstance(x, dict):
                for k, v in x.items():
                    walk("%s[%s]" % (path, k), v, depth + 1)
            elif isinstance(x, (list, tuple)):
                out[path + " length"] = len(x)
                for k, v in enumerate(x):
                    walk("%s[%s]" % (path, k), v, depth + 1)
            elif getattr(type(x), "__module__", "") == self.L.__name__ and depth < 4:
                for k, v in sorted(vars(x).items()):
                    walk("%s.%s" % (path, k), v, depth + 1)
            elif isinstance(x, (int, str, float, bool, type(None))) or self.env.is_scalar(x):
                out[path] = x
            else:
                out[path] = type(x).__name__
        for k, v in sorted(vars(self.L).items()):
            if not k.startswith("__") and not k.startswith("pv__"):
                walk(k, v, 0)
        for k, h in self.H.items():
            out[k + " filters"] = len(h.filters)
            if k != "dev":
                out[k + " level"] = h.level
        return out

    def closed(self):
        """the state is the one described by the ghost state, so that the next operation is judged by this contract"""
        env = self.env
        a = self.private()
        self.build()
        b = self.private()
        env.undecided_unless(set(a) == set(b), "state of another kind")
        for k in a:
            x, y = a[k], b[k]
            if isinstance(x, (str, list, type(None))) or isinstance(y, (str, list, type(None))):
                env.undecided_unless(type(x) is type(y) and x == y, "the state %s" % k)
            else:
                env.undecided_unless(env.eq(x, y), "the state %s" % k)


@harness("C22", runs=60)
def step(env):
    """what each operation does in any state, which is a state of the same kind afterwards"""
    S = State(env)
    S.judge("before", records=False)
    S.op(env.choice("operation", OPS))
    S.judge("after", records=False)
    S.closed()
    S.judge("same state", records=False)


@harness("C22", runs=60)
def records(env):
    """which records get through after each operation in any state"""
    S = State(env)
    S.op(env.choice("operation", OPS))
    S.judge("after")


@harness("C22", runs=200, seconds=400)
def sequences(env):
    """three operations in a row and activating the logs at the end"""
    S = State(env, simple=True)
    for k in range(3):
        S.op(env.choice("operation %d" % k, OPS[:6] + OPS[-2:-1]), str(k))
    S.judge("after three", records=False)
    S.op("activate_logs")
    S.judge("activated", records=False)


@harness("C22", runs=30)
def warnings_apart(env):
    """warnings are removed and restored, however often, whatever happens to the levels between"""
    S = State(env)
    S.op(env.choice("first", OPS[6:8]))
    S.op(env.choice("second", OPS[6:8]))
    S.op(env.choice("third", ["activate_logs", "loud_mode", "quiet_mode", "debug_mode"]))
    S.judge("after three")


@harness("C22", runs=20)
def nested_blocks(env):
    """nested silenced blocks and changes of the levels within them"""
    S = State(env, simple=True)
    L = S.L
    inner = env.choice("inside", ["block", "level", "error in the inner one"])
    was = list(S.now)

    def inside():
        with L.silence_console_log():
            if inner == "level":
                L.update_logging_level("DEBUG")
            else:
                def more():
                    with L.silence_console_log():
                        if inner != "block":
                            raise ValueError("inner")
                    return True
                e = env.raises(more)
                env.check("error", (e is None) == (inner == "block"))
                env.check("after the inner block", env.eq(S.H["usr"].level, ERR))
                env.check("after the inner block, console", env.eq(S.H["console"].level, ERR))
    inside()
    S.now = was
    S.judge("after the blocks")


@harness("C22", runs=10)
def silence_is_total(env):
    """nothing below critical gets out of a silenced or quiet package, everything critical does"""
    S = State(env, simple=True)
    S.warnings = env.choice("warnings removed", [False, True])
    S.build()
    S.op(env.choice("operation", ["silence_logs", "quiet_mode"]))
    for log in S.logs:
        for k in S.out:
            del S.out[k][:]
        lvl = env.choice("level of " + log.name, [1, 10, 20, 25, 30, 35, 40, 49, 50, 60])
        log.log(lvl, "message")
        for k in ("usr", "console"):
            env.check("%s: critical ones only" % k, len(S.out[k]) == (1 if lvl >= 50 else 0))


# ------------------------------------------------------------- nothing that is drawn depends on it
MODES = ["quiet_mode", "loud_mode", "silence_logs", "debug_mode", "silence_progress_bars", "show_progress_bars"]


def mode(env):
    """the package in one of its modes; log records are written"""
    S = State(env, simple=True, fixed=True)
    env.progress(env.choice("progress before", [True, False]))
    getattr(S.L, env.choice("mode", MODES))()
    return S


@harness("C22", runs=18)
def distances_in_any_mode(env):
    """the law of the distances, whatever the mode"""
    mode(env)
    distances(env)


@harness("C22", runs=36)
def selections_in_any_mode(env):
    """the law of a random selection, whatever the mode"""
    env.open_unit_interval()
    mode(env)
    with_probability(env)


@harness("C22", runs=16)
def values_in_any_mode(env):
    """the values of a survey, whatever the mode"""
    mode(env)
    flux, scatter = env.choice("flux", [(False, False), (True, True)])
    coherent(env, env.choice("shape", ["one", "derived"]), flux, scatter)


@harness("C22", runs=16)
def selection_in_any_mode(env):
    """what a survey selects, whatever the mode"""
    mode(env)
    selected(env, "one")
