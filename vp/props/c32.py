"""C32 Log destinations, levels, formats and the timing decorators against a model of what each destination must contain"""
import datetime
import functools
import inspect
import io
import logging
import os
import re
import shutil
import sys
import tempfile
import time
from unittest import mock

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import require

from scaled.utility.logging.decorators import log_function
from scaled.utility.logging.scoped_logger import ScopedLogger
from scaled.utility.logging.scoped_logger import TimedLogger
from scaled.utility.logging.utility import setup_logger

TECHNIQUE = "model-based testing (Hypothesis histories of log set-ups and log calls) against a model of each destination's content; metamorphic test of the decorators"
LEVEL_NOTE = "Exploration of generated histories of set-ups and log calls and of decorated calls under a controlled clock; trusts the model of the content of each destination."
ASSUMPTIONS = ["the Python logging package is trusted", "durations below ten days", "one set-up names a file by one spelling only"]

NAMES = {10: "DEBG", 20: "INFO", 30: "WARN", 40: "EROR", 50: "CTIC"}
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50, "NOTSET": 0}
STAMP = r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d[+-]\d{4})"
TEXT = st.one_of(st.sampled_from(["plain", "100% %s {x} {", "a\nb", "", "[INFO]2023-01-01 00:00:00+0000: x", "ü€𝄞", " lead", "trail "]),
                 st.text(st.characters(exclude_categories=["Cs"]), max_size=20))

FILES = ["abs:a.log", "abs:b c.log", "home:h.log", "home:h2", "var:v.log", "curly:w.log", "rel:r.log", "undef:$NO_SUCH_VARIABLE.log", "abs:ü.log"]
SCREEN = ["-", "/dev/stdout"]


def dests():
    return st.lists(st.one_of(st.sampled_from(SCREEN), st.sampled_from(FILES), st.sampled_from(FILES)), min_size=1, max_size=5)


def setup_plans():
    setup = st.fixed_dictionaries({"op": st.just("setup"), "to": dests(), "level": st.sampled_from([None, "INFO", *LEVELS]), "kw": st.booleans()})
    bad = st.fixed_dictionaries({"op": st.just("bad"), "to": dests(), "at": st.integers(0, 5)})
    log = st.fixed_dictionaries({"op": st.just("log"), "level": st.sampled_from([10, 15, 20, 25, 30, 35, 40, 50, 50, 60]), "text": TEXT,
                                 "args": st.booleans(), "logger": st.sampled_from(["", "", "early", "early.child", "late"]), "exc": st.sampled_from([False, False, True])})
    return st.fixed_dictionaries({
        "ops": st.lists(st.one_of(log, log, log, setup, bad), min_size=1, max_size=14), "first": dests(), "level": st.sampled_from([None, None, *LEVELS]),
        "old": st.lists(st.tuples(st.sampled_from(FILES), st.integers(0, 3)), max_size=2)})


class isolated:
    """the logging configuration of this process, put back afterwards; a scratch directory with a home of its own"""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-c32-")
        root = logging.getLogger()
        self.root = root
        self.saved = (root.level, root.handlers[:], root.disabled, logging.root.manager.disable, sys.stdout, os.environ.copy(), os.getcwd(), logging.raiseExceptions)
        self.names = (dict(logging._levelToName), dict(logging._nameToLevel))
        root.handlers[:] = []
        logging.disable(logging.NOTSET)
        for d in ("home", "var", "abs", "cwd"):
            os.mkdir(os.path.join(self.dir, d))
        os.environ["HOME"] = os.path.join(self.dir, "home")
        os.environ["VP_LOGS"] = os.path.join(self.dir, "var")
        os.environ.pop("NO_SUCH_VARIABLE", None)
        os.chdir(os.path.join(self.dir, "cwd"))
        return self

    def __exit__(self, *exc):
        for h in self.root.handlers[:]:
            h.close()
        level, handlers, disabled, off, out, env, cwd, raising = self.saved
        self.root.handlers[:] = handlers
        self.root.setLevel(level)
        self.root.disabled = disabled
        logging.disable(off)
        logging.raiseExceptions = raising
        logging._levelToName.clear()
        logging._levelToName.update(self.names[0])
        logging._nameToLevel.clear()
        logging._nameToLevel.update(self.names[1])
        sys.stdout = out
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(self.dir)

    def spell(self, name):
        """what is passed, where it must end up"""
        if name in SCREEN:
            return name, None
        kind, file = name.split(":", 1)
        if kind == "home":
            return f"~/{file}", os.path.join(self.dir, "home", file)
        if kind == "var":
            return f"$VP_LOGS/{file}", os.path.join(self.dir, "var", file)
        if kind == "curly":
            return "${VP_LOGS}/" + file, os.path.join(self.dir, "var", file)
        if kind == "rel":
            return file, os.path.join(self.dir, "cwd", file)
        path = os.path.join(self.dir, "abs", file)
        return path, path


def emit(logger, level, text, args, exc):
    if exc:
        try:
            raise ValueError("went wrong")
        except ValueError:
            logger.log(level, "%s" if args else text, *([text] if args else []), exc_info=True)
    elif args:
        logger.log(level, "%s", text)
    else:
        logger.log(level, text)


EMIT = (emit.__code__.co_firstlineno, emit.__code__.co_firstlineno + 12)


def record(level, text, exc, verbose):
    tail = r"\nTraceback \(most recent call last\):\n(?:  .*\n)+ValueError: went wrong" if exc else ""
    where = r":c32:emit:(\d+)" if verbose else "()"
    return r"\[" + re.escape(NAMES.get(level, f"Level {level}")) + r"\]" + STAMP + where + ": " + re.escape(text) + tail + r"\n"


def setup_execute(plan):
    labels = set()
    n = 0
    with isolated() as iso:
        before = {}
        for name, days in plan["old"]:
            path = iso.spell(name)[1]
            with open(path, "w") as f:
                f.write(f"old {name}\n")
            before[path] = f"old {name}\n"
            t = time.time() - days * 86400
            os.utime(path, (t, t))
        model, owner = {}, None  # destination -> [(level, text, exc)]; current: (threshold, destinations)
        screens = []
        early = [logging.getLogger("vp32"), logging.getLogger("vp32.early"), logging.getLogger("vp32.early.child")]
        begin = time.time()

        def setup(to, level, kw):
            nonlocal owner
            out = io.StringIO()
            screens.append(out)
            sys.stdout = out
            try:
                pairs, keys = [], set()
                for name in to:
                    pairs.append(iso.spell(name))
                    keys.add(pairs[-1][1] or len(screens) - 1)
                names = tuple(p[0] for p in pairs)
                if level is None:
                    setup_logger(names) if not kw else setup_logger(file_names=names)
                else:
                    setup_logger(names, level) if not kw else setup_logger(logging_level=level, file_names=names)
            finally:
                sys.stdout = iso.saved[4]
            owner = (LEVELS[level or "INFO"], keys)
            for k in keys:
                model.setdefault(k, []).append((20, f"logging to {names}", False, True) if 20 >= max(owner[0], 10) else None)

        setup(plan["first"], plan["level"], False)
        for op in plan["ops"]:
            if op["op"] == "setup":
                setup(op["to"], op["level"], op["kw"])
                labels.add("again")
            elif op["op"] == "bad":
                names = [iso.spell(x)[0] for x in op["to"]]
                names.insert(op["at"] % (len(names) + 1), "tcp://127.0.0.1:6345")
                try:
                    setup_logger(tuple(names))
                except Exception:
                    labels.add("refused")
                else:
                    require(False, f"logging to {names} is accepted although nothing is ever sent to such an address", "network")
            else:
                logger = {"": logging.getLogger(), "early": early[1], "early.child": early[2], "late": logging.getLogger("vp32.late")}[op["logger"]]
                emit(logger, op["level"], op["text"], op["args"], op["exc"])
                if op["level"] >= max(owner[0], 10):
                    n += 1
                    for k in owner[1]:
                        model[k].append((op["level"], op["text"], op["exc"], False))
                else:
                    labels.add("below")
        sys.stdout = iso.saved[4]
        end = time.time()
        for path in {iso.spell(x)[1] for x in FILES} | set(range(len(screens))):
            screen = isinstance(path, int)
            if screen:
                content = screens[path].getvalue()
            else:
                d, base = os.path.split(path)
                parts = sorted((x for x in os.listdir(d) if x == base or re.fullmatch(re.escape(base) + r"\.\d{4}-\d\d-\d\d", x)), key=lambda x: (x == base, x))
                content = ""
                for x in parts:
                    with open(os.path.join(d, x), newline="", encoding="utf8") as f:
                        content += f.read()
            where = f"the screen of set-up {path}" if screen else os.path.relpath(path, iso.dir)
            old = before.get(path, "")
            require(content.startswith(old), f"{where} held {old!r} before and now {content!r}", "kept")
            pos = len(old)
            for r in model.get(path, []):
                if r is None:
                    continue
                level, text, exc, own = r
                if own:  # the line that says where is logged to: wherever in the code it is
                    m = re.compile(r"\[INFO\]" + STAMP + r"(?::[^:\n]*:[^:\n]*:(\d+))?: " + re.escape(text) + r"\n").match(content, pos)
                else:
                    m = re.compile(record(level, text, exc, not screen)).match(content, pos)
                require(m is not None, f"{where} (set-ups {plan['first']}, {plan['level']}, ...) has {content[pos:pos + 200]!r} where level {level} text {text!r} is expected", "line")
                t = datetime.datetime.strptime(m.group(1), "%Y-%m-%d %H:%M:%S%z").timestamp()
                require(int(begin) - 1 <= t <= end + 1, f"{where}: a line logged at {begin:.0f} is dated {m.group(1)}", "date")
                if not screen and not own:
                    require(EMIT[0] <= int(m.group(2)) <= EMIT[1], f"{where}: logged from line {m.group(2)}, not in {EMIT}", "place")
                pos = m.end()
            require(pos == len(content), f"{where} has {content[pos:pos + 200]!r} beyond what was logged", "extra")
        strays = [os.path.join(d, f) for d, _, fs in os.walk(iso.dir) for f in fs
                  if not any(os.path.join(d, f) == p or os.path.join(d, f).startswith(p + ".") for p in (iso.spell(x)[1] for x in FILES) if p)]
        require(not strays, f"unexpected files {strays}", "stray")
    return Case(n >= 1, sorted(labels) + [f"dests={min(3, len(set(plan['first'])))}"])


# -- decorators and timers -------------------------------------------------------------------------------------------------------

def call_plans():
    ns = st.one_of(st.integers(0, 10 ** 7), st.integers(0, 9 * 86400 * 10 ** 9), st.builds(lambda s, f: s * 10 ** 9 + f, st.integers(0, 100000), st.sampled_from([0, 1, 999, 1000, 1001, 999_999, 10 ** 6, 999_999_999, 999_999_000])))
    return st.fixed_dictionaries({
        "start": st.integers(0, 10 ** 12), "ns": ns, "level": st.sampled_from([None, 10, 20, 30, 40, 50]), "shown": st.sampled_from([10, 10, 20, 40]),
        "args": st.lists(st.integers(-3, 3), max_size=3), "kwargs": st.dictionaries(st.sampled_from(["a", "b", "func", "self", "level_number"]), st.integers(0, 3), max_size=2),
        "how": st.sampled_from(["decorated", "decorated", "method", "caller", "scoped", "timed", "nested"]),
        "fail": st.sampled_from([None, None, "value", "system", "stop"]), "text": TEXT, "twice": st.booleans()})


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, r):
        self.lines.append((r.levelno, r.getMessage()))


ERRORS = {"value": ValueError("v"), "system": SystemExit(3), "stop": StopIteration(4)}


def call_execute(plan):
    labels = [plan["how"]] + (["fails"] if plan["fail"] else []) + (["long"] if plan["ns"] >= 10 ** 9 else [])
    args, kwargs, error = tuple(plan["args"]), dict(plan["kwargs"]), ERRORS.get(plan["fail"])
    now = [plan["start"]]
    level = plan["level"] or logging.INFO
    lkw = {} if plan["level"] is None else {"logging_level": plan["level"]}
    ran, got, site = [], [], []

    def body(*a, **k):
        ran.append((a, k))
        now[0] += plan["ns"]
        if error is not None:
            raise error
        return (a, k, "result")

    def body_with_doc(*a, **k):
        """what it does"""
        return body(*a, **k)

    def attempt(f):
        try:
            got.append(("value", f()))
        except BaseException as e:
            got.append(("exc", e))

    cap = Capture()
    with isolated() as iso, mock.patch.object(time, "perf_counter_ns", lambda: now[0]), mock.patch.object(time, "perf_counter", lambda: now[0] / 1e9):
        iso.root.addHandler(cap)
        iso.root.setLevel(plan["shown"])
        cap.setLevel(plan["shown"])
        times = 2 if plan["twice"] else 1
        text = plan["text"]
        label = None
        if plan["how"] in ("decorated", "method", "caller"):
            deco = log_function(3, **lkw) if plan["how"] == "caller" else log_function(**lkw)
            f = deco(body_with_doc)
            require(f.__name__ == "body_with_doc" and f.__doc__ == "what it does" and inspect.unwrap(f) is body_with_doc, f"decorated function is called {f.__name__}", "name")
            if plan["how"] == "method":
                cls = type("T", (), {"m": f})
                obj = cls()
                kwargs.pop("self", None)

            def run():
                line = inspect.currentframe().f_lineno + 1
                r = obj.m(*args, **kwargs) if plan["how"] == "method" else f(*args, **kwargs)
                site.append(line)
                return r

            def outer():
                line = inspect.currentframe().f_lineno + 1
                r = run()
                site.append(line)
                return r

            for _ in range(times):
                attempt(outer)
            first = (run if plan["how"] != "caller" else outer).__code__.co_firstlineno
            label = f"execute body_with_doc at {__file__}:{first + 2}"
            want_args = ((obj, *args), kwargs) if plan["how"] == "method" else (args, kwargs)
            log = [label] * times
        elif plan["how"] == "scoped":
            def run():
                with ScopedLogger(text, **lkw):
                    return body(*args, **kwargs)

            for _ in range(times):
                attempt(run)
            want_args, log = (args, kwargs), [text] * times
        elif plan["how"] == "timed":
            timer = TimedLogger(text, **lkw)
            for _ in range(times):
                timer.begin()
                attempt(lambda: body(*args, **kwargs))
                timer.end()
            want_args, log = (args, kwargs), [text] * times
        else:
            def run():
                with ScopedLogger("outer", **lkw):
                    now[0] += 1_000_000
                    with ScopedLogger(text, **lkw):
                        return body(*args, **kwargs)

            for _ in range(times):
                attempt(run)
            want_args, log = (args, kwargs), []

        want = ("exc", error) if error is not None else ("value", (*want_args, "result"))
        for g in got:
            same = g[0] == want[0] and (g[1] is error if error is not None else g[1] == want[1])
            require(same, f"{plan['how']}: gives {g} instead of {want}", "result")
        require(len(ran) == times and all(r == want_args for r in ran), f"{plan['how']}: ran {ran}, expected {times} times {want_args}", "ran")
        span = datetime.timedelta(microseconds=plan["ns"] // 1000)
        lines = []
        if plan["how"] == "nested":
            wide = datetime.timedelta(microseconds=(plan["ns"] + 1_000_000) // 1000)
            lines = ["beginning outer", f"beginning {text}", f"completed {text} in {span}", f"completed outer in {wide}"] * times
        else:
            for x in log:
                lines += [f"beginning {x}", f"completed {x} in {span}"]
        expect = [(level, x) for x in lines] if level >= plan["shown"] else []
        require(cap.lines == expect, f"{plan['how']} for {plan['ns']} ns logs {cap.lines}, expected {expect}", "lines")
    return Case(bool(expect), labels)


CHECKS = [
    Check("setup", setup_plans, setup_execute, 1500, 60000, "1-15 set-ups and log calls over screen and 9 kinds of files; non-trivial: at least one call is above the level"),
    Check("timing", call_plans, call_execute, 2500, 100000, "decorated calls, scopes and timers under a controlled clock; non-trivial: lines are logged"),
]
