"""Tasks that fail in every way a task can fail.  Importable, so that they travel by reference, in simulation and for real."""
import _thread
import asyncio
import concurrent.futures
import os
import pickle
import signal
import sys
import threading
import time


def log(kind, token):
    K = sys.modules.get("vp.sim.kernel")
    if K is not None and K.cur_proc() is not None:
        k = K.cur_kernel()
        k.log.append((kind, k.now, K.cur_proc().pid, token))


class Plain(Exception):
    pass


class TwoArgs(Exception):
    """cannot be unpickled: the constructor needs two arguments"""

    def __init__(self, a, b):
        super().__init__(f"{a}:{b}")
        self.a, self.b = a, b


class KwOnly(Exception):
    def __init__(self, *, code):
        super().__init__(code)
        self.code = code


class Reduced(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)

    def __reduce__(self):
        return Reduced, self.args


class Stateful(Exception):
    def __init__(self, *args, extra=None):
        super().__init__(*args)
        self.extra = extra


class BadReduce(Exception):
    def __reduce_ex__(self, p):
        raise self.args[0]


class BadLoad(Exception):
    """unpickling runs into an exception of the given kind"""

    def __reduce_ex__(self, p):
        return _raise_kind, (self.args[0],)


class BadRepr(Exception):
    def __repr__(self):
        raise ValueError("no repr")

    __str__ = __repr__


class BadReprReduce(BadRepr):
    def __reduce_ex__(self, p):
        raise BadRepr()


class NotAnException(Exception):
    def __reduce_ex__(self, p):
        return str, ("instead of an exception",)


class Base(BaseException):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Eq(Exception):
    def __eq__(self, o):
        raise RuntimeError("not comparable")

    __hash__ = None


KINDS = {"value": ValueError, "exit": SystemExit, "base": Base, "pickling": pickle.UnpicklingError, "attr": AttributeError, "genexit": GeneratorExit,
         "cancelled": asyncio.CancelledError, "stop": StopIteration, "memory": MemoryError, "eof": EOFError, "kbd": KeyboardInterrupt}


def _raise_kind(kind):
    raise KINDS[kind]("from pickle")


def _raise_kind_remote(kind, pid):
    if os.getpid() != pid:
        raise KINDS[kind]("from pickle")
    return Bad("load", kind)


class Bad:
    """an object that cannot be pickled or unpickled"""

    def __init__(self, when, kind):
        self.when, self.kind = when, kind

    def __reduce_ex__(self, p):
        if self.when == "dump":
            raise KINDS[self.kind]("from pickle")
        return _raise_kind_remote, (self.kind, os.getpid())


def recursive(n=0):
    return recursive(n + 1) + 1


def nested(depth):
    x = []
    for _ in range(depth):
        x = [x]
    return x


def unicode_error():
    return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad")


def with_cause(e, cause):
    e.__cause__ = cause
    return e


def noted(e):
    e.add_note("a note")
    return e


def lock():
    return _thread.allocate_lock()


# name -> makes the exception
RAISES = {
    "value": lambda: ValueError("x"),
    "noargs": lambda: ValueError(),
    "many": lambda: ValueError(1, "b", None, (2, [3]), {"k": b"v"}),
    "key": lambda: KeyError(("a", 1)),
    "uni": lambda: Plain("\u4e2d\udc80"),
    "plain": lambda: Plain("p", 2),
    "two": lambda: TwoArgs(1, 2),
    "kwonly": lambda: KwOnly(code=5),
    "reduced": lambda: Reduced(1, 2),
    "stateful": lambda: Stateful("s", extra=[1]),
    "stateful-lock": lambda: Stateful("s", extra=lock()),
    "lock": lambda: Plain(lock()),
    "lambda": lambda: Plain(lambda: 1),
    "badreduce": lambda: BadReduce(ValueError("reduce")),
    "badreduce-exit": lambda: BadReduce(SystemExit(2)),
    "badreduce-base": lambda: BadReduce(Base("b")),
    "badload": lambda: BadLoad("value"),
    "badload-exit": lambda: BadLoad("exit"),
    "badload-base": lambda: BadLoad("base"),
    "badload-genexit": lambda: BadLoad("genexit"),
    "badrepr": lambda: BadRepr("r"),
    "badreprreduce": lambda: BadReprReduce(),
    "notexc": lambda: NotAnException(),
    "base": lambda: Base("b", 1),
    "sysexit": lambda: SystemExit(3),
    "sysexit0": lambda: SystemExit(),
    "genexit": lambda: GeneratorExit("g"),
    "asynccancel": lambda: asyncio.CancelledError("c"),
    "futcancel": lambda: concurrent.futures.CancelledError("c"),
    "futtimeout": lambda: concurrent.futures.TimeoutError("t"),
    "invalid": lambda: concurrent.futures.InvalidStateError("i"),
    "stop": lambda: StopIteration(5),
    "stopasync": lambda: StopAsyncIteration(5),
    "assert": lambda: AssertionError(),
    "oserror": lambda: FileNotFoundError(2, "No such file", "/x"),
    "unicode": unicode_error,
    "memory": lambda: MemoryError("m"),
    "recursionerr": lambda: RecursionError("deep"),
    "import": lambda: ImportError("no", name="n", path="p"),
    "syntax": lambda: SyntaxError("bad", ("f", 1, 2, "text")),
    "pickling": lambda: pickle.PicklingError("p"),
    "unpickling": lambda: pickle.UnpicklingError("p"),
    "zmq": lambda: __import__("zmq").ZMQError(11, "again"),
    "group": lambda: ExceptionGroup("g", [ValueError(1), KeyError(2)]),
    "cause": lambda: with_cause(ValueError("x"), KeyError("k")),
    "cause-lock": lambda: with_cause(ValueError("x"), Plain(lock())),
    "noted": lambda: noted(ValueError("x")),
    "falsy": lambda: Falsy("f"),
    "eq": lambda: Eq("e"),
    "big": lambda: Plain("x" * 300_000),
    "broken-pipe": lambda: BrokenPipeError(32, "pipe"),
    "connection": lambda: ConnectionResetError("reset"),
    "scaled": lambda: __import__("scaled.utility.exceptions", fromlist=["x"]).ScaledDisconnect("own"),
}
RETURNS = {
    "none": lambda: None,
    "exc": lambda: ValueError("returned"),
    "exc-class": lambda: KeyError,
    "lock": lock,
    "lambda": lambda: (lambda: 1),
    "gen": lambda: (i for i in ()),
    "dump": lambda: Bad("dump", "value"),
    "dump-exit": lambda: Bad("dump", "exit"),
    "dump-base": lambda: Bad("dump", "base"),
    "load": lambda: Bad("load", "value"),
    "load-exit": lambda: Bad("load", "exit"),
    "load-base": lambda: Bad("load", "base"),
    "load-genexit": lambda: Bad("load", "genexit"),
    "load-attr": lambda: Bad("load", "attr"),
    "load-stop": lambda: Bad("load", "stop"),
    "load-eof": lambda: Bad("load", "eof"),
    "load-cancelled": lambda: Bad("load", "cancelled"),
    "nested": lambda: nested(5000),
    "file": lambda: sys.stderr,
    "module": lambda: sys,
    "empty": lambda: b"",
    "huge": lambda: b"z" * 400_000,
    "self-ref": lambda: _selfref(),
    "future": lambda: concurrent.futures.Future(),
}
DIES = ["exit0", "exit1", "kill", "term", "kbd", "int"]


def _selfref():
    x = []
    x.append(x)
    return x


def ok(token, v=None):
    log("start", token)
    return ("ok", token, v)


def slow(token, d):
    log("start", token)
    time.sleep(d)
    log("end", token)
    return ("ok", token, d)


def raises(token, name):
    log("start", token)
    raise RAISES[name]()


def deep_raises(token, name):
    log("start", token)
    try:
        raise ValueError("first")
    except ValueError:
        raise RAISES[name]()


def overflow(token):
    log("start", token)
    return recursive()


def returns(token, name):
    log("start", token)
    return RETURNS[name]()


def takes(token, arg):
    log("start", token)
    return ("ok", token, str(type(arg)))


def die(how):
    if how == "exit0":
        os._exit(0)
    elif how == "exit1":
        os._exit(1)
    elif how == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    elif how == "term":
        os.kill(os.getpid(), signal.SIGTERM)
    elif how == "kbd":
        raise KeyboardInterrupt()
    elif how == "int":
        os.kill(os.getpid(), signal.SIGINT)
    elif how == "segv":
        os.kill(os.getpid(), signal.SIGSEGV)
    elif how == "abort":
        os.abort()
    time.sleep(5)


def dies(token, how, after):
    log("start", token)
    if after:
        time.sleep(after)
    die(how)


def dies_later(token, how, after):
    """the task itself succeeds"""
    log("start", token)

    def later():
        time.sleep(after)
        die(how)

    threading.Thread(target=later, daemon=True).start()
    return ("ok", token, None)


def by_value(src, name="f"):
    """a function the worker cannot import"""
    ns = {"__name__": "__main__"}
    exec(src, ns)
    return ns[name]


LOCAL_EXC = """
class Local(Exception):
    pass
def f(token):
    __import__('vp.badfns', fromlist=['x']).log('start', token)
    raise Local('l', 1)
"""
LOCAL_RESULT = """
class Local:
    pass
def f(token):
    __import__('vp.badfns', fromlist=['x']).log('start', token)
    return Local()
"""
BAD_FUNCTION = """
class F:
    def __init__(self, kind): self.kind = kind
    def __call__(self, token): return 1
    def __reduce__(self):
        import os
        from vp.badfns import _raise_kind_remote
        return _raise_kind_remote, (self.kind, os.getpid())
"""
