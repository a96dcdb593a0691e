"""Functions that checks submit as tasks; importable, so they travel by reference."""
import time

from vp.sim import kernel as K


class TaskError(Exception):
    pass


def log(kind, token):
    k = K.cur_kernel()
    k.log.append((kind, k.now, K.cur_proc().pid, token))


def _work(token, dur, out):
    log("start", token)
    if dur:
        time.sleep(dur)
    log("end", token)
    if out == "raise":
        raise TaskError(token)
    return ("r", token)


def work0(token, dur=0.0, out="ok"):
    return _work(token, dur, out)


def work1(token, dur=0.0, out="ok"):
    return _work(token, dur, out)


def work2(token, dur=0.0, out="ok"):
    return _work(token, dur, out)


def work3(token, dur=0.0, out="ok"):
    return _work(token, dur, out)


WORK = [work0, work1, work2, work3]


def node(token, dur, out, *args):
    """a graph node: constants first, then the values of the nodes it depends on"""
    log("start", token)
    if dur:
        time.sleep(dur)
    log("end", token)
    if out == "raise":
        raise TaskError(token)
    return (token, args)


def node1(token, dur, out, *args):
    return node(token, dur, out, *args)


def gnode(token, dur, out, *args):
    """a graph node whose value depends on every argument and their order"""
    import zlib

    log("start", token)
    if dur:
        time.sleep(dur)
    log("end", token)
    if out == "raise":
        raise TaskError(token)
    return gvalue(token, out, zlib.crc32(repr(args).encode()))


def gvalue(token, out, crc):
    return {"ok": (token, crc), "none": None, "list": [crc, token], "big": b"%d" % crc * 300, "zero": 0, "fn": gnode}[out]


def gnode_b(token, dur, out, *args):
    return gnode(token, dur, out, "b", *args)


def gnode_kw(token, dur, out, a=1, b=2, *rest):
    return gnode(token, dur, out, a, b, *rest)


GNODES = [gnode, gnode_b, gnode_kw]


def mapped(*args):
    """records the call and fails when asked to"""
    log("start", "map:" + repr(args))
    for a in args:
        if a == "raise":
            raise TaskError(repr(args))
        if isinstance(a, float) and 0 < a < 3:
            time.sleep(a)
    return ("m", args)


def mapped_kw(a=1, b=2, *rest):
    return mapped(a, b, *rest)


class TagSerializer:
    """a serializer of its own encodings that notices any mismatch; some values are encoded as nothing at all"""

    def __init__(self, salt, empty):
        self.salt = salt
        self.empty = empty

    def _tag(self, op):
        return b"%s<%d>" % (op, self.salt)

    def _dump(self, op, v):
        import cloudpickle

        log("ser", op.decode())
        if self.empty and v is None and op != b"F":
            return b""
        return self._tag(op) + cloudpickle.dumps(v)[::-1]

    def _load(self, op, payload):
        import cloudpickle

        log("des", op.decode())
        payload = bytes(payload)
        if self.empty and payload == b"" and op != b"F":
            return None
        t = self._tag(op)
        if not payload.startswith(t):
            log("mismatch", f"{t!r} expected, got {payload[:40]!r}")
            raise ValueError("payload of another operation")
        return cloudpickle.loads(payload[len(t):][::-1])

    def serialize_function(self, fn):
        return self._dump(b"F", fn)

    def deserialize_function(self, payload):
        return self._load(b"F", payload)

    def serialize_argument(self, arg):
        return self._dump(b"A", arg)

    def deserialize_argument(self, payload):
        return self._load(b"A", payload)

    def serialize_result(self, result):
        return self._dump(b"R", result)

    def deserialize_result(self, payload):
        return self._load(b"R", payload)


# ---- functions that look alike
def make_closure(tag):
    def task(token, dur=0.0):
        log("start", token)
        log("ran", (tag, token))
        if dur:
            time.sleep(dur)
        log("end", token)
        return (tag, token)

    return task


def make_default(tag):
    def task(token, dur=0.0, tag=tag):
        log("start", token)
        log("ran", (tag, token))
        if dur:
            time.sleep(dur)
        log("end", token)
        return (tag, token)

    return task


def make_lambda(tag):
    return lambda token, dur=0.0: (log("start", token), log("ran", (tag, token)), dur and time.sleep(dur), log("end", token), (tag, token))[-1]


class Task:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, token, dur=0.0):
        return make_closure(self.tag)(token, dur)


class EqualTask(Task):
    """not hashable"""

    def __eq__(self, other):
        return isinstance(other, EqualTask)

    __hash__ = None


class Method:
    def __init__(self, tag):
        self.tag = tag

    def task(self, token, dur=0.0):
        return make_closure(self.tag)(token, dur)


def make_partial(tag):
    import functools

    return functools.partial(_partial, tag)


def _partial(tag, token, dur=0.0):
    return make_closure(tag)(token, dur)


LOOKALIKE = [make_closure, make_default, make_lambda, Task, EqualTask, lambda tag: Method(tag).task, make_partial]


def gthread(token, *args):
    log("start", token)
    log("end", token)
    return ("g", token, args)


def _refuse(token):
    raise TaskError(token)


class Unloadable(Exception):
    """a value or exception that fails with TaskError(token) when it is loaded"""

    def __init__(self, token):
        super().__init__(token)
        self.token = token

    def __reduce__(self):
        return _refuse, (self.token,)


def odd_end(token, how, *args):
    log("start", token)
    time.sleep(0.01)
    log("end", token)
    if how == "raise":
        raise TaskError(token)
    if how == "badresult":
        return Unloadable(token)
    if how == "badexc":
        raise Unloadable(token)
