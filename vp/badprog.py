"""A client program of failing tasks and what each of its futures must tell; shared by simulated and real runs."""
import pickle

from . import badfns as B
from .core import require

GAPS = [0.0, 0.001, 0.02, 0.3, 0.9, 1.3]


class Program:
    """what a client does; shared by the simulation and the real runs"""

    def __init__(self, client, index, clock, sleep):
        self.client, self.index, self.clock, self.sleep = client, index, clock, sleep
        self.recs = []  # [token, expectation, future, time]
        self.deaths = 0

    def add(self, want, fn, *args):
        tok = f"c{self.index}.{len(self.recs)}"
        fut = self.client.submit(fn, tok, *args)
        rec = [tok, want, fut, self.clock(), None]
        fut.add_done_callback(lambda f: rec.__setitem__(4, self.clock()))
        self.recs.append(rec)
        return rec

    def run(self, ops, alone):
        for op in ops:
            self.do(op, alone)
        self.settle()
        self.add(("value", None), B.ok, None)
        self.settle()

    def settle(self):
        for r in self.recs:
            try:
                r[2].exception(60)
            except BaseException as e:
                if type(e).__name__ == "SimKill" or isinstance(e, TimeoutError):
                    raise
                raise

    def refused(self, kinds, fn, *args):
        n = len(self.recs)
        try:
            self.add(("any",), fn, *args)
        except kinds:
            return
        require(len(self.recs) > n, "nothing was raised and nothing was submitted")

    def do(self, op, alone):
        k = op[0]
        if k == "raise":
            self.add(("raises", op[1]), B.raises, op[1])
        elif k == "deep":
            self.add(("deep", op[1]), B.deep_raises, op[1])
        elif k == "return":
            self.add(("returns", op[1]), B.returns, op[1])
        elif k == "arg":
            if op[1] == "dump":
                self.refused(B.KINDS[op[2]], B.takes, B.Bad("dump", op[2]))
            else:
                self.add(("exc", B.KINDS[op[2]]), B.takes, B.Bad("load", op[2]))
        elif k == "value":
            if op[1] == "exc":
                self.add(("any",), B.by_value(B.LOCAL_EXC))
            elif op[1] == "res":
                self.add(("any",), B.by_value(B.LOCAL_RESULT))
            elif op[1] == "overflow":
                self.add(("exc", RecursionError), B.overflow)
            else:
                kind = op[1][3:]
                self.add(("exc", B.KINDS[kind]), B.by_value(B.BAD_FUNCTION, "F")(kind))
        elif k == "ok":
            for _ in range(op[1]):
                self.add(("value", len(self.recs)), B.ok, len(self.recs))
        elif k == "slow":
            self.add(("value", GAPS[op[1]]), B.slow, GAPS[op[1]])
        elif k == "w":
            if self.recs:
                self.recs[-1 - op[1] % len(self.recs)][2].exception(60)
        elif k == "z":
            self.sleep(GAPS[op[1]])
        elif k == "die":
            self.deaths += 1
            self.add(("died", op[1]), B.dies, op[1], GAPS[op[2]])
        elif k == "later":
            if not alone:
                return
            self.settle()
            self.deaths += 1
            self.add(("later", None), B.dies_later, op[1], GAPS[op[2]])
            self.settle()
            self.sleep(GAPS[op[2]] + 0.002 + GAPS[op[3]])


def transportable(e, loads=pickle.loads):
    seen = []
    while e is not None and e not in seen:
        try:
            c = loads(pickle.dumps(e, protocol=5))
        except BaseException:
            return False
        if type(c) is not type(e):
            return False
        seen.append(e)
        if e.__cause__ is not None:
            e = e.__cause__
        else:
            e = e.__context__
    return True


def same_exception(a, b):
    try:
        ra, rb = repr(a.args), repr(b.args)
    except Exception:
        return True
    return type(a) is type(b) and ra == rb and repr(getattr(a, "__notes__", None)) == repr(getattr(b, "__notes__", None))


def safe(x):
    try:
        return repr(x)[:300]
    except Exception:
        return f"<{type(x).__name__}>"


def check(rec, o):
    tok, want, fut, t, done = rec
    k = want[0]
    if k == "later":
        ok = o[0] == "exc" or o == ("value", ("ok", tok, None))
    elif k == "any":
        ok = o[0] == "exc"
    elif k == "exc":
        ok = o[0] == "exc"
    elif k == "value":
        ok = o == ("value", ("ok", tok, want[1]))
    elif k in ("raises", "deep"):
        e = B.RAISES[want[1]]()
        ok = o[0] == "exc"
        if ok and want[1] not in ("eq",) and transportable(e):
            require(same_exception(o[1], e), f"{tok} raised {safe(e)}, its future fails with {safe(o[1])}", "exception")
        if ok and want[1] == "eq":
            ok = type(o[1]) is B.Eq and o[1].args == ("e",)
        if k == "deep" and ok and transportable(e):
            c = o[1].__context__
            if o[1].__cause__ is None and e.__cause__ is None:
                require(c is None or type(c) is ValueError, f"{tok} has context {c!r}", "context")
    elif k == "returns":
        n = want[1]
        v = {"none": None, "empty": b"", "huge": b"z" * 400_000}
        if n in v:
            ok = o == ("value", v[n])
        elif n == "exc":
            ok = o[0] == "value" and type(o[1]) is ValueError and o[1].args == ("returned",)
        elif n == "exc-class":
            ok = o == ("value", KeyError)
        elif n == "self-ref":
            ok = o[0] == "value" and type(o[1]) is list and o[1][0] is o[1]
        else:
            ok = o[0] == "exc"
    elif k == "died":
        ok = o[0] == "exc"
    else:
        raise AssertionError(k)
    require(ok, f"{tok} ({want}) has outcome {safe(o)}", "outcome-" + k)
