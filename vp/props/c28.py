"""C28 map equals the built-in map over argument tuples"""
import collections
import itertools

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import simlib as L
from .. import userfns as U
from ..schedsim import M

TECHNIQUE = "differential testing (Hypothesis): map over generated iterables on simulated deployments against itertools.starmap"
LEVEL_NOTE = "Exploration of iterable kinds, element kinds, lengths and schedules; trusts the simulator for transport."
ASSUMPTIONS = ["simulated environment is faithful"]

KINDS = ["list", "tuple", "generator", "iter", "zip", "map", "dict-keys", "dict-items", "deque", "custom-iter", "custom-seq", "chain", "set", "islice",
         "once", "reversed", "dict-values", "raising"]
ATOMS = [0, 1, -3, "a", None, 0.02, 0.3, (1, 2), "raise", 1.1, b"x", ""]
INVALID = ["ab", 5, None, {"a": 1}, {1}, b"xy", 0.5]
P = collections.namedtuple("P", "x y")


class Iter:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class Seq:
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


class Once:
    """an iterator that may be consumed once and has a wrong length hint"""

    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.items:
            raise StopIteration
        return self.items.pop(0)

    def __length_hint__(self):
        return 2


class Broken(Exception):
    pass


def make(kind, items):
    """-> iterable, the elements it yields in order"""
    if kind == "list":
        return list(items), items
    if kind == "tuple":
        return tuple(items), items
    if kind == "generator":
        return (x for x in items), items
    if kind == "iter":
        return iter(items), items
    if kind == "zip":
        a, b = [x[0] if x else 0 for x in items], range(len(items))
        return zip(a, b), list(zip(a, b))
    if kind == "map":
        return map(lambda x: x, items), items
    if kind == "dict-keys":
        d = {tuple(x): 1 for x in items}
        return d.keys(), list(d)
    if kind == "dict-items":
        d = {i: (x[0] if x else "") for i, x in enumerate(items)}
        return d.items(), list(d.items())
    if kind == "dict-values":
        d = {i: x for i, x in enumerate(items)}
        return d.values(), items
    if kind == "deque":
        return collections.deque(items), items
    if kind == "custom-iter":
        return Iter(items), items
    if kind == "custom-seq":
        return Seq(items), items
    if kind == "chain":
        return itertools.chain(items[:1], items[1:]), items
    if kind == "set":
        s = {tuple(x) for x in items}
        return s, list(s)
    if kind == "islice":
        return itertools.islice(itertools.cycle(items or [()]), len(items)), items
    if kind == "once":
        return Once(items), items
    if kind == "reversed":
        return reversed(items), items[::-1]
    if kind == "raising":
        def g():
            yield from items
            raise Broken()

        return g(), items
    raise AssertionError(kind)


def plans():
    el = st.tuples(st.sampled_from(["t", "t", "t", "l", "n"]), st.lists(st.integers(0, 11), max_size=3)).map(list)
    safe = st.tuples(st.sampled_from(["t", "t", "l"]), st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 10]), max_size=3)).map(list)
    bad = st.tuples(st.just("x"), st.integers(0, 6)).map(list)
    els = st.one_of(st.lists(safe, max_size=12), st.lists(safe, min_size=4, max_size=30), st.lists(el, max_size=8), st.lists(st.one_of(safe, safe, bad), max_size=8))
    op = st.tuples(st.sampled_from(KINDS), els, st.integers(0, 1), st.booleans()).map(list)
    return st.fixed_dictionaries({**L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=3), "qs": st.sampled_from([1000, 1, 2]),
                                  "cl": st.lists(st.lists(op, min_size=1, max_size=4), min_size=1, max_size=2)})


def element(e):
    if e[0] == "x":
        return INVALID[e[1] % len(INVALID)]
    v = [ATOMS[i] for i in e[1]]
    if e[0] == "l":
        return v
    if e[0] == "n":
        return P((v + [0])[0], (v + [0, 0])[1])
    return tuple(v)


def local(fn, els):
    res = []
    for x in els:
        args = tuple(x)
        if fn is U.mapped_kw:
            args = (*args, *(1, 2)[len(args):])
        if "raise" in args:
            return res, args
        res.append(("m", args))
    return res, None


def execute(plan):
    lens = []
    flags = set()
    with L.Bench(plan, sched=dict(per_worker_queue_size=plan["qs"])) as b:
        def main_of(ci, ops):
            def main(b):
                k = b.k
                c = L.W.Client(L.ADDRESS)
                for kind, els, f, again in ops:
                    items = [element(e) for e in els]
                    if kind in ("set", "dict-keys") and not all(isinstance(x, tuple) for x in items):
                        kind = "iter"
                    if kind in ("zip", "dict-items"):
                        items = [x if isinstance(x, (tuple, list)) else () for x in items]
                    fn = [U.mapped, U.mapped_kw][f]
                    it, seen = make(kind, items)
                    seen = list(seen)
                    valid = all(isinstance(x, (tuple, list)) for x in seen)
                    want, fails = local(fn, seen) if valid else (None, None)
                    log0, wire0 = len(k.log), len(b.world.wire)
                    try:
                        got = ("value", c.map(fn, it))
                    except Exception as e:
                        got = ("exc", e)
                    text = f"map({fn.__name__}, {kind} of {seen!r})"
                    if kind == "raising":
                        flags.add("broken-iterable")
                        require(got[0] == "exc" and isinstance(got[1], (Broken, TypeError, U.TaskError)), f"{text} gives {got!r}", "iterable")
                    elif not valid:
                        flags.add("invalid")
                        require(got[0] == "exc" and isinstance(got[1], TypeError), f"{text} gives {got!r}, expected TypeError", "invalid")
                        import time

                        time.sleep(0.5)
                        mine = [m for t, kd, sock, fr in b.world.wire[wire0:] if kd == "send" and sock.type == L.DEALER and sock.proc.name == f"client{ci}"
                                for m in [L.W.decode(fr)] if isinstance(m, M.Task)]
                        require(not mine, f"{text} sent {mine} although an element is not a tuple or list", "ran")
                    elif fails is not None:
                        flags.add("raises")
                        require(got[0] == "exc" and type(got[1]) is U.TaskError and "raise" in got[1].args[0], f"{text} gives {got!r}, expected the exception of {fails}", "raises")
                        require(got[1].args[0] == repr(fails), f"{text} raises the exception of {got[1].args[0]}, the first call that fails is {fails}", "raises")
                    else:
                        require(got == ("value", want) and type(got[1]) is list, f"{text} gives {got!r}, expected {want!r}", "value")
                        lens.append(len(want))
                        if plan_alone:
                            ran = sorted(x[3] for x in k.log[log0:] if x[0] == "start")
                            require(ran == sorted("map:" + repr(x[1]) for x in want), f"{text} executed {ran}", "executions")
                    if got[0] == "exc":
                        c = L.W.Client(L.ADDRESS)

            return main

        plan_alone = len(plan["cl"]) == 1 and not any(kind == "raising" or any(x[0] == "x" or 8 in x[1] for x in els) for ops in plan["cl"] for kind, els, *_ in ops)
        b.go(*[main_of(i, ops) for i, ops in enumerate(plan["cl"])])
    return Case(bool(lens and max(lens) >= 2) or bool(flags), sorted(flags) + (["empty"] if 0 in lens else []))


def large_plans():
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=3), "qs": st.sampled_from([1000, 1000, 30]),
        "n": st.sampled_from([255, 256, 257, 300, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 2500]),
        "kind": st.sampled_from(["list", "generator", "zip", "tuple", "dict-keys", "once", "custom-seq"]),
        "fail": st.sampled_from([None, None, None, 0.0, 0.5, 0.999]),
        "bad": st.sampled_from([None, None, None, 0.1, 0.5, 0.999])})


def large_execute(plan):
    n = plan["n"]
    items = [(i, str(i * i % 7)) if i % 5 else [i, "l"] for i in range(n)]
    if plan["kind"] == "dict-keys":
        items = [tuple(x) for x in items]
    fail = None if plan["fail"] is None or plan["kind"] == "zip" else int(plan["fail"] * (n - 1))
    if fail is not None:
        items[fail] = (fail, "raise")
    bad_at = None if plan["bad"] is None or plan["kind"] not in ("list", "generator", "tuple", "once") else int(plan["bad"] * (n - 1))
    if bad_at is not None:
        items[bad_at] = "no arguments"
    with L.Bench(plan, sched=dict(per_worker_queue_size=plan["qs"]), max_steps=3_000_000) as b:
        def main(b):
            c = L.W.Client(L.ADDRESS)
            it, seen = make(plan["kind"], items)
            want, fails = local(U.mapped, list(seen)) if bad_at is None else (None, None)
            try:
                got = ("value", c.map(U.mapped, it))
            except Exception as e:
                got = ("exc", e)
            if bad_at is not None:
                text = f"map over a {plan['kind']} of {n} elements, number {bad_at} is no tuple,"
                require(got[0] == "exc" and isinstance(got[1], TypeError), f"{text} gives {str(got)[:200]}", "refused")
                import time

                time.sleep(1.0)
                ran = [x for x in b.k.log if x[0] == "start"]
                require(not ran, f"{text} executed {len(ran)} calls", "executions")
                return
            text = f"map over a {plan['kind']} of {n} elements" + (f", call {fail} fails," if fail is not None else "")
            if fails is not None:
                require(got[0] == "exc" and type(got[1]) is U.TaskError and got[1].args[0] == repr(fails), f"{text} gives {str(got)[:200]}", "raises")
                return
            require(got[0] == "value", f"{text} raises {got[1]!r}", "value")
            require(len(got[1]) == n, f"{text} gives {len(got[1])} results", "value")
            bad = [i for i in range(n) if got[1][i] != want[i]]
            require(not bad, f"{text}: result {bad[:1]} is {[got[1][i] for i in bad[:1]]}, expected {[want[i] for i in bad[:1]]}", "value")
            ran = sorted(x[3] for x in b.k.log if x[0] == "start")
            require(ran == sorted("map:" + repr(x[1]) for x in want), f"{text} executed {len(ran)} calls", "executions")

        b.go(main, t=5000)
    return Case(True, ["refused" if bad_at is not None else "fails" if fail is not None else "value", f"n={n}"])


CHECKS = [
    Check("map", plans, execute, 900, 30000,
          "1-2 clients map over 18 kinds of iterables with valid, invalid and failing elements; non-trivial: at least two elements, or an "
          "invalid element, a failing call or an iterable that raises"),
    Check("large", large_plans, large_execute, 48, 800, "one client maps over 255 to 2500 elements; non-trivial: all"),
]
