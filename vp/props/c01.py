"""C01 a remote call computes what the local call computes"""
import copy
import functools
import inspect

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from ..simlib import *  # noqa
from .. import simlib as L

TECHNIQUE = "differential testing: generated functions and calls run remotely in the simulator and locally"
LEVEL_NOTE = "Exploration of generated signatures and argument splits; the oracle is the local call of the same function. Trusts the simulator for transport."
ASSUMPTIONS = ["functions are deterministic and do not compare defaults by identity (filled-in defaults travel by value)",
               "calls needing keyword-only parameters or **kwargs may be refused with TypeError (documented restriction)",
               "callables without signature may refuse keyword arguments"]

LOG = "__import__('vp.userfns', fromlist=['x']).log('start', {name!r})"


def value():
    leaf = st.one_of(st.integers(-5, 5), st.sampled_from([None, True, False, "", "a", 1.5, 0.0, -0.0, float("inf"), 10**30, "\u4e2d"]),
                     st.text(max_size=5))
    return st.recursive(leaf, lambda s: st.one_of(
        st.lists(s, max_size=3),
        st.lists(s, max_size=3).map(lambda x: {"~": "tuple", "v": x}),
        st.binary(max_size=4).map(lambda b: {"~": "bytes", "v": b.hex()}),
        st.lists(st.integers(0, 9), max_size=3).map(lambda x: {"~": "set", "v": x}),
        st.dictionaries(st.sampled_from("xyz"), s, max_size=2).map(lambda d: {"~": "dict", "v": d}),
        st.tuples(st.sampled_from([255, 256, 5000, 65536, 300000]), st.integers(0, 2)).map(lambda t: {"~": "big", "v": list(t)}),
    ), max_leaves=6)


def mk(v):
    if isinstance(v, list):
        return [mk(x) for x in v]
    if isinstance(v, dict):
        k, x = v["~"], v["v"]
        if k == "tuple":
            return tuple(mk(y) for y in x)
        if k == "bytes":
            return bytes.fromhex(x)
        if k == "set":
            return set(x)
        if k == "big":
            return "x" * x[0] + str(x[1])
        return {n: mk(y) for n, y in x.items()}
    return v


# parameter kinds in order: p positional only, n normal, v *args, k keyword only, w **kwargs
def params():
    d = st.one_of(st.none(), st.lists(value(), min_size=1, max_size=1))
    return st.fixed_dictionaries({
        "p": st.lists(d, max_size=2), "n": st.lists(d, max_size=3), "v": st.sampled_from([False, False, True]),
        "k": st.one_of(st.just([]), st.just([]), st.lists(d, max_size=2)), "w": st.sampled_from([False, False, True])})


SHAPES = ["def", "def", "lambda", "partial", "method", "callable", "classmethod", "staticmethod", "wraps", "closure",
          "class", "builtin", "unhashable"]
BUILTINS = ["len", "pow", "max", "divmod", "int", "sorted", "dict", "str.upper", "math.hypot", "operator.add", "tuple", "abs"]


def call():
    kw = st.dictionaries(st.sampled_from(["p0", "n0", "n0", "n1", "n1", "n2", "k0", "k1", "zz", "a0", "self", "exp", "mod", "x"]), value(), max_size=3)
    return st.fixed_dictionaries({"a": st.lists(value(), max_size=5), "kw": st.one_of(st.just({}), kw), "fit": st.integers(0, 5)})


def plans():
    f = st.fixed_dictionaries({"shape": st.sampled_from(SHAPES), "sig": params(), "pre": st.lists(value(), max_size=2),
                               "prekw": st.sampled_from([[], [], ["n1"], ["n0"]]), "pad": st.sampled_from([0, 0, 0, 300, -300, 5000, -5000, 70000, -70000]), "b": st.sampled_from(BUILTINS)})
    def twins(t):
        # sometimes all have the same text except for what they return
        fs, same = t
        return [fs[0]] * len(fs) if same else fs

    fns = st.tuples(st.lists(f, min_size=1, max_size=3), st.sampled_from([False, False, False, True])).map(twins)
    return st.fixed_dictionaries({**net_plan(), "fn": fns,
                                  "calls": st.lists(st.tuples(st.integers(0, 2), call()).map(list), min_size=1, max_size=10)})


def signature_source(sig):
    """parameters text, names to return, defaults"""
    parts, names, env = [], [], {}
    seen_default = False

    def one(name, d):
        names.append(name)
        if d is None:
            return name
        env["d_" + name] = mk(d[0])
        return f"{name}=d_{name}"

    for kind in ("p", "n"):
        for i, d in enumerate(sig[kind]):
            if seen_default and d is None:
                d = [0]
            seen_default = seen_default or d is not None
            parts.append(one(f"{kind}{i}", d))
        if kind == "p" and sig["p"]:
            parts.append("/")
    if sig["v"]:
        parts.append("*rest")
        names.append("rest")
    elif sig["k"]:
        parts.append("*")
    for i, d in enumerate(sig["k"]):
        parts.append(one(f"k{i}", d))
    if sig["w"]:
        parts.append("**kw")
        names.append("kw")
    return ", ".join(parts), names, env


def make(spec, name):
    """the callable; everything generated is unknown to the worker's import system, so it travels by value"""
    shape = spec["shape"]
    if shape == "builtin":
        import builtins
        import math
        import operator

        b = spec["b"]
        if "." in b:
            m, a = b.split(".")
            return getattr({"math": math, "operator": operator, "str": str}[m], a)
        return getattr(builtins, b)
    text, names, env = signature_source(spec["sig"])
    ret = "(" + repr(name) + "".join(f", {n}" for n in names) + ",)"
    log = LOG.format(name=name)
    ns = dict(env)
    ns["__name__"] = "__main__"
    me = "self, " if shape in ("method", "callable", "class", "unhashable") else "cls, " if shape == "classmethod" else ""
    # functions that are large and differ only behind (or before) a long common part
    pad = spec.get("pad", 0)
    if pad:
        const = f"    pad = {'p' * abs(pad)!r}\n"
        body = const + f"    {log}\n    return {ret}\n" if pad > 0 else f"    {log}\n    value = {ret}\n{const}    return value\n"
    else:
        body = f"    {log}\n    return {ret}\n"
    if shape == "lambda":
        src = f"f = lambda {text}: ({log}, {ret})[1]\n"
    elif shape in ("method", "callable", "classmethod", "staticmethod", "unhashable"):
        fname = "__call__" if shape in ("callable", "unhashable") else "m"
        deco = f"    @{shape}\n" if shape in ("classmethod", "staticmethod") else ""
        src = f"class C:\n{deco}    def {fname}({me}{text}):\n" + "".join("    " + x + "\n" for x in body.splitlines())
        if shape == "unhashable":
            src += "    def __eq__(self, o):\n        return self is o\n"
        src += "f = C.m\n" if shape in ("classmethod", "staticmethod") else "f = C().m\n" if shape == "method" else "f = C()\n"
    elif shape == "class":
        src = (f"class C(list):\n    def __init__({me}{text}):\n        {log}\n        list.__init__(self, {ret})\n"
               "    def __reduce__(self):\n        return (list, (list(self),))\nf = C\n")
    elif shape == "wraps":
        src = f"def g({text}):\n{body}@functools.wraps(g)\ndef f(*a, **k):\n    return ('wrapped', g(*a, **k))\n"
        ns["functools"] = functools
    elif shape == "closure":
        src = f"def outer(secret):\n    def f({text}):\n        {log}\n        return (secret, {ret})\n    return f\nf = outer({name!r})\n"
    else:
        src = f"def f({text}):\n{body}"
    exec(src, ns)
    f = ns["f"]
    if shape == "partial":
        return functools.partial(f, *[mk(v) for v in spec["pre"]], **{k: 7 for k in spec["prekw"]})
    return f


def fit(spec, c):
    """turn most of the calls into ones the function accepts: positional prefix, rest by keyword"""
    a, kw = [mk(v) for v in c["a"]], {k: mk(v) for k, v in c["kw"].items()}
    if c["fit"] == 0 or spec["shape"] == "builtin":
        return a, kw
    sig = spec["sig"]
    pos = len(sig["p"]) + len(sig["n"])
    names = [f"p{i}" for i in range(len(sig["p"]))] + [f"n{i}" for i in range(len(sig["n"]))]
    cut = max(len(sig["p"]), min(c["fit"] - 1, pos))
    if len(a) < cut:
        a = a + [f"pad{i}" for i in range(cut - len(a))]
    if not sig["v"]:
        a = a[:cut] if kw else a[:pos]
    kw = {k: v for k, v in kw.items() if k in names[len(a):] and not k.startswith("p")}
    # required ones that are still missing
    seen = False
    for kind in ("p", "n"):
        for i, d in enumerate(sig[kind]):
            seen = seen or d is not None
            n = f"{kind}{i}"
            if not seen and n in names[len(a):] and n not in kw:
                kw[n] = f"req-{n}"
    return a, kw


def plain(r):
    return list(r) if isinstance(r, list) else r


def execute(plan):
    import cloudpickle

    fns = [make(s, f"f{i}") for i, s in enumerate(plan["fn"])]
    labels = set()
    state = {"done": 0}
    expected_runs = {}

    def main(bench):
        client = L.W.Client(L.ADDRESS)
        pending = []
        for fi, c in plan["calls"]:
            spec = plan["fn"][fi % len(fns)]
            f = fns[fi % len(fns)]
            args, kw = fit(spec, c)
            keep = copy.deepcopy((args, kw))
            try:
                fut = client.submit(f, *args, **kw)
            except TypeError as e:
                pending.append((spec, f, args, kw, keep, None, e))
                continue
            pending.append((spec, f, args, kw, keep, fut, None))
        for spec, f, args, kw, keep, fut, err in pending:
            if fut is not None:
                err = fut.exception()
                if err is None:
                    res = fut.result()
            state["done"] += 1
            require(deep_equal(list(keep), [args, kw]), f"submitting changed the caller's arguments {keep!r} to {(args, kw)!r}")
            # the local call
            k = L.W.K.cur_kernel()
            n = len(k.log)
            try:
                want = ("ok", f(*copy.deepcopy(args), **copy.deepcopy(kw)))
            except Exception as e:
                want = ("err", e)
            del k.log[n:]
            what = f"{spec['shape']} {describe(spec, f)} called with args={args!r} kwargs={kw!r}"
            bound = binds(f, args, kw)
            if want[0] == "ok":
                if err is not None:
                    restricted = kw and bound is not True
                    if isinstance(err, TypeError) and restricted:
                        labels.add("restricted")
                        continue
                    raise Violation(f"{what}: local call returns {want[1]!r}, the remote call failed with {err!r}", "args")
                require(deep_equal(plain(want[1]), plain(res)), f"{what}: local call returns {want[1]!r}, remote {res!r}", "args")
                labels.add(spec["shape"])
                if spec["shape"] != "builtin":
                    expected_runs[f"f{fns.index(f)}"] = expected_runs.get(f"f{fns.index(f)}", 0) + 1
                if kw:
                    labels.add("keywords")
            elif bound is False:
                if err is None:
                    raise Violation(f"{what}: local call fails with {want[1]!r}, remote returned {res!r}", "args")
                require(isinstance(err, TypeError), f"{what}: local call fails with {want[1]!r}, remote with {err!r}", "args")
                labels.add("cannot-be-called")
            else:
                require(err is not None and (type(err) is type(want[1]) or isinstance(err, TypeError)),
                        f"{what}: local call fails with {want[1]!r}, remote gave {err!r}", "args")
                labels.add("raises")
        client.disconnect()

    violation = []

    def guarded(bench):
        try:
            main(bench)
        except Violation as v:
            violation.append(v)

    with L.Bench(plan) as b:
        b.go(guarded)
        if violation:
            raise violation[0]
        runs = {t: len(v) for t, v in b.starts().items()}
        require(runs == expected_runs, f"bodies executed {runs}, expected {expected_runs}")
    return Case("keywords" in labels or len(labels) > 1, labels)


def describe(spec, f):
    return spec["b"] if spec["shape"] == "builtin" else signature_source(spec["sig"])[0]


def binds(f, args, kw):
    """False: python cannot call it; 'restricted': needs keyword-only passing; True; None: unknown"""
    try:
        s = inspect.signature(f)
    except (ValueError, TypeError):
        return None
    try:
        s.bind(*args, **kw)
    except TypeError:
        return False
    for k in kw:
        p = s.parameters.get(k)
        if p is None or p.kind is not p.POSITIONAL_OR_KEYWORD:
            return "restricted"
    return True


# objects that share their code and differ only in what they carry; some are dropped before the next one is made
FAMILIES = ["closure", "method", "callable", "partial", "default", "kwdefault", "two-methods", "class-attr", "nested"]


def family_plans():
    op = st.fixed_dictionaries({"fam": st.integers(0, 1), "obj": st.integers(0, 3), "arg": st.integers(0, 9), "drop": st.sampled_from([False, False, True]),
                                "wait": st.sampled_from([False, False, True])})
    return st.fixed_dictionaries({**net_plan(), "fams": st.lists(st.sampled_from(FAMILIES), min_size=2, max_size=2), "other": st.booleans(),
                                  "ops": st.lists(op, min_size=2, max_size=14)})


def family(kind, name):
    log = LOG.format(name=name)
    ret = f"({name!r}, secret, x)"
    src = {
        "closure": f"def make(secret):\n    def f(x):\n        {log}\n        return {ret}\n    return f\n",
        "nested": f"def make(secret):\n    def g(x):\n        return {ret}\n    def f(x):\n        {log}\n        return g(x)\n    return f\n",
        "method": f"class C:\n    def __init__(self, s):\n        self.s = s\n    def m(self, x):\n        {log}\n        secret = self.s\n        return {ret}\n"
                  "def make(secret):\n    return C(secret).m\n",
        "two-methods": f"class C:\n    def m0(self, x):\n        {log}\n        secret = 0\n        return {ret}\n    def m1(self, x):\n        {log}\n        secret = 1\n        return {ret}\n"
                       "c = C()\ndef make(secret):\n    return c.m1 if secret % 2 else c.m0\n",
        "callable": f"class C:\n    def __init__(self, s):\n        self.s = s\n    def __call__(self, x):\n        {log}\n        secret = self.s\n        return {ret}\n"
                    "def make(secret):\n    return C(secret)\n",
        "partial": f"def f(secret, x):\n    {log}\n    return {ret}\ndef make(secret):\n    return functools.partial(f, secret)\n",
        "default": f"def make(secret):\n    def f(x, secret=secret):\n        {log}\n        return {ret}\n    return f\n",
        "kwdefault": f"def make(secret):\n    def f(x, *, secret=secret):\n        {log}\n        return {ret}\n    return f\n",
        "class-attr": f"def make(s):\n    class C:\n        secret = s\n        @classmethod\n        def m(cls, x):\n            {log}\n            secret = cls.secret\n            return {ret}\n    return C.m\n",
    }[kind]
    ns = {"__name__": "__main__", "functools": functools}
    exec(src, ns)
    return ns["make"]


def family_execute(plan):
    import gc

    labels = set()
    violation = []
    want_runs = {}

    def main(bench):
        k = L.W.K.cur_kernel()
        clients = [L.W.Client(L.ADDRESS)]
        if plan["other"]:
            clients.append(L.W.Client(L.ADDRESS))
        makers = [family(f, f"fam{i}") for i, f in enumerate(plan["fams"])]
        alive, pending, secrets = {}, [], {}
        for n, op in enumerate(plan["ops"]):
            i = op["fam"] % len(makers)
            key = (i, op["obj"])
            if key not in alive:
                # a fresh object, with something of its own
                secrets[key] = secrets.get(key, op["obj"]) + 10 * (key in secrets)
                alive[key] = makers[i](secrets[key])
            f = alive[key]
            fut = clients[n % len(clients)].submit(f, op["arg"])
            m = len(k.log)
            want = f(op["arg"])
            del k.log[m:]
            want_runs[f"fam{i}"] = want_runs.get(f"fam{i}", 0) + 1
            pending.append((plan["fams"][i], want, fut))
            if op["wait"]:
                fut.exception()
            if op["drop"]:
                del f, alive[key]
                gc.collect(0)
                labels.add("dropped")
        for kind, want, fut in pending:
            err = fut.exception()
            if err is not None:
                raise Violation(f"{kind}: local call returns {want!r}, the remote call failed with {err!r}", "sibling")
            require(fut.result() == want, f"{kind}: local call returns {want!r}, remote {fut.result()!r}", "sibling")
            labels.add(kind)
        for c in clients:
            c.disconnect()

    def guarded(bench):
        try:
            main(bench)
        except Violation as v:
            violation.append(v)

    with L.Bench(plan) as b:
        b.go(guarded)
        if violation:
            raise violation[0]
        runs = {t: len(v) for t, v in b.starts().items()}
        require(runs == want_runs, f"bodies executed {runs}, expected {want_runs}")
    return Case(len({(o["fam"], o["obj"]) for o in plan["ops"]}) > 1, labels)


CHECKS = [Check("calls", plans, execute, 1600, 60000,
                "1-3 generated callables (functions, lambdas, partials, methods, callables, classes, builtins) called up to ten "
                "times with mixed positional/keyword arguments; non-trivial: keywords used or several outcomes"),
          Check("siblings", family_plans, family_execute, 500, 15000,
                "up to eight callables that share their code and differ in the object, closure, default or partial argument they carry, "
                "submitted repeatedly by one or two clients, some dropped and made anew; non-trivial: more than one object")]
