"""Random graph programs for complete deployments and what local evaluation says about them."""
from hypothesis import strategies as st

from .core import require
from . import simlib as L
from . import userfns as U

CONSTS = [7, "k", None, (), [1, 2], {"a": 1}, b"", (1, 2), 0.5, U.gnode, ("t", 3), "n0", [], True]
DURS = [0.0, 0.0, 0.003, 0.05, 0.4, 1.2]


def node(outs, most=5):
    """function, duration, outcome, arguments: [is node, index]"""
    arg = st.tuples(st.sampled_from([1, 1, 1, 0]), st.integers(0, 30)).map(list)
    return st.tuples(st.integers(0, 2), st.sampled_from([0, 0, 1, 2, 3, 4, 5]), st.sampled_from(list(outs)),
                     st.lists(arg, max_size=most)).map(list)


def graph_op(outs=("ok", "ok", "ok", "none", "list", "big", "zero", "fn"), size=9, big=True):
    """shape of the arguments: index counts back from the node, so long chains and wide joins both happen"""
    sizes = st.lists(node(outs), min_size=1, max_size=size)
    if big:
        sizes = st.one_of(sizes, sizes, sizes, st.lists(node(outs), min_size=10, max_size=30))
    return st.tuples(st.just("g"), sizes, st.lists(st.integers(0, 30), max_size=6), st.sampled_from(["some", "some", "all", "last"]),
                     st.integers(0, 3)).map(list)


def build(prefix, op, order=0):
    """-> graph, targets, tokens, names ; order permutes the dictionary"""
    _, nodes, targets, mode, order = op
    items = []
    toks = []
    for j, (f, d, out, args) in enumerate(nodes):
        tok = f"{prefix}.n{j}"
        toks.append(tok)
        items.append((f"t{j}", tok))
        items.append((f"d{d}", DURS[d]))
        items.append((f"o-{out}", out))
        refs = []
        for is_node, i in args:
            if is_node and j:
                refs.append(f"n{i % j}" if i % 2 else f"n{j - 1 - (i // 2) % j}")
            else:
                refs.append(f"c{i % len(CONSTS)}")
                items.append((refs[-1], CONSTS[i % len(CONSTS)]))
        items.append((f"n{j}", (U.GNODES[f], f"t{j}", f"d{d}", f"o-{out}", *refs)))
    items.append(("unused", [1]))
    if order == 1:
        items.reverse()
    elif order == 2:
        items = items[1::2] + items[::2]
    n = len(nodes)
    if mode == "all":
        keys = [f"n{i}" for i in range(n)]
    elif mode == "last":
        keys = [f"n{n - 1}"]
    else:
        keys = [f"n{i % n}" for i in targets]
    if order == 3:
        keys.reverse()
    return dict(items), keys, toks


def deps(g, name):
    return [x for x in g[name][1:] if isinstance(g.get(x), tuple) and g[x] and callable(g[x][0])]


def local(g):
    """local evaluation of every node; failing nodes and those behind them are missing"""
    import zlib

    vals = {}
    failed = set()

    def ev(x):
        if x in vals:
            return vals[x]
        v = g[x]
        if not (isinstance(v, tuple) and v and callable(v[0])):
            vals[x] = v
            return v
        args = []
        for a in v[1:]:
            args.append(ev(a))
        if any(a in failed for a in v[1:]):
            failed.add(x)
            return None
        f = v[0]
        tok, dur, out, *rest = args
        if f is U.gnode_b:
            rest = ["b", *rest]
        elif f is U.gnode_kw:
            rest = [*rest, *[1, 2][len(rest):]]
        if out == "raise":
            failed.add(x)
            return None
        vals[x] = U.gvalue(tok, out, zlib.crc32(repr(tuple(rest)).encode()))
        return vals[x]

    for x in sorted(g, key=lambda x: (len(x), x)):
        if x not in failed:
            ev(x)
    return vals, failed


class GraphRun(L.ClientRun):
    """op g: request a graph; results are tracked like submissions"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.graphs = []

    def other(self, op):
        if op[0] != "g":
            raise AssertionError(op)
        prefix = f"c{self.index}.g{len(self.graphs)}"
        g, keys, toks = build(prefix, op)
        entry = {"g": g, "keys": keys, "toks": toks, "recs": [], "t": self.world.k.now}
        self.graphs.append(entry)
        futs = self.client.get(g, keys, block=False)
        require(list(futs) == list(dict.fromkeys(keys)), f"get returned keys {list(futs)}, requested {keys}", "keys")
        for key, f in futs.items():
            r = L.Rec(client=self.index, idx=len(self.recs), token=f"{prefix}.{key}", fut=f, kind="graph", t=self.world.k.now, extra=(entry, key))
            entry["recs"].append(self.track(r))


def check_values(entry):
    vals, failed = local(entry["g"])
    for r in entry["recs"]:
        o = L.outcome(r)
        want = vals[r.extra[1]]
        require(o[0] == "value" and L.deep_equal(o[1], want), f"{r.token} has outcome {str(o)[:200]}, local evaluation gives {str(want)[:200]}", "value")
        require(len(r.outcomes) == 1, f"future of {r.token} completed {len(r.outcomes)} times")


def check_order(s, entry):
    """dependants start after what they depend on has ended"""
    pos = {}
    for i, (kind, t, pid, tok) in enumerate(s.k.log):
        pos.setdefault((kind, tok), i)
    g = entry["g"]
    for j, tok in enumerate(entry["toks"]):
        a = pos.get(("start", tok))
        if a is None:
            continue
        for d in deps(g, f"n{j}"):
            b = pos.get(("end", entry["toks"][int(d[1:])]))
            require(b is not None and b < a, f"{tok} started before {d} it depends on had ended", "order")
