"""C09 malformed graph requests are rejected at the call"""
from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import graphs as G
from .. import simlib as L
from ..schedsim import M

TECHNIQUE = "random graphs with injected defects (Hypothesis) requested from real clients in simulated deployments; oracle: the call raises and nothing crosses the wire, defect-free requests evaluate as local evaluation does"
LEVEL_NOTE = "Exploration: seeded random graphs, defects and schedules under a simulated network; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful"]

DEFECTS = ["self", "cycle", "cycle-unneeded", "undefined", "undefined-unneeded", "key-unknown", "key-constant", "key-unused", "arg-number", "arg-list", "arg-none", "key-number"]


def plans():
    bad = st.tuples(st.just("bad"), st.sampled_from(DEFECTS), st.integers(0, 30), st.integers(0, 30), G.graph_op(big=False), st.booleans()).map(list)
    op = st.one_of(bad, bad, G.graph_op(), L.sleep_op(), L.submit_op(), L.wait_op())
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4]), "ops": st.lists(op, min_size=1, max_size=8)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2), "cl": st.lists(client, min_size=1, max_size=2)})


def spoil(g, keys, defect, a, b):
    n = sum(1 for x in g if x[0] == "n" and x[1:].isdigit())
    x, y = f"n{a % n}", f"n{b % n}"
    if defect.endswith("-unneeded"):
        g["extra"] = g[x]
        x, defect = "extra", defect[:-9]
        if defect == "cycle":
            g["extra2"] = (*g[y], "extra")
            g["extra"] = (*g["extra"], "extra2")
            return g, keys
    if defect == "self":
        g[x] = (*g[x], x)
    elif defect == "cycle":
        lo, hi = sorted((a % n, b % n))
        if lo == hi:
            g["loop"] = (*g[x], x)
            g[x] = (*g[x], "loop")
        else:
            g[f"n{hi}"] = (*g[f"n{hi}"], f"n{lo}")
            g[f"n{lo}"] = (*g[f"n{lo}"], f"n{hi}")
    elif defect == "undefined":
        g[x] = (*g[x][:2 + b % 3], "nowhere", *g[x][2 + b % 3:])
    elif defect == "key-unknown":
        keys = keys[:a % (len(keys) + 1)] + ["nowhere"] + keys[a % (len(keys) + 1):]
    elif defect == "key-constant":
        keys = keys[:a % (len(keys) + 1)] + [f"t{b % n}"] + keys[a % (len(keys) + 1):]
    elif defect == "key-unused":
        keys = keys + ["unused"]
    elif defect == "key-number":
        keys = keys + [5]
    elif defect == "arg-number":
        g[x] = (*g[x], 4)
    elif defect == "arg-list":
        g[x] = (*g[x][:1 + b % 4], ["n0"], *g[x][1 + b % 4:])
    elif defect == "arg-none":
        g[x] = (*g[x], None)
    return g, keys


class Run(G.GraphRun):
    def other(self, op):
        if op[0] != "bad":
            return super().other(op)
        self.bad = getattr(self, "bad", [])
        prefix = f"c{self.index}.bad{len(self.bad)}"
        g, keys, toks = G.build(prefix, op[4])
        g, keys = spoil(g, keys, op[1], op[2], op[3])
        before = dict(g)
        try:
            r = self.client.get(g, keys, block=op[5])
        except Exception as e:
            self.bad.append((op[1], e, toks, g == before and list(g) == list(before)))
        else:
            raise Violation(f"a graph with defect '{op[1]}' is not rejected at the call but gives {r!r}: {g!r} keys={keys}", "accepted")


def execute(plan):
    with L.System(plan, client_class=Run) as s:
        s.start()
        s.run(s.all_done, t=300)
        s.no_crash()
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 2)
        s.no_crash()
        starts = s.starts()
        bad = good = 0
        for c in s.clients:
            for defect, e, toks, same in getattr(c, "bad", []):
                bad += 1
                require(not any(starts.get(t) for t in toks), f"a node of a rejected graph ({defect}) was executed", "executed")
                require(same, f"the rejected graph ({defect}) was modified", "modified")
            for e in c.graphs:
                good += 1
                G.check_values(e)
            for r in c.recs:
                if r.kind == "task":
                    L.check_own_outcome(r)
            # whatever crosses the wire belongs to a valid request
            n = 0
            for t, kind, sock, frames in s.world.wire:
                if kind == "send" and sock.type == L.DEALER and sock.proc is c.proc:
                    m = L.W.decode(frames)
                    n += isinstance(m, (M.GraphTask, M.Task))
            want = len(c.graphs) + sum(r.kind == "task" for r in c.recs)
            sent_all = not any(not e["keys"] for e in c.graphs)
            require(n == want or (not sent_all and n <= want), f"client {c.index} made {want} valid requests, {n} tasks and graphs crossed the wire", "sent")
        return Case(bad > 0 and good > 0, [x for x, y in (("rejected", bad), ("valid", good)) if y])


CHECKS = [
    Check("requests", plans, execute, 900, 30000,
          "valid graphs and tasks mixed with graphs that got one defect of 12 kinds; non-trivial: both kinds of requests were made"),
]
