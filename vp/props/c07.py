"""C07 graph results equal local evaluation"""
from collections import Counter

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import graphs as G
from .. import schedgraphs as SG
from .. import simlib as L

TECHNIQUE = "random graphs and deployments (Hypothesis) run by the real client, scheduler and workers in a simulator; oracle: local evaluation of the same graph, execution log"
LEVEL_NOTE = "Exploration: seeded random graphs and schedules under a simulated network; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful", "requestable keys are function nodes; node arguments are names"]


def plans():
    op = st.one_of(G.graph_op(), G.graph_op(), L.sleep_op(), L.submit_op(), L.wait_op())
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8]), "ops": st.lists(op, min_size=1, max_size=4)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=3), "cl": st.lists(client, min_size=1, max_size=2),
        "qs": st.sampled_from([1000, 1000, 1, 2]), "lbt": st.sampled_from([2, 1]), "lb": st.sampled_from([1, 0])})


def execute(plan):
    return run(plan, L.System(plan, client_class=G.GraphRun), 300)


def run(plan, system, t):
    with system as s:
        s.start(dict(per_worker_queue_size=plan["qs"], load_balance_trigger_times=plan["lbt"], load_balance_seconds=plan["lb"]))
        s.run(s.all_done, t=t)
        s.no_crash()
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 3)
        s.no_crash()
        starts = s.starts()
        joins = inner = nodes = 0
        for c in s.clients:
            for e in c.graphs:
                G.check_values(e)
                G.check_order(s, e)
                nodes += len(e["toks"])
                needed = set()
                for j in range(len(e["toks"])):
                    d = G.deps(e["g"], f"n{j}")
                    joins += len(d) > 1
                    needed.update(d)
                inner += bool(needed & set(e["keys"]))
                for tok in e["toks"]:
                    n = len(starts.get(tok, ()))
                    require(n == 1 or (n == 0 and not e["keys"]), f"node {tok} was executed {n} times", "executions")
            for r in c.recs:
                if r.kind == "task":
                    L.check_own_outcome(r)
        return Case(joins > 0 and nodes >= 3, [x for x, y in (("join", joins), ("inner-node-requested", inner)) if y])


def large_op(shape, n, mode, order):
    nodes = []
    for j in range(n):
        if shape == "chain":
            args = [[1, 0]] if j else []
        elif shape == "fan-in":
            args = [[1, 2 * (j - 1 - k)] for k in range(j)] if j == n - 1 else []
        elif shape == "fan-out":
            args = [[1, 2 * (j - 1)]] if j else []
        elif shape == "ladder":
            args = [[1, 0], [1, 2], [1, 0]] if j > 1 else []
        else:  # layers of 20, each node uses four of the layer before
            args = [[1, 2 * (j % 20 + 20 - (j * 7 + q * 5) % 20 - 1)] for q in range(4)] if j >= 20 else []
        nodes.append([j % 2, 0, "ok", args])
    return ["g", nodes, [n // 2, n - 1, 0, n // 3], mode, order]


class LargeRun(G.GraphRun):
    def do(self, op):
        super().do(large_op(*op[1:]) if op[0] == "G" else op)


def large_plans():
    shape = st.sampled_from(["chain", "fan-in", "fan-out", "ladder", "layers"])
    g = st.tuples(st.just("G"), shape, st.sampled_from([150, 400, 1010, 1500]), st.sampled_from(["some", "all", "last"]), st.integers(0, 3)).map(list)
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 4]), "ops": st.lists(g, min_size=1, max_size=2)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2), "cl": st.lists(client, min_size=1, max_size=2),
        "qs": st.sampled_from([1000, 5000, 20]), "lbt": st.sampled_from([2, 1]), "lb": st.sampled_from([1, 0])})


def large_execute(plan):
    run(plan, L.System(plan, max_steps=4_000_000, client_class=LargeRun), 6000)
    return Case(True, [op[1] for c in plan["cl"] for op in c["ops"]])


CHECKS = [
    Check("graphs", plans, execute, 1300, 40000,
          "1-2 clients request graphs of up to 30 nodes (chains, joins, repeated arguments, constants of all kinds, any set of requested "
          "nodes) from 1-3 workers; non-trivial: some node uses several others"),
    Check("large", large_plans, large_execute, 28, 800,
          "1-2 clients request graphs of 150-1500 nodes (chain, ladder, wide fan-in, wide fan-out, layers); non-trivial: all"),
    Check("scheduler", lambda: SG.plans(("Success", "Success", "Success", "Success", "Failed")), SG.execute, 1200, 50000, SG.RULE),
]
