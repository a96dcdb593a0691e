"""C08 failing graph nodes"""
from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import graphs as G
from .. import schedgraphs as SG
from .. import simlib as L
from .. import userfns as U

TECHNIQUE = "random graphs with failing nodes (Hypothesis) in complete simulated deployments; oracle: failures raised per execution log, local evaluation of everything else"
LEVEL_NOTE = "Exploration: seeded random graphs and schedules under a simulated network; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful"]


def plans():
    outs = ("ok", "ok", "ok", "raise", "ok", "list")
    op = st.one_of(G.graph_op(outs), G.graph_op(outs), G.graph_op(), L.sleep_op(), L.burst_op(("ok", "raise")), L.wait_op())
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8]), "ops": st.lists(op, min_size=1, max_size=5)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=3), "cl": st.lists(client, min_size=1, max_size=2),
        "qs": st.sampled_from([1000, 1000, 1, 2]), "lbt": st.sampled_from([2, 1]), "lb": st.sampled_from([1, 0])})


class Run(G.GraphRun):
    after = False

    def main(self):
        super().main()
        # everything still works
        self.after = True
        self.finished = False
        for i in range(3):
            self.submit(i, 0.0, "ok")
        self.do(["g", [[0, 0, "ok", []], [1, 0, "ok", [[1, 0]]]], [], "all", 0])
        self.finished = True
        for r in self.recs:
            self.wait(r)


def execute(plan):
    with L.System(plan, client_class=Run) as s:
        s.start(dict(per_worker_queue_size=plan["qs"], load_balance_trigger_times=plan["lbt"], load_balance_seconds=plan["lb"]))
        s.run(lambda: all(c.proc.exited for c in s.clients), t=300)
        s.no_crash()
        if not all(c.proc.exited for c in s.clients):
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 4)
        s.no_crash()
        require(not s.sched.exited and not any(w.exited for w in s.workers), "a component ended", "crash")
        starts, ends = s.starts(), s.ends()
        failures = sibling = 0
        for c in s.clients:
            for e in c.graphs:
                vals, failed = G.local(e["g"])
                for tok in e["toks"]:
                    require(len(starts.get(tok, ())) <= 1, f"node {tok} was executed {len(starts[tok])} times", "executions")
                G.check_order(s, e)
                if not failed:
                    G.check_values(e)
                    for tok in e["toks"]:
                        require(len(starts.get(tok, ())) == 1 or not e["keys"], f"node {tok} was not executed", "executions")
                    continue
                failures += 1
                raising = {e["toks"][int(x[1:])] for x in failed if not any(d in failed for d in G.deps(e["g"], x))}
                for x in failed:
                    tok = e["toks"][int(x[1:])]
                    if tok not in raising:
                        require(not starts.get(tok), f"{tok} was executed although a node it depends on failed", "dependant")
                sibling += len(e["toks"]) - len(failed) > 0
                got = set()
                for r in e["recs"]:
                    o = L.outcome(r)
                    require(o[0] == "exc" and type(o[1]) is U.TaskError and o[1].args[0] in raising and starts.get(o[1].args[0]),
                            f"{r.token} has outcome {str(o)[:200]}, nodes that raise: {sorted(raising)}", "outcome")
                    require(len(r.outcomes) == 1, f"future of {r.token} completed {len(r.outcomes)} times")
                    got.add(o[1].args[0])
                require(len(got) <= 1, f"futures of one graph fail with different exceptions {got}", "outcome")
            for r in c.recs:
                if r.kind == "task":
                    L.check_own_outcome(r)
        return Case(failures > 0 and sibling > 0, ["failure"] if failures else [])


CHECKS = [
    Check("failures", plans, execute, 1300, 40000,
          "1-2 clients request graphs in which any nodes raise, next to other graphs and tasks, and use the deployment afterwards; "
          "non-trivial: a graph failed that also has nodes that do not"),
    Check("scheduler", lambda: SG.plans(("Success", "Success", "Failed", "Failed", "Failed", "Canceled", "NotFound")), SG.execute, 1200, 50000, SG.RULE),
]
