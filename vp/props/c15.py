"""C15 admission limit"""
from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import schedsim as S
from .. import simlib as L
from .. import userfns as U
from ..schedsim import M

TECHNIQUE = "random histories (Hypothesis) against the real scheduler and complete deployments in a simulator; oracle: reference model of waiting tasks and free slots fed by the wire, outcome and execution log per task"
LEVEL_NOTE = "Exploration: seeded random histories under a simulated network and clock; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful", "a task arrives when the scheduler takes its message from the socket"]


def plans():
    sub, res = S.op_submit(), S.op_result(("Success", "Success", "Failed", "Canceled"))
    ops = [sub, sub, sub, res, res, S.op_worker(), S.op_disconnect(), S.op_cancel(), S.op_graph(), S.op_chains(("Failed",)), S.op_finish(("Success", "Success", "Failed")), S.op_graph_cancel(),
           S.op_late(), S.op_dup(), S.gap()]
    return S.plan(ops, qs=(1, 2, 3, 1000), mt=(0, 1, 2, 5, -1), lb=(1, 0), lbt=(1, 2), size=40)


def execute(plan):
    with S.SchedRun(plan) as s:
        s.execute()
        s.settle(1.0)
        s.drain(60)
        s.settle(1.0)
        refused = at_limit = 0
        qs, mt = plan["qs"], plan["mt"]
        for (t, d, peer, msg), m in s.history():
            if d == "out" and isinstance(msg, M.TaskEcho):
                tid = msg.task_id
                if msg.status not in (M.TaskEchoStatus.SubmitOK, M.TaskEchoStatus.NoWorker):
                    continue
                full = not m.free_slot(qs) and 0 <= mt <= len(m.waiting)
                at_limit += full
                state = (f"t={t:.4f}: {len(m.waiting)} tasks wait (limit {mt}), loads "
                         f"{({k.decode(): len(v) for k, v in m.load.items() if k in m.workers})} of {qs}")
                if msg.status == M.TaskEchoStatus.NoWorker:
                    refused += 1
                    require(full, f"task {tid} was refused although it could be taken, {state}", "refused")
                else:
                    require(not full, f"task {tid} was accepted although it exceeds the limit, {state}", "accepted")
            elif d == "out" and isinstance(msg, M.Task):
                require(msg.task_id in m.accepted, f"task {msg.task_id} was not accepted but handed to {peer}", "ran")
        # accepted tasks are unaffected: each ends
        m = s.model
        for tid in m.accepted:
            n = len(m.finals[tid])
            require(n == m.accepted[tid], f"task {tid} was accepted {m.accepted[tid]} times and has {n} final outcomes, waiting={tid in m.waiting} at={m.at.get(tid)}", "accepted-lost")
        require(mt >= 0 or not refused, "refused without limit")
        return Case(bool(refused or at_limit), [x for x, y in (("refused", refused), ("no-limit", mt < 0)) if y])


# ---- what the user sees
def system_plans():
    op = st.one_of(L.submit_op(("ok", "raise"), durs=[0, 2, 3, 4, 5]), L.burst_op(), L.burst_op(), L.sleep_op(), L.wait_op(),
                   st.tuples(st.just("g"), st.lists(st.lists(st.integers(0, 4), max_size=3), min_size=1, max_size=5)).map(list))
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8]), "ops": st.lists(op, min_size=1, max_size=8)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2),
        "cl": st.lists(client, min_size=1, max_size=3), "qs": st.sampled_from([1, 2, 3]), "mt": st.sampled_from([0, 1, 2, 4, -1])})


class GraphClient(L.ClientRun):
    def other(self, op):
        if op[0] != "g":
            raise AssertionError(op)
        g = {"k": 7}
        toks = []
        for j, deps in enumerate(op[1]):
            tok = f"c{self.index}.{len(self.recs)}.n{j}"
            toks.append(tok)
            g[f"t{j}"] = tok
            g["d"], g["o"] = 0.0, "ok"
            g[f"n{j}"] = (U.node, f"t{j}", "d", "o", "k", *[f"n{x % j}" for x in deps if j])
        names = [f"n{j}" for j in range(len(op[1]))]
        futs = self.client.get(g, names, block=False)
        rec = None
        for j, n in enumerate(names):
            rec = L.Rec(client=self.index, idx=len(self.recs), token=toks[j], fut=futs[n], kind="graph", out="ok",
                        t=self.world.k.now, extra=[toks, op[1], j])
            self.track(rec)


def expected(rec):
    toks, shape, j = rec.extra

    def value(i):
        return (toks[i], (7, *[value(x % i) for x in shape[i] if i]))

    return value(j)


def system_execute(plan):
    with L.System(plan, client_class=GraphClient) as s:
        s.start(dict(per_worker_queue_size=plan["qs"], max_number_of_tasks_waiting=plan["mt"]))
        s.run(s.all_done, t=300)
        s.no_crash()
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 3)
        s.no_crash()
        starts = s.starts()
        refused = 0
        for r in s.recs():
            o = L.outcome(r)
            no = o[0] == "exc" and type(o[1]).__name__ == "ScaledNoWorker"
            n = len(starts.get(r.token, ()))
            require(not no or plan["mt"] >= 0, f"{r.token} was refused without a limit")
            if r.kind == "task":
                if no:
                    refused += 1
                    require(n == 0, f"refused task {r.token} was executed", "ran")
                else:
                    L.check_own_outcome(r)
                    require(n == 1, f"accepted task {r.token} was executed {n} times")
            elif no:
                refused += 1
            else:
                require(o == ("value", expected(r)), f"graph node {r.token} has outcome {o!r}, expected {expected(r)!r}", "graph")
        return Case(refused > 0, ["refused"] if refused else [])


CHECKS = [
    Check("scheduler", plans, execute, 2400, 80000,
          "histories of submissions, graphs, results, cancellations and workers coming and leaving under small limits; "
          "non-trivial: a task arrived at the limit"),
    Check("futures", system_plans, system_execute, 700, 20000,
          "complete deployments with tasks and graphs under small limits; non-trivial: some submission was refused"),
]
