"""C25 finished work leaves no residue"""
import json
from concurrent.futures import Future

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import reach
from .. import schedsim as S
from .. import simlib as L
from .. import userfns as U
from ..schedsim import M
from .c15 import GraphClient

TECHNIQUE = "random histories with every way of ending (Hypothesis) against the real scheduler and clients in a simulator; oracle: last status report and the objects reachable from the component"
LEVEL_NOTE = "Exploration: seeded random histories under a simulated network and clock; trusts that simulator; retention is judged by searching the component's reachable objects for the ids of the work."
ASSUMPTIONS = ["simulated environment is faithful"]


def plans():
    sub = S.op_submit(3)
    res = S.op_result(("Success", "Success", "Failed", "Canceled", "NotFound"))
    ops = [sub, sub, res, res, S.op_worker(), S.op_worker(), S.op_disconnect(), S.op_silent(), S.op_cancel(), S.op_graph(3), S.op_graph(3),
           S.op_graph_cancel(), S.op_graph_cancel(), S.op_chains(), S.op_late(), S.op_dup(), S.gap(), S.gap(),
           *S.ops_answer(), st.tuples(st.just("k"), st.integers(0, 3)).map(list)]
    return S.plan(ops, qs=(1000, 1, 2), mt=(-1, -1, 0, 3), lb=(1, 0), lbt=(1, 2), wt=(3, 4), size=40, fr=(3, 5))


def execute(plan):
    with S.SchedRun(plan) as s:
        s.execute()
        s.settle(1.5)
        s.drain(80)
        for _ in range(plan["fr"] + 3):
            s.run(1.0)
        doc = None
        for t, kind, sock, frames in reversed(s.world.wire):
            if kind == "pub":
                m = S.W.decode(frames)
                if isinstance(m, M.SchedulerState):
                    doc = json.loads(m.data)
                    break
        require(doc is not None, "no status report")
        tm = doc["task_manager"]
        require(tm["unassigned"] == 0 and tm["running"] == 0, f"at the end the scheduler still reports tasks: {tm}", "tasks")
        require(not any(w["sent"] for w in doc["worker_manager"]), f"load left on workers: {doc['worker_manager']}", "load")
        require(not any(doc["client_manager"].values()), f"load left on clients: {doc['client_manager']}", "clients")
        require(not any(doc["function_manager"].values()), f"load left on functions: {doc['function_manager']}", "functions")
        for _ in s.history():
            pass
        m = s.model
        ids = {}
        for c in s.clients.values():
            for x in c.tasks:
                ids[x] = "task"
            for x in c.graphs:
                ids[x] = "graph"
        for x in m.transitions:
            ids.setdefault(x, "node")
        for x in m.fname:
            ids[x] = "function"
        for o in reach.reachable(reach.loop_roots(s.sched)):
            if type(o) is bytes and o in ids:
                raise Violation(f"the scheduler still holds {ids[o]} {o} (ended as {[x.name for x in m.transitions.get(o, [])]}) "
                                f"{s.k.now - 0:.1f} s into the run, {plan['fr'] + 3} s after everything had ended", "residue-" + ids[o])
        kinds = {x for v in m.finals.values() for x in v}
        labels = sorted(x.name for x in kinds)
        if m.refused:
            labels.append("refused")
        if m.expired:
            labels.append("expired")
        if m.ended_graphs:
            labels.append("graphs")
        return Case(len(m.finals) >= 3 and (len(kinds) > 1 or bool(m.ended_graphs) or bool(m.refused) or bool(m.expired)), labels)


# ---- clients
def client_plans():
    op = st.one_of(L.submit_op(("ok", "raise")), L.burst_op(("ok", "raise")), L.sleep_op(), L.wait_op(),
                   st.tuples(st.just("g"), st.lists(st.lists(st.integers(0, 4), max_size=3), min_size=1, max_size=4)).map(list),
                   st.tuples(st.just("cf"), st.integers(0, 20)).map(list), st.just(["d"]))
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8]), "ops": st.lists(op, min_size=2, max_size=10)})
    return st.fixed_dictionaries({**L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2),
                                  "cl": st.lists(client, min_size=1, max_size=2), "qs": st.sampled_from([1000, 1, 2]),
                                  "mt": st.sampled_from([-1, 0, 2])})


class Client(GraphClient):
    def do(self, op):
        if op[0] == "cf":
            if self.recs:
                self.recs[op[1] % len(self.recs)].fut.cancel()
            return
        super().do(op)


def client_execute(plan):
    with L.System(plan, client_class=Client) as s:
        s.start(dict(per_worker_queue_size=plan["qs"], max_number_of_tasks_waiting=plan["mt"]))
        for c in s.clients:
            c.spec = {"wait_all": False}
            c.at_exit = _linger
        s.run(s.all_done, t=300)
        s.no_crash()
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 6)
        s.no_crash()
        kinds = set()
        for c in s.clients:
            mine = {id(r.fut): r.token for r in c.recs}
            for r in c.recs:
                kinds.add(L.outcome(r)[0])
            for o in reach.reachable([c.client], ("vp.", "logging", "asyncio", "_thread", "psutil", "enum", "uuid")):
                if isinstance(o, Future) and id(o) in mine:
                    raise Violation(f"client {c.index} still holds the finished future of {mine[id(o)]}", "future")
                if isinstance(o, (M.Task, M.GraphTask)) and c.disconnected_at is None:
                    raise Violation(f"client {c.index} still holds {o} although all its futures are done", "task")
        return Case(len(s.recs()) >= 2, sorted(kinds))


def _linger(run):
    run.world.k  # keep the program alive while it is inspected
    import time

    time.sleep(400)


CHECKS = [
    Check("scheduler", plans, execute, 1600, 60000,
          "histories of tasks and graphs that succeed, fail, are cancelled, refused, lose their worker or their client; non-trivial: at "
          "least three tasks ended in more than one way, or a graph, refusal or worker loss occurred"),
    Check("clients", client_plans, client_execute, 600, 20000,
          "complete deployments with tasks and graphs, user-side cancellation, refusal and disconnection; non-trivial: at least two submissions"),
]
