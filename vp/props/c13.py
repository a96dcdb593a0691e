"""C13 capacity, even spreading, no idle slot while tasks wait, one task at a time"""
from collections import defaultdict

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import schedsim as S
from .. import simlib as L
from ..schedsim import M

TECHNIQUE = "random histories (Hypothesis) of scripted workers and clients against the real scheduler in a simulator; oracle: reference model of assignments fed by the wire"
LEVEL_NOTE = "Exploration: seeded random histories of the real scheduler (and, in the second check, of complete deployments) under a simulated network and clock; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful", "a worker counts as connected from its first heartbeat on until the scheduler handles its disconnect request"]


def plans():
    sub, res = S.op_submit(), S.op_result(("Success", "Success", "Failed", "Canceled", "NotFound"))
    ops = [sub, sub, sub, res, res, res, S.op_worker(), S.op_disconnect(), S.op_cancel(), S.op_graph(), S.op_chains(("Failed",)), S.op_finish(("Success", "Success", "Failed")), S.op_graph_cancel(),
           S.op_late(), S.op_dup(), S.gap(), st.just(["s"]), st.just(["s"])]
    return S.plan(ops, qs=(1, 2, 3, 4, 7, 1000), lb=(1, 0, 2), lbt=(1, 2), size=40)


class Run(S.SchedRun):
    def other(self, op):
        self.settle(0.2)


def execute(plan):
    with Run(plan) as s:
        s.execute()
        s.settle(0.5)
        qs = plan["qs"]
        full = chosen = waited = 0
        marks = set(s.settled)
        m = s.model = S.Model(plan["wt"])
        for i, (t, kind, sock, frames) in enumerate(s.world.wire):
            if i in marks:
                waited += _idle(m, qs, t)
            e = next(S.events(_One(s.world.wire[i])), None)
            if e is None:
                continue
            if e[1] == "out" and isinstance(e[3], M.Task):
                w, tid = e[2], e[3].task_id
                require(w in m.workers, f"task {tid} was handed to {w} which is not connected, t={t:.4f}", "connected")
                require(tid in m.waiting, f"task {tid} was handed to {w} although it was not waiting (at {m.at.get(tid)})", "waiting")
                n = len(m.load[w])
                require(n < qs, f"worker {w} already has {n} unfinished tasks of at most {qs} when it is given {tid}, t={t:.4f}", "capacity")
                least = min(len(m.load[x]) for x in m.workers)
                require(n == least, f"task {tid} was handed to {w} with {n} unfinished tasks while the least loaded has {least}: "
                                    f"{({k: len(m.load[k]) for k in m.workers})}", "least")
                chosen += len({len(m.load[x]) for x in m.workers}) > 1
                full += all(len(m.load[x]) + (x == w) >= qs for x in m.workers)
            m.apply(*e)
        waited += _idle(m, qs, s.k.now)
        labels = [x for x, y in (("choice", chosen), ("filled-up", full), ("tasks-waited", waited)) if y]
        return Case(bool(chosen or full), labels)


class _One:
    def __init__(self, rec):
        self.wire = [rec]


def _idle(m, qs, t):
    if m.waiting and m.free_slot(qs):
        raise Violation(f"at rest at t={t:.4f} {len(m.waiting)} tasks wait although there are free slots: "
                        f"{({k: len(m.load[k]) for k in m.workers})}, queue size {qs}", "idle")
    return bool(m.waiting)


# ---- a worker executes one task at a time
def system_plans():
    op = st.one_of(L.submit_op(("ok", "ok", "raise"), durs=[0, 3, 4, 5, 6]),
                   st.tuples(st.just("b"), st.integers(0, 3), st.sampled_from([3, 4, 5]), st.just("ok"), st.integers(2, 6)).map(list),
                   L.sleep_op(), L.sleep_op(), st.just(["d"]))
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8]), "ops": st.lists(op, min_size=1, max_size=8)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2),
        "cl": st.lists(client, min_size=1, max_size=3), "qs": st.sampled_from([1000, 1, 2, 4]), "lb": st.sampled_from([1, 0])})


class _Client(L.ClientRun):
    def do(self, op):
        if self.disconnected_at is not None:
            return
        super().do(op)


def system_execute(plan):
    with L.System(plan, client_class=_Client) as s:
        s.start(dict(per_worker_queue_size=plan["qs"], load_balance_seconds=plan["lb"], load_balance_trigger_times=1))
        s.run(s.all_done, t=300)
        s.run(None, 1.0)
        s.no_crash()
        procs = {p.pid: p for p in s.k.procs.values()} if isinstance(s.k.procs, dict) else {p.pid: p for p in s.k.procs}
        open_ = {}
        spans = defaultdict(list)
        for kind, t, pid, tok in s.k.log:
            if kind == "start":
                open_[pid, tok] = t
            elif kind == "end" and (pid, tok) in open_:
                spans[procs[pid].parent].append((open_.pop((pid, tok)), t, tok))
        cut = 0
        for (pid, tok), t in open_.items():
            p = procs[pid]
            spans[p.parent].append((t, p.exit_time if p.exited else s.k.now, tok))
            cut += p.exited
        n = 0
        for agent, l in spans.items():
            l.sort()
            for a, b in zip(l, l[1:]):
                n += 1
                require(b[0] >= a[1] - 1e-9, f"{agent} executes {a[2]} ({a[0]:.4f}-{a[1]:.4f}) and {b[2]} ({b[0]:.4f}-{b[1]:.4f}) at the same time", "parallel")
        disc = any(c.disconnected_at is not None for c in s.clients)
        return Case(n >= 2, ["interrupted"] if cut else [])


CHECKS = [
    Check("scheduler", plans, execute, 3000, 100000,
          "histories of submissions, results, late and repeated results, cancellations, graphs, workers coming and leaving; "
          "non-trivial: a task had to be placed while loads differ, or all slots were filled"),
    Check("wide", lambda: S.wide_plan(qs=(1, 2, 4, 1000), lb=(1, 0), lbt=(1, 2)), execute, 60, 1500,
          "20 to 500 workers that join, leave and finish in turns; non-trivial: as above"),
    Check("one-at-a-time", system_plans, system_execute, 400, 10000,
          "complete deployments with bursts and clients leaving (which interrupts tasks); non-trivial: a worker executed several tasks"),
]
