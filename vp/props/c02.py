"""C02 every submitted task is eventually resolved; nothing stops serving"""
from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..simlib import *  # noqa
from .. import simlib as L

TECHNIQUE = "random deployments and histories (Hypothesis) in a deterministic virtual-time simulator running the real code"
LEVEL_NOTE = "Exploration: seeded random schedules of the unmodified scheduler, agent, processor and client code under a simulated network, clock and process layer; trusts the simulator's model of zmq, asyncio and multiprocessing."
ASSUMPTIONS = ["simulated environment (vp/sim) is faithful to zmq/asyncio/multiprocessing semantics",
               "user functions terminate; at least one worker stays connected"]


def plans():
    op = st.one_of(submit_op(("ok", "ok", "raise")), burst_op(), sleep_op(), wait_op())
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8, 10]), "ops": st.lists(op, min_size=1, max_size=10)})
    return st.fixed_dictionaries(
        {
            **net_plan(),
            "wk": st.lists(worker_plan(), min_size=1, max_size=3),
            "cl": st.lists(client, min_size=1, max_size=3),
            "qs": st.sampled_from([1000, 1, 2, 3]),
            "lbt": st.sampled_from([2, 1, 3]),
            "lb": st.sampled_from([1, 0]),
        }
    )


def execute(plan):
    with System(plan) as s:
        s.start(dict(per_worker_queue_size=plan["qs"], load_balance_trigger_times=plan["lbt"],
                     load_balance_seconds=plan["lb"]))
        s.run(s.all_done, t=400)
        s.no_crash()
        recs = s.recs()
        if not s.all_done():
            raise Violation(describe_pending(recs), "hang")
        s.run(s.clients_finished, t=5)
        s.no_crash()
        if not s.clients_finished():
            raise Violation("client program does not end although all futures are resolved", "hang")
        for r in recs:
            check_own_outcome(r)
        # still serving afterwards
        labels = [f"clients={len(plan['cl'])}", f"workers={len(plan['wk'])}"]
        sat = len(recs) > plan["qs"] * len(plan["wk"])
        if sat:
            labels.append("saturated")
        if any(w["d"] for w in plan["wk"]):
            labels.append("late-worker")
        return Case(len(recs) >= 3, labels)


class BulkRun(L.ClientRun):
    def do(self, op):
        kind, n = op[0], op[1]
        if kind == "b":
            for _ in range(n):
                self.submit(0, 0.0, "ok")
        elif kind == "m":
            toks = [f"c{self.index}.m{i}" for i in range(n)]
            got = self.client.map(L.U.WORK[0], [(t, 0.0, "ok") for t in toks])
            if got != [("r", t) for t in toks]:
                raise Violation(f"map over {n} tasks gives wrong results", "outcome")
        else:
            base = {"t": f"c{self.index}.g", "z": 0.0, "ok": "ok"}
            g = {f"n{i}": (L.U.WORK[0], "t", "z", "ok") for i in range(n)}
            got = self.client.get({**base, **g}, list(g))
            if got != {k: ("r", f"c{self.index}.g") for k in g}:
                raise Violation(f"graph of {n} nodes gives wrong results", "outcome")


def bulk_plans():
    op = st.tuples(st.sampled_from(["b", "b", "m", "g"]), st.sampled_from([1010, 1100, 1500, 2100])).map(list)
    return st.fixed_dictionaries({
        **net_plan(), "wk": st.lists(worker_plan(), min_size=1, max_size=2),
        "cl": st.lists(st.fixed_dictionaries({"d": st.sampled_from([0, 4]), "ops": st.lists(op, min_size=1, max_size=1)}), min_size=1, max_size=2),
        "qs": st.sampled_from([1000, 5000, 100]), "stall": st.sampled_from([None, "worker", "client", "sched"]), "at": st.integers(0, 12)})


def bulk_execute(plan):
    with System(plan, max_steps=4_000_000, client_class=BulkRun) as s:
        s.start(dict(per_worker_queue_size=plan["qs"]))
        if plan["stall"]:
            p = {"worker": s.workers[0], "client": s.clients[0].proc, "sched": s.sched}[plan["stall"]]
            s.run(None, t=L.TIMES[plan["at"]])
            p.stalled_until = s.k.now + 2.0
        s.run(s.all_done, t=900)
        s.no_crash()
        recs = s.recs()
        if not s.all_done():
            raise Violation(describe_pending(recs) + f" of {[c['ops'] for c in plan['cl']]}", "hang")
        for r in recs:
            check_own_outcome(r)
        starts = s.starts()
        n = sum(len(v) for v in starts.values())
        want = sum(op[1] for c in plan["cl"] for op in c["ops"])
        if n != want:
            raise Violation(f"{want} tasks were submitted, {n} executions started", "executions")
        return Case(True, [plan["stall"] or "no-stall", *[op[0] for c in plan["cl"] for op in c["ops"]]])


CHECKS = [Check("system", plans, execute, 1600, 60000,
                "random deployments (1-3 workers, 1-3 clients, latencies, speeds, queue sizes) run to completion; "
                "non-trivial: at least three tasks"),
          Check("bulk", bulk_plans, bulk_execute, 24, 800,
                "1-2 clients submit 1010-2100 tasks at once (submit, map, one graph), with delays or a process that stands still for 2 s; "
                "more messages are on their way than zmq keeps by default; non-trivial: all")]
