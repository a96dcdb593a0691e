"""C03 exactly-once execution and delivery to the right future"""
from collections import Counter

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from ..simlib import *  # noqa
from .. import simlib as L

TECHNIQUE = "random multi-client histories with load balancing (Hypothesis) in a deterministic simulator; oracle: execution log and wire history"
LEVEL_NOTE = "Exploration: seeded random schedules of the real components under a simulated network, clock and process layer; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful", "no worker loss, no cancellation, no disconnection before the results"]


def plans():
    op = st.one_of(submit_op(("ok", "ok", "raise")), burst_op(("ok", "ok", "raise")), burst_op(), sleep_op(), wait_op())
    heavy = st.tuples(st.just("b"), st.integers(0, 3), st.sampled_from([4, 4, 5, 3]), st.just("ok"), st.integers(6, 14)).map(list)
    ops = st.one_of(st.lists(op, min_size=1, max_size=8),
                    st.tuples(heavy, st.lists(op, max_size=6)).map(lambda t: [t[0], *t[1]]))
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8, 10]), "ops": ops})
    first = worker_plan()
    late = st.fixed_dictionaries({"d": st.sampled_from([0, 8, 10, 11, 12, 13]), "tick": st.sampled_from([0, 0, 1, 2, 3]),
                                  "spawn": st.sampled_from([0, 0, 1, 2, 3])})
    return st.fixed_dictionaries({
        **net_plan(),
        "wk": st.tuples(first, st.lists(late, max_size=2)).map(lambda t: [t[0], *t[1]]),
        "cl": st.lists(client, min_size=1, max_size=3),
        "qs": st.sampled_from([1000, 1000, 1, 2, 5]),
        "lbt": st.sampled_from([1, 2, 1, 3]),
        "lb": st.sampled_from([1, 1, 0]),
    })


def execute(plan):
    with System(plan) as s:
        s.start(dict(per_worker_queue_size=plan["qs"], load_balance_trigger_times=plan["lbt"], load_balance_seconds=plan["lb"]))
        s.run(s.all_done, t=400)
        s.no_crash()
        recs = s.recs()
        if not s.all_done():
            raise Violation(describe_pending(recs), "hang")
        s.run(None, t=3)  # anything that arrives a second time arrives now
        s.no_crash()
        starts = s.starts()
        for r in recs:
            check_own_outcome(r)
            n = len(starts.get(r.token, ()))
            require(n == 1, f"task {r.token} was executed {n} times without any worker loss", "executions")
            require(len(r.outcomes) == 1, f"future of {r.token} completed {len(r.outcomes)} times")
        require(set(starts) == {r.token for r in recs}, f"unknown executions {set(starts) - {r.token for r in recs}}")
        # each outcome crosses to its own client once
        got = Counter()
        for t, proc, m in client_results(s):
            if isinstance(m, M.TaskResult):
                got[m.task_id] += 1
        require(all(v == 1 for v in got.values()), f"outcomes delivered more than once: {[(k.hex(), v) for k, v in got.items() if v > 1]}")
        owner = {}
        moved = 0
        for t, d, peer, m in sched_events(s):
            if d == "in" and isinstance(m, M.Task):
                owner.setdefault(m.task_id, peer)
            elif d != "in" and isinstance(m, M.TaskResult):
                require(d == "out" and owner.get(m.task_id) == peer, f"outcome of a task of {owner.get(m.task_id)} was sent to {peer}")
            elif d == "in" and isinstance(m, M.BalanceResponse):
                moved += len(m.task_ids)
        labels = []
        if moved:
            labels.append("moved")
        names = Counter(r.fn for r in recs)
        shared = len(plan["cl"]) > 1 and len({(r.client, r.fn) for r in recs}) > len(names)
        if shared:
            labels.append("shared-function")
        return Case(bool(moved or shared) and len(recs) >= 3, labels)


CHECKS = [Check("histories", plans, execute, 1400, 50000,
                "1-3 clients submitting bursts to 1-3 workers of which some join late, balancing on or off; non-trivial: a "
                "queued task was moved between workers, or several clients used the same function")]
