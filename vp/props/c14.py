"""C14 load balancing"""
from collections import defaultdict

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import schedsim as S
from .. import simlib as L
from ..schedsim import M

TECHNIQUE = "random histories (Hypothesis) against the real scheduler with scripted workers and against complete deployments in a simulator; oracle: reference model of loads fed by the wire, execution log"
LEVEL_NOTE = "Exploration: seeded random histories under a simulated network and clock; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful",
               "checks happen once per configured interval, so a state that lasts for the configured number of intervals plus one second is noticed"]


def plans():
    sub, res = S.op_submit(most=9), S.op_result()
    # the surplus of one and the same worker changes
    grown = st.tuples(st.integers(2, 3), st.integers(0, 2), st.sampled_from([5, 8, 9])).map(
        lambda t: [["x", 1], ["x", 2], ["x", 3], ["h", 0], ["m", 0, 0], ["t", 0, t[1], t[2]], ["h", 1], ["h", t[0]], ["z", 9], ["t", 0, t[1], 1], ["z", 9]])
    ops = [grown, sub, sub, res, res, S.op_worker(), S.op_worker(), S.op_disconnect(), S.op_cancel(), S.op_late(), S.gap(), S.gap(), st.just(["z", 9]), st.just(["z", 9]), st.just(["z", 8]),
           st.tuples(st.just("m"), st.integers(0, 3), st.integers(0, 1)).map(list)]
    return S.plan(ops, qs=(1000, 1000, 5), lb=(1, 1, 2, 3, 0, -1), lbt=(1, 2, 3), size=30)


def advice_check(events, lb, lbt, model, end):
    """walk the events; returns (number of requests, number of states that had to be noticed)"""
    m = model
    advice = {}
    since = 0.0
    last_fired = None  # a request for this state is not repeated until a check saw another state
    asked = 0
    due = 0
    fired = False  # a request was sent for the current state
    batch_t, batch = None, {}
    slack = 1.0 + 0.01 * lb * lbt + 0.3

    def fresh():
        return advice != last_fired

    def close_batch():
        nonlocal asked, fired, batch_t
        if batch_t is None:
            return
        want = batch_advice
        loads = batch_loads
        require(want, f"asked {batch} back at t={batch_t:.4f} although the load is {loads}", "needless")
        require(batch == want, f"asked {batch} back at t={batch_t:.4f}, loads {loads}: the surplus over the mean is {want}", "surplus")
        asked += 1
        batch_t = None

    batch_advice = batch_loads = None
    for e in events:
        t, d, peer, msg = e
        m.now = t
        if batch_t is not None and not (d == "out" and isinstance(msg, M.BalanceRequest)):
            close_batch()
        if lb > 0 and advice and not fired and fresh() and t - since > lb * lbt + slack:
            loads = {w.decode(): len(m.load[w]) for w in m.workers}
            raise Violation(f"loads {loads} since t={since:.4f}, nothing was asked back until t={t:.4f} (check every {lb} s, "
                            f"{lbt} times)", "missing")
        if d == "out" and isinstance(msg, M.BalanceRequest):
            require(lb > 0, f"tasks were asked back at t={t:.4f} although balancing is disabled", "disabled")
            require(msg.number_of_tasks > 0, f"asked {peer} for {msg.number_of_tasks} tasks")
            if batch_t is None:
                batch_t, batch_advice = t, m.advice()
                batch_loads = {w: len(m.load[w]) for w in m.workers}
                batch = {}
                if advice and not fired and fresh():
                    due += 1
                # a second request would take more than the surplus once both are answered
                require(not fired or batch_advice != advice, f"asked for {batch_advice} again at t={t:.4f} although nothing changed since the last request", "again")
                fired = True
                last_fired = advice
            require(peer not in batch, f"{peer} was asked twice at once")
            batch[peer] = msg.number_of_tasks
        m.apply(*e)
        new = m.advice()
        if new != advice:
            if advice != last_fired and t - since >= lb + slack:
                last_fired = None
            advice, since, fired = new, t, False
    close_batch()
    return asked, due


def execute(plan):
    with S.SchedRun(plan) as s:
        s.execute()
        s.settle(3.0)
        m = s.model = S.Model(plan["wt"])
        asked, due = advice_check(S.events(s.world), plan["lb"], plan["lbt"], m, s.k.now)
        s.drain(60)
        for _ in s.history():
            pass
        for tid in s.model.accepted:
            n = len(s.model.finals[tid])
            require(n == s.model.accepted[tid], f"task {tid} has {n} outcomes: waiting={tid in s.model.waiting} at={s.model.at.get(tid)}", "lost")
        labels = []
        if asked:
            labels.append("asked")
        if due:
            labels.append("due")
        if plan["lb"] <= 0:
            labels.append("disabled")
        moved = any(e[1] == "in" and isinstance(e[3], M.BalanceResponse) and e[3].task_ids for e in S.events(s.world))
        if moved:
            labels.append("moved")
        return Case(bool(asked) or plan["lb"] <= 0, labels)


# ---- answers that come late
def answer_plans():
    sub, res = S.op_submit(most=9), S.op_result()
    mute, ans = S.ops_answer()[2:]
    # a worker that was asked falls silent, its tasks go elsewhere, and then it answers
    late = st.tuples(st.integers(0, 1), st.integers(0, 2), st.sampled_from([8, 8, 7, 9]), st.integers(0, 1)).map(
        lambda t: [["m", t[0], 0], ["t", 0, t[1], 9], ["h", 2 + t[3]], ["z", 7], ["q", t[0]], ["z", t[2]], ["ab", t[0], 0]])
    ops = [sub, sub, res, S.op_worker(), S.op_silent(), S.op_disconnect(), S.op_cancel(), mute, mute, ans, ans, S.gap(), late, late, late, late]
    return S.plan(ops, qs=(1000, 1000, 5), lb=(1,), lbt=(1, 2), wt=(2, 3), size=16)


def answer_execute(plan):
    with S.SchedRun(plan) as s:
        s.execute()
        s.settle(1.0)
        s.drain(100)
        s.settle(1.5)
        back = stale = 0
        for (t, d, peer, msg), m in s.history():
            if d == "in" and isinstance(msg, M.BalanceResponse):
                for x in msg.task_ids:
                    back += m.at.get(x) == peer
                    stale += x in m.at and m.at[x] != peer
            elif d == "out" and isinstance(msg, M.Task):
                tid = msg.task_id
                at = m.at.get(tid)
                require(tid in m.waiting or at is None or at not in m.workers or m.silent(at),
                        f"t={t:.4f}: task {tid} is moved to {peer} although {at}, which has it, did not give it back", "moved")
                require(tid in m.waiting or at is not None, f"t={t:.4f}: task {tid} is given to {peer}, it had ended as {[x.name for x in m.finals[tid]]}", "ended")
        m = s.model
        for tid, n in m.accepted.items():
            require(len(m.finals[tid]) == n, f"task {tid} has {len(m.finals[tid])} outcomes: waiting={tid in m.waiting} at={m.at.get(tid)}", "lost")
        return Case(back + stale > 0, [x for x, y in (("given-back", back), ("stale", stale)) if y])


# ---- complete deployments
def system_plans():
    heavy = st.tuples(st.just("b"), st.integers(0, 3), st.sampled_from([4, 5, 5, 3, 6]), st.just("ok"), st.integers(4, 14)).map(list)
    op = st.one_of(heavy, L.submit_op(("ok", "raise"), durs=[0, 2, 3, 4, 5]), L.sleep_op())
    late = st.fixed_dictionaries({"d": st.sampled_from([8, 10, 11, 12, 13, 0]), "tick": st.sampled_from([0, 0, 1, 2]),
                                  "spawn": st.sampled_from([0, 1, 2])})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.tuples(L.worker_plan(), st.lists(late, min_size=1, max_size=2)).map(lambda t: [t[0], *t[1]]),
        "cl": st.lists(st.fixed_dictionaries({"d": st.sampled_from([0, 4]), "ops": st.tuples(heavy, st.lists(op, max_size=4)).map(lambda t: [t[0], *t[1]])}),
                       min_size=1, max_size=2),
        "lb": st.sampled_from([1, 1, 2, 0]), "lbt": st.sampled_from([1, 2, 3]), "hb": st.sampled_from([1, 2])})


def system_execute(plan):
    with L.System(plan) as s:
        s.start(dict(load_balance_seconds=plan["lb"], load_balance_trigger_times=plan["lbt"]),
                worker_cfg=dict(heartbeat_interval_seconds=plan["hb"]))
        s.run(s.all_done, t=400)
        s.no_crash()
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 2)
        s.no_crash()
        starts = s.starts()
        for r in s.recs():
            L.check_own_outcome(r)
            n = len(starts.get(r.token, ()))
            require(n == 1, f"task {r.token} was executed {n} times", "executions")
        # a worker never gives back a task it handed to its processor, and gives back what it was asked for
        given = defaultdict(set)
        got = defaultdict(set)
        asked = {}
        moved = 0
        for t, kind, sock, frames in s.world.wire:
            m = L.W.decode(frames) if sock.type != L.ROUTER else None
            if kind == "pop" and sock.type == L.DEALER and isinstance(m, M.BalanceRequest):
                asked[sock.proc.pid] = m.number_of_tasks
            elif kind == "pop" and sock.type == L.DEALER and isinstance(m, M.Task):
                got[sock.proc.pid].add(m.task_id)
            elif kind == "send" and sock.type != L.ROUTER and sock.type != L.DEALER and isinstance(m, M.Task):
                given[sock.proc.pid].add(m.task_id)
            elif kind == "send" and sock.type == L.DEALER and isinstance(m, M.BalanceResponse):
                bad = [x for x in m.task_ids if x in given[sock.proc.pid]]
                require(not bad, f"{sock.proc} gives back {bad} which its processor already has", "executing")
                n = asked.pop(sock.proc.pid, None)
                require(n is not None and len(m.task_ids) <= n, f"{sock.proc} was asked for {n} tasks and gives back {len(m.task_ids)}", "amount")
                queued = len(got[sock.proc.pid] - given[sock.proc.pid])
                require(len(m.task_ids) >= min(n, queued - 1), f"{sock.proc} was asked for {n} tasks, has {queued} queued and gives back {len(m.task_ids)}", "amount")
                got[sock.proc.pid] -= set(m.task_ids)
                moved += len(m.task_ids)
        m = S.Model(60)
        n_asked, due = advice_check(S.events(s.world), plan["lb"], plan["lbt"], m, s.k.now)
        return Case(moved > 0, [x for x, y in (("moved", moved), ("asked", n_asked)) if y])


CHECKS = [
    Check("scheduler", plans, execute, 2400, 80000,
          "histories of bursts, results, workers joining and leaving and answering or ignoring requests; non-trivial: tasks were asked "
          "back, or balancing is disabled"),
    Check("wide", lambda: S.wide_plan(qs=(1000, 1000, 5), lb=(1, 1, 2), lbt=(1, 2)), execute, 70, 1500,
          "20 to 500 workers that join, leave and finish in turns; non-trivial: tasks were asked back"),
    Check("answers", answer_plans, answer_execute, 900, 30000,
          "scripted workers that answer requests late, also after they were given up and their tasks went to others; non-trivial: tasks were named in an answer"),
    Check("deployments", system_plans, system_execute, 500, 15000,
          "complete deployments in which workers join a loaded one; non-trivial: queued tasks were moved"),
]
