"""C04 tasks of a lost worker are completed by others"""
import pickle
from collections import Counter
from collections import defaultdict

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import graphs as G
from .. import schedsim as S
from .. import simlib as L
from ..schedsim import M

TECHNIQUE = "random histories and complete deployments with workers that die, leave or fall silent at any moment (Hypothesis) in a simulator; oracle: reference model of the assignment fed by the wire, own outcome per future, execution log"
LEVEL_NOTE = "Exploration: seeded random histories under a simulated network, clock and process layer; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful", "some worker remains or arrives later",
               "task bodies may run more than once when their worker is lost before the scheduler has the outcome"]


# ---- scheduler with scripted workers
def plans():
    sub = S.op_submit()
    res = S.op_result(("Success", "Success", "Failed"))
    bulk = st.tuples(st.just("t"), st.integers(0, 2), st.integers(0, 2), st.sampled_from([20, 60, 130, 300, 600])).map(list)
    ops = [sub, sub, sub, res, res, S.op_worker(), S.op_disconnect(), S.op_silent(), S.op_silent(), S.op_graph(), S.op_chains(("Failed",)), S.op_finish(("Success", "Success", "Failed")), S.op_late(),
           S.op_cancel(), S.gap(), S.gap(), *S.ops_answer()[2:], st.tuples(st.just("k"), st.integers(0, 3)).map(list)]
    small = S.plan(ops, qs=(1000, 1000, 1, 2, 3), mt=(-1,), lb=(1, 0), lbt=(1, 2), wt=(2, 3, 4), size=40)
    large = S.plan([*ops, bulk, bulk], qs=(1000, 1000, 400, 50), mt=(-1,), lb=(1, 0), lbt=(1, 2), wt=(2, 3), size=14)
    return st.one_of(small, small, small, small, small, small, large)


def execute(plan):
    with S.SchedRun(plan) as s:
        s.execute()
        s.settle(1.0)
        s.drain(200)
        s.settle(1.5)
        lost_tasks = again = 0
        payload = {}
        expect = defaultdict(list)
        for (t, d, peer, msg), m in s.history():
            before = {w: set(m.load[w]) for w in m.workers} if isinstance(msg, M.DisconnectRequest) else None
            if before and msg.worker in before:
                lost_tasks += len(before[msg.worker])
            if d == "in" and isinstance(msg, M.TaskResult) and msg.status in S.FINAL and msg.task_id in m.at:
                expect[msg.task_id].append((msg.status, bytes(msg.result)))
            elif d == "out" and isinstance(msg, M.Task):
                tid = msg.task_id
                if tid in m.finals and tid not in m.waiting:
                    raise Violation(f"t={t:.4f}: task {tid} was handed to {peer} although it had ended as {[x.name for x in m.finals[tid]]}", "rerun")
                require(peer in m.workers, f"t={t:.4f}: task {tid} was handed to {peer} which had left", "to-lost")
                at = m.at.get(tid)
                require(tid in m.waiting or at is None or at not in m.workers or m.silent(at),
                        f"t={t:.4f}: task {tid} was handed to {peer} while it is at {at}, which is still there and did not give it back", "twice")
                again += M.TaskStatus.Running in m.transitions[tid]
        m = s.model
        lost_tasks += len(m.expired)
        for tid, n in m.accepted.items():
            require(len(m.finals[tid]) == n, f"task {tid} was accepted {n} times and has {len(m.finals[tid])} outcomes "
                    f"(transitions {[x.name for x in m.transitions[tid]]})", "lost")
        mine = {tid: c for c in s.clients.values() for tid in c.tasks}
        for tid, c in mine.items():
            got = [(r.status, bytes(r.result)) for r in c.results[tid]]
            if tid not in m.accepted:
                continue
            require(len(got) == m.accepted[tid], f"task {tid} was accepted {m.accepted[tid]} times, its client got {len(got)} outcomes: {got}", "outcomes")
            for st_, p in got:
                if st_ == M.TaskStatus.Canceled:
                    continue
                require((st_, p) in expect[tid], f"client got {st_.name} {p} for {tid}; the workers reported {expect[tid]}", "content")
        big = max([len(x) for x in [w.seen for w in s.workers.values()]], default=0)
        return Case(again > 0, [x for x, y in (("moved", again), ("given-up", m.expired), ("left-with-tasks", lost_tasks), (">256 tasks at a worker", big > 256)) if y])


# ---- complete deployments
LOSS = ["kill", "kill", "term", "stall", "agent", "int", "slow"]


def system_plans():
    op = st.one_of(L.submit_op(("ok", "raise")), L.submit_op(("ok", "raise")), L.burst_op(("ok", "raise")), L.sleep_op(), L.wait_op(),
                   G.graph_op(("ok", "ok", "big"), size=6, big=False))
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8]), "ops": st.lists(op, min_size=1, max_size=6)})
    loss = st.tuples(st.sampled_from(LOSS), st.integers(0, 3), st.sampled_from([4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 1, 2])).map(list)
    new = st.tuples(st.just("new"), st.integers(0, 3), st.sampled_from([0, 4, 8])).map(list)
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=3), "cl": st.lists(client, min_size=1, max_size=2),
        "faults": st.lists(st.one_of(loss, loss, loss, new), min_size=1, max_size=4), "qs": st.sampled_from([1000, 1, 2]),
        "wt": st.sampled_from([3, 4]), "stall": st.sampled_from([1.0, 4.5, 7.0, 13.0]), "lb": st.sampled_from([1, 0]),
        "fr": st.sampled_from([20, 20, 1, 2]), "wr": st.sampled_from([20, 20, 1]), "late": st.sampled_from([0, 4, 12]),
    })


def same_worker(s):
    """a worker that gets a task again while it still runs or holds it doesn't execute it twice"""
    got = defaultdict(list)
    for t, kind, sock, frames in s.world.wire:
        if kind == "pop" and sock.type == L.DEALER and sock.proc.kind == "Worker":
            m = L.W.decode(frames)
            if isinstance(m, M.Task) and m.function_args and m.function_args[0].type == M.ArgumentType.Data:
                got[sock.proc.pid, pickle.loads(m.function_args[0].data)].append(t)
    worker = {p.pid: w.pid for w in s.workers for p in w.children}
    runs = defaultdict(list)
    for kind, t, pid, tok in s.k.log:
        if kind in ("start", "end") and pid in worker:
            runs[worker[pid], tok].append((kind, t))
    several = False
    for key, r in runs.items():
        several |= len(got[key]) > 1
        for (k1, t1), (k2, t2) in zip(r, r[1:]):
            if (k1, k2) == ("end", "start") and got[key]:
                require(any(t1 <= t for t in got[key]), f"worker {key[0]} executed {key[1]} until t={t1:.4f} and again from t={t2:.4f}; it got it at {got[key]}", "rerun")
    return ["sent-again-to-same"] if several else []


def system_execute(plan):
    with L.System(plan, client_class=G.GraphRun) as s:
        k = s.k
        s.start(dict(per_worker_queue_size=plan["qs"], worker_timeout_seconds=plan["wt"], load_balance_seconds=plan["lb"], function_retention_seconds=plan["fr"]),
                worker_cfg=dict(heartbeat_interval_seconds=1, function_retention_seconds=plan["wr"]))
        hit = 0
        for kind, i, gap in plan["faults"]:
            s.run(None, L.TIMES[gap])
            if kind == "new":
                s.add_worker({"d": 0, "tick": 0, "spawn": i})
                continue
            w = s.workers[i % len(s.workers)]
            if w.exited or not w.main.os_started:
                continue
            hit += 1
            if kind == "kill":
                k.kill_proc(w, tree=True)
            elif kind == "agent":
                k.kill_proc(w)
            elif kind == "stall":
                for p in [w, *w.children]:
                    p.stalled_until = k.now + plan["stall"]
            elif kind == "slow":
                # the agent is back before its processor
                for p in [w, *w.children]:
                    p.stalled_until = k.now + plan["stall"] + (2 if p is not w else 0)
            else:
                k.send_signal(w.pid, 15 if kind == "term" else 2)
        s.run(None, 1.0)
        if all(w.exited or w.stalled_until > k.now for w in s.workers) or any(f[0] in ("term", "int") for f in plan["faults"]):
            s.add_worker({"d": 0, "tick": 0, "spawn": 0})
        s.run(s.all_done, t=400)
        s.no_crash()
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 3)
        s.no_crash()
        if plan["late"]:
            # those that were stalled are back and as good as the others
            s.run(None, max([0.0, *[w.stalled_until - k.now for w in s.workers if not w.exited]]) + 8)
            s.no_crash()
            s.add_client(len(s.clients), {"d": 0, "ops": [["b", i % 4, 2, "ok", plan["late"]] for i in range(3)]})
            s.run(s.all_done, t=400)
            s.no_crash()
            if not s.all_done():
                raise Violation(f"{sum(not w.exited for w in s.workers)} workers after the losses: " + L.describe_pending(s.recs()), "hang")
        for c in s.clients:
            for e in c.graphs:
                G.check_values(e)
            for r in c.recs:
                if r.kind == "task":
                    L.check_own_outcome(r)
                require(len(r.outcomes) == 1, f"future of {r.token} completed {len(r.outcomes)} times")
        # on the wire: one outcome per task, no task leaves for a worker after its outcome is there
        recorded = {}
        beat, gone, given = {}, {}, {}  # last sign of life of a worker, when it was (perhaps) given up, when it got which task
        sent = Counter()
        results = Counter()
        again = 0
        for t, d, peer, m in L.sched_events(s):
            if d == "in" and isinstance(m, (M.TaskResult, M.Heartbeat)):
                if t - beat.get(peer, t) > plan["wt"]:
                    gone[peer] = t
                if isinstance(m, M.Heartbeat):
                    beat[peer] = t
                elif given.get((peer, m.task_id), t) >= gone.get(peer, 0):
                    # otherwise the worker had been given up before it sent this
                    recorded.setdefault(m.task_id, t)
            elif d == "in" and isinstance(m, M.DisconnectRequest):
                gone[m.worker] = t
            elif d == "out" and isinstance(m, M.Task):
                given[peer, m.task_id] = t
                require(m.task_id not in recorded, f"t={t:.4f}: task {m.task_id.hex()} is handed to {peer} although its outcome came at t={recorded.get(m.task_id, 0):.4f}", "rerun")
                sent[m.task_id] += 1
                again += sent[m.task_id] > 1
            elif d == "out" and isinstance(m, M.TaskResult):
                results[m.task_id] += 1
                require(results[m.task_id] == 1, f"second outcome of {m.task_id.hex()} sent at t={t:.4f}", "outcomes")
        labels = same_worker(s)
        return Case(again > 0, [*labels, *(x for x, y in ((*[(f[0], hit) for f in plan["faults"]], ("moved", again))) if y)])


CHECKS = [
    Check("scheduler", plans, execute, 1500, 60000,
          "scripted workers disconnect, die or fall silent (and come back) holding up to hundreds of tasks; non-trivial: a task was handed out again"),
    Check("deployments", system_plans, system_execute, 700, 25000,
          "complete deployments whose workers are killed, signalled or stalled at random moments while tasks and graphs run; non-trivial: a task was handed out again"),
]
