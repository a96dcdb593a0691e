"""C06 a cancelled task gets one final status, and only that task is stopped"""
import pickle
from collections import Counter
from collections import defaultdict

import cloudpickle
from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import schedsim as S
from .. import simlib as L
from .. import userfns as U
from ..schedsim import M

TECHNIQUE = "random cancellations at any moment (Hypothesis) against complete deployments and against the scheduler alone in a simulator; oracle: statuses received by the owner, execution log, reference model of the scheduler"
LEVEL_NOTE = "Exploration: seeded random histories under a simulated network, clock and process layer; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful", "cancellations are sent by a scripted owner (this client library only cancels when it disconnects)",
               "a task that ended while its cancellation was on the way may be reported either way"]
LATE = [0.0, 0.0001, 0.0003, 0.001, 0.004, 0.03]


# ---- real scheduler and workers, a scripted owner and ordinary clients
def plans():
    s = st.tuples(st.just("s"), st.integers(0, 3), st.sampled_from([0, 1, 2, 3, 4, 5, 6]), st.sampled_from(["ok", "ok", "raise"]), st.sampled_from([1, 1, 2, 4])).map(list)
    c = st.tuples(st.just("c"), st.integers(0, 30)).map(list)
    x = st.tuples(st.just("x"), st.integers(0, 30), st.sampled_from(["start", "end", "sent", "ready"]), st.integers(0, 5)).map(list)
    z = st.tuples(st.just("z"), st.sampled_from([1, 2, 3, 4, 5, 6, 8, 9, 10])).map(list)
    k = st.tuples(st.just("k"), st.integers(0, 3), st.integers(0, 6), st.integers(0, 9)).map(list)
    ops = st.lists(st.one_of(s, s, c, x, x, z, k), min_size=2, max_size=14).map(lambda o: [["s", 0, 3, "ok", 1], *o])
    op = st.one_of(L.submit_op(("ok", "raise")), L.burst_op(), L.sleep_op(), L.wait_op())
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8]), "ops": st.lists(op, min_size=1, max_size=4)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2), "own": ops, "cl": st.lists(client, max_size=1),
        "qs": st.sampled_from([1000, 1000, 1, 2]), "lb": st.sampled_from([1, 0]), "lbt": st.sampled_from([1, 2])})


class Owner:
    def __init__(self, s):
        self.s = s
        self.k = s.k
        self.peer = s.world.peer(b"the-owner", self.on)
        self.tasks = []  # (task id, token, dur, out)
        self.cancelled = set()
        self.again = set()  # submitted again
        self.got = defaultdict(list)
        self.messages = {}
        self.ready = 0  # processors that said that they are ready
        s.k.taps.append(self.tap)
        for i in range(len(U.WORK)):
            self.add(i)

    def tap(self, kind, sock, frames):
        if kind == "send" and sock.type == L.PAIR and sock.proc.kind != "Worker":
            m = L.W.decode(frames)
            self.ready += isinstance(m, M.TaskResult) and m.task_id == b""

    def add(self, i):
        self.peer.send(S.W_frames(M.FunctionRequest(M.FunctionRequestType.Add, b"fn%014d" % i, b"work", cloudpickle.dumps(U.WORK[i]))))

    def on(self, frames):
        m = L.W.decode(frames)
        if isinstance(m, M.TaskResult):
            self.got[m.task_id].append((self.k.now, m))
        elif isinstance(m, M.TaskEcho) and m.status == M.TaskEchoStatus.FunctionNotExists:
            # unused for too long
            f, task = self.messages[m.task_id]
            self.add(f)
            self.peer.send(S.W_frames(task))
            self.again.add(m.task_id)
            if m.task_id in self.cancelled:
                self.peer.send(S.W_frames(M.TaskCancel(m.task_id)))

    def submit(self, f, dur, out):
        tid = b"task%012d" % len(self.tasks)
        tok = f"o{len(self.tasks)}"
        self.tasks.append((tid, tok, dur, out))
        args = [M.Argument(M.ArgumentType.Data, pickle.dumps(a)) for a in (tok, dur, out)]
        task = M.Task(tid, b"fn%014d" % f, args)
        self.messages[tid] = f, task
        self.peer.send(S.W_frames(task))

    def cancel(self, i):
        tid = self.tasks[i % len(self.tasks)][0]
        self.cancelled.add(tid)
        self.peer.send(S.W_frames(M.TaskCancel(tid)))

    def do(self, op):
        k, s = self.k, self.s
        if op[0] == "s":
            for _ in range(op[4]):
                self.submit(op[1], L.DURS[op[2]], op[3])
        elif op[0] == "c":
            self.cancel(op[1])
        elif op[0] == "z":
            s.run(None, L.TIMES[op[1]])
        elif op[0] == "k":
            # processors die while nothing is to do, the next task comes before that was noticed
            def idle():
                return s.all_done() and all(self.got[x[0]] for x in self.tasks)

            s.run(idle, t=30)
            if idle():
                for w in s.workers:
                    for p in w.children[-1:]:
                        if not w.exited and p.kind == "Processor":
                            s.k.kill_proc(p)
                self.submit(op[1], L.DURS[op[2]], "ok")
                s.run(None, (0, 0.001, 0.01, 0.05, 0.1, 0.2, 0.5, 1, 2, 3)[op[3]])
                self.cancel(-1)
        elif op[0] == "x":
            tid, tok, *_ = self.tasks[op[1] % len(self.tasks)]
            if op[2] == "sent":
                wire = s.world.wire
                seen = [0]

                def cond():
                    while seen[0] < len(wire):
                        t, kind, sock, frames = wire[seen[0]]
                        seen[0] += 1
                        if sock.type == L.ROUTER and kind == "send" and frames[1] == M.MessageType.Task.value and tid in [bytes(f) for f in frames]:
                            return True
                    return False
            elif op[2] == "ready":
                before = self.ready

                def cond():
                    return self.ready > before
            else:
                def cond():
                    return any(kind == op[2] and tk == tok for kind, t, pid, tk in k.log)
            s.run(cond, 3.0)
            if LATE[op[3]]:
                s.run(None, LATE[op[3]])
            self.cancel(op[1])


def execute(plan):
    with L.System(plan) as s:
        s.start(dict(per_worker_queue_size=plan["qs"], load_balance_seconds=plan["lb"], load_balance_trigger_times=plan["lbt"]))
        o = Owner(s)
        for op in plan["own"]:
            o.do(op)
        s.run(lambda: s.all_done() and all(o.got[x[0]] for x in o.tasks), t=300)
        s.no_crash()
        if not s.all_done():
            raise Violation("of other clients " + L.describe_pending(s.recs()), "hang")
        missing = [x[1] for x in o.tasks if not o.got[x[0]]]
        require(not missing, f"tasks {missing} never got a final status; cancelled were {sorted(o.cancelled)}", "none")
        s.run(None, 3)
        s.no_crash()
        starts, ends = s.starts(), s.ends()
        # when each side learned of the cancellations
        sched, worker = {}, {}
        wproc = {}
        for t, kind, sock, frames in s.world.wire:
            if kind != "pop":
                continue
            if sock.type == L.ROUTER:
                m = L.W.decode(frames[1:])
                if isinstance(m, M.TaskCancel) and (m.task_id not in sched or m.task_id in o.again):
                    sched[m.task_id] = t
            elif sock.type == L.DEALER and sock.proc.kind == "Worker":
                m = L.W.decode(frames)
                if isinstance(m, M.TaskCancel):
                    worker.setdefault(m.task_id, (t, sock.proc))
        slow = max([L.LAT[i] for i in plan["lat"]] + [0.001])
        labels = Counter()
        for tid, tok, dur, out in o.tasks:
            got = [m for _, m in o.got[tid]]
            require(len(got) == 1, f"{tok} got {len(got)} final statuses: {[m.status.name for m in got]}", "several")
            status = got[0].status
            began, done = starts.get(tok, []), ends.get(tok, [])
            require(len(began) <= 1, f"{tok} was executed {len(began)} times", "executions")
            if status == M.TaskStatus.Canceled:
                require(tid in o.cancelled, f"{tok} is reported cancelled, nobody cancelled it", "only-that")
                require(not done or done[0][0] >= sched.get(tid, 0) - 3 * slow - 0.1, f"{tok} is reported cancelled, it had ended at t={done[:1]}, long before the cancellation came at t={sched.get(tid)}", "real")
                where = "waiting"
                if tid in worker:
                    t, w = worker[tid]
                    mine = [x for x in began if any(p.pid == x[1] for p in w.children)]
                    require(not mine or mine[0][0] <= t + 0.01, f"{tok} started at t={mine} after its worker was told at t={t:.4f} to cancel it", "started")
                    where = "running" if mine else "queued"
                    if mine:
                        require(not done or done[0][0] <= t + 0.01, f"{tok}, told to stop at t={t:.4f}, was not interrupted and ended at t={done}", "interrupt")
                else:
                    require(not began or began[0][0] <= sched[tid] + 2 * slow + 0.1, f"{tok} started at t={began}, cancelled at t={sched[tid]:.4f}", "started")
                labels[where] += 1
                continue
            require(status in (M.TaskStatus.Success, M.TaskStatus.Failed), f"{tok} ended as {status.name}", "status")
            require(len(done) == 1, f"{tok} is reported {status.name} and ended {len(done)} times", "executions")
            v = pickle.loads(got[0].result)
            if out == "raise":
                require(status == M.TaskStatus.Failed and type(v) is U.TaskError and v.args == (tok,), f"{tok} ended as {status.name} {v!r}", "real")
            else:
                require(status == M.TaskStatus.Success and v == ("r", tok), f"{tok} ended as {status.name} {v!r}", "real")
            if tid in o.cancelled:
                labels["finished-first"] += 1
                if tid in worker:
                    t, w = worker[tid]
                    require(done[0][0] <= t + 0.01, f"{tok} went on until t={done[0][0]:.4f} although its worker was told at t={t:.4f} to cancel it", "interrupt")
                elif tid in sched:
                    require(done[0][0] <= sched[tid] + 0.01 or tid in worker, f"{tok} was cancelled at t={sched[tid]:.4f}, and ran to its end at t={done[0][0]:.4f}", "ignored")
        for r in s.recs():
            L.check_own_outcome(r)
            n = len(starts.get(r.token, ()))
            require(n == 1, f"task {r.token}, which nobody cancelled, was executed {n} times", "only-that")
        return Case(bool(labels), sorted(labels))


# ---- scheduler alone
def sched_plans():
    sub = S.op_submit()
    res = S.op_result(("Success", "Success", "Failed"))
    hold = st.tuples(st.just("hold"), st.integers(0, 3), st.booleans()).map(list)
    ans = st.tuples(st.just("ans"), st.integers(0, 3), st.integers(0, 5), st.sampled_from([1, 1, 0])).map(list)
    many = st.tuples(st.just("cm"), st.integers(0, 2), st.integers(0, 10), st.integers(2, 6)).map(list)
    ops = [sub, sub, res, S.op_cancel(), S.op_cancel(), many, hold, hold, ans, S.op_worker(), S.op_disconnect(), S.op_silent(), S.op_late(), S.op_dup(),
           S.op_graph(), S.op_chains(("Failed",)), S.op_finish(("Success", "Success", "Failed")), S.op_graph_cancel(), st.tuples(st.just("m"), st.integers(0, 3), st.booleans()).map(list), st.tuples(st.just("k"), st.integers(0, 3)).map(list), S.gap(), S.gap()]
    return S.plan(ops, qs=(1000, 1, 2, 3), lb=(1, 0), lbt=(1, 2), wt=(3, 4), size=40)


class Run(S.SchedRun):
    def other(self, op):
        if op[0] == "cm":
            for i in range(op[3]):
                self.client(op[1]).cancel(op[2] + i)
            return
        w = self.workers.get(op[1])
        if not w or not w.alive:
            return
        if op[0] == "hold":
            w.auto_cancel = op[2]
        elif w.cancels:
            w.answer_cancel(w.cancels.pop(op[2] % len(w.cancels)), op[3])


def sched_execute(plan):
    with Run(plan) as s:
        s.execute()
        s.settle(1.0)
        s.drain(120)
        s.settle(1.5)
        labels = Counter()
        due = None
        asked = set()
        for (t, d, peer, msg), m in s.history():
            if due is not None and d in ("out", "drop"):
                ok = isinstance(msg, M.TaskCancel) and msg.task_id == due[0] and peer == due[1]
                require(ok, f"t={t:.4f}: cancellation of {due[0]} at {due[1]} came, but the scheduler sends {msg} to {peer}", "forward")
                due = None
                continue
            if d == "in":
                require(due is None, f"t={t:.4f}: cancellation of {due} was not passed on", "forward")
                if isinstance(msg, M.TaskCancel):
                    tid = msg.task_id
                    if tid in m.waiting:
                        labels["waiting"] += 1
                        asked.add(tid)
                    elif tid in m.at:
                        labels["running"] += 1
                        asked.add(tid)
                        if m.at[tid] in m.workers:
                            due = (tid, m.at[tid])
                    elif m.finals[tid]:
                        labels["ended"] += 1
            elif d == "out":
                if isinstance(msg, M.Task):
                    tid = msg.task_id
                    require(tid in m.waiting or tid in m.at, f"t={t:.4f}: task {tid} is handed to {peer} but has ended as {[x.name for x in m.finals[tid]]}", "started")
                    require(tid not in m.canceling, f"t={t:.4f}: task {tid} is handed to {peer} although it is being cancelled", "started")
                elif isinstance(msg, M.TaskCancel):
                    require(msg.task_id in m.canceling, f"t={t:.4f}: {peer} is told to cancel {msg.task_id}, which nobody cancelled", "only-that")
        m = s.model
        ours = {x: c for c in s.clients.values() for x in c.tasks}
        for tid, n in m.accepted.items():
            f = m.finals[tid]
            require(len(f) == n, f"task {tid} was accepted {n} times and has outcomes {[x.name for x in f]}", "several" if len(f) > n else "none")
            if tid in ours:
                got = [r.status for r in ours[tid].results[tid]]
                require(got == f, f"owner of {tid} got {[x.name for x in got]}, the task ended as {[x.name for x in f]}", "several")
        return Case(labels["waiting"] + labels["running"] > 0, sorted(labels))


CHECKS = [
    Check("deployments", plans, execute, 1000, 40000,
          "a scripted owner cancels its tasks at random moments or right when they are sent, start or end, on 1-2 real workers shared with an ordinary client; "
          "non-trivial: some task was cancelled while waiting, queued, running or just finished"),
    Check("scheduler", sched_plans, sched_execute, 1600, 60000,
          "cancellations of tasks in every state with workers that answer late, lose the task, give it back or die; non-trivial: a waiting or running task was cancelled"),
]
