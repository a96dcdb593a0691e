"""C05 disconnecting a client fails its futures and withdraws only its work"""
import pickle
from collections import Counter
from collections import defaultdict

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import graphs as G
from .. import schedsim as S
from .. import simlib as L
from ..schedsim import M

TECHNIQUE = "random multi-client histories with disconnections at any moment (Hypothesis) against complete deployments and against the scheduler alone in a simulator; oracle: per-future outcome, wire history, execution log, reference model of the scheduler"
LEVEL_NOTE = "Exploration: seeded random histories under a simulated network and clock; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful", "a client disconnects through disconnect()",
               "an outcome that arrives in the moment of disconnecting may still win over the disconnect error"]
PROMPT = 0.5


# ---- complete deployments
def plans():
    op = st.one_of(L.submit_op(("ok", "ok", "raise")), L.submit_op(("ok", "raise"), durs=[3, 4, 5, 6]), L.burst_op(), L.burst_op(), L.sleep_op(), L.wait_op(),
                   G.graph_op(("ok", "ok", "big", "raise"), size=6, big=False), G.graph_op(("ok", "ok"), size=5, big=False),
                   st.tuples(st.just("u"), st.integers(0, 12), st.integers(1, 3)).map(list))
    tail = st.lists(st.one_of(L.submit_op(), L.sleep_op(), G.graph_op(("ok",), size=2, big=False)), max_size=3)
    leaving = st.tuples(st.lists(op, min_size=1, max_size=6), tail).map(lambda t: [*t[0], ["d"], *t[1]])
    quick = st.tuples(st.lists(op, min_size=1, max_size=3), st.integers(0, 4), tail).map(lambda t: [*t[0], ["z", t[1]], ["d"], *t[2]])
    d = st.sampled_from([0, 0, 4, 8])
    client = st.fixed_dictionaries({"d": d, "ops": st.one_of(leaving, quick)})
    other = st.fixed_dictionaries({"d": d, "ops": st.lists(op, min_size=1, max_size=6)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2),
        "cl": st.tuples(client, st.lists(st.one_of(other, client), max_size=2)).map(lambda t: [t[0], *t[1]]),
        "qs": st.sampled_from([1000, 1000, 1, 2]), "lb": st.sampled_from([1, 0]), "lbt": st.sampled_from([1, 2])})


class Client(G.GraphRun):
    def do(self, op):
        if op[0] == "u":
            # the user cancels futures; what was not accepted yet need not run
            for i in range(op[2]):
                r = self.recs[(op[1] + i) % len(self.recs)] if self.recs else None
                if r is not None and r.fut.cancel():
                    self.cancelled.setdefault(r.token, self.world.k.now)
            return
        if op[0] == "d" and self.disconnected_at is None:
            self.before = {r.token: L.outcome(r) for r in self.recs}
        super().do(op)

    @property
    def cancelled(self):
        return self.__dict__.setdefault("_cancelled", {})


def execute(plan):
    with L.System(plan, client_class=Client) as s:
        s.start(dict(per_worker_queue_size=plan["qs"], load_balance_seconds=plan["lb"], load_balance_trigger_times=plan["lbt"]))
        for c in s.clients:
            c.at_exit = linger
        s.run(s.all_done, t=300)
        s.no_crash()
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 4)
        s.no_crash()
        starts = s.starts()
        failed = 0
        for c in s.clients:
            entries = {id(e) for e in c.graphs}
            for r in c.recs:
                o = L.outcome(r)
                gone = o[0] == "exc" and type(o[1]).__name__ == "ScaledDisconnect"
                require(len(r.outcomes) == 1, f"future of {r.token} completed {len(r.outcomes)} times")
                if r.token in c.cancelled:
                    require(o == ("cancelled",), f"{r.token} was cancelled by the user at t={c.cancelled[r.token]:.4f} and ended as {o!r}", "user-cancel")
                    continue
                if c.disconnected_at is None:
                    require(not gone, f"{r.token} of a connected client failed with the disconnect error", "others")
                else:
                    late = r.done_t - max(c.disconnected_at, r.t)
                    require(late <= PROMPT, f"{r.token} was resolved {late:.3f} s after its client disconnected", "prompt")
                    old = c.before.get(r.token, ("pending",))
                    if old[0] != "pending":
                        require(o == old, f"{r.token} was {old} and is {o} after the disconnection", "kept")
                    if r.t >= c.disconnected_at and late > 0.2:
                        raise Violation(f"{r.token}, submitted after the disconnection, failed only after {late:.3f} s", "prompt")
                failed += gone
                if gone:
                    continue
                if r.kind == "task":
                    L.check_own_outcome(r)
            for e in c.graphs:
                check_graph(e, c.cancelled)
        # on the wire
        learned = {}  # task -> when the scheduler learned that it is withdrawn
        owner = {}
        node_of = defaultdict(list)
        tok = {}
        for t, d, peer, m in L.sched_events(s):
            if d == "in":
                if isinstance(m, M.Task):
                    owner[m.task_id] = peer
                    tok[m.task_id] = token(m)
                elif isinstance(m, M.GraphTask):
                    for x in m.graph:
                        owner[x.task_id] = peer
                        node_of[m.task_id].append(x.task_id)
                        tok[x.task_id] = token(x)
                elif isinstance(m, M.TaskCancel):
                    require(owner.get(m.task_id, peer) == peer, f"{peer} withdraws a task of another client")
                    learned[m.task_id] = t
                elif isinstance(m, M.GraphTaskCancel):
                    for x in node_of[m.task_id]:
                        learned[x] = t
            elif isinstance(m, M.Task):
                require(m.task_id not in learned, f"t={t:.4f}: task {tok.get(m.task_id)} is handed out, the scheduler learned at t={learned.get(m.task_id, 0):.4f} that its client left", "started")
        stopped = {}
        withdrawn = 0
        for t, kind, sock, frames in s.world.wire:
            if kind == "pop" and sock.type == L.DEALER and sock.proc.kind == "Worker":
                m = L.W.decode(frames)
                if isinstance(m, M.TaskCancel):
                    stopped[sock.proc, tok.get(m.task_id)] = t
                    require(m.task_id in learned or not any(c.disconnected_at is None and owner.get(m.task_id) in [x.identity for x in c.proc.sockets] for c in s.clients) or failed_graph(s, tok.get(m.task_id)),
                            f"task {tok.get(m.task_id)} of a connected client is cancelled", "others")
        for (w, tk), t in stopped.items():
            for t0, pid in starts.get(tk, ()):
                if any(p.pid == pid for p in w.children):
                    require(t0 <= t + 0.01, f"{tk} started at t={t0:.4f} on a worker that was told at t={t:.4f} to cancel it", "started")
        # nothing starts once the word had the time to get around
        slack = 0.4 + 2 * max([L.LAT[i] for i in plan["lat"]] + [0.001])
        for c in s.clients:
            if c.disconnected_at is not None:
                for tk in [r.token for r in c.recs if r.kind == "task"] + [x for e in c.graphs for x in e["toks"]]:
                    for t0, pid in starts.get(tk, ()):
                        require(t0 <= c.disconnected_at + slack, f"{tk} started at t={t0:.4f}, its client left at t={c.disconnected_at:.4f}", "not-withdrawn")
        user = 0
        live = {c.index for c in s.clients if c.disconnected_at is None}
        for c in s.clients:
            if c.index in live:
                for r in c.recs:
                    if r.kind == "task" and r.token in c.cancelled:
                        user += 1
                        for t0, pid in starts.get(r.token, ()):
                            require(t0 <= c.cancelled[r.token] + 2.0 + 4 * slack, f"{r.token} started at t={t0:.4f}, the user cancelled it at t={c.cancelled[r.token]:.4f} before it was accepted", "user-cancel")
                    elif r.kind == "task":
                        require(len(starts.get(r.token, ())) == 1, f"task {r.token} of a connected client was executed {len(starts.get(r.token, ()))} times", "others")
        withdrawn = sum(1 for x in learned if tok.get(x) not in starts)
        return Case(failed > 0, [x for x, y in (("failed", failed), ("withdrawn", withdrawn), ("others", live), ("user-cancel", user)) if y])


def failed_graph(s, tk):
    """nodes of a graph that has failed are cancelled"""
    for c in s.clients:
        for e in c.graphs:
            if tk in e["toks"]:
                return bool(G.local(e["g"])[1])
    return False


def token(task):
    try:
        return pickle.loads(task.function_args[0].data)
    except Exception:
        return None


def check_graph(e, cancelled):
    """the futures of a graph tell local values, the failure of a node, or that the client left"""
    vals, failed = G.local(e["g"])
    for r in e["recs"]:
        o = L.outcome(r)
        if r.token in cancelled:
            continue
        if o[0] == "exc" and type(o[1]).__name__ == "ScaledDisconnect":
            continue
        if failed:
            require(o[0] == "exc" and type(o[1]).__name__ == "TaskError", f"{r.token} has outcome {o!r}, a node of its graph fails", "graph")
        else:
            want = vals[r.extra[1]]
            require(o[0] == "value" and L.deep_equal(o[1], want), f"{r.token} has outcome {str(o)[:200]}, local evaluation gives {str(want)[:200]}", "graph")


def linger(run):
    import time

    time.sleep(400)


# ---- scheduler alone
def sched_plans():
    sub = S.op_submit()
    res = S.op_result(("Success", "Success", "Failed"))
    leave = st.tuples(st.just("leave"), st.integers(0, 2)).map(list)
    rush = st.tuples(st.just("rush"), st.integers(0, 2), st.integers(0, 2), st.integers(1, 5),
                     st.lists(st.tuples(st.integers(0, 2), st.lists(st.integers(0, 5), max_size=2)).map(list), max_size=4)).map(list)
    hold = st.tuples(st.just("hold"), st.integers(0, 3), st.booleans()).map(list)
    ops = [sub, sub, sub, res, res, S.op_worker(), S.op_disconnect(), S.op_silent(), S.op_graph(), S.op_chains(("Failed",), False), S.op_finish(("Success", "Success", "Failed")), S.op_graph(), leave, leave, rush, hold, S.op_late(),
           S.gap(), S.gap()]
    return S.plan(ops, qs=(1000, 1000, 1, 2), lb=(1, 0), lbt=(1, 2), wt=(3, 60), size=30)


class Run(S.SchedRun):
    left = ()

    def client(self, i):
        """a client that left comes back as another one"""
        while i in self.gone:
            i += 3
        return super().client(i)

    gone = None

    def execute(self):
        self.gone = set()
        self.pos = {}
        return super().execute()

    def other(self, op):
        if op[0] == "hold":
            w = self.workers.get(op[1])
            if w:
                w.auto_cancel = op[2]
            return
        if op[0] == "rush":
            c = self.client(op[1])
            for _ in range(op[3]):
                c.submit(op[2])
            if op[4]:
                c.graph(op[4])
        c = self.client(op[1])
        i = next(k for k, v in self.clients.items() if v is c)
        self.gone.add(i)
        for x in c.tasks:
            if not c.results[x] and c.echo[x][-1:] not in ([M.TaskEchoStatus.NoWorker],):
                c.peer.send(S.W_frames(M.TaskCancel(x)))
        for x in c.graphs:
            if not c.graph_results[x]:
                c.peer.send(S.W_frames(M.GraphTaskCancel(x)))


def sched_execute(plan):
    with Run(plan) as s:
        s.execute()
        s.settle(1.0)
        s.drain(120)
        s.settle(1.5)
        withdrawn = {}
        owner = {}
        cancelled = waiting = 0
        told = Counter()
        for (t, d, peer, msg), m in s.history():
            if d == "in":
                if isinstance(msg, M.Task):
                    owner.setdefault(msg.task_id, peer)
                elif isinstance(msg, M.GraphTask):
                    for x in msg.graph:
                        owner[x.task_id] = peer
                        withdrawn.pop(x.task_id, None)
                    owner[msg.task_id] = peer
                elif isinstance(msg, M.TaskCancel):
                    withdrawn.setdefault(msg.task_id, t)
                    waiting += msg.task_id in m.waiting
                elif isinstance(msg, M.GraphTaskCancel):
                    for c in s.clients.values():
                        if msg.task_id in c.graphs:
                            for x in nodes(s, msg.task_id):
                                withdrawn.setdefault(x, t)
            elif d == "out":
                if isinstance(msg, M.Task):
                    require(msg.task_id not in withdrawn, f"t={t:.4f}: task {msg.task_id} is handed to {peer}, its client withdrew it at t={withdrawn.get(msg.task_id, 0):.4f}", "started")
                elif isinstance(msg, M.TaskCancel):
                    cancelled += 1
                    tid = msg.task_id
                    told[tid] += 1
                    ok = tid in withdrawn or tid in m.canceling
                    require(ok, f"t={t:.4f}: {peer} is told to cancel {tid} of {owner.get(tid)} which nobody withdrew", "others")
        m = s.model
        left = {s.clients[i].ident for i in s.gone}
        for tid, n in m.accepted.items():
            f = [x.name for x in m.finals[tid]]
            require(len(f) == n, f"task {tid} was accepted {n} times and has outcomes {f}", "lost")
            if tid not in withdrawn and M.TaskStatus.Canceling not in m.transitions[tid] and "Canceled" in f and tid in {x for c in s.clients.values() for x in c.tasks}:
                raise Violation(f"task {tid} of {owner.get(tid)} was cancelled although nobody withdrew it", "others")
        for c in s.clients.values():
            if c.ident in left:
                continue
            for x in c.tasks:
                if x in m.accepted:
                    require([r.status for r in c.results[x]] == m.finals[x], f"client {c.ident} got {[r.status.name for r in c.results[x]]} for {x}, which ended as {[y.name for y in m.finals[x]]}", "outcome")
            for x in c.graphs:
                require(len(c.graph_results[x]) == 1, f"client {c.ident} got {c.graph_results[x]} for graph {x}", "graph")
        return Case(bool(withdrawn) and (cancelled > 0 or waiting > 0), [x for x, y in (("waiting", waiting), ("running", cancelled)) if y])


def nodes(s, gid):
    for t, kind, sock, frames in s.world.wire:
        if kind == "pop" and sock.type == S.ROUTER and len(frames) > 2:
            m = L.W.decode(frames[1:])
            if isinstance(m, M.GraphTask) and m.task_id == gid:
                return [x.task_id for x in m.graph]
    return []


CHECKS = [
    Check("deployments", plans, execute, 900, 30000,
          "1-3 clients with tasks and graphs of which at least one disconnects at a random moment (and keeps submitting); non-trivial: some "
          "future failed with the disconnect error"),
    Check("scheduler", sched_plans, sched_execute, 1200, 40000,
          "scripted clients withdraw everything they have, also in the same breath as submitting it; workers answer cancellation at once or not; "
          "non-trivial: a waiting or running task was withdrawn"),
]
