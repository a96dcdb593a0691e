"""C17 monitoring data agrees with what happened"""
import json
from collections import deque

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import require
from .. import schedsim as S
from ..schedsim import M

TECHNIQUE = "random histories (Hypothesis) of scripted clients and workers against the real scheduler in a simulator; oracle: reference model fed by the wire, compared with every publication"
LEVEL_NOTE = "Exploration: seeded random histories under a simulated network and clock; trusts that simulator and the reference model."
ASSUMPTIONS = ["simulated environment is faithful",
               "a worker silent for longer than the timeout counts as connected until the first sign that it was given up",
               "the load of a client counts its unfinished tasks and its unfinished graph requests"]


def plans():
    sub = S.op_submit(6)
    res = S.op_result(("Success", "Success", "Failed", "Canceled", "NotFound", "Inactive", "Running"))
    ops = [sub, sub, sub, res, res, res, S.op_worker(), S.op_disconnect(), S.op_silent(), S.op_cancel(), S.op_graph(4), S.op_graph_cancel(), S.op_chains(), S.op_finish(("Success", "Failed")),
           S.op_late(), S.op_dup(), S.gap(), S.gap(), S.gap()]
    return S.plan(ops, qs=(1000, 1, 2, 3), mt=(-1, -1, 0, 3), lb=(1, 0, 2), lbt=(1, 2), wt=(60, 2, 4), size=40, fr=(20, 3))


class Run(S.SchedRun):
    def client(self, i):
        # names that are no text differ in the report as well
        c = self.clients.get(i)
        if c is None:
            c = self.clients[i] = S.FakeClient(self, i, [b"client-0", b"client-\xfe", b"client-\xff"][i])
            for f in range(self.functions):
                c.add_function(f)
        return c

    def worker(self, i):
        w = super().worker(i)
        n = len(self.world.wire) % 97
        w.cpu = (n / 100, 1000 + n, n / 50, 5000 + n)
        return w


def compare(doc, m, t, qs, info):
    at = f"at t={t:.4f}"
    tm = doc["task_manager"]
    st_ = M.TaskStatus
    want = {"unassigned": len(m.waiting), "running": len(m.at), "success": m.counts[st_.Success], "failed": m.counts[st_.Failed],
            "canceled": m.counts[st_.Canceled], "not_found": m.counts[st_.NotFound]}
    require(tm == want, f"task counts reported {at}: {tm}, correct: {want}", "tasks")
    ws = {}
    for w in doc["worker_manager"]:
        require(w["worker"] not in ws, f"worker {w['worker']} is listed twice {at}", "workers")
        ws[w["worker"]] = w
    names = {w.decode(errors="backslashreplace"): w for w in m.workers}
    require(set(ws) == set(names), f"workers reported {at}: {sorted(ws)}, connected: {sorted(names)}", "workers")
    for name, ident in names.items():
        r, n = ws[name], len(m.load[ident])
        require(r["sent"] == n and r["free"] == qs - n, f"worker {name} reported {at} with sent={r['sent']} free={r['free']}, correct: {n} and {qs - n}", "sent")
        hb = info[ident]
        got = (r["agt_cpu"], r["agt_rss"], r["cpu"], r["rss"], r["queued"], r["lag"], r["ITL"])
        exp = (hb.agent_cpu, hb.agent_rss, hb.worker_cpu, hb.worker_rss, hb.queued_tasks, hb.latency_us,
               f"{int(hb.initialized)}{int(hb.has_task)}{int(hb.task_lock)}")
        require(got == exp, f"worker {name} reported {at} with {got}, its last heartbeat says {exp}", "heartbeat")
        age = t - m.workers[ident]
        require(abs(r["last"] - age) <= 1.01, f"worker {name} reported {at} as last seen {r['last']} s ago, correct: {age:.3f}", "last")
    require(doc["client_manager"] == m.client_load(), f"client load reported {at}: {doc['client_manager']}, correct: {m.client_load()}", "clients")
    require(doc["function_manager"] == m.function_load(), f"function load reported {at}: {doc['function_manager']}, correct: {m.function_load()}", "functions")
    b = doc["binder"]
    for k, c in (("received", m.received), ("sent", m.sent)):
        got = {x: n for x, n in b[k].items() if n}
        require(got == dict(c), f"messages {k} reported {at}: {got}, correct: {dict(c)}", "messages")


def execute(plan):
    with Run(plan, functions=6) as s:
        s.execute()
        s.settle(1.5)
        s.drain(60)
        s.settle(2.5)
        reports = 0
        busy = 0
        published = {}
        nodes = {}
        info = {}
        for (t, d, peer, msg), m in s.history():
            if d == "in" and isinstance(msg, M.Heartbeat):
                info[peer] = msg
            if d != "pub":
                continue
            if isinstance(msg, M.SchedulerState):
                m._pub(msg)  # which silent workers are given up shows in the report
                doc = json.loads(msg.data)
                compare(doc, m, t, plan["qs"], info)
                reports += 1
                busy += bool(m.waiting or m.at)
            elif isinstance(msg, M.TaskState):
                published.setdefault(msg.task_id, []).append(msg)
            elif isinstance(msg, M.GraphTaskState):
                key = (msg.graph_task_id, msg.task_id)
                require(key not in nodes, f"node {key} is announced twice", "node")
                nodes[key] = msg
        require(reports >= 2, f"only {reports} status reports in {s.k.now:.1f} s", "reports")
        m = s.model
        submitted = {}
        graphs = {}
        for t, kind, sock, frames in s.world.wire:
            if kind == "pop" and sock.type == S.ROUTER:
                x = S.W.decode(frames[1:])
                if isinstance(x, M.Task):
                    submitted.setdefault(x.task_id, x.function_id)
                elif isinstance(x, M.GraphTask):
                    graphs[x.task_id] = x
                    for n in x.graph:
                        submitted.setdefault(n.task_id, n.function_id)
        for tid in set(published) | set(m.transitions):
            got = [x.status.name for x in published.get(tid, [])]
            want = [x.name for x in m.transitions.get(tid, [])]
            require(got == want, f"published states of task {tid}: {got}, its life was: {want}", "states")
            for x in published.get(tid, []):
                f = s.model.fname[submitted[tid]] if tid in submitted else None
                ok = x.function_name == f or plan["fr"] < 20  # a re-uploaded function may have another name
                require(ok, f"state of task {tid} is published with function {x.function_name!r}, correct: {f!r}", "name")
        for gid, g in graphs.items():
            if gid not in m.ended_graphs and gid not in m.graphs:
                continue
            for n in g.graph:
                x = nodes.pop((gid, n.task_id), None)
                require(x is not None, f"node {n.task_id} of graph {gid} is not announced", "node")
                parents = {a.data for a in n.function_args if a.type == M.ArgumentType.Task}
                target = n.task_id in g.targets
                require(x.parent_task_ids == parents and (x.node_task_type == M.NodeTaskType.Target) == target,
                        f"node {n.task_id} is announced as {x}, correct: parents {parents}, target {target}", "node")
        labels = [f"{k.name}" for k, v in m.counts.items() if v]
        if m.expired:
            labels.append("expired")
        if any(x.count(M.TaskStatus.Inactive) > 1 for x in m.transitions.values()):
            labels.append("back-to-waiting")
        return Case(busy >= 2, labels)


# ---- what workers say about themselves
def agent_plans():
    from .c06 import plans as owner_plans

    die = st.tuples(st.just("k"), st.integers(0, 1)).map(list)
    z = st.tuples(st.just("z"), st.sampled_from([8, 10, 11])).map(list)
    extra = st.lists(st.one_of(die, z, st.tuples(st.just("s"), st.integers(0, 3), st.sampled_from([3, 5, 6]), st.just("ok"), st.integers(1, 4)).map(list)), max_size=5)
    return st.tuples(owner_plans(), extra, st.integers(0, 3)).map(lambda t: {**t[0], "own": [*t[0]["own"], *t[1]], "tick": t[2]})


class Agent:
    def __init__(self, proc):
        self.proc = proc
        self.held = set()
        self.inhand = None
        self.ready = None  # the processor that the agent heard of last that it is ready
        self.senders = deque()  # of what it received from processors and didn't look at yet
        self.sent = None
        self.lag = 0


def agent_execute(plan):
    from .. import simlib as L
    from .c06 import Owner

    agents = {}
    seen = {"busy": 0, "queued": 0, "starting": 0, "heartbeats": 0}
    bad = []

    def check(a, hb, now):
        at = f"the heartbeat of {a.proc} at t={now:.4f} says {hb}"
        seen["heartbeats"] += 1
        child = a.proc.children[-1]
        if a.inhand is not None:
            require(hb.has_task, f"{at}: it executes {a.inhand!r}", "has_task")
        if hb.has_task and a.inhand is None:
            # a task is kept for a processor that is still starting, or died meanwhile
            require(a.held and (a.ready != child.pid or child.exited), f"{at}: it executes nothing", "has_task")
        require(hb.task_lock == hb.has_task, f"{at}: task lock and task differ", "task_lock")
        require(hb.queued_tasks == len(a.held) - bool(hb.has_task), f"{at}: it has {len(a.held)} tasks", "queued")
        require(hb.initialized == (a.ready == child.pid), f"{at}: the processor is {'ready' if not hb.initialized else 'not ready'}", "initialized")
        require(hb.agent_rss == a.proc.rss, f"{at}: the agent uses {a.proc.rss} bytes", "rss")
        require(hb.worker_rss == (0 if child.exited else child.rss), f"{at}: the processor uses {child.rss} bytes", "rss")
        require(abs(hb.agent_cpu - a.proc.cpu / 100) < 1e-4, f"{at}: the agent uses {a.proc.cpu} %", "cpu")
        require(abs(hb.worker_cpu - (0 if child.exited else child.cpu / 100)) < 1e-4, f"{at}: the processor uses {child.cpu} %", "cpu")
        require(abs(hb.latency_us - a.lag) <= 3 + 0.02 * a.lag, f"{at}: half the last round trip was {a.lag:.1f} us", "lag")
        seen["busy"] += hb.has_task
        seen["queued"] += hb.queued_tasks > 0
        seen["starting"] += not hb.initialized

    with L.System(plan) as s:
        k = s.k

        def tap(kind, sock, frames):
            p = sock.proc
            if p is None or p.kind != "Worker" or kind not in ("recv", "pop", "send"):
                return
            a = agents.setdefault(p.pid, Agent(p))
            m = S.W.decode(frames)
            if sock.type == L.DEALER:
                if kind == "pop":
                    if isinstance(m, M.Task):
                        a.held.add(m.task_id)
                    elif isinstance(m, M.HeartbeatEcho) and a.sent is not None:
                        a.lag = (k.now - a.sent) / 2 * 1e6
                        a.sent = None
                elif kind == "send" and isinstance(m, M.TaskResult):
                    a.held.discard(m.task_id)
                    if a.inhand == m.task_id:
                        a.inhand = None
                elif isinstance(m, M.BalanceResponse):
                    a.held.difference_update(m.task_ids)
                elif isinstance(m, M.Heartbeat):
                    a.sent = k.now
                    if not bad:
                        from ..core import Violation

                        try:
                            check(a, m, k.now)
                        except Violation as e:
                            bad.append(e)
            elif sock.type == L.PAIR:
                if kind == "recv":
                    a.senders.append(sock.pair_pipe.connector.proc.pid)
                sender = a.senders.popleft() if kind == "pop" else None
                if kind == "send" and isinstance(m, M.Task) and m.task_id in a.held:
                    # otherwise its processor died before it connected, the task has failed already
                    a.inhand = m.task_id
                elif kind == "pop" and isinstance(m, M.TaskResult) and m.task_id == b"":
                    a.ready = sender

        k.taps.append(tap)

        def on_spawn(p):
            p.rss = 10_000_000 + p.pid % 1000 * 4096
            p.cpu = p.pid % 97 * 1.5

        k.on_spawn = on_spawn
        s.start(dict(per_worker_queue_size=plan["qs"], load_balance_seconds=plan["lb"], load_balance_trigger_times=plan["lbt"]))
        for w in s.workers:
            on_spawn(w)
        o = Owner(s)
        for op in plan["own"]:
            if op[0] == "k":
                w = s.workers[op[1] % len(s.workers)]
                if w.children and not w.children[-1].exited:
                    k.kill_proc(w.children[-1], -9)
            else:
                o.do(op)
        s.run(None, 6.0)
        if bad:
            raise bad[0]
        s.no_crash()
        return Case(seen["busy"] > 0 and seen["heartbeats"] >= 3, [x for x, n in seen.items() if n])


CHECKS = [
    Check("reports", plans, execute, 2400, 80000,
                "histories of submissions, graphs, results of every status, cancellations, refusals, workers coming, leaving and "
                "falling silent; non-trivial: at least two reports were made while tasks were unfinished"),
    Check("agents", agent_plans, agent_execute, 500, 20000,
          "heartbeats of real agents compared with what the wire and the process table say at that moment, in histories with queued, executed, "
          "canceled and moved tasks and killed processors; non-trivial: at least three heartbeats, one of them while a task was executed"),
]
