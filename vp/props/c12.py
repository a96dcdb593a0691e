"""C12 malformed traffic is dropped"""
from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import schedsim as S
from .. import simlib as L
from ..schedsim import M
from .c15 import GraphClient
from .c15 import expected

TECHNIQUE = "structured fuzzing of frames (Hypothesis) injected into every connection of simulated deployments while valid work runs; oracle: outcomes and executions of the valid work"
LEVEL_NOTE = "Exploration: seeded random frames at random moments under a simulated network; trusts that simulator. A hang or crash of any component is a violation."
ASSUMPTIONS = ["simulated environment is faithful",
               "frames that form a valid message with a meaning (a heartbeat, a cancellation or result of a known task, a disconnect of a known worker) are not malformed"]

KINDS = [t.name for t in M.MessageType]
hexes = st.one_of(
    st.binary(max_size=12), st.binary(max_size=3),
    st.sampled_from([b"", b"OK", b"NE", b"S", b"F", b"I", b"X", b"C", b"A", b"R", b"D", b"T", b"N", b"SK", b"NW", b"DC", b"FN", b"zz-id-1", b"zz-id-2",
                     b"\0\0\0\0", b"\1\0\0\0", b"\2\0\0\0", b"\xff\xff\xff\xff", b"\0\0\xc0\x7f", b"\xff" * 8, b"\0" * 51, b"x" * 300])).map(bytes.hex)


def noise():
    raw = st.tuples(st.just("raw"), st.lists(hexes, max_size=4))
    typed = st.tuples(st.just("typed"), st.sampled_from(KINDS), st.lists(hexes, max_size=7))
    built = st.tuples(st.just("built"), st.integers(0, 40), st.integers(0, 3))
    cut = st.tuples(st.just("cut"), st.integers(0, 200), st.integers(0, 6), hexes)
    return st.one_of(raw, typed, typed, built, built, cut).map(list)


def unknown(i, n):
    """messages about things nobody knows, of every kind, some not meant for the receiver"""
    a, b = b"zz-id-%d" % n, b"zz-fn-%d" % n
    A, T = M.Argument, M.ArgumentType
    t = M.Task(a, b, [A(T.Data, b"junk")])
    table = [
        M.TaskEcho(a, M.TaskEchoStatus.SubmitOK), M.TaskEcho(a, M.TaskEchoStatus.NoWorker), M.TaskEcho(a, M.TaskEchoStatus.FunctionNotExists),
        M.TaskEcho(a, M.TaskEchoStatus.CancelOK), M.TaskCancel(a),
        M.TaskResult(a, M.TaskStatus.Success, 0.0, b""), M.TaskResult(a, M.TaskStatus.Running, 0.0, b"junk"),
        M.TaskResult(a, M.TaskStatus.Canceled, 0.0, b"junk"), M.TaskResult(a, M.TaskStatus.NotFound, 0.0, b"junk"),
        M.GraphTask(a, {}, [b"zz-x"], [t]), M.GraphTask(a, {b: (b"n", b"c")}, [b"zz-x"], [t]), M.GraphTask(a, {b: (b"n", b"c")}, [a], [t, t]),
        M.GraphTask(a, {b: (b"n", b"c")}, [a], [M.Task(a, b, [A(T.Task, a)])]),
        M.GraphTask(a, {b: (b"n", b"c")}, [a], [M.Task(a, b, [A(T.Task, b"zz-none")])]),
        M.GraphTask(a, {b: (b"n", b"c")}, [a], [M.Task(a, b, [A(T.Task, b"zz-2")]), M.Task(b"zz-2", b, [A(T.Task, a)])]),
        M.GraphTaskEcho(a, M.TaskEchoStatus.NoWorker), M.GraphTaskCancel(a), M.GraphTaskCancelEcho(a, M.TaskEchoStatus.CancelOK),
        M.GraphTaskResult(a, M.TaskStatus.Success, []), M.GraphTaskResult(a, M.TaskStatus.Failed, [b"junk"]),
        M.BalanceResponse([]), M.BalanceResponse([a, b]), M.HeartbeatEcho(),
        M.FunctionRequest(M.FunctionRequestType.Check, b, b"", b""), M.FunctionRequest(M.FunctionRequestType.Request, b, b"", b""),
        M.FunctionRequest(M.FunctionRequestType.Delete, b, b"", b""), M.FunctionRequest(M.FunctionRequestType.Add, b"zz-fx", b"\xff\xfe", b"junk"),
        M.FunctionResponse(M.FunctionResponseType.OK, b, b"", b""), M.FunctionResponse(M.FunctionResponseType.NotExists, b, b"", b""),
        M.FunctionResponse(M.FunctionResponseType.StillHaveTask, b, b"", b""),
        M.DisconnectRequest(a), M.DisconnectResponse(a), M.WorkerTaskRequest(), M.SchedulerState(b"{"), M.TaskState(a, b, M.TaskStatus.Running),
        M.GraphTaskState(a, b, M.NodeTaskType.Normal, set()), t,
    ]
    return S.W_frames(table[i % len(table)])


def make(n, seen):
    """-> frames; `seen` are valid messages that passed so far (frames without peer identity)"""
    if n[0] == "raw":
        return [bytes.fromhex(x) for x in n[1]] or [b""]
    if n[0] == "typed":
        return [M.MessageType[n[1]].value, *[bytes.fromhex(x) for x in n[2]]]
    if n[0] == "built":
        return unknown(n[1], n[2])
    if not seen:
        return [b"cut"]
    # a valid message that lost its tail or whose field was replaced: kept only if that makes it undecodable
    f = list(seen[n[1] % len(seen)])
    cut = n[2]
    if cut < 3 or len(f) < 2:
        f = f[:1 + cut]
    else:
        f[1 + (cut % max(1, len(f) - 1))] = bytes.fromhex(n[3])
    if len(f) > 1 and S.W.decode(f) is not None:
        return [b"cut", *f]
    return f


def harmless(frames, processor):
    """is it sure that the receiver has to ignore it?"""
    if len(frames) < 2:
        return True
    m = S.W.decode(frames)
    if m is None:
        return True
    if isinstance(m, M.Heartbeat):
        return False
    if processor and isinstance(m, M.Task):
        return False
    if isinstance(m, M.TaskResult) and m.task_id == b"":
        return False
    return True


# ---- scheduler alone
def plans():
    sub = S.op_submit()
    inj = st.tuples(st.just("n"), st.sampled_from(["x", "x", "c", "w"]), st.integers(0, 2), noise()).map(list)
    ops = [sub, sub, inj, inj, inj, inj, S.op_result(("Success", "Failed")), S.op_worker(), S.op_graph(), S.op_chains(("Failed",), False), S.op_finish(("Success", "Success", "Failed")), S.op_cancel(), S.gap()]
    return S.plan(ops, qs=(1000, 1, 2), size=40)


class Run(S.SchedRun):
    strangers = None
    injected = 0

    def other(self, op):
        if self.strangers is None:
            self.strangers = {}
        seen = [f[1:] for t, k, sock, f in self.world.wire if k == "pop" and sock.type == S.ROUTER and f[0] in self.known]
        frames = make(op[3], seen)
        if not harmless(frames, False):
            return
        who, i = op[1], op[2]
        if who == "c":
            p = self.client(i).peer
        elif who == "w" and i in self.workers and self.workers[i].alive:
            p = self.workers[i].peer
        else:
            if i not in self.strangers:
                self.strangers[i] = self.world.peer([b"stranger", b"\xff\xfe", b"\x00bin"][i])
            p = self.strangers[i]
        self.injected += 1
        p.send(frames)

    @property
    def known(self):
        return {c.ident for c in self.clients.values()} | {w.ident for w in self.workers.values()}


def execute(plan):
    with Run(plan) as s:
        s.execute()
        s.settle(1.5)
        s.drain(200)
        s.settle(1.5)
        for _ in s.history():
            pass
        m = s.model
        total = 0
        for c in s.clients.values():
            for tid in c.tasks:
                total += 1
                echo = [x.name for x in c.echo[tid]]
                require(echo == ["SubmitOK"], f"task {tid} of {c.ident} was answered {echo}", "echo")
                res = [x.status.name for x in c.results[tid]]
                require(len(res) == 1, f"task {tid} of {c.ident} has results {res}, waiting={tid in m.waiting} at={m.at.get(tid)}", "result")
                want = [x.name for x in m.finals[tid]]
                require(res == want, f"task {tid} of {c.ident} ended as {want} and is reported as {res}", "result")
            for gid in c.graphs:
                total += 1
                res = c.graph_results[gid]
                require(len(res) == 1, f"graph {gid} of {c.ident} has {len(res)} results", "graph")
        pubs = [t for t, kind, sock, f in s.world.wire if kind == "pub" and f[0] == M.MessageType.SchedulerState.value]
        require(pubs and s.k.now - pubs[-1] < 1.3, "the scheduler stopped publishing its state", "silent")
        return Case(s.injected >= 2 and total >= 1, ["tasks"] if total else [])


# ---- complete deployments
def system_plans():
    op = st.one_of(L.submit_op(("ok", "raise")), L.burst_op(), L.sleep_op(), L.wait_op(),
                   st.tuples(st.just("g"), st.lists(st.lists(st.integers(0, 4), max_size=3), min_size=1, max_size=4)).map(list))
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4]), "ops": st.lists(op, min_size=1, max_size=8)})
    inj = st.tuples(st.sampled_from(["agent", "client", "proc", "up", "sched", "proc-up"]), st.integers(0, 3),
                    st.sampled_from([0.0003, 0.01, 0.05, 0.2, 0.5, 1.1]), noise()).map(list)
    known = st.tuples(st.sampled_from(["known"]), st.integers(0, 60), st.sampled_from([0.0003, 0.01, 0.05, 0.2]), st.integers(0, 9)).map(list)
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2), "cl": st.lists(client, min_size=1, max_size=2),
        "qs": st.sampled_from([1000, 1]), "inj": S.oplist(st.one_of(inj, inj, known), 20)})


def inject(s, op, stranger):
    """returns True if something was injected"""
    k = s.k
    router = k.endpoints.get(L.ADDRESS)
    if router is None:
        return False
    seen = [f[1:] for t, kd, sock, f in s.world.wire if sock.type == L.ROUTER and kd in ("pop", "send")]
    dealers = [p for p in router.peers.values() if not p.closed and p.connector.proc is not None]
    if op[0] == "known":
        return inject_known(s, op, dealers)
    frames = make(op[3], seen)
    if not harmless(frames, op[0].startswith("proc")):
        return False
    if op[0] in ("agent", "client"):
        l = [p for p in dealers if (p.connector.proc.kind == "Worker") == (op[0] == "agent")]
        if not l:
            return False
        l[op[1] % len(l)].down.put(frames)
        return True
    if op[0] == "up":
        if not dealers:
            return False
        dealers[op[1] % len(dealers)].up.put(frames)
        return True
    if op[0] == "sched":
        stranger.send(frames)
        return True
    pairs = [x for w in s.workers for x in w.sockets if x.type == L.PAIR and x.pair_pipe is not None and not x.pair_pipe.closed]
    if not pairs:
        return False
    pipe = pairs[op[1] % len(pairs)].pair_pipe
    (pipe.down if op[0] == "proc" else pipe.up).put(frames)
    return True


def inject_known(s, op, dealers):
    """states the receiver does not know what to do with, about real work"""
    ids = []
    for t, kd, sock, f in s.world.wire:
        if sock.type == L.ROUTER and kd == "pop":
            m = L.W.decode(f[1:])
            if isinstance(m, (M.Task, M.GraphTask, M.FunctionRequest)):
                ids.append((f[0], m))
    if not ids:
        return False
    ident, m = ids[op[1] % len(ids)]
    pipe = s.k.endpoints[L.ADDRESS].peers.get(ident)
    if pipe is None:
        return False
    v = op[3]
    T, E = M.TaskStatus, M.TaskEchoStatus
    if isinstance(m, M.Task):
        msg = [M.TaskResult(m.task_id, T.Running, 0.0, b""), M.TaskResult(m.task_id, T.Inactive, 0.0, b"junk"), M.TaskResult(m.task_id, T.Canceling, 0.0, b""),
               M.TaskEcho(m.task_id, E.CancelOK), M.TaskEcho(m.task_id, E.CancelFailed), M.TaskEcho(m.task_id, E.Duplicated)][v % 6]
    elif isinstance(m, M.GraphTask):
        msg = [M.GraphTaskResult(m.task_id, T.Running, [b"x"]), M.GraphTaskResult(m.task_id, T.Success, [b"x"] * (len(m.targets) + 1 + v)),
               M.GraphTaskResult(m.task_id, T.Failed, []), M.GraphTaskEcho(m.task_id, E.CancelOK), M.GraphTaskEcho(m.task_id, E.SubmitOK)][v % 5]
    elif isinstance(m, M.FunctionRequest):
        msg = [M.FunctionResponse(M.FunctionResponseType.NotExists, m.function_id, b"", b""),
               M.FunctionResponse(M.FunctionResponseType.StillHaveTask, m.function_id, b"", b"")][v % 2 or m.type == M.FunctionRequestType.Request]
    pipe.down.put(S.W_frames(msg))
    return True


def system_execute(plan):
    with L.System(plan, client_class=GraphClient) as s:
        s.start(dict(per_worker_queue_size=plan["qs"]))
        stranger = s.world.peer(b"\xff\x00stranger")
        n = 0
        for op in plan["inj"]:
            s.run(None, op[2])
            n += inject(s, op, stranger)
        s.run(s.all_done, t=200)
        s.run(None, 2)
        s.no_crash()
        for p in [s.sched, *s.workers]:
            require(not p.exited, f"{p} ended", "crash")
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        starts = s.starts()
        for r in s.recs():
            if r.kind == "task":
                L.check_own_outcome(r)
            else:
                o = L.outcome(r)
                require(o == ("value", expected(r)), f"graph node {r.token} has outcome {o!r}, expected {expected(r)!r}", "graph")
            c = len(starts.get(r.token, ()))
            require(c == 1, f"{r.token} was executed {c} times", "executions")
        return Case(n >= 2 and len(s.recs()) >= 1, [f"to-{x}" for x in sorted({op[0] for op in plan["inj"]})])


CHECKS = [
    Check("scheduler", plans, execute, 1800, 60000,
          "histories of valid work in which random, truncated, altered, unexpected and unknown frames arrive from strangers, clients and "
          "workers; non-trivial: at least two injected frames and one valid task or graph"),
    Check("deployments", system_plans, system_execute, 700, 25000,
          "complete deployments with frames injected into agents, processors, clients and the scheduler; non-trivial: at least two "
          "injected frames and one valid submission"),
]
