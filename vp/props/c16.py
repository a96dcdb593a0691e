"""C16 function caching and eviction are invisible to tasks"""
from collections import Counter
from collections import defaultdict

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import preempt as P

P.instrument("scaled.worker.agent.processor.cache_cleaner", "scaled.worker.agent.processor.processor")

from .. import schedsim as S
from .. import simlib as L
from .. import userfns as U
from ..schedsim import M

TECHNIQUE = "random submissions of many look-alike functions with idle times around the retention limits (Hypothesis), optional preemption between source lines, in a simulator; oracle: each task's own function, reference model of both caches over the recorded messages"
LEVEL_NOTE = "Exploration: seeded random histories and schedules under a simulated network, clock and thread scheduler; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful", "sweeps happen at least every 1.5 s", "the exchange of one function and one task takes less than the retention time, or time is not what is being judged"]

# idle times; the retention limits are small integers
IDLE = [0.0, 0.01, 0.3, 0.9, 1.0, 1.1, 1.9, 2.05, 2.9, 3.1, 4.0, 5.2, 7.5]
DUR = [0.0, 0.0, 0.003, 0.3, 1.1, 2.5, 4.5, 7.0]
SLACK = 1.7
NF = 5


class Cache:
    """what one holder of functions may still have: evictable `retention` seconds after the last use, gone a sweep later"""

    def __init__(self, retention):
        self.retention = retention
        self.since = {}
        self.tasks = defaultdict(set)

    def use(self, f, now):
        self.since[f] = now

    def must(self, f, now):
        return f in self.since and (bool(self.tasks[f]) or now - self.since[f] <= self.retention)

    def must_not(self, f, now):
        if f not in self.since:
            return True
        return not self.tasks[f] and now - max(self.since[f], self.idle.get(f, 0)) > self.retention + SLACK

    idle = {}


class SchedCache(Cache):
    def __init__(self, retention):
        super().__init__(retention)
        self.idle = {}
        self.of = {}

    def start(self, tid, f, now):
        self.use(f, now)
        self.tasks[f].add(tid)
        self.of[tid] = f

    def end(self, tid, now):
        f = self.of.pop(tid, None)
        if f is not None:
            self.tasks[f].discard(tid)
            self.idle[f] = now

    def drop(self, f):
        self.since.pop(f, None)


def judge_scheduler(history, retention, labels):
    """history: ((t, direction, peer, message), model before the message)"""
    c = SchedCache(retention)
    asked = {}
    told = defaultdict(dict)
    joined = {}
    deleting = set()
    untold = []
    content = {}
    M_ = M.FunctionRequestType

    def gone(f, t, m, what):
        """the function is not there now"""
        known = f in c.since
        since = c.since.get(f)
        _judge(c, f, t, False, what, labels)
        if known:
            for w in m.workers:
                if joined[w] < since + retention:
                    require(told[f].get(w, -1) >= since, f"t={t:.3f}: {what}, and worker {w}, connected since t={joined[w]:.3f}, was not told to drop it", "told")

    def overdue(t, workers):
        for t0, f, w, what in untold:
            if t > t0 + 0.5 and w in workers:
                require(told[f].get(w, -1) >= t0, f"t={t0:.3f}: {what}, and worker {w} was not told to drop it", "told")
        untold[:] = [x for x in untold if t <= x[0] + 0.5]

    at = 0.0
    for (t, d, peer, msg), m in history:
        since, at = at, t  # the model is as the message before left it
        overdue(t, m.workers)
        for (p, f), (kind, t0) in list(asked.items()):
            if t > t0 + 1:
                raise Violation(f"t={t0:.3f}: {p} sends {kind.name} of {f}, no answer until t={t:.3f}", "answer")
        # tasks that use functions now, by the model
        use = dict(m.node_use)
        use.update(m.fid)
        for tid, f in use.items():
            if c.of.get(tid) != f:
                c.start(tid, f, since)
        for tid in [x for x in c.of if x not in use]:
            c.end(tid, since)
        for w in m.workers:
            joined.setdefault(w, since)
        for w in [w for w in joined if w not in m.workers]:
            del joined[w]
        if d == "in" and isinstance(msg, M.GraphTask):
            for f, (name, body) in msg.functions.items():
                content[f] = bytes(body)
        elif d == "in" and isinstance(msg, M.FunctionRequest):
            asked[peer, msg.function_id] = msg.type, t
            if msg.type == M_.Add:
                content[msg.function_id] = bytes(msg.content)
            elif msg.type == M_.Delete:
                deleting.add(msg.function_id)
        elif d in ("out", "drop"):
            if isinstance(msg, M.FunctionResponse):
                f = msg.function_id
                kind, _ = asked.pop((peer, f), (M_.Add, 0))  # every request is answered at once; otherwise it's a function of a graph
                what = f"the scheduler answers {msg.status.name} to {kind.name} of {f}"
                R = M.FunctionResponseType
                expected = {M_.Add: (R.OK, R.Duplicated), M_.Check: (R.OK, R.NotExists), M_.Request: (R.OK, R.NotExists), M_.Delete: (R.OK, R.NotExists, R.StillHaveTask)}
                require(msg.status in expected[kind], f"t={t:.3f}: {what}", "answer")
                has = msg.status == R.Duplicated if kind == M_.Add else msg.status != R.NotExists
                if kind == M_.Delete:
                    deleting.discard(f)
                if has:
                    _judge(c, f, t, True, what, labels)
                else:
                    gone(f, t, m, what)
                if kind == M_.Add:
                    c.use(f, t)
                elif kind == M_.Request and has:
                    require(bytes(msg.content) == content[f], f"t={t:.3f}: {peer} gets {bytes(msg.content)!r} for {f}", "content")
                elif kind == M_.Delete and msg.status == R.OK:
                    require(not c.tasks[f], f"t={t:.3f}: function {f} was deleted on request, unfinished tasks {sorted(c.tasks[f])} need it", "in-use")
                    # the order of the answer and of what the workers are told is free
                    untold.extend((t, f, w, what) for w in m.workers if told[f].get(w, -1) < c.since[f])
                    c.drop(f)
                    labels["deleted"] += 1
                elif kind == M_.Delete and msg.status == R.StillHaveTask:
                    require(c.tasks[f], f"t={t:.3f}: {what}, no unfinished task needs it", "answer")
                    labels["still-used"] += 1
            elif isinstance(msg, M.FunctionRequest):
                f = msg.function_id
                require(not c.tasks[f], f"t={t:.3f}: {peer} is told to drop {f}, unfinished tasks {sorted(c.tasks[f])[:3]} need it", "in-use")
                require(f in deleting or not c.must(f, t), f"t={t:.3f}: {peer} is told to drop {f}, used at t={c.since.get(f, -1):.3f}, retention {retention} s", "early")
                told[f][peer] = t
                labels["told"] += 1
                untold[:] = [x for x in untold if x[1:3] != (f, peer)]
            elif isinstance(msg, M.TaskEcho):
                f = next((x[1].function_id for x in m.candidate.get(msg.task_id, ())), None)
                if f is None or msg.task_id in m.node_graph:
                    continue
                if msg.status == M.TaskEchoStatus.FunctionNotExists:
                    gone(f, t, m, f"task {msg.task_id} of {f} is refused as its function is not known")
                    labels["re-upload"] += 1
                elif msg.status == M.TaskEchoStatus.SubmitOK:
                    _judge(c, f, t, True, f"task {msg.task_id} of {f} is accepted", labels)
                    c.use(f, t)
    return c


def _judge(c, f, t, has, what, labels):
    if has:
        require(not c.must_not(f, t), f"t={t:.3f}: {what}, but it is unused since t={max(c.since.get(f, -1), c.idle.get(f, 0)):.3f} "
                f"(retention {c.retention} s) and must have been dropped", "kept")
    else:
        require(not c.must(f, t), f"t={t:.3f}: {what}, but it was last used at t={c.since.get(f, -1):.3f} (retention {c.retention} s), "
                f"unfinished tasks that need it: {sorted(c.tasks[f])[:3]}", "early")
        if f in c.since:
            labels["evicted"] += 1
        c.drop(f)


# ---- complete deployments
def plans():
    sub = st.tuples(st.just("f"), st.integers(0, NF - 1), st.integers(0, len(DUR) - 1), st.sampled_from([1, 1, 1, 2, 5]), st.booleans()).map(list)
    idle = st.tuples(st.just("i"), st.integers(1, len(IDLE) - 1)).map(list)
    graph = st.tuples(st.just("g"), st.lists(st.integers(0, NF - 1), min_size=1, max_size=4)).map(list)
    op = st.one_of(sub, sub, idle, idle, graph, L.wait_op())
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8]), "ops": S.oplist(op, 12)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2), "cl": st.lists(client, min_size=1, max_size=2),
        "kinds": st.lists(st.integers(0, len(U.LOOKALIKE) - 1), min_size=NF, max_size=NF),
        "fr": st.sampled_from([3, 1, 2, 5]), "wr": st.sampled_from([2, 1, 3, 20, 0]), "qs": st.sampled_from([1000, 1, 2]),
        "slow": st.lists(st.tuples(st.sampled_from(SLOW_KINDS), st.integers(0, 6), st.integers(0, len(SLOW) - 1)).map(list), max_size=3),
        "pre": st.one_of(st.just(P.NONE), P.strategy(40, 20))})


SLOW_KINDS = ["Task", "FunctionRequest", "FunctionResponse", "TaskEcho", "GraphTask"]
SLOW = [1.3, 2.4, 3.6, 5.5]


def slow_links(k, slow):
    """the n-th message of a kind takes long"""
    if not slow:
        return
    base = k.latency
    seen = Counter()

    def latency(chan, frames):
        d = base(chan, frames)
        if isinstance(frames, (list, tuple)) and frames:
            for kind, n, delay in slow:
                if bytes(frames[0]) == getattr(M.MessageType, kind).value and getattr(getattr(chan.pipe.connector, "proc", None), "kind", "").startswith("client"):
                    if seen[kind, n, delay] == n:
                        d += SLOW[delay]
                    seen[kind, n, delay] += 1
        return d

    k.latency = latency


class Client(L.ClientRun):
    def fn(self, i, fresh):
        cache = self.__dict__.setdefault("cache", {})
        if fresh or i not in cache:
            cache[i] = U.LOOKALIKE[self.kinds[i]](f"f{i}")
        return cache[i]

    @property
    def kinds(self):
        return self.spec["kinds"]

    def do(self, op):
        import time

        if op[0] == "f":
            for _ in range(op[3]):
                tok = self.token()
                fut = self.client.submit(self.fn(op[1], op[4]), tok, DUR[op[2]])
                self.track(L.Rec(client=self.index, token=tok, fut=fut, kind="task", fn=f"f{op[1]}", t=self.world.k.now))
        elif op[0] == "i":
            time.sleep(IDLE[op[1]])
        elif op[0] == "g":
            g = {}
            keys = []
            toks = {}
            for j, i in enumerate(op[1]):
                tok = f"{self.token()}g{j}"
                g[f"c{j}"] = tok
                g[f"n{j}"] = (self.fn(i, False), f"c{j}")
                keys.append(f"n{j}")
                toks[f"n{j}"] = (tok, f"f{i}")
            for key, fut in self.client.get(g, keys, block=False).items():
                tok, f = toks[key]
                self.track(L.Rec(client=self.index, token=tok, fut=fut, kind="node", fn=f, t=self.world.k.now))
        else:
            super().do(op)


def execute(plan):
    if plan["fr"] == 1:
        # the retention time has to be longer than a round trip
        plan = {**plan, "lat": [min(i, 7) for i in plan["lat"]]}
    with P.Preempt(plan["pre"], lambda p: p.kind == "Processor") as pre, L.System(plan, client_class=Client) as s:
        slow_links(s.k, plan["slow"])
        s.start(dict(per_worker_queue_size=plan["qs"], function_retention_seconds=plan["fr"]), worker_cfg=dict(function_retention_seconds=plan["wr"]))
        for c in s.clients:
            c.spec = {"kinds": plan["kinds"], "wait_timeout": 20}
        s.run(s.all_done, t=300)
        s.no_crash()
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        ran = defaultdict(list)
        for kind, t, pid, x in s.k.log:
            if kind == "ran":
                ran[x[1]].append(x[0])
        for r in s.recs():
            o = L.outcome(r)
            require(o == ("value", (r.fn, r.token)), f"{r.kind} {r.token} of function {r.fn} has outcome {o!r}", "outcome")
            require(ran[r.token] == [r.fn], f"{r.kind} {r.token} of function {r.fn} was executed by {ran[r.token]}", "outcome")
        labels = Counter()
        m = S.Model(60)
        s.model = m

        def history():
            for e in S.events(s.world):
                m.now = e[0]
                yield e, m
                m.apply(*e)

        judge_scheduler(history(), plan["fr"], labels)
        labels.update(judge_processors(s, plan["wr"], pre.spent))
        if pre.switched:
            labels["preempted"] += 1
        return Case(bool(labels["evicted"] or labels["asked-again"] or labels["late"]), sorted(labels))


def judge_processors(s, retention, spent):
    """what every processor received and asked for, in its own order"""
    labels = Counter()
    caches = {}
    asked = {}
    started = {}
    told = {}  # when the agent was told to drop a function
    for t, kind, sock, frames in s.world.wire:
        if kind == "pop" and sock.type == L.DEALER and sock.proc.kind == "Worker":
            msg = L.W.decode(frames)
            if isinstance(msg, M.FunctionRequest):
                told[sock.proc.pid, msg.function_id] = t
        if sock.type != L.PAIR or sock.proc.kind != "Processor" or kind not in ("recv", "pop", "send"):
            continue
        p = sock.proc
        msg = L.W.decode(frames)
        c = caches.setdefault(p.pid, {})
        if kind == "send":
            if isinstance(msg, M.FunctionRequest):
                f = msg.function_id
                if f in c:
                    require(spent or t - c[f][0] > retention, f"t={t:.3f}: processor {p.pid} asks for {f} again, a task began to use it at t={c[f][0]:.3f}, retention {retention} s", "worker-early")
                    labels["asked-again"] += 1
            elif isinstance(msg, M.TaskResult) and msg.task_id:
                f = asked.pop((p.pid, msg.task_id), None)
                if f is not None:
                    c[f] = [started.pop((p.pid, msg.task_id)), t]
        elif kind == "pop":
            if isinstance(msg, M.Task):
                f = msg.function_id
                asked[p.pid, msg.task_id] = f
                started[p.pid, msg.task_id] = t
                # it has to be asked for again if it was idle for long
                late = f in c and t - c[f][1] > retention + SLACK + spent
                when = told.get((p.parent.pid, f), -1)
                if f in c and c[f][1] < when:
                    nxt = _next_send(s, sock, t)
                    require(isinstance(nxt, M.FunctionRequest), f"t={t:.3f}: processor {p.pid} still has {f}, unused since t={c[f][1]:.3f}; its agent was told to drop it at t={when:.3f}", "worker-kept")
                if late:
                    labels["late"] += 1
                    nxt = _next_send(s, sock, t)
                    require(isinstance(nxt, M.FunctionRequest), f"t={t:.3f}: processor {p.pid} still has {f}, unused since t={c[f][1]:.3f}, retention {retention} s", "worker-kept")
            elif isinstance(msg, M.FunctionRequest):
                c.pop(msg.function_id, None)
    return labels


def _next_send(s, sock, t):
    for t2, kind, k2, frames in s.world.wire:
        if k2 is sock and kind == "send" and t2 >= t:
            m = L.W.decode(frames)
            if isinstance(m, M.TaskResult) and not m.task_id:
                continue
            return m
    return None


# ---- scheduler alone
def sched_plans():
    which = st.integers(0, 3)
    fn = st.integers(0, 2)
    ops = [S.op_submit(), S.op_submit(most=2), S.op_result(), S.op_worker(), S.op_cancel(), S.op_graph(), S.op_chains(("Failed",)), S.op_finish(("Success", "Success", "Failed")), S.op_disconnect(),
           st.tuples(st.just("fa"), which, fn).map(list), st.tuples(st.just("fs"), which, fn).map(list), st.tuples(st.just("fc"), which, fn).map(list),
           st.tuples(st.just("fd"), which, fn).map(list), st.tuples(st.just("fr"), which, fn).map(list),
           st.tuples(st.just("i"), st.integers(1, len(IDLE) - 1)).map(list), st.tuples(st.just("i"), st.integers(1, len(IDLE) - 1)).map(list),
           st.tuples(st.just("fin")).map(list)]
    return S.plan(ops, qs=(1000, 1, 2), lb=(0, 1), wt=(60, 4), size=40, fr=(3, 1, 2, 5, 0))


class Run(S.SchedRun):
    def other(self, op):
        R = M.FunctionRequestType
        if op[0] == "i":
            self.run(IDLE[op[1]])
        elif op[0] == "fin":
            for w in self.workers.values():
                while w.alive and w.held:
                    w.finish(0, M.TaskStatus.Success)
        elif op[0] == "fr":
            w = self.workers.get(op[1])
            if w and w.alive:
                w.peer.send(S.W_frames(M.FunctionRequest(R.Request, S.fid(op[2]), b"", b"")))
        else:
            c = self.client(op[1])
            if op[0] == "fa":
                c.add_function(op[2])
            elif op[0] == "fs":
                c.add_function(op[2])
                self.run(0.1)
                c.submit(op[2])
            else:
                c.peer.send(S.W_frames(M.FunctionRequest({"fc": R.Check, "fd": R.Delete}[op[0]], S.fid(op[2]), b"", b"")))


def sched_execute(plan):
    with Run(plan) as s:
        s.execute()
        s.settle(1.0)
        s.drain(60)
        s.run(plan["fr"] + 2.5)
        c = s.client(0)
        for f in range(3):
            c.peer.send(S.W_frames(M.FunctionRequest(M.FunctionRequestType.Check, S.fid(f), b"", b"")))
        s.run(2)
        labels = Counter()
        judge_scheduler(s.history(), plan["fr"], labels)
        return Case(bool(labels["evicted"] or labels["told"] or labels["still-used"]), sorted(labels))


CHECKS = [
    Check("deployments", plans, execute, 1400, 30000,
          "1-2 clients submit five same-named functions of several kinds alone and in graphs to 1-2 workers with retention limits of 0-5 s, idle "
          "times around them, tasks that outlast them and preemption in the processors; non-trivial: a function was evicted, asked for again or idle beyond the limit"),
    Check("scheduler", sched_plans, sched_execute, 1600, 60000,
          "announce, check, delete, request and use functions with idle times around the retention limit; non-trivial: a function was evicted or a deletion refused"),
]
