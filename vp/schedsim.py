"""The real scheduler alone, driven by scripted clients and workers, and a reference model of it fed by the wire."""
import json
import math
from collections import Counter
from collections import defaultdict

from hypothesis import strategies as st

from .core import Inconclusive
from .core import Violation
from .core import require
from .sim import world as W
from .sim.net import PUB
from .sim.net import ROUTER
from .sim.world import M
from .sim.world import World

LAT = [0.0002, 0.0, 0.00005, 0.001, 0.004, 0.02, 0.06, 0.2, 0.6]
GAPS = [0.0, 0.0003, 0.002, 0.05, 0.3, 1.0, 1.6, 2.4, 4.2, 7.0]
FINAL = (M.TaskStatus.Success, M.TaskStatus.Failed, M.TaskStatus.Canceled, M.TaskStatus.NotFound)
FNAMES = [b"alpha", b"beta", b"alpha", b"ga\xffmma", b"", b"ga\xfemma"]


# ------------------------------------------------------------------------------------------------ reference model
class Model:
    """what the scheduler must think, derived from the messages it handled and sent

    The scheduler handles one message at a time without pausing, so the order of the taps is the order of its steps.
    """

    def __init__(self, timeout=60):
        self.timeout = timeout
        self.now = 0.0
        self.workers = {}  # worker -> time of last heartbeat
        self.load = {}  # worker -> ordered tasks
        self.waiting = {}
        self.at = {}
        self.owner = {}
        self.fid = {}
        self.canceling = set()
        self.counts = Counter()
        self.fname = {}
        self.transitions = defaultdict(list)
        self.finals = defaultdict(list)
        self.received = Counter()
        self.sent = Counter()
        self.candidate = {}  # task id -> (client, Task) submitted and not answered
        self.graphs = {}  # graph id -> dict
        self.pending_graphs = {}
        self.node_graph = {}  # node of a live graph -> graph id
        self.node_use = {}  # node -> function id while the graph or the task uses the function
        self.accepted = Counter()
        self.refused = {}
        self.ended_graphs = {}
        self.expired = []

    # -- steps
    def _done(self, tid, status):
        self.counts[status] += 1
        self.waiting.pop(tid, None)
        w = self.at.pop(tid, None)
        if w is not None:
            self.load[w].pop(tid, None)
        self.canceling.discard(tid)
        self.transitions[tid].append(status)
        self.finals[tid].append(status)
        self.fid.pop(tid, None)
        self.owner.pop(tid, None)
        self.node_use.pop(tid, None)
        g = self.node_graph.pop(tid, None)
        if g is None:
            return
        info = self.graphs[g]
        info["open"].discard(tid)
        if status != M.TaskStatus.Success:
            self._clean_graph(g, status)
        elif not info["open"]:
            self._clean_graph(g, status)

    def _clean_graph(self, g, status):
        info = self.graphs.pop(g)
        self.ended_graphs[g] = status
        for tid in info["nodes"]:
            self.node_graph.pop(tid, None)
        for tid in info["nodes"]:
            if tid in info["open"]:
                if tid in self.waiting:
                    self._done(tid, M.TaskStatus.Canceled)
                elif tid in self.at:
                    self._cancel_running(tid)
                else:
                    self.node_use.pop(tid, None)

    def _cancel_running(self, tid):
        self.canceling.add(tid)
        self.transitions[tid].append(M.TaskStatus.Canceling)

    def _reroute(self, tid):
        w = self.at.pop(tid)
        self.load.get(w, {}).pop(tid, None)
        if tid in self.canceling:
            self._done(tid, M.TaskStatus.Canceled)
            return
        self.waiting[tid] = True
        self.transitions[tid].append(M.TaskStatus.Inactive)

    def remove_worker(self, w):
        self.workers.pop(w, None)
        tasks = self.load.pop(w, {})
        for tid in list(tasks):
            self._reroute(tid)

    def silent(self, w):
        return self.now - self.workers[w] > self.timeout

    def _expire(self, w):
        self.expired.append((self.now, w))
        self.remove_worker(w)

    def _activate(self, g):
        p = self.pending_graphs.pop(g, None)
        if p is None:
            return
        client, m = p
        nodes = {t.task_id: t for t in m.graph}
        self.graphs[g] = {"client": client, "nodes": nodes, "open": set(nodes), "functions": m.functions,
                          "targets": m.targets}
        for fid, (name, _) in m.functions.items():
            self.fname.setdefault(fid, name)
        for tid, t in nodes.items():
            self.node_graph[tid] = g
            self.node_use[tid] = t.function_id

    def apply(self, t, d, peer, m):
        self.now = t
        if d == "drop":
            return
        if d == "in":
            if m is not None:
                self.received[W.M.PROTOCOL.inverse[type(m)].name] += 1
            self._in(peer, m)
        elif d == "out":
            self.sent[W.M.PROTOCOL.inverse[type(m)].name] += 1
            self._out(peer, m)
        elif d == "pub":
            self._pub(m)

    def _in(self, peer, m):
        if isinstance(m, M.Heartbeat):
            self.load.setdefault(peer, {})
            self.workers[peer] = self.now
        elif isinstance(m, M.DisconnectRequest):
            if m.worker in self.workers:
                self.remove_worker(m.worker)
        elif isinstance(m, M.Task):
            self.candidate.setdefault(m.task_id, []).append((peer, m))
        elif isinstance(m, M.GraphTask):
            self.pending_graphs[m.task_id] = (peer, m)
            for t in m.graph:
                self.candidate.setdefault(t.task_id, []).append((peer, t))
        elif isinstance(m, M.GraphTaskCancel):
            if m.task_id in self.graphs:
                self._clean_graph(m.task_id, M.TaskStatus.Canceled)
        elif isinstance(m, M.TaskCancel):
            if m.task_id in self.waiting:
                self._done(m.task_id, M.TaskStatus.Canceled)
            elif m.task_id in self.at:
                self._cancel_running(m.task_id)
        elif isinstance(m, M.TaskResult):
            if m.status in FINAL and m.task_id in self.at:
                self._done(m.task_id, m.status)
        elif isinstance(m, M.BalanceResponse):
            for tid in m.task_ids:
                if self.at.get(tid) == peer:
                    self._reroute(tid)
        elif isinstance(m, M.FunctionRequest):
            if m.type == M.FunctionRequestType.Add:
                self.fname.setdefault(m.function_id, m.function_name)

    def _out(self, peer, m):
        if isinstance(m, M.TaskEcho):
            g = next((g for g, (c, gm) in self.pending_graphs.items() if any(x.task_id == m.task_id for x in gm.graph)), None)
            if g is not None:
                self._activate(g)
            if m.status == M.TaskEchoStatus.SubmitOK:
                c = self.candidate.get(m.task_id)
                if c:
                    client, task = c.pop(0)
                    self.accepted[m.task_id] += 1
                    self.owner[m.task_id] = client
                    self.fid[m.task_id] = task.function_id
                    self.waiting[m.task_id] = True
                    self.transitions[m.task_id].append(M.TaskStatus.Inactive)
            else:
                c = self.candidate.get(m.task_id)
                if c:
                    c.pop(0)
                self.refused.setdefault(m.task_id, []).append(m.status)
                g = self.node_graph.get(m.task_id)
                if g is not None:
                    self._clean_graph(g, M.TaskStatus.Failed)
        elif isinstance(m, M.Task):
            if m.task_id in self.at and self.at[m.task_id] in self.workers and self.silent(self.at[m.task_id]):
                self._expire(self.at[m.task_id])
            if m.task_id in self.waiting:
                del self.waiting[m.task_id]
                self.at[m.task_id] = peer
                self.load.setdefault(peer, {})[m.task_id] = True
                self.transitions[m.task_id].append(M.TaskStatus.Running)
        elif isinstance(m, M.GraphTaskResult):
            self._activate(m.task_id)
            if m.task_id in self.graphs and not self.graphs[m.task_id]["open"]:
                self._clean_graph(m.task_id, m.status)

    def _pub(self, m):
        if isinstance(m, M.GraphTaskState):
            self._activate(m.graph_task_id)
        elif isinstance(m, M.TaskState):
            # a task of a silent worker goes back: the worker was given up
            if m.status in (M.TaskStatus.Inactive, M.TaskStatus.Canceled):
                w = self.at.get(m.task_id)
                if w in self.workers and self.silent(w):
                    self._expire(w)
        elif isinstance(m, M.SchedulerState):
            try:
                seen = {x["worker"] for x in json.loads(m.data)["worker_manager"]}
            except Exception:
                return
            for w in [w for w in self.workers if self.silent(w)]:
                if w.decode(errors="backslashreplace") not in seen:
                    self._expire(w)

    # -- derived
    def free_slot(self, qs):
        return any(len(self.load[w]) < qs for w in self.workers)

    def advice(self):
        loads = {w: len(self.load[w]) for w in self.workers}
        if not loads or not any(loads.values()) or all(loads.values()):
            return {}
        mean = sum(loads.values()) / len(loads)
        return {w: math.ceil(n - mean) for w, n in loads.items() if n > mean}

    def function_load(self):
        use = dict(self.node_use)
        use.update(self.fid)
        c = Counter()
        for tid, f in use.items():
            c[self.fname[f].decode(errors="backslashreplace")] += 1
        return dict(c)

    def client_load(self):
        c = Counter(x.decode(errors="backslashreplace") for x in self.owner.values())
        c.update(x["client"].decode(errors="backslashreplace") for x in self.graphs.values())
        return dict(c)


def events(world):
    """(time, 'in'|'out'|'drop'|'pub', peer, message) at the scheduler's sockets"""
    for t, kind, sock, frames in world.wire:
        if sock.type == ROUTER:
            if kind == "pop":
                yield t, "in", frames[0], W.decode(frames[1:]) if len(frames) > 2 else None
            elif kind == "send":
                yield t, "out", frames[0], W.decode(frames[1:])
            elif kind == "drop":
                yield t, "drop", frames[0], W.decode(frames[1:])
        elif sock.type == PUB and kind == "pub":
            yield t, "pub", None, W.decode(frames)


# ------------------------------------------------------------------------------------------------ scripted peers
class FakeWorker:
    def __init__(self, run, index, ident):
        self.run = run
        self.k = run.world.k
        self.index = index
        self.ident = ident
        self.peer = run.world.peer(ident, self.on)
        self.held = []  # task ids in the order received
        self.alive = True
        self.silent = False
        self.auto_balance = True
        self.auto_cancel = True
        self.balance_requests = []
        self.cancels = []
        self.gone = []
        self.seen = Counter()
        self.hb_gen = 0
        self.sent = 0
        self.cpu = (0.1, 10_000, 0.2, 20_000)
        self.lag = 123

    def heartbeat(self):
        # a worker with tasks is at times starting its processor, at times busy
        n = (self.hb_gen + self.index + len(self.seen)) % 4
        self.peer.send(W_frames(M.Heartbeat(*self.cpu, len(self.held), self.lag, n != 1, bool(self.held) and n != 2, bool(self.held) and n != 3)))

    def beat(self, period):
        self.hb_gen += 1
        gen = self.hb_gen

        def fire():
            if not self.alive or self.silent or gen != self.hb_gen:
                return
            self.heartbeat()
            self.k.after(period, fire)

        fire()

    def on(self, frames):
        m = W.decode(frames)
        if isinstance(m, M.Task):
            self.seen[m.task_id] += 1
            if m.task_id not in self.held:
                self.held.append(m.task_id)
        elif isinstance(m, M.BalanceRequest):
            if self.auto_balance:
                self.give_back(m.number_of_tasks)
            else:
                self.balance_requests.append(m.number_of_tasks)
        elif isinstance(m, M.TaskCancel):
            if self.auto_cancel:
                self.answer_cancel(m.task_id)
            else:
                self.cancels.append(m.task_id)

    def give_back(self, n):
        ids = self.held[1:][:n]
        for i in ids:
            self.held.remove(i)
        self.peer.send(W_frames(M.BalanceResponse(ids)))

    def answer_balance(self, i):
        """answer a request that was put aside"""
        if self.balance_requests:
            self.give_back(self.balance_requests.pop(i % len(self.balance_requests)))

    def answer_cancel(self, tid, found=True):
        if tid in self.held:
            self.held.remove(tid)
            self.result(tid, M.TaskStatus.Canceled if found else M.TaskStatus.NotFound)
        else:
            self.result(tid, M.TaskStatus.NotFound)

    def result(self, tid, status=M.TaskStatus.Success, payload=None):
        if payload is None:
            self.sent += 1
            payload = b"result %d of %s" % (self.sent, self.ident)
        self.peer.send(W_frames(M.TaskResult(tid, status, 0.0, payload)))

    def finish(self, i, status):
        if not self.held:
            return
        tid = self.held.pop(i % len(self.held))
        self.gone.append(tid)
        self.result(tid, status)

    def disconnect(self):
        self.peer.send(W_frames(M.DisconnectRequest(self.ident)))
        self.alive = False
        self.held = []

    def die(self):
        """the process is gone without a word"""
        self.alive = False
        self.peer.close(0.5)


class FakeClient:
    def __init__(self, run, index, ident):
        self.run = run
        self.index = index
        self.ident = ident
        self.peer = run.world.peer(ident, self.on)
        self.tasks = []
        self.fn = {}
        self.graphs = []
        self.echo = defaultdict(list)
        self.results = defaultdict(list)
        self.graph_results = defaultdict(list)
        self.messages = []

    def on(self, frames):
        m = W.decode(frames)
        self.messages.append((self.run.world.k.now, m))
        if isinstance(m, M.TaskEcho):
            self.echo[m.task_id].append(m.status)
        elif isinstance(m, M.TaskResult):
            self.results[m.task_id].append(m)
        elif isinstance(m, (M.GraphTaskResult, M.GraphTaskEcho)):
            self.graph_results[m.task_id].append(m)

    def add_function(self, i):
        self.peer.send(W_frames(M.FunctionRequest(M.FunctionRequestType.Add, fid(i), FNAMES[i % len(FNAMES)], b"body%d" % i)))

    def submit(self, i, args=()):
        tid = self.run.new_id()
        self.tasks.append(tid)
        self.fn[tid] = fid(i)
        self.peer.send(W_frames(M.Task(tid, fid(i), list(args))))
        return tid

    def cancel(self, i):
        if self.tasks:
            self.peer.send(W_frames(M.TaskCancel(self.tasks[i % len(self.tasks)])))

    def graph(self, shape):
        """shape: list of (function, [indices of earlier nodes]); last node and every sink are requested"""
        gid = self.run.new_id()
        ids = [self.run.new_id() for _ in shape]
        tasks = []
        used = set()
        for j, (f, deps) in enumerate(shape):
            args = [M.Argument(M.ArgumentType.Data, b"const")]
            for dep in deps:
                if j:
                    args.append(M.Argument(M.ArgumentType.Task, ids[dep % j]))
                    used.add(dep % j)
            tasks.append(M.Task(ids[j], fid(f), args))
        targets = [ids[j] for j in range(len(ids)) if j not in used]
        functions = {fid(f): (FNAMES[f % len(FNAMES)], b"body%d" % f) for f, _ in shape}
        self.graphs.append(gid)
        self.peer.send(W_frames(M.GraphTask(gid, functions, targets, tasks)))
        return gid

    def shape(self, shape, extra, seed):
        """nodes with data and results of earlier nodes, in any order and more than once; some inner nodes are requested, too"""
        gid = self.run.new_id()
        ids = [self.run.new_id() for _ in shape]
        tasks, used = [], set()
        for j, (f, deps) in enumerate(shape):
            args = []
            for n, d in enumerate(deps):
                if d < 0 or not j:
                    args.append(M.Argument(M.ArgumentType.Data, b"data %d of %d" % (n, j)))
                else:
                    args.append(M.Argument(M.ArgumentType.Task, ids[d % j]))
                    used.add(d % j)
            tasks.append(M.Task(ids[j], fid(f), args))
        targets = list(dict.fromkeys([*(ids[x] for x in extra if x < len(ids)), *(ids[j] for j in range(len(ids)) if j not in used)]))
        # the order of nodes and of requests is free
        for _ in range(seed):
            tasks.append(tasks.pop(0))
            targets.append(targets.pop(0))
        self.graphs.append(gid)
        functions = {fid(f): (FNAMES[f % len(FNAMES)], b"body%d" % f) for f, _ in shape}
        self.peer.send(W_frames(M.GraphTask(gid, functions, targets, tasks)))

    def cancel_graph(self, i):
        if self.graphs:
            self.peer.send(W_frames(M.GraphTaskCancel(self.graphs[i % len(self.graphs)])))


def fid(i):
    return b"function%08d" % i


def W_frames(m):
    return [M.PROTOCOL.inverse[type(m)].value, *[bytes(f) for f in m.serialize()]]


# ------------------------------------------------------------------------------------------------ plans
def gap():
    return st.tuples(st.just("z"), st.sampled_from([1, 2, 3, 3, 4, 5, 5, 6, 7])).map(list)


def op_submit(nf=3, most=6):
    return st.tuples(st.just("t"), st.integers(0, 2), st.integers(0, nf - 1), st.sampled_from([1, 1, 2, 3, most])).map(list)


def op_result(statuses=("Success",)):
    return st.tuples(st.just("r"), st.integers(0, 3), st.integers(0, 5), st.sampled_from(list(statuses)),
                     st.sampled_from([1, 1, 1, 2, 4])).map(list)


def wide_ops():
    """dozens to hundreds of workers"""
    n = st.sampled_from([20, 63, 64, 65, 80, 127, 128, 129, 200, 257])
    join = st.tuples(st.just("H"), st.sampled_from([0, 0, 100, 300]), n).map(list)
    burst = st.tuples(st.just("t"), st.integers(0, 2), st.integers(0, 2), st.sampled_from([30, 66, 130, 260, 400])).map(list)
    res = st.tuples(st.just("R"), st.integers(0, 5), st.integers(1, 7), st.integers(1, 4)).map(list)
    leave = st.tuples(st.just("X"), st.integers(0, 5), st.integers(2, 9)).map(list)
    few = st.tuples(st.just("H"), st.sampled_from([600, 650]), st.integers(1, 12)).map(list)
    rest = st.just(["z", 9])
    op = st.one_of(join, burst, burst, res, leave, few, rest, gap())
    return st.tuples(join, burst, burst, few, st.lists(op, max_size=7), rest).map(lambda t: [[x for x in t[:3]], [t[3], ["z", 9]], [[x, ["z", 4]] for x in t[4]], t[5]]).map(
        lambda t: [*t[0], *t[1], *[y for x in t[2] for y in x], t[3]])


def wide_plan(**kw):
    return st.tuples(plan([gap()], size=4, **kw), wide_ops()).map(lambda t: {**t[0], "nw": 0, "ops": t[1]})


def op_worker():
    return st.tuples(st.just("h"), st.integers(0, 3)).map(list)


def op_disconnect():
    return st.tuples(st.just("x"), st.integers(0, 3)).map(list)


def op_silent():
    return st.tuples(st.sampled_from(["q", "u"]), st.integers(0, 3)).map(list)


def op_cancel():
    return st.tuples(st.just("c"), st.integers(0, 2), st.integers(0, 20)).map(list)


def op_graph(nf=3):
    node = st.tuples(st.integers(0, nf - 1), st.lists(st.integers(0, 5), max_size=3)).map(list)
    return st.tuples(st.just("g"), st.integers(0, 2), st.lists(node, min_size=1, max_size=6)).map(list)


def op_shape():
    node = st.tuples(st.integers(0, 2), st.lists(st.integers(-3, 7), max_size=4)).map(list)
    return st.tuples(st.just("G"), st.integers(0, 2), st.lists(node, min_size=1, max_size=9), st.lists(st.integers(0, 8), max_size=3), st.integers(0, 5)).map(list)


def op_finish(statuses=("Success",)):
    """some worker that has work answers"""
    return st.tuples(st.just("F"), st.integers(0, 9), st.integers(0, 5), st.sampled_from(list(statuses))).map(list)


def op_chains(bad=("Failed", "NotFound", "Canceled"), cancel=True):
    """a graph of several chains, some of which are under way when something ends it"""
    return st.tuples(st.lists(st.integers(2, 4), min_size=1, max_size=4), st.integers(0, 3), st.lists(st.tuples(st.integers(0, 9), st.integers(0, 5)), min_size=1, max_size=6),
                     st.sampled_from([*bad, "gc"] if cancel else list(bad)), st.integers(0, 5)).map(_chains)


def _chains(t):
    lengths, extra, fins, end, seed = t
    shape = []
    for n in lengths:
        for i in range(n):
            shape.append([i % 3, [len(shape) - 1] if i else []])
    return [["G", 0, shape, list(range(extra)), seed], *(["F", a, b, "Success"] for a, b in fins), ["gc", 0, -1] if end == "gc" else ["F", seed, seed, end]]


def op_graph_cancel():
    return st.tuples(st.just("gc"), st.integers(0, 2), st.integers(0, 5)).map(list)


def op_late():
    """a result the worker sends again, or for a task it has given away"""
    return st.tuples(st.just("l"), st.integers(0, 3), st.integers(0, 9), st.sampled_from(["Success", "Failed", "Canceled"])).map(list)


def ops_answer():
    """workers that put requests to cancel or to give tasks back aside, and answer them later, maybe as not found"""
    return [st.tuples(st.just("mc"), st.integers(0, 3), st.integers(0, 1)).map(list),
            st.tuples(st.just("ac"), st.integers(0, 3), st.integers(0, 5), st.booleans()).map(list),
            st.tuples(st.just("m"), st.integers(0, 3), st.sampled_from([0, 0, 1])).map(list),
            st.tuples(st.just("ab"), st.integers(0, 3), st.integers(0, 5)).map(list)]


def op_dup():
    return st.tuples(st.just("d"), st.integers(0, 2), st.integers(0, 20)).map(list)


def plan(ops, qs=(1000, 1, 2, 3), mt=(-1,), lb=(1,), lbt=(2,), wt=(60,), size=25, fr=(20,)):
    return st.fixed_dictionaries({
        "lat": st.lists(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6]), max_size=12), "salt": st.integers(0, 3),
        "qs": st.sampled_from(list(qs)), "mt": st.sampled_from(list(mt)), "lb": st.sampled_from(list(lb)),
        "lbt": st.sampled_from(list(lbt)), "wt": st.sampled_from(list(wt)), "fr": st.sampled_from(list(fr)),
        "nw": st.sampled_from([1, 2, 3, 2, 0]), "ops": oplist(st.one_of(*ops), size).map(flat),
    })


def flat(ops):
    """some operations stand for a sequence of operations"""
    return [o for x in ops for o in (x if isinstance(x[0], list) else [x])]


def oplist(op, size):
    """lists of very different lengths (hypothesis alone prefers short ones)"""
    return st.sampled_from([1, size // 4, size // 2, size // 2]).flatmap(lambda n: st.lists(op, min_size=max(1, n), max_size=size))


class SchedRun:
    def __init__(self, plan, max_steps=400_000, hb=1.0, functions=3, **cfg):
        self.plan = plan
        self.hb = hb
        self.world = World(lat=[LAT[i] for i in plan.get("lat", [])], salt=plan.get("salt", 0), max_steps=max_steps)
        self.k = self.world.k
        c = dict(per_worker_queue_size=plan["qs"], max_number_of_tasks_waiting=plan["mt"],
                 load_balance_seconds=plan["lb"], load_balance_trigger_times=plan["lbt"],
                 worker_timeout_seconds=plan["wt"], function_retention_seconds=plan["fr"])
        c.update(cfg)
        self.cfg = c
        self.sched = self.world.scheduler(**c)
        self.ids = 0
        self.workers = {}
        self.generation = Counter()
        self.clients = {}
        self.functions = functions
        self.settled = []  # positions in the wire log at which nothing was in flight
        self.extra = None

    def new_id(self):
        self.ids += 1
        return b"id%014d" % self.ids

    def worker(self, i):
        w = self.workers.get(i)
        if w is None or not w.alive:
            self.generation[i] += 1
            w = self.workers[i] = FakeWorker(self, i, b"worker-%d-%d" % (i, self.generation[i]))
            w.beat(self.hb)
        return w

    def client(self, i):
        c = self.clients.get(i)
        if c is None:
            c = self.clients[i] = FakeClient(self, i, b"client-%d" % i)
            for f in range(self.functions):
                c.add_function(f)
        return c

    def run(self, t, until=None):
        r = self.world.run(until, t)
        if r == "steps":
            raise Inconclusive("step budget")
        if self.k.crashes:
            c = self.k.crashes[0]
            raise Violation(f"{c['proc']}/{c['thread']} crashed at t={c['t']:.4f}: {c['exc']}\n{c['tb'][-1500:]}", "crash")
        if self.sched.exited:
            raise Violation("the scheduler stopped", "crash")

    def do(self, op):
        k = op[0]
        if k == "z":
            self.run(GAPS[op[1]])
        elif k == "t":
            c = self.client(op[1])
            for _ in range(op[3]):
                c.submit(op[2])
        elif k == "r":
            w = self.workers.get(op[1])
            if w and w.alive:
                for _ in range(op[4]):
                    w.finish(op[2], M.TaskStatus[op[3]])
        elif k == "h":
            w = self.worker(op[1])
        elif k == "H":
            for i in range(op[1], op[1] + op[2]):
                self.worker(i)
        elif k in ("R", "X"):
            # every so many workers finish something, or leave
            for i in sorted(self.workers)[op[1]::op[2]]:
                w = self.workers[i]
                if w.alive and k == "X":
                    w.disconnect()
                elif w.alive:
                    for _ in range(op[3]):
                        w.finish(0, M.TaskStatus.Success)
        elif k == "x":
            w = self.workers.get(op[1])
            if w and w.alive:
                w.disconnect()
        elif k == "k":
            w = self.workers.get(op[1])
            if w and w.alive:
                w.die()
        elif k == "q":
            w = self.workers.get(op[1])
            if w:
                w.silent = True
        elif k == "u":
            w = self.workers.get(op[1])
            if w and w.alive and w.silent:
                w.silent = False
                w.beat(self.hb)
        elif k == "c":
            self.client(op[1]).cancel(op[2])
        elif k == "g":
            self.client(op[1]).graph(op[2])
        elif k == "G":
            self.client(op[1]).shape(*op[2:])
        elif k == "F":
            for t in (0.001, 0.05, 0.5, 1.5):
                busy = [w for i, w in sorted(self.workers.items()) if w.alive and w.held]
                if busy:
                    busy[op[1] % len(busy)].finish(op[2], M.TaskStatus[op[3]])
                    break
                self.run(t)
        elif k == "gc":
            self.client(op[1]).cancel_graph(op[2])
        elif k == "l":
            w = self.workers.get(op[1])
            if w and w.alive and w.gone:
                w.result(w.gone[op[2] % len(w.gone)], M.TaskStatus[op[3]])
        elif k == "d":
            c = self.client(op[1])
            if c.tasks:
                tid = c.tasks[op[2] % len(c.tasks)]
                c.peer.send(W_frames(M.Task(tid, c.fn[tid], [])))
        elif k == "m":
            w = self.workers.get(op[1])
            if w:
                w.auto_balance = bool(op[2])
        elif k in ("mc", "ac", "ab"):
            w = self.workers.get(op[1])
            if w and w.alive:
                if k == "mc":
                    w.auto_cancel = bool(op[2])
                elif k == "ab":
                    w.answer_balance(op[2])
                elif w.cancels:
                    w.answer_cancel(w.cancels.pop(op[2] % len(w.cancels)), op[3])
        else:
            self.other(op)

    def other(self, op):
        raise AssertionError(op)

    def execute(self):
        for i in range(self.plan["nw"]):
            self.worker(i)
        for op in self.plan["ops"]:
            self.do(op)
        return self

    def settle(self, t=1.5):
        """let everything that is in flight be handled"""
        self.run(t)
        self.settled.append(len(self.world.wire))

    def drain(self, limit=200.0):
        """answer everything until nothing is left"""
        for w in self.workers.values():
            if w.alive and w.silent:
                w.silent = False
                w.beat(self.hb)
            w.auto_cancel = w.auto_balance = True
            for tid in w.cancels:
                w.answer_cancel(tid)
            w.cancels = []
        if not any(w.alive for w in self.workers.values()):
            self.worker(9)
        end = self.k.now + limit
        quiet = 0
        while self.k.now < end and quiet < 3:
            held = False
            for w in self.workers.values():
                while w.alive and w.held:
                    held = True
                    w.finish(0, M.TaskStatus.Success)
            self.run(1.3, lambda: any(w.alive and w.held for w in self.workers.values()))
            quiet = 0 if held else quiet + 1
        if any(not w.alive for w in self.workers.values()) or any(n > 1 for n in self.generation.values()):
            # tasks of workers that vanished come back when they are given up
            extra = self.plan["wt"] + 3
            if extra < 30:
                for _ in range(int(extra)):
                    self.run(1.3)
                    for w in self.workers.values():
                        while w.alive and w.held:
                            w.finish(0, M.TaskStatus.Success)
                for _ in range(4):
                    for w in self.workers.values():
                        while w.alive and w.held:
                            w.finish(0, M.TaskStatus.Success)
                    self.run(1.3)

    def close(self):
        self.world.close()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        try:
            self.close()
        except W.HarnessError:
            if et is None:
                raise

    def history(self):
        """yield (event, model before the event, model) ; the model object is the same, advanced after each yield"""
        m = Model(self.cfg["worker_timeout_seconds"])
        self.model = m
        for e in events(self.world):
            m.now = e[0]
            yield e, m
            m.apply(*e)
