"""C23 every configuration option reaches the component it names"""
import json
import os
import sys
from collections import defaultdict

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import simlib as L
from .. import userfns as U
from ..schedsim import M
from ..schedsim import W_frames

TECHNIQUE = "random subsets of options with random values (Hypothesis) given to the command line programs, the process classes and the combined deployment in a simulator, followed by an experiment per option; oracle: what the documentation of each option says about times, counts and processes that can be observed"
LEVEL_NOTE = "Exploration: seeded random configurations in virtual time; trusts the simulator. Every option is judged by its effect (times of messages, number of processes, refused submissions, exits), none by reading an attribute."
ASSUMPTIONS = ["simulated environment is faithful", "worker timeout and death timeout exceed the heartbeat interval",
               "periodic work of scheduler and processors takes place once per second"]

NCPU = (os.cpu_count() or 1) - 1
S_OPTS = {  # option -> (long, short, values, default)
    "io_threads": ("--io-threads", None, [1, 2, 3, 5, 12], 1),
    "max_number_of_tasks_waiting": ("--max-number-of-tasks-waiting", "-mt", [-1, 0, 1, 3, 40], -1),
    "worker_timeout_seconds": ("--worker-timeout-seconds", "-wt", [7, 8, 11, 16, 75], 60),
    "function_retention_seconds": ("--function-retention-seconds", "-ft", [3, 4, 7, 13, 28], 20),
    "load_balance_seconds": ("--load-balance-seconds", "-ls", [0, 1, 2, 3, 5, 11], 1),
    "load_balance_trigger_times": ("--load-balance-trigger-times", "-lbt", [1, 2, 3, 4, 7], 2),
    "per_worker_queue_size": ("--per-worker-queue-size", "-qs", [1, 2, 3, 6, 60], 1000),
    "event_loop": ("--event-loop", "-e", ["builtin", "uvloop"], "builtin"),
}
C_OPTS = {
    "n_workers": ("--num-of-workers", "-n", [1, 2, 3, 5], NCPU),
    "heartbeat_interval_seconds": ("--heartbeat-interval", "-hi", [1, 2, 3, 5], 2),
    "function_retention_seconds": ("--function-retention-seconds", "-ft", [2, 5, 9, 17, 28], 20),
    "death_timeout_seconds": ("--death-timeout-seconds", "-dt", [8, 9, 13, 21, 65], 10),
    "garbage_collect_interval_seconds": ("--garbage-collect-interval-seconds", "-gc", [1, 2, 4, 9, 45], 30),
    "trim_memory_threshold_bytes": ("--trim-memory-threshold-bytes", "-tm", [0, 1000, 5_000_000, 1 << 20, 3 << 30], 1 << 30),
    "event_loop": ("--event-loop", "-el", ["builtin", "uvloop"], "builtin"),
}
NO_DEFAULT = [x for x in S_OPTS if x != "event_loop"]  # SchedulerProcess has one default
RSS = [30_000_000, 999, 1000, 1 << 30, (1 << 30) - 1, 4 << 30, 1 << 20]
GAPS = [1.0, 2.4, 4.0, 6.0, 8.2, 11.0, 15.0, 22.5, 30.0]


def subset(opts):
    d = {k: st.integers(0, len(v[2]) - 1) for k, v in opts.items()}
    return st.one_of(st.fixed_dictionaries({}, optional=d), st.fixed_dictionaries(d))


def plans():
    return st.fixed_dictionaries({
        "mode": st.sampled_from(["entry", "ctor", "combo"]), "s": subset(S_OPTS), "c": subset(C_OPTS), "few": st.sampled_from([True, True, True, False]),
        "style": st.lists(st.integers(0, 3), max_size=12), "order": st.integers(0, 5), "port": st.integers(1024, 65535),
        "host": st.sampled_from(["127.0.0.1", "localhost", "10.1.2.3", "node-7.example"]),
        "rss": st.integers(0, len(RSS) - 1), "gap": st.lists(st.integers(0, len(GAPS) - 1), min_size=1, max_size=2), "lat": L.lat_list(3).map(lambda x: [i for i in x if i < 6]),
        "salt": st.integers(0, 7)})


def values(opts, given):
    return {k: opts[k][2][i] for k, i in given.items()}


def argv(prog, opts, vals, plan, positional):
    style = plan["style"]
    items = []
    for i, (k, v) in enumerate(vals.items()):
        long, short, _, _ = opts[k]
        how = style[i % len(style)] if style else 0
        if how == 1 and short:
            items.append([short, str(v)])
        elif how == 2:
            items.append([f"{long}={v}"])
        elif how == 3 and short and int(str(v).lstrip("-").isdigit()):
            items.append([f"{short}={v}"] if str(v).startswith("-") else [short, str(v)])
        else:
            items.append([f"{long}={v}"] if str(v).startswith("-") else [long, str(v)])
        if items[-1][-1].startswith("-") and len(items[-1]) == 2:
            items[-1] = [f"{long}={v}"]
    n = plan["order"]
    if n % 2:
        items.reverse()
    at = 0 if n < 2 else len(items) if n < 4 else len(items) // 2
    items.insert(at, [positional])
    return [prog] + [x for i in items for x in i]


class Deployment:
    def __init__(self, s, plan):
        self.s = s
        self.k = s.k
        self.plan = plan
        self.address = f"tcp://{plan['host']}:{plan['port']}"
        given_s = values(S_OPTS, plan["s"])
        given_c = values(C_OPTS, plan["c"])
        if plan["few"]:
            given_c.setdefault("n_workers", 2)
        mode = plan["mode"]
        if mode == "ctor":
            for k in NO_DEFAULT:
                given_s.setdefault(k, S_OPTS[k][3])
            for k in C_OPTS:
                given_c.setdefault(k, C_OPTS[k][3])
        if mode == "combo":
            # one parameter for both
            both = {**given_c, **given_s}
            both.setdefault("n_workers", 2)
            for k in ("function_retention_seconds", "event_loop"):
                if k in both:
                    given_s[k] = given_c[k] = both[k]
            given_c["n_workers"] = both["n_workers"]
            self.given = both
        self.given_s, self.given_c = given_s, given_c
        self.sv = {k: given_s.get(k, v[3]) for k, v in S_OPTS.items()}
        self.cv = {k: given_c.get(k, v[3]) for k, v in C_OPTS.items()}

    def start(self):
        w, plan = self.s.world, self.plan
        w.address = self.address
        mode = plan["mode"]
        if mode == "entry":
            from scaled.entry_points import cluster
            from scaled.entry_points import scheduler

            sa = argv("scaled_scheduler", S_OPTS, self.given_s, plan, self.address)
            ca = argv("scaled_cluster", C_OPTS, self.given_c, plan, self.address)

            def run(main, args):
                # parsing does not block, so no other simulated process sees these arguments
                sys.argv = args
                main()

            w.program(lambda: run(scheduler.main, sa), name="scheduler").kind = "scheduler"
            w.program(lambda: run(cluster.main, ca), name="cluster").kind = "cluster"
        elif mode == "ctor":
            from scaled.cluster.cluster import Cluster
            from scaled.cluster.scheduler import SchedulerProcess
            from scaled.protocol.python.serializer.default import DefaultSerializer
            from scaled.utility.zmq_config import ZMQConfig

            a = ZMQConfig.from_string(self.address)

            def start():
                ps = [SchedulerProcess(address=a, **self.given_s), Cluster(address=a, serializer=DefaultSerializer(), **self.given_c)]
                self.keep = ps
                for p in ps:
                    p.start()
                import time

                time.sleep(100000)

            w.program(start, name="starter")
        else:
            def combo():
                from scaled.cluster.combo import SchedulerClusterCombo

                given = dict(self.given)
                n = given.pop("n_workers")
                self.keep = SchedulerClusterCombo(self.address, n, **given)
                import time

                time.sleep(100000)

            w.program(combo, name="starter")

    def procs(self, *kinds):
        return [p for p in self.k.procs.values() if p.kind in kinds]

    def scheduler(self):
        return self.procs("scheduler", "SchedulerProcess")[0]

    def cluster(self):
        return self.procs("cluster", "Cluster")[0]


class Experiment:
    def __init__(self, d):
        self.d = d
        self.k = d.k
        self.marks = {}
        self.refused = []
        self.accepted = 0
        self.finished = False
        self.uses = []
        self.futs = []

    def main(self):
        import time

        from scaled.client import Client

        d, k = self.d, self.k
        sv, cv = d.sv, d.cv
        n = cv["n_workers"]
        time.sleep(3.0 + cv["heartbeat_interval_seconds"])
        # a worker that is never heard of again
        w = d.s.world
        self.silent = w.peer(b"silent-worker")
        self.silent.send(W_frames(M.Heartbeat(0.1, 1000, 0.1, 1000, 0, 1, True, False, False)))
        self.marks["silent"] = k.now
        time.sleep(sv["worker_timeout_seconds"] + 3.5)
        # functions are forgotten
        client = self.client = Client(d.address)
        self.marks["use"] = k.now
        for g in [None, *d.plan["gap"]]:
            if g is not None:
                time.sleep(GAPS[g])
            fs = [client.submit(U.work0, f"use{len(self.uses)}.{i}", 0.2) for i in range(n)]
            for f in fs:
                f.result()
            self.uses.append(k.now)
        time.sleep(1.0)
        # how many tasks are given to each worker, how many wait
        qs, mt, ls, lbt = (sv[x] for x in ("per_worker_queue_size", "max_number_of_tasks_waiting", "load_balance_seconds", "load_balance_trigger_times"))
        self.total = n * qs + max(mt, 0) + 3 if qs < 100 else 3 * n
        hold = 0.03 * self.total + (ls + 2) + ls * lbt + 8
        self.marks["burst"] = k.now
        client.submit(U.work0, "h0", hold)
        time.sleep(0.3)  # function is known to the scheduler from now on
        for i in range(1, self.total):
            self.futs.append(client.submit(U.work0, f"h{i}", hold))
            time.sleep(0.03)
        time.sleep(0.5)
        self.marks["full"] = k.now
        time.sleep(ls + 1.5)
        # an idle worker appears
        self.idle = w.peer(b"idle-worker", self.on_idle)
        self.beat()
        self.marks["idle"] = k.now
        time.sleep(ls * lbt + 3.5)
        self.marks["end"] = k.now
        self.stop = True
        self.finished = True
        time.sleep(100000)

    stop = False

    def beat(self):
        if self.stop:
            return
        self.idle.send(W_frames(M.Heartbeat(0.1, 1000, 0.1, 1000, 0, 1, True, False, False)))
        self.k.after(1.0, self.beat)

    def on_idle(self, frames):
        m = L.W.decode(frames)
        if isinstance(m, M.Task):
            from scaled.protocol.python.serializer.default import DefaultSerializer

            self.idle.send(W_frames(M.TaskResult(m.task_id, M.TaskStatus.Success, 0.0, DefaultSerializer().serialize_result("idle"))))


def execute(plan):
    with L.System({**plan, "wk": [], "cl": []}, max_steps=3_000_000) as s:
        k = s.k
        d = Deployment(s, plan)

        def on_spawn(p):
            if p.kind == "Processor":
                p.rss = RSS[plan["rss"]]

        k.on_spawn = on_spawn
        d.start()
        e = Experiment(d)
        s.world.program(e.main, name="client")
        s.run(lambda: e.finished, t=1500)
        s.no_crash()
        require(e.finished, f"a submission never completes, at t={k.now:.1f} after {e.marks}", "hang")
        sched, cluster = d.scheduler(), d.cluster()
        require(not sched.exited and not cluster.exited, f"{sched} or {cluster} ended", "ended")
        workers = d.procs("Worker")
        require(not any(w.exited for w in workers), "a worker ended", "ended")
        t_kill = k.now
        e.bound = {a for so in sched.sockets for a in so.bound}
        k.kill_proc(sched)
        dt, hb = d.cv["death_timeout_seconds"], d.cv["heartbeat_interval_seconds"]
        s.run(lambda: cluster.exited, t=dt + 12)
        s.no_crash()
        judge(s, d, e, workers, t_kill)
        return Case(bool(plan["s"] or plan["c"]), sorted([plan["mode"]] + list(plan["s"]) + ["c." + x for x in plan["c"]]))


def judge(s, d, e, workers, t_kill):
    k, sv, cv, plan = s.k, d.sv, d.cv, d.plan
    lat = max([L.LAT[i] for i in plan["lat"]] + [0.001])
    n, hb, dt = cv["n_workers"], cv["heartbeat_interval_seconds"], cv["death_timeout_seconds"]
    what = f"{plan['mode']} with scheduler options {d.given_s} and cluster options {d.given_c}: "
    # processes, addresses, threads, loops
    require(len(workers) == n, what + f"{len(workers)} workers were started", "n_workers")
    io = [v for kind, t, p, v in k.events if kind == "io_threads" and p.kind in ("scheduler", "SchedulerProcess")]
    require(sv["io_threads"] in io and max(io) == max(sv["io_threads"], 1), what + f"scheduler uses {io} io threads", "io_threads")
    uv = {id(p) for kind, t, p, v in k.events if kind == "uvloop"}
    for p in d.procs("scheduler", "SchedulerProcess", "Worker"):
        want = (sv if p.kind != "Worker" else cv)["event_loop"] == "uvloop"
        require((id(p) in uv) == want, what + f"{p} uses the event loop {'uvloop' if id(p) in uv else 'builtin'}", "event_loop")
    # heartbeats
    sent = defaultdict(list)
    echo = {}
    use = defaultdict(list)
    out = defaultdict(set)
    peak = defaultdict(int)
    owner = {}
    asked = []
    deleted = []
    last_task = {}
    requests = defaultdict(list)
    refused = []
    listed = []
    last_seen = {}
    free = {}
    by_ident = {}
    fid_use = set()
    for t, kind, sock, frames in s.world.wire:
        if kind in ("send", "recv") and sock.type == L.DEALER and sock.proc is not None and sock.proc.kind == "Worker":
            m = L.W.decode(frames)
            if isinstance(m, M.Heartbeat) and kind == "send":
                sent[sock.proc].append(t)
                by_ident[sock.identity] = sock.proc
            elif isinstance(m, M.HeartbeatEcho) and kind == "recv":
                echo[sock.proc] = t
            elif isinstance(m, M.FunctionRequest) and kind == "send" and m.type == M.FunctionRequestType.Request:
                requests[sock.proc].append(t)
        if kind == "pub":
            m = L.W.decode(frames)
            if isinstance(m, M.SchedulerState):
                data = json.loads(m.data)
                listed.append((t, {x["worker"] for x in data["worker_manager"]}))
                if e.marks["silent"] > t > 2.5:
                    for x in data["worker_manager"]:
                        free[x["worker"]] = x["free"]
        if sock.type != L.ROUTER:
            continue
        if kind == "pop":
            m = L.W.decode(frames[1:])
            if isinstance(m, M.Task):
                last_task[m.function_id] = t
                if t < e.marks["burst"]:
                    fid_use.add(m.function_id)
            elif isinstance(m, M.TaskResult):
                w = owner.pop(m.task_id, None)
                if w:
                    out[w].discard(m.task_id)
            elif isinstance(m, M.BalanceResponse):
                for x in m.task_ids:
                    if owner.pop(x, None) is not None:
                        out[frames[0]].discard(x)
            elif isinstance(m, M.Heartbeat):
                last_seen.setdefault(frames[0], t)
        elif kind == "send":
            m = L.W.decode(frames[1:])
            if isinstance(m, M.Task):
                owner[m.task_id] = frames[0]
                out[frames[0]].add(m.task_id)
                if frames[0] != b"idle-worker":
                    peak[frames[0]] = max(peak[frames[0]], len(out[frames[0]]))
                if t < e.marks["burst"]:
                    use[frames[0]].append(t)
            elif m.__class__.__name__ == "BalanceRequest":
                asked.append((t, frames[0]))
            elif isinstance(m, M.FunctionRequest) and m.type == M.FunctionRequestType.Delete:
                deleted.append((t, m.function_id))
            elif isinstance(m, M.TaskEcho) and m.status == M.TaskEchoStatus.NoWorker:
                refused.append(t)
    monitor = f"ipc:///tmp/{plan['host']}_{plan['port']}_monitor"
    require(e.bound == {d.address, monitor}, what + f"scheduler listens at {sorted(e.bound)}", "address")
    for w in workers:
        gaps = [b - a for a, b in zip(sent[w], sent[w][1:]) if b < t_kill]
        require(len(gaps) > 2 and all(hb - 0.01 <= g <= hb + 2 * lat + 0.1 for g in gaps), what + f"{w} sends heartbeats after {sorted(set(round(g, 2) for g in gaps))[:6]} s", "heartbeat")
    # worker timeout
    t0 = last_seen[b"silent-worker"]
    wt = sv["worker_timeout_seconds"]
    for t, names in listed:
        if t0 < t <= t0 + wt - 0.01:
            require("silent-worker" in names, what + f"a worker is not listed any more {t - t0:.2f} s after its heartbeat", "worker_timeout")
        elif t > t0 + wt + 1.2:
            require("silent-worker" not in names, what + f"a worker is still listed {t - t0:.2f} s after its heartbeat", "worker_timeout")
    # queue size and waiting tasks
    qs, mt = sv["per_worker_queue_size"], sv["max_number_of_tasks_waiting"]
    require(set(free.values()) <= {qs}, what + f"idle workers have room for {sorted(set(free.values()))} tasks", "queue_size")
    if qs < 100:
        require(len(peak) == n and set(peak.values()) == {qs}, what + f"the workers had up to {sorted(peak.values())} tasks", "queue_size")
    want = 0 if mt < 0 or qs >= 100 else 3
    require(len(refused) == want, what + f"{len(refused)} of {e.total} tasks were refused ({n} workers)", "tasks_waiting")
    # functions kept by the scheduler
    fs, fw = sv["function_retention_seconds"], cv["function_retention_seconds"]
    require(len(fid_use) == 1, "harness: one function is used")
    fid = next(iter(fid_use))
    # one Delete per worker
    dels = sorted({round(t, 2): t for t, f in deleted if f == fid and t < e.marks["burst"]}.values())
    announced = [t for t, kind, sock, frames in s.world.wire if kind == "pop" and sock.type == L.ROUTER and isinstance(L.W.decode(frames[1:]), M.Task) and t <= t_kill]
    for i, g in enumerate(plan["gap"]):
        lo = e.uses[i]
        sub = max(t for t in announced if t <= lo)  # retention counts from the last submission
        hi = min(t for t in announced if t > lo)
        inside = [t for t in dels if sub < t < hi]
        if hi - sub > fs + 1.3:
            require(inside and fs - 0.01 <= inside[0] - sub <= fs + 1.2, what + f"a function last used at t={sub:.2f} was dropped by the scheduler at {[round(t, 2) for t in inside]}", "scheduler_retention")
        elif hi - sub < fs - 0.1:
            require(not inside, what + f"a function last used at t={sub:.2f} was dropped by the scheduler at {[round(t, 2) for t in inside]}", "scheduler_retention")
        # and by the workers
        for ident, w in by_ident.items():
            before = [t for t in use[ident] if t <= lo]
            after = [t for t in use[ident] if hi - 0.01 <= t < (e.uses[i + 1] if i + 1 < len(e.uses) else e.marks["burst"])]
            if not before or not after or w not in requests:
                continue
            gap = after[0] - before[-1]
            again = [t for t in requests[w] if after[0] <= t < after[0] + 0.15 + 2 * lat]
            if inside or gap > fw + 1.6 + 2 * lat:
                require(again, what + f"{w} executes a function after {gap:.2f} s without asking for it", "worker_retention")
            elif gap < fw - 0.1 and not inside:
                require(not again, what + f"{w} asks for a function again after {gap:.2f} s", "worker_retention")
    # balance
    ls, lbt = sv["load_balance_seconds"], sv["load_balance_trigger_times"]
    calm = [t for t, w in asked if e.marks["full"] + 0.001 < t < e.marks["idle"]]
    require(not calm, what + f"tasks are asked back at {calm[:3]} although no worker is idle", "balance")
    t0 = last_seen[b"idle-worker"]
    first = [t for t, w in asked if t >= t0]
    if ls <= 0:
        require(not asked, what + "tasks are asked back", "balance")
    else:
        require(first, what + f"no task is asked back within {e.marks['end'] - t0:.1f} s", "balance")
        dtm = first[0] - t0
        require((lbt - 1) * ls - 0.1 <= dtm <= lbt * ls + 1.3, what + f"tasks are asked back after {dtm:.2f} s", "balance")
    # garbage collection
    gci, trim = cv["garbage_collect_interval_seconds"], cv["trim_memory_threshold_bytes"]
    for p in d.procs("Processor"):
        times = [t for kind, t, q, v in k.events if kind == "gc" and q is p]
        trims = [t for kind, t, q, v in k.events if kind == "trim" and q is p]
        end = p.exit_time if p.exited else k.now
        begin = [t for t, kind, sock, f in s.world.wire if sock.proc is p][:1]
        if not begin:
            continue
        points = [begin[0], *times]
        for a, b in zip(points, points[1:]):
            require(gci - 0.1 <= b - a <= gci + 1.1, what + f"{p} collects garbage after {b - a:.2f} s", "gc")
        require(end - points[-1] <= gci + 1.3, what + f"{p} collects no garbage for {end - points[-1]:.2f} s", "gc")
        if RSS[plan["rss"]] >= trim:
            require(len(trims) == len(times), what + f"{p} uses {RSS[plan['rss']]} bytes and trimmed its memory {len(trims)} of {len(times)} times", "trim")
        else:
            require(not trims, what + f"{p} uses {RSS[plan['rss']]} bytes and trimmed its memory", "trim")
    # workers leave a dead scheduler
    for w in workers:
        require(w.exited, what + f"{w} is still there {k.now - t_kill:.1f} s after the scheduler died", "death_timeout")
        after = w.exit_time - echo[w]
        require(dt - 0.01 <= after <= dt + 1.6, what + f"{w} left {after:.2f} s after it last heard from the scheduler", "death_timeout")
    require(d.cluster().exited, what + "the cluster does not end", "death_timeout")


CHECKS = [
    Check("options", plans, execute, 900, 30000,
          "random subset of the 15 options with random values, given on the command line (long, short, joined, in any order), to the constructors of "
          "SchedulerProcess and Cluster, or to SchedulerClusterCombo; non-trivial: at least one option is given"),
]
