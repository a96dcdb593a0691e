"""C31 components may start in any order"""
from collections import defaultdict

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import graphs as G
from .. import simlib as L
from .. import userfns as U
from ..schedsim import M

TECHNIQUE = "random start times of scheduler, workers, clusters and clients with random programs (Hypothesis) in a simulator and on real processes; oracle: own outcomes, execution log, loads and backlog reconstructed from the wire"
LEVEL_NOTE = "Exploration: seeded random start orders and delays in virtual time (trusts that simulator), plus a smaller number on real processes."
ASSUMPTIONS = ["simulated environment is faithful",
               "a worker that waits for the scheduler longer than its death timeout may leave (documented); one worker with a long death timeout always exists",
               "a late worker gets queued work of others when the documented condition for load balancing (same advice twice, one second apart) is met"]
DELAYS = [0.0, 0.05, 0.2, 0.6, 1.2, 2.5, 4.0, 6.5, 9.0, 14.0, 27.0]
DEATH = [10, 10, 5, 30, 100]
DURS = [0.0, 0.003, 0.05, 0.3, 1.1, 2.5, 8.0]
QS = [1000, 1000, 1, 2, 5]


def delay(most=len(DELAYS) - 1):
    return st.integers(0, most)


def plans():
    dur = st.sampled_from([0, 0, 1, 2, 3, 3, 4, 5, 6])
    ops = [st.tuples(st.just("b"), st.integers(0, 3), dur, st.sampled_from(["ok", "ok", "ok", "raise"]), st.integers(1, 12)).map(list),
           st.tuples(st.just("b"), st.integers(0, 3), dur, st.just("ok"), st.integers(1, 3)).map(list),
           G.graph_op(size=6, big=False), st.tuples(st.just("G"), G.graph_op(size=5, big=False)).map(list),
           st.tuples(st.just("m"), st.integers(0, 3), dur, st.integers(0, 6)).map(list),
           st.tuples(st.just("z"), st.integers(1, 14)).map(list), L.wait_op()]
    client = st.fixed_dictionaries({"d": delay(), "ops": st.lists(st.one_of(*ops), min_size=1, max_size=6)})
    worker = st.fixed_dictionaries({"d": delay(), "tick": st.sampled_from([0, 0, 1, 2, 3]), "spawn": st.sampled_from([0, 0, 1, 2, 3, 4]),
                                    "dt": st.integers(0, len(DEATH) - 1), "hb": st.sampled_from([2, 2, 1])})
    return st.fixed_dictionaries({
        **L.net_plan(), "sd": delay(), "wk": st.lists(worker, max_size=3), "last": worker, "cluster": st.one_of(st.just(None), st.tuples(delay(), st.integers(1, 3)).map(list)),
        "cl": st.lists(client, min_size=1, max_size=3), "qs": st.sampled_from(QS), "lb": st.sampled_from([1, 1, 0])})


class Run(G.GraphRun):
    def submit(self, f, dur, out):
        return super().submit(f, dur, out)

    def do(self, op):
        if op[0] == "b":
            for _ in range(op[4]):
                self.submit(op[1], DURS[op[2]], op[3])
        else:
            super().do(op)

    def other(self, op):
        if op[0] == "m":
            self.blocked = ("map", self.world.k.now)
            args = []
            for i in range(op[3]):
                args.append((f"c{self.index}.m{self.maps}.{i}", DURS[op[2]], "ok"))
            self.maps += 1
            got = self.client.map(U.WORK[op[1]], args)
            self.blocked = None
            require(got == [("r", a[0]) for a in args], f"map over {[a[0] for a in args]} gives {got!r}", "map")
            self.mapped += [a[0] for a in args]
        elif op[0] == "G":
            self.blocked = ("get", self.world.k.now)
            prefix = f"c{self.index}.g{len(self.graphs)}"
            g, keys, toks = G.build(prefix, op[1])
            entry = {"g": g, "keys": keys, "toks": toks, "recs": [], "t": self.world.k.now}
            self.graphs.append(entry)
            got = self.client.get(g, keys)
            self.blocked = None
            vals, _ = G.local(g)
            require(list(got) == list(dict.fromkeys(keys)), f"get returned keys {list(got)}, requested {keys}", "keys")
            for x in got:
                require(L.deep_equal(got[x], vals[x]), f"get of {prefix} gives {str(got[x])[:200]} for {x}, local evaluation {str(vals[x])[:200]}", "value")
        else:
            super().other(op)

    maps = 0
    blocked = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.mapped = []


def start(s, plan):
    s.sched = s.world.scheduler(delay=DELAYS[plan["sd"]], per_worker_queue_size=plan["qs"], load_balance_seconds=plan["lb"])
    for wp in plan["wk"] + [dict(plan["last"], dt=4)]:
        p = s.world.worker(delay=DELAYS[wp["d"]], name=f"worker{len(s.workers)}", death_timeout_seconds=DEATH[wp["dt"]], heartbeat_interval_seconds=wp["hb"])
        p.tick = L.TICKS[wp["tick"]]
        s._spawns[id(p)] = L.SPAWN[wp["spawn"]]
        s.workers.append(p)
    s.cluster = None
    if plan["cluster"]:
        s.cluster = s.world.cluster(plan["cluster"][1], delay=DELAYS[plan["cluster"][0]])
    for i, cp in enumerate(plan["cl"]):
        run = Run(s.world, i, cp["ops"])
        run.proc = s.world.program(run.main, name=f"client{i}", delay=DELAYS[cp["d"]])
        s.clients.append(run)


def execute(plan):
    with L.System({**plan, "wk": [], "cl": []}, max_steps=1_500_000) as s:
        start(s, plan)
        k = s.k
        s.run(lambda: k.now > 28 and s.all_done(), t=400)
        s.no_crash()
        for c in s.clients:
            if c.blocked:
                raise Violation(f"{c.blocked[0]}() of client {c.index} called at t={c.blocked[1]:.4f} does not return", "hang")
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 1.5)
        s.no_crash()
        ran = 0
        starts = s.starts()
        gone = [w for w in s.workers if w.exited]
        left = bool(gone) or s.cluster is not None and any(p.exited for p in s.cluster.children)
        for c in s.clients:
            for e in c.graphs:
                G.check_values(e)
                if not left:
                    G.check_order(s, e)
            for r in c.recs:
                if r.kind == "task":
                    L.check_own_outcome(r)
                require(len(r.outcomes) == 1, f"future of {r.token} completed {len(r.outcomes)} times", "twice")
            tasks = [r.token for r in c.recs if r.kind == "task"] + c.mapped
            for tok in tasks:
                n = len(starts.get(tok, ()))
                require(n >= 1 and (n == 1 or left), f"{tok} was executed {n} times", "executions")
                ran += 1
        labels = set()
        sd = DELAYS[plan["sd"]]
        lat = max([L.LAT[i] for i in plan["lat"]] + [0.0])
        everyone = [(w, DELAYS[wp["d"]], L.SPAWN[wp["spawn"]], DEATH[wp["dt"]], wp["hb"]) for w, wp in zip(s.workers, plan["wk"] + [dict(plan["last"], dt=4)])]
        if s.cluster is not None:
            require(not s.cluster.exited or s.cluster.children, "cluster ended", "cluster")
            require(len(s.cluster.children) == plan["cluster"][1], f"cluster started {len(s.cluster.children)} workers instead of {plan['cluster'][1]}", "cluster")
            everyone += [(w, DELAYS[plan["cluster"][0]] + 1.0, 0.15, 10, 2) for w in s.cluster.children]
        for w, d, spawn, dt, hb in everyone:
            heard = max(sd, d + spawn + hb) + 2 * lat + 1.0
            if heard < d + dt - 1.5 and heard < k.now:
                require(not w.exited, f"{w} (started at t={d}) left although the scheduler (started at t={sd}) was there within its death timeout of {dt} s", "left")
            elif w.exited:
                labels.add("left")
        took_part(s, plan, labels)
        first = min([DELAYS[c["d"]] for c in plan["cl"]])
        if first < sd:
            labels.add("client-first")
        if any(d < sd for _, d, *_ in everyone):
            labels.add("worker-first")
        return Case(ran > 0 and bool(labels), sorted(labels))


def took_part(s, plan, labels):
    """a worker that connects while tasks wait gets some of them"""
    waiting = {}
    load = defaultdict(dict)  # worker -> tasks
    owner = {}
    first = {}
    left = set()
    got = set()
    due = {}  # worker -> latest time
    changed = {}  # time at which the set of advices last changed
    idle = {}
    qs = plan["qs"]

    def check(t):
        for w, (at, n) in list(due.items()):
            if w in got or w in left or not waiting:
                del due[w]
            elif t > at:
                raise Violation(f"worker {w} connected at t={first[w]:.4f} while {n} tasks waited, {len(waiting)} still do at t={t:.4f} and it got none", "late-waiting")
        for w, (at, what) in list(idle.items()):
            if w in got or w in left:
                del idle[w]
            elif t > at:
                raise Violation(f"worker {w} connected at t={first[w]:.4f}, others have {what} tasks since then and it has none at t={t:.4f}", "late-queued")

    for t, d, peer, m in L.sched_events(s):
        check(t)
        restart = False
        if d == "in":
            if isinstance(m, M.Task):
                waiting[m.task_id] = t
            elif isinstance(m, M.TaskCancel):
                raise AssertionError
            elif isinstance(m, M.Heartbeat):
                if peer not in first:
                    first[peer] = t
                    if waiting:
                        due[peer] = (t + 0.7, len(waiting))
                        labels.add("late-waiting")
                    restart = True
            elif isinstance(m, M.TaskResult):
                w = owner.pop(m.task_id, None)
                if w is not None:
                    load[w].pop(m.task_id, None)
                restart = True
            elif isinstance(m, M.DisconnectRequest):
                left.add(m.worker)
                for x in load.pop(m.worker, ()):
                    owner.pop(x)
                    waiting[x] = t
                restart = True
            elif isinstance(m, M.BalanceResponse):
                for x in m.task_ids:
                    if owner.get(x) == peer:
                        del owner[x]
                        load[peer].pop(x, None)
                        waiting[x] = t
                restart = True
        elif d == "out" and isinstance(m, M.Task):
            waiting.pop(m.task_id, None)
            owner[m.task_id] = peer
            load[peer][m.task_id] = t
            got.add(peer)
            restart = True
        elif d == "out" and m.__class__.__name__ == "BalanceRequest":
            restart = True
        if restart:
            idle.clear()
            most = max([len(x) for x in load.values()], default=0)
            if plan["lb"] and most >= 2:
                for w in first:
                    if w not in left and w not in got:
                        # two checks with the same advice, and what the busy worker gives back takes up to two passages there and one back
                        idle[w] = (t + 3.2 + 4 * max([L.LAT[i] for i in plan["lat"]] + [0.0]) + 0.5, most)
            if idle:
                labels.add("late-queued")
    check(s.k.now)


def real_plans():
    d = st.sampled_from([0.0, 0.0, 0.3, 1.0, 2.5])
    return st.fixed_dictionaries({
        "sd": d, "wd": st.lists(d, min_size=1, max_size=3), "cd": st.lists(d, min_size=1, max_size=2), "n": st.integers(1, 12), "dur": st.sampled_from([0.0, 0.05, 0.4]),
        "graph": st.booleans(), "qs": st.sampled_from([1000, 1])})


def real_execute(plan):
    from .. import real

    res = real.attempt("start_order", plan, 120)
    order = sorted([(plan["sd"], "s")] + [(x, "w") for x in plan["wd"]] + [(x, "c") for x in plan["cd"]])
    return Case(order[0][1] != "s" or len({x for x, _ in order}) > 1, ["first-" + order[0][1]] + list(res.get("labels", [])))


CHECKS = [
    Check("order", plans, execute, 1500, 60000,
          "scheduler, 1-4 workers, possibly a cluster, and 1-3 clients (tasks, map, graphs, blocking graphs) start at random times within 27 s; "
          "non-trivial: tasks ran and at least one component started before the scheduler or a worker joined while work was waiting or queued"),
    Check("real", real_plans, real_execute, 24, 300,
          "real processes: a scheduler, 1-3 clusters, 1-2 clients started at random times within 2.5 s; non-trivial: the scheduler is not the first or the times differ"),
]
