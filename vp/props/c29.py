"""C29 shutting a cluster down leaves no process behind"""
import json
import signal
from collections import defaultdict

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import processes_of
from ..core import Violation
from ..core import require
from .. import simlib as L
from ..schedsim import M

TECHNIQUE = "random deployments, programs and moments of SIGINT and SIGTERM (Hypothesis) in a simulator and on real processes; oracle: process table, files, messages the scheduler gets, tasks of the departed workers"
LEVEL_NOTE = "Exploration: seeded random moments (in time and relative to messages) in a simulator that models signal delivery to starting, running and ending processes (trusts that simulator), plus a smaller number on real processes."
ASSUMPTIONS = ["simulated environment is faithful", "tasks do not block SIGTERM",
               "a signal that reaches a process before it could install its handlers ends that process, which then has nothing to clean up"]
TIMES = [0.0, 0.01, 0.05, 0.12, 0.16, 0.2, 0.3, 0.32, 0.45, 0.7, 1.0, 1.6, 2.2, 3.1, 4.5, 7.0, 12.0]
DURS = [0.0, 0.003, 0.05, 0.3, 1.1, 4.0, 30.0]
COSTS = [0.0, 0.004, 0.08]
SIGS = {"I": signal.SIGINT, "T": signal.SIGTERM}
GAPS = [0.0, 0.0, 0.0001, 0.001, 0.01, 0.2, 1.0, 1.3, 3.0]


def plans():
    dur = st.sampled_from([0, 1, 2, 3, 3, 4, 4, 5, 6])
    ops = [st.tuples(st.just("b"), st.integers(0, 3), dur, st.just("ok"), st.integers(1, 9)).map(list), L.sleep_op(),
           st.tuples(st.just("b"), st.integers(0, 3), dur, st.sampled_from(["ok", "raise"]), st.integers(1, 3)).map(list),
           st.tuples(st.just("c"), st.integers(0, 30)).map(list), st.just(["die"])]
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4, 8]), "ops": st.lists(st.one_of(*ops), min_size=1, max_size=6)})
    t = st.one_of(st.integers(0, len(TIMES) - 1), st.integers(6, len(TIMES) - 1))
    moment = st.one_of(t.map(lambda i: ["t", i]), st.tuples(st.just("m"), st.integers(1, 90), st.integers(0, len(GAPS) - 1)).map(list),
                       st.tuples(st.just("p"), st.integers(1, 9), st.integers(0, len(GAPS) - 1)).map(list))
    sig = st.sampled_from("IT")
    more = st.lists(st.tuples(st.integers(0, len(GAPS) - 1), sig).map(list), max_size=2)
    return st.fixed_dictionaries({
        **L.net_plan(), "mode": st.sampled_from(["class", "class", "entry", "combo"]), "n": st.sampled_from([1, 1, 1, 2, 2, 3, 3, 5, 5, 13]),
        "sched": st.sampled_from([0, 0, 0, 0, 2, None]), "other": st.sampled_from([None, 0, 0, 0, 9]), "rescue": st.integers(0, 1),
        "cl": st.one_of(st.lists(client, max_size=2), st.lists(client, min_size=1, max_size=2)), "at": moment, "sig": sig, "more": more, "group": st.sampled_from([0, 0, 1, 2]),
        "tick": st.sampled_from([0, 0, 1, 2, 3]), "spawn": st.sampled_from([0, 0, 1, 2, 3]), "cspawn": st.sampled_from([0, 0, 1, 2]), "cost": st.sampled_from([0, 0, 1, 2]),
        "dt": st.sampled_from([10, 10, 10, 3]), "drop": st.sampled_from([0, 0, 1])})


class Run(L.ClientRun):
    def do(self, op):
        if op[0] == "b":
            for _ in range(op[4]):
                self.submit(op[1], DURS[op[2]], op[3])
        elif op[0] == "c":
            if self.recs:
                r = self.recs[op[1] % len(self.recs)]
                r.fut.cancel()
        elif op[0] == "die":
            from .. import badfns

            tok = f"c{self.index}.{len(self.recs)}"
            fut = self.client.submit(badfns.dies, tok, "exit0", 0.0)
            self.track(L.Rec(client=self.index, idx=len(self.recs), token=tok, fut=fut, kind="die", t=self.world.k.now))
        else:
            super().do(op)


def tree(p):
    out = [p]
    for c in p.children:
        out += tree(c)
    return out


class Sys(L.System):
    def begin(self):
        plan, w, k = self.plan, self.world, self.k
        self.combo = None
        if plan["mode"] == "combo":
            def main():
                from scaled.cluster.combo import SchedulerClusterCombo
                import time

                self.combo = SchedulerClusterCombo(L.ADDRESS, plan["n"], death_timeout_seconds=plan["dt"])
                while not self.shut:
                    time.sleep(0.01)
                procs = processes_of(self.combo)
                if plan["drop"]:
                    # nobody refers to it any longer
                    import gc

                    self.combo = None
                    time.sleep(0.5)
                    gc.collect()
                else:
                    for g in self.shut:
                        time.sleep(g)
                        self.combo.shutdown()
                for p in procs:
                    p.join()
                self.joined = k.now

            self.shut = []
            self.top = w.program(main, name="combo")
            self.joined = None
        else:
            if plan["sched"] is not None:
                self.sched = w.scheduler(delay=TIMES[plan["sched"]])
            if plan["mode"] == "entry":
                import sys

                from scaled.entry_points import cluster

                def run():
                    sys.argv = ["scaled_cluster", "-n", str(plan["n"]), "-dt", str(plan["dt"]), L.ADDRESS]
                    cluster.main()

                self.top = w.program(run, name="cluster")
            else:
                self.top = w.cluster(plan["n"], death_timeout_seconds=plan["dt"])
            if plan["other"] is not None:
                self.other = w.worker(delay=TIMES[plan["other"]], name="other", death_timeout_seconds=10000)
            else:
                self.other = None
        for i, cp in enumerate(plan["cl"]):
            run = Run(self.world, i, cp["ops"], {})
            run.proc = w.program(run.main, name=f"client{i}", delay=L.TIMES[cp["d"]])
            self.clients.append(run)
        k.spawn_latency = lambda p: L.SPAWN[plan["spawn"]] if p.parent is not None and p.parent.kind == "Worker" else L.SPAWN[plan["cspawn"]]
        k.start_cost = lambda p: COSTS[plan["cost"]]

        def on_spawn(p):
            if p.kind == "Worker":
                p.tick = L.TICKS[plan["tick"]]

        k.on_spawn = on_spawn

    def wait_for_moment(self):
        """run until the signal is due"""
        plan, k = self.plan, self.k
        at = plan["at"]
        if at[0] == "t":
            self.run(None, TIMES[at[1]])
            return
        count = [0]
        if at[0] == "m":
            def tap(kind, sock, frames):
                if sock.proc is not None and sock.proc.kind in ("Worker", "Processor") and kind in ("send", "recv"):
                    count[0] += 1

            k.taps.append(tap)
            self.run(lambda: count[0] >= at[1], t=20)
            k.taps.remove(tap)
        else:
            self.run(lambda: len(k.procs) - len(self.clients) >= at[1] + 2, t=5)
        if GAPS[at[2]]:
            self.run(None, GAPS[at[2]])

    def deliver(self, name):
        k = self.k
        if self.plan["group"]:
            procs = [p for p in tree(self.top) if not p.exited]
            if self.plan["group"] == 2:
                procs.reverse()
        else:
            procs = [self.top]
        for p in procs:
            if not p.exited and not p.reaped:
                k.send_signal(p.pid, SIGS[name])


def execute(plan):
    with Sys({**plan, "wk": []}, max_steps=800_000) as s:
        k = s.k
        s.begin()
        s.wait_for_moment()
        combo = plan["mode"] == "combo"
        cluster = next((p for p in tree(s.top) if p.kind in ("Cluster", "cluster")), None) if combo else s.top
        agents = [p for p in tree(s.top) if p.kind == "Worker" and not p.exited]
        before = len(s.world.wire)
        executing = executing_tasks(s)
        t_first = k.now
        if combo:
            s.shut = [0.0, *[GAPS[g] for g, _ in plan["more"]]]
            s.run(None, sum(s.shut))
        else:
            s.deliver(plan["sig"])
            for g, name in plan["more"]:
                if GAPS[g]:
                    s.run(None, GAPS[g])
                s.deliver(name)
        t_sig = k.now
        gone = lambda: all(p.exited for p in tree(s.top))
        s.run(gone, t=25)
        lat = max([L.LAT[i] for i in plan["lat"]] + [0.001])
        if not gone():
            left = [p for p in tree(s.top) if not p.exited]
            raise Violation(f"{left} still run {k.now - t_sig:.1f} s after the signal at t={t_first:.4f} ({len(tree(s.top))} processes were started)", "left")
        t_gone = k.now
        # the slowest part is a process that was just being started when the signal arrived
        bound = 2.0 + 2 * L.SPAWN[plan["spawn"]] + 2 * L.SPAWN[plan["cspawn"]] + 60 * L.TICKS[plan["tick"]] + 2 * COSTS[plan["cost"]]
        require(t_gone - t_sig <= bound, f"the cluster took {t_gone - t_sig:.2f} s to end after the signal at t={t_first:.4f}", "slow")
        for c in k.crashes:
            if isinstance(c["obj"], Violation):
                raise c["obj"]
            starting = c["type"] == "KeyboardInterrupt" and plan["group"] or c["proc"] == "Processor"
            require(starting, s.crash_text(), "crash")
        for p in tree(s.top):
            require(not p.ipc_paths or p.kind == "SchedulerProcess" or killed_at_start(p), f"{p} left its communication file {sorted(p.ipc_paths)}", "file")
        labels = {plan["mode"], "busy" if executing else "idle"}
        if t_gone - t_first < 0.001:
            labels.add("at-once")
        if plan["group"]:
            labels.add("group")
        if combo:
            return Case(bool(agents), sorted(labels | ({"dropped"} if plan["drop"] else set())))
        if plan["sched"] is None:
            labels.add("no-scheduler")
            return Case(bool(agents), sorted(labels))
        # the scheduler knows and others take over
        rescue = s.other is None and plan["rescue"] and s.clients
        if rescue:
            s.world.worker(delay=0.5, name="rescue", death_timeout_seconds=10000)
        resolved = lambda: all(c.finished or c.proc.exited for c in s.clients) and all(L.outcome(r)[0] != "pending" for r in s.recs())
        if s.other is not None or rescue:
            s.run(resolved, t=120 + sum(DURS[op[2]] * op[4] * 1.5 for c in plan["cl"] for op in c["ops"] if op[0] == "b"))
            require(resolved(), L.describe_pending(s.recs()), "hang")
            labels.add("handed-over")
        s.run(None, 3.0 + 2 * lat)
        for c in k.crashes:
            require(c["type"] == "KeyboardInterrupt" and plan["group"] or c["proc"] == "Processor", s.crash_text(), "crash")
        for r in s.recs():
            o = L.outcome(r)
            if o[0] == "pending" or o[0] == "cancelled" or r.kind == "die":
                continue
            if plan["group"] and o[0] == "exc" and "processor ended" in str(o[1]):
                continue  # the signal ended the task itself, and its worker noticed that before its own signal
            L.check_own_outcome(r)
        moved = told(s, plan, agents, t_first, lat)
        if moved:
            labels.add("moved")
        return Case(bool(agents), sorted(labels))


def killed_at_start(p):
    return p.exit_code is not None and p.exit_code < 0 and not p.children


def executing_tasks(s):
    started, ended = {x[3] for x in s.k.log if x[0] == "start"}, {x[3] for x in s.k.log if x[0] == "end"}
    return started - ended


def told(s, plan, agents, t_first, lat):
    ident = {}
    left = {}
    owner = {}
    due = {}
    moved = 0
    connected = set()
    dead_sched = s.sched.exited
    require(not dead_sched, "scheduler ended", "crash")
    for t, kind, sock, frames in s.world.wire:
        if kind == "send" and sock.type == L.DEALER and sock.proc is not None and sock.proc.kind == "Worker":
            ident[sock.identity] = sock.proc
        for tid, (at, w) in list(due.items()):
            if t > at and any(x not in left for x in connected):
                raise Violation(f"a task of {w} that left at t={left[w]:.4f} is not given to another worker at t={t:.4f}", "handover")
        if kind == "pub":
            m = L.W.decode(frames)
            if isinstance(m, M.SchedulerState):
                names = {x["worker"].encode() for x in json.loads(m.data)["worker_manager"]}
                for w, at in left.items():
                    require(w not in names, f"worker {w} said at t={at:.4f} that it leaves and is still listed at t={t:.4f}", "listed")
        if sock.type != L.ROUTER:
            continue
        if kind == "pop":
            m = L.W.decode(frames[1:])
            if isinstance(m, M.Heartbeat):
                connected.add(frames[0])
                if len(connected - set(left)) == 1:
                    for x, (at, w) in due.items():
                        due[x] = (t + 0.7, w)
            elif isinstance(m, M.DisconnectRequest):
                require(m.worker == frames[0], f"{frames[0]} says that {m.worker} leaves", "identity")
                require(frames[0] not in left, f"{frames[0]} says twice that it leaves", "identity")
                left[frames[0]] = t
                for x, w in list(owner.items()):
                    if w == frames[0]:
                        del owner[x]
                        due[x] = (t + 0.7, w)
            elif isinstance(m, M.TaskResult):
                owner.pop(m.task_id, None)
                due.pop(m.task_id, None)
            elif isinstance(m, M.TaskCancel):
                owner.pop(m.task_id, None)
                due.pop(m.task_id, None)
            elif isinstance(m, M.BalanceResponse):
                for x in m.task_ids:
                    owner.pop(x, None)
        elif kind == "send":
            m = L.W.decode(frames[1:])
            if isinstance(m, M.Task):
                require(frames[0] not in left, f"a task is sent to {frames[0]} after it said that it leaves", "stranger")
                owner[m.task_id] = frames[0]
                moved += due.pop(m.task_id, None) is not None
        elif kind == "drop":
            pass
    for w in connected:
        p = ident.get(w)
        if p is not None and p in agents:
            require(w in left, f"{p} ended after the signal at t={t_first:.4f} and did not tell the scheduler", "silent")
    return moved


def real_plans():
    sig = st.sampled_from(["SIGINT", "SIGTERM"])
    return st.fixed_dictionaries({
        "n": st.sampled_from([1, 2, 4]), "sched": st.sampled_from([True, True, True, False]), "tasks": st.sampled_from([0, 1, 5, 12]),
        "dur": st.sampled_from([0.0, 0.1, 1.5]), "wait": st.sampled_from([True, True, False]),
        "at": st.sampled_from([0.0, 0.05, 0.3, 0.8, 1.5, 3.0]), "group": st.booleans(),
        "sigs": st.tuples(st.tuples(st.just(0.0), sig).map(list), st.lists(st.tuples(st.sampled_from([0.0, 0.01, 0.3]), sig).map(list), max_size=1))
        .map(lambda x: [x[0], *x[1]])})


def real_execute(plan):
    from .. import real

    res = real.attempt("shutdown", plan, 150)
    return Case(plan["wait"], [*res.get("labels", []), *(["group"] if plan["group"] else [])])


CHECKS = [
    Check("signals", plans, execute, 2400, 100000,
          "a cluster (class, command line program or combined deployment) of 1-5 workers, other workers, clients with tasks that last, fail, are canceled or "
          "end their process; up to three signals to the cluster or to its whole process group at a random time or message; non-trivial: a worker existed"),
    Check("real", real_plans, real_execute, 24, 300,
          "real processes: the cluster program with 1-4 workers, with and without scheduler and tasks, gets up to two signals (itself or its process group), "
          "another cluster takes the tasks over; non-trivial: the signal came when the processors ran"),
]
