"""C24 only silent workers are expelled, workers leave a dead scheduler"""
import json

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import schedsim as S
from .. import simlib as L
from ..schedsim import M

TECHNIQUE = "random heartbeat patterns and outages (Hypothesis) against the real scheduler and the real worker in a simulator; oracle: times at which heartbeats and echoes were handled"
LEVEL_NOTE = "Exploration: seeded random patterns in virtual time; trusts the simulator."
ASSUMPTIONS = ["simulated environment is faithful", "the heartbeat interval is shorter than the death timeout",
               "the scheduler looks for silent workers once per second, agents look for a silent scheduler once per second"]


def plans():
    # however late the worker says it hears from the scheduler
    hb = st.tuples(st.just("b"), st.integers(0, 2), st.sampled_from([123, 123, 0, 900_000, 4_000_000, 10**9])).map(list)
    ops = [hb, hb, hb, hb, S.op_submit(most=4), S.op_result(), S.gap(), S.gap(), S.op_disconnect(),
           st.tuples(st.just("z"), st.sampled_from([5, 6, 7, 8, 9])).map(list),
           st.tuples(st.just("stall"), st.sampled_from([0.5, 1.5, 3.0])).map(list)]
    return S.plan(ops, qs=(1000, 1, 2), wt=(1, 2, 3, 5), lb=(1, 0), size=40)


class Run(S.SchedRun):
    """every heartbeat is sent by the plan"""

    def worker(self, i, lag=123):
        w = self.workers.get(i)
        if w is None or not w.alive:
            self.generation[i] += 1
            w = self.workers[i] = S.FakeWorker(self, i, b"worker-%d-%d" % (i, self.generation[i]))
        w.lag = lag
        w.heartbeat()
        return w

    def other(self, op):
        if op[0] == "b":
            self.worker(op[1], op[2])
        else:
            self.sched.stalled_until = self.k.now + op[1]


def execute(plan):
    with Run(plan) as s:
        s.execute()
        s.settle(1.5)
        wt = plan["wt"]
        last = {}
        left = set()
        listed_gone = set()
        kept = gone = back = 0
        busy_until = 0.0
        prev = 0.0
        for t, d, peer, m in S.events(s.world):
            # whatever held the scheduler up delays its looking for silent workers as well
            if t - prev > 1.3:
                busy_until = t + 1.2
            prev = t
            if d == "in" and isinstance(m, M.Heartbeat):
                if peer in listed_gone:
                    back += 1
                    listed_gone.discard(peer)
                last[peer] = t
                left.discard(peer)
            elif d == "in" and isinstance(m, M.DisconnectRequest):
                left.add(m.worker)
                listed_gone.discard(m.worker)
            elif d == "out" and isinstance(m, M.Task):
                require(peer in last and peer not in left, f"task handed to {peer} which is not connected", "stranger")
                silent = t - last[peer]
                if t > busy_until:
                    require(silent <= wt + 1.25, f"a task is handed to {peer} at t={t:.4f}, silent for {silent:.3f} s with a timeout of {wt} s", "task")
            elif d == "pub" and isinstance(m, M.SchedulerState):
                seen = {x["worker"].encode() for x in json.loads(m.data)["worker_manager"]}
                for w, at in last.items():
                    if w in left:
                        require(w not in seen, f"{w} left but is listed at t={t:.4f}", "left")
                        continue
                    silent = t - at
                    if silent <= wt:
                        kept += 1
                        require(w in seen, f"{w} is treated as dead at t={t:.4f}, heard {silent:.3f} s ago with a timeout of {wt} s", "expelled")
                    elif silent > wt + 1.25 and t > busy_until:
                        gone += 1
                        require(w not in seen, f"{w} is still listed at t={t:.4f}, silent for {silent:.3f} s with a timeout of {wt} s", "kept")
                    if w not in seen:
                        listed_gone.add(w)
        # a task is never taken from a worker that is heard
        s.drain(40)
        for e, m in s.history():
            if e[1] == "out" and isinstance(e[3], M.Task) and e[3].task_id in m.at:
                w = m.at[e[3].task_id]
                require(w not in m.workers or m.silent(w), f"task {e[3].task_id} of {w} is handed out again at t={e[0]:.4f} although {w} is heard", "taken")
        return Case(bool(gone), [x for x, y in (("kept", kept), ("gone", gone), ("back", back)) if y])


# ---- the worker's side
def worker_plans():
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2), "hb": st.sampled_from([1, 2]), "dt": st.sampled_from([3, 4, 6, 9]),
        "down": st.sampled_from([None, 0, 3, 8, 10, 11, 12, 13, 14]), "kill": st.booleans(),
        "stall": st.lists(st.tuples(st.sampled_from([0.2, 1.0, 2.5, 4.0]), st.sampled_from([0.3, 1.2, 2.4, 3.5, 5.0])).map(list), max_size=3),
        "load": st.sampled_from([[0.1, 1 << 20], [0.0, 0], [655.4, 1 << 33], [70000.0, 1 << 45], [1e9, (1 << 63) - 1]]),
        "tasks": st.lists(st.tuples(st.sampled_from([0, 3, 5, 6, 7]), st.integers(1, 3)).map(list), max_size=3)})


def worker_execute(plan):
    with L.System(dict(plan, cl=[])) as s:
        k = s.k

        def spawned(p):
            p.cpu, p.rss = plan["load"]

        k.on_spawn = spawned
        s.start(worker_cfg=dict(heartbeat_interval_seconds=plan["hb"], death_timeout_seconds=plan["dt"]))
        dt = plan["dt"]

        def main():
            c = L.W.Client(L.ADDRESS)
            n = 0
            for d, cnt in plan["tasks"]:
                for _ in range(cnt):
                    c.submit(L.U.work0, f"x{n}", L.DURS[d])
                    n += 1
            import time

            time.sleep(1000)

        if plan["tasks"]:
            s.world.program(main)
        down_at = None
        for gap, dur in plan["stall"]:
            s.run(None, gap)
            s.sched.stalled_until = k.now + dur
            s.run(None, dur)
        if plan["down"] is not None:
            s.run(None, L.TIMES[plan["down"]])
            down_at = k.now
            k.kill_proc(s.sched)
            s.run(None, dt + 20)
        else:
            s.run(None, dt + 8)
        s.no_crash()
        heard = {}
        for t, kind, sock, frames in s.world.wire:
            if kind == "pop" and sock.type == L.DEALER and sock.proc.kind == "Worker":
                if isinstance(L.W.decode(frames), M.HeartbeatEcho):
                    heard.setdefault(sock.proc, []).append(t)
        died = 0
        for w in s.workers:
            h = heard.get(w, [])
            if not w.main.os_started:
                continue
            end = w.exit_time if w.exited else k.now
            begin = L.TIMES[plan["wk"][s.workers.index(w)]["d"]]
            # never while it hears the scheduler
            points = [begin, *h]
            if w.exited:
                died += 1
                # what arrives at the very moment, or while the worker winds down, may come after its look at the clock
                quiet = end - max(x for x in points if x < end - 0.05 or x == begin)
                require(quiet >= dt - 0.01, f"{w} ended at t={end:.4f} although it heard the scheduler {quiet:.3f} s ago, death timeout {dt} s", "early")
                for p in w.children:
                    require(p.exited and p.exit_time <= end + 0.5, f"{w} ended but its processor {p} did not", "processor")
                require(not w.ipc_paths, f"{w} ended but left {w.ipc_paths}", "files")
            for a, b in zip(points, points[1:] + [end]):
                require(b - a <= dt + 2.2, f"{w} heard nothing from t={a:.4f} on and still runs at t={b:.4f}, death timeout {dt} s", "late")
        if down_at is not None:
            for w in s.workers:
                require(w.exited, f"{w} still runs {k.now - down_at:.1f} s after the scheduler ended, death timeout {dt} s", "late")
        return Case(bool(died) or any(x > dt for _, x in plan["stall"]), [x for x, y in (("died", died), ("outlived-stall", plan["stall"] and not died)) if y])


CHECKS = [
    Check("scheduler", plans, execute, 2000, 60000,
          "scripted heartbeats with random gaps around the timeout, tasks, stalls of the scheduler; non-trivial: a worker had to be given up"),
    Check("worker", worker_plans, worker_execute, 600, 20000,
          "real workers whose scheduler stalls or dies at a random moment, extreme loads; non-trivial: a worker had to end"),
]
