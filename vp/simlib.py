"""Scenario plans (plain JSON), their Hypothesis strategies, and their execution in the simulator."""
from collections import defaultdict

from hypothesis import strategies as st

from .core import Inconclusive
from .core import Violation
from .core import require
from .sim import world as W
from .sim.world import M
from .sim.world import World
from . import userfns as U

ADDRESS = W.ADDRESS

# index -> seconds; index 0 is the ordinary value so that plans shrink towards an undisturbed run
LAT = [0.0002, 0.0, 0.00005, 0.001, 0.004, 0.02, 0.06, 0.2, 0.6]
TIMES = [0.0, 0.0003, 0.001, 0.004, 0.02, 0.05, 0.1, 0.16, 0.3, 0.6, 1.0, 1.3, 2.1, 3.5, 6.0]
DURS = [0.0, 0.0005, 0.003, 0.02, 0.1, 0.4, 1.1, 2.5]
TICKS = [20e-6, 2e-6, 200e-6, 2e-3]
SPAWN = [0.15, 0.0, 0.01, 0.7, 2.5]


def lat_list(max_size=16):
    return st.lists(st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8]), max_size=max_size)


def idx(table):
    return st.integers(0, len(table) - 1)


def net_plan():
    return {"lat": lat_list(), "salt": st.integers(0, 7)}


def worker_plan():
    return st.fixed_dictionaries(
        {"d": st.sampled_from([0, 0, 0, 4, 6, 8, 10, 12]), "tick": st.sampled_from([0, 0, 1, 2, 3]),
         "spawn": st.sampled_from([0, 0, 1, 2, 3, 4])}
    )


def submit_op(outs=("ok",), durs=None):
    d = st.sampled_from(durs) if durs is not None else st.sampled_from([0, 0, 0, 1, 2, 3, 3, 4, 5, 6])
    return st.tuples(st.just("s"), st.integers(0, 3), d, st.sampled_from(list(outs))).map(list)


def burst_op(outs=("ok",)):
    """n submissions in a row"""
    return st.tuples(st.just("b"), st.integers(0, 3), st.sampled_from([0, 0, 1, 2, 3, 4]), st.sampled_from(list(outs)),
                     st.integers(1, 12)).map(list)


def sleep_op():
    return st.tuples(st.just("z"), st.integers(1, 13)).map(list)


def wait_op():
    return st.tuples(st.just("w"), st.integers(0, 30)).map(list)


class Rec:
    """one submission of a client"""

    __slots__ = ("client", "idx", "token", "fut", "kind", "out", "dur", "t", "done_t", "outcomes", "value", "exc", "fn",
                 "extra", "error")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, None)
        for k, v in kw.items():
            setattr(self, k, v)
        self.outcomes = []


class ClientRun:
    def __init__(self, world, index, plan, spec=None):
        self.world = world
        self.index = index
        self.ops = plan
        self.recs = []
        self.client = None
        self.disconnected_at = None
        self.proc = None
        self.finished = False
        self.spec = spec or {}
        self.errors = []
        self.at_exit = None

    def track(self, rec):
        k = self.world.k
        self.recs.append(rec)

        def cb(f, rec=rec):
            rec.done_t = k.now
            rec.outcomes.append(k.now)

        rec.fut.add_done_callback(cb)
        return rec

    def token(self):
        return f"c{self.index}.{len(self.recs)}"

    def submit(self, f, dur, out):
        tok = self.token()
        fn = U.WORK[f]
        fut = self.client.submit(fn, tok, dur, out)
        return self.track(Rec(client=self.index, idx=len(self.recs), token=tok, fut=fut, kind="task", out=out, dur=dur,
                              t=self.world.k.now, fn=f))

    def make_client(self):
        return W.Client(ADDRESS)

    def main(self):
        self.client = self.make_client()
        for op in self.ops:
            self.do(op)
        self.finished = True
        if self.spec.get("wait_all", True):
            for r in self.recs:
                self.wait(r)
        if self.at_exit is not None:
            self.at_exit(self)

    def wait(self, rec, timeout=None):
        import time

        # poll-free wait: a done callback may have been registered already
        try:
            rec.fut.exception(timeout)
        except BaseException as e:  # noqa
            if type(e).__name__ in ("SimKill",):
                raise
            if type(e).__name__ not in ("TimeoutError", "CancelledError"):
                raise

    def do(self, op):
        import time

        kind = op[0]
        if kind == "s":
            self.submit(op[1], DURS[op[2]], op[3])
        elif kind == "b":
            for _ in range(op[4]):
                self.submit(op[1], DURS[op[2]], op[3])
        elif kind == "z":
            time.sleep(TIMES[op[1]])
        elif kind == "w":
            if self.recs:
                self.wait(self.recs[op[1] % len(self.recs)], self.spec.get("wait_timeout"))
        elif kind == "d":
            if self.disconnected_at is None:
                self.disconnected_at = self.world.k.now
                self.client.disconnect()
        else:
            self.other(op)

    def other(self, op):
        raise AssertionError(op)


class System:
    """a full deployment of real components driven by a plan"""

    client_class = ClientRun

    def __init__(self, plan, max_steps=400_000, client_class=None):
        self.plan = plan
        self.world = World(lat=[LAT[i] for i in plan.get("lat", [])], salt=plan.get("salt", 0), max_steps=max_steps)
        self.k = self.world.k
        self.workers = []
        self.clients = []
        if client_class:
            self.client_class = client_class
        spawns = {}
        self._spawns = spawns
        self.k.spawn_latency = lambda p: spawns.get(id(p.parent), 0.15)
        self.sched = None

    def start(self, sched_cfg=None, sched_delay=0.0, worker_cfg=None):
        self.sched = self.world.scheduler(delay=sched_delay, **(sched_cfg or {}))
        for i, wp in enumerate(self.plan.get("wk", [])):
            self.add_worker(wp, **(worker_cfg or {}))
        for i, cp in enumerate(self.plan.get("cl", [])):
            self.add_client(i, cp)
        return self

    def add_worker(self, wp, **cfg):
        p = self.world.worker(delay=TIMES[wp["d"]], name=f"worker{len(self.workers)}", **cfg)
        p.tick = TICKS[wp["tick"]]
        self._spawns[id(p)] = SPAWN[wp["spawn"]]
        self.workers.append(p)
        return p

    def add_client(self, i, cp, spec=None):
        run = self.client_class(self.world, i, cp["ops"], spec)
        run.proc = self.world.program(run.main, name=f"client{i}", delay=TIMES[cp["d"]])
        if self.clients and self.plan.get("salt", 0) % 2:
            # the clients live in one process
            run.proc.os_pid = self.clients[0].proc.pid
        self.clients.append(run)
        return run

    def recs(self):
        return [r for c in self.clients for r in c.recs]

    def clients_finished(self):
        return all(c.proc.exited for c in self.clients)

    def all_done(self):
        return all(c.finished or c.proc.exited for c in self.clients) and all(
            r.fut.done() if False else r.fut._state in ("FINISHED", "CANCELLED", "CANCELLED_AND_NOTIFIED")
            for r in self.recs()
        )

    def run(self, until=None, t=300.0):
        r = self.world.run(until, t)
        if r == "steps":
            raise Inconclusive("step budget")
        return r

    def close(self):
        self.world.close()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        try:
            self.close()
        except W.HarnessError:
            if et is None:
                raise

    # ---- oracles
    def crash_text(self):
        c = self.k.crashes[0]
        return f"{c['proc']}/{c['thread']} crashed at t={c['t']:.4f}: {c['exc']}\n{c['tb'][-1500:]}"

    def no_crash(self, ignore=()):
        for c in self.k.crashes:
            if isinstance(c["obj"], Violation):
                raise c["obj"]
            if c["proc"].startswith("client") and c["thread"] == "main":
                from .run import from_repo

                if from_repo(c["obj"]):
                    raise Violation("a call of the client library raised: " + self.crash_text(), "raised")
                raise W.HarnessError("client program failed: " + c["tb"])
        if self.k.crashes:
            raise Violation(self.crash_text(), "crash")

    def starts(self):
        d = defaultdict(list)
        for kind, t, pid, tok in self.k.log:
            if kind == "start":
                d[tok].append((t, pid))
        return d

    def ends(self):
        d = defaultdict(list)
        for kind, t, pid, tok in self.k.log:
            if kind == "end":
                d[tok].append((t, pid))
        return d


def outcome(rec):
    """('value', v) | ('exc', e) | ('cancelled',) | ('pending',)"""
    f = rec.fut
    s = f._state
    if s in ("CANCELLED", "CANCELLED_AND_NOTIFIED"):
        return ("cancelled",)
    if s != "FINISHED":
        return ("pending",)
    if f._exception is not None:
        return ("exc", f._exception)
    return ("value", f._result)


def check_own_outcome(rec):
    o = outcome(rec)
    if rec.out == "raise":
        ok = o[0] == "exc" and type(o[1]) is U.TaskError and o[1].args == (rec.token,)
    else:
        ok = o == ("value", ("r", rec.token))
    if not ok:
        raise Violation(f"task {rec.token} submitted at t={rec.t:.4f} (out={rec.out}) has outcome {o!r}", "outcome")


def describe_pending(recs):
    p = [r.token for r in recs if outcome(r)[0] == "pending"]
    return f"{len(p)} of {len(recs)} futures never resolve, first: {p[:5]}"


class Bench(System):
    """deployment of real scheduler and workers plus client programs written as python callables"""

    def __init__(self, plan, workers=1, sched=None, worker_cfg=None, **kw):
        plan = dict(plan)
        plan.setdefault("wk", [{"d": 0, "tick": 0, "spawn": 0}] * workers)
        plan["cl"] = []
        super().__init__(plan, **kw)
        self.start(sched, worker_cfg=worker_cfg)
        self.programs = []

    def go(self, *mains, t=300.0, settle=0.0):
        """run the programs (each is called with this bench) until they end"""
        procs = [self.world.program(lambda m=m: m(self), name=f"client{i}") for i, m in enumerate(mains)]
        self.run(lambda: all(p.exited for p in procs), t=t)
        self.no_crash()
        if not all(p.exited for p in procs):
            raise Violation(f"client program does not end within {t} s: a future never resolves", "hang")
        if settle:
            self.run(None, settle)
            self.no_crash()


def deep_equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and str(a) == str(b) or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(deep_equal, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(deep_equal(a[k], b[k]) for k in a)
    return a == b


# ---- what passed over the scheduler's socket
def sched_events(s, lo=0):
    """(time, 'in'|'out'|'drop', peer identity, message) in the order the scheduler handled them"""
    for t, kind, sock, frames in s.world.wire[lo:]:
        if sock.type != ROUTER:
            continue
        if kind == "pop":
            yield t, "in", frames[0], W.decode(frames[1:])
        elif kind in ("send", "drop"):
            yield t, "out" if kind == "send" else "drop", frames[0], W.decode(frames[1:])


def client_results(s):
    """messages that arrived at DEALER sockets: (time, process, message)"""
    for t, kind, sock, frames in s.world.wire:
        if kind == "recv" and sock.type == DEALER:
            yield t, sock.proc, W.decode(frames)


from .sim.net import DEALER  # noqa: E402
from .sim.net import PAIR  # noqa: E402
from .sim.net import ROUTER  # noqa: E402
