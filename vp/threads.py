"""A client program with several threads that share clients and futures."""
from collections import defaultdict

from hypothesis import strategies as st

from .core import Violation
from .core import require
from . import preempt as P

P.instrument("scaled.client", "scaled.io.sync_connector")

from . import simlib as L  # noqa: E402
from . import userfns as U  # noqa: E402

NF = 4


def tops(extra=(), size=8, disconnect=False):
    f = st.integers(0, NF - 1)
    sub = st.tuples(st.just("f"), f, st.sampled_from([0, 0, 0, 1, 2, 3, 4]), st.sampled_from([1, 1, 2, 4]), st.sampled_from([False, False, True])).map(list)
    g = st.tuples(st.just("g"), st.lists(st.tuples(f, st.lists(st.integers(0, 3), max_size=2)).map(list), min_size=1, max_size=4), st.sampled_from([False, False, True])).map(list)
    m = st.tuples(st.just("m"), f, st.integers(0, 4)).map(list)
    ops = [sub, sub, sub, g, m, L.sleep_op(), L.wait_op(), *extra]
    if disconnect:
        ops.append(st.just(["d"]))
    return st.lists(st.one_of(*ops), min_size=1, max_size=size)


class Program:
    def __init__(self, s, threads, kinds, nclients=1):
        self.s = s
        self.k = s.k
        self.kinds = kinds
        self.threads = threads
        self.recs = []
        self.own = defaultdict(list)
        self.fns = {}
        self.finished = False
        self.nclients = nclients
        self.clients = []
        self.errors = []
        self.disconnected = {}
        self.last = []
        self.refusing = False
        self.preempt = None
        self.gap = 1 << 30

    # runs inside the client process
    def main(self):
        import threading

        self.before_start()
        self.clients = [L.W.Client(L.ADDRESS) for _ in range(self.nclients)]
        ts = [threading.Thread(target=self.thread, args=(i, ops), name=f"user{i}", daemon=True) for i, ops in enumerate(self.threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.joined()
        self.finished = True
        import time

        time.sleep(1000)

    def before_start(self):
        pass

    def joined(self):
        for i, c in enumerate(self.clients):
            if i not in self.disconnected:
                rec = self.submit(i, 0, 0.0, False, "last")
                self.last.append(rec)
                self.wait(rec, 100)

    def thread(self, i, ops):
        for op in ops:
            self.do(i, op)

    def client(self, i):
        return i % len(self.clients)

    def fn(self, i, fresh=False):
        if fresh or i not in self.fns:
            f = U.LOOKALIKE[self.kinds[i]](f"f{i}")
            if fresh:
                return f
            self.fns[i] = f
        return self.fns[i]

    def track(self, rec, thread):
        self.recs.append(rec)
        self.own[thread].append(rec)

        def cb(f):
            rec.done_t = self.k.now
            rec.outcomes.append(self.k.now)

        rec.fut.add_done_callback(cb)
        return rec

    def token(self, thread):
        self.k.uuid_seq += 1
        return f"t{thread}.{self.k.uuid_seq}"

    def submit(self, c, f, dur, fresh, thread):
        tok = self.token(thread)
        t = self.k.now
        fut = self.clients[c].submit(self.fn(f, fresh), tok, dur)
        return self.track(L.Rec(client=c, token=tok, fut=fut, kind="task", value=(f"f{f}", tok), fn=f"f{f}", t=t, dur=dur), thread)

    def wait(self, rec, timeout=None):
        import concurrent.futures as cf

        try:
            rec.fut.exception(timeout)
        except (cf.TimeoutError, cf.CancelledError):
            pass

    def expect_disconnect(self, c, call):
        """calls that block may fail when the client is disconnected, and only then"""
        try:
            return call()
        except Exception as e:
            if c in self.disconnected and type(e).__name__ == "ScaledDisconnect":
                return None
            if self.refusing and type(e).__name__ in ("ScaledNoWorker", "ScaledDisconnect"):
                # the client disconnects in this case
                self.disconnected.setdefault(c, self.k.now)
                return None
            raise

    def do(self, i, op):
        import time

        kind = op[0]
        c = self.client(i)
        if kind == "f":
            for _ in range(op[3]):
                self.submit(c, op[1], L.DURS[op[2]], op[4], i)
        elif kind == "g":
            self.graph(i, c, op)
        elif kind == "m":
            toks = [self.token(i) for _ in range(op[2])]
            got = self.expect_disconnect(c, lambda: self.clients[c].map(self.fn(op[1]), [(t,) for t in toks]))
            if got is not None:
                require(got == [(f"f{op[1]}", t) for t in toks], f"map over {toks} with f{op[1]} returned {got}", "map")
        elif kind == "z":
            time.sleep(L.TIMES[op[1]])
        elif kind == "w":
            rs = self.own[i]
            if rs:
                self.wait(rs[op[1] % len(rs)])
        elif kind == "D":
            # disconnected by another thread while this one is in the middle of something
            def action():
                if op[3]:
                    self.disconnected.setdefault(c, self.k.now)
                    threading.Thread(target=self.clients[c].disconnect, daemon=True).start()

            import threading

            self.preempt.set_trap(self.gap, action, 0.4 if op[3] else 1.5)
            self.do(i, op[2])
            self.preempt.trap = None
        elif kind == "d":
            self.disconnected.setdefault(c, self.k.now)
            self.clients[c].disconnect()
        else:
            self.other(i, op)

    def graph(self, i, c, op):
        g, keys, values = {}, [], {}
        for j, (f, deps) in enumerate(op[1]):
            tok = self.token(i)
            g[f"c{j}"] = tok
            g[f"z{j}"] = 0.0
            after = [f"n{x % j}" for x in deps if j]
            g[f"n{j}"] = (U.gthread, f"c{j}", *after) if after else (self.fn(f), f"c{j}", f"z{j}")
            values[f"n{j}"] = ("g", tok, tuple(values[x] for x in after)) if after else (f"f{f}", tok)
            keys.append(f"n{j}")
        t = self.k.now
        if op[2]:
            got = self.expect_disconnect(c, lambda: self.clients[c].get(g, keys))
            if got is not None:
                require(got == values, f"get returned {got}, expected {values}", "get")
            return
        for key, fut in self.clients[c].get(g, keys, block=False).items():
            self.track(L.Rec(client=c, token=f"{g['c' + key[1:]]}", fut=fut, kind="node", value=values[key], t=t), i)


def own_outcome(p, r):
    o = L.outcome(r)
    if o == ("value", r.value):
        return
    if o[0] == "exc" and type(o[1]).__name__ == "ScaledDisconnect" and r.client in p.disconnected:
        return
    raise Violation(f"{r.kind} {r.token} submitted at t={r.t:.4f} has outcome {o!r}, expected {r.value!r}", "outcome")
