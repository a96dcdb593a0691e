"""C27 futures obey the standard future contract"""
from collections import Counter
from collections import defaultdict

from hypothesis import strategies as st

from .. import preempt as P
from .. import threads as T
from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import simlib as L

TECHNIQUE = "random operations of 1-3 user threads on futures while results arrive (Hypothesis), with preemption inside the client, in a simulator; oracle: the documented behaviour of concurrent.futures, judged from the recorded call intervals"
LEVEL_NOTE = "Exploration: seeded random operation and result orders under a simulated clock, network and thread scheduler; trusts that simulator."
ASSUMPTIONS = ["simulated environment is faithful", "callbacks raise Exceptions only (others are undefined by the standard library's documentation)"]
DONE = ("CANCELLED", "CANCELLED_AND_NOTIFIED", "FINISHED")
TIMEOUTS = [0.0, 0.0005, 0.02, 0.16, 0.4, 1.1]
CALLBACKS = ["log", "raise", "raise", "submit", "cancel", "result", "disconnect", "get", "nested"]
EPS = 1e-6


def plans():
    n = st.integers(0, 20)
    fs = st.lists(n, min_size=1, max_size=5)
    t = st.sampled_from([None, *range(len(TIMEOUTS))])
    x = [st.tuples(st.just("cancel"), n).map(list), st.tuples(st.just("cancel"), n).map(list),
         st.tuples(st.just("cb"), n, st.sampled_from(CALLBACKS), n).map(list), st.tuples(st.just("cb"), n, st.sampled_from(CALLBACKS[:6]), n).map(list),
         st.tuples(st.just("result"), n, t).map(list), st.tuples(st.just("exception"), n, t).map(list),
         st.tuples(st.just("wait"), fs, t, st.sampled_from(["ALL_COMPLETED", "FIRST_COMPLETED", "FIRST_EXCEPTION"])).map(list),
         st.tuples(st.just("as"), fs, t).map(list), st.tuples(st.just("look"), n).map(list), st.tuples(st.just("fail"), st.sampled_from(["raise", "badresult", "badexc"])).map(list),
         st.tuples(st.just("gfail"), st.integers(1, 3), st.integers(0, 3), st.sampled_from(["raise", "badresult", "badexc"])).map(list)]
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2),
        "th": st.integers(0, 7).flatmap(lambda d: st.lists(T.tops(x + x, size=14, disconnect=d == 0), min_size=1, max_size=3)).map(lambda t: [[["f", 0, 3, 2, False], *t[0]], *t[1:]]),
        "kinds": st.just([0, 0, 0, 0]), "mt": st.sampled_from([-1, -1, -1, 0, 2]), "qs": st.sampled_from([1000, 1]),
        "pre": st.one_of(st.just(P.NONE), P.strategy(40, 40))})


class Program(T.Program):
    """threads use each other's futures"""

    def __init__(self, *a):
        super().__init__(*a)
        self.cancelled = {}  # rec -> time of a successful cancel()
        self.cb_log = defaultdict(list)  # rec -> [(callback, time, future)]
        self.cb_added = defaultdict(list)  # rec -> [(callback, thread, time added, time returned)]
        self.calls = []
        self.ncb = 0
        self.may_fail = set()
        self.labels = Counter()

    def joined(self):
        import concurrent.futures as cf

        super().joined()
        d, nd = cf.wait([r.fut for r in self.recs], 100)
        left = [(r.token, r.fut._state) for r in self.recs if r.fut in nd]
        require(not left, f"wait() for everything does not end because of {left[:4]}", "wait-all")

    def pick(self, i):
        return self.recs[i % len(self.recs)] if self.recs else None

    def cancel(self, r):
        t0, s0 = self.k.now, r.fut._state
        ok = r.fut.cancel()
        if ok:
            require(r.done_t is None or r in self.cancelled or r.done_t >= t0 - EPS, f"cancel() of {r.token} succeeded after it was done", "cancel")
            self.cancelled.setdefault(r, self.k.now)
            require(r.fut.cancelled() and r.fut.done(), f"{r.token} is not cancelled after a successful cancel()", "cancel")
            self.labels["cancelled"] += 1
        else:
            require(r not in self.cancelled, f"cancel() of the cancelled {r.token} failed", "cancel")
            require(s0 in ("RUNNING", "FINISHED", "PENDING") and r.fut._state in ("RUNNING", "FINISHED"), f"cancel() of {r.token} failed in state {r.fut._state}", "cancel")

    def other(self, i, op):
        import concurrent.futures as cf

        r = self.pick(op[1]) if op[0] not in ("wait", "as", "fail", "gfail") else None
        if not self.recs:
            return
        if op[0] == "cancel":
            self.cancel(r)
        elif op[0] == "fail":
            tok = self.token(i)
            fut = self.clients[0].submit(L.U.odd_end, tok, op[1])
            self.track(L.Rec(client=0, token=tok, fut=fut, kind="task", value=tok, out="raise", t=self.k.now), i)
        elif op[0] == "gfail":
            self.failing_graph(i, op[1], op[2], op[3])
        elif op[0] == "look":
            self.look(r)
        elif op[0] == "cb":
            self.callback(i, r, op[2], op[3])
        elif op[0] in ("result", "exception"):
            timeout = None if op[2] is None else TIMEOUTS[op[2]]
            t0 = self.k.now
            try:
                v = getattr(r.fut, op[0])(timeout)
                self.calls.append((op[0], r, t0, timeout, self.k.now, "value", v))
            except cf.CancelledError as e:
                self.calls.append((op[0], r, t0, timeout, self.k.now, "cancelled", e))
            except cf.TimeoutError as e:
                self.calls.append((op[0], r, t0, timeout, self.k.now, "timeout", e))
            except Exception as e:
                self.calls.append((op[0], r, t0, timeout, self.k.now, "exc", e))
        elif op[0] == "wait":
            rs = [self.pick(x) for x in op[1]]
            timeout = None if op[2] is None else TIMEOUTS[op[2]]
            t0 = self.k.now
            d, nd = cf.wait([x.fut for x in rs], timeout, getattr(cf, op[3]))
            self.calls.append(("wait", rs, t0, timeout, self.k.now, op[3], (set(map(id, d)), set(map(id, nd)))))
        elif op[0] == "as":
            rs = [self.pick(x) for x in op[1]]
            timeout = None if op[2] is None else TIMEOUTS[op[2]]
            t0 = self.k.now
            got = []
            try:
                for f in cf.as_completed([x.fut for x in rs], timeout):
                    got.append((id(f), self.k.now))
                end = "all"
            except cf.TimeoutError:
                end = "timeout"
            self.calls.append(("as", rs, t0, timeout, self.k.now, end, got))

    def failing_graph(self, i, size, at, how):
        """one node fails, so all do; with `badresult` only those that get the value"""
        at %= size
        bad = self.token(i)
        g = {"how": how, "bad": bad, "zero": 0.0}
        tok = {}
        for j in range(size):
            tok[j] = bad if j == at else self.token(i)
            g[f"c{j}"] = tok[j]
            g[f"n{j}"] = (L.U.odd_end, "bad", "how") if j == at else (self.fn(0), f"c{j}", "zero")
        for key, fut in self.clients[0].get(g, [f"n{j}" for j in range(size)], block=False).items():
            j = int(key[1:])
            alone = how == "badresult" and j != at
            self.track(L.Rec(client=0, token=tok[j], fut=fut, kind="node", value=("f0", tok[j]) if alone else bad, out="ok" if alone else "raise", t=self.k.now), i)

    def look(self, r):
        f = r.fut
        c1, d1, r1 = f.cancelled(), f.done(), f.running()
        require(not (r1 and d1) and not (c1 and not d1), f"{r.token}: cancelled {c1}, done {d1}, running {r1}", "look")

    def callback(self, i, r, kind, x):
        self.ncb += 1
        n = self.ncb

        def cb(f):
            self.cb_log[r].append((n, self.k.now, f))
            require(f.done(), f"callback of {r.token} is called before it is done", "callback")
            if kind == "raise":
                self.labels["raised"] += 1
                raise RuntimeError("from a callback")
            if kind == "submit":
                self.submit(0, 0, 0.0, False, 90)
            elif kind == "get":
                self.graph(90, 0, ["g", [[0, []], [1, [0]]], False])
            elif kind == "cancel":
                self.cancel(self.pick(x))
            elif kind == "result":
                try:
                    f.result(0)
                except Exception:
                    pass
            elif kind == "nested":
                self.callback(i, r, "log", 0)
            elif kind == "disconnect":
                self.disconnected.setdefault(0, self.k.now)
                self.clients[0].disconnect()

        t0 = self.k.now
        entry = [n, i, t0, None]
        self.cb_added[r].append(entry)
        self.labels["callback"] += 1
        r.fut.add_done_callback(cb)
        entry[3] = self.k.now


def execute(plan):
    with P.Preempt(plan["pre"], lambda p: p.kind == "client") as pre, L.System({**plan, "cl": []}) as s:
        s.start(dict(max_number_of_tasks_waiting=plan["mt"], per_worker_queue_size=plan["qs"]))
        p = Program(s, plan["th"], plan["kinds"], 1)
        p.refusing = plan["mt"] >= 0
        proc = s.world.program(p.main, name="client")
        frozen = {}
        k = s.k

        def sample():
            for r in p.recs:
                f = r.fut
                if f._state in DONE:
                    now = ("CANCELLED" if f._state.startswith("C") else f._state, id(f._result), id(f._exception))
                    old = frozen.setdefault(id(f), (k.now, now))
                    require(old[1] == now, f"{r.token} was done at t={old[0]:.4f} as {old[1][0]} and changed at t={k.now:.4f} to {f._state} "
                            f"(result {f._result!r}, exception {f._exception!r})", "changed")
                elif id(f) in frozen:
                    raise Violation(f"{r.token} was done at t={frozen[id(f)][0]:.4f} and is {f._state} at t={k.now:.4f}", "changed")
            return p.finished or proc.exited

        s.run(sample, t=300)
        s.no_crash()
        if not p.finished:
            pend = [r.token for r in p.recs if L.outcome(r)[0] == "pending"]
            raise Violation(f"user threads do not end, pending futures: {pend[:5]} of {len(p.recs)}", "hang")
        s.run(lambda: sample() and all(L.outcome(r)[0] != "pending" for r in p.recs), t=200)
        s.no_crash()
        pend = [r.token for r in p.recs if L.outcome(r)[0] == "pending"]
        require(not pend, f"futures {pend[:5]} never resolve", "hang")
        s.run(lambda: sample() and False, t=3)
        s.run(lambda: sample() and all(L.outcome(r)[0] != "pending" for r in p.recs), t=100)
        s.no_crash()
        refused = 0
        for r in p.recs:
            o = L.outcome(r)
            if r in p.cancelled:
                require(o == ("cancelled",), f"{r.token} was cancelled by the user at t={p.cancelled[r]:.4f} and ended as {o!r}", "cancel")
                continue
            no = o[0] == "exc" and type(o[1]).__name__ == "ScaledNoWorker" and plan["mt"] >= 0
            refused += no
            if no:
                continue
            if r.out == "raise":
                gone = o[0] == "exc" and type(o[1]).__name__ == "ScaledDisconnect" and p.disconnected
                require(gone or o[0] == "exc" and type(o[1]) is L.U.TaskError and o[1].args == (r.value,), f"{r.token} ended as {o!r}", "outcome")
                continue
            T.own_outcome(p, r)
        judge(p)
        if 0 not in p.disconnected:
            o = L.outcome(p.last[0])
            require(o[0] == "value" or plan["mt"] >= 0 or p.last[0] in p.cancelled, f"the client does not work any more: {o!r}", "client")
        labels = p.labels
        for name, y in (("switched", pre.switched), ("disconnect", p.disconnected), ("refused", refused)):
            labels[name] += bool(y)
        for c in p.calls:
            labels[c[0]] += 1
            if c[5] == "timeout":
                labels["timeout"] += 1
        return Case(bool(p.cancelled or labels["callback"] or labels["timeout"] or p.calls), sorted(x for x in labels if labels[x]))


def judge(p):
    for r in p.recs:
        require(len(r.outcomes) == 1, f"first callback of {r.token} was called {len(r.outcomes)} times", "callback")
        added = p.cb_added.get(r, [])
        called = p.cb_log.get(r, [])
        ids = [c[0] for c in called]
        require(sorted(ids) == sorted(a[0] for a in added), f"callbacks {[a[0] for a in added]} were added to {r.token}, called were {ids}", "callback")
        require(all(f is r.fut for _, _, f in called), f"callback of {r.token} got another future", "callback")
        when = {n: t for n, t, _ in called}
        for n, i, t0, t1 in added:
            require(when[n] >= min(r.done_t, t0) - EPS, f"callback of {r.token} was called at t={when[n]}, done at t={r.done_t}", "callback")
            if t1 is not None and t1 < r.done_t - EPS:
                require(abs(when[n] - r.done_t) < 5, f"callback of {r.token} was called at t={when[n]}, done at t={r.done_t}", "callback")
        before = [a[0] for a in added if a[3] is not None and a[3] < r.done_t - EPS]
        for th in {a[1] for a in added}:
            mine = [a[0] for a in added if a[1] == th and a[0] in before]
            require([x for x in ids if x in mine] == mine, f"callbacks {mine} of {r.token} were called in the order {ids}", "callback")
    for kind, r, t0, timeout, t1, how, v in p.calls:
        end = None if timeout is None else t0 + timeout
        if kind in ("result", "exception"):
            o = L.outcome(r)
            what = f"{kind}(timeout={timeout}) of {r.token} (done at t={r.done_t:.5f}) called at t={t0:.5f}, at t={t1:.5f} {how} {v!r}"
            if how == "timeout":
                require(end is not None and t1 >= end - EPS and r.done_t >= end - EPS, what, "timeout")
                require(t1 <= end + 0.01, what, "timeout")
                continue
            require(t1 >= r.done_t - EPS, what, "result")
            require(t1 <= max(t0, r.done_t) + 5, what, "result")
            if how == "cancelled" and o == ("cancelled",):
                continue
            if o[0] == "value":
                require(how == "value" and (v is o[1] if kind == "result" else v is None), what, "result")
            elif o[0] == "exc":
                require(how in ("exc", "cancelled") and v is o[1] if kind == "result" else how == "value" and v is o[1], what, "result")
            else:
                raise Violation(what, "result")
        elif kind == "wait":
            d, nd = v
            uniq = {id(x.fut): x for x in r}
            what = f"wait of {[x.token for x in r]} until {how} (timeout={timeout}) called at t={t0:.5f} returned at t={t1:.5f} done={[uniq[x].token for x in d]}"
            require(d | nd == set(uniq) and not d & nd, what, "wait")
            for x in uniq.values():
                if x.done_t < t1 - EPS and id(x.fut) not in d:
                    # cancelled futures count when the client has noticed
                    require(x in p.cancelled, what + f", but {x.token} was done at t={x.done_t:.5f}", "wait")
                if id(x.fut) in d:
                    require(x.done_t <= t1 + EPS, what + f", but {x.token} was done at t={x.done_t:.5f}", "wait")
            if end is not None:
                require(t1 <= end + 0.01, what, "wait")
            if end is None or t1 < end - EPS:
                failed = any(L.outcome(uniq[x])[0] == "exc" for x in d)
                require(not nd or how == "FIRST_COMPLETED" and d or how == "FIRST_EXCEPTION" and failed, what, "wait")
        else:
            uniq = {id(x.fut): x for x in r}
            what = f"as_completed of {[x.token for x in r]} (timeout={timeout}) called at t={t0:.5f} ended at t={t1:.5f} with {how}"
            ids = [i for i, _ in v]
            require(len(set(ids)) == len(ids), what + ", a future came twice", "as")
            for i, t in v:
                require(uniq[i].done_t <= t + EPS, what + f", {uniq[i].token} came at t={t:.5f}, it was done at t={uniq[i].done_t:.5f}", "as")
            if how == "all":
                require(set(ids) == set(uniq), what + f", only {len(ids)} came", "as")
            else:
                require(end is not None and end - EPS <= t1 <= end + 0.01, what, "as")


CHECKS = [
    Check("futures", plans, execute, 2000, 80000,
          "1-3 threads cancel, query, wait for, iterate over and add callbacks (that raise, submit, cancel, disconnect ...) to tasks' and graphs' "
          "futures; non-trivial: at least one such operation took place"),
]
