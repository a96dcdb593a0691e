"""C26 a client may be used from several threads"""
from hypothesis import strategies as st

from .. import preempt as P
from .. import threads as T
from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import simlib as L
from ..sim import kernel as K

TECHNIQUE = "random programs of 2-4 user threads on shared clients, preempted at random statements and sub-expressions of client and connector (Hypothesis), in a simulator; oracle: every future's own value, execution log, liveness of the client afterwards"
LEVEL_NOTE = "Exploration: seeded random thread schedules at statement and sub-expression granularity of scaled.client and scaled.io.sync_connector; single byte codes are atomic; trusts the simulator."
ASSUMPTIONS = ["simulated environment is faithful", "standard library locks, queues, dicts and futures are atomic per operation"]


def plans():
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2),
        "th": st.integers(0, 5).flatmap(lambda d: st.lists(T.tops(disconnect=d == 0), min_size=2, max_size=4)),
        "nc": st.sampled_from([1, 1, 1, 2]), "kinds": st.lists(st.sampled_from([0, 1, 2, 3, 5, 6]), min_size=T.NF, max_size=T.NF),
        "fr": st.sampled_from([20, 2]), "pre": P.strategy(60, 30)})


def execute(plan):
    with P.Preempt(plan["pre"], lambda p: p.kind == "client") as pre, L.System({**plan, "cl": []}) as s:
        s.start(dict(function_retention_seconds=plan["fr"]))
        p = T.Program(s, plan["th"], plan["kinds"], plan["nc"])
        proc = s.world.program(p.main, name="client")
        s.run(lambda: p.finished or proc.exited, t=300)
        s.no_crash()
        if not p.finished:
            pend = [r.token for r in p.recs if L.outcome(r)[0] == "pending"]
            raise Violation(f"user threads do not end, pending futures: {pend[:5]} of {len(p.recs)}", "hang")
        s.run(lambda: all(r.fut.done() for r in p.recs) if False else all(L.outcome(r)[0] != "pending" for r in p.recs), t=200)
        s.no_crash()
        pend = [r.token for r in p.recs if L.outcome(r)[0] == "pending"]
        require(not pend, f"futures {pend[:5]} never resolve", "hang")
        s.run(None, 2)
        s.no_crash()
        races = [x for x in s.k.events if x[0] == "socket-race"]
        require(not races, f"t={races[0][1] if races else 0:.4f}: thread {races[0][3] if races else ''} sends on the socket on which another thread is polling (sockets are not thread safe)", "socket")
        ran = {}
        for kind, t, pid, tok in s.k.log:
            if kind == "end":
                ran[tok] = ran.get(tok, 0) + 1
        for r in p.recs:
            T.own_outcome(p, r)
            require(len(r.outcomes) == 1, f"{r.token} was reported done {len(r.outcomes)} times", "twice")
            if r.client not in p.disconnected:
                require(ran.get(r.token) == 1, f"{r.kind} {r.token} was executed {ran.get(r.token, 0)} times", "executions")
        labels = [x for x, y in (("disconnect", p.disconnected), ("switched", pre.switched), ("two-clients", plan["nc"] > 1),
                                 ("graphs", any(r.kind == "node" for r in p.recs)), ("fine", plan["pre"]["fine"] and pre.switched)) if y]
        return Case(pre.switched > 0 and len(p.recs) > 1, labels)


# ---- disconnected in the middle of a call of another thread
def cut_plans():
    f = st.integers(0, T.NF - 1)
    sub = st.tuples(st.just("f"), f, st.sampled_from([0, 1, 3]), st.sampled_from([1, 1, 2]), st.booleans())
    g = st.tuples(st.just("g"), st.lists(st.tuples(f, st.lists(st.integers(0, 3), max_size=2)).map(list), min_size=1, max_size=3), st.booleans())
    m = st.tuples(st.just("m"), f, st.integers(1, 2))
    cut = st.tuples(st.just("D"), st.tuples(st.integers(0, 1000), st.integers(0, 1000)).map(list), st.one_of(sub, g, g, m).map(list),
                    st.booleans()).map(list)
    first = st.tuples(T.tops(size=2), cut, T.tops(size=1)).map(lambda t: [*t[0], t[1], *t[2]])
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=1),
        "th": st.tuples(first, T.tops(size=3)).map(list), "nc": st.just(1),
        "kinds": st.lists(st.sampled_from([0, 1, 2, 3, 5, 6]), min_size=T.NF, max_size=T.NF),
        "pre": st.fixed_dictionaries({"at": st.just([]), "fine": st.sampled_from([False, False, True]), "again": st.just(False)})})


def cut_execute(plan):
    def run(gap):
        with P.Preempt(plan["pre"], lambda p: p.kind == "client", traps=True) as pre, L.System({**plan, "cl": []}) as s:
            s.start()
            p = T.Program(s, plan["th"], plan["kinds"], plan["nc"])
            p.preempt = pre
            p.gap = gap
            proc = s.world.program(p.main, name="client")
            s.run(lambda: p.finished or proc.exited, t=100)
            s.no_crash()
            at = f"({'disconnected' if p.disconnected else 'idle'} while a thread stood still in {pre.trapped})"
            pend = [f"{r.kind} {r.token}" for r in p.recs if L.outcome(r)[0] == "pending"]
            require(p.finished, f"user threads do not end {at}, pending futures: {pend[:5]} of {len(p.recs)}", "hang")
            s.run(lambda: all(L.outcome(r)[0] != "pending" for r in p.recs), t=100)
            s.no_crash()
            pend = [f"{r.kind} {r.token}" for r in p.recs if L.outcome(r)[0] == "pending"]
            require(not pend, f"futures {pend[:5]} never resolve {at}", "hang")
            for r in p.recs:
                T.own_outcome(p, r)
                require(len(r.outcomes) == 1, f"{r.token} was reported done {len(r.outcomes)} times {at}", "twice")
            return pre

    passed = run(1 << 30).passed
    a, b = next(op[1] for op in plan["th"][0] if op[0] == "D")
    gap = choose(passed, a, b)
    if gap is None:
        return Case(False, [])
    pre = run(gap)
    return Case(bool(pre.trapped), sorted({x for x, _ in pre.trapped}))


def choose(passed, a, b):
    """any of the places a thread passed, and any of the times it passed there"""
    if not passed:
        return None
    places = list(dict.fromkeys(passed))
    times = [i for i, x in enumerate(passed) if x == places[a % len(places)]]
    return times[b % len(times)]


# ---- the client's own thread stands still while others use the client
def held_plans():
    f = st.integers(0, T.NF - 1)
    sub = st.tuples(st.just("f"), f, st.sampled_from([0, 0, 1]), st.just(1), st.sampled_from([False, False, True]))
    g = st.tuples(st.just("g"), st.lists(st.tuples(f, st.lists(st.integers(0, 3), max_size=2)).map(list), min_size=1, max_size=2), st.just(False))
    act = st.lists(st.one_of(sub, sub, g, st.just(("d",))).map(list), min_size=1, max_size=3)
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=1),
        "th": st.lists(T.tops(size=4), min_size=1, max_size=2), "nc": st.just(1), "act": act, "at": st.tuples(st.integers(0, 1000), st.integers(0, 1000)).map(list),
        "kinds": st.lists(st.sampled_from([0, 1, 2, 3]), min_size=T.NF, max_size=T.NF), "fr": st.sampled_from([20, 20, 1]), "mt": st.sampled_from([-1, -1, -1, 1]),
        "stay": st.sampled_from([0, 1]),
        "pre": st.fixed_dictionaries({"at": st.just([]), "fine": st.sampled_from([False, False, True]), "again": st.just(False)})})


class Held(T.Program):
    def before_start(self):
        import threading

        def act():
            users.add(K.cur_thread())
            for op in self.acts:
                self.do(90, op)

        def action():
            threading.Thread(target=act, daemon=True, name="actor").start()

        users = {K.cur_thread()}
        self.users = users
        self.preempt.set_trap(self.gap, action, self.stay, lambda th: th not in users and not th.name.startswith(("user", "actor")))


def held_execute(plan):
    def run(gap):
        with P.Preempt(plan["pre"], lambda p: p.kind == "client", traps=True) as pre, L.System({**plan, "cl": []}) as s:
            s.start(dict(function_retention_seconds=plan["fr"], max_number_of_tasks_waiting=plan["mt"]))
            p = Held(s, plan["th"], plan["kinds"], plan["nc"])
            p.preempt = pre
            p.gap = gap
            p.acts = plan["act"]
            p.stay = [0.3, 1.5][plan["stay"]]
            p.refusing = plan["mt"] >= 0
            proc = s.world.program(p.main, name="client")
            s.run(lambda: p.finished or proc.exited, t=100)
            s.no_crash()
            at = f"(the client's thread stood still at {pre.trapped})"
            pend = [f"{r.kind} {r.token}" for r in p.recs if L.outcome(r)[0] == "pending"]
            require(p.finished, f"user threads do not end {at}, pending futures: {pend[:5]} of {len(p.recs)}", "hang")
            s.run(lambda: all(L.outcome(r)[0] != "pending" for r in p.recs), t=100)
            s.no_crash()
            pend = [f"{r.kind} {r.token}" for r in p.recs if L.outcome(r)[0] == "pending"]
            require(not pend, f"futures {pend[:5]} never resolve {at}", "hang")
            for r in p.recs:
                o = L.outcome(r)
                if not (p.refusing and o[0] == "exc" and type(o[1]).__name__ == "ScaledNoWorker"):
                    T.own_outcome(p, r)
                require(len(r.outcomes) == 1, f"{r.token} was reported done {len(r.outcomes)} times {at}", "twice")
            return pre

    gap = choose(run(1 << 30).passed, *plan["at"])
    if gap is None:
        return Case(False, [])
    pre = run(gap)
    return Case(bool(pre.trapped), sorted({x for x, _ in pre.trapped}))


CHECKS = [
    Check("threads", plans, execute, 2400, 80000,
          "2-4 threads submit tasks, request graphs (blocking and not), map, wait and disconnect on one or two shared clients; non-trivial: a "
          "thread of the client was preempted inside the client library while another one ran"),
    Check("cut", cut_plans, cut_execute, 2400, 60000,
          "a thread stands still at a chosen place of a call of the client, while the client goes on or is disconnected by another thread; "
          "non-trivial: the call was interrupted inside the client library"),
    Check("held", held_plans, held_execute, 1000, 60000,
          "the client's own thread stands still at a chosen place while other threads submit, request graphs or disconnect; non-trivial: it stood "
          "still inside the client library"),
]
