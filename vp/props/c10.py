"""C10 a failing task fails its own future and nothing else"""
from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import badfns as B
from ..badprog import Program
from ..badprog import check
from .. import simlib as L

TECHNIQUE = "random sequences of tasks that fail in every way (Hypothesis) on complete deployments in a simulator, and on real processes; oracle: outcome of each task derived from its definition, follow-up tasks, processes and threads that survive"
LEVEL_NOTE = "Exploration of exception, result, argument and exit kinds in random order; trusts the simulator (a small part runs on real processes)."
ASSUMPTIONS = ["simulated environment is faithful", "an exception can be transported if it and the exceptions chained to it survive a pickle round trip",
               "a task that kills its process from another thread does so while no other task is executed"]

def op_strategy(real=False):
    r = st.tuples(st.sampled_from(["raise", "raise", "deep"]), st.sampled_from(sorted(B.RAISES))).map(list)
    v = st.tuples(st.just("return"), st.sampled_from(sorted(B.RETURNS))).map(list)
    a = st.tuples(st.just("arg"), st.sampled_from(["dump", "load"]), st.sampled_from(["value", "exit", "base", "attr", "genexit", "stop", "eof", "memory"])).map(list)
    b = st.tuples(st.just("value"), st.sampled_from(["exc", "res", "fn-value", "fn-exit", "fn-base", "overflow"])).map(list)
    how = B.DIES + (["segv", "abort"] if real else [])
    d = st.tuples(st.just("die"), st.sampled_from(how), st.sampled_from([0, 0, 1, 2, 3])).map(list)
    l = st.tuples(st.just("later"), st.sampled_from(how[:4]), st.sampled_from([1, 2, 3]), st.integers(0, 5)).map(list)
    ok = st.tuples(st.just("ok"), st.integers(1, 3)).map(list)
    slow = st.tuples(st.just("slow"), st.integers(1, 4)).map(list)
    w = st.tuples(st.just("w"), st.integers(0, 3)).map(list)
    z = st.tuples(st.just("z"), st.integers(1, 5)).map(list)
    ops = [r, r, r, v, v, a, b, ok, slow, w, z]
    return ops, d, l


def plans():
    ops, d, l = op_strategy()
    one = st.one_of(*ops)
    some = st.one_of(*ops, d, l)
    client = st.one_of(st.lists(one, min_size=1, max_size=12), st.lists(some, min_size=1, max_size=6))
    return st.fixed_dictionaries({**L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2), "cl": st.lists(client, min_size=1, max_size=2),
                                  "lb": st.sampled_from([0, 0, 1])})


def execute(plan):
    with L.System(dict(plan, cl=[])) as s:
        k = s.k
        s.start(dict(load_balance_seconds=plan["lb"]))
        programs = []
        alone = len(plan["cl"]) == 1

        def main(i, ops):
            import time

            p = Program(L.W.Client(L.ADDRESS), i, lambda: k.now, time.sleep)
            programs.append(p)
            p.run(ops, alone)

        procs = [s.world.program(lambda i=i, o=o: main(i, o), name=f"client{i}") for i, o in enumerate(plan["cl"])]
        s.run(lambda: all(p.exited for p in procs), t=400)
        for c in k.crashes:
            if isinstance(c["obj"], Violation):
                raise c["obj"]
            require(c["proc"] == "Processor" or c["proc"].startswith("client") and c["thread"] == "main",
                    s.crash_text(), "crash")
        for p in programs:
            for r in p.recs:
                if L.outcome(_r(r))[0] == "pending":
                    raise Violation(f"{r[0]} ({r[1]}) never completes", "hang")
        for c in k.crashes:
            if c["proc"] == "Processor":
                raise Violation("a processor crashed although its task did not end the process: " + c["tb"][-1200:], "processor")
        s.no_crash()
        require(all(p.exited for p in procs), "client program does not end", "hang")
        lat = max([L.LAT[i] for i in plan["lat"]] + [0.001])
        bad = deaths = 0
        for p in programs:
            deaths += p.deaths
            for r in p.recs:
                check(r, L.outcome(_r(r)))
                bad += r[1][0] != "value"
        require(not any(w.exited for w in s.workers), f"worker ended: {[w for w in s.workers if w.exited]}", "worker")
        # nobody else is restarted
        pids = sum(len(w.children) for w in s.workers)
        require(pids <= len(s.workers) + deaths, f"{pids} processors were started by {len(s.workers)} workers, {deaths} tasks ended theirs", "restart")
        starts = s.starts()
        for p in programs:
            for r in p.recs:
                n = len(starts.get(r[0], ()))
                require(n <= 1, f"{r[0]} {r[1]} was executed {n} times", "executions")
                if r[1][0] == "value":
                    require(n == 1, f"{r[0]} {r[1]} was executed {n} times", "executions")
        # a task that ends its process fails within about a second
        for p in programs:
            for r in p.recs:
                if r[1][0] == "died":
                    t0 = starts[r[0]][0][0]
                    took = r[4] - t0
                    require(took <= 1.3 + 1.4 + 4 * lat + 0.1, f"{r[0]} {r[1]} failed only after {took:.3f} s", "slow")
        return Case(bad > 0, sorted({r[1][0] for p in programs for r in p.recs}))


def real_plans():
    ops, d, l = op_strategy(real=True)
    calm = st.lists(st.one_of(*ops), max_size=14)
    return st.fixed_dictionaries({"n": st.sampled_from([1, 1, 2]), "ops": st.tuples(calm, st.one_of(d, l), calm, d).map(lambda t: [*t[0], t[1], *t[2], t[3]])})


def real_execute(plan):
    from .. import real

    res = real.attempt("failing_tasks", plan, 180)
    return Case(True, sorted(set(res["ok"])))


class _r:
    __slots__ = ("fut",)

    def __init__(self, r):
        self.fut = r[2]


CHECKS = [
    Check("simulated", plans, execute, 1600, 50000,
          "1-2 clients submit tasks with every kind of exception, result, argument and function that cannot be transported, tasks that end their "
          "process at once or later, and ordinary tasks; non-trivial: at least one task fails"),
    Check("real", real_plans, real_execute, 24, 400,
          "the same on a real scheduler, real workers and real processes (with segmentation faults and aborts); non-trivial: every run"),
]
