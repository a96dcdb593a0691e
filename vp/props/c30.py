"""C30 user-supplied serializer"""
from collections import Counter

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require
from .. import graphs as G
from .. import simlib as L
from .. import userfns as U
from ..schedsim import M

TECHNIQUE = "random tasks and graphs (Hypothesis) with a self-checking serializer in simulated deployments (workers, cluster, combined); oracle: encodings on the wire, number and kind of serializer calls, local evaluation"
LEVEL_NOTE = "Exploration: seeded random programs under a simulated network; trusts that simulator. The serializer encodes functions, arguments and results in three incompatible ways and some values as empty payload."
ASSUMPTIONS = ["simulated environment is faithful", "exceptions are not results and travel pickled"]


def plans():
    op = st.one_of(G.graph_op(), G.graph_op(), L.sleep_op(), L.submit_op(("ok", "raise")), L.wait_op(), L.burst_op(),
                   st.tuples(st.just("v"), st.lists(st.integers(0, 13), max_size=4)).map(list))
    client = st.fixed_dictionaries({"d": st.sampled_from([0, 0, 4]), "ops": st.lists(op, min_size=1, max_size=5)})
    return st.fixed_dictionaries({
        **L.net_plan(), "wk": st.lists(L.worker_plan(), min_size=1, max_size=2), "cl": st.lists(client, min_size=1, max_size=2),
        "mode": st.sampled_from(["workers", "cluster", "combo"]), "salt2": st.integers(1, 9), "empty": st.booleans(), "kw": st.booleans()})


def ident(*args):
    U.log("start", "v")
    return args[0] if args else None


class Run(G.GraphRun):
    def make_client(self):
        s = U.TagSerializer(self.world.salt2, self.world.empty)
        return L.W.Client(address=L.ADDRESS, serializer=s) if self.world.kw else L.W.Client(L.ADDRESS, s)

    def other(self, op):
        if op[0] == "v":
            args = [G.CONSTS[i % len(G.CONSTS)] for i in op[1]]
            fut = self.client.submit(ident, *args)
            self.track(L.Rec(client=self.index, idx=len(self.recs), token="v", fut=fut, kind="v", t=self.world.k.now, extra=args))
            return
        super().other(op)


class Sys(L.System):
    def start(self):
        w = self.world
        w.salt2, w.empty, w.kw = self.plan["salt2"], self.plan["empty"], self.plan["kw"]
        ser = U.TagSerializer(w.salt2, w.empty)
        mode = self.plan["mode"]
        n = len(self.plan["wk"])
        self.combo = None
        if mode == "combo":
            from scaled.cluster.combo import SchedulerClusterCombo

            def run():
                self.combo = SchedulerClusterCombo(address=L.ADDRESS, n_workers=n, serializer=ser)
                import time

                time.sleep(100000)

            self.combo_proc = w.program(run, name="combo")
        else:
            self.sched = w.scheduler()
            if mode == "cluster":
                w.cluster(n, serializer=ser)
            else:
                for wp in self.plan["wk"]:
                    self.add_worker(wp, serializer=ser)
        for i, cp in enumerate(self.plan.get("cl", [])):
            self.add_client(i, cp)
        return self


def check_wire(s, tag):
    """every payload is in the encoding of its operation"""
    def ok(op, payload, what):
        payload = bytes(payload)
        require(payload.startswith(tag(op)) or (s.plan["empty"] and payload == b""), f"{what} crosses the wire as {payload[:40]!r}, not in the encoding of the serializer for {op}", "encoding")

    seen = Counter()
    for t, kind, sock, frames in s.world.wire:
        if kind not in ("send", "drop"):
            continue
        m = L.W.decode(frames[1:] if sock.type == L.ROUTER else frames)
        if isinstance(m, M.FunctionRequest) and m.type == M.FunctionRequestType.Add:
            ok("F", m.content, "function")
            seen["F"] += 1
        elif isinstance(m, M.FunctionResponse) and m.status == M.FunctionResponseType.OK and m.content:
            ok("F", m.content, "function")
        elif isinstance(m, (M.Task, M.GraphTask)):
            if isinstance(m, M.GraphTask):
                for name, body in m.functions.values():
                    ok("F", body, "function of a graph")
            for task in (m.graph if isinstance(m, M.GraphTask) else [m]):
                for a in task.function_args:
                    if a.type == M.ArgumentType.Data:
                        ok("A", a.data, "argument")
                        seen["A"] += 1
                    elif isinstance(m, M.Task):
                        ok("R", a.data, "intermediate result")
                        seen["I"] += 1
        elif isinstance(m, M.TaskResult) and m.status == M.TaskStatus.Success and m.task_id:
            ok("R", m.result, "result")
            seen["R"] += 1
        elif isinstance(m, M.GraphTaskResult) and m.status == M.TaskStatus.Success:
            for r in m.results:
                ok("R", r, "graph result")
    return seen


def execute(plan):
    with Sys(plan, client_class=Run) as s:
        s.start()
        s.run(s.all_done, t=300)
        s.no_crash()
        if not s.all_done():
            raise Violation(L.describe_pending(s.recs()), "hang")
        s.run(None, 1)
        s.no_crash()
        log = s.k.log
        bad = [x[3] for x in log if x[0] == "mismatch"]
        require(not bad, f"a payload was decoded by another operation than the one that encoded it: {bad[:1]}", "mismatch")
        seen = check_wire(s, lambda op: b"%s<%d>" % (op.encode(), plan["salt2"]))
        calls = Counter((x[0], x[3]) for x in log if x[0] in ("ser", "des"))
        nargs = nres = runs = sers = 0
        full = True
        for c in s.clients:
            for e in c.graphs:
                G.check_values(e)
                full = full and bool(e["keys"])
                g = e["g"]
                nodes = {f"n{j}" for j in range(len(e["toks"]))}
                sers += sum(1 for x in g if x not in nodes)
                for n in nodes:
                    runs += 1
                    nargs += sum(a not in nodes for a in g[n][1:])
                    nres += sum(a in nodes for a in g[n][1:])
                nres += len(e["recs"])
            for r in c.recs:
                if r.kind == "v":
                    o = L.outcome(r)
                    want = r.extra[0] if r.extra else None
                    require(o[0] == "value" and L.deep_equal(o[1], want), f"ident{tuple(r.extra)} gives {o!r}", "value")
                    nargs += len(r.extra)
                    sers += len(r.extra)
                    nres += 1
                    runs += 1
                elif r.kind == "task":
                    L.check_own_outcome(r)
                    nargs += 3
                    sers += 3
                    nres += r.out == "ok"
                    runs += r.out == "ok"
        if full:
            want = {("ser", "A"): sers, ("des", "A"): nargs, ("ser", "R"): runs, ("des", "R"): nres}
            for key, n in want.items():
                require(calls[key] == n, f"serializer operation {key} was used {calls[key]} times, expected {n}", "calls")
        return Case(nres > 0 and nargs > 0, [plan["mode"], *(["intermediate"] if seen["I"] else [])])


CHECKS = [
    Check("deployments", plans, execute, 900, 30000,
          "tasks and graphs on workers, clusters and combined deployments that use a serializer with three incompatible encodings; "
          "non-trivial: arguments and results were encoded and decoded"),
]
