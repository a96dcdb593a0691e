"""Scenarios that run on real processes (imported in a process of their own by vp.real)."""
import time

from .core import processes_of


def combo(n, **kw):
    from scaled.cluster.combo import SchedulerClusterCombo

    from .real import free_port

    address = f"tcp://127.0.0.1:{free_port()}"
    return SchedulerClusterCombo(address, n, **kw), address


def failing_tasks(plan):
    """C10"""
    from scaled.client import Client

    from .badprog import Program
    from .badprog import check
    from .core import Violation

    c, address = combo(plan["n"], heartbeat_interval_seconds=1)
    try:
        client = Client(address)
        p = Program(client, 0, time.monotonic, time.sleep)
        try:
            p.run(plan["ops"], plan["n"] == 1)
            for r in p.recs:
                f = r[2]
                if not f.done():
                    return {"pending": r[0] + repr(r[1])}
                e = f.exception()
                check(r, ("exc", e) if e is not None else ("value", f.result()))
        except TimeoutError:
            return {"pending": [r[0] + repr(r[1]) for r in p.recs if not r[2].done()][:3]}
        except Violation as v:
            return {"violation": str(v), "key": v.key}
        client.disconnect()
        return {"ok": [r[1][0] for r in p.recs]}
    finally:
        c.shutdown()
        for x in processes_of(c):
            x.join(20)


def start_order(plan):
    """C31"""
    import threading

    from scaled.client import Client
    from scaled.cluster.cluster import Cluster
    from scaled.cluster.scheduler import SchedulerProcess
    from scaled.protocol.python.serializer.default import DefaultSerializer
    from scaled.utility.zmq_config import ZMQConfig

    from . import badfns
    from .real import free_port

    address = f"tcp://127.0.0.1:{free_port()}"
    sched = SchedulerProcess(address=ZMQConfig.from_string(address), io_threads=1, max_number_of_tasks_waiting=-1,
                             per_worker_queue_size=plan["qs"], worker_timeout_seconds=60, function_retention_seconds=20,
                             load_balance_seconds=1, load_balance_trigger_times=2)
    clusters = [Cluster(address=ZMQConfig.from_string(address), n_workers=1, heartbeat_interval_seconds=1, function_retention_seconds=20,
                        death_timeout_seconds=30, garbage_collect_interval_seconds=30, trim_memory_threshold_bytes=1 << 30,
                        event_loop="builtin", serializer=DefaultSerializer()) for _ in plan["wd"]]
    problems = []
    pending = []
    done = []

    def client(i, delay):
        time.sleep(delay)
        c = Client(address)
        futs = {f"c{i}.{j}": c.submit(badfns.slow, f"c{i}.{j}", plan["dur"]) for j in range(plan["n"])}
        if plan["graph"]:
            g = c.get({"a": f"c{i}.a", "z": plan["dur"], "b": (badfns.slow, "a", "z"), "c": (badfns.slow, "b", "z")}, ["c"], block=False)
            futs[f"c{i}.a"] = g["c"]
        inner = ("ok", f"c{i}.a", plan["dur"])
        for tok, f in futs.items():
            try:
                v = f.result(60)
                if v != (("ok", inner, plan["dur"]) if tok.endswith(".a") else ("ok", tok, plan["dur"])):
                    problems.append(f"{tok} gives {v!r}")
            except TimeoutError:
                pending.append(tok)
                break
            except Exception as e:
                problems.append(f"{tok} raised {e!r}")
        done.append(i)
        c.disconnect()

    ts = [threading.Thread(target=client, args=(i, d), daemon=True) for i, d in enumerate(plan["cd"])]
    todo = sorted([(plan["sd"], 0, sched)] + [(d, 1 + i, c) for i, (d, c) in enumerate(zip(plan["wd"], clusters))])
    t0 = time.monotonic()
    for t in ts:
        t.start()
    try:
        for d, _, p in todo:
            time.sleep(max(0.0, t0 + d - time.monotonic()))
            p.start()
        for t in ts:
            t.join(90)
        if problems:
            return {"violation": "; ".join(problems[:3]), "key": "outcome"}
        if pending or len(done) < len(ts):
            return {"pending": pending or "client"}
        return {"ok": [], "labels": ["graph"] if plan["graph"] else []}
    finally:
        for p in [sched, *clusters]:
            if p.pid:
                p.terminate()
        for p in [sched, *clusters]:
            if p.pid:
                p.join(20)


def group_processes(pgid):
    import os

    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    fields = f.read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(fields[2]) == pgid and fields[0] != "Z":
                out.append(int(d))
    return out


def shutdown(plan):
    """C29: signals to a cluster program (or to its process group), another worker takes its tasks over"""
    import os
    import signal
    import subprocess
    import sys
    import tempfile

    from scaled.client import Client
    from scaled.cluster.cluster import Cluster
    from scaled.cluster.scheduler import SchedulerProcess
    from scaled.protocol.python.serializer.default import DefaultSerializer
    from scaled.utility.zmq_config import ZMQConfig

    from . import badfns
    from .real import free_port

    address = f"tcp://127.0.0.1:{free_port()}"
    sched = other = client = None
    futs = []
    if plan["sched"]:
        sched = SchedulerProcess(address=ZMQConfig.from_string(address), io_threads=1, max_number_of_tasks_waiting=-1,
                                 per_worker_queue_size=1000, worker_timeout_seconds=60, function_retention_seconds=60,
                                 load_balance_seconds=1, load_balance_trigger_times=2)
        sched.start()
    before = set(os.listdir(tempfile.gettempdir()))
    main = "import sys; from scaled.entry_points.cluster import main; sys.argv[0] = 'scaled_cluster'; main()"
    p = subprocess.Popen([sys.executable, "-c", main, "-n", str(plan["n"]), "-hi", "1", "-dt", "60", address], process_group=0,
                         stdout=2)
    labels = []
    try:
        if plan["sched"] and plan["tasks"]:
            client = Client(address)
            futs = [(f"t{i}", client.submit(badfns.slow, f"t{i}", plan["dur"])) for i in range(plan["tasks"])]
        if plan["wait"]:
            # until the processors run
            end = time.monotonic() + 30
            while len(group_processes(p.pid)) < 2 + 2 * plan["n"] and time.monotonic() < end:
                time.sleep(0.02)
            if time.monotonic() >= end:
                return {"pending": "processors of the cluster"}
            labels.append("ready")
        time.sleep(plan["at"])
        for g, name in plan["sigs"]:
            time.sleep(g)
            if p.poll() is not None:
                break
            if plan["group"]:
                os.killpg(p.pid, signal.Signals[name])
            else:
                os.kill(p.pid, signal.Signals[name])
        # python itself ends on a signal that comes before the cluster program could ask for it
        early = not plan["wait"]
        t0 = time.monotonic()
        while time.monotonic() < t0 + 20 and (p.poll() is None or group_processes(p.pid)):
            time.sleep(0.02)
        if p.poll() is None or group_processes(p.pid):
            return {"pending": f"end of {len(group_processes(p.pid))} processes of the cluster"}
        files = [x for x in set(os.listdir(tempfile.gettempdir())) - before if "scaled" in x]
        if files and not early:
            return {"violation": f"{files} are left", "key": "file"}
        if futs:
            other = Cluster(address=ZMQConfig.from_string(address), n_workers=1, heartbeat_interval_seconds=1, function_retention_seconds=60,
                            death_timeout_seconds=60, garbage_collect_interval_seconds=30, trim_memory_threshold_bytes=1 << 30,
                            event_loop="builtin", serializer=DefaultSerializer())
            other.start()
            for tok, f in futs:
                try:
                    if f.result(30) != ("ok", tok, plan["dur"]):
                        return {"violation": f"{tok} gives {f.result()!r}", "key": "outcome"}
                except TimeoutError:
                    return {"pending": f"{tok} of the cluster that left"}
            labels.append("handed-over")
            client.disconnect()
        return {"ok": [], "labels": labels}
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        for x in [other, sched]:
            if x is not None and x.pid:
                x.terminate()
        for x in [other, sched]:
            if x is not None and x.pid:
                x.join(20)
