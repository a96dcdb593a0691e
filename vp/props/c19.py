"""C19 PriorityQueue and QueuedAllocator against models"""
import asyncio
import math

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import require

from scaled.scheduler.allocators.queued import QueuedAllocator
from scaled.utility.queues.async_priority_queue import PriorityQueue

TECHNIQUE = "model-based property testing (Hypothesis) against reference models"
LEVEL_NOTE = "Exploration of random operation sequences; trusts the reference models."
ASSUMPTIONS = ["priorities are non-negative, as every caller keeps them"]

_loop = None


def run(coro):
    global _loop
    if _loop is None:
        _loop = asyncio.new_event_loop()
    return _loop.run_until_complete(coro)


DATA = [b"w%d" % i for i in range(8)]


def pq_plans():
    d = st.integers(0, len(DATA) - 1)
    op = st.one_of(
        st.tuples(st.just("put"), st.integers(0, 6), d).map(list),
        st.tuples(st.sampled_from(["remove", "dec", "dec"]), d).map(list),
        st.sampled_from([["get"], ["get"], ["max"], ["max"], ["len"]]),
    )
    return st.one_of(st.lists(op, min_size=1, max_size=50), st.lists(op, min_size=15, max_size=60))


async def drive_pq(plan):
    q = PriorityQueue()
    model = {}
    flags = set()
    for op in plan:
        if op[0] == "put":
            data = DATA[op[2]]
            if data in model:
                continue
            await q.put([op[1], data])
            model[data] = op[1]
        elif op[0] == "remove":
            data = DATA[op[1]]
            if data not in model:
                continue
            q.remove(data)
            del model[data]
            flags.add("remove")
        elif op[0] == "dec":
            data = DATA[op[1]]
            if data not in model or model[data] <= 0:
                continue
            q.decrease_priority(data)
            model[data] -= 1
            flags.add("decrease")
        elif op[0] == "get":
            if not model:
                continue
            p, data = q.get_nowait()
            require(model.get(data) == p, f"get returned {(p, data)}, the queue holds {model}")
            require(p == min(model.values()), f"get returned priority {p}, smallest is {min(model.values())}")
            del model[data]
        elif op[0] == "max":
            if not model:
                continue
            p = q.max_priority()
            require(p == min(model.values()), f"max_priority() is {p}, head of the queue is {min(model.values())}")
            flags.add("probe")
        require(len(q) == len(model), f"length {len(q)}, expected {len(model)} after {op}")
    while model:
        p, data = q.get_nowait()
        require(model.get(data) == p and p == min(model.values()), f"drain: got {(p, data)} of {model}")
        del model[data]
    require(len(q) == 0, "queue not empty after draining")
    return flags


def execute_pq(plan):
    flags = run(drive_pq(plan))
    return Case({"decrease", "probe"} <= flags or {"remove", "decrease"} <= flags, flags)


TASKS = [b"t%d" % i for i in range(14)]
WORKERS = [b"a", b"b", b"c", b"d"]


def al_plans():
    w = st.integers(0, len(WORKERS) - 1)
    t = st.integers(0, len(TASKS) - 1)
    op = st.one_of(
        st.tuples(st.sampled_from(["add", "add", "add", "rmw"]), w).map(list),
        st.tuples(st.sampled_from(["assign", "assign", "assign", "assign", "rmt", "rmt", "who"]), t).map(list),
        st.sampled_from([["has"], ["has"], ["stat"], ["ids"]]),
    )
    return st.fixed_dictionaries({"cap": st.integers(1, 4), "ops": st.one_of(
        st.lists(op, min_size=1, max_size=60), st.lists(op, min_size=25, max_size=80))})


async def drive_al(plan):
    cap = plan["cap"]
    a = QueuedAllocator(cap)
    model = {}  # worker -> set
    flags = set()

    def owner(t):
        for w, s in model.items():
            if t in s:
                return w
        return None

    for op in plan["ops"]:
        kind = op[0]
        if kind == "add":
            w = WORKERS[op[1]]
            r = await a.add_worker(w)
            require(r == (w not in model), f"add_worker({w}) returned {r} with workers {set(model)}")
            model.setdefault(w, set())
        elif kind == "rmw":
            w = WORKERS[op[1]]
            r = a.remove_worker(w)
            want = model.pop(w, set())
            require(sorted(r) == sorted(want), f"remove_worker({w}) returned {r}, it held {want}")
            if want:
                flags.add("loaded-worker-removed")
        elif kind == "assign":
            t = TASKS[op[1]]
            if not model:
                continue
            r = await a.assign_task(t)
            cur = owner(t)
            free = {w: len(s) for w, s in model.items() if len(s) < cap}
            if not free:
                require(r is None or (cur is not None and r == cur), f"assign with all workers full returned {r}")
                flags.add("full")
            elif cur is not None:
                require(r == cur, f"task {t} is at {cur}, assigning it again returned {r}")
            else:
                require(r in free and free[r] == min(free.values()), f"assign chose {r}, loads {free}")
                model[r].add(t)
        elif kind == "rmt":
            t = TASKS[op[1]]
            cur = owner(t)
            r = a.remove_task(t)
            require(r == cur, f"remove_task({t}) returned {r}, it was at {cur}")
            if cur is not None:
                model[cur].remove(t)
                flags.add("task-removed")
        elif kind == "who":
            t = TASKS[op[1]]
            require(a.get_assigned_worker(t) == owner(t), f"get_assigned_worker({t}) is {a.get_assigned_worker(t)}")
        elif kind == "has":
            want = any(len(s) < cap for s in model.values())
            require(bool(a.has_available_worker()) == want, f"has_available_worker() is not {want} with {model}")
            flags.add("probe")
        require(set(a.get_worker_ids()) == set(model), "worker set differs")
        stat = a.statistics()
        require(
            {w: (v["free"], v["sent"]) for w, v in stat.items()} == {w: (cap - len(s), len(s)) for w, s in model.items()},
            f"statistics {stat} for {model}",
        )
        counts = {w: len(s) for w, s in model.items()}
        want = {}
        if any(counts.values()) and not all(counts.values()):
            mean = sum(counts.values()) / len(counts)
            want = {w: math.ceil(c - mean) for w, c in counts.items() if c > mean}
        require(a.balance() == want, f"balance advice {a.balance()} for loads {counts}, expected {want}")
    # every free slot is usable and none beyond capacity
    if model:
        total = sum(cap - len(s) for s in model.values())
        for i in range(total):
            loads = {w: len(s) for w, s in model.items()}
            t = b"fill%d" % i
            r = await a.assign_task(t)
            require(r is not None and loads[r] == min(loads.values()) and loads[r] < cap, f"fill: chose {r} of {loads}")
            model[r].add(t)
        require(await a.assign_task(b"one more") is None, "assigned beyond capacity")
        require(not a.has_available_worker(), "full allocator claims a free worker")
    return flags


def execute_al(plan):
    flags = run(drive_al(plan))
    return Case({"task-removed", "probe"} <= flags or "loaded-worker-removed" in flags, flags)


CHECKS = [
    Check("priority_queue", pq_plans, execute_pq, 5000, 300000,
          "random put/get/remove/decrease/probe sequences vs a dict; non-trivial: a decrease together with a probe or a "
          "removal"),
    Check("allocator", al_plans, execute_al, 5000, 300000,
          "random add/remove worker, assign/remove task, probe sequences vs a dict of sets, then filled to capacity; "
          "non-trivial: task removal after a probe, or a loaded worker removed"),
]
