"""C18 IndexedQueue against a FIFO list model"""
import asyncio

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import require

from scaled.utility.queues.async_indexed_queue import IndexedQueue

TECHNIQUE = "model-based property testing (Hypothesis) against a list model"
LEVEL_NOTE = "Exploration of random operation sequences; trusts the list model."
ASSUMPTIONS = ["asyncio of the installed Python"]

# distinct items, some with equal hashes
ITEMS = [b"a", b"b", b"", b"\x00" * 16, "a", "", 0, 1, -1, -2, 2**61 - 1, 2**61, (1, 2), (), None, 3.5, 0.1, ("x", b"y")]
# 0 and 2**61-1 hash alike, 1 and 2**61, -1 and -2

_loop = None


def loop():
    global _loop
    if _loop is None:
        _loop = asyncio.new_event_loop()
    return _loop


def plans():
    it = st.integers(0, len(ITEMS) - 1)
    op = st.one_of(
        st.tuples(st.sampled_from(["put", "put", "put_a", "put", "remove", "in", "rm_at", "rm_at"]), it).map(list),
        st.sampled_from([["get"], ["get"], ["len"], ["wait"], ["tick"], ["tick"], ["cancel"], ["iter"]]),
    )
    start = st.lists(st.tuples(st.just("put"), it).map(list), max_size=12)
    return st.tuples(start, st.lists(op, min_size=1, max_size=60)).map(lambda t: t[0] + t[1])


async def drive(plan):
    q = IndexedQueue()
    model = []
    delivered = []  # by waiting consumers
    expected = []
    waiters = []
    stats = {"removed_mid": 0, "dup": 0, "woken": 0}

    async def consumer():
        delivered.append(await q.get())

    async def settle():
        for _ in range(6):
            await asyncio.sleep(0)

    async def tick():
        # waiting consumers take the oldest items
        await settle()
        live = [w for w in waiters if not w.cancelled()]
        n = min(len(model), len([w for w in live if w not in done]))
        for _ in range(n):
            expected.append(model.pop(0))
        stats["woken"] += n
        for w in live:
            if w.done():
                done.add(w)
        require(delivered == expected, f"waiting consumers received {delivered!r}, expected {expected!r}")

    done = set()
    for op in plan:
        kind = op[0]
        if kind in ("put", "put_a"):
            item = ITEMS[op[1]]
            dup = any(type(x) is type(item) and x == item for x in model)
            try:
                if kind == "put":
                    q.put_nowait(item)
                else:
                    await q.put(item)
                ok = True
            except KeyError:
                ok = False
            require(ok == (not dup), f"put({item!r}) with queue {model!r}: accepted={ok}")
            if ok:
                model.append(item)
            else:
                stats["dup"] += 1
        elif kind in ("remove", "rm_at"):
            item = ITEMS[op[1]] if kind == "remove" or not model else model[op[1] % len(model)]
            present = item in model
            try:
                q.remove(item)
                ok = True
            except KeyError:
                ok = False
            require(ok == present, f"remove({item!r}) with queue {model!r}: succeeded={ok}")
            if present:
                i = model.index(item)
                if 0 < i < len(model) - 1:
                    stats["removed_mid"] += 1
                model.pop(i)
        elif kind == "in":
            item = ITEMS[op[1]]
            require((item in q) == (item in model), f"{item!r} in queue {model!r} says {item in q}")
        elif kind == "get":
            try:
                got = ("v", q.get_nowait())
            except asyncio.QueueEmpty:
                got = ("empty",)
            want = ("v", model.pop(0)) if model else ("empty",)
            require(got == want and type(got[-1]) is type(want[-1]), f"get_nowait returned {got!r}, expected {want!r}")
        elif kind == "wait":
            waiters.append(asyncio.ensure_future(consumer()))
            await tick()
        elif kind == "cancel":
            await tick()
            for w in waiters:
                if not w.done():
                    w.cancel()
                    break
            await settle()
        elif kind == "tick":
            await tick()
        elif kind == "iter":
            pass
        require(len(q) == q.qsize() == len(model), f"length {len(q)}/{q.qsize()}, expected {len(model)} after {op}")
        require(q.empty() == (not model), f"empty() is {q.empty()} with {model!r}")
    await tick()
    for w in waiters:
        w.cancel()
    await settle()
    # drain
    rest = []
    while model:
        rest.append(model.pop(0))
        got = q.get_nowait()
        require(got == rest[-1] and type(got) is type(rest[-1]), f"drain returned {got!r}, expected {rest[-1]!r}")
    require(q.empty() and len(q) == 0, "queue not empty after draining")
    return stats


def execute(plan):
    s = loop().run_until_complete(drive(plan))
    labels = [k for k, v in s.items() if v]
    return Case(bool(s["removed_mid"] or s["woken"]), labels)


CHECKS = [Check("model", plans, execute, 6000, 400000,
                "random put/get/remove/contains/waiting-get sequences over 18 items with colliding hashes vs a list; "
                "non-trivial: removal from the middle or an item delivered to a waiting consumer")]
