"""C11 message codec round trips"""
import struct

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import Violation
from ..core import require

from scaled.protocol.python import message as M

TECHNIQUE = "property-based round-trip testing (Hypothesis) of encode/decode over all message kinds"
LEVEL_NOTE = "Exploration of generated messages of every kind; round-trip equality is the oracle, no model is trusted."
ASSUMPTIONS = ["task durations are single precision; cpu figures are tenths of a percent (what psutil delivers), compared to 1e-9; "
               "counts fit 32 bits, sizes and latencies 63 bits"]

raw = st.one_of(
    st.sampled_from(["", "00", "544b", "44", "54", "01000000", "02000000", "ff" * 16]),
    st.binary(max_size=20).map(bytes.hex),
    st.binary(min_size=16, max_size=16).map(bytes.hex),
)
big = st.one_of(raw, raw, raw, st.tuples(st.binary(min_size=1, max_size=3), st.integers(100, 30000)).map(lambda t: (t[0] * t[1])[:40000].hex()))
u32 = st.one_of(st.integers(0, 20), st.integers(0, 2**32 - 1), st.sampled_from([255, 256, 65535, 65536, 2**31, 2**32 - 1]))
u63 = st.one_of(st.integers(0, 1000), st.integers(0, 2**63 - 1), st.sampled_from([2**16, 2**32 - 1, 2**32, 2**48, 2**63 - 1]))
milli = st.one_of(st.integers(0, 3000), st.integers(0, 10**7), st.sampled_from([65535, 65536, 70000, 128000]))


def enum(e):
    return st.sampled_from([m.name for m in e])


args = st.lists(st.tuples(enum(M.ArgumentType), big).map(list), max_size=6)
task = st.tuples(raw, raw, args).map(list)
dur = st.one_of(st.floats(0, 1e9, width=32), st.sampled_from([0.0, 1.0, 0.5]))
function = st.tuples(raw, raw, big).map(list)

# kind -> strategy of constructor plans
PLANS = {
    "Task": st.tuples(raw, raw, args),
    "TaskEcho": st.tuples(raw, enum(M.TaskEchoStatus)),
    "TaskCancel": st.tuples(raw),
    "TaskResult": st.tuples(raw, enum(M.TaskStatus), dur, big),
    "GraphTask": st.tuples(raw, st.lists(function, max_size=5, unique_by=lambda f: f[0]), st.lists(raw, max_size=5),
                           st.lists(task, max_size=5)),
    "GraphTaskEcho": st.tuples(raw, enum(M.TaskEchoStatus)),
    "GraphTaskCancel": st.tuples(raw),
    "GraphTaskCancelEcho": st.tuples(raw, enum(M.TaskEchoStatus)),
    "GraphTaskResult": st.tuples(raw, enum(M.TaskStatus), st.lists(big, max_size=8)),
    "BalanceRequest": st.tuples(u32),
    "BalanceResponse": st.tuples(st.lists(raw, max_size=300)),
    "Heartbeat": st.tuples(milli, u63, milli, u63, st.one_of(u32, u63), u63, st.booleans(), st.booleans(), st.booleans()),
    "HeartbeatEcho": st.tuples(),
    "FunctionRequest": st.tuples(enum(M.FunctionRequestType), raw, raw, big),
    "FunctionResponse": st.tuples(enum(M.FunctionResponseType), raw, raw, big),
    "DisconnectRequest": st.tuples(raw),
    "DisconnectResponse": st.tuples(raw),
    "WorkerTaskRequest": st.tuples(),
    "SchedulerState": st.tuples(big),
    "TaskState": st.tuples(raw, raw, enum(M.TaskStatus)),
    "GraphTaskState": st.tuples(raw, raw, enum(M.NodeTaskType), st.lists(raw, max_size=6, unique=True)),
}
B = bytes.fromhex


def mk_task(t):
    return M.Task(B(t[0]), B(t[1]), [M.Argument(M.ArgumentType[k], B(d)) for k, d in t[2]])


def build(kind, a):
    if kind == "Task":
        return mk_task(a)
    if kind in ("TaskEcho", "GraphTaskEcho", "GraphTaskCancelEcho"):
        return getattr(M, kind)(B(a[0]), M.TaskEchoStatus[a[1]])
    if kind in ("TaskCancel", "GraphTaskCancel", "DisconnectRequest", "DisconnectResponse", "SchedulerState"):
        return getattr(M, kind)(B(a[0]))
    if kind == "TaskResult":
        return M.TaskResult(B(a[0]), M.TaskStatus[a[1]], a[2], B(a[3]))
    if kind == "GraphTask":
        return M.GraphTask(B(a[0]), {B(i): (B(n), B(c)) for i, n, c in a[1]}, [B(x) for x in a[2]], [mk_task(t) for t in a[3]])
    if kind == "GraphTaskResult":
        return M.GraphTaskResult(B(a[0]), M.TaskStatus[a[1]], [B(x) for x in a[2]])
    if kind == "BalanceRequest":
        return M.BalanceRequest(a[0])
    if kind == "BalanceResponse":
        return M.BalanceResponse([B(x) for x in a[0]])
    if kind == "Heartbeat":
        return M.Heartbeat(a[0] / 10 / 100, a[1], a[2] / 10 / 100, a[3], a[4], a[5], a[6], a[7], a[8])
    if kind in ("HeartbeatEcho", "WorkerTaskRequest"):
        return getattr(M, kind)()
    if kind == "FunctionRequest":
        return M.FunctionRequest(M.FunctionRequestType[a[0]], B(a[1]), B(a[2]), B(a[3]))
    if kind == "FunctionResponse":
        return M.FunctionResponse(M.FunctionResponseType[a[0]], B(a[1]), B(a[2]), B(a[3]))
    if kind == "TaskState":
        return M.TaskState(B(a[0]), B(a[1]), M.TaskStatus[a[2]])
    if kind == "GraphTaskState":
        return M.GraphTaskState(B(a[0]), B(a[1]), M.NodeTaskType[a[2]], {B(x) for x in a[3]})
    raise AssertionError(kind)


def encode(m):
    """the frames a component puts on the wire"""
    return [M.PROTOCOL.inverse[type(m)].value, *(bytes(f) for f in m.serialize())]


def decode(frames):
    return M.PROTOCOL[M.MessageType(frames[0])].deserialize(list(frames[1:]))


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a))


def same(kind, m, d):
    if type(m) is not type(d):
        return False
    if kind == "Heartbeat":
        return (close(m.agent_cpu, d.agent_cpu) and close(m.worker_cpu, d.worker_cpu)
                and (m.agent_rss, m.worker_rss, m.queued_tasks, m.latency_us, m.initialized, m.has_task, m.task_lock)
                == (d.agent_rss, d.worker_rss, d.queued_tasks, d.latency_us, d.initialized, d.has_task, d.task_lock))
    return vars(m) == vars(d) and m == d


def roundtrip(plan):
    kind, a = plan
    m = build(kind, a)
    try:
        frames = encode(m)
    except (struct.error, KeyError, TypeError, OverflowError) as e:
        raise Violation(f"{m!r} cannot be encoded: {e!r}")
    require(len(frames) >= 2, f"{m!r} encodes to less frames than a receiver accepts: {frames!r}")
    try:
        d = decode(frames)
    except Exception as e:
        raise Violation(f"frames of {str(m)[:500]} cannot be decoded: {e!r}")
    require(same(kind, m, d), f"{str(m)[:800]} decodes as {str(d)[:800]}")
    if kind == "GraphTask":
        require(list(d.functions) == list(m.functions), "order of functions changed")
    return m, frames, d


def execute(plan):
    m, frames, d = roundtrip(plan)
    again = encode(d)
    if plan[0] == "GraphTaskState":
        require(again[:4] == frames[:4] and sorted(again[4:]) == sorted(frames[4:]), "encoding is not stable")
    else:
        require(again == frames, f"{str(m)[:500]}: encoding of the decoded message differs")
    return Case(any(plan[1]) if plan[1] else True, [plan[0]])


def plans():
    return st.sampled_from(sorted(PLANS)).flatmap(lambda k: PLANS[k].map(lambda a: [k, list(a)]))


# ---- messages with very many parts or very large ones
COUNTS = [0, 1, 127, 128, 255, 256, 257, 511, 1000, 4097, 32768, 65535, 65536, 65537]
SIZES = [0, 1, 127, 128, 255, 256, 257, 4096, 32768, 65535, 65536, 65537, 1 << 20, (1 << 24) + 3]
WIDE = ["Task", "GraphTask.functions", "GraphTask.targets", "GraphTask.graph", "GraphTask.args", "GraphTaskResult", "BalanceResponse",
        "GraphTaskState", "TaskResult", "FunctionRequest", "FunctionResponse", "SchedulerState", "TaskState", "DisconnectRequest"]


def item(i):
    return struct.pack(">IQI", i * 2654435761 % 2**32, i, 7)


def wide_message(plan):
    what, n, size, at, status = plan
    kind, _, field = what.partition(".")
    blob = (b"\x01\x00TK" + bytes(range(256))) * (size // 260 + 1)
    blob = blob[:size]
    at = at * n // 8 if n else 0
    ids = [item(i) for i in range(n)]
    args_ = [M.Argument(M.ArgumentType.Task if i % 3 == 1 else M.ArgumentType.Data, blob if i == at else x) for i, x in enumerate(ids)]
    few = [item(n + i) for i in range(3)]
    if kind == "Task":
        return M.Task(few[0], few[1], args_)
    if kind == "GraphTask":
        functions = {few[0]: (b"name", blob)}
        targets, graph = [few[1]], [M.Task(few[1], few[0], [M.Argument(M.ArgumentType.Data, few[2])])]
        if field == "functions":
            functions = {x: (b"n%d" % (i % 300), blob if i == at else x) for i, x in enumerate(ids)}
        elif field == "targets":
            targets = ids
        elif field == "graph":
            graph = [M.Task(x, few[0], [M.Argument(M.ArgumentType.Data, x)] * (i % 3)) for i, x in enumerate(ids)]
        else:
            graph = [graph[0], M.Task(few[2], few[0], args_), graph[0]]
        return M.GraphTask(few[2], functions, targets, graph)
    if kind == "GraphTaskResult":
        return M.GraphTaskResult(few[0], list(M.TaskStatus)[status % len(M.TaskStatus)], [blob if i == at else x for i, x in enumerate(ids)])
    if kind == "BalanceResponse":
        return M.BalanceResponse(ids)
    if kind == "GraphTaskState":
        return M.GraphTaskState(few[0], few[1], list(M.NodeTaskType)[status % len(M.NodeTaskType)], set(ids))
    if kind == "TaskResult":
        return M.TaskResult(few[0], list(M.TaskStatus)[status % len(M.TaskStatus)], 0.5, blob)
    if kind == "FunctionRequest":
        return M.FunctionRequest(list(M.FunctionRequestType)[status % len(M.FunctionRequestType)], few[0], blob[:n], blob)
    if kind == "FunctionResponse":
        return M.FunctionResponse(list(M.FunctionResponseType)[status % len(M.FunctionResponseType)], few[0], blob[:n], blob)
    if kind == "TaskState":
        return M.TaskState(few[0], blob, list(M.TaskStatus)[status % len(M.TaskStatus)])
    return getattr(M, kind)(blob)


def execute_wide(plan):
    m = wide_message(plan)
    kind = type(m).__name__
    what = f"{plan[0]} with {plan[1]} elements, one of {plan[2]} bytes"
    try:
        frames = encode(m)
        d = decode(frames)
    except Exception as e:
        raise Violation(f"{what} does not survive encoding and decoding: {e!r}")
    require(same(kind, m, d), f"{what} is not decoded as it was encoded")
    if kind == "GraphTask":
        require(list(d.functions) == list(m.functions), f"{what}: order of functions changed")
    return Case(plan[1] > 255 or plan[2] > 255, [plan[0]])


def wide_plans():
    n = st.one_of(st.sampled_from(COUNTS), st.integers(0, 2000))
    size = st.one_of(st.sampled_from(SIZES), st.integers(0, 100000))
    return st.tuples(st.sampled_from(WIDE), n, size, st.integers(0, 7), st.integers(0, 20)).map(list)


def pair_plans():
    """two messages of one kind that are close to each other"""
    def pair(k):
        return st.tuples(PLANS[k], PLANS[k], st.integers(0, 8)).map(
            lambda t: [k, list(t[0]), [t[1][i] if i == t[2] % max(1, len(t[0])) else t[0][i] for i in range(len(t[0]))]])

    return st.sampled_from(sorted(PLANS)).flatmap(pair)


def norm(kind, a):
    return list(a[:3]) + [sorted(a[3])] if kind == "GraphTaskState" else a


def execute_pair(plan):
    kind, a, b = plan
    x, y = encode(build(kind, a)), encode(build(kind, b))
    differ = norm(kind, a) != norm(kind, b)
    if differ:
        require(x != y, f"two different messages have the same frames: {build(kind, a)!r} and {build(kind, b)!r}")
    return Case(differ, [kind])


def registry(plan):
    kinds = [m.name for m in M.MessageType]
    values = [m.value for m in M.MessageType]
    require(len(set(values)) == len(list(M.MessageType.__members__)), "two kinds share a type code")
    for m in M.MessageType:
        require(m in M.PROTOCOL, f"message kind {m} is declared but cannot be decoded")
        require(M.MessageType(m.value) is m, f"{m} is not recognised from its code")
        require(M.PROTOCOL[m].__name__ == m.name, f"{m} decodes as {M.PROTOCOL[m]}")
    require(set(PLANS) <= set(kinds), f"message kinds disappeared: {set(PLANS) - set(kinds)}")
    for e in (M.TaskStatus, M.TaskEchoStatus, M.NodeTaskType, M.FunctionRequestType, M.FunctionResponseType, M.ArgumentType):
        require(len({v.value for v in e}) == len(e.__members__), f"two values of {e} share a code")
        for v in e:
            require(e(v.value) is v, f"{v} is not recognised from its code")
    return Case(True, ["registry"])


CHECKS = [
    Check("roundtrip", plans, execute, 12000, 600000,
          "messages of all 21 kinds with structured random fields (empty/long/colliding frames, extreme numbers); "
          "non-trivial: at least one field is not empty"),
    Check("injective", pair_plans, execute_pair, 6000, 300000,
          "pairs of messages of a kind differing in one field encode differently; non-trivial: the pair differs"),
    Check("wide", wide_plans, execute_wide, 1500, 60000,
          "messages with up to 65537 list elements and parts of up to 16 MB; non-trivial: more than 255 of either"),
    Check("registry", lambda: st.just(0), registry, 1, 1, "every declared kind and status value is decodable", shards=1),
]
