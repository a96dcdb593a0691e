"""Graphs at the real scheduler with scripted workers: what workers are given, what clients get, what a failure does (C07, C08)."""
from collections import Counter

from hypothesis import strategies as st

from .core import Case
from .core import require
from . import schedsim as S
from .schedsim import M


def plans(statuses, size=30):
    res, g = S.op_result(statuses), S.op_shape()
    # some worker that has work answers
    fin = S.op_finish(statuses)
    # several chains, some of which are under way when something ends the graph
    part = S.op_chains([x for x in statuses if x != "Success"])
    ops = [g, g, g, part, part, fin, fin, fin, fin, fin, fin, fin, fin, res, S.op_submit(), S.op_worker(), S.op_worker(), S.op_disconnect(), S.op_silent(), S.op_late(), S.gap(), S.gap(), *S.ops_answer(),
           S.op_graph_cancel()]
    return S.plan(ops, qs=(1000, 1, 2, 3), mt=(-1,), lb=(1, 0), lbt=(1, 2), wt=(3, 4), size=size)


def execute(plan):
    with S.SchedRun(plan) as s:
        s.execute()
        s.settle(1.0)
        s.drain(100)
        s.settle(1.5)
        graphs, of = {}, {}
        value, failed = {}, {}
        answered = Counter()
        due_cancel, due_result = {}, {}
        labels = Counter()

        def overdue(t, m):
            for n, (t0, w) in list(due_cancel.items()):
                if m.at.get(n) != w or w not in m.workers:
                    del due_cancel[n]
                else:
                    require(t <= t0 + 0.6, f"t={t0:.4f}: the graph of {n} has ended, and {w}, which has it, is not told to cancel it", "goes-on")
            for g, (t0, status, results) in due_result.items():
                require(t <= t0 + 0.6, f"t={t0:.4f}: graph {g} has ended as {status.name}, its client is not told", "silent")

        for (t, d, peer, msg), m in s.history():
            overdue(t, m)
            if d == "in":
                if isinstance(msg, M.GraphTask):
                    graphs[msg.task_id] = (peer, msg, {n.task_id: n for n in msg.graph})
                    of.update((n.task_id, msg.task_id) for n in msg.graph)
                elif isinstance(msg, M.TaskResult) and msg.task_id in m.at and msg.task_id in m.node_graph and msg.status in S.FINAL:
                    tid, g = msg.task_id, m.node_graph[msg.task_id]
                    if msg.status == M.TaskStatus.Success:
                        value[tid] = bytes(msg.result)
                        if m.graphs[g]["open"] == {tid}:
                            due_result[g] = (t, msg.status, [value[x] for x in graphs[g][1].targets])
                    else:
                        failed[g] = (tid, msg.status)
                        due_result[g] = (t, msg.status, [bytes(msg.result)])
                        for n in m.graphs[g]["open"] - {tid}:
                            if n in m.at and m.at[n] in m.workers and n not in m.canceling:
                                due_cancel[n] = (t, m.at[n])
                                labels["running-siblings"] += 1
                        labels[msg.status.name] += 1
                elif isinstance(msg, M.GraphTaskCancel) and msg.task_id in m.graphs:
                    failed[msg.task_id] = (None, M.TaskStatus.Canceled)
                    for n in m.graphs[msg.task_id]["open"]:
                        if n in m.at and m.at[n] in m.workers:
                            due_cancel[n] = (t, m.at[n])
            elif d in ("out", "drop"):
                if isinstance(msg, M.TaskCancel):
                    due_cancel.pop(msg.task_id, None)
                    if d == "out" and msg.task_id in of:
                        require(of[msg.task_id] in failed, f"t={t:.4f}: node {msg.task_id} is cancelled, its graph has not ended", "harms")
                elif isinstance(msg, M.Task) and d == "out" and msg.task_id in of:
                    g = of[msg.task_id]
                    require(g not in failed, f"t={t:.4f}: node {msg.task_id} is given to {peer}, but its graph ended: {failed.get(g)}", "dependant")
                    node = graphs[g][2][msg.task_id]
                    require(msg.function_id == node.function_id, f"node {msg.task_id} calls {msg.function_id}, submitted with {node.function_id}", "function")
                    want = []
                    for a in node.function_args:
                        if a.type == M.ArgumentType.Task:
                            require(a.data in value, f"t={t:.4f}: node {msg.task_id} is given to {peer} before {a.data}, an argument, has a result", "order")
                            want.append(value[a.data])
                            labels["substituted"] += 1
                        else:
                            want.append(bytes(a.data))
                    got = [bytes(a.data) for a in msg.function_args]
                    require(got == want, f"t={t:.4f}: node {msg.task_id} is called with {got}, must be {want}", "arguments")
                elif isinstance(msg, M.GraphTaskResult) and d == "out":
                    g = msg.task_id
                    answered[g] += 1
                    require(g in due_result and answered[g] == 1, f"t={t:.4f}: {peer} gets an answer about graph {g} ({msg.status.name}) that must not come now", "answer")
                    _, status, results = due_result.pop(g)
                    got = [bytes(x) for x in msg.results]
                    require((msg.status, got) == (status, results), f"t={t:.4f}: graph {g} is answered with {msg.status.name} {got}, must be {status.name} {results}", "answer")
                    require(peer == graphs[g][0], f"the answer to graph {g} of {graphs[g][0]} goes to {peer}", "answer")
        for g in graphs:
            require(answered[g] == (0 if g in failed and failed[g][0] is None else 1), f"graph {g} got {answered[g]} answers, failed: {failed.get(g)}", "answer")
        m = s.model
        for tid, n in m.accepted.items():
            if tid not in of:
                require(len(m.finals[tid]) == n, f"task {tid} has {len(m.finals[tid])} outcomes", "harms")
        labels["graphs"] = len(answered)
        return Case(bool(labels["substituted"]) and len(answered) > 0, [x for x, y in labels.items() if y])


RULE = ("graphs of up to nine nodes (results and data as arguments in any order, repeated, inner nodes requested) and tasks at scripted workers that answer, fail, leave, "
        "fall silent; non-trivial: a result was substituted as an argument and a graph was answered")
