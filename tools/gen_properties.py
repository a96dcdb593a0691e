"""Writes /verif/properties.jsonl (the source of the property list)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


CL = "scaled/client.py"
SC = "scaled/io/sync_connector.py"
AC = "scaled/io/async_connector.py"
AB = "scaled/io/async_binder.py"
SM = "scaled/scheduler/main.py"
TM = "scaled/scheduler/task_manager.py"
WM = "scaled/scheduler/worker_manager.py"
FM = "scaled/scheduler/function_manager.py"
CM = "scaled/scheduler/client_manager.py"
GM = "scaled/scheduler/graph_manager.py"
SR = "scaled/scheduler/status_reporter.py"
QA = "scaled/scheduler/allocators/queued.py"
WK = "scaled/worker/worker.py"
PM = "scaled/worker/agent/processor_manager.py"
WT = "scaled/worker/agent/task_manager.py"
HB = "scaled/worker/agent/heartbeat_manager.py"
TO = "scaled/worker/agent/timeout_manager.py"
PR = "scaled/worker/agent/processor/processor.py"
CC = "scaled/worker/agent/processor/cache_cleaner.py"
MSG = "scaled/protocol/python/message.py"
SER = "scaled/protocol/python/serializer/default.py"
CLU = "scaled/cluster/cluster.py"
SP = "scaled/cluster/scheduler.py"
CO = "scaled/cluster/combo.py"
IQ = "scaled/utility/queues/async_indexed_queue.py"
PQ = "scaled/utility/queues/async_priority_queue.py"
OM = "scaled/utility/one_to_many_dict.py"
KV = "scaled/utility/key_value_set.py"
ZC = "scaled/utility/zmq_config.py"
FO = "scaled/utility/formatter.py"
TOP = "scaled/entry_points/top.py"
LU = "scaled/utility/logging/utility.py"
LS = "scaled/utility/logging/scoped_logger.py"
LD = "scaled/utility/logging/decorators.py"
ES = "scaled/entry_points/scheduler.py"
EC = "scaled/entry_points/cluster.py"
EL = "scaled/utility/event_loop.py"

prop("C01", "A remote call computes what the local call computes",
     "For every picklable function and every combination of positional and keyword arguments, the future returned by "
     "submitting the call yields the value that calling the function locally with the same arguments returns. "
     "Argument combinations the function cannot be called with are refused with TypeError (at submission or through "
     "the future) and the body is never run with other arguments than those given. Keyword arguments that cannot be "
     "passed positionally are refused with TypeError; a function is taken as it is at its first submission.",
     ["inputs", "programs"],
     "all function signatures (positional-only, defaults, *args, keyword-only, **kwargs, lambdas, partials, builtins, "
     "methods, callables) and all argument splits between positional and keyword",
     "The tests submit four hand-written signatures with at most two keyword splits; argument binding has "
     "combinatorially many shapes (partial overrides of defaults, duplicates, surplus keywords, keyword-only).",
     [CL, PR, SER], [("argument conversion at submission", f"{CL}: submit/__convert_kwargs_to_args"),
                     ("function call in the worker", f"{PR}: __process_task")],
     [("arguments", "serialized positional arguments of a task", f"{MSG}: Task.function_args")],
     ["Future.result()", "calls recorded by the submitted function"])

prop("C02", "Every submitted task is eventually resolved",
     "As long as the scheduler runs, at least one worker stays connected and submitted functions terminate, every "
     "future returned by a connected client is eventually done, whatever the order and delay of messages, the number "
     "of clients and the arrival of workers. No legal traffic ever stops the scheduler, an agent, a processor or a "
     "client's background thread from serving.",
     ["schedules", "histories", "configurations"],
     "all message latencies and interleavings, client/worker counts, worker join times, queue sizes and task mixes",
     "Tests run one client against ten idle workers on loopback, in one order; liveness under other latencies, "
     "saturated queues and late workers is not exercised.",
     [CL, TM, WM, QA, WT, PM, PR, SC, AB, AC],
     [("unassigned queue and dispatch loop", f"{TM}: routine"), ("worker slots", f"{QA}: assign_task"),
      ("agent queue and processor hand-off", f"{WT}, {PM}: on_task"),
      ("function upload before task", f"{CL}: __on_buffer_task_send")],
     [("unassigned", "accepted tasks without a worker", TM), ("running", "tasks sent to a worker", TM)],
     ["Future.done() at quiescence", "process/thread crashes"])

prop("C03", "Without worker loss each task runs exactly once, for its own future",
     "When no worker is lost and nothing is cancelled, each submitted task is executed exactly once, its outcome is "
     "delivered exactly once, and it is delivered to the future of that very submission on the client that made it, "
     "also when several clients submit the same function concurrently and when tasks are moved between workers.",
     ["schedules", "histories"],
     "all interleavings of submissions by several clients, load balancing moves, worker joins and message delays",
     "Tests compare result lists of one client; duplicated execution or cross-delivery between clients that happens "
     "only under rebalancing or reordering is invisible to them.",
     [CL, TM, WM, CM, QA, WT], [("task to worker map", f"{QA}: assign_task/remove_task"),
                                ("task to client map", f"{CM}"), ("late result suppression", f"{WM}: on_task_done")],
     [("task->client", "owner of a task", CM), ("task->worker", "current assignment", QA)],
     ["execution log of user functions", "Future results", "TaskResult frames per client"])

prop("C04", "Tasks of a lost worker are completed by other workers",
     "When a worker disappears at any moment (killed, disconnecting on request, or silent beyond the worker timeout) "
     "every task it held that has no recorded outcome is run again by a remaining or later worker and resolves with "
     "its correct outcome, however often that happens to the same task. Tasks whose outcome the scheduler had already "
     "received are not run again and no future receives a second outcome. A worker that was regarded as lost, comes "
     "back and is handed a task it still has executes that task once and is as good as any other worker from then on.",
     ["crash_points", "fault_sequences", "schedules"],
     "every point in time at which each of the workers may be killed or leave, including repeatedly and while results "
     "and cancellations are in flight",
     "No test removes a worker. Crash points are continuous in time and interact with in-flight messages.",
     [WM, TM, QA, WK], [("timeout scan", f"{WM}: __clean_workers"), ("disconnect request", f"{WM}: on_disconnect"),
                        ("reroute", f"{TM}: on_task_reroute")],
     [("alive since", "last heartbeat per worker", WM)], ["Future results", "execution log", "TaskResult frames"])

prop("C05", "Disconnecting a client fails its futures and withdraws only its work",
     "After a client disconnects, every one of its unresolved futures promptly fails with the disconnect error and its "
     "already resolved futures keep their outcome (an outcome arriving at the very moment may still win). Its tasks and graphs that had not started are withdrawn and never "
     "start once the scheduler has learned of it, and the work of other clients is unaffected and resolves normally. A "
     "call whose future the user cancelled before the scheduler accepted it stays cancelled and is withdrawn as well.",
     ["schedules", "histories", "crash_points"],
     "every moment of disconnection relative to submission, acknowledgement, execution and completion of tasks and "
     "graphs of several clients",
     "test_noop_cancel disconnects once with idle tasks and asserts nothing afterwards.",
     [CL, TM, GM, WM, WT, PM], [("exit callback", f"{CL}: __on_exit"), ("cancel handling", f"{TM}: on_task_cancel"),
                                ("graph cancel", f"{GM}: on_graph_task_cancel")],
     [("pending futures", "futures not yet resolved", CL)], ["Future exceptions", "execution log", "other clients"])

prop("C06", "A cancelled task gets one final status, and only that task is stopped",
     "Cancelling a task at any moment produces exactly one final status for it towards its owner: its real outcome if "
     "it finished first, otherwise cancelled. A task cancelled before it started never starts, a task cancelled while "
     "executing is interrupted, and all other tasks queued on or later sent to that worker still run to completion "
     "exactly once.",
     ["schedules", "histories", "crash_points"],
     "every moment of cancellation in a task's life (waiting, in transit, queued at the worker, waiting for its "
     "function, executing, finished), repeated cancels, cancels racing with results, rebalancing and worker loss",
     "No test sends a cancellation for a chosen task; the windows are a few hundred microseconds wide.",
     [TM, WM, WT, PM, PR], [("scheduler cancel", f"{TM}: on_task_cancel"), ("agent cancel", f"{WT}: on_cancel_task"),
                            ("processor restart", f"{PM}: on_cancel_task/restart_processor")],
     [("processor holder", "current task and readiness of the processor", PM)],
     ["TaskResult frames received by the client", "execution log"])

prop("C07", "A graph yields exactly the values of local evaluation",
     "For every acyclic graph of constants and function nodes, requesting any set of nodes returns, for each requested "
     "key, the value local evaluation of that node gives, for any fan-in, fan-out, repeated arguments and argument "
     "order (requestable keys are function nodes). Each node of the graph is executed exactly once and only after the "
     "nodes it depends on.",
     ["inputs", "schedules"],
     "all directed acyclic graphs, constant kinds, target sets (in any order, overlapping inner nodes), worker counts "
     "and completion orders",
     "Tests evaluate one four-node graph. Result retention and release depends on graph shape, target choice and "
     "completion order.",
     [CL, GM, TM], [("graph construction", f"{CL}: __construct_graph"), ("dependency release", f"{GM}: __get_task_result"),
                    ("topological dispatch", f"{GM}: __check_one_graph")],
     [("graph", "sorter, intermediate results, dependants", GM)], ["get() results", "execution log"])

prop("C08", "A failing graph node fails the request, stops dependants and harms nothing else",
     "When a node of a graph raises, every future requested from that graph fails with that exception and no node "
     "depending on the failed one is executed; what is left of that graph is withdrawn. The scheduler and workers keep "
     "serving, and other graphs and tasks, submitted before or after, complete normally.",
     ["inputs", "schedules"],
     "all graph shapes, failing node positions (several may fail), target sets, and sibling nodes being idle, queued, "
     "running or finished when the failure arrives",
     "test_graph_fail has one target and no sibling in flight; the clean-up paths for running and unassigned siblings "
     "are not reached.",
     [GM, TM, CL, WT, PM], [("graph clean-up", f"{GM}: __clean_graph"), ("failure fan-out", f"{CL}: __on_graph_task_result")],
     [], ["future exceptions", "execution log", "later submissions"])

prop("C09", "Malformed graph requests are rejected at the call and leave no trace",
     "A graph request with a cycle, an undefined argument, an unknown requested key or an unusable node raises an "
     "exception from the call itself. Nothing is sent for it, nothing is executed, and the client remains fully "
     "usable; valid requests are never rejected.",
     ["inputs"],
     "all graphs with an injected defect (self loop, longer cycle, missing argument name, missing key, constant key)",
     "No test passes an invalid graph.",
     [CL], [("graph check", f"{CL}: __check_graph"), ("split of constants and nodes", f"{CL}: __split_data_and_graph")],
     [], ["exception at get()", "frames sent", "later submissions"])

prop("C10", "A failing task fails its own future and nothing else",
     "Whatever a task raises or returns, its future completes: with the exception the function raised (same type and "
     "arguments when it can be transported, otherwise some exception telling the failure). The worker survives and "
     "later tasks on the same worker and the same client behave normally, also when exceptions, results or arguments "
     "cannot be pickled or unpickled or the task tries to exit the process (a task that does end its process fails "
     "within about a second).",
     ["inputs", "histories"],
     "all exception classes (custom constructors, unpicklable attributes, local classes, BaseException subclasses, "
     "chained), unpicklable/un-unpicklable results and arguments, in any sequence of tasks",
     "Tests raise one ValueError once.",
     [PR, CL, PM, SER], [("exception capture", f"{PR}: __process_task"), ("exception delivery", f"{CL}: __on_task_result")],
     [], ["Future.exception()", "follow-up tasks"])

prop("C11", "Every message survives encoding and decoding unchanged",
     "For every message a component can construct, encoding it and decoding the frames yields an equal message of the "
     "same kind, for every field value in the field's domain (durations in single precision), and distinct messages never encode to the same frames. "
     "Every declared message kind and every status value of a message is decodable by the receiving side.",
     ["inputs"],
     "all message kinds with arbitrary ids, payload bytes, list lengths, numeric field values",
     "No unit test encodes a message; integration tests only pass tiny values.",
     [MSG], [("serialize/deserialize pairs", MSG), ("registry of kinds", f"{MSG}: PROTOCOL")], [],
     ["deserialize(serialize(m)) == m"])

prop("C12", "Malformed traffic is dropped without disturbing service",
     "Frames that are not a valid message (too few frames, unknown kind, undecodable payload, ids or states unknown "
     "to the receiver, or kinds the receiver does not expect) are discarded by scheduler, worker and client. All "
     "valid work of other peers submitted before, during and after is completed as if the frames had not arrived.",
     ["inputs", "histories"],
     "arbitrary frame sequences: random bytes, mutated valid messages, valid messages with unknown ids, at any time, "
     "into scheduler, agent and client",
     "No test sends anything but valid messages.",
     [AB, AC, SC, SM, WK, CL, TM, WM, FM, GM], [("frame validation", f"{AB}: __is_valid_message"),
                                               ("dispatch", f"{SM}: on_receive_message")],
     [], ["process crashes", "results of concurrent valid work"])

prop("C13", "Workers never hold more than their capacity and load is spread evenly",
     "The scheduler never has more unfinished tasks at a worker than the configured per-worker queue size, and each "
     "task is handed to a worker with the fewest unfinished tasks at that moment. Whenever a task is waiting and some "
     "connected worker has a free slot, the task is handed out without further external events; a worker executes at "
     "most one task at a time.",
     ["histories", "schedules", "configurations"],
     "all sequences of worker arrivals, departures, task arrivals, completions, cancellations, and all queue sizes",
     "Tests use a queue of 1000 per worker and ten workers, so capacity is never reached.",
     [QA, PQ, WM, TM], [("slot accounting", f"{QA}"), ("heap with locator", f"{PQ}")],
     [("workers_to_task_ids", "tasks per worker", QA), ("worker queue", "workers ordered by load", PQ)],
     ["Task/TaskResult/BalanceResponse frames between scheduler and workers"])

prop("C14", "Load balancing moves only queued tasks, towards idle workers, losing none",
     "With balancing enabled, when some worker stays idle while another has more than its even share, the scheduler "
     "within the configured number of checks asks the overloaded workers, and only them, for their surplus over the "
     "mean (once, as long as no load changes), and the tasks given back are run by others. A task being executed is never moved; with balancing disabled "
     "no task is ever asked back.",
     ["histories", "schedules", "configurations"],
     "all load distributions, task durations, worker join times, trigger counts and check phases",
     "Tests have uniform no-op tasks and workers present from the start; balancing never has to do anything.",
     [WM, QA, WT], [("advice", f"{QA}: balance"), ("trigger", f"{WM}: __balance_request"),
                    ("give back", f"{WT}: on_balance_request"), ("reroute", f"{WM}: on_balance_response")],
     [], ["BalanceRequest/BalanceResponse frames", "execution log", "makespan in virtual time"])

prop("C15", "Admission limit: excess tasks are refused, accepted ones are kept",
     "With a limit of N waiting tasks, a task is refused if and only if, when it arrives, no worker has a free slot and "
     "N tasks are already waiting; with no limit nothing is refused. A refused task is never executed and its future "
     "fails instead of hanging, a graph whose node is refused fails as a whole; accepted tasks are unaffected by "
     "refusals.",
     ["histories", "configurations", "schedules"],
     "all limits, queue sizes, worker counts and submission bursts",
     "Tests use the default unlimited setting.",
     [TM, QA, CL], [("admission test", f"{TM}: on_task_new"), ("capacity probe", f"{QA}: has_available_worker"),
                    ("refusal at the client", f"{CL}: __on_task_echo")],
     [], ["TaskEcho frames", "Future outcome", "execution log"])

prop("C16", "Function caching and eviction are invisible to tasks",
     "Whatever has been cached or evicted in scheduler and workers, each task runs exactly the function it was "
     "submitted with, and submissions after any idle time succeed. A function with unfinished tasks is never evicted "
     "from the scheduler nor any function earlier than the retention time after it was last submitted or announced, and "
     "one unused for longer than that is dropped by scheduler and workers.",
     ["histories", "schedules", "configurations"],
     "all sequences of submissions of several (same-named, by-value, closure) functions with idle periods around the "
     "retention boundaries of both sides, several clients and slow uploads",
     "Tests finish within the retention time and use each function once.",
     [FM, CC, PR, CL, PM], [("retention sweep", f"{FM}: routine"), ("worker cache", f"{CC}"),
                            ("missing function request", f"{PR}: __on_received_task"),
                            ("re-upload on FunctionNotExists", f"{CL}: __on_task_echo")],
     [], ["results", "FunctionRequest/FunctionResponse frames"])

prop("C17", "Published monitoring data agrees with what happened",
     "Every status report counts exactly the tasks that are waiting, sent to a worker and finished per outcome at that "
     "moment, and lists exactly the connected workers with the number of tasks sent to each, the load per client "
     "(unfinished tasks and graph requests) and per function and the messages exchanged; what workers report about "
     "themselves (queued tasks, being busy, latency, memory) is what was true when they reported it. The published state changes of each task follow its life: waiting, "
     "running, possibly back to waiting, and exactly one final state.",
     ["histories", "schedules"],
     "all histories of submissions, completions, failures, cancellations, reroutes, worker arrivals and losses",
     "No test subscribes to the monitor.",
     [SR, TM, WM, CM, FM, AB, GM], [("task counters", f"{TM}: on_task_done"), ("statistics", f"{TM}/{WM}/{CM}/{FM}"),
                                   ("state stream", f"{TM}: __send_monitor")],
     [], ["SchedulerState/TaskState/GraphTaskState publications"])

prop("C18", "The indexed queue behaves as a FIFO queue with removal",
     "For every sequence of operations the indexed queue agrees with a plain FIFO list of distinct items: same items "
     "in the same order, same membership, same length, the same errors for duplicates, absent items and emptiness; "
     "waiting consumers receive the items in order. Any hashable items may be used.",
     ["histories", "inputs"], "all operation sequences and item kinds, including items with equal hashes",
     "Two short example-based tests with integers.",
     [IQ], [("linked list plus index", IQ)], [], ["return values and exceptions"])

prop("C19", "The priority queue and slot allocator keep exact load accounts",
     "For every sequence of operations the priority queue returns entries in order of current priority and priority "
     "changes and removals affect exactly the named entry; the allocator's per-worker counts equal the tasks assigned "
     "and not removed, a task is assigned to at most one worker, and removing a worker returns exactly its tasks.",
     ["histories"], "all operation sequences on queue and allocator, including capacity probes between operations",
     "There is no test of either.",
     [PQ, QA], [("heap and locator", PQ), ("assignment maps", QA)], [], ["return values"])

prop("C20", "Relation containers behave like their mathematical relation",
     "For every sequence of operations the one-to-many dictionary agrees with a set of (key, value) pairs in which "
     "each value has one key, and the key-to-set dictionary agrees with a set of pairs; lookups, membership, removals "
     "and error cases agree, failed operations change nothing, and keys without values are absent.",
     ["histories"], "all operation sequences", "There is no test of either.",
     [OM, KV], [("paired maps", OM), ("set map", KV)], [], ["return values and exceptions"])

prop("C21", "Addresses parse and format consistently; bad ones are refused",
     "Every valid address parses to its parts and formats back to the same text, every constructible address survives "
     "format and parse unchanged, and every malformed address is refused with an error rather than misread.",
     ["inputs"], "all address strings and part combinations", "There is no test.",
     [ZC], [("from_string/to_address", ZC)], [], ["ZMQConfig values, exceptions"])

prop("C22", "Monitor display renders any reported numbers truthfully",
     "Every byte count, duration, percentage and integer that can be reported is rendered as text without error, and "
     "the rendered value with its unit equals the number to the displayed precision; larger numbers never render as "
     "smaller ones. A status report of any content is displayed without crashing, lists every worker once in the "
     "chosen sort order, and any screen size is tolerated. The monitor attached to a scheduler always shows the latest report it received and nothing left over from an earlier one, sorted by the key pressed last; other messages of the scheduler do not disturb it, it gives up with TimeoutError exactly when nothing arrived for the timeout (default 5 s), and an interrupt ends it cleanly.",
     ["inputs"], "all non-negative numbers, all status reports a scheduler can publish, and histories of reports, keys, stalls, deaths and interrupts",
     "There is no test of the monitor.",
     [FO, TOP], [("formatting", FO), ("table rendering", f"{TOP}: show_status")], [], ["rendered text"])

prop("C23", "Every configuration option reaches the component it names",
     "Each command-line option and each constructor parameter of scheduler, cluster and combined deployment takes "
     "effect in the component that acts on it with exactly the given value, options do not influence each other, and "
     "documented defaults apply when an option is absent.",
     ["configurations"], "all subsets of options with arbitrary values",
     "Tests only use SchedulerClusterCombo with two parameters.",
     [ES, EC, CO, CLU, SP, EL], [("argument parsing", f"{ES}, {EC}"), ("parameter passing", f"{CO}, {CLU}, {SP}, {WK}")],
     [], ["configured values of the started components"])

prop("C24", "Only silent workers are expelled and workers leave a dead scheduler",
     "A worker whose heartbeats keep arriving within the worker timeout is never treated as dead, one that is silent longer "
     "is removed and receives no further tasks, and it is readmitted when it is heard again. A worker that hears "
     "nothing from the scheduler for the death timeout terminates itself and its processor, and never does so while "
     "the scheduler answers (heartbeat interval below the death timeout); any reported load, queue length or delay is representable.",
     ["schedules", "fault_sequences", "configurations"],
     "all timeout and interval settings, silent periods, scheduler stalls and restarts, load figures",
     "Tests last a few seconds and never silence anyone.",
     [WM, HB, TO, WK, MSG], [("alive-since scan", f"{WM}: __clean_workers"), ("death timer", f"{TO}"),
                             ("heartbeats", f"{HB}")],
     [], ["worker list in status reports", "agent process exit", "frames sent to worker"])

prop("C25", "Finished work leaves no residue in the scheduler",
     "Once every submitted task and graph has reached its end, whatever mixture of success, failure, cancellation, "
     "refusal, worker loss and client departure led there, the scheduler retains nothing about them: no waiting or "
     "running task, no load on any worker, client or function, and after the retention time no cached function. "
     "Connected clients retain no bookkeeping for resolved work.",
     ["histories", "schedules", "fault_sequences"],
     "all histories that end in quiescence",
     "Tests never look at scheduler state; leaks only matter over long histories.",
     [TM, WM, CM, FM, GM, QA, CL], [("per-task maps", f"{TM}, {CM}, {FM}, {GM}, {QA}")],
     [], ["status reports at quiescence", "reachable objects of the scheduler"])

prop("C26", "A client may be used from several threads",
     "Submitting, requesting graphs and awaiting results concurrently from any number of threads, at any interleaving "
     "with each other and with the client's own background thread, resolves every future with its own result. No "
     "interleaving crashes the background thread or loses a submission.",
     ["schedules"], "all interleavings of user threads and the background thread at source-line granularity",
     "Thread switches inside submit/get are rare; tests submit from one thread and would fail once in millions of runs.",
     [CL, SC], [("task and function tables shared between threads", f"{CL}: submit / __on_receive"),
                ("send queue", f"{SC}: send")],
     [], ["Future results", "background thread alive"])

prop("C27", "Futures obey the standard future contract",
     "Each returned future changes state at most once to done; waiting, callbacks, timeouts and user-side cancel() work "
     "as documented for concurrent.futures. A successful user-side cancel leaves the future cancelled for good, and "
     "neither it nor callbacks that raise disturb any other future or the client.",
     ["histories", "schedules"], "all interleavings of user operations on futures with results arriving",
     "No test calls cancel(), callbacks, or timeouts on a future.",
     [CL], [("result delivery", f"{CL}: __on_task_result / __on_graph_task_result / __on_exit")], [],
     ["Future state", "callback log"])

prop("C28", "map equals the built-in map over argument tuples",
     "Mapping a function over any iterable (list, generator, iterator, view) of argument tuples returns the list of "
     "local results in input order, including the empty one. An element that is not a tuple or list is refused with "
     "TypeError before anything runs, and an exception raised by a call is raised to the caller.",
     ["inputs", "schedules"], "all iterables, lengths, element kinds and completion orders",
     "Tests map one list of ints.",
     [CL], [("map", f"{CL}: map")], [], ["returned list", "exceptions", "execution log"])

prop("C29", "Shutting a cluster down leaves no process behind",
     "On SIGINT or SIGTERM to the cluster process (or its whole process group) at any moment after it has installed its "
     "handlers, a cluster of any size ends: every worker agent tells the scheduler it leaves, "
     "terminates its processor, removes its communication file and exits, and the cluster process exits. The scheduler "
     "hands the tasks of the departed workers to the remaining ones. A combined deployment that is shut down, or that "
     "its program no longer refers to, leaves none of its processes.",
     ["crash_points", "configurations", "schedules"],
     "every moment of shutdown (starting, idle, executing, scheduler absent), every cluster size, both signals",
     "Tests terminate the combo at the end but never check that processes are gone.",
     [CLU, WK, PM, CO, WM], [("signal forwarding", f"{CLU}: __destroy"), ("agent shutdown", f"{WK}: __get_loops"),
                             ("processor kill", f"{PM}: destroy")],
     [], ["process table after shutdown", "DisconnectRequest at scheduler"])

prop("C30", "A user-supplied serializer is used for every function, argument and result",
     "With a custom serializer configured on client and workers, every function, every argument (of tasks and of graph "
     "nodes) and every result crosses the wire in that serializer's encoding and is decoded by the matching operation "
     "exactly once; an intermediate graph result is passed on to the nodes using it in the result encoding and decoded there "
     "as a result.",
     ["inputs", "programs"], "all serializers with arbitrary distinct encodings, all tasks and graphs",
     "Tests only use the default serializer, whose argument and result encodings are the same as everything else.",
     [CL, PR, SER, CO, CLU], [("serializer calls", f"{CL}, {PR}")], [], ["payload frames", "results"])

prop("C31", "Components may start in any order",
     "Scheduler, workers and clients may be started in any order with any delays; tasks and graphs submitted before "
     "the scheduler or any worker exists are kept and completed once they appear, and workers connecting late take "
     "part in the waiting work.",
     ["schedules", "configurations"], "all start orders and delays",
     "Tests always start the combo first.",
     [CL, WK, SM, TM, QA], [("queueing connect sockets", f"{SC}, {AC}"), ("waiting for workers", f"{QA}: assign_task")],
     [], ["Future results"])

prop("C32", "Logs reach every named destination and timing wrappers change nothing",
     "After logging is set up, every line logged by any logger (made before or after) at or above the chosen level "
     "(default INFO; never below DEBUG) appears exactly once, in order and in the documented format, on each named destination: "
     "the screen for '-' and /dev/stdout, otherwise the file, with ~ and environment variables expanded and what it held before "
     "kept; lines below the level appear nowhere, a later set-up replaces the destinations of the earlier one, and network "
     "addresses are refused without disturbing the set-up in force. Wrapping a call in the logging decorator or scope "
     "changes neither its arguments, result, exception nor name, and logs its begin and its end (also when it fails) at the chosen level "
     "with the caller's location and the elapsed time to the microsecond.",
     ["histories", "inputs"], "all sequences of set-ups and log calls, all destinations, levels and durations",
     "The suite sets logging up once and looks at nothing.",
     [LU, LS, LD], [("destinations, levels, formats", LU), ("timing", f"{LS}, {LD}")], [], ["content of screen and files", "results of wrapped calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
