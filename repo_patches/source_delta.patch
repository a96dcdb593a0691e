From 4fb3232fe42fd32abca4501fb54d669980430477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 01/51] fix: index queue items by value instead of by hash

Two distinct items with equal hashes were taken for the same item.
---
 scaled/utility/queues/async_indexed_queue.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/scaled/utility/queues/async_indexed_queue.py b/scaled/utility/queues/async_indexed_queue.py
index 18c7d98..6828d30 100644
--- a/scaled/utility/queues/async_indexed_queue.py
+++ b/scaled/utility/queues/async_indexed_queue.py
@@ -111,33 +111,30 @@ class _DoubleLinkedList:
 class _IndexedDoubleLinkedQueue:
     def __init__(self):
         self._double_linked_list = _DoubleLinkedList()
-        self._hash_map: Dict[int, _Node] = {}
+        self._item_to_node: Dict[Hashable, _Node] = {}
 
     def __contains__(self, item: Hashable):
-        key = hash(item)
-        return key in self._hash_map
+        return item in self._item_to_node
 
     def __len__(self):
         return self._double_linked_list.__len__()
 
     def put(self, item: Hashable):
-        key = hash(item)
-        if key in self._hash_map:
+        if item in self._item_to_node:
             raise KeyError(f"{self.__class__.__name__} already have item: {item}")
 
         node = _Node(item)
         self._double_linked_list.add_to_head(node)
-        self._hash_map[key] = node
+        self._item_to_node[item] = node
 
     def get(self):
         node = self._double_linked_list.remove_tail()
-        del self._hash_map[hash(node.value)]
+        del self._item_to_node[node.value]
         return node.value
 
     def remove(self, item: Hashable):
-        key = hash(item)
-        if key not in self._hash_map:
+        if item not in self._item_to_node:
             raise KeyError(f"{self.__class__.__name__} doesn't have item: {item}")
 
-        node = self._hash_map.pop(key)
+        node = self._item_to_node.pop(item)
         self._double_linked_list.remove(node)
-- 
2.43.0


From 78b5e415fb43d8127bd51fbb63dbfd0d4db6b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 02/51] fix: max_priority of PriorityQueue must not replace the
 entry

It pushed a copy of the top entry, so the locator pointed to an entry
that is no longer in the heap and later priority changes were lost.
---
 scaled/utility/queues/async_priority_queue.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/scaled/utility/queues/async_priority_queue.py b/scaled/utility/queues/async_priority_queue.py
index 4f976c0..d69f85c 100644
--- a/scaled/utility/queues/async_priority_queue.py
+++ b/scaled/utility/queues/async_priority_queue.py
@@ -46,6 +46,4 @@ class PriorityQueue(Queue):
         heapq._siftdown(self._queue, 0, i)  # type: ignore # noqa
 
     def max_priority(self):
-        priority, item = heapq.heappop(self._queue)
-        heapq.heappush(self._queue, [priority, item])
-        return priority
+        return self._queue[0][0]
-- 
2.43.0


From 87bf9b61bcc40b9bdfc33338a76a2277b9512f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 03/51] fix: make Client safe against its own background thread
 and other threads

Futures were registered after the task had been sent, so an echo or result
could arrive first and end the I/O thread with KeyError or be dropped, and the
list of tasks waiting for their function was changed without a lock, so a task
appended while the response was handled was never sent.
---
 scaled/client.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 8e4bf20..c7c8833 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -56,8 +56,6 @@ class Client:
             exit_callback=self.__on_exit,
             daemonic=True,
         )
-        self._connector.start()
-        logging.info(f"ScaledClient: connect to {address}")
 
         self._function_to_function_id_cache: Dict[Callable, Tuple[bytes, Tuple[bytes, bytes]]] = dict()
 
@@ -69,6 +67,12 @@ class Client:
 
         self._graph_task_id_to_futures: Dict[bytes, List[Future]] = dict()
 
+        # submit() and get() are called from user threads while messages are handled in connector's thread
+        self._lock = threading.Lock()
+
+        self._connector.start()
+        logging.info(f"ScaledClient: connect to {address}")
+
     def __del__(self):
         logging.info(f"ScaledClient: disconnect from {self._address}")
         self.disconnect()
@@ -84,13 +88,14 @@ class Client:
             function_id,
             [Argument(ArgumentType.Data, self._serializer.serialize_argument(data)) for data in all_args],
         )
-        self._task_id_to_task[task_id] = task
-        self._task_id_to_function[task_id] = (function_name, function_bytes)
+        future: Future = Future()
 
-        self.__on_buffer_task_send(task)
+        with self._lock:
+            self._task_id_to_task[task_id] = task
+            self._task_id_to_function[task_id] = (function_name, function_bytes)
+            self._task_id_to_future[task_id] = future
+            self.__on_buffer_task_send(task)
 
-        future: Future = Future()
-        self._task_id_to_future[task_id] = future
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
@@ -125,8 +130,9 @@ class Client:
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
-        self._connector.send(graph_task)
-        self._graph_task_id_to_futures[graph_task.task_id] = futures
+        with self._lock:
+            self._graph_task_id_to_futures[graph_task.task_id] = futures
+            self._connector.send(graph_task)
 
         return_futures: Dict[str, Future] = dict(zip(keys, futures))
         if not block:
@@ -172,8 +178,8 @@ class Client:
             return
 
         if task_echo.status == TaskEchoStatus.FunctionNotExists:
-            task = self._task_id_to_task[task_echo.task_id]
-            self.__on_buffer_task_send(task)
+            with self._lock:
+                self.__on_buffer_task_send(self._task_id_to_task[task_echo.task_id])
             return
 
         if task_echo.status == TaskEchoStatus.NoWorker:
@@ -196,10 +202,13 @@ class Client:
 
     def __on_function_response(self, response: FunctionResponse):
         assert response.status in {FunctionResponseType.OK, FunctionResponseType.Duplicated}
-        if response.function_id not in self._function_id_to_not_ready_tasks:
-            return
+        with self._lock:
+            if response.function_id not in self._function_id_to_not_ready_tasks:
+                return
+
+            tasks = self._function_id_to_not_ready_tasks.pop(response.function_id)
 
-        for task in self._function_id_to_not_ready_tasks.pop(response.function_id):
+        for task in tasks:
             self._connector.send(task)
 
     def __on_task_result(self, result: TaskResult):
-- 
2.43.0


From 2cc74b8a56a592ad12052e8984afddb48cc905a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 04/51] fix: tolerate futures cancelled by the user

Future.cancel() made the I/O thread end with InvalidStateError when the
result arrived or the client disconnected.
---
 scaled/client.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index c7c8833..aed82d4 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -189,7 +189,8 @@ class Client:
 
         self._task_id_to_task.pop(task_echo.task_id)
         self._task_id_to_function.pop(task_echo.task_id)
-        self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()
+        if not self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel():
+            self._task_id_to_future.pop(task_echo.task_id)
 
     def __on_buffer_task_send(self, task):
         if task.function_id not in self._function_id_to_not_ready_tasks:
@@ -216,6 +217,9 @@ class Client:
             return
 
         future = self._task_id_to_future.pop(result.task_id)
+        if not self.__acquire_future(future):
+            return
+
         if result.status == TaskStatus.Success:
             future.set_result(self._serializer.deserialize_result(result.result))
             return
@@ -231,28 +235,37 @@ class Client:
         futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
         if graph_result.status == TaskStatus.Success:
             for i, result in enumerate(graph_result.results):
-                futures[i].set_result(self._serializer.deserialize_result(result))
+                if self.__acquire_future(futures[i]):
+                    futures[i].set_result(self._serializer.deserialize_result(result))
             return
 
         if graph_result.status == TaskStatus.Failed:
             exception = pickle.loads(graph_result.results[0])
             for i, result in enumerate(graph_result.results):
-                futures[i].set_exception(exception)
+                if self.__acquire_future(futures[i]):
+                    futures[i].set_exception(exception)
             return
 
+    @staticmethod
+    def __acquire_future(future: Future) -> bool:
+        """make future not cancellable by user anymore, return False if user already cancelled it"""
+        return future.running() or future.set_running_or_notify_cancel()
+
     def __on_exit(self):
         if self._task_id_to_future:
             logging.info(f"canceling {len(self._task_id_to_future)} task(s)")
             for task_id, future in self._task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
-                future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                if self.__acquire_future(future):
+                    future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
 
         if self._graph_task_id_to_futures:
             logging.info(f"canceling {len(self._graph_task_id_to_futures)} graph task(s)")
             for task_id, futures in self._graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
-                    future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                    if self.__acquire_future(future):
+                        future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
 
     def __get_function_id(self, fn: Callable) -> Tuple[bytes, Tuple[bytes, bytes]]:
         if fn in self._function_to_function_id_cache:
-- 
2.43.0


From 707922f29c07777f175fe8e53843ec33319fc1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 05/51] fix: fail the future when its result or exception
 cannot be deserialized

The error ended the I/O thread, so no future of the client was ever
resolved again.
---
 scaled/client.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index aed82d4..8501b9e 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -221,11 +221,11 @@ class Client:
             return
 
         if result.status == TaskStatus.Success:
-            future.set_result(self._serializer.deserialize_result(result.result))
+            self.__set_result(future, result.result)
             return
 
         if result.status == TaskStatus.Failed:
-            future.set_exception(pickle.loads(result.result))
+            future.set_exception(self.__load_exception(result.result))
             return
 
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
@@ -236,16 +236,37 @@ class Client:
         if graph_result.status == TaskStatus.Success:
             for i, result in enumerate(graph_result.results):
                 if self.__acquire_future(futures[i]):
-                    futures[i].set_result(self._serializer.deserialize_result(result))
+                    self.__set_result(futures[i], result)
             return
 
         if graph_result.status == TaskStatus.Failed:
-            exception = pickle.loads(graph_result.results[0])
+            exception = self.__load_exception(graph_result.results[0])
             for i, result in enumerate(graph_result.results):
                 if self.__acquire_future(futures[i]):
                     futures[i].set_exception(exception)
             return
 
+    def __set_result(self, future: Future, payload: bytes):
+        try:
+            result = self._serializer.deserialize_result(payload)
+        except Exception as e:
+            future.set_exception(e)
+            return
+
+        future.set_result(result)
+
+    @staticmethod
+    def __load_exception(payload: bytes) -> BaseException:
+        try:
+            exception = pickle.loads(payload)
+        except Exception as e:
+            return e
+
+        if not isinstance(exception, BaseException):
+            return TypeError(f"task failed with something that is not an exception: {exception!r}")
+
+        return exception
+
     @staticmethod
     def __acquire_future(future: Future) -> bool:
         """make future not cancellable by user anymore, return False if user already cancelled it"""
-- 
2.43.0


From 6574ddb011da46a1d59042cc3f384e0d32b9f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 06/51] fix: a failing graph fails all its requested futures

The result of a failed graph carries one exception, so only the first
requested future was resolved.
---
 scaled/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 8501b9e..2e74583 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -241,9 +241,9 @@ class Client:
 
         if graph_result.status == TaskStatus.Failed:
             exception = self.__load_exception(graph_result.results[0])
-            for i, result in enumerate(graph_result.results):
-                if self.__acquire_future(futures[i]):
-                    futures[i].set_exception(exception)
+            for future in futures:
+                if self.__acquire_future(future):
+                    future.set_exception(exception)
             return
 
     def __set_result(self, future: Future, payload: bytes):
-- 
2.43.0


From f614f4e6de400238520714a695e233fbbe1eda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 07/51] fix: map over a one-shot iterable

The type check consumed generators and iterators, so nothing was submitted.
---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index 2e74583..5ea81ad 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -99,6 +99,7 @@ class Client:
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
+        iterable = list(iterable)
         if not all(isinstance(args, (tuple, list)) for args in iterable):
             raise TypeError("iterable should be list of arguments(list or tuple-like) of function")
 
-- 
2.43.0


From 29aecb01b1c5dad9d55ac65defa64f89031760c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 08/51] fix: requesting a graph key twice must not shift the
 results of the others

Futures are created once per distinct key but were paired with the keys as
given.
---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index 5ea81ad..c5ade99 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -127,6 +127,7 @@ class Client:
         }
         """
 
+        keys = list(dict.fromkeys(keys))
         node_name_to_data_argument, graph = self.__split_data_and_graph(graph)
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
-- 
2.43.0


From b01ec25beac081a0b8354101cc855731e2fb429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 09/51] fix: bind arguments of a submitted call the way python
 does

Keyword arguments were dropped silently when enough positional arguments were
given, unexpected and duplicated ones were ignored, and builtins without
signature could not be submitted at all.
---
 scaled/client.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index c5ade99..223b2ec 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -306,27 +306,34 @@ class Client:
 
     @staticmethod
     def __convert_kwargs_to_args(fn: Callable, args: Tuple[Any, ...], kwargs: Dict[str, Any]) -> Tuple:
-        all_params = [p for p in signature(fn).parameters.values()]
-
-        params = [p for p in all_params if p.kind in {p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD}]
+        """task can only carry positional arguments, so bind arguments the way python does and make them positional"""
+        try:
+            # what is given positionally is passed as it is, so it's enough when the callable itself accepts it
+            fn_signature = signature(fn, follow_wrapped=bool(kwargs))
+        except ValueError:
+            # some builtin functions don't have signature
+            if kwargs:
+                raise TypeError(f"{fn} doesn't have signature, cannot pass keyword arguments: {tuple(kwargs)}")
 
-        if len(args) >= len(params):
             return args
 
-        number_of_required = len([p for p in params if p.default is p.empty])
+        fn_signature.bind(*args, **kwargs)
+
+        params = [
+            p for p in fn_signature.parameters.values() if p.kind in {p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD}
+        ]
+
+        positional_names = {p.name for p in params if p.kind == p.POSITIONAL_OR_KEYWORD}
+        not_positional = tuple(name for name in kwargs if name not in positional_names)
+        if not_positional:
+            raise TypeError(f"{fn} cannot be called with keyword only arguments: {not_positional}")
 
         args_list = list(args)
         kwargs = kwargs.copy()
-        kwargs.update({p.name: p.default for p in all_params if p.kind == p.KEYWORD_ONLY if p.default != p.empty})
-
-        for p in params[len(args_list) : number_of_required]:
-            try:
-                args_list.append(kwargs.pop(p.name))
-            except KeyError:
-                missing = tuple(p.name for p in params[len(args_list) : number_of_required])
-                raise TypeError(f"{fn} missing {len(missing)} arguments: {missing}")
+        for p in params[len(args) :]:
+            if not kwargs:
+                break
 
-        for p in params[len(args_list) :]:
             args_list.append(kwargs.pop(p.name, p.default))
 
         return tuple(args_list)
-- 
2.43.0


From 4a6cb287f12516725dd679a85f4050dd060642be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 10/51] fix: allow to submit callables that are not hashable

---
 scaled/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 223b2ec..96114c3 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -291,8 +291,12 @@ class Client:
                         future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
 
     def __get_function_id(self, fn: Callable) -> Tuple[bytes, Tuple[bytes, bytes]]:
-        if fn in self._function_to_function_id_cache:
-            return self._function_to_function_id_cache[fn]
+        try:
+            if fn in self._function_to_function_id_cache:
+                return self._function_to_function_id_cache[fn]
+        except TypeError:
+            # callable object is not hashable, cannot be cached
+            return self.__generate_function_id_bytes(fn)
 
         function_id, (function_name, function_bytes) = self.__generate_function_id_bytes(fn)
         self._function_to_function_id_cache[fn] = function_id, (function_name, function_bytes)
-- 
2.43.0


From 5a9563362df8ce89e798f4fe49f7ca9d9550e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 11/51] fix: fail the future of a refused task or graph

NoWorker echo ended the client's I/O thread with NotImplementedError, and a
graph with a refused node was never answered.
---
 scaled/client.py                  | 21 ++++++++++++++++++++-
 scaled/scheduler/graph_manager.py | 11 ++++++++++-
 scaled/scheduler/mixins.py        |  2 +-
 scaled/scheduler/task_manager.py  |  8 +++++---
 scaled/utility/exceptions.py      |  4 ++++
 5 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 96114c3..2be6d64 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -26,6 +26,7 @@ from scaled.protocol.python.message import FunctionResponse
 from scaled.protocol.python.message import FunctionResponseType
 from scaled.protocol.python.message import GraphTask
 from scaled.protocol.python.message import GraphTaskCancel
+from scaled.protocol.python.message import GraphTaskEcho
 from scaled.protocol.python.message import GraphTaskResult
 from scaled.protocol.python.message import MessageVariant
 from scaled.protocol.python.message import Task
@@ -37,6 +38,7 @@ from scaled.protocol.python.message import TaskStatus
 from scaled.protocol.python.serializer.default import DefaultSerializer
 from scaled.protocol.python.serializer.mixins import Serializer
 from scaled.utility.exceptions import ScaledDisconnect
+from scaled.utility.exceptions import ScaledNoWorker
 from scaled.utility.zmq_config import ZMQConfig
 
 
@@ -170,6 +172,10 @@ class Client:
             self.__on_graph_task_result(message)
             return
 
+        if isinstance(message, GraphTaskEcho):
+            self.__on_graph_task_echo(message)
+            return
+
         raise TypeError(f"Unknown {message=}")
 
     def __on_task_echo(self, task_echo: TaskEcho):
@@ -185,7 +191,12 @@ class Client:
             return
 
         if task_echo.status == TaskEchoStatus.NoWorker:
-            raise NotImplementedError("please implement that handles no worker error")
+            self._task_id_to_task.pop(task_echo.task_id)
+            self._task_id_to_function.pop(task_echo.task_id)
+            future = self._task_id_to_future.pop(task_echo.task_id)
+            if self.__acquire_future(future):
+                future.set_exception(ScaledNoWorker("task is refused, too many tasks are waiting for workers"))
+            return
 
         assert task_echo.status == TaskEchoStatus.SubmitOK, f"Unknown task status: " f"{task_echo=}"
 
@@ -230,6 +241,14 @@ class Client:
             future.set_exception(self.__load_exception(result.result))
             return
 
+    def __on_graph_task_echo(self, graph_task_echo: GraphTaskEcho):
+        if graph_task_echo.status != TaskEchoStatus.NoWorker:
+            return
+
+        for future in self._graph_task_id_to_futures.pop(graph_task_echo.task_id, []):
+            if self.__acquire_future(future):
+                future.set_exception(ScaledNoWorker("graph is refused, too many tasks are waiting for workers"))
+
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
         if graph_result.task_id not in self._graph_task_id_to_futures:
             return
diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 8ab0e8a..38b64f2 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -15,11 +15,13 @@ from scaled.protocol.python.message import FunctionRequest
 from scaled.protocol.python.message import FunctionRequestType
 from scaled.protocol.python.message import GraphTask
 from scaled.protocol.python.message import GraphTaskCancel
+from scaled.protocol.python.message import GraphTaskEcho
 from scaled.protocol.python.message import GraphTaskResult
 from scaled.protocol.python.message import GraphTaskState
 from scaled.protocol.python.message import NodeTaskType
 from scaled.protocol.python.message import Task
 from scaled.protocol.python.message import TaskCancel
+from scaled.protocol.python.message import TaskEchoStatus
 from scaled.protocol.python.message import TaskResult
 from scaled.protocol.python.message import TaskStatus
 from scaled.scheduler.mixins import ClientManager
@@ -191,7 +193,14 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
                 self.__get_argument(graph_task_id, task_id, arg) for arg in task_info.task.function_args
             ]
             task_info.state = _TaskState.Running
-            await self._task_manager.on_task_new(graph_info.client, task_info.task)
+            if await self._task_manager.on_task_new(graph_info.client, task_info.task):
+                continue
+
+            # node is refused, so the graph cannot be finished
+            task_info.state = _TaskState.Inactive
+            await self.__clean_graph(graph_task_id)
+            await self._binder.send(graph_info.client, GraphTaskEcho(graph_task_id, TaskEchoStatus.NoWorker))
+            return
 
     async def __finish_one_graph(self, graph_task_id: bytes):
         results = self.__get_target_results(graph_task_id)
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index 73851cb..ae538fa 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -82,7 +82,7 @@ class GraphTaskManager(metaclass=abc.ABCMeta):
 
 class TaskManager(metaclass=abc.ABCMeta):
     @abc.abstractmethod
-    async def on_task_new(self, client: bytes, task: Task):
+    async def on_task_new(self, client: bytes, task: Task) -> bool:
         raise NotImplementedError()
 
     @abc.abstractmethod
diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 1a67ae1..49c0e89 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -82,17 +82,18 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             }
         }
 
-    async def on_task_new(self, client: bytes, task: Task):
+    async def on_task_new(self, client: bytes, task: Task) -> bool:
+        """return False if the task is not accepted"""
         if not self._function_manager.has_function(task.function_id):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.FunctionNotExists))
-            return
+            return False
 
         if (
             not self._worker_manager.has_available_worker()
             and 0 <= self._max_number_of_tasks_waiting <= self._unassigned.qsize()
         ):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.NoWorker))
-            return
+            return False
 
         await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.SubmitOK))
         await self._function_manager.on_task_use_function(task.task_id, task.function_id)
@@ -101,6 +102,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         self._task_id_to_task[task.task_id] = task
         await self._unassigned.put(task.task_id)
         await self.__send_monitor(task.task_id, TaskStatus.Inactive)
+        return True
 
     async def on_task_reroute(self, task_id: bytes):
         assert self._client_manager.get_client_id(task_id) is not None
diff --git a/scaled/utility/exceptions.py b/scaled/utility/exceptions.py
index df22509..26d1476 100644
--- a/scaled/utility/exceptions.py
+++ b/scaled/utility/exceptions.py
@@ -1,2 +1,6 @@
 class ScaledDisconnect(Exception):
     pass
+
+
+class ScaledNoWorker(Exception):
+    pass
-- 
2.43.0


From 1956b4901559c6c3c24d36256c218e42d445e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 12/51] fix: fail futures of submissions that race with or
 follow the disconnection

They were registered after the I/O thread had left and never resolved, and
registering them while it failed the others ended it with RuntimeError.
---
 scaled/client.py | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 2be6d64..893681e 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -71,6 +71,7 @@ class Client:
 
         # submit() and get() are called from user threads while messages are handled in connector's thread
         self._lock = threading.Lock()
+        self._exited = False
 
         self._connector.start()
         logging.info(f"ScaledClient: connect to {address}")
@@ -93,6 +94,10 @@ class Client:
         future: Future = Future()
 
         with self._lock:
+            if self._exited:
+                self.__fail_disconnected(future)
+                return future
+
             self._task_id_to_task[task_id] = task
             self._task_id_to_function[task_id] = (function_name, function_bytes)
             self._task_id_to_future[task_id] = future
@@ -135,8 +140,12 @@ class Client:
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
         with self._lock:
-            self._graph_task_id_to_futures[graph_task.task_id] = futures
-            self._connector.send(graph_task)
+            if self._exited:
+                for future in futures:
+                    self.__fail_disconnected(future)
+            else:
+                self._graph_task_id_to_futures[graph_task.task_id] = futures
+                self._connector.send(graph_task)
 
         return_futures: Dict[str, Future] = dict(zip(keys, futures))
         if not block:
@@ -294,20 +303,34 @@ class Client:
         return future.running() or future.set_running_or_notify_cancel()
 
     def __on_exit(self):
-        if self._task_id_to_future:
-            logging.info(f"canceling {len(self._task_id_to_future)} task(s)")
-            for task_id, future in self._task_id_to_future.items():
+        with self._lock:
+            # from now on submit() and get() fail their futures by themselves
+            self._exited = True
+            task_id_to_future = self._task_id_to_future.copy()
+            graph_task_id_to_futures = self._graph_task_id_to_futures.copy()
+
+            self._task_id_to_task.clear()
+            self._task_id_to_function.clear()
+            self._task_id_to_future.clear()
+            self._function_id_to_not_ready_tasks.clear()
+            self._graph_task_id_to_futures.clear()
+
+        if task_id_to_future:
+            logging.info(f"canceling {len(task_id_to_future)} task(s)")
+            for task_id, future in task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
-                if self.__acquire_future(future):
-                    future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                self.__fail_disconnected(future)
 
-        if self._graph_task_id_to_futures:
-            logging.info(f"canceling {len(self._graph_task_id_to_futures)} graph task(s)")
-            for task_id, futures in self._graph_task_id_to_futures.items():
+        if graph_task_id_to_futures:
+            logging.info(f"canceling {len(graph_task_id_to_futures)} graph task(s)")
+            for task_id, futures in graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
-                    if self.__acquire_future(future):
-                        future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                    self.__fail_disconnected(future)
+
+    def __fail_disconnected(self, future: Future):
+        if self.__acquire_future(future):
+            future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
 
     def __get_function_id(self, fn: Callable) -> Tuple[bytes, Tuple[bytes, bytes]]:
         try:
-- 
2.43.0


From c188221824ee7c0a493c85ec9a661466e6d78b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 13/51] fix: drop messages whose payload cannot be decoded

The error ended the event loop of scheduler and worker and the I/O thread of
client and processor.
---
 scaled/io/async_binder.py    | 8 ++++++--
 scaled/io/async_connector.py | 6 +++++-
 scaled/io/sync_connector.py  | 6 +++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/scaled/io/async_binder.py b/scaled/io/async_binder.py
index 4233360..7a8b3dc 100644
--- a/scaled/io/async_binder.py
+++ b/scaled/io/async_binder.py
@@ -51,9 +51,13 @@ class AsyncBinder(Looper, Reporter):
 
         source, message_type_bytes, payload = frames[0], frames[1], frames[2:]
         message_type = MessageType(message_type_bytes)
-        self.__count_one("received", message_type)
+        try:
+            message = PROTOCOL[message_type].deserialize(payload)
+        except Exception as e:
+            logging.error(f"{self.__get_prefix()} received undecodable {message_type} from {source!r}: {e!r}")
+            return
 
-        message = PROTOCOL[message_type].deserialize(payload)
+        self.__count_one("received", message_type)
         await self._callback(source, message)
 
     async def statistics(self) -> Dict:
diff --git a/scaled/io/async_connector.py b/scaled/io/async_connector.py
index d112d70..ef3905f 100644
--- a/scaled/io/async_connector.py
+++ b/scaled/io/async_connector.py
@@ -72,7 +72,11 @@ class AsyncConnector:
 
         message_type_bytes, *payload = frames
         message_type = MessageType(message_type_bytes)
-        message = PROTOCOL[message_type].deserialize(payload)
+        try:
+            message = PROTOCOL[message_type].deserialize(payload)
+        except Exception as e:
+            logging.error(f"{self.__get_prefix()} received undecodable {message_type}: {e!r}")
+            return
 
         self.__count_one("received", message_type)
         if self._callback is None:
diff --git a/scaled/io/sync_connector.py b/scaled/io/sync_connector.py
index 58fc84f..b829ae8 100644
--- a/scaled/io/sync_connector.py
+++ b/scaled/io/sync_connector.py
@@ -126,7 +126,11 @@ class SyncConnector(threading.Thread):
 
         message_type_bytes, *payload = frames
         message_type = MessageType(message_type_bytes)
-        message = PROTOCOL[message_type].deserialize(payload)
+        try:
+            message = PROTOCOL[message_type].deserialize(payload)
+        except Exception as e:
+            logging.error(f"{self.__get_prefix()} received undecodable {message_type}: {e!r}")
+            return
 
         self.__count_one("received", message_type)
         self._callback(message)
-- 
2.43.0


From b2c3bb1faf2c400fc78d378dbf8808733b7ee262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 14/51] fix: discard unexpected messages and states instead of
 stopping client or worker

---
 scaled/client.py                         | 23 +++++++++++++++++++----
 scaled/worker/agent/processor_manager.py |  4 ++--
 scaled/worker/worker.py                  |  2 +-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 893681e..61f80d2 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -185,7 +185,7 @@ class Client:
             self.__on_graph_task_echo(message)
             return
 
-        raise TypeError(f"Unknown {message=}")
+        logging.error(f"{self.__class__.__name__}: unknown {message=}")
 
     def __on_task_echo(self, task_echo: TaskEcho):
         if task_echo.task_id not in self._task_id_to_task:
@@ -207,7 +207,9 @@ class Client:
                 future.set_exception(ScaledNoWorker("task is refused, too many tasks are waiting for workers"))
             return
 
-        assert task_echo.status == TaskEchoStatus.SubmitOK, f"Unknown task status: " f"{task_echo=}"
+        if task_echo.status != TaskEchoStatus.SubmitOK:
+            logging.error(f"{self.__class__.__name__}: unknown task status: {task_echo=}")
+            return
 
         self._task_id_to_task.pop(task_echo.task_id)
         self._task_id_to_function.pop(task_echo.task_id)
@@ -224,7 +226,10 @@ class Client:
         self._function_id_to_not_ready_tasks[task.function_id].append(task)
 
     def __on_function_response(self, response: FunctionResponse):
-        assert response.status in {FunctionResponseType.OK, FunctionResponseType.Duplicated}
+        if response.status not in {FunctionResponseType.OK, FunctionResponseType.Duplicated}:
+            logging.error(f"{self.__class__.__name__}: unknown function response status: {response=}")
+            return
+
         with self._lock:
             if response.function_id not in self._function_id_to_not_ready_tasks:
                 return
@@ -238,6 +243,10 @@ class Client:
         if result.task_id not in self._task_id_to_future:
             return
 
+        if result.status not in {TaskStatus.Success, TaskStatus.Failed}:
+            logging.error(f"{self.__class__.__name__}: unknown task result status: {result=}")
+            return
+
         future = self._task_id_to_future.pop(result.task_id)
         if not self.__acquire_future(future):
             return
@@ -262,7 +271,13 @@ class Client:
         if graph_result.task_id not in self._graph_task_id_to_futures:
             return
 
-        futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
+        futures = self._graph_task_id_to_futures[graph_result.task_id]
+        number_of_results = {TaskStatus.Success: len(futures), TaskStatus.Failed: 1}.get(graph_result.status)
+        if len(graph_result.results) != number_of_results:
+            logging.error(f"{self.__class__.__name__}: unexpected graph task result: {graph_result=}")
+            return
+
+        self._graph_task_id_to_futures.pop(graph_result.task_id)
         if graph_result.status == TaskStatus.Success:
             for i, result in enumerate(graph_result.results):
                 if self.__acquire_future(futures[i]):
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index f378c55..52d03c3 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -87,7 +87,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
             )
             return
 
-        raise TypeError(f"unknown function request type: {request.type}")
+        logging.error(f"{self.__class__.__name__}: unknown function request type: {request.type}")
 
     async def on_task(self, task: Task) -> bool:
         await self._processor_holder.task_wait_lock.acquire()
@@ -201,7 +201,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
             await self.__on_internal_task_result(message)
             return
 
-        raise TypeError(f"Unknown {message=}")
+        logging.error(f"{self.__class__.__name__}: unknown {message=}")
 
     async def __on_internal_function_request(self, request: FunctionRequest):
         if not self._processor_holder.initialized.is_set():
diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 7a72651..08e15ea 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -131,7 +131,7 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
             await self._processor_manager.on_function_response(message)
             return
 
-        raise TypeError(f"Unknown {message=}")
+        logging.error(f"{self.__class__.__name__}: unknown {message=}")
 
     async def __get_loops(self):
         try:
-- 
2.43.0


From 04e153925126db35dee00e7347c5433cbf684ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 15/51] fix: resolve the futures of tasks and graphs that are
 reported canceled

---
 scaled/client.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 61f80d2..552f108 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -4,6 +4,7 @@ import pickle
 import threading
 import uuid
 from collections import defaultdict
+from concurrent.futures import CancelledError
 from concurrent.futures import Future
 from graphlib import TopologicalSorter
 from inspect import signature
@@ -243,7 +244,7 @@ class Client:
         if result.task_id not in self._task_id_to_future:
             return
 
-        if result.status not in {TaskStatus.Success, TaskStatus.Failed}:
+        if result.status not in {TaskStatus.Success, TaskStatus.Failed, TaskStatus.Canceled, TaskStatus.NotFound}:
             logging.error(f"{self.__class__.__name__}: unknown task result status: {result=}")
             return
 
@@ -259,6 +260,8 @@ class Client:
             future.set_exception(self.__load_exception(result.result))
             return
 
+        future.set_exception(CancelledError(f"task is canceled, status={result.status}"))
+
     def __on_graph_task_echo(self, graph_task_echo: GraphTaskEcho):
         if graph_task_echo.status != TaskEchoStatus.NoWorker:
             return
@@ -272,7 +275,12 @@ class Client:
             return
 
         futures = self._graph_task_id_to_futures[graph_result.task_id]
-        number_of_results = {TaskStatus.Success: len(futures), TaskStatus.Failed: 1}.get(graph_result.status)
+        number_of_results = {
+            TaskStatus.Success: len(futures),
+            TaskStatus.Failed: 1,
+            TaskStatus.Canceled: 1,
+            TaskStatus.NotFound: 1,
+        }.get(graph_result.status)
         if len(graph_result.results) != number_of_results:
             logging.error(f"{self.__class__.__name__}: unexpected graph task result: {graph_result=}")
             return
@@ -286,10 +294,12 @@ class Client:
 
         if graph_result.status == TaskStatus.Failed:
             exception = self.__load_exception(graph_result.results[0])
-            for future in futures:
-                if self.__acquire_future(future):
-                    future.set_exception(exception)
-            return
+        else:
+            exception = CancelledError(f"graph task is canceled, status={graph_result.status}")
+
+        for future in futures:
+            if self.__acquire_future(future):
+                future.set_exception(exception)
 
     def __set_result(self, future: Future, payload: bytes):
         try:
-- 
2.43.0


From 3d82bb943146f85ce64e81a4dac61dfdbe78c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 16/51] fix: deleting a function without tasks stopped the
 scheduler

Looking up the tasks of a function that has none raises ValueError, and a
successful deletion was answered with StillHaveTask.
---
 scaled/scheduler/function_manager.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 25e25c1..cbc96c5 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -135,14 +135,13 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self.__send_function_response(client, function_id, FunctionResponseType.NotExists)
             return
 
-        if len(self._function_id_to_task_ids.get_values(function_id)) > 0:
+        if function_id in self._function_id_to_task_ids:
             await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
             return
 
         self._function_id_to_func_info.pop(function_id)
-        self._function_id_to_task_ids.remove_key(function_id)
-
-        await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
+        await self._worker_manager.on_delete_function(function_id)
+        await self.__send_function_response(client, function_id, FunctionResponseType.OK)
 
     async def __send_function_response(self, client: bytes, function_id: bytes, response_type: FunctionResponseType):
         await self._binder.send(client, FunctionResponse(response_type, function_id, b"", b""))
-- 
2.43.0


From a0b186a22633050679ebdbaa8009c5cc096c310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 17/51] fix: report the load of all functions that share a name

---
 scaled/scheduler/function_manager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index cbc96c5..7554784 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -1,6 +1,7 @@
 import dataclasses
 import logging
 import time
+from collections import defaultdict
 from typing import Dict
 from typing import Optional
 
@@ -89,12 +90,12 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self._worker_manager.on_delete_function(function_id)
 
     async def statistics(self) -> Dict:
-        return {
-            "function_manager": {
-                self._function_id_to_func_info[k].function_name.decode(): len(v)
-                for k, v in self._function_id_to_task_ids.items()
-            }
-        }
+        function_name_to_number_of_tasks: Dict[str, int] = defaultdict(int)
+        for function_id, task_ids in self._function_id_to_task_ids.items():
+            function_name = self._function_id_to_func_info[function_id].function_name.decode()
+            function_name_to_number_of_tasks[function_name] += len(task_ids)
+
+        return {"function_manager": dict(function_name_to_number_of_tasks)}
 
     async def __on_function_request(self, source: bytes, function_request: FunctionRequest):
         if function_request.function_id not in self._function_id_to_func_info:
-- 
2.43.0


From fabb0b1c350530a530c9d6bda708a1ec8b8a003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 18/51] fix: identities and names that are not utf-8 stopped
 the scheduler

The status report could not be built.
---
 scaled/scheduler/client_manager.py   | 5 ++++-
 scaled/scheduler/function_manager.py | 2 +-
 scaled/scheduler/worker_manager.py   | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/scaled/scheduler/client_manager.py b/scaled/scheduler/client_manager.py
index 5bb74f4..9c4f2ed 100644
--- a/scaled/scheduler/client_manager.py
+++ b/scaled/scheduler/client_manager.py
@@ -29,5 +29,8 @@ class VanillaClientManager(ClientManager, Looper, Reporter):
 
     async def statistics(self) -> Dict:
         return {
-            "client_manager": {client.decode(): len(task_ids) for client, task_ids in self._client_to_task_ids.items()}
+            "client_manager": {
+                client.decode(errors="backslashreplace"): len(task_ids)
+                for client, task_ids in self._client_to_task_ids.items()
+            }
         }
diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 7554784..332722d 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -92,7 +92,7 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
     async def statistics(self) -> Dict:
         function_name_to_number_of_tasks: Dict[str, int] = defaultdict(int)
         for function_id, task_ids in self._function_id_to_task_ids.items():
-            function_name = self._function_id_to_func_info[function_id].function_name.decode()
+            function_name = self._function_id_to_func_info[function_id].function_name.decode(errors="backslashreplace")
             function_name_to_number_of_tasks[function_name] += len(task_ids)
 
         return {"function_manager": dict(function_name_to_number_of_tasks)}
diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index bc2149d..17ce39d 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -114,7 +114,7 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         return {
             "worker_manager": [
                 {
-                    "worker": worker.decode(),
+                    "worker": worker.decode(errors="backslashreplace"),
                     "agt_cpu": info.agent_cpu,
                     "agt_rss": info.agent_rss,
                     "cpu": info.worker_cpu,
-- 
2.43.0


From f7b1b20e591e69a87920447321087f3e1dd37cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 19/51] fix: a task sent twice stopped the scheduler

It is answered with Duplicated, which clients already handle.
---
 scaled/scheduler/task_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 49c0e89..1f93da2 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -84,6 +84,10 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
 
     async def on_task_new(self, client: bytes, task: Task) -> bool:
         """return False if the task is not accepted"""
+        if task.task_id in self._task_id_to_task:
+            await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.Duplicated))
+            return False
+
         if not self._function_manager.has_function(task.function_id):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.FunctionNotExists))
             return False
-- 
2.43.0


From 4ab37b0c69d137ec730f8ee9baa2867ac42e7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 20/51] fix: canceling or failing a graph stopped the scheduler

It raised KeyError when one of the graph's nodes was still waiting for a
worker, and ValueError when the canceled graph was already finished or a node
was reported as NotFound.
---
 scaled/scheduler/graph_manager.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 38b64f2..90295ab 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -1,5 +1,6 @@
 import dataclasses
 import enum
+import logging
 from asyncio import Queue
 from graphlib import TopologicalSorter
 from typing import Dict
@@ -109,6 +110,10 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         await self._unassigned.put((client, graph_task))
 
     async def on_graph_task_cancel(self, graph_task_cancel: GraphTaskCancel):
+        if graph_task_cancel.task_id not in self._graph_task_id_to_graph:
+            logging.warning(f"cannot cancel unknown graph: task_id={graph_task_cancel.task_id.hex()}")
+            return
+
         await self.__clean_graph(graph_task_cancel.task_id)
 
     async def on_task_done(self, result: TaskResult) -> bool:
@@ -211,6 +216,10 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         client = await self._client_manager.on_task_done(graph_task_id)
         graph_info = self._graph_task_id_to_graph.pop(graph_task_id)
 
+        # canceling a task that is not sent to worker yet ends it immediately, the graph is not interested in it anymore
+        for task_id in graph_info.task_ids:
+            self._task_id_to_graph_task_id.pop(task_id, None)
+
         for task_id in graph_info.task_ids:
             if task_id not in graph_info.tasks:
                 continue
@@ -223,8 +232,6 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
             else:
                 pass
 
-            self._task_id_to_graph_task_id.pop(task_id, None)
-
         return graph_info
 
     def __mark_node_done(self, graph_task_id: bytes, result: TaskResult):
@@ -235,7 +242,7 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         if result.status == TaskStatus.Success:
             task_info.state = _TaskState.Success
-        elif result.status == TaskStatus.Canceled:
+        elif result.status in {TaskStatus.Canceled, TaskStatus.NotFound}:
             task_info.state = _TaskState.Canceled
         elif result.status == TaskStatus.Failed:
             task_info.state = _TaskState.Failed
-- 
2.43.0


From ea74da20896daeed45d91187988a5a779b801abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 21/51] fix: a node using another node twice stopped the
 scheduler

The dependency was removed once per argument.
---
 scaled/scheduler/graph_manager.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 90295ab..1322c4b 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -194,9 +194,13 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         for task_id in ready_task_ids:
             task_info = graph_info.tasks[task_id]
+            required_task_ids = {arg.data for arg in task_info.task.function_args if arg.type == ArgumentType.Task}
             task_info.task.function_args = [
-                self.__get_argument(graph_task_id, task_id, arg) for arg in task_info.task.function_args
+                self.__get_argument(graph_task_id, arg) for arg in task_info.task.function_args
             ]
+            for required_task_id in required_task_ids:
+                self.__release_task_result(graph_task_id, task_id, required_task_id)
+
             task_info.state = _TaskState.Running
             if await self._task_manager.on_task_new(graph_info.client, task_info.task):
                 continue
@@ -255,26 +259,21 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
         return [graph_info.tasks[task_id].result for task_id in graph_info.target_task_ids]
 
-    def __get_argument(self, graph_task_id: bytes, task_id: bytes, argument: Argument) -> Argument:
+    def __get_argument(self, graph_task_id: bytes, argument: Argument) -> Argument:
         if argument.type == ArgumentType.Data:
             return argument
 
         assert argument.type == ArgumentType.Task
-        argument_task_id = argument.data
-
-        result = self.__get_task_result(graph_task_id, task_id, argument_task_id)
-        return Argument(ArgumentType.Data, result)
+        graph_info = self._graph_task_id_to_graph[graph_task_id]
+        return Argument(ArgumentType.Data, graph_info.tasks[argument.data].result)
 
-    def __get_task_result(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes) -> bytes:
+    def __release_task_result(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
         graph_info.dependencies.remove_value(argument_task_id, task_id)
 
-        task_info = graph_info.tasks[argument_task_id]
         if argument_task_id in graph_info.dependencies:
-            return task_info.result
+            return
 
         if argument_task_id not in graph_info.target_task_ids:
             self._task_id_to_graph_task_id.pop(argument_task_id)
             graph_info.tasks.pop(argument_task_id)
-
-        return task_info.result
-- 
2.43.0


From 74c49eb3598af74c5fb1a83853272635cb9405a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 22/51] fix: an invalid graph stopped the scheduler

Cycles, unknown functions, arguments or targets and repeated ids are rejected
before anything is recorded for the graph.
---
 scaled/scheduler/graph_manager.py | 32 +++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 1322c4b..9658c4c 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -2,6 +2,7 @@ import dataclasses
 import enum
 import logging
 from asyncio import Queue
+from graphlib import CycleError
 from graphlib import TopologicalSorter
 from typing import Dict
 from typing import List
@@ -134,11 +135,42 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
     async def routine(self):
         client, graph_task = await self._unassigned.get()
+        if not self.__is_valid_graph(graph_task):
+            logging.error(f"received invalid graph from {client!r}: task_id={graph_task.task_id.hex()}")
+            return
+
         await self.__add_new_graph(client, graph_task)
 
     async def statistics(self) -> Dict:
         return {"graph_manager": {"unassigned": self._unassigned.qsize()}}
 
+    def __is_valid_graph(self, graph_task: GraphTask) -> bool:
+        task_ids = {task.task_id for task in graph_task.graph}
+        if len(task_ids) != len(graph_task.graph) or not task_ids.issuperset(graph_task.targets):
+            return False
+
+        if graph_task.task_id in self._graph_task_id_to_graph:
+            return False
+
+        if not task_ids.isdisjoint(self._task_id_to_graph_task_id):
+            return False
+
+        graph = dict()
+        for task in graph_task.graph:
+            if task.function_id not in graph_task.functions:
+                return False
+
+            graph[task.task_id] = {arg.data for arg in task.function_args if arg.type == ArgumentType.Task}
+            if not task_ids.issuperset(graph[task.task_id]):
+                return False
+
+        try:
+            TopologicalSorter(graph).prepare()
+        except CycleError:
+            return False
+
+        return True
+
     async def __add_new_graph(self, client: bytes, graph_task: GraphTask):
         graph = {}
 
-- 
2.43.0


From 7de793d36841547302ec552e97794c241033d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 23/51] fix: ignore task results that are not final

A result with another status ended the task without outcome and stopped the
scheduler when the task belonged to a graph.
---
 scaled/scheduler/worker_manager.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 17ce39d..45ae850 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -17,6 +17,7 @@ from scaled.protocol.python.message import HeartbeatEcho
 from scaled.protocol.python.message import Task
 from scaled.protocol.python.message import TaskCancel
 from scaled.protocol.python.message import TaskResult
+from scaled.protocol.python.message import TaskStatus
 from scaled.scheduler.allocators.queued import QueuedAllocator
 from scaled.scheduler.mixins import Looper
 from scaled.scheduler.mixins import Reporter
@@ -67,6 +68,17 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         await self._binder.send(worker, TaskCancel(task_cancel.task_id))
 
     async def on_task_done(self, task_result: TaskResult):
+        if task_result.status not in {
+            TaskStatus.Success,
+            TaskStatus.Failed,
+            TaskStatus.Canceled,
+            TaskStatus.NotFound,
+        }:
+            logging.error(
+                f"received unexpected task result for task_id={task_result.task_id.hex()}, status={task_result.status}"
+            )
+            return
+
         worker = self._allocator.remove_task(task_result.task_id)
         if worker is None:
             logging.error(
-- 
2.43.0


From a3d556a52f70f4351031f8409b7aa5ca839a1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 24/51] fix: serialize a graph without function nodes

client.get() of such a graph ended the I/O thread.
---
 scaled/protocol/python/message.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index e55ba4f..29dfb45 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -182,9 +182,8 @@ class GraphTask(_Message):
         function_bytes = list()
         function_bytes.append(struct.pack("I", len(self.functions)))
         function_bytes.extend(self.functions.keys())
-        names, content = zip(*self.functions.values())
-        function_bytes.extend(names)
-        function_bytes.extend(content)
+        function_bytes.extend(name for name, _ in self.functions.values())
+        function_bytes.extend(content for _, content in self.functions.values())
 
         graph_bytes = []
         for task in self.graph:
-- 
2.43.0


From c8f60341b9ca695f6d63802d2387b220524e77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 25/51] fix: GraphTaskCancelEcho is declared but was not
 decodable

---
 scaled/protocol/python/message.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index 29dfb45..d0bca4e 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -254,6 +254,19 @@ class GraphTaskCancel(_Message):
         return GraphTaskCancel(data[0])
 
 
+@dataclasses.dataclass
+class GraphTaskCancelEcho(_Message):
+    task_id: bytes
+    status: TaskEchoStatus
+
+    def serialize(self) -> Tuple[bytes, ...]:
+        return self.task_id, self.status.value
+
+    @staticmethod
+    def deserialize(data: List[bytes]):
+        return GraphTaskCancelEcho(data[0], TaskEchoStatus(data[1]))
+
+
 @dataclasses.dataclass
 class GraphTaskResult(_Message):
     task_id: bytes
@@ -477,6 +490,7 @@ PROTOCOL: bidict[MessageType, Type[_Message]] = bidict(
         MessageType.GraphTask: GraphTask,
         MessageType.GraphTaskEcho: GraphTaskEcho,
         MessageType.GraphTaskCancel: GraphTaskCancel,
+        MessageType.GraphTaskCancelEcho: GraphTaskCancelEcho,
         MessageType.GraphTaskResult: GraphTaskResult,
         MessageType.BalanceRequest: BalanceRequest,
         MessageType.BalanceResponse: BalanceResponse,
-- 
2.43.0


From 820a64b39095a3f6782566bd798f265d19c59614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 26/51] fix: heartbeat must be able to carry any load, queue
 length and latency

More than 65535 queued tasks, more than 65 busy cores, a latency over an hour
or a clock set back stopped the worker with struct.error.
---
 scaled/protocol/python/message.py        | 6 +++---
 scaled/worker/agent/heartbeat_manager.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index d0bca4e..c4d393b 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -320,15 +320,15 @@ class Heartbeat(_Message):
     has_task: bool
     task_lock: bool
 
-    FORMAT = "HQHQHI???"
+    FORMAT = "QQQQQQ???"
 
     def serialize(self) -> Tuple[bytes, ...]:
         return (
             struct.pack(
                 Heartbeat.FORMAT,
-                int(self.agent_cpu * 1000),
+                round(self.agent_cpu * 1000),
                 self.agent_rss,
-                int(self.worker_cpu * 1000),
+                round(self.worker_cpu * 1000),
                 self.worker_rss,
                 self.queued_tasks,
                 self.latency_us,
diff --git a/scaled/worker/agent/heartbeat_manager.py b/scaled/worker/agent/heartbeat_manager.py
index 71a0031..c206b0d 100644
--- a/scaled/worker/agent/heartbeat_manager.py
+++ b/scaled/worker/agent/heartbeat_manager.py
@@ -46,7 +46,8 @@ class VanillaHeartbeatManager(Looper, HeartbeatManager):
             # not handling echo if we didn't send out heartbeat
             return
 
-        self._latency_us = int(((time.time_ns() - self._start_timestamp_ns) / 2) // 1_000)
+        # system clock might be adjusted backwards
+        self._latency_us = max(0, int(((time.time_ns() - self._start_timestamp_ns) / 2) // 1_000))
         self._start_timestamp_ns = 0
         self._timeout_manager.update_last_seen_time()
 
-- 
2.43.0


From a29478d695464f29075544850358393838a31555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 27/51] fix: load balance with trigger times of 1 never
 happened

---
 scaled/scheduler/worker_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 45ae850..888d623 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -151,8 +151,7 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         current_advice = self._allocator.balance()
         if self._last_balance_advice != current_advice:
             self._last_balance_advice = current_advice
-            self._load_balance_advice_same_count = 1
-            return
+            self._load_balance_advice_same_count = 0
 
         self._load_balance_advice_same_count += 1
         if self._load_balance_advice_same_count != self._load_balance_trigger_times:
-- 
2.43.0


From 8f953517872cfc8d54fb30e06f3d0de08969e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 28/51] fix: load balance interval was ignored

Any positive number of seconds meant every second.
---
 scaled/scheduler/worker_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 888d623..1281ade 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -6,6 +6,7 @@ from typing import Optional
 from typing import Tuple
 
 from scaled.io.async_binder import AsyncBinder
+from scaled.io.config import CLEANUP_INTERVAL_SECONDS
 from scaled.protocol.python.message import BalanceRequest
 from scaled.protocol.python.message import BalanceResponse
 from scaled.protocol.python.message import DisconnectRequest
@@ -45,6 +46,7 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
 
         self._last_balance_advice: Optional[Dict[bytes, int]] = None
         self._load_balance_advice_same_count = 0
+        self._seconds_since_balance = 0
 
     def register(self, binder: AsyncBinder, task_manager: TaskManager):
         self._binder = binder
@@ -148,6 +150,11 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         if self._load_balance_seconds <= 0:
             return
 
+        self._seconds_since_balance += CLEANUP_INTERVAL_SECONDS
+        if self._seconds_since_balance < self._load_balance_seconds:
+            return
+
+        self._seconds_since_balance = 0
         current_advice = self._allocator.balance()
         if self._last_balance_advice != current_advice:
             self._last_balance_advice = current_advice
-- 
2.43.0


From c4d3bcbbd8f610b05e91ebda6b93914dd6c2f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 29/51] fix: a task must not leave the waiting tasks while
 there is no worker

The allocator blocked until a worker connected, meanwhile the task was
neither waiting nor running: it was not counted and could not be canceled.
---
 scaled/scheduler/allocators/queued.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaled/scheduler/allocators/queued.py b/scaled/scheduler/allocators/queued.py
index a791c18..7823191 100644
--- a/scaled/scheduler/allocators/queued.py
+++ b/scaled/scheduler/allocators/queued.py
@@ -55,6 +55,9 @@ class QueuedAllocator(TaskAllocator):
         return {worker: math.ceil(count - mean) for worker, count in worker_task_count.items() if count > mean}
 
     async def assign_task(self, task_id: bytes) -> Optional[bytes]:
+        if not len(self._worker_queue):
+            return None
+
         count, worker = await self._worker_queue.get()
         if count == self._max_tasks_per_worker:
             await self._worker_queue.put([count, worker])
-- 
2.43.0


From 33c4053be6dd45efbd3f06294eb49500cb8bc150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 30/51] fix: a task that is being canceled must not be given to
 another worker

When the worker gave it back or was lost meanwhile, it was executed again.
---
 scaled/scheduler/task_manager.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 1f93da2..06722f3 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -37,6 +37,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
 
         self._unassigned: IndexedQueue[bytes] = IndexedQueue()
         self._running: Set[bytes] = set()
+        self._canceling: Set[bytes] = set()
 
         self._success_count: int = 0
         self._failed_count: int = 0
@@ -111,6 +112,11 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
     async def on_task_reroute(self, task_id: bytes):
         assert self._client_manager.get_client_id(task_id) is not None
 
+        if task_id in self._canceling:
+            # worker doesn't have this task anymore
+            await self.on_task_done(TaskResult(task_id, TaskStatus.Canceled, 0, b""))
+            return
+
         self._running.remove(task_id)
         await self._unassigned.put(task_id)
         await self.__send_monitor(task_id, TaskStatus.Inactive)
@@ -124,6 +130,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             logging.warning(f"cannot cancel task is not running: task_id={task_cancel.task_id.hex()}")
             return
 
+        self._canceling.add(task_cancel.task_id)
         await self._worker_manager.on_task_cancel(client, task_cancel)
         await self.__send_monitor(task_cancel.task_id, TaskStatus.Canceling)
 
@@ -142,6 +149,8 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         elif result.task_id in self._running:
             self._running.remove(result.task_id)
 
+        self._canceling.discard(result.task_id)
+
         await self.__send_monitor(result.task_id, result.status)
 
         self._task_id_to_task.pop(result.task_id)
-- 
2.43.0


From 5dc4c1224d3ec872943c3159f71c46703a53a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 31/51] fix: a worker can only give back tasks that are
 assigned to it

A worker that came back after its timeout made the scheduler take tasks away
from the worker that executes them.
---
 scaled/scheduler/main.py           | 2 +-
 scaled/scheduler/mixins.py         | 2 +-
 scaled/scheduler/worker_manager.py | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/scaled/scheduler/main.py b/scaled/scheduler/main.py
index 1edcaa3..79d56cf 100644
--- a/scaled/scheduler/main.py
+++ b/scaled/scheduler/main.py
@@ -95,7 +95,7 @@ class Scheduler:
             return
 
         if isinstance(message, BalanceResponse):
-            await self._worker_manager.on_balance_response(message)
+            await self._worker_manager.on_balance_response(source, message)
             return
 
         if isinstance(message, GraphTask):
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index ae538fa..c2fa0e4 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -108,7 +108,7 @@ class WorkerManager(metaclass=abc.ABCMeta):
         raise NotImplementedError()
 
     @abc.abstractmethod
-    async def on_balance_response(self, response: BalanceResponse):
+    async def on_balance_response(self, source: bytes, response: BalanceResponse):
         raise NotImplementedError()
 
     @abc.abstractmethod
diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 1281ade..949a139 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -91,13 +91,14 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
 
         await self._task_manager.on_task_done(task_result)
 
-    async def on_balance_response(self, response: BalanceResponse):
+    async def on_balance_response(self, source: bytes, response: BalanceResponse):
         task_ids = []
         for task_id in response.task_ids:
-            worker = self._allocator.remove_task(task_id)
-            if worker is None:
+            if self._allocator.get_assigned_worker(task_id) != source:
+                # source was regarded as dead meanwhile, and task is already given to another worker
                 continue
 
+            self._allocator.remove_task(task_id)
             task_ids.append(task_id)
 
         await self.__reroute_tasks(task_ids=task_ids)
-- 
2.43.0


From 5b5e813ceec92dec46328faaeb501a85cedd26c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 32/51] fix: cancel request or function that arrives after the
 task ended stopped the worker

---
 scaled/worker/agent/processor_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 52d03c3..43a54ff 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -102,7 +102,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return
 
-        if self._processor_holder.task.function_id != response.function_id:
+        if self._processor_holder.task is None or self._processor_holder.task.function_id != response.function_id:
             return
 
         if response.status == FunctionResponseType.NotExists:
@@ -115,7 +115,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return False
 
-        if self._processor_holder.task.task_id != task_id:
+        if self._processor_holder.task is None or self._processor_holder.task.task_id != task_id:
             return False
 
         self.restart_processor()
-- 
2.43.0


From 58d6d6d80458a3b0dd67fc5082b9ea41f9e0121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 33/51] fix: worker must be able to cancel and give back every
 task that is not executing

The next task left the queue while the previous one was executing, a cancel
request for it was answered with NotFound but it was executed later.
---
 scaled/worker/agent/mixins.py            | 4 ++++
 scaled/worker/agent/processor_manager.py | 6 ++++++
 scaled/worker/agent/task_manager.py      | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/scaled/worker/agent/mixins.py b/scaled/worker/agent/mixins.py
index 9229fa2..06c6b63 100644
--- a/scaled/worker/agent/mixins.py
+++ b/scaled/worker/agent/mixins.py
@@ -62,6 +62,10 @@ class ProcessorManager(metaclass=abc.ABCMeta):
     def on_function_response(self, response: FunctionResponse):
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def wait_until_idle(self):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_task(self, task: Task) -> bool:
         raise NotImplementedError()
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 43a54ff..6b73fe5 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -89,6 +89,12 @@ class VanillaProcessorManager(Looper, ProcessorManager):
 
         logging.error(f"{self.__class__.__name__}: unknown function request type: {request.type}")
 
+    async def wait_until_idle(self):
+        async with self._processor_holder.task_wait_lock:
+            pass
+
+        await self._processor_holder.initialized.wait()
+
     async def on_task(self, task: Task) -> bool:
         await self._processor_holder.task_wait_lock.acquire()
 
diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index ac23f29..c49dee0 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -64,6 +64,9 @@ class VanillaTaskManager(Looper, TaskManager):
         return self._queued_task_ids.qsize()
 
     async def __processing_task(self):
+        # task has to stay in the queue until it can be executed, otherwise it cannot be canceled or given back
+        await self._processor_manager.wait_until_idle()
+
         task_id = await self._queued_task_ids.get()
         task = self._queued_task_id_to_task.pop(task_id)
         if await self._processor_manager.on_task(task):
-- 
2.43.0


From e56c38e67eeb383c855f8c8a7d47ac5dcce52084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 34/51] fix: receiving a task that the worker already has
 stopped the worker

It happens when a worker comes back after its timeout and gets back its own
tasks.
---
 scaled/worker/agent/task_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index c49dee0..c441ddc 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -27,6 +27,10 @@ class VanillaTaskManager(Looper, TaskManager):
         self._processor_manager = processor_manager
 
     async def on_task_new(self, task: Task):
+        if task.task_id in self._queued_task_id_to_task or task.task_id == self._processor_manager.current_task():
+            # scheduler regarded this worker as dead meanwhile, and sends its task again
+            return
+
         self._queued_task_id_to_task[task.task_id] = task
         await self._queued_task_ids.put(task.task_id)
 
-- 
2.43.0


From 185fb6b1fb26403f82088cffd02f6f343e7d5ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 35/51] fix: a task whose function does not exist anymore
 blocked the worker forever

---
 scaled/worker/agent/processor_manager.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 6b73fe5..c0fb209 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -17,6 +17,7 @@ from scaled.protocol.python.message import FunctionResponseType
 from scaled.protocol.python.message import MessageVariant
 from scaled.protocol.python.message import Task
 from scaled.protocol.python.message import TaskResult
+from scaled.protocol.python.message import TaskStatus
 from scaled.protocol.python.serializer.mixins import Serializer
 from scaled.utility.logging.utility import setup_logger
 from scaled.utility.zmq_config import ZMQConfig
@@ -112,7 +113,14 @@ class VanillaProcessorManager(Looper, ProcessorManager):
             return
 
         if response.status == FunctionResponseType.NotExists:
-            logging.info(f"cannot get function for task={self._processor_holder.task.task_id.hex()}, must be canceled")
+            task_id = self._processor_holder.task.task_id
+            logging.info(f"cannot get function for task={task_id.hex()}, must be canceled")
+            await self._task_manager.on_task_result(TaskResult(task_id, TaskStatus.NotFound, 0, b""))
+            self.__release_task()
+            return
+
+        if response.status != FunctionResponseType.OK:
+            logging.error(f"{self.__class__.__name__}: unknown function response status: {response.status}")
             return
 
         await self._connector_internal.send(response)
@@ -125,8 +133,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
             return False
 
         self.restart_processor()
-        self._processor_holder.task = None
-        self._processor_holder.task_wait_lock.release()
+        self.__release_task()
         return True
 
     def initialized(self) -> bool:
@@ -186,6 +193,9 @@ class VanillaProcessorManager(Looper, ProcessorManager):
 
         await self._task_manager.on_task_result(task_result)
 
+        self.__release_task()
+
+    def __release_task(self):
         assert self._processor_holder.task is not None
         self._processor_holder.task = None
         self._processor_holder.task_wait_lock.release()
-- 
2.43.0


From 6ab225ca85af3324f847976d48eb09db459ba120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 36/51] fix: a task that fails in an unusual way blocked the
 worker forever

An exception that cannot be pickled or SystemExit ended the processor, so
the task was never answered and the worker never executed another one.
---
 scaled/worker/agent/processor/processor.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 47d23ab..9a8e13e 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -126,13 +126,19 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
                 TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
             )
 
-        except Exception as e:
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:
             logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
-            self._connector.send_immediately(
-                TaskResult(
-                    task.task_id,
-                    TaskStatus.Failed,
-                    time.monotonic() - begin,
-                    pickle.dumps(e, protocol=pickle.HIGHEST_PROTOCOL),
-                )
+            self.__send_failed(task, time.monotonic() - begin, e)
+
+    def __send_failed(self, task: Task, duration: float, exception: BaseException):
+        try:
+            payload = pickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL)
+        except Exception as e:
+            payload = pickle.dumps(
+                RuntimeError(f"task failed with {type(exception).__name__} that cannot be serialized: {e!r}"),
+                protocol=pickle.HIGHEST_PROTOCOL,
             )
+
+        self._connector.send_immediately(TaskResult(task.task_id, TaskStatus.Failed, duration, payload))
-- 
2.43.0


From 82525e59e68346a2dc561e6eda6d01983c708995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 37/51] fix: processor must keep the function it looked up
 until the task is executed

The cleaner could evict it between two lookups, which failed the task with
TypeError. A function that cannot be deserialized and a function response
nobody waits for ended the processor.
---
 scaled/worker/agent/processor/processor.py | 26 +++++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 9a8e13e..480c61a 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,7 @@ import multiprocessing
 import pickle
 import threading
 import time
+from typing import Callable
 from typing import Optional
 
 import tblib.pickling_support
@@ -102,23 +103,36 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
         logging.error(f"worker received unknown request function request type {request=}")
 
     def __on_receive_function_response(self, response: FunctionResponse):
-        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
         task = self._current_task
+        if task is None or task.function_id != response.function_id:
+            return
+
         self._current_task = None
-        self.__process_task(task)
+        begin = time.monotonic()
+        try:
+            function = self._serializer.deserialize_function(response.content)
+        except KeyboardInterrupt:
+            raise
+        except BaseException as e:
+            logging.exception(f"exception when deserializing function of task_id={task.task_id.hex()}:")
+            self.__send_failed(task, time.monotonic() - begin, e)
+            return
+
+        self._cache_cleaner.add_function(response.function_id, function)
+        self.__process_task(task, function)
 
     def __on_received_task(self, task: Task):
-        if self._cache_cleaner.get_function(task.function_id) is not None:
-            self.__process_task(task)
+        function = self._cache_cleaner.get_function(task.function_id)
+        if function is not None:
+            self.__process_task(task, function)
             return
 
         self._connector.send_immediately(FunctionRequest(FunctionRequestType.Request, task.function_id, b"", b""))
         self._current_task = task
 
-    def __process_task(self, task: Task):
+    def __process_task(self, task: Task, function: Callable):
         begin = time.monotonic()
         try:
-            function = self._cache_cleaner.get_function(task.function_id)
             args = tuple(self._serializer.deserialize_argument(arg.data) for arg in task.function_args)
             result = function(*args)
             result_bytes = self._serializer.serialize_result(result)
-- 
2.43.0


From d82061ac6b8e361945b246c4d52dcbe0d2dd3699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 38/51] fix: cleaner thread ended when a function was added
 while it looked for idle ones

---
 scaled/worker/agent/processor/cache_cleaner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/cache_cleaner.py b/scaled/worker/agent/processor/cache_cleaner.py
index 31aa835..0c8a2a7 100644
--- a/scaled/worker/agent/processor/cache_cleaner.py
+++ b/scaled/worker/agent/processor/cache_cleaner.py
@@ -55,7 +55,7 @@ class CacheCleaner(threading.Thread):
         now = time.time()
         idle_functions = [
             function_id
-            for function_id, alive_since in self._cached_functions_alive_since.items()
+            for function_id, alive_since in list(self._cached_functions_alive_since.items())
             if now - alive_since > self._function_retention_seconds
         ]
         for function_id in idle_functions:
-- 
2.43.0


From 9d48d00b840afd0dcbbfe9ffb7f3f37e0a28d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 39/51] fix: top must be able to show big numbers and tiny
 screens

A latency of 1000 seconds or a size of 1024t raised ValueError, and a screen
without space for the too small message raised curses.error.
---
 scaled/entry_points/top.py  | 5 ++++-
 scaled/utility/formatter.py | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/scaled/entry_points/top.py b/scaled/entry_points/top.py
index 0009166..09831f7 100644
--- a/scaled/entry_points/top.py
+++ b/scaled/entry_points/top.py
@@ -242,5 +242,8 @@ def __truncate(string: str, number: int, how: Literal["left", "right"] = "left")
 
 def __print_too_small(screen):
     screen.clear()
-    screen.addstr(0, 0, "Your terminal is too small to show")
+    try:
+        screen.addstr(0, 0, "Your terminal is too small to show")
+    except curses.error:
+        pass
     screen.refresh()
diff --git a/scaled/utility/formatter.py b/scaled/utility/formatter.py
index 182868d..8cf2151 100644
--- a/scaled/utility/formatter.py
+++ b/scaled/utility/formatter.py
@@ -6,7 +6,7 @@ TIME_MODULUS = 1000
 
 def format_bytes(number) -> str:
     for unit in ["b", "k", "m", "g", "t"]:
-        if number >= STORAGE_SIZE_MODULUS:
+        if number >= STORAGE_SIZE_MODULUS and unit != "t":
             number /= STORAGE_SIZE_MODULUS
             continue
 
@@ -15,7 +15,7 @@ def format_bytes(number) -> str:
 
         return f"{number:.1f}{unit}"
 
-    raise ValueError("Too big to show the byte size that >1000t")
+    raise AssertionError("unreachable")
 
 
 def format_integer(number) -> str:
@@ -28,7 +28,7 @@ def format_percentage(number: float) -> str:
 
 def format_microseconds(number: Union[int, float]) -> str:
     for unit in ["us", "ms", "s"]:
-        if number >= TIME_MODULUS:
+        if number >= TIME_MODULUS and unit != "s":
             number /= TIME_MODULUS
             continue
 
@@ -38,7 +38,7 @@ def format_microseconds(number: Union[int, float]) -> str:
         too_big_sign = "+" if unit == "s" and number > TIME_MODULUS else ""
         return f"{int(number)}{too_big_sign}{unit}"
 
-    raise ValueError("Too big to show the seconds that >1000s")
+    raise AssertionError("unreachable")
 
 
 def format_seconds(number: int) -> str:
-- 
2.43.0


From 2707edeb8138ef2739b584822eef45a4dceda39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 40/51] fix: event_loop of SchedulerClusterCombo was not used
 for the scheduler

---
 scaled/cluster/combo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/cluster/combo.py b/scaled/cluster/combo.py
index 0d100b2..b7773e4 100644
--- a/scaled/cluster/combo.py
+++ b/scaled/cluster/combo.py
@@ -57,6 +57,7 @@ class SchedulerClusterCombo:
             function_retention_seconds=function_retention_seconds,
             load_balance_seconds=load_balance_seconds,
             load_balance_trigger_times=load_balance_trigger_times,
+            event_loop=event_loop,
         )
 
         self._cluster.start()
-- 
2.43.0


From 810c2ffc2112bd5361da2b62c0310b502775218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 41/51] fix: graph intermediate results were decoded as
 arguments

With a serializer that encodes arguments and results differently, a node got
the result of another node through deserialize_argument.
---
 scaled/scheduler/graph_manager.py          |  2 +-
 scaled/worker/agent/processor/processor.py | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 9658c4c..7ab91a7 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -297,7 +297,7 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         assert argument.type == ArgumentType.Task
         graph_info = self._graph_task_id_to_graph[graph_task_id]
-        return Argument(ArgumentType.Data, graph_info.tasks[argument.data].result)
+        return Argument(ArgumentType.Task, graph_info.tasks[argument.data].result)
 
     def __release_task_result(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 480c61a..9d4ac17 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -10,6 +10,8 @@ import tblib.pickling_support
 import zmq
 
 from scaled.io.sync_connector import SyncConnector
+from scaled.protocol.python.message import Argument
+from scaled.protocol.python.message import ArgumentType
 from scaled.protocol.python.message import FunctionRequest
 from scaled.protocol.python.message import FunctionRequestType
 from scaled.protocol.python.message import FunctionResponse
@@ -133,7 +135,7 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
     def __process_task(self, task: Task, function: Callable):
         begin = time.monotonic()
         try:
-            args = tuple(self._serializer.deserialize_argument(arg.data) for arg in task.function_args)
+            args = tuple(self.__deserialize_argument(arg) for arg in task.function_args)
             result = function(*args)
             result_bytes = self._serializer.serialize_result(result)
             self._connector.send_immediately(
@@ -146,6 +148,13 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
             logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
             self.__send_failed(task, time.monotonic() - begin, e)
 
+    def __deserialize_argument(self, argument: Argument):
+        if argument.type == ArgumentType.Task:
+            # it's a result of another task in the graph
+            return self._serializer.deserialize_result(argument.data)
+
+        return self._serializer.deserialize_argument(argument.data)
+
     def __send_failed(self, task: Task, duration: float, exception: BaseException):
         try:
             payload = pickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From c80afa58eb1dae2de9927e4ec50a53c55e8d3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 42/51] fix: cluster must be able to stop at any moment and
 with one worker

---
 scaled/cluster/cluster.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/scaled/cluster/cluster.py b/scaled/cluster/cluster.py
index 4f1beaa..0e17772 100644
--- a/scaled/cluster/cluster.py
+++ b/scaled/cluster/cluster.py
@@ -36,6 +36,7 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
         self._serializer = serializer
 
         self._workers: List[Worker] = []
+        self._stopping = False
 
     def run(self):
         setup_logger()
@@ -45,9 +46,17 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
     def __destroy(self, *args):
         assert args is not None
         logging.info(f"{self.__get_prefix()} received signal, shutting down")
+        self._stopping = True
         for worker in self._workers:
-            logging.info(f"{self.__get_prefix()}: shutting down worker[{worker.pid}]")
-            os.kill(worker.pid, signal.SIGINT)
+            self.__stop_worker(worker)
+
+    def __stop_worker(self, worker: Worker):
+        if worker.pid is None or not worker.is_alive():
+            # not started yet, or already ended
+            return
+
+        logging.info(f"{self.__get_prefix()}: shutting down worker[{worker.pid}]")
+        os.kill(worker.pid, signal.SIGINT)
 
     def __register_signal(self):
         signal.signal(signal.SIGINT, self.__destroy)
@@ -73,18 +82,24 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
             for _ in range(self._n_workers)
         ]
 
-        if self._n_workers == 1:
-            self._workers[0].run()
-            return
-
+        started_workers = []
         for worker in self._workers:
+            if self._stopping:
+                break
+
             worker.start()
+            started_workers.append(worker)
 
-        for i, worker in enumerate(self._workers):
+        for worker in started_workers:
             logging.info(f"Worker[{worker.ident}] started")
 
-        for worker in self._workers:
-            worker.join()
+        for worker in started_workers:
+            while worker.is_alive():
+                if self._stopping:
+                    # worker doesn't have signal when it was starting, and it can lose the signal while it initializes
+                    self.__stop_worker(worker)
+
+                worker.join(1)
 
         logging.info(f"{self.__get_prefix()} shutdown")
 
-- 
2.43.0


From 36c06fda896e88eb83835d7104777b6fc2d5c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 43/51] fix: signal that arrives while a worker initializes
 must not be lost

---
 scaled/worker/worker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 08e15ea..1217c01 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -69,6 +69,10 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
         # setup_logger()
         register_event_loop(self._event_loop)
 
+        # signal that arrives while initializing has to be handled once the loop is running
+        self._loop = asyncio.get_event_loop()
+        self.__register_signal()
+
         self._connector_external = AsyncConnector(
             context=zmq.asyncio.Context(),
             socket_type=zmq.DEALER,
@@ -101,8 +105,6 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
         )
         self._processor_manager.initialize()
 
-        self._loop = asyncio.get_event_loop()
-        self.__register_signal()
         self._task = self._loop.create_task(self.__get_loops())
 
     async def __on_receive_external(self, message: MessageVariant):
-- 
2.43.0


From 034a1771c0336d24fd59911d686adfc608335718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:15 +0000
Subject: [PATCH 44/51] fix: refuse malformed addresses

---
 scaled/utility/zmq_config.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/scaled/utility/zmq_config.py b/scaled/utility/zmq_config.py
index a0e4663..b4d4471 100644
--- a/scaled/utility/zmq_config.py
+++ b/scaled/utility/zmq_config.py
@@ -26,6 +26,9 @@ class ZMQConfig:
         if not isinstance(self.host, str):
             raise TypeError(f"Host should be string, given {self.host}")
 
+        if not self.host:
+            raise ValueError("Host should not be empty")
+
         if self.port is None:
             if self.type == ZMQType.tcp:
                 raise ValueError(f"type {self.type.value} should have `port`")
@@ -33,9 +36,15 @@ class ZMQConfig:
             if self.type in {ZMQType.inproc, ZMQType.ipc}:
                 raise ValueError(f"type {self.type.value} should not have `port`")
 
-            if not isinstance(self.port, int):
+            if not isinstance(self.port, int) or isinstance(self.port, bool):
                 raise TypeError(f"Port should be integer, given {self.port}")
 
+            if not 0 <= self.port <= 65535:
+                raise ValueError(f"Port should be between 0 and 65535, given {self.port}")
+
+        if self.type == ZMQType.tcp and ":" in self.host:
+            raise ValueError(f"Host should not contain ':', given {self.host}")
+
     def to_address(self):
         if self.type == ZMQType.tcp:
             return f"tcp://{self.host}:{self.port}"
@@ -65,4 +74,7 @@ class ZMQConfig:
             except ValueError:
                 raise ValueError(f"cannot convert '{port_str}' to port number")
 
+            if str(port) != port_str:
+                raise ValueError(f"cannot convert '{port_str}' to port number")
+
         return ZMQConfig(ZMQType(socket_type), host, port)
-- 
2.43.0


From f0b092d03d68349d2607fbfb0d5a27a5a15c5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:31 +0000
Subject: [PATCH 45/51] fix: a task that ends its process blocked the worker
 forever

---
 .../worker/agent/processor/cache_cleaner.py   |  3 ++-
 scaled/worker/agent/processor_manager.py      | 25 +++++++++++++++++--
 scaled/worker/worker.py                       |  1 +
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/scaled/worker/agent/processor/cache_cleaner.py b/scaled/worker/agent/processor/cache_cleaner.py
index 0c8a2a7..3887cc7 100644
--- a/scaled/worker/agent/processor/cache_cleaner.py
+++ b/scaled/worker/agent/processor/cache_cleaner.py
@@ -17,7 +17,8 @@ class CacheCleaner(threading.Thread):
     def __init__(
         self, garbage_collect_interval_seconds: int, trim_memory_threshold_bytes: int, function_retention_seconds: int
     ):
-        threading.Thread.__init__(self)
+        # must not keep the processor alive
+        threading.Thread.__init__(self, daemon=True)
 
         self._garbage_collect_interval_seconds = garbage_collect_interval_seconds
         self._previous_garbage_collect_time = time.time()
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index c0fb209..4bba739 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -2,6 +2,7 @@ import asyncio
 import dataclasses
 import logging
 import os
+import pickle
 import signal
 import tempfile
 import uuid
@@ -81,6 +82,25 @@ class VanillaProcessorManager(Looper, ProcessorManager):
     async def routine(self):
         await self._connector_internal.routine()
 
+    async def check_processor(self):
+        processor = self._processor_holder.processor
+        if processor is None or processor.is_alive():
+            return
+
+        logging.error(f"Worker[{os.getpid()}]: Processor[{processor.pid}] ended, {processor.exitcode=}")
+        task = self._processor_holder.task
+        self.restart_processor()
+        if task is None:
+            return
+
+        self.__release_task()
+        exception = RuntimeError(f"processor ended when executing the task, exit code: {processor.exitcode}")
+        await self._task_manager.on_task_result(
+            TaskResult(
+                task.task_id, TaskStatus.Failed, 0, pickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL)
+            )
+        )
+
     async def on_function_request(self, request: FunctionRequest):
         if request.type == FunctionRequestType.Delete:
             await self._connector_internal.send(
@@ -159,8 +179,9 @@ class VanillaProcessorManager(Looper, ProcessorManager):
             self._processor_holder.initialized.clear()
             return
 
-        logging.info(f"Worker[{os.getpid()}]: stop Processor[{self._processor_holder.processor.pid}]")
-        os.kill(self._processor_holder.processor.pid, signal.SIGTERM)
+        if self._processor_holder.processor.is_alive():
+            logging.info(f"Worker[{os.getpid()}]: stop Processor[{self._processor_holder.processor.pid}]")
+            os.kill(self._processor_holder.processor.pid, signal.SIGTERM)
 
         self._processor_holder.processor = None
         self._processor_holder.initialized.clear()
diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 1217c01..56f327b 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -143,6 +143,7 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
                 create_async_loop_routine(self._timeout_manager.routine, 1),
                 create_async_loop_routine(self._task_manager.routine, 0),
                 create_async_loop_routine(self._processor_manager.routine, 0),
+                create_async_loop_routine(self._processor_manager.check_processor, 1),
             )
         except asyncio.CancelledError:
             pass
-- 
2.43.0


From 2ec5a1d5393b511aa725b66031a5f9aae2daa928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:58 +0000
Subject: [PATCH 46/51] fix: result or exception that raises BaseException when
 deserialized killed the client thread

---
 scaled/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 552f108..63da713 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -304,7 +304,7 @@ class Client:
     def __set_result(self, future: Future, payload: bytes):
         try:
             result = self._serializer.deserialize_result(payload)
-        except Exception as e:
+        except BaseException as e:
             future.set_exception(e)
             return
 
@@ -314,7 +314,7 @@ class Client:
     def __load_exception(payload: bytes) -> BaseException:
         try:
             exception = pickle.loads(payload)
-        except Exception as e:
+        except BaseException as e:
             return e
 
         if not isinstance(exception, BaseException):
-- 
2.43.0


From 9b66820d0ed1d05efffd2c6e02072cf2e8792eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:54 +0000
Subject: [PATCH 47/51] fix: task sent to a processor that ended when idle must
 not fail

---
 scaled/worker/agent/processor_manager.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 4bba739..79ccaee 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -118,11 +118,16 @@ class VanillaProcessorManager(Looper, ProcessorManager):
 
     async def on_task(self, task: Task) -> bool:
         await self._processor_holder.task_wait_lock.acquire()
-
-        await self._processor_holder.initialized.wait()
         assert self._processor_holder.task is None
+
+        # processor might have ended while it was idle, then it's not the fault of this task
+        await self.check_processor()
+
         self._processor_holder.task = task
-        await self._connector_internal.send(self._processor_holder.task)
+        if self._processor_holder.initialized.is_set():
+            # otherwise it's sent once the processor is initialized
+            await self._connector_internal.send(self._processor_holder.task)
+
         return True
 
     async def on_function_response(self, response: FunctionResponse):
@@ -146,9 +151,6 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         await self._connector_internal.send(response)
 
     async def on_cancel_task(self, task_id: bytes) -> bool:
-        if not self._processor_holder.initialized.is_set():
-            return False
-
         if self._processor_holder.task is None or self._processor_holder.task.task_id != task_id:
             return False
 
-- 
2.43.0


From 57ffed6b564d09411198ca3d26d552d308c458f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:51 +0000
Subject: [PATCH 48/51] fix: exception that cannot be formatted ended the
 processor

---
 scaled/worker/agent/processor/processor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 9d4ac17..5a1b13f 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -158,9 +158,12 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
     def __send_failed(self, task: Task, duration: float, exception: BaseException):
         try:
             payload = pickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL)
-        except Exception as e:
+        except BaseException as e:
+            # don't format exceptions here, it may fail as well
             payload = pickle.dumps(
-                RuntimeError(f"task failed with {type(exception).__name__} that cannot be serialized: {e!r}"),
+                RuntimeError(
+                    f"task failed with {type(exception).__name__} that cannot be serialized: {type(e).__name__}"
+                ),
                 protocol=pickle.HIGHEST_PROTOCOL,
             )
 
-- 
2.43.0


From 12bbeb5320b2093373e821bc53363540e2d2e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:20 +0000
Subject: [PATCH 49/51] fix: worker agent that got SIGTERM ended without
 telling the scheduler and left its socket file

---
 scaled/worker/worker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 56f327b..ac68b95 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -161,6 +161,7 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
 
     def __register_signal(self):
         self._loop.add_signal_handler(signal.SIGINT, self.__destroy)
+        self._loop.add_signal_handler(signal.SIGTERM, self.__destroy)
 
     def __destroy(self):
         self._task.cancel()
-- 
2.43.0


From 062df4281e0783c8b99d79435797723c05a06c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:32 +0000
Subject: [PATCH 50/51] fix: withdraw a task whose future was cancelled before
 the task was accepted

---
 scaled/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaled/client.py b/scaled/client.py
index 63da713..93e5c9b 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -215,7 +215,9 @@ class Client:
         self._task_id_to_task.pop(task_echo.task_id)
         self._task_id_to_function.pop(task_echo.task_id)
         if not self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel():
+            # user cancelled it before it was accepted
             self._task_id_to_future.pop(task_echo.task_id)
+            self._connector.send_immediately(TaskCancel(task_echo.task_id))
 
     def __on_buffer_task_send(self, task):
         if task.function_id not in self._function_id_to_not_ready_tasks:
-- 
2.43.0


From a25aac93ec0f3a848da65604858bff649a5880cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:32 +0000
Subject: [PATCH 51/51] fix: don't take a replaced processor's message for the
 one of the new processor

---
 scaled/worker/agent/processor/processor.py | 6 +++---
 scaled/worker/agent/processor_manager.py   | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 5a1b13f..8f17b09 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -1,5 +1,6 @@
 import logging
 import multiprocessing
+import os
 import pickle
 import threading
 import time
@@ -25,8 +26,6 @@ from scaled.worker.agent.processor.cache_cleaner import CacheCleaner
 
 
 class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
-    SENTINEL = TaskResult(b"", TaskStatus.Success, 0, b"")
-
     def __init__(
         self,
         event_loop: str,
@@ -77,7 +76,8 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
 
     def __run_forever(self):
         try:
-            self._connector.send_immediately(Processor.SENTINEL)
+            # tell the agent which processor is ready, it might have been replaced by another one meanwhile
+            self._connector.send_immediately(TaskResult(b"", TaskStatus.Success, 0, str(os.getpid()).encode()))
             self._connector.run()
         except KeyboardInterrupt:
             pass
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 79ccaee..594b7b7 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -227,6 +227,10 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if task_result.task_id != b"":
             return
 
+        if task_result.result != str(self._processor_holder.processor.pid).encode():
+            # it's from a processor that was replaced meanwhile
+            return
+
         self._processor_holder.initialized.set()
         if self._processor_holder.task is not None:
             await self._connector_internal.send(self._processor_holder.task)
-- 
2.43.0

