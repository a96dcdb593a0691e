"""Replaces everything environmental (zmq, clocks, threads, processes, signals, psutil, uuid) for simulated threads.

Every replacement falls through to the real thing when the calling thread is not a simulated one.  Must be installed
before `scaled` is imported.
"""
import asyncio
import asyncio.base_events
import builtins
import gc
import io
import logging
import logging.config
import multiprocessing
import multiprocessing.context
import multiprocessing.process
import multiprocessing.reduction
import os
import pickle
import queue
import signal
import socket
import sys
import threading
import time
import uuid

from . import kernel as K
from . import net

_real = {}
_installed = False


# ------------------------------------------------------------------------------------------------ event loop
class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        loop = self.loop
        th = K.cur_thread()
        if th is None:
            raise K.SimError("simulated loop used outside of a simulated thread")
        proc = th.proc
        k = proc.kernel
        if proc.killed:
            raise K.SimKill()
        loop.sim_thread = th
        if timeout is not None and timeout <= 0:
            if proc.spin_io != proc.io_count:
                proc.spin_io = proc.io_count
                proc.spin = 0
            else:
                proc.spin += 1
            cost = proc.tick
            if proc.spin > 16:
                cost = min(0.02, proc.tick * (2 ** min(30, proc.spin - 16)))
                if loop._scheduled:
                    cost = max(proc.tick, min(cost, loop._scheduled[0]._when - k.now))
            target = k.now + cost
            if (
                not k.force_switch
                and target <= k.t_limit
                and k.steps < k.max_steps
                and (not k.evq or k.evq[0][0] > target)
                and proc.stalled_until <= k.now
                and not proc.pending_signals
            ):
                k.now = target
                k.steps += 1
            else:
                loop.in_select = proc.spin > 16
                try:
                    k.block(target)
                finally:
                    loop.in_select = False
        elif not loop.sock_events:
            deadline = None if timeout is None else k.now + timeout
            loop.in_select = True
            try:
                k.block(deadline)
            finally:
                loop.in_select = False
        ev, loop.sock_events = loop.sock_events, []
        return ev

    def close(self):
        pass

    def get_map(self):
        return {}


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self.sock_events = []
        self.in_select = False
        self.sim_thread = None
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9

    def time(self):
        k = K.cur_kernel()
        return k.now if k is not None else 0.0

    def _process_events(self, event_list):
        for s in event_list:
            self.call_soon(s.handle_events)

    def _write_to_self(self):
        th = self.sim_thread
        if th is not None and self.in_select and not th.done:
            th.proc.kernel.wake(th)

    def add_signal_handler(self, sig, callback, *args):
        K.cur_proc().loop_handlers[int(sig)] = (callback, args)

    def remove_signal_handler(self, sig):
        return K.cur_proc().loop_handlers.pop(int(sig), None) is not None

    def run_in_executor(self, executor, func, *args):
        # run inline: nothing in the simulation may block a real thread
        f = self.create_future()
        try:
            f.set_result(func(*args))
        except Exception as e:
            f.set_exception(e)
        return f

    def __del__(self, _warn=None):
        pass


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def get_event_loop(self):
        p = K.cur_proc()
        if p is None:
            return super().get_event_loop()
        if p.loop is None or p.loop.is_closed():
            p.loop = SimLoop()
        return p.loop

    def set_event_loop(self, loop):
        p = K.cur_proc()
        if p is None:
            return super().set_event_loop(loop)
        p.loop = loop

    def new_event_loop(self):
        p = K.cur_proc()
        if p is None:
            return super().new_event_loop()
        loop = SimLoop()
        if p.loop is None or p.loop.is_closed():
            p.loop = loop
        return loop


# ------------------------------------------------------------------------------------------------ processes
class SimPopen:
    method = "spawn"

    def __init__(self, process_obj):
        parent = K.cur_proc()
        k = parent.kernel
        self._fds = []
        multiprocessing.context.set_spawning_popen(self)
        try:
            buf = io.BytesIO()
            multiprocessing.reduction.dump(process_obj, buf)
        finally:
            multiprocessing.context.set_spawning_popen(None)
        data = buf.getvalue()
        self.returncode = None

        def main():
            child_main(data)

        name = type(process_obj).__name__

        def setup(p):
            p.name = f"{name}#{p.pid - 100_000}"
            p.kind = name
            if k.on_spawn is not None:
                k.on_spawn(p)

        self.proc = k.new_proc(name, main, parent=parent, delay=k.spawn_latency, setup=setup)
        cost = k.start_cost(parent)
        if cost:
            # the caller does not know the process yet when a signal arrives here
            time.sleep(cost)
        self.pid = self.proc.pid
        self.sentinel = -1
        self.finalizer = lambda: None

    def duplicate_for_child(self, fd):
        return fd

    def poll(self, flag=0):
        if self.returncode is None and self.proc.exited:
            self.returncode = self.proc.exit_code
            self.proc.reaped = True
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None and not self.proc.exited:
            th = K.cur_thread()
            k = self.proc.kernel
            deadline = None if timeout is None else k.now + timeout
            self.proc.waiters.append(th)
            try:
                while not self.proc.exited:
                    if deadline is not None and k.now >= deadline:
                        return None
                    k.block(deadline)
            finally:
                if th in self.proc.waiters:
                    self.proc.waiters.remove(th)
        return self.poll()

    def _send_signal(self, sig):
        if self.returncode is None:
            try:
                self.proc.kernel.send_signal(self.pid, sig, K.cur_proc())
            except ProcessLookupError:
                pass

    def terminate(self):
        self._send_signal(signal.SIGTERM)

    def kill(self):
        self._send_signal(signal.SIGKILL)

    def close(self):
        pass


def child_main(data):
    proc = K.cur_proc()
    obj = pickle.loads(data)
    proc.mp_self = obj
    try:
        obj.run()
    except SystemExit as e:
        proc.exit_status = e.code
        raise


class _Children:
    def _set(self):
        p = K.cur_proc()
        if p is None:
            return _real["children"]
        if p.mp_children is None:
            p.mp_children = {}
        return p.mp_children

    def add(self, x):
        s = self._set()
        if isinstance(s, dict):
            s[id(x)] = x
        else:
            s.add(x)

    def discard(self, x):
        s = self._set()
        if isinstance(s, dict):
            s.pop(id(x), None)
        else:
            s.discard(x)

    def __iter__(self):
        s = self._set()
        return iter(list(s.values()) if isinstance(s, dict) else list(s))

    def __len__(self):
        return len(self._set())


class _FakeMem:
    def __init__(self, rss):
        self.rss = rss
        self.vms = rss


class FakePs:
    """psutil.Process for simulated processes"""

    def __init__(self, pid):
        k = K.cur_kernel()
        self._proc = k.procs.get(pid)
        if self._proc is None or self._proc.reaped:
            raise _real["psutil"].NoSuchProcess(pid)
        self.pid = pid

    def _check(self):
        if self._proc.reaped:
            raise _real["psutil"].NoSuchProcess(self.pid)

    def cpu_percent(self, interval=None):
        self._check()
        return 0.0 if self._proc.exited else self._proc.cpu

    def memory_info(self):
        self._check()
        return _FakeMem(0 if self._proc.exited else self._proc.rss)

    def is_running(self):
        return not self._proc.reaped

    def status(self):
        self._check()
        return "zombie" if self._proc.exited else "running"

    def oneshot(self):
        import contextlib

        return contextlib.nullcontext()

    def send_signal(self, sig):
        self._check()
        K.cur_kernel().send_signal(self.pid, sig, K.cur_proc())

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def suspend(self):
        self.send_signal(signal.SIGSTOP)

    def resume(self):
        self.send_signal(signal.SIGCONT)

    def parent(self):
        return FakePs(self._proc.parent.pid) if self._proc.parent else None

    def children(self, recursive=False):
        out = []

        def walk(p):
            for c in p.children:
                if not c.reaped:
                    out.append(FakePs(c.pid))
                    if recursive:
                        walk(c)

        walk(self._proc)
        return out

    def wait(self, timeout=None):
        p = self._proc
        k = p.kernel
        end = None if timeout is None else k.now + timeout
        while not p.exited:
            if end is not None and k.now >= end:
                raise _real["psutil"].TimeoutExpired(timeout, self.pid)
            k.block(k.now + 0.01)
        return p.exit_code


# ------------------------------------------------------------------------------------------------ threads
def _patch_threads():
    T = threading.Thread
    r_start, r_join, r_alive = T.start, T.join, T.is_alive
    r_current, r_main = threading.current_thread, threading.main_thread

    def start(self):
        th = K.cur_thread()
        if th is None:
            return r_start(self)
        if not self._initialized:
            raise RuntimeError("thread.__init__() not called")
        if getattr(self, "_vp", None) is not None:
            raise RuntimeError("threads can only be started once")
        proc = th.proc

        def body():
            self.run()

        s = proc.kernel.new_thread(proc, body, self.name, daemon=self.daemon)
        s.py = self
        self._vp = s
        self._started.set()

    def join(self, timeout=None):
        s = getattr(self, "_vp", None)
        th = K.cur_thread()
        if th is None or s is None:
            if th is not None:
                raise RuntimeError("cannot join thread before it is started")
            return r_join(self, timeout)
        if s is th:
            raise RuntimeError("cannot join current thread")
        k = s.proc.kernel
        deadline = None if timeout is None else k.now + max(0, timeout)
        s.joiners.append(th)
        try:
            while not s.done:
                if deadline is not None and k.now >= deadline:
                    return
                k.block(deadline)
        finally:
            if th in s.joiners:
                s.joiners.remove(th)

    def is_alive(self):
        s = getattr(self, "_vp", None)
        if s is not None:
            return not s.done
        if K.cur_thread() is not None:
            return bool(getattr(self, "_vp_main", False))
        return r_alive(self)

    def current_thread():
        th = K.cur_thread()
        if th is None:
            return r_current()
        if th.py is None:
            th.py = _dummy_thread("MainThread" if th.is_main else th.name)
        return th.py

    def main_thread():
        p = K.cur_proc()
        if p is None:
            return r_main()
        th = p.main
        if th.py is None:
            th.py = _dummy_thread("MainThread")
        return th.py

    def _dummy_thread(name):
        t = T.__new__(T)
        T.__init__(t, name=name, daemon=False)
        t._vp_main = True
        return t

    T.start, T.join, T.is_alive = start, join, is_alive
    threading.current_thread = current_thread
    threading.currentThread = current_thread
    threading.main_thread = main_thread

    r_lock, r_rlock = threading.Lock, threading.RLock

    def Lock():
        return K.SimLock() if K.cur_thread() is not None else r_lock()

    def RLock(*a, **kw):
        return threading._PyRLock(*a, **kw) if K.cur_thread() is not None else r_rlock(*a, **kw)

    threading.Lock = Lock
    threading._allocate_lock = Lock
    threading.RLock = RLock
    r_sq, py_sq = queue.SimpleQueue, queue._PySimpleQueue

    def SimpleQueue():
        return py_sq() if K.cur_thread() is not None else r_sq()

    queue.SimpleQueue = SimpleQueue


# ------------------------------------------------------------------------------------------------ time
def _patch_time():
    names = ["time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "sleep"]
    for n in names:
        _real[n] = getattr(time, n)
    B = K.BASE_TIME

    def mk(real, f):
        def g():
            th = K._tls.__dict__.get("th")
            if th is None:
                return real()
            k = th.proc.kernel
            if k.read_at == k.now:
                k.reads += 1
                if k.reads > 2000:
                    # somebody polls the clock: it goes on
                    k.reads = 0
                    if not th.proc.killed and not k.closing:
                        k.block(k.now + 1e-6)
            else:
                k.read_at = k.now
                k.reads = 0
            return f(k.now)

        return g

    time.time = mk(_real["time"], lambda n: B + n)
    time.time_ns = mk(_real["time_ns"], lambda n: int((B + n) * 1e6) * 1000)
    time.monotonic = mk(_real["monotonic"], lambda n: 1000.0 + n)
    time.monotonic_ns = mk(_real["monotonic_ns"], lambda n: int((1000.0 + n) * 1e9))
    time.perf_counter = mk(_real["perf_counter"], lambda n: 1000.0 + n)
    time.perf_counter_ns = mk(_real["perf_counter_ns"], lambda n: int((1000.0 + n) * 1e9))

    def sleep(secs):
        th = K.cur_thread()
        if th is None:
            return _real["sleep"](secs)
        if secs < 0:
            raise ValueError("sleep length must be non-negative")
        k = th.proc.kernel
        end = k.now + secs
        while True:
            k.block(end)
            if k.now >= end - 1e-12:
                return

    time.sleep = sleep
    threading._time = time.monotonic
    queue.time = time.monotonic


def _patch_os():
    for n in ("getpid", "getppid", "kill", "remove", "unlink", "_exit"):
        _real[n] = getattr(os, n)

    def getpid():
        p = K.cur_proc()
        return _real["getpid"]() if p is None else p.os_pid or p.pid

    def getppid():
        p = K.cur_proc()
        if p is None:
            return _real["getppid"]()
        return p.parent.pid if p.parent is not None and not p.parent.exited else 1

    def kill(pid, sig):
        p = K.cur_proc()
        if p is None:
            return _real["kill"](pid, sig)
        if not isinstance(pid, int):
            raise TypeError(f"'{type(pid).__name__}' object cannot be interpreted as an integer")
        p.kernel.send_signal(pid, int(sig), p)

    def remove(path, *a, **kw):
        p = K.cur_proc()
        if p is None:
            return _real["remove"](path, *a, **kw)
        path = os.fspath(path)
        if path in p.ipc_paths:
            p.ipc_paths.discard(path)
            return
        raise FileNotFoundError(2, "No such file or directory", path)

    def _exit(code):
        p = K.cur_proc()
        if p is None:
            return _real["_exit"](code)
        p.kernel.kill_proc(p, code)
        raise K.SimKill()

    r_exists = os.path.exists

    def exists(path):
        p = K.cur_proc()
        if p is not None:
            try:
                if os.fspath(path) in p.ipc_paths:
                    return True
            except TypeError:
                pass
        return r_exists(path)

    os.getpid, os.getppid, os.kill, os.remove, os.unlink, os._exit = getpid, getppid, kill, remove, remove, _exit
    os.path.exists = exists

    r_signal = signal.signal
    r_getsignal = signal.getsignal

    def sim_signal(sig, handler):
        th = K.cur_thread()
        if th is None:
            return r_signal(sig, handler)
        if not th.is_main:
            raise ValueError("signal only works in main thread of the main interpreter")
        old = th.proc.signal_handlers.get(int(sig), signal.SIG_DFL)
        th.proc.signal_handlers[int(sig)] = handler
        return old

    def getsignal(sig):
        p = K.cur_proc()
        if p is None:
            return r_getsignal(sig)
        return p.signal_handlers.get(int(sig), signal.SIG_DFL)

    signal.signal = sim_signal
    signal.getsignal = getsignal

    r_host = socket.gethostname
    socket.gethostname = lambda: r_host() if K.cur_proc() is None else "simhost.local"

    r_u1, r_u4 = uuid.uuid1, uuid.uuid4

    def fake_uuid(real, tag):
        def f(*a, **kw):
            k = K.cur_kernel()
            if k is None:
                return real(*a, **kw)
            k.uuid_seq += 1
            return uuid.UUID(int=((k.uuid_seq * 0x9E3779B97F4A7C15 + k.salt * 0xD1B54A32D192ED03) % (1 << 64) << 64)
                             | (tag << 48) | k.uuid_seq)

        return f

    uuid.uuid1 = fake_uuid(r_u1, 1)
    uuid.uuid4 = fake_uuid(r_u4, 4)

    r_collect = gc.collect

    def collect(*a):
        if K.cur_thread() is not None:
            _event("gc")
            return 0
        return r_collect(*a)

    gc.collect = collect

    import ctypes

    r_cdll = ctypes.CDLL
    r_load = ctypes.cdll.LoadLibrary

    class FakeLibc:
        def __init__(self, lib):
            self._lib = lib

        def __getattr__(self, name):
            if name == "malloc_trim":
                return lambda *a: _event("trim") or 1
            return getattr(self._lib, name)

    def cdll(name=None, *a, **kw):
        lib = r_cdll(name, *a, **kw)
        return FakeLibc(lib) if K.cur_thread() is not None and "libc" in str(name) else lib

    def load(name):
        lib = r_load(name)
        return FakeLibc(lib) if K.cur_thread() is not None and "libc" in str(name) else lib

    ctypes.CDLL = cdll
    ctypes.cdll.LoadLibrary = load


def _patch_mp():
    P = multiprocessing.process
    _real["children"] = P._children
    P._children = _Children()

    def _Popen(process_obj):
        if K.cur_proc() is not None:
            return SimPopen(process_obj)
        from multiprocessing.popen_spawn_posix import Popen

        return Popen(process_obj)

    multiprocessing.context.SpawnProcess._Popen = staticmethod(_Popen)

    r_cur = P.current_process
    main_like = type(r_cur())

    def current_process():
        p = K.cur_proc()
        if p is None:
            return r_cur()
        if p.mp_self is None:
            p.mp_self = main_like()
            p.mp_self._vp_pid = p.pid
        return p.mp_self

    P.current_process = current_process
    multiprocessing.current_process = current_process
    multiprocessing.context.BaseContext.current_process = staticmethod(current_process)
    r_ident = P.BaseProcess.ident.fget

    def ident(self):
        p = K.cur_proc()
        if p is not None and self is p.mp_self:
            return p.pid
        return r_ident(self)

    P.BaseProcess.ident = property(ident)
    P.BaseProcess.pid = P.BaseProcess.ident
    r_alive = P.BaseProcess.is_alive

    def is_alive(self):
        p = K.cur_proc()
        if p is not None and self is p.mp_self:
            return True
        return r_alive(self)

    P.BaseProcess.is_alive = is_alive


def _event(kind, value=None):
    k = K.cur_kernel()
    k.events.append((kind, k.now, K.cur_proc(), value))


def _patch_misc():
    import psutil

    class _Ps:
        Process = psutil.Process
        NoSuchProcess = psutil.NoSuchProcess
        TimeoutExpired = psutil.TimeoutExpired

    _real["psutil"] = _Ps
    real_process = psutil.Process

    class ProcessMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (real_process, FakePs))

    class Process(metaclass=ProcessMeta):
        def __new__(cls, pid=None):
            p = K.cur_proc()
            if p is None:
                return real_process(pid)
            return FakePs(p.pid if pid is None else pid)

    psutil.Process = Process
    r_pid_exists = psutil.pid_exists

    def pid_exists(pid):
        k = K.cur_kernel()
        if k is None:
            return r_pid_exists(pid)
        pr = k.procs.get(pid)
        return pr is not None and not pr.reaped

    psutil.pid_exists = pid_exists

    import tblib.pickling_support as tb

    tb.install()  # what a worker process has at start: everything importable, none of the harness' own exceptions
    r_install = tb.install

    def install(*a, **kw):
        p = K.cur_proc()
        if p is not None and not a:
            p.tblib = True
            return
        return r_install(*a, **kw)

    tb.install = install

    r_dict = logging.config.dictConfig

    def dictConfig(cfg):
        if K.cur_proc() is None:
            return r_dict(cfg)

    logging.config.dictConfig = dictConfig
    try:
        import uvloop

        r_uv = uvloop.install

        def uv_install():
            if K.cur_proc() is None:
                return r_uv()
            _event("uvloop")

        uvloop.install = uv_install
    except ImportError:
        pass


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert "scaled" not in sys.modules, "scaled was imported before the simulator"
    import zmq
    import zmq.asyncio

    import tempfile

    tempfile.gettempdir()  # cache it while os.remove is still the real one
    _patch_time()
    _patch_threads()
    _patch_os()
    _patch_mp()
    _patch_misc()
    zmq.Context = net.ContextProxy
    zmq.asyncio.Context = net.AsyncContextProxy
    asyncio.set_event_loop_policy(SimPolicy())
    logging.disable(logging.CRITICAL)
    # keep the tracebacks of dead simulated threads and never-awaited coroutines quiet
    import warnings

    warnings.simplefilter("ignore")
    sys.unraisablehook = lambda a: None
