"""Deterministic discrete-event kernel.

Every process of the system under test (scheduler, worker agent, processor, client program) becomes a `Proc`, every
thread of it a `SimThread`.  A SimThread is a real OS thread, but exactly one of them (or the controller) runs at any
time: a thread gives the baton back whenever it blocks (lock, sleep, poll, asyncio select, future.result, join ...),
and the controller pops the next event in virtual-time order.  Nothing in here reads the wall clock or an RNG, so one
run is a pure function of the code under test and the scenario.
"""
import _thread
import heapq
import threading
import time as _real_time
import traceback
from collections import deque

BASE_TIME = 1_700_000_000.0

_tls = threading.local()
_alloc = _thread.allocate_lock

HANG_REAL_SECONDS = 40.0


class SimKill(BaseException):
    """raised inside a simulated thread whose process was killed"""


class SimHang(Exception):
    """a simulated thread computed for HANG_REAL_SECONDS of real time without ever blocking"""


class SimError(Exception):
    """misuse of the simulator: an error of the harness, never of the code under test"""


def cur_thread():
    return getattr(_tls, "th", None)


def cur_proc():
    th = getattr(_tls, "th", None)
    return th.proc if th is not None else None


def cur_kernel():
    th = getattr(_tls, "th", None)
    return th.proc.kernel if th is not None else None


class SimThread:
    __slots__ = ("proc", "name", "target", "daemon", "lock", "gen", "started", "done", "exc", "joiners", "is_main", "py",
                 "runs", "lazy", "os_started", "blocked")

    def __init__(self, proc, target, name, daemon=False, is_main=False):
        self.proc = proc
        self.name = name
        self.target = target
        self.daemon = daemon
        self.is_main = is_main
        self.lock = _alloc()
        self.lock.acquire()
        self.gen = 0
        self.started = False
        self.os_started = False
        self.done = False
        self.exc = None
        self.joiners = []
        self.py = None
        self.runs = 0
        self.lazy = None
        self.blocked = False

    def _bootstrap(self):
        _tls.th = self
        self.lock.acquire()
        k = self.proc.kernel
        try:
            if not self.proc.killed:
                if self.proc.tracer is not None:
                    import sys

                    sys.settrace(self.proc.tracer)
                self.target()
        except SimKill:
            pass
        except SystemExit as e:
            self.exc = e
        except BaseException as e:  # noqa
            self.exc = e
            if not self.proc.killed:
                k.on_thread_crash(self, e)
        finally:
            import sys

            sys.settrace(None)
            self.done = True
            try:
                if not self.proc.killed:
                    k.on_thread_done(self)
            except BaseException as e:  # noqa
                k.harness_errors.append("".join(traceback.format_exception(e)))
            for j in self.joiners:
                k.wake(j)
            _tls.th = None
            k.main_lock.release()


class Proc:
    def __init__(self, kernel, name, parent=None):
        self.kernel = kernel
        self.name = name
        self.parent = parent
        kernel.pid_seq += 1
        self.pid = kernel.pid_seq
        self.threads = []
        self.children = []
        self.main = None
        self.killed = False
        self.alive = True
        self.exited = False
        self.exit_code = None
        self.exit_time = None
        self.main_done = False
        self.crash = None
        self.sockets = []
        self.ctx_instance = None
        self.loop = None
        self.loop_handlers = {}
        self.signal_handlers = {}
        self.pending_signals = deque()
        self.waiters = []
        self.reaped = False
        self.stalled_until = 0.0
        self.os_pid = None  # the pid it believes to have: programs of one process share it
        self.io_count = 0
        self.tick = kernel.default_tick
        self.tracer = None
        self.ipc_paths = set()
        self.cpu = 0.0
        self.rss = 30_000_000
        self.spin = 0
        self.spin_io = -1
        self.mp_self = None
        self.mp_children = None
        self.tblib = False
        self.exit_status = None
        self.tag = None
        self.kind = name

    def __repr__(self):
        return f"<{self.name}:{self.pid}>"


class SignalEvent:
    def __init__(self, loop, cb, args):
        self.loop, self.cb, self.args = loop, cb, args

    def handle_events(self):
        self.loop.call_soon(self.cb, *self.args)


class Kernel:
    def __init__(self, max_steps=400_000):
        self.now = 0.0
        self.seq = 0
        self.evq = []
        self.main_lock = _alloc()
        self.main_lock.acquire()
        self.procs = {}
        self.pid_seq = 100_000
        self.uuid_seq = 0
        self.default_tick = 20e-6
        self.steps = 0
        self.max_steps = max_steps
        self.out_of_steps = False
        self.crashes = []
        self.harness_errors = []
        self.endpoints = {}
        self.waiting_connects = {}
        self.pub_log = []
        self.taps = []
        self.events = []  # (kind, time, process, value) of calls that leave the simulated world
        self.spawn_latency = lambda proc: 0.15
        self.start_cost = lambda parent: 0.0
        self.latency = lambda chan, frames: 0.0002
        self.keep_fraction = 1.0
        self.log = []  # events recorded by user functions and by the harness
        self.mp_objects = []
        self.closing = False
        self.on_spawn = None
        self.on_exit = None
        self.signals = []  # (now, proc, signum, target pid)
        self.msg_count = 0
        self.t_limit = float("inf")
        self.force_switch = False
        self.salt = 0
        self.read_at = -1.0
        self.reads = 0

    # ---- events
    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.evq, (t if t > self.now else self.now, self.seq, fn))

    def after(self, dt, fn):
        self.at(self.now + dt, fn)

    # ---- threads
    def new_thread(self, proc, target, name, daemon=False, is_main=False, delay=0.0):
        th = SimThread(proc, target, name, daemon, is_main)
        proc.threads.append(th)
        if is_main:
            proc.main = th
        th.started = True
        th.blocked = True
        gen = th.gen
        self.after(delay, lambda: self._resume(th, gen))
        return th

    def wake(self, th):
        if th.done or th.proc.killed:
            return
        gen = th.gen
        self.at(self.now, lambda: self._resume(th, gen))

    def _timer(self, th, gen, period=None):
        def fire():
            if th.gen != gen or th.done or th.proc.killed:
                return
            if th.lazy is not None and not th.lazy():
                self.at(self.now + period, fire)
                return
            self._resume(th, gen)

        return fire

    def block(self, deadline=None, lazy=None, period=None):
        """called in a sim thread: give the baton back until woken or until `deadline`"""
        th = _tls.th
        proc = th.proc
        if proc.killed:
            raise SimKill()
        if th.is_main and proc.pending_signals:
            self.run_signals(proc)
        th.gen += 1
        gen = th.gen
        th.lazy = lazy
        th.blocked = True
        if deadline is not None:
            self.at(deadline, self._timer(th, gen, period))
        self.main_lock.release()
        th.lock.acquire()
        th.lazy = None
        if proc.killed:
            raise SimKill()
        if th.is_main and proc.pending_signals:
            self.run_signals(proc)

    @staticmethod
    def run_signals(proc):
        while proc.pending_signals:
            sig, handler = proc.pending_signals.popleft()
            handler(sig, None)

    def _resume(self, th, gen):
        if th.done or th.gen != gen or th.proc.killed:
            return
        if th.proc.stalled_until > self.now:
            self.at(th.proc.stalled_until, lambda: self._resume(th, gen))
            return
        th.gen += 1  # invalidates every other pending wake-up of this block
        th.runs += 1
        self._switch(th)

    def _switch(self, th):
        th.blocked = False
        if not th.os_started:
            th.os_started = True
            _thread.start_new_thread(th._bootstrap, ())
        th.lock.release()
        if not self.main_lock.acquire(True, HANG_REAL_SECONDS):
            raise SimHang(f"{th.proc.name}/{th.name} computed for {HANG_REAL_SECONDS}s without blocking")

    # ---- processes
    def new_proc(self, name, target, parent=None, delay=0.0, setup=None):
        p = Proc(self, name, parent)
        self.procs[p.pid] = p
        if parent is not None:
            parent.children.append(p)
        if setup is not None:
            setup(p)
        if callable(delay):
            delay = delay(p)
        self.new_thread(p, target, "main", is_main=True, delay=delay)
        return p

    def on_thread_crash(self, th, exc):
        text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-4000:]
        self.crashes.append({"obj": exc, "t": self.now, "proc": th.proc.name, "thread": th.name, "exc": repr(exc)[:300], "tb": text,
                             "type": type(exc).__name__})
        if th.is_main:
            th.proc.crash = exc

    def on_thread_done(self, th):
        proc = th.proc
        if th.is_main:
            proc.main_done = True
        self._maybe_exit(proc)

    def _maybe_exit(self, proc):
        """python's process exit: main thread ended, then children are joined, then non-daemon threads"""
        if proc.exited or not proc.main_done:
            return
        if any(not c.exited for c in proc.children):
            return
        if any(not t.done and not t.daemon for t in proc.threads):
            return
        self._exit(proc, 0 if proc.crash is None else 1, graceful=True)

    def _exit(self, proc, code, graceful):
        if proc.exited:
            return
        proc.exited = True
        proc.alive = False
        proc.killed = True
        proc.exit_code = code
        proc.exit_time = self.now
        keep = 1.0 if graceful else self.keep_fraction
        for s in list(proc.sockets):
            s.proc_gone(keep)
        proc.sockets.clear()
        for w in proc.waiters:
            self.wake(w)
        if self.on_exit is not None:
            self.on_exit(proc)
        if proc.parent is not None and not proc.parent.exited:
            parent = proc.parent
            self.at(self.now, lambda: self._maybe_exit(parent))

    def kill_proc(self, proc, code=-9, tree=False):
        if tree:
            for c in list(proc.children):
                self.kill_proc(c, code, True)
        if proc.exited:
            return
        self._exit(proc, code, graceful=False)
        # a thread killing its own process unwinds at its next block()

    def send_signal(self, pid, signum, sender=None):
        import signal as S

        proc = self.procs.get(pid)
        self.signals.append((self.now, sender.name if sender else None, int(signum), pid))
        if proc is None or proc.reaped:
            raise ProcessLookupError(3, "No such process")
        if proc.exited or signum == 0:
            return
        signum = int(signum)
        if signum == S.SIGKILL:
            self.kill_proc(proc, -9)
            return
        if signum in proc.loop_handlers and proc.loop is not None:
            cb, args = proc.loop_handlers[signum]
            # like the self-pipe of asyncio: seen by the next select
            proc.loop.sock_events.append(SignalEvent(proc.loop, cb, args))
            if proc.loop.sim_thread is not None and proc.loop.in_select:
                self.wake(proc.loop.sim_thread)
            return
        h = proc.signal_handlers.get(signum)
        if h is S.SIG_IGN:
            return
        if proc.main is None or not proc.main.os_started:
            # the interpreter is still starting: no handler is installed yet
            if signum in (S.SIGCHLD, S.SIGCONT, S.SIGURG, S.SIGWINCH):
                return
            self.kill_proc(proc, -signum)
            return
        if callable(h):
            proc.pending_signals.append((signum, h))
            if proc.main is not None and not proc.main.done:
                self.wake(proc.main)
            return
        if signum == S.SIGINT:
            def raise_ki(sig, frame):
                raise KeyboardInterrupt()

            proc.pending_signals.append((signum, raise_ki))
            self.wake(proc.main)
            return
        if signum in (S.SIGCHLD, S.SIGCONT, S.SIGURG, S.SIGWINCH):
            return
        self.kill_proc(proc, -signum)

    # ---- main loop
    def run(self, until=None, t_end=None):
        """process events until `until()` holds, virtual time passes t_end, or nothing is left.
        Returns 'until', 'time', 'empty' or 'steps'."""
        evq = self.evq
        self.t_limit = float("inf") if t_end is None else t_end
        while True:
            if until is not None and until():
                return "until"
            if not evq:
                return "empty"
            if t_end is not None and evq[0][0] > t_end:
                self.now = max(self.now, t_end)
                return "time"
            if self.steps >= self.max_steps:
                self.out_of_steps = True
                return "steps"
            t, _, fn = heapq.heappop(evq)
            if t > self.now:
                self.now = t
            self.steps += 1
            fn()

    def shutdown(self):
        """unwind every simulated thread"""
        self.closing = True
        for p in list(self.procs.values()):
            if not p.exited:
                p.exited = True
                p.alive = False
            p.killed = True
        for p in list(self.procs.values()):
            for th in p.threads:
                guard = 0
                while th.os_started and not th.done and guard < 1000:
                    guard += 1
                    self._switch(th)
                if th.os_started and not th.done:
                    self.harness_errors.append(f"thread {th.name} of {p.name} does not unwind")
        self.evq.clear()


class SimLock:
    """replacement for _thread.lock inside simulated processes"""

    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = deque()

    def acquire(self, blocking=True, timeout=-1):
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        th = cur_thread()
        if th is None:
            raise SimError("the controller would block on a simulated lock")
        k = th.proc.kernel
        deadline = None if timeout is None or timeout < 0 else k.now + timeout
        while self._locked:
            if deadline is not None and k.now >= deadline:
                return False
            self._waiters.append(th)
            try:
                k.block(deadline)
            finally:
                try:
                    self._waiters.remove(th)
                except ValueError:
                    pass
        self._locked = True
        return True

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        for th in self._waiters:
            th.proc.kernel.wake(th)

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.lock' object")


def real_time():
    return _real_time
