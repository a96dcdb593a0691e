"""Simulated ZeroMQ: ROUTER/DEALER/PAIR/PUB/SUB sockets over channels with FIFO order and chosen latencies."""
import asyncio
import errno
from collections import deque

import zmq as _zmq

from . import kernel as K

ROUTER, DEALER, PAIR, PUB, SUB = _zmq.ROUTER, _zmq.DEALER, _zmq.PAIR, _zmq.PUB, _zmq.SUB
POLLIN, POLLOUT = _zmq.POLLIN, _zmq.POLLOUT

OPEN, CLOSE = object(), object()
NOT_SENT_YET = 0.0005  # s, a message may take that long to leave its process


class Channel:
    """one direction of a connection; preserves order"""

    __slots__ = ("kernel", "src", "dst", "last", "flight", "closed", "pipe", "idx")

    def __init__(self, kernel, src, dst, pipe):
        self.kernel = kernel
        self.src = src
        self.dst = dst
        self.pipe = pipe
        self.last = 0.0
        self.flight = deque()
        self.closed = False
        self.idx = 0

    def full(self):
        """the sending side has as many messages in its pipe as its high water mark allows"""
        hwm = getattr(self.src, "hwm", None)
        if hwm is None:
            return False
        limit = hwm("snd")
        if not limit or len(self.flight) + len(getattr(self.dst, "rq", ())) < limit:
            return False
        # what the receiving side takes in does not occupy the sender
        room = self.dst.hwm("rcv") if hasattr(self.dst, "hwm") else 0
        behind = max(0, len(self.dst.rq) - room) if room else 0
        return len(self.flight) + behind >= limit

    def put(self, frames, latency=None):
        if self.closed:
            return
        k = self.kernel
        if latency is None:
            latency = k.latency(self, frames)
        self.idx += 1
        t = max(self.last, k.now + latency)
        self.last = t
        cell = [frames, k.now]
        self.flight.append(cell)
        k.at(t, lambda: self._arrive(cell))

    def _arrive(self, cell):
        if cell[0] is None:
            return
        frames = cell[0]
        cell[0] = None
        try:
            self.flight.remove(cell)
        except ValueError:
            pass
        self.dst.on_arrival(self.pipe, frames)
        if getattr(self.src, "_blocked", False):
            self.src._flush_sends()

    def drop_fresh(self, now):
        """closed without lingering: what was sent just now is not on the wire yet and lost"""
        for c in self.flight:
            if c[0] is not OPEN and c[0] is not CLOSE and now - c[1] < NOT_SENT_YET:
                c[0] = None
        self.flight = deque(c for c in self.flight if c[0] is not None)

    def drop_tail(self, keep_fraction):
        """the process on the source side is gone: a suffix of what it had in flight is lost"""
        cells = [c for c in self.flight if c[0] is not None and c[0] is not OPEN]
        n = int(len(cells) * keep_fraction)
        for c in cells[n:]:
            c[0] = None
        self.flight = deque(c for c in self.flight if c[0] is not None)


class Pipe:
    __slots__ = ("connector", "binder", "up", "down", "opened", "closed", "rejected", "backlog")

    def __init__(self, kernel, connector):
        self.connector = connector
        self.binder = None
        self.up = None
        self.down = None
        self.opened = False
        self.closed = False
        self.rejected = False
        self.backlog = []

    def attach(self, kernel, binder):
        self.binder = binder
        self.up = Channel(kernel, self.connector, binder, self)
        self.down = Channel(kernel, binder, self.connector, self)
        self.up.put(OPEN)
        for frames in self.backlog:
            self.up.put(frames)
        self.backlog = []

    def full_up(self):
        if self.up is not None:
            return self.up.full()
        limit = self.connector.hwm("snd")
        return bool(limit) and len(self.backlog) >= limit

    def send_up(self, frames):
        if self.up is None:
            self.backlog.append(frames)
        else:
            self.up.put(frames)


def _frames(msg):
    out = []
    for f in msg:
        if isinstance(f, _zmq.Frame):
            f = f.bytes
        if isinstance(f, (bytes, bytearray, memoryview)):
            out.append(bytes(f))
        elif isinstance(f, str):
            raise TypeError("unicode not allowed, use send_string")
        else:
            raise TypeError(f"a bytes-like object is required, not {type(f).__name__!r}")
    if not out:
        raise TypeError("send_multipart needs at least one frame")
    return out


class BaseSocket:
    def __init__(self, ctx, type_, proc):
        self.ctx = ctx
        self.type = type_
        self.proc = proc
        self.kernel = proc.kernel
        self.opts = {}
        self.identity = b""
        self.rq = deque()
        self.pipes = []  # connector side
        self.peers = {}  # ROUTER: identity -> pipe
        self.pair_pipe = None
        self.pair_waiting = deque()
        self.pair_held = deque()
        self.subs = []
        self.topics = []
        self.bound = []
        self.closed = False
        self.sim_waiters = []
        self._recv_futs = deque()
        self._send_futs = deque()
        self._event_pending = False
        self._blocked = False
        proc.sockets.append(self)

    # options
    def setsockopt(self, opt, value):
        self.opts[opt] = value
        if opt == _zmq.HWM:
            self.opts[_zmq.SNDHWM] = self.opts[_zmq.RCVHWM] = value
        if opt == _zmq.IDENTITY:
            self.identity = bytes(value)
        if opt == _zmq.SUBSCRIBE:
            self.subscribe(value)

    set = setsockopt

    def setsockopt_string(self, opt, value, encoding="utf-8"):
        self.setsockopt(opt, value.encode(encoding))

    def hwm(self, side):
        """high water mark; like in zmq 0 means no limit, and the default is 1000"""
        return self.opts.get(_zmq.SNDHWM if side == "snd" else _zmq.RCVHWM, 1000)

    def set_hwm(self, value):
        self.setsockopt(_zmq.HWM, value)

    def getsockopt(self, opt):
        if opt in (_zmq.SNDHWM, _zmq.RCVHWM):
            return self.hwm("snd" if opt == _zmq.SNDHWM else "rcv")
        if opt == _zmq.IDENTITY:
            return self.identity
        return self.opts.get(opt, 0)

    get = getsockopt

    def __setattr__(self, name, value):
        if name in ("linger", "sndhwm", "rcvhwm", "hwm", "rcvtimeo", "sndtimeo"):
            self.setsockopt(getattr(_zmq, name.upper()), value)
            if name == "hwm":
                return
        object.__setattr__(self, name, value)

    def subscribe(self, topic=""):
        self.topics.append(topic.encode() if isinstance(topic, str) else bytes(topic))

    def unsubscribe(self, topic=""):
        self.topics.remove(topic.encode() if isinstance(topic, str) else bytes(topic))

    # addresses
    def bind(self, addr):
        k = self.kernel
        if addr in k.endpoints:
            raise _zmq.ZMQError(errno.EADDRINUSE)
        k.endpoints[addr] = self
        self.bound.append(addr)
        if addr.startswith("ipc://"):
            self.proc.ipc_paths.add(addr[len("ipc://"):])
        for pipe in k.waiting_connects.pop(addr, []):
            if not pipe.closed:
                pipe.attach(k, self)

    def connect(self, addr):
        k = self.kernel
        if "://" not in addr:
            raise _zmq.ZMQError(errno.EINVAL)
        pipe = Pipe(k, self)
        self.pipes.append(pipe)
        b = k.endpoints.get(addr)
        if b is None:
            k.waiting_connects.setdefault(addr, []).append(pipe)
        else:
            pipe.attach(k, b)

    # arrival (controller or sim-thread context)
    def on_arrival(self, pipe, frames):
        if self.closed:
            return
        k = self.kernel
        if frames is OPEN:
            self._on_open(pipe)
            return
        if frames is CLOSE:
            self._on_close(pipe)
            return
        if self.type == ROUTER:
            ident = pipe.connector.identity
            if self.peers.get(ident) is not pipe:
                return
            msg = [ident, *frames]
        elif self.type == PAIR and pipe.binder is self:
            if pipe is not self.pair_pipe:
                if not pipe.closed or pipe.rejected:
                    self.pair_held.append((pipe, frames))
                return
            msg = list(frames)
        elif self.type == SUB:
            if not any(frames[0].startswith(t) for t in self.topics):
                return
            msg = list(frames)
        else:
            msg = list(frames)
        self._deliver(msg)

    def _deliver(self, msg):
        k = self.kernel
        k.msg_count += 1
        for tap in k.taps:
            tap("recv", self, msg)
        self.rq.append(msg)
        self._notify()

    def _on_open(self, pipe):
        if pipe.binder is not self:
            return
        pipe.opened = True
        if self.type == ROUTER:
            ident = pipe.connector.identity
            if not ident:
                self.kernel.uuid_seq += 1
                ident = b"\x00" + self.kernel.uuid_seq.to_bytes(4, "big")
                pipe.connector.identity = ident
            old = self.peers.get(ident)
            if old is None or old.closed:
                self.peers[ident] = pipe
        elif self.type == PAIR:
            if self.pair_pipe is None:
                self._pair_accept(pipe)
            else:
                pipe.rejected = True
                self.pair_waiting.append(pipe)
        elif self.type == PUB:
            self.subs.append(pipe)

    def _pair_accept(self, pipe):
        pipe.rejected = False
        self.pair_pipe = pipe
        held, self.pair_held = self.pair_held, deque()
        for p, frames in held:
            if p is pipe:
                self._deliver(list(frames))
            else:
                self.pair_held.append((p, frames))
        self._flush_sends()

    def _on_close(self, pipe):
        if pipe.binder is self:
            if self.type == ROUTER:
                ident = pipe.connector.identity
                if self.peers.get(ident) is pipe:
                    del self.peers[ident]
            elif self.type == PAIR and self.pair_pipe is pipe:
                self.pair_pipe = None
                while self.pair_waiting:
                    nxt = self.pair_waiting.popleft()
                    if not nxt.closed:
                        self._pair_accept(nxt)
                        break
            elif self.type == PUB:
                self.subs = [p for p in self.subs if p is not pipe]

    def _closed_error(self):
        th = K.cur_thread()
        if th is not None and th.proc.killed:
            raise K.SimKill()
        raise _zmq.ZMQError(_zmq.ENOTSOCK)

    def _pop(self):
        for p in self.pipes or [*self.peers.values(), *([self.pair_pipe] if self.pair_pipe else ())]:
            src = p.binder if p.connector is self else p.connector
            if getattr(src, "_blocked", False):
                src._flush_sends()
        return self.rq.popleft()

    def _tap_pop(self, msg):
        for tap in self.kernel.taps:
            tap("pop", self, msg)

    def _notify(self):
        for th in self.sim_waiters:
            self.kernel.wake(th)
        self._event()

    def _event(self):
        pass

    def _flush_sends(self):
        pass

    # sending
    def _send(self, msg):
        """returns False if it would block"""
        k = self.kernel
        if self.closed or self.proc.exited:
            self._closed_error()
        frames = _frames(msg)
        if self.type == ROUTER:
            self.proc.io_count += 1
            for tap in k.taps:
                tap("send", self, frames)
            pipe = self.peers.get(frames[0])
            if pipe is None or pipe.closed or pipe.down is None or pipe.down.full():
                for tap in k.taps:
                    tap("drop", self, frames)
                return True
            pipe.down.put(frames[1:])
            return True
        if self.type == PUB:
            self.proc.io_count += 1
            k.pub_log.append((k.now, frames))
            for tap in k.taps:
                tap("pub", self, frames)
            for p in self.subs:
                if not p.closed and not p.down.full():
                    p.down.put(frames)
            return True
        if self.type == PAIR and self.bound:
            pipe = self.pair_pipe
            if pipe is None or pipe.closed and pipe.down is None:
                return False
            if pipe.down.full():
                self._blocked = True
                return False
            self.proc.io_count += 1
            for tap in k.taps:
                tap("send", self, frames)
            pipe.down.put(frames)
            return True
        if not self.pipes or self.pipes[0].full_up():
            self._blocked = True
            return False
        self.proc.io_count += 1
        for tap in k.taps:
            tap("send", self, frames)
        self.pipes[0].send_up(frames)
        return True

    # closing
    def close(self, linger=None):
        if self.closed:
            return
        if (self.opts.get(_zmq.LINGER, -1) if linger is None else linger) == 0:
            self._drop_fresh()
        self._teardown(1.0)
        try:
            self.proc.sockets.remove(self)
        except ValueError:
            pass

    def _drop_fresh(self):
        for pipe in self.pipes:
            if not pipe.closed and pipe.up is not None:
                pipe.up.drop_fresh(self.kernel.now)
        for pipe in [*self.peers.values(), self.pair_pipe, *self.subs]:
            if pipe is not None and not pipe.closed:
                pipe.down.drop_fresh(self.kernel.now)

    def proc_gone(self, keep):
        if not self.closed:
            self._teardown(keep)

    def _teardown(self, keep):
        k = self.kernel
        self.closed = True
        for addr in self.bound:
            if k.endpoints.get(addr) is self:
                del k.endpoints[addr]
        for pipe in self.pipes:
            if pipe.closed:
                continue
            pipe.closed = True
            pipe.backlog = []
            if pipe.up is not None:
                pipe.up.drop_tail(keep)
                pipe.up.put(CLOSE)
                pipe.up.closed = True
                pipe.down.closed = True
        for pipe in list(self.peers.values()) + [self.pair_pipe] + list(self.pair_waiting) + list(self.subs):
            if pipe is None or pipe.closed:
                continue
            pipe.down.drop_tail(keep)
            pipe.down.closed = True
            pipe.up.closed = True
        self.peers.clear()
        self.pair_pipe = None
        for th in self.sim_waiters:
            k.wake(th)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SyncSocket(BaseSocket):
    def _lazy(self):
        th = K.cur_thread()
        others = [t for t in self.proc.threads if t is not th]
        start_runs = sum(t.runs for t in others) + len(others)
        start = self.kernel.now
        proc = self.proc

        def really():
            if self.rq or self.closed:
                return True
            if self.kernel.now - start >= 1.0:
                return True
            o = [t for t in proc.threads if t is not th]
            return sum(t.runs for t in o) + len(o) != start_runs

        return really

    def poll(self, timeout=None, flags=POLLIN):
        if self.closed:
            self._closed_error()
        if flags & POLLOUT and not flags & POLLIN:
            return POLLOUT
        k = self.kernel
        th = K.cur_thread()
        if th is None:
            raise K.SimError("poll from controller")
        if self.rq:
            return POLLIN
        if timeout is not None and timeout == 0:
            k.block(k.now + self.proc.tick)
            return POLLIN if self.rq else 0
        deadline = None if timeout is None or timeout < 0 else k.now + timeout / 1000.0
        self.sim_waiters.append(th)
        try:
            while not self.rq:
                if self.closed:
                    self._closed_error()
                if deadline is not None and k.now >= deadline:
                    return 0
                if deadline is not None and timeout >= 500:
                    k.block(deadline)
                elif deadline is not None:
                    k.block(deadline, lazy=self._lazy(), period=timeout / 1000.0)
                else:
                    k.block(None)
        finally:
            try:
                self.sim_waiters.remove(th)
            except ValueError:
                pass
        return POLLIN

    def recv_multipart(self, flags=0, copy=True, track=False):
        if self.closed:
            self._closed_error()
        if not self.rq:
            if flags & _zmq.NOBLOCK:
                raise _zmq.Again()
            t = self.opts.get(_zmq.RCVTIMEO, -1)
            if not self.poll(None if t < 0 else t):
                raise _zmq.Again()
        self.proc.io_count += 1
        msg = self._pop()
        self._tap_pop(msg)
        return msg

    def recv(self, flags=0, copy=True, track=False):
        return self.recv_multipart(flags)[0]

    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        if self.sim_waiters and any(th is not K.cur_thread() for th in self.sim_waiters):
            # sockets are not thread safe
            self.kernel.events.append(("socket-race", self.kernel.now, self.proc, K.cur_thread().name))
        while not self._send(msg_parts):
            if flags & _zmq.NOBLOCK:
                raise _zmq.Again()
            self.kernel.block(self.kernel.now + 0.01)

    def send(self, data, flags=0, copy=True, track=False, **kw):
        self.send_multipart([data], flags)


class _RecvFuture(asyncio.Future):
    """tells the taps that a message was taken when its receiver resumes with it"""

    def __await__(self):
        msg = yield from super().__await__()
        self.sock._tap_pop(msg)
        return msg

    __iter__ = __await__


class AsyncSocket(BaseSocket):
    """mirrors zmq.asyncio: an immediate non-blocking attempt, otherwise a future resolved from an event-loop callback"""

    def _loop(self):
        return asyncio.get_event_loop()

    def recv_multipart(self, flags=0, copy=True, track=False):
        loop = self._loop()
        f = _RecvFuture(loop=loop)
        f.sock = self
        if self.closed:
            f.set_exception(_zmq.ZMQError(_zmq.ENOTSOCK))
            return f
        if self.rq and not any(not x.done() for x in self._recv_futs):
            self.proc.io_count += 1
            f.set_result(self._pop())
            return f
        if flags & _zmq.NOBLOCK:
            f.set_exception(_zmq.Again())
            return f
        self._recv_futs.append(f)
        return f

    async def recv(self, flags=0, **kw):
        return (await self.recv_multipart(flags))[0]

    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        loop = self._loop()
        f = loop.create_future()
        try:
            if not any(not x[0].done() for x in self._send_futs) and self._send(msg_parts):
                f.set_result(None)
                return f
        except Exception as e:
            f.set_exception(e)
            return f
        self._send_futs.append((f, _frames(msg_parts)))
        return f

    def send(self, data, flags=0, copy=True, track=False, **kw):
        return self.send_multipart([data], flags)

    def poll(self, timeout=None, flags=POLLIN):
        async def _poll():
            end = None if timeout is None or timeout < 0 else self.kernel.now + timeout / 1000
            while not self.rq:
                if end is not None and self.kernel.now >= end:
                    return 0
                await asyncio.sleep(0.001)
            return POLLIN

        return asyncio.ensure_future(_poll())

    def _event(self):
        if self._event_pending:
            return
        loop = self.proc.loop
        if loop is None or loop.is_closed():
            return
        self._event_pending = True
        loop.sock_events.append(self)
        if loop.in_select and loop.sim_thread is not None:
            self.kernel.wake(loop.sim_thread)

    def _flush_sends(self):
        self._blocked = False
        self._event()

    def handle_events(self):
        """runs inside the event loop"""
        self._event_pending = False
        while self.rq and self._recv_futs:
            f = self._recv_futs.popleft()
            if f.done():
                continue
            self.proc.io_count += 1
            f.set_result(self._pop())
            break
        while self._send_futs:
            f, frames = self._send_futs[0]
            if f.done():
                self._send_futs.popleft()
                continue
            try:
                if not self._send(frames):
                    break
                self._send_futs.popleft()
                f.set_result(None)
            except Exception as e:
                self._send_futs.popleft()
                f.set_exception(e)
        if self.rq and any(not f.done() for f in self._recv_futs):
            self._event()

    def close(self, linger=None):
        if self.closed:
            return
        super().close(linger)
        for f in self._recv_futs:
            if not f.done():
                f.cancel()
        for f, _ in self._send_futs:
            if not f.done():
                f.cancel()


class _Ctx:
    socket_class = SyncSocket

    def __init__(self, proc):
        self.proc = proc
        self.sockets = []
        self.closed = False
        self.opts = {}

    def socket(self, socket_type, **kw):
        if self.closed:
            raise _zmq.ZMQError(_zmq.ETERM if hasattr(_zmq, "ETERM") else errno.EINVAL)
        s = self.socket_class(self, socket_type, self.proc)
        self.sockets.append(s)
        return s

    def destroy(self, linger=None):
        self.closed = True
        if self.proc.exited:
            return
        for s in self.sockets:
            try:
                s.close(linger)
            except RuntimeError:
                pass

    def term(self):
        self.destroy()

    def setsockopt(self, o, v):
        self.opts[o] = v

    def getsockopt(self, o):
        return self.opts.get(o)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.destroy()


class _AsyncCtx(_Ctx):
    socket_class = AsyncSocket


_RealContext = _zmq.Context
import zmq.asyncio as _za  # noqa: E402

_RealAsyncContext = _za.Context


class _Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_Ctx, _RealContext))


class ContextProxy(metaclass=_Meta):
    real = _RealContext
    fake = _Ctx

    def __new__(cls, *a, **kw):
        p = K.cur_proc()
        if p is None:
            return cls.real(*a, **kw)
        k = K.cur_kernel()
        k.events.append(("io_threads", k.now, p, kw.get("io_threads", a[0] if a else 1)))
        return cls.fake(p)

    @classmethod
    def instance(cls, *a, **kw):
        p = K.cur_proc()
        if p is None:
            return cls.real.instance(*a, **kw)
        key = cls.fake
        if p.ctx_instance is None:
            p.ctx_instance = {}
        c = p.ctx_instance.get(key)
        if c is None or c.closed:
            c = p.ctx_instance[key] = cls.fake(p)
        return c


class AsyncContextProxy(ContextProxy):
    real = _RealAsyncContext
    fake = _AsyncCtx


class Peer:
    """a scripted endpoint driven by the harness (a DEALER with an identity), no thread of its own"""

    def __init__(self, kernel, identity, address, on_message=None):
        self.kernel = kernel
        self.identity = identity
        self.on_message = on_message
        self.type = DEALER
        self.closed = False
        self.inbox = []
        self.proc = None
        self.pipe = Pipe(kernel, self)
        b = kernel.endpoints.get(address)
        if b is None:
            kernel.waiting_connects.setdefault(address, []).append(self.pipe)
        else:
            self.pipe.attach(kernel, b)

    def send(self, frames, latency=None):
        if self.closed:
            return
        frames = [bytes(f) for f in frames]
        if self.pipe.up is None:
            self.pipe.backlog.append(frames)
        else:
            self.pipe.up.put(frames, latency)

    def on_arrival(self, pipe, frames):
        if self.closed or frames is OPEN or frames is CLOSE:
            return
        self.inbox.append((self.kernel.now, frames))
        if self.on_message is not None:
            self.on_message(frames)

    def close(self, keep=1.0):
        if self.closed:
            return
        self.closed = True
        p = self.pipe
        p.closed = True
        if p.up is not None:
            p.up.drop_tail(keep)
            p.up.put(CLOSE)
            p.up.closed = True
            p.down.closed = True
