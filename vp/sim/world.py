"""Builds simulated deployments of the system under test out of the repository's own process entry points."""
import gc
import pickle

from . import kernel as K
from . import net
from . import patch

patch.install()

from scaled.client import Client  # noqa: E402
from scaled.cluster.cluster import Cluster  # noqa: E402
from scaled.cluster.scheduler import SchedulerProcess  # noqa: E402
from scaled.protocol.python import message as M  # noqa: E402
from scaled.protocol.python.serializer.default import DefaultSerializer  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402
from scaled.worker.worker import Worker  # noqa: E402

ADDRESS = "tcp://127.0.0.1:2345"

SCHED = dict(
    io_threads=1,
    max_number_of_tasks_waiting=-1,
    per_worker_queue_size=1000,
    worker_timeout_seconds=60,
    function_retention_seconds=20,
    load_balance_seconds=1,
    load_balance_trigger_times=2,
)
WORKER = dict(
    heartbeat_interval_seconds=2,
    garbage_collect_interval_seconds=30,
    trim_memory_threshold_bytes=1 << 30,
    function_retention_seconds=20,
    death_timeout_seconds=10,
)


class HarnessError(Exception):
    pass


def decode(frames):
    """decode [type, *payload] with the repository's own codec; None when it is not decodable"""
    try:
        return M.PROTOCOL[M.MessageType(frames[0])].deserialize(list(frames[1:]))
    except Exception:
        return None


class World:
    def __init__(self, lat=(), salt=0, max_steps=400_000, address=ADDRESS, tick=20e-6):
        self.k = K.Kernel(max_steps=max_steps)
        self.k.salt = salt
        self.k.default_tick = tick
        self.address = address
        self.lat = list(lat)
        self._lat_i = 0
        if self.lat:
            self.k.latency = self._latency
        self.wire = []  # (t, kind, proc name, socket type, frames)
        self.k.taps.append(self._tap)
        self.clients = []
        self.record_wire = True
        self._gc = gc.isenabled()
        gc.disable()

    def _latency(self, chan, frames):
        i = self._lat_i
        self._lat_i = i + 1
        return self.lat[i % len(self.lat)]

    def _tap(self, kind, sock, frames):
        if self.record_wire:
            self.wire.append((self.k.now, kind, sock, frames))

    # ---- processes
    def _mp(self, obj, name, delay=0.0):
        data = pickle.dumps(obj)

        def setup(p):
            p.kind = type(obj).__name__
            if self.k.on_spawn is not None:
                self.k.on_spawn(p)

        return self.k.new_proc(name, lambda: patch.child_main(data), delay=delay, setup=setup)

    def scheduler(self, delay=0.0, **cfg):
        c = dict(SCHED)
        c.update(cfg)
        obj = SchedulerProcess(address=ZMQConfig.from_string(self.address), **c)
        obj._authkey = b"x" if hasattr(obj, "_authkey") else None
        return self._mp_obj(obj, "scheduler", delay)

    def _mp_obj(self, obj, name, delay):
        from multiprocessing import context

        class _S:
            pass

        context.set_spawning_popen(_S())
        try:
            return self._mp(obj, name, delay)
        finally:
            context.set_spawning_popen(None)

    def worker(self, delay=0.0, name="worker", serializer=None, **cfg):
        c = dict(WORKER)
        c.update(cfg)
        obj = Worker(event_loop="builtin", address=ZMQConfig.from_string(self.address),
                     serializer=serializer or DefaultSerializer(), **c)
        return self._mp_obj(obj, name, delay)

    def cluster(self, n, delay=0.0, name="cluster", serializer=None, **cfg):
        c = dict(WORKER)
        c.update(cfg)
        obj = Cluster(address=ZMQConfig.from_string(self.address), n_workers=n, event_loop="builtin",
                      serializer=serializer or DefaultSerializer(), **c)
        return self._mp_obj(obj, name, delay)

    def program(self, fn, name="client", delay=0.0):
        return self.k.new_proc(name, fn, delay=delay)

    def peer(self, identity, on_message=None):
        return net.Peer(self.k, identity, self.address, on_message)

    # ---- running
    def run(self, until=None, t=60.0):
        """run until the condition holds or `t` more virtual seconds passed"""
        return self.k.run(until, self.k.now + t)

    def close(self):
        try:
            self.k.shutdown()
        finally:
            if self._gc:
                gc.enable()
        if self.k.harness_errors:
            raise HarnessError(self.k.harness_errors[0])

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        try:
            self.close()
        except HarnessError:
            if et is None:
                raise
