"""Simulated multiprocessing: processes are scheduler tasks; values, events
and queues live in the simulator."""
from .core import SimAbort

_cur = None


class SimProcess:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.name = name or 'Process'
        self.daemon = bool(daemon)
        self._task = None
        self.exitcode = None
        self.pid = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        w = _cur()
        w.procs.append(self)
        self.pid = 4000 + len(w.procs)

        def body():
            try:
                self.run()
                self.exitcode = 0
            except SimAbort:
                self.exitcode = -9
                raise
            except BaseException:
                self.exitcode = 1
                raise

        self._task = w.spawn('worker%d' % len(w.procs), body)

    def is_alive(self):
        return self._task is not None and not self._ended()

    def _ended(self):
        t = self._task
        return t.state == 'done' and (t.killed or not t.__dict__.get('undelivered'))

    def join(self, timeout=None):
        w = _cur()
        w.wait_until(self._ended, timeout)

    def terminate(self):
        w = _cur()
        t = self._task
        if t is not None and t.state == 'done' and not self._ended():
            t.killed = True         # dies while handing over its result
        elif t is not None and t.state != 'done' and t is not w.current:
            t.killed = True
            t.stalled_until = None
            t.state = 'ready'

    kill = terminate

    def close(self):
        pass


class SimEvent:
    def __init__(self):
        self._f = False

    def is_set(self):
        _cur().stall('is_set')
        return self._f

    def set(self):
        self._f = True
        _cur().log('event set')
        _cur().stall('set')

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        return _cur().wait_until(lambda: self._f, timeout)


class SimMpLock:
    def __init__(self):
        self._owner = None
        self._n = 0

    def acquire(self, block=True, timeout=None):
        w = _cur()
        me = w.current
        if self._owner is me and me is not None:
            self._n += 1
            return True
        if self._owner is not None:
            if not block:
                return False
            if not w.wait_until(lambda: self._owner is None, timeout):
                return False
        self._owner = me or 'main'
        self._n = 1
        w.stall('lock')
        return True

    def release(self):
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimValue:
    def __init__(self, typecode, value=0, lock=True):
        self._v = value
        self._lock = SimMpLock()

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        self._v = v

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self


class SimQueue:
    def __init__(self, maxsize=0):
        self._items = []

    def put(self, x, block=True, timeout=None):
        w = _cur()
        w.stall('put')
        delay = w.queue_delay()
        # a multiprocessing queue hands items to a feeder thread: delivery is later
        # (the process ends only after that, and takes the item with it if terminated)
        t = w.current
        pend = t.__dict__.setdefault('undelivered', []) if t is not None else []
        pend.append(x)

        def deliver():
            pend.remove(x)
            if t is None or not t.killed:
                self._items.append(x)
        w.at(delay, deliver)
        w.log('queue put, delivered after %.3f' % delay)

    def put_nowait(self, x):
        self.put(x)

    def get(self, block=True, timeout=None):
        import queue
        w = _cur()
        if not block:
            timeout = 0
        if not w.wait_until(lambda: bool(self._items), timeout):
            raise queue.Empty()
        return self._items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._items

    def qsize(self):
        return len(self._items)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


def install(mp, cur):
    global _cur
    _cur = cur
    mp.Process = SimProcess
    mp.Event = SimEvent
    mp.Lock = SimMpLock
    mp.RLock = SimMpLock
    mp.Value = SimValue
    mp.Queue = SimQueue
    mp.SimpleQueue = SimQueue
    mp.cpu_count = lambda: _cur().cpus if _cur() else 1
    mp.get_context = lambda method=None: mp
