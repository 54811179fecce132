"""Deterministic simulation kernel: choices, clock, event queue, task scheduler.

One run is a pure function of (choice source, code under test, scenario).
Every decision - generated operation, fault, delay, interleaving - is one
integer drawn from `Choices`.  Value 0 is always the simplest alternative, so
a recorded list of integers can be minimised and replayed.
"""
import hashlib
import heapq
import random
import sys
import threading
import dis
import zlib


class Violation(Exception):
    """The property under check is broken."""

    def __init__(self, vclass, msg):
        super().__init__('%s: %s' % (vclass, msg))
        self.vclass = vclass
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself is confused (never reported as a violation)."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimHang(BaseException):
    """The code under test waits for something that never comes."""


class SimAbort(BaseException):
    """Run is over; unwinds parked task threads."""


class Choices:
    """Source of every decision.  Generates from a seed or replays a list."""

    LIMIT = 60000

    def __init__(self, seed=None, replay=None):
        self.replay = list(replay) if replay is not None else None
        self.rng = random.Random(seed) if replay is None else None
        self.rec = []

    def below(self, n):
        """An int in [0, n)."""
        if n <= 1:
            return 0
        if len(self.rec) >= self.LIMIT:
            return 0
        if self.replay is not None:
            i = len(self.rec)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def chance(self, num, den):
        """True with probability num/den; False is the simple alternative."""
        if num <= 0:
            return False
        if num >= den:
            return True
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(item, weight)], the first one is the simplest."""
        total = sum(w for _, w in pairs)
        v = self.below(total)
        for item, w in pairs:
            if v < w:
                return item
            v -= w
        raise HarnessError('weighted')

    def between(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.below(len(seq))))
        return out

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.chance(num, den)]


_STORES = {}


def store_lines(code):
    """Lines of a function that store something other threads may see, and those that follow them."""
    got = _STORES.get(code)
    if got is None:
        lines, at, stores = [], None, set()
        for i in dis.get_instructions(code):
            n = i.positions.lineno if i.positions else None
            if n and n != at:
                at = n
                lines.append(n)
            if i.opname in ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_DEREF', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'DELETE_ATTR') and code.co_name != '__init__':
                stores.add(at)
        got = {n for j, n in enumerate(lines) if n in stores or j and lines[j - 1] in stores}
        _STORES[code] = got
    return got


class Task:
    def __init__(self, tid, name, fn):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.state = 'ready'        # ready, blocked, done
        self.wake_at = None
        self.cond = None
        self.killed = False
        self.stalled_until = None
        self.stalls = 0
        self.result = None
        self.error = None
        self.thread = None
        self.countdown = 0
        self.hits = {}


class World:
    """Clock, event queue, log, statistics and (optionally) task scheduler."""

    EPOCH = 1700000000.0

    def __init__(self, choices, repo_prefix='', known=()):
        self.c = choices
        self.mono = 1000.0          # simulated monotonic seconds
        self.skew = self.EPOCH - 1000.0   # wall = mono + skew; clock jumps change skew
        self.heap = []
        self.seq = 0
        self.h = hashlib.sha256()
        self.log_lines = []
        self.faults = {}
        self.probes = {}
        self.ops = {}
        self.sig = hashlib.sha256()
        self.known = set(known)
        self.known_hits = {}
        self.crashed = False
        self.hang = None
        self.tasks = []
        self.site_hits = {}
        self.current = None
        self.repo_prefix = repo_prefix
        self.switches = 0
        self.sched_sem = threading.Semaphore(0)
        self.preempt_lines = 0      # 0 = no line preemption
        self.preempt_sites = None   # (salt, k): about one source line in k is a switch point
        self.site_stalls = 0        # how often a thread may be held up for a while at such a line
        self.aborting = False
        self.real_sleep_guard = 0
        self.step_limit = 400000
        self.steps = 0
        self.procs = []
        self.cpus = 1
        self.queue_delay = lambda: 0.001
        self.stall = lambda point: None
        self.entropy_hook = None

    # -- time ---------------------------------------------------------------
    @property
    def wall(self):
        return self.mono + self.skew

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.mono + delay, self.seq, fn))

    def _advance_to(self, t):
        """Move the clock, running due events in (time, seq) order."""
        while self.heap and self.heap[0][0] <= t:
            when, _, fn = heapq.heappop(self.heap)
            if when > self.mono:
                self.mono = when
            fn()
        if t > self.mono:
            self.mono = t

    def sleep(self, d):
        """Simulated passing of d seconds for the calling activity."""
        self._check()
        d = max(0.0, float(d))
        t = self.current
        if t is not None and threading.current_thread() is t.thread:
            self._block_task(t, wake_at=self.mono + d)
        else:
            self._advance_to(self.mono + d)

    def jump_wall(self, delta):
        self.skew += delta
        self.fault('clock_jump_%s' % ('back' if delta < 0 else 'forward'))
        self.log('clock jump %+.3f' % delta)

    # -- bookkeeping --------------------------------------------------------
    def log(self, *parts):
        line = '%.6f %s' % (self.mono, ' '.join(str(p) for p in parts))
        self.h.update(line.encode('utf8', 'replace') + b'\n')
        if len(self.log_lines) < 4000:
            self.log_lines.append(line if len(line) < 600 else line[:600] + '...')

    def mark(self, *parts):
        """Contributes to the run's behavioural signature (and the log)."""
        self.sig.update((' '.join(str(p) for p in parts)).encode() + b'\n')
        self.log(*parts)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.sig.update(('F ' + kind).encode() + b'\n')

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def op(self, name):
        self.ops[name] = self.ops.get(name, 0) + 1
        self.sig.update(('O ' + name).encode() + b'\n')

    def violation(self, vclass, msg):
        """Raise unless this exact class is a listed known finding."""
        if vclass in self.known:
            self.known_hits[vclass] = msg
            self.log('KNOWN', vclass, msg)
            return
        self.log('VIOLATION', vclass, msg)
        raise Violation(vclass, msg)

    def require(self, cond, vclass, msg):
        if not cond:
            self.violation(vclass, msg() if callable(msg) else msg)

    def digest(self):
        return self.h.hexdigest()

    def _check(self):
        if self.aborting:
            raise SimAbort()
        if self.crashed:
            raise SimCrash()
        if self.current is not None and self.current.killed:
            raise SimAbort()
        self.steps += 1
        if self.steps > self.step_limit:
            self.hang = self.hang or 'step limit exceeded (%d simulator steps)' % self.step_limit
            raise SimHang(self.hang)

    def crash(self, why=''):
        self.crashed = True
        self.fault('crash')
        self.log('CRASH', why)
        raise SimCrash()

    def restart(self):
        self.crashed = False
        self.log('RESTART')

    # -- tasks --------------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        t.thread = threading.Thread(target=self._task_main, args=(t,), daemon=True)
        t.countdown = self._draw_countdown()
        t.thread.start()
        self.log('spawn', t.tid, name)
        return t

    def _draw_countdown(self):
        if not self.preempt_lines:
            return 1000000
        # biased to short slices now and then so check-then-act windows are hit
        k = self.c.below(4)
        if k == 0:
            return 1000000
        if k == 1:
            return 1 + self.c.below(self.preempt_lines)
        if k == 2:
            return 1 + self.c.below(max(2, self.preempt_lines // 6))
        return 1 + self.c.below(4)

    def _task_main(self, t):
        t.sem.acquire()
        try:
            if self.aborting or t.killed:
                return
            if self.preempt_lines or self.preempt_sites:
                sys.settrace(self._make_tracer(t))
            t.result = t.fn()
        except SimAbort:
            pass
        except BaseException as e:    # recorded; judged by the scenario
            t.error = e
        finally:
            sys.settrace(None)
            t.state = 'done'
            self.sched_sem.release()

    def _make_tracer(self, t):
        prefix = self.repo_prefix

        def local(frame, event, arg):
            if event == 'line':
                t.countdown -= 1
                if t.countdown <= 0:
                    self._preempt(t)
                elif self.preempt_sites is not None and self._site(t, frame):
                    self._preempt(t, True)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(prefix):
                return local
            return None

        return glob

    def _site(self, t, frame):
        """Whether to give up the turn at this line: each run draws a small set of
        lines at which threads like to stop, so that several of them meet there."""
        salt, k = self.preempt_sites[:2]
        key = (frame.f_code.co_name, frame.f_lineno)
        hot = self.site_hits.get(key)
        if hot is None:
            hot = zlib.crc32(('%s:%s:%d' % (salt, key[0], key[1])).encode()) % k == 0
            if hot and len(self.preempt_sites) > 2:
                hot = key[1] in store_lines(frame.f_code)
            self.site_hits[key] = hot
        if not hot:
            return False
        n = t.hits.get(key, 0)
        if n >= 10:
            return False
        t.hits[key] = n + 1
        return self.c.chance(1, 2)

    def _preempt(self, t, site=False):
        if self.current is not t:
            return
        tr = sys.gettrace()
        sys.settrace(None)
        try:
            if t.killed or self.aborting:
                raise SimAbort()
            if site and t.stalls < self.site_stalls and self.c.chance(1, 3):
                # the machine is busy elsewhere: others get through meanwhile
                t.stalls += 1
                t.stalled_until = self.mono + self.c.pick([0.06, 0.5, 2.0])
                self.fault('stall')
            self._switch_out(t)
            t.countdown = self._draw_countdown()
        finally:
            sys.settrace(tr)

    def _switch_out(self, t):
        """Give the token back to the scheduler and wait for the next turn."""
        self.sched_sem.release()
        t.sem.acquire()
        if self.aborting or t.killed:
            raise SimAbort()

    def _block_task(self, t, wake_at=None, cond=None):
        t.state = 'blocked'
        t.wake_at = wake_at
        t.cond = cond
        tr = sys.gettrace()
        sys.settrace(None)
        try:
            self._switch_out(t)
        finally:
            sys.settrace(tr)

    def wait_until(self, cond, timeout=None):
        """Block the calling task until cond() or timeout; True if cond()."""
        self._check()
        t = self.current
        if t is None or threading.current_thread() is not t.thread:
            # outside of tasks: pump events
            end = None if timeout is None else self.mono + timeout
            while not cond():
                if self.heap and (end is None or self.heap[0][0] <= end):
                    self._advance_to(self.heap[0][0])
                elif end is not None:
                    self._advance_to(end)
                    return bool(cond())
                else:
                    self.hang = 'waiting for a condition that nothing can make true'
                    raise SimHang(self.hang)
            return True
        if cond():
            return True
        self._block_task(t, wake_at=None if timeout is None else self.mono + timeout, cond=cond)
        return bool(cond())

    def yield_point(self):
        t = self.current
        if t is not None and threading.current_thread() is t.thread:
            self._block_task(t, wake_at=self.mono)

    def run_tasks(self, max_switches=200000, deadline=None):
        """Run all tasks to completion under seeded scheduling."""
        while True:
            live = [t for t in self.tasks if t.state != 'done']
            if not live:
                break
            if deadline is not None and self.mono > deadline:
                self.hang = self.hang or 'tasks %s still running at simulated deadline' % [t.name for t in live]
                return False
            ready = []
            for t in live:
                if t.stalled_until is not None:
                    if self.mono < t.stalled_until:
                        continue
                    t.stalled_until = None
                if t.state == 'ready':
                    ready.append(t)
                elif t.cond is not None and t.cond():
                    ready.append(t)
                elif t.wake_at is not None and t.wake_at <= self.mono:
                    ready.append(t)
            if not ready:
                nxt = []
                if self.heap:
                    nxt.append(self.heap[0][0])
                for t in live:
                    s = t.stalled_until
                    if t.state == 'ready' and s is not None:
                        nxt.append(s)
                    elif t.cond is not None and s is not None and t.cond():
                        nxt.append(s)
                    elif t.wake_at is not None:
                        nxt.append(max(t.wake_at, s or 0))
                if not nxt:
                    self.hang = 'deadlock: every task is blocked: %s' % [t.name for t in live]
                    return False
                self._advance_to(min(nxt))
                continue
            t = ready[self.c.below(len(ready))] if len(ready) > 1 else ready[0]
            t.state = 'ready'
            t.cond = None
            t.wake_at = None
            self.switches += 1
            self.sig.update(b'T%d' % t.tid)
            if self.switches > max_switches:
                self.hang = 'no completion within %d scheduling steps' % max_switches
                return False
            self.current = t
            t.sem.release()
            self.sched_sem.acquire()
            self.current = None
        return True

    def kill(self, t):
        """The task (simulated process) dies at its current point."""
        t.killed = True
        if t.state != 'done':
            t.sem.release()
            self.sched_sem.acquire()

    def shutdown(self):
        self.aborting = True
        for t in self.tasks:
            if t.state != 'done':
                t.sem.release()
                t.thread.join(5)


class SimLock:
    """Stands in for threading.Lock while simulated code is loaded."""

    reentrant = False

    def __init__(self, world_ref):
        self._w = world_ref
        self._owner = None
        self._count = 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            w = self._w()
            if w is None:
                raise HarnessError('lock contention outside a run')
            if not w.wait_until(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout):
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True
