"""Loads the code under test fresh for every run, with every source of
nondeterminism (clock, sleep, randomness, processes, locks, sockets) behind
the simulator.  Importing this module patches the process; it is only meant
for simulator worker processes.
"""
import decimal
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import os
import random
import socket
import sys
import threading
import time

sys.dont_write_bytecode = True
for _k in list(os.environ):
    if _k.lower().endswith('_proxy'):
        del os.environ[_k]
os.environ['NETRC'] = '/dev/null'

import requests  # noqa: E402
import requests.sessions  # noqa: E402
import urllib3.connectionpool as _cp  # noqa: E402
import coincurve.utils as _ccu  # noqa: E402
import multiprocessing as _mp  # noqa: E402

from . import core  # noqa: E402
from . import simmp  # noqa: E402

REPO = os.path.realpath(os.environ.get('BIT_REPO', '/repo'))
PREFIX = os.path.join(REPO, 'bit') + os.sep

REAL = {
    'time': time.time, 'monotonic': time.monotonic, 'perf_counter': time.perf_counter, 'sleep': time.sleep,
    'time_ns': time.time_ns, 'monotonic_ns': time.monotonic_ns, 'urandom': os.urandom,
    'Lock': threading.Lock, 'RLock': threading.RLock, 'make_request': _cp.HTTPConnectionPool._make_request,
    'connect': socket.socket.connect, 'getaddrinfo': socket.getaddrinfo,
}

CUR = None          # current World


def cur():
    return CUR


def _time():
    return CUR.wall if CUR else REAL['time']()


def _mono():
    return CUR.mono if CUR else REAL['monotonic']()


def _perf():
    return CUR.mono if CUR else REAL['perf_counter']()


def _sleep(s):
    if CUR:
        CUR.sleep(s)
    else:
        REAL['sleep'](s)


def _urandom(n):
    if CUR:
        if CUR.entropy_hook:
            got = CUR.entropy_hook(n)
            if got is not None:
                return got
        return CUR.entropy.randbytes(n) if n else b''
    return REAL['urandom'](n)


def _make_request(self, conn, method, url, body=None, headers=None, retries=None, timeout=None, chunked=False,
                  response_conn=None, preload_content=True, decode_content=True, enforce_content_length=True):
    if CUR is None:
        raise core.HarnessError('network access outside a run')
    return CUR.net.make_request(self, conn, method, url, body, headers, self._get_timeout(timeout), response_conn, retries)


def _connect(self, addr, *a):
    if CUR is not None and self.family in (socket.AF_INET, socket.AF_INET6):
        CUR.net.escaped.append(repr(addr))
        CUR.log('raw socket connect', addr)
        raise ConnectionRefusedError(111, 'Connection refused')
    return REAL['connect'](self, addr, *a)


def _getaddrinfo(*a, **k):
    if CUR is not None:
        CUR.net.escaped.append(repr(a[:2]))
        CUR.log('raw name lookup', a[:2])
        raise socket.gaierror(-3, 'Temporary failure in name resolution')
    return REAL['getaddrinfo'](*a, **k)


def _lock():
    return core.SimLock(cur) if CUR else REAL['Lock']()


def _rlock():
    return core.SimRLock(cur) if CUR else REAL['RLock']()


time.time = _time
time.monotonic = _mono
time.perf_counter = _perf
time.sleep = _sleep
time.time_ns = lambda: int(_time() * 10 ** 9)
time.monotonic_ns = lambda: int(_mono() * 10 ** 9)
os.urandom = _urandom
random._urandom = _urandom
_ccu.urandom = _urandom
_cp.HTTPConnectionPool._make_request = _make_request
socket.socket.connect = _connect
socket.getaddrinfo = _getaddrinfo
simmp.install(_mp, cur)
# the machine's own settings are part of the world
for _n in list(os.environ):
    if _n.upper() in ('REQUESTS_CA_BUNDLE', 'CURL_CA_BUNDLE', 'HTTP_PROXY', 'HTTPS_PROXY', 'ALL_PROXY', 'NO_PROXY'):
        del os.environ[_n]
os.environ['NETRC'] = os.devnull


class SimRandom(random.Random):
    """The module-level generator, optionally with adversarial draws."""

    mode = 0
    last = 0

    def getrandbits(self, k):
        v = super().getrandbits(k)
        if self.mode == 0 or k <= 0 or super().random() > 0.95:
            return v
        if self.mode == 1:
            return 0
        if self.mode == 2:
            return (1 << k) - 1
        if self.mode == 3:
            self.last ^= 1
            return ((1 << k) - 1) * self.last
        return v & -v if v else 0


RAND = SimRandom(1)
for _n in ('seed', 'random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample', 'shuffle', 'choices', 'getrandbits',
           'randbytes', 'gauss', 'normalvariate', 'setstate', 'getstate'):
    setattr(random, _n, getattr(RAND, _n))


class _Quiet(logging.Handler):
    def emit(self, record):
        pass


logging.getLogger().addHandler(_Quiet())
logging.getLogger().setLevel(logging.ERROR)
logging.raiseExceptions = False

_code = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        c = _code.get(self.path)
        if c is None:
            with open(self.path, 'rb') as f:
                c = _code[self.path] = compile(f.read(), self.path, 'exec', dont_inherit=True)
        return c


_spec_cache = {}


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'bit' and not name.startswith('bit.'):
            return None
        got = _spec_cache.get(name)
        if got is None:
            base = os.path.join(REPO, *name.split('.'))
            if os.path.isfile(os.path.join(base, '__init__.py')):
                got = (os.path.join(base, '__init__.py'), [base])
            elif os.path.isfile(base + '.py'):
                got = (base + '.py', None)
            else:
                return None
            _spec_cache[name] = got
        p, sub = got
        return importlib.util.spec_from_file_location(name, p, loader=_Loader(name, p), submodule_search_locations=sub)


sys.meta_path.insert(0, _Finder())


def fresh_bit():
    """A newly started interpreter's worth of `bit` (caches, globals reset)."""
    for m in [m for m in sys.modules if m == 'bit' or m.startswith('bit.')]:
        del sys.modules[m]
    old = (threading.Lock, threading.RLock)
    threading.Lock, threading.RLock = _lock, _rlock
    try:
        return importlib.import_module('bit')
    finally:
        threading.Lock, threading.RLock = old


class Run:
    """Context of one simulated execution."""

    def __init__(self, choices, known=()):
        self.choices = choices
        self.known = known

    def __enter__(self):
        global CUR
        from .net import Network
        w = core.World(self.choices, PREFIX, self.known)
        w.entropy = random.Random(choices_seed(self.choices))
        w.net = Network(w)
        CUR = w
        RAND.mode = RAND.last = 0
        RAND.seed(choices_seed(self.choices) ^ 0x5EED)
        w.rand_mode = lambda m: setattr(RAND, 'mode', m)
        decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN))
        decimal.DefaultContext.prec = 28
        w.bit = fresh_bit()
        w.fresh = self.restart
        os.environ.pop('REQUESTS_CA_BUNDLE', None)
        self.w = w
        return w

    def restart(self):
        """Process restart: module state is gone, the world is not."""
        self.w.restart()
        decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN))
        self.w.bit = fresh_bit()
        return self.w.bit

    def __exit__(self, *a):
        global CUR
        self.w.shutdown()
        CUR = None
        return False


def choices_seed(ch):
    # drawn as a choice so that a replayed list fixes it too
    return ch.below(1 << 30)
