"""C28 an operation does not depend on what the process did before."""
import copy
import decimal
import json
import logging
import os
import re
import socket
import sys
import warnings

import urllib3.connection

from . import btc, models, net as N
from .common import Plan, attempt, draw_fault, draw_secret, populate, api_fn
from .load import RAND
from .sc_net import OWN_CA
from .sc_pay import Payment
from .wallets import Wallet, fund, other_address, unspent_full

KINDS = ('key', 'ms', 'key_u', 'ms_u')


class Tape:
    """A second source of choices that can be played twice; its values are themselves choices of the run."""

    def __init__(self, vals):
        self.vals, self.i = vals, 0
        self.rec = []

    def below(self, n):
        if n <= 1 or self.i >= len(self.vals):
            return 0
        self.i += 1
        return self.vals[self.i - 1] % n

    def chance(self, num, den):
        return num > 0 and (num >= den or self.below(den) >= den - num)


def _borrow():
    from .core import Choices
    for n in ('pick', 'weighted', 'between', 'shuffle', 'subset'):
        setattr(Tape, n, getattr(Choices, n))


_borrow()


class Machine:
    """One process with what a user of the library may hold in it."""

    def __init__(self, w, specs):
        self.w = w
        self.specs = specs              # reference wallets
        self.settings = {}              # documented settings made by the history
        self.wals = []

    def start(self):
        """(Re)creates the wallets in the present process."""
        self.wals = []
        for kind, net, keys, m, as_set, own in self.specs:
            wal = Wallet.__new__(Wallet)
            wal.__dict__.update(copy.copy(self.base[len(self.wals)].__dict__))
            wal.build()
            self.wals.append(wal)

    def apply(self):
        for f in self.settings.values():
            f()


def norm(v):
    """Results of different processes, comparable."""
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if type(v).__name__ == 'Unspent':
        return ('Unspent',) + unspent_full(v)
    if isinstance(v, BaseException):
        return (type(v).__name__, re.sub(r'0x[0-9a-fA-F]{6,}', '0x', str(v)))
    if isinstance(v, dict):
        return sorted((repr(k), norm(x)) for k, x in v.items())
    if v is None or isinstance(v, (str, bytes, int, float, bool)):
        return (type(v).__name__, v)
    if isinstance(v, decimal.Decimal):
        return ('Decimal', str(v))
    return (type(v).__name__, re.sub(r'0x[0-9a-fA-F]{6,}', '0x', repr(v)))


def requests_of(w):
    return [(r.method, r.scheme, r.host, r.port, r.target, r.text(), r.ctimeout, r.rtimeout, r.checks, r.verified, str(r.ca),
             r.headers.get('Authorization'), r.headers.get('Cookie')) for r in w.net.requests]


def ambient():
    """What belongs to the application that uses the library."""
    ctx = decimal.getcontext()
    root = logging.getLogger()
    return {
        'decimal context': (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax, ctx.capitals, ctx.clamp, sorted(str(t) for t, on in ctx.traps.items() if on)),
        'environment': dict(os.environ), 'recursion limit': sys.getrecursionlimit(), 'socket timeout': socket.getdefaulttimeout(),
        'working directory': os.getcwd(), 'logging': (root.level, len(root.handlers), root.manager.disable, sorted(
            (n, l.level, l.disabled) for n, l in root.manager.loggerDict.items() if isinstance(l, logging.Logger) and (l.level or l.disabled))),
        'warning filters': len(warnings.filters), 'switch interval': sys.getswitchinterval(),
        'digit limit': getattr(sys, 'get_int_max_str_digits', int)(), 'umask': _umask(),
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def some_faults(w, services, num, den):
    c = w.c
    if not c.chance(num, den):
        w.net.fault_fn = None
        return
    kind = c.pick([None, None, 'refused', 'read_timeout', 'http_503'])
    Plan(w, {s: draw_fault(w, [kind], 3) if kind else draw_fault(w, kmax=3) for s in services if c.chance(1, 2)})


OPS = [('query', 5), ('refresh', 4), ('create', 5), ('send', 3), ('prepare', 3), ('cosign', 3), ('push', 2), ('convert', 4), ('fee', 2), ('key', 3),
       ('message', 2), ('bad', 3), ('read_tx', 2)]


def operation(w, mc, probe):
    """One drawn operation; what it did, in a comparable form."""
    c = w.c
    bit = w.bit
    wal = c.pick(mc.wals)
    net = wal.net if c.chance(3, 4) else c.pick(['main', 'test'])
    led = w.net.ledgers[net]
    op = c.weighted([x for x in OPS if x[0] in w.theme])
    name = '%s.%s' % (op, wal.kind if op in ('refresh', 'create', 'send', 'prepare', 'cosign') else net)
    nodes = tuple('node:%s:%d' % k for k in w.net.nodes)
    if probe:
        # the caches of rates and fees are documented to survive failures of their services
        some_faults(w, N.EXPLORERS + nodes, 1, 2)
    else:
        some_faults(w, N.EXPLORERS + ('mempool', 'bitpay', 'blockchain_rates') + nodes, 2, 3)
    if op == 'query':
        q = c.pick(w.queries)
        known = [e.txid for e in led.entries]
        arg = (c.pick(known) if known and c.chance(3, 4) else 'ab' * 32) if q == 'tx' else \
            c.pick(c.pick(mc.wals).addresses)[0] if c.chance(4, 5) else other_address(w, net)[0]
        out = attempt(w, name + '.' + q, lambda: api_fn(w, q, net)(arg))
    elif op == 'refresh':
        how = c.pick(['get_unspents', 'get_balance', 'get_transactions'])
        out = attempt(w, name, getattr(wal.obj, how))
    elif op in ('create', 'send', 'prepare', 'cosign'):
        coins = wal.coins()
        total = sum(x[2] for x in coins) or 100000
        p = Payment(w, wal, total // c.pick([2, 3, 20]), fiat=True)
        kw = p.kw()
        o = wal.obj
        how = c.below(3)
        if how == 1:
            kw['unspents'] = wal.unspents_for(coins)
        elif how == 2 and o.unspents and not probe:
            kw['unspents'] = o.unspents
        if op == 'send' and hasattr(o, 'send'):
            if kw.get('unspents') == []:
                del kw['unspents']
            out = attempt(w, name, lambda: o.send(list(p.outs), **kw))
        elif op == 'prepare':
            kw.pop('message_is_hex', None) if p.message is None else None
            if p.is_hex:
                kw.pop('message', None), kw.pop('message_is_hex', None)
            if not wal.is_ms:
                kw['compressed'] = wal.kind == 'key'
            out = attempt(w, name, lambda: wal.cls.prepare_transaction(wal.addresses[0][0], list(p.outs), **kw))
            if out.kind == 'ok' and c.chance(2, 3):
                text = out.value
                out = attempt(w, name + '.sign', lambda: wal.obj.sign_transaction(text))
        else:
            out = attempt(w, name, lambda: o.create_transaction(list(p.outs), **kw))
            if op == 'cosign' and out.kind == 'ok':
                signer = wal.signer(c.below(len(wal.keys))) if wal.is_ms else c.pick(mc.wals).obj
                us = wal.unspents_for(coins) if c.chance(1, 2) else None
                tx = out.value
                out = attempt(w, name + '.sign', lambda: signer.sign_transaction(tx, unspents=us) if us else signer.sign_transaction(tx))
    elif op == 'push':
        raw = c.pick(w.shelf) if w.shelf else '00'
        out = attempt(w, name, lambda: api_fn(w, 'push', net)(raw))
    elif op == 'convert':
        cur = c.pick(['usd', 'eur', 'btc', 'jpy', 'satoshi', 'mbtc', 'nok'])
        f = c.pick(['currency_to_satoshi', 'currency_to_satoshi_cached', 'satoshi_to_currency', 'satoshi_to_currency_cached'])
        amount = c.pick([1, 5, '0.5', 123456789, 0.1, '7.77'])
        amount = int(float(amount) * 1000) if f.startswith('satoshi') else amount
        out = attempt(w, '%s.%s' % (name, f), lambda: getattr(bit.network, f)(amount, cur))
    elif op == 'fee':
        f, fast = c.pick(['get_fee', 'get_fee_cached']), c.chance(1, 2)
        out = attempt(w, name, lambda: getattr(bit.network, f)(fast))
    elif op == 'key':
        cls = c.pick([bit.PrivateKey, bit.PrivateKeyTestnet])
        how = c.below(4)
        k = wal.keys[0]
        sec = k.secret if c.chance(1, 2) else draw_secret(w)
        out = attempt(w, name, lambda: [cls(), cls.from_hex(sec.hex()), cls(btc.RefKey(sec, 'main' if cls is bit.PrivateKey else 'test', c.chance(1, 2)).wif),
                                        cls.from_int(int.from_bytes(sec, 'big'))][how])
        if out.kind == 'ok':
            o = out.value
            out = attempt(w, name + '.show', lambda: [o.address, o.segwit_address, o.to_wif(), o.to_hex(), o.public_key, o.version, o.balance, list(o.unspents), repr(o)])
    elif op == 'message':
        key = wal.key_obj(0)
        data = b'm%d' % c.below(5)
        sig = attempt(w, name, lambda: key.sign(data)).value
        w.sigs = (w.sigs + [(sig, data)])[-5:]
        sig, data = c.pick(w.sigs)
        said = c.pick([data, data + b'x', b'm1'])
        out = attempt(w, name + '.verify', lambda: [sig, key.verify(sig, said), bit.verify_sig(sig, said, key.public_key)])
    elif op == 'read_tx':
        raw = c.pick(w.shelf) if w.shelf else '00'
        raw = raw if c.chance(2, 3) else raw[:-2 * c.below(30)] or '00'
        out = attempt(w, name, lambda: [bit.transaction.calc_txid(raw), bit.transaction.deserialize(raw).to_hex()])
    else:
        bad = c.pick(['wif', 'address', 'currency', 'funds', 'keys', 'network', 'amount'])
        o = wal.obj
        us = wal.unspents_for(wal.coins())[:2]
        a = other_address(w, wal.net)[0]
        foreign = other_address(w, 'test' if wal.net == 'main' else 'main')[0]
        out = attempt(w, name + '.' + bad, {
            'wif': lambda: bit.wif_to_key('5' + 'K' * 50), 'address': lambda: o.create_transaction([(a[:-1] + 'l', 5000, 'satoshi')], unspents=us),
            'currency': lambda: o.create_transaction([(a, 5000, 'xyz')], unspents=us), 'funds': lambda: o.create_transaction([(a, 10 ** 15, 'satoshi')], unspents=us, fee=1),
            'keys': lambda: (bit.MultiSig if wal.net == 'main' else bit.MultiSigTestnet)(wal.key_obj(0), [], 1),
            'network': lambda: o.create_transaction([(foreign, 5000, 'satoshi')], unspents=us, fee=1),
            'amount': lambda: o.create_transaction([(a, 'much', 'btc')], unspents=us, fee=1)}[bad])
    if out.kind == 'ok' and isinstance(out.value, str) and len(out.value) > 120 and re.match('^[0-9a-f]+$', out.value):
        w.shelf = (w.shelf + [out.value])[-4:]
    w.net.fault_fn = None
    w.probe(('probe_' if probe else 'before_') + op)
    return name, out


class Snapshot:
    def __init__(self, w):
        self.ledgers = {n: copy.deepcopy(l.__dict__) for n, l in w.net.ledgers.items()}
        self.net = (w.net.total, dict(w.net.lag), dict(w.net.quirks))
        self.rates = (w.net.rates.n, list(w.net.rates.quotes))
        self.fees = (w.net.fees.n, list(w.net.fees.quotes))
        self.clock = (w.mono, w.skew)
        self.rand = (w.entropy.getstate(), RAND.getstate(), RAND.last)
        self.shelf = list(w.shelf), list(w.sigs)
        self.addr = getattr(w, '_addr_n', 0)
        self.calls = {k: list(n.calls) for k, n in w.net.nodes.items()}

    def restore(self, w):
        for n, l in w.net.ledgers.items():
            l.__dict__.clear()
            l.__dict__.update(copy.deepcopy(self.ledgers[n]))
        w.net.total, lag, quirks = self.net
        w.net.lag, w.net.quirks = dict(lag), dict(quirks)
        w.net.rates.n, w.net.rates.quotes = self.rates[0], list(self.rates[1])
        w.net.fees.n, w.net.fees.quotes = self.fees[0], list(self.fees[1])
        w.mono, w.skew = self.clock
        w.entropy.setstate(self.rand[0])
        RAND.setstate(self.rand[1])
        RAND.last = self.rand[2]
        w.shelf, w.sigs = list(self.shelf[0]), list(self.shelf[1])
        w._addr_n = self.addr
        for k, n in w.net.nodes.items():
            n.calls = list(self.calls[k])
        w.net.begin_op()


def change_setting(w, mc):
    c = w.c
    bit = w.bit
    k = c.pick(['timeout', 'rate_cache', 'fee_cache', 'node', 'node'])
    if k == 'timeout':
        t = c.pick([3, 1, 30, 10])
        f = lambda: w.bit.network.services.set_service_timeout(t)
    elif k == 'rate_cache':
        t = c.pick([0, 30, 600])
        f = lambda: w.bit.set_rate_cache_time(t) if hasattr(w.bit, 'set_rate_cache_time') else w.bit.network.rates.set_rate_cache_time(t)
    elif k == 'fee_cache':
        t = c.pick([0, 30, 600])
        f = lambda: w.bit.network.fees.set_fee_cache_time(t)
    else:
        net = c.pick(['main', 'test'])
        host, port = c.pick(['localhost', 'node.example']), 8332 if net == 'main' else 18332
        if (host, port) not in w.net.nodes:
            w.net.nodes[(host, port)] = N.Node(net, 'user', 'pw' + host, w.net.ledgers[net], c.pick([None, OWN_CA]))
        pw = 'bad' if c.chance(1, 4) else 'pw' + host
        k = 'node.' + net
        https = (w.net.nodes[(host, port)].ca or True) if c.chance(1, 2) else False
        f = lambda: w.bit.network.NetworkAPI.connect_to_node('user', pw, host=host, port=port, testnet=net == 'test', use_https=https)
        w.probe('node')
    mc.settings.pop(k, None)
    mc.settings[k] = f
    attempt(w, 'set.' + k, f)


def probes(w, mc, tape):
    """The operations judged, each with the requests it made."""
    real, w.c = w.c, Tape(tape)
    got = []
    try:
        n = 1 + w.c.below(4)
        for wal in mc.wals:
            # afterwards a wallet holds the same in either process
            out = attempt(w, 'sync', lambda: [wal.obj.get_unspents(), wal.obj.get_transactions()])
            got.append(('sync', norm(out.value), requests_of(w)))
            if out.kind == 'raise':
                return got
        for wal, (_, res, _) in zip(mc.wals, got):
            if norm([wal.obj.unspents, wal.obj.transactions]) != res:
                w.violation('shared_state', 'the %s wallet holds %s after other wallets were refreshed, not %s' % (
                    wal.kind, short(norm([wal.obj.unspents, wal.obj.transactions])), short(res)))
        for _ in range(n):
            name, out = operation(w, mc, True)
            got.append((name, (out.kind, norm(out.value)), requests_of(w)))
        for wal in mc.wals:
            got.append(('wallet', norm([wal.obj.balance, wal.obj.unspents, wal.obj.transactions]), []))
    finally:
        w.c = real
    return got


def machines(w):
    c = w.c
    mc = Machine(w, [])
    mc.base = []
    for _ in range(1 + c.below(2)):
        wal = Wallet(w, kind=c.pick(KINDS))
        mc.base.append(wal)
        mc.specs.append((wal.kind, wal.net, wal.keys, None, None, None))
        for a, s in wal.addresses:
            populate(w, wal.net, s, c.below(4))
        fund(w, wal, 1 + c.below(3), lo=100000)
    mc.start()
    return mc


def run_c28(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    w.shelf, w.sigs = [], []
    # most runs keep to a few kinds of operations, so that these meet each other
    w.theme = [x for x, _ in OPS]
    w.queries = ['balance', 'txs', 'unspent', 'tx']
    if c.chance(3, 4):
        w.theme = [c.pick(w.theme) for _ in range(c.between(1, 3))]
        w.queries = [c.pick(w.queries), c.pick(w.queries)]
    # the smallest limit of a service that a wallet runs into
    w.net.quirks['blockstream_cap'] = c.pick([500, 2, 500, 1])
    mc = machines(w)
    before = ambient()
    for _ in range(1 + c.below(10)):
        k = c.below(12)
        if k >= 10:
            change_setting(w, mc)
        elif k == 9:
            w.sleep(c.pick([1, 45, 700]))
            for net in ('main', 'test'):
                w.net.ledgers[net].mine()
        else:
            operation(w, mc, False)
        now = ambient()
        for x in before:
            if now[x] != before[x]:
                w.violation('ambient_changed', 'the %s of the application went from %s to %s' % (x, before[x], now[x]))
    compare(w, mc, before)


def compare(w, mc, before):
    """This process and a newly started one do the same from here on."""
    c = w.c
    # rates and fees held in caches are documented to live this long
    w.sleep(700)
    if c.chance(1, 6):
        # other wallets with the same keys, not used before
        mc.start()
        w.probe('new_wallets')
    tape = [c.below(1 << 20) for _ in range(60)]
    snap = Snapshot(w)
    old = probes(w, mc, tape)
    now = ambient()
    for x in before:
        if now[x] != before[x]:
            w.violation('ambient_changed', 'the %s of the application went from %s to %s' % (x, before[x], now[x]))
    snap.restore(w)
    w.fresh()
    w.fault('restart')
    mc.apply()
    mc.start()
    new = probes(w, mc, tape)
    for (na, ra, qa), (nb, rb, qb) in zip(old, new):
        if ra != rb:
            w.violation('history_result', '%s gives %s after other operations, %s in a new process' % (na, short(ra), short(rb)))
        if qa != qb:
            w.violation('history_requests', '%s asks %s after other operations, %s in a new process' % (na, short_reqs(qa), short_reqs(qb)))
    if len(old) != len(new):
        w.violation('history_result', '%s operations instead of %s' % (len(old), len(new)))
    w.probe('compared', len(old))


def short(x):
    t = repr(x)
    return t if len(t) < 300 else t[:300] + '...'


def short_reqs(q):
    return short([(r[0], r[2], r[4][:60], r[7]) for r in q])


SCENARIOS = {'C28': run_c28}
