"""C06 exact amounts, C07 exchange rates, C08 fees, C16 bounded waiting."""
import re
from decimal import Decimal
from fractions import Fraction

from . import btc, net as N, models
from .common import (Plan, PeerFault, draw_fault, populate, draw_secret, attempt, api_fn, check_query, ALL_KINDS, expect_unspents,
                     norm_unspents)
from .models import FIAT, PRECISION, floors
from .sc_net import judge_broadcast
from .sc_query import EDGES
from .wallets import Wallet, fund, other_address, sign_p2pkh

RATE_SERVICES = ('bitpay', 'blockchain_rates')
PLAIN = re.compile(r'^[0-9]+(\.[0-9]+)?$')
UNITS = {'satoshi': 1, 'ubtc': 100, 'mbtc': 10 ** 5, 'btc': 10 ** 8}
MAXSAT = 21 * 10 ** 14
MAX_RATE_WAIT = 60


def frac(x):
    return Fraction(Decimal(str(x)))


def delivered(reqs):
    """Quotes that reached the client during the current operation."""
    return [q for r in reqs if r.fault in (None, 'slow') and not r.late for q in r.quotes]


def draw_plain_amount(w):
    c = w.c
    k = c.below(7)
    if k == 0:
        return 1
    if k == 1:
        return c.below(10 ** 6)
    if k == 2:
        return '%d.%02d' % (c.below(10 ** 5), c.below(100))
    if k == 3:
        return c.below(10 ** 7) / 100
    if k == 4:
        return Decimal(c.below(10 ** 8)) / 1000
    if k == 5:
        return 0
    return '%d.%06d' % (c.below(100), c.below(10 ** 6))


def to_sat_ok(got, unit, amount):
    return type(got) is int and got in floors(unit * frac(amount))


def from_sat_ok(got, unit, sat, prec):
    if not isinstance(got, str) or not PLAIN.match(got):
        return False
    v = Fraction(got) * 10 ** prec
    return v.denominator == 1 and int(v) in floors(Fraction(sat) / unit * 10 ** prec)


# -- C07 ----------------------------------------------------------------------
class Fetch:
    def __init__(self, mono, wall):
        self.mono, self.wall = mono, wall


def draw_rate_plan(w, services):
    c = w.c
    faults = {}
    how = c.weighted([('none', 4), ('some', 5), ('all', 2)])
    for s in services:
        if how == 'all' or (how == 'some' and c.chance(1, 2)):
            faults[s] = draw_fault(w)
    return Plan(w, faults)


def pass_time(w, ttl):
    c = w.c
    k = c.below(4)
    if k < 3:
        d = c.pick([ttl / 3 + 0.011, ttl - 0.4 if ttl > 1 else 0.3, ttl + 0.7, ttl * 2 + 0.3, 0.013, 3600.5])
        w.sleep(max(0.001, d))
        w.probe('time_passes')
    else:
        d = c.pick([-ttl / 2 - 0.007, ttl / 2 + 0.007, -3600.0, 3600.0, -ttl - 5.003, -86400.0 * 30, 86400.0 * 365, ttl + 2.009])
        w.jump_wall(d)


def run_c07(w):
    c = w.c
    rates = w.net.rates = models.Rates(w)
    rt = w.bit.network.rates
    ttl = 60
    curs = [c.pick(FIAT) for _ in range(1 + c.below(3))]
    last = {}                  # currency -> Fetch of the cached path
    got_quotes = []            # every delivered quote
    draw_rate_plan(w, RATE_SERVICES)
    for _ in range(4 + c.below(14)):
        k = c.weighted([('to', 5), ('from', 3), ('time', 5), ('faults', 3), ('to_now', 2), ('from_now', 1), ('ttl', 1), ('restart', 1)])
        if k == 'time':
            pass_time(w, ttl)
            continue
        if k == 'faults':
            draw_rate_plan(w, RATE_SERVICES)
            continue
        if k == 'ttl':
            ttl = c.pick([60, 5, 0, 600, 1, 0.5])
            attempt(w, 'set_rate_cache_time', lambda: w.bit.set_rate_cache_time(ttl))
            continue
        if k == 'restart':
            if not c.chance(1, 3):
                continue
            w.fresh()
            w.fault('restart')
            rt = w.bit.network.rates
            ttl, last = 60, {}
            continue
        cur = c.pick(curs)
        m0, w0 = w.mono, w.wall
        amount = draw_plain_amount(w)
        sat = c.pick([100000, 1, MAXSAT, 0]) if c.chance(1, 2) else c.below(10 ** 10)
        if k == 'to':
            out = attempt(w, 'to.cached', lambda: rt.currency_to_satoshi_cached(amount, cur))
        elif k == 'from':
            out = attempt(w, 'from.cached', lambda: rt.satoshi_to_currency_cached(sat, cur))
        elif k == 'to_now':
            out = attempt(w, 'to', lambda: rt.currency_to_satoshi(amount, cur))
        else:
            out = attempt(w, 'from', lambda: rt.satoshi_to_currency(sat, cur))
        cached = k in ('to', 'from')
        what = '%s %s %s' % (k, cur, amount if k.startswith('to') else sat)
        reqs = w.net.requests
        new = delivered(reqs)
        got_quotes += new
        e = last.get(cur)
        for r in reqs:
            if r.service not in RATE_SERVICES:
                w.violation('stray_request', '%s contacted %s' % (what, r.service or r.host))
            elif r.arg != cur:
                w.violation('wrong_currency', '%s asked for the rate of %s' % (what, r.arg))
        if cached and e is not None and m0 - e.mono < ttl and 0 <= w0 - e.wall < ttl:
            w.probe('fresh')
            if reqs:
                w.violation('needless_request', '%s made a request %.1f s after the last successful one (cache time %s)'
                            % (what, m0 - e.mono, ttl))
        if out.kind == 'raise':
            if type(out.value) is not ConnectionError:
                w.violation('leaked_exception', '%s raised %s: %s' % (what, type(out.value).__name__, out.value))
                continue
            bad = {r.service for r in reqs if r.fault}
            if set(RATE_SERVICES) - bad:
                w.violation('failover_missed', '%s raised ConnectionError although %s works' % (what, sorted(set(RATE_SERVICES) - bad)))
            w.probe('all_failed')
            continue
        if any(r.fault for r in reqs):
            w.probe('failed_over')
        if not cached:
            cand = [q for q in new if q.key == cur]
        else:
            cand = [q for q in got_quotes if q.key == cur and (q in new or m0 - q.mono <= ttl or 0 <= w0 - q.wall <= ttl)]
        if k.startswith('to'):
            ok = any(to_sat_ok(out.value, q.unit, amount) for q in cand)
        else:
            ok = any(from_sat_ok(out.value, q.unit, sat, PRECISION[cur]) for q in cand)
        if not ok:
            old = [q for q in got_quotes if q.key == cur and q not in cand]
            if k.startswith('to'):
                stale = [q for q in old if to_sat_ok(out.value, q.unit, amount)]
            else:
                stale = [q for q in old if from_sat_ok(out.value, q.unit, sat, PRECISION[cur])]
            w.violation('stale_rate' if stale else 'wrong_rate', '%s returned %r; acceptable quotes (satoshi per unit) %s%s' % (
                what, out.value, [float(q.unit) for q in cand[-4:]], '; it matches a quote %.1f s old' % (m0 - stale[-1].mono) if stale else ''))
        if cached:
            if new:
                last[cur] = Fetch(m0, w0)
                w.probe('fetched')
            else:
                w.probe('cached')


# -- C08 ----------------------------------------------------------------------
def run_c08(w):
    c = w.c
    fees = w.net.fees = models.Fees(w, start=5 + c.below(100))
    mod = w.bit.network.fees
    DEFAULT = {True: 72, False: 62}
    ttl = 600
    got = []                      # (quote, asked_for)
    last = {}                     # speed -> Fetch
    draw_rate_plan(w, ('mempool',))
    for _ in range(4 + c.below(14)):
        k = c.weighted([('fee', 8), ('time', 5), ('faults', 4), ('ttl', 1), ('restart', 1)])
        if k == 'time':
            pass_time(w, ttl)
            continue
        if k == 'faults':
            draw_rate_plan(w, ('mempool',))
            continue
        if k == 'ttl':
            ttl = c.pick([600, 5, 0, 60, 3600, 0.5])
            attempt(w, 'set_fee_cache_time', lambda: w.bit.set_fee_cache_time(ttl))
            continue
        if k == 'restart':
            if not c.chance(1, 3):
                continue
            w.fresh()
            w.fault('restart')
            mod = w.bit.network.fees
            ttl, last, got = 600, {}, []
            continue
        fast = c.chance(1, 2)
        if c.chance(1, 6):
            fn = c.pick([mod.get_fee, w.bit.network.get_fee])
            what = 'get_fee(fast=%s)' % fast
            out = attempt(w, what, (lambda: fn()) if fast and c.chance(1, 2) else (lambda: fn(fast=fast)))
            new = [q.unit for q in delivered(w.net.requests) if q.key == fast]
            if out.kind == 'raise':
                if new or not any(r.fault for r in w.net.requests):
                    w.violation('raised', '%s raised %r although the service answered' % (what, out.value))
            elif out.value not in new or type(out.value) is not int:
                w.violation('wrong_fee', '%s returned %r, the service said %s' % (what, out.value, new))
            w.probe('uncached')
            continue
        how = c.below(3)
        m0, w0 = w.mono, w.wall
        fn = mod.get_fee_cached if how else w.bit.network.get_fee_cached
        out = attempt(w, 'fee.%s' % ('fast' if fast else 'hour'), (lambda: fn()) if fast and how == 2 else (lambda: fn(fast=fast)))
        what = 'get_fee_cached(fast=%s)' % fast
        reqs = w.net.requests
        new = delivered(reqs)
        e = last.get(fast)
        for r in reqs:
            if r.service != 'mempool':
                w.violation('stray_request', '%s contacted %s' % (what, r.service or r.host))
        fresh = e is not None and m0 - e.mono < ttl and 0 <= w0 - e.wall < ttl
        known = [q for q, asked in got if q.key == fast]
        near = [q for q in known if m0 - q.mono <= ttl or 0 <= w0 - q.wall <= ttl]
        if out.kind == 'raise':
            w.violation('raised', '%s raised %s: %s' % (what, type(out.value).__name__, out.value))
            continue
        val = out.value
        if type(val) is not int:
            w.violation('wrong_fee', '%s returned %r' % (what, val))
        if fresh:
            w.probe('fresh')
            if reqs:
                w.violation('needless_request', '%s made a request %.1f s after the last successful one' % (what, m0 - e.mono))
        if not reqs and not near:
            w.violation('stale_fee', '%s returned %r without asking the service although no value obtained in the last %s s exists' % (what, val, ttl))
        mine = [q for q in new if q.key == fast]
        own = [q for q, asked in got if q.key == fast and asked == fast]
        if mine:
            good = [q.unit for q in mine]
            w.probe('fetched')
        elif reqs:
            # failed: the last value obtained for this speed or the default
            good = [own[-1].unit] if own else [DEFAULT[fast]]
            if known:
                good.append(known[-1].unit)
            w.probe('fallback_cached' if own else 'fallback_default')
        else:
            good = [q.unit for q in near]
            w.probe('cached')
        if val not in good:
            w.violation('wrong_fee', '%s returned %r, acceptable: %s' % (what, val, good[-4:]))
        if mine:
            last[fast] = Fetch(m0, w0)
        got += [(q, fast) for q in new]


# -- C16 ----------------------------------------------------------------------
STALLS = ['read_timeout', 'stall_body', 'conn_timeout']


def stall(w, T, kinds=STALLS):
    c = w.c
    kind = c.pick(kinds)
    p = {'applied': c.chance(1, 2)}
    if kind == 'stall_body':
        p['frac'] = c.pick([0, 50, 99])
    return PeerFault(kind, c.pick([0, 0, 1, 2]), p)


def check_waits(w, name, T):
    reqs = w.net.requests
    for i, r in enumerate(reqs):
        end = reqs[i + 1].t0 if i + 1 < len(reqs) else w.mono
        lim = MAX_RATE_WAIT if r.service in RATE_SERVICES or r.service == 'mempool' else T
        if end - r.t0 > lim + 0.2:
            w.violation('waited_too_long', '%s waited %.1f s for %s (timeout %s)' % (name, end - r.t0, r.service, T))
        if r.late:
            w.violation('gave_up_early', '%s gave up on %s before the timeout of %s s' % (name, r.service, T))
        if r.fault:
            w.probe('stalled')


def paged_stall(w):
    """A listing of several pages, read from a drawn service that stalls at a
    drawn page while the services before it are out."""
    c = w.c
    net = c.pick(['main', 'test'])
    op = c.pick(['unspent', 'txs'])
    serving = N.SERVES[(op, net)]
    target = c.pick(serving)
    size = c.pick([x for x in EDGES[(op, target)] if x > 24])
    key = btc.RefKey(draw_secret(w), net, True)
    outs = c.pick([1, 50]) if op == 'unspent' else 1
    populate(w, net, key.script, max(1, size // outs), unconf_pct=c.pick([0, 30]), spend_pct=0, outs_per_tx=outs)
    T = 10
    if c.chance(1, 2):
        T = c.pick([3, 1, 30])
        attempt(w, 'set_service_timeout', lambda: w.bit.set_service_timeout(T))
    w.net.max_requests = 400
    faults = {s: (stall(w, T) if c.chance(1, 2) else draw_fault(w)) for s in serving if s != target}
    if c.chance(1, 3):
        faults.pop(c.pick([s for s in serving if s != target]))
    f = stall(w, T)
    f.k = c.pick([1, 2, 0, 3, 5])
    faults[target] = f
    plan = Plan(w, faults)
    check_query(w, net, op, key.address, plan)
    check_waits(w, 'paged.%s.%s' % (op, net), T)
    w.probe('paged')


def run_c16(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    if c.chance(1, 4):
        paged_stall(w)
        return
    wals = {n: Wallet(w, kind=c.pick(['key', 'key_u', 'ms']), net=n) for n in ('main', 'test')}
    for n in wals:
        for a, s in wals[n].addresses:
            populate(w, n, s, c.pick([1, 3, 30]))
    T = 10
    nodes, rpcs = {}, {}
    for step in range(2 + c.below(5)):
        if c.chance(2, 5):
            T = c.pick([3, 1, 10, 0.5, 30, 120])
            attempt(w, 'set_service_timeout', lambda: w.bit.set_service_timeout(T))
        net = c.pick(['main', 'test'])
        wal = wals[net]
        op = c.pick(['read', 'refresh', 'push', 'rate', 'fee', 'history', 'node', 'read', 'get_fee', 'send', 'rpc'])
        if op in ('node', 'rpc') and net not in nodes:
            nodes[net] = ('localhost', 8332 if net == 'main' else 18332)
            w.net.nodes[nodes[net]] = N.Node(net, 'u', 'p', w.net.ledgers[net])
            out = attempt(w, 'connect',
                          lambda: w.bit.network.NetworkAPI.connect_to_node('u', 'p', port=nodes[net][1], testnet=(net == 'test')))
            rpcs[net] = out.value
        # rate and fee lookups have their own fixed limit
        T_op = MAX_RATE_WAIT if op in ('rate', 'fee', 'get_fee') else T
        pool = list(RATE_SERVICES) + ['mempool'] if op in ('rate', 'fee', 'get_fee') else list(N.EXPLORERS)
        if net in nodes:
            pool.append('node:%s:%d' % nodes[net])
        prof = c.weighted([('some', 4), ('all_but_one', 4), ('all', 3), ('none', 2)])
        keep = c.pick(pool)
        faults = {}
        for s in pool:
            if prof == 'none' or (prof == 'all_but_one' and s == keep) or (prof == 'some' and not c.chance(1, 2)):
                continue
            faults[s] = stall(w, T)
        plan = Plan(w, faults)
        slow = c.pick([0.05, 0.5, 0.9, 0.97])
        rate_op = op in ('rate', 'fee', 'get_fee')

        def latency(r):
            if r.service in faults:
                return 0.05
            if r.service in RATE_SERVICES or r.service == 'mempool':
                return 0.05 if slow < 0.9 else 4.0
            return max(0.05, slow * T)

        w.net.latency_fn = latency
        name = '%s.%s' % (op, net)
        m0 = w.mono
        out = None
        if op == 'read':
            q = c.pick(['balance', 'txs', 'tx', 'unspent'])
            arg = c.pick(wal.addresses)[0]
            if q == 'tx':
                led = w.net.ledgers[net]
                arg = led.entries[c.below(len(led.entries))].txid
            name += '.' + q
            if net in nodes:
                out = attempt(w, name, lambda: api_fn(w, q, net)(arg))
            else:
                check_query(w, net, q, arg, plan)
        elif op == 'refresh':
            out = attempt(w, name, wal.obj.get_unspents)
        elif op == 'history':
            out = attempt(w, name, wal.obj.get_transactions)
        elif op == 'rpc':
            # straight to the node, past the failover
            m, args = c.pick([('getblockcount', ()), ('getrawtransaction', ('00' * 32, False)), ('get_unspent', (wal.addresses[0][0],))])
            out = attempt(w, name + '.' + m, lambda: getattr(rpcs[net], m)(*args))
            bad = any(r.fault for r in w.net.requests)
            if out.kind == 'raise' and not bad and m != 'getrawtransaction':
                w.violation('late_reply_unused', '%s.%s raised %r although the node answered in time' % (name, m, out.value))
            if out.kind == 'raise':
                out = None
        elif op == 'send':
            a, _ = other_address(w, net)
            fn = getattr(wal.obj, 'send', wal.obj.create_transaction)
            fee = c.pick([None, 3])
            if fee is None:
                T_op = max(T_op, MAX_RATE_WAIT)
            out = attempt(w, name, lambda: fn([(a, 600, 'satoshi')], fee=fee))
            if out.kind == 'raise' and (isinstance(out.value, ValueError) or type(out.value).__name__ == 'InsufficientFunds'):
                out = None
        elif op in ('push', 'node'):
            ref = btc.RefKey(draw_secret(w), net, True)
            led = w.net.ledgers[net]
            e = led.fund([(60000, ref.script)], led.height - 1)
            h = sign_p2pkh(ref, [(e.txid, 0)], [(40000, other_address(w, net)[1])])
            out = attempt(w, name, lambda: api_fn(w, 'push', net)(h))
            if net not in nodes:
                judge_broadcast(w, net, h, out, name)
        elif op == 'rate':
            cur = c.pick(FIAT)
            fn = c.pick([w.bit.network.currency_to_satoshi_cached, w.bit.network.currency_to_satoshi])
            out = attempt(w, name, lambda: fn(3, cur))
            bad = [r for r in w.net.requests if r.fault or r.late]
            if out.kind == 'raise' and len({r.service for r in bad}) < 2:
                w.violation('failover_missed', '%s raised %r although one rate service answers' % (name, out.value))
        elif op == 'fee':
            out = attempt(w, name, lambda: w.bit.network.get_fee_cached(c.chance(1, 2)))
        else:
            out = attempt(w, name, lambda: w.bit.network.get_fee())
            if out.kind == 'raise' and any(r.fault for r in w.net.requests):
                out = None
        if out is not None and out.kind == 'raise' and type(out.value) is not ConnectionError:
            w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
        check_waits(w, name, T)
        w.net.latency_fn = None


# -- C06 ----------------------------------------------------------------------
def draw_sat(w):
    c = w.c
    k = c.below(6)
    if k == 0:
        return c.below(10 ** 6)
    if k == 1:
        return 10 ** c.below(16) - c.below(2)
    if k == 2:
        return MAXSAT - c.below(10 ** 6)
    if k == 3:
        return c.below(10 ** 9) * 10 ** 5 + 99999
    if k == 4:
        return 10 ** 8 * c.below(21 * 10 ** 6) + c.pick([0, 1, 10, 99999999, 50000000])
    return c.below(10 ** 9) * 2000003 % MAXSAT


def dec_str(num, places):
    """num / 10**places written out."""
    if places == 0:
        return str(num)
    s = str(num).rjust(places + 1, '0')
    return s[:-places] + '.' + s[-places:]


PLACES = {'satoshi': 0, 'ubtc': 2, 'mbtc': 5, 'btc': 8}


def conversions(w, n, where):
    c = w.c
    rt = w.bit.network
    for _ in range(n):
        unit = c.pick(list(UNITS))
        sat = draw_sat(w)
        k = c.below(4)
        if k < 2:
            text = dec_str(sat, PLACES[unit])
            form = c.below(4)
            want = sat
            if form == 1:
                text = text + c.pick(['0', '4', '9', '99', '000001', '9' * 8, '9' * 11]) if '.' in text else text + c.pick(['.0', '.5', '.999', '.' + '9' * 11])
            elif form == 2:
                text = Decimal(text)
            elif form == 3:
                # a float as a user would write it
                f = float(text)
                want = int(frac(f) * UNITS[unit])
                text = f
            fn = rt.currency_to_satoshi if k == 0 else rt.currency_to_satoshi_cached
            try:
                got = fn(text, unit)
            except Exception as e:
                got = e
            w.log('conv', where, k, text, unit, '->', got)
            if type(got) is not int or got != want:
                w.violation('inexact', '%s: %s(%r, %r) gave %r, exactly %d' % (where, fn.__name__, text, unit, got, want))
        else:
            fn = rt.satoshi_to_currency if k == 2 else rt.satoshi_to_currency_cached
            try:
                got = fn(sat, unit)
            except Exception as e:
                got = e
            w.log('conv', where, k, sat, unit, '->', got)
            want = Fraction(sat, UNITS[unit])
            if not isinstance(got, str) or not PLAIN.match(got) or Fraction(got) != want:
                w.violation('inexact', '%s: %s(%d, %r) gave %r' % (where, fn.__name__, sat, unit, got))


def node_amounts(w, net, wal):
    """Reads through a node or explorer; amounts must be exact."""
    c = w.c
    a, script = c.pick(wal.addresses)
    op = c.pick(['unspent', 'balance'])
    svc = None
    try:
        got = api_fn(w, op, net)(a)
    except ConnectionError:
        return
    st = w.net.ledgers[net].view().addr(script)
    if op == 'unspent':
        if norm_unspents(got) != expect_unspents(st, script):
            w.violation('inexact', 'unspents of %s: %s instead of %s' % (a, [u.amount for u in got], [x[2] for x in st.utxos]))
    elif got not in (st.balance, st.received) or type(got) is not int:
        w.violation('inexact', 'balance of %s: %r instead of %d' % (a, got, st.balance))
    w.probe('amounts_read')


def run_c06(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    w.net.max_requests = 4000
    wals = {n: Wallet(w, kind='key', net=n) for n in ('main', 'test')}
    for n in wals:
        led = w.net.ledgers[n]
        for _ in range(1 + c.below(4)):
            led.fund([(max(1, draw_sat(w)), c.pick(wals[n].addresses)[1])], led.height - c.below(9))
    for n in ('main', 'test'):
        if c.chance(2, 3):
            port = 8332 if n == 'main' else 18332
            w.net.nodes[('localhost', port)] = N.Node(n, 'u', 'p', w.net.ledgers[n])
            w.bit.network.NetworkAPI.connect_to_node('u', 'p', port=port, testnet=(n == 'test'))
    conversions(w, 1 + c.below(2), 'start')

    def history(steps, where):
        for _ in range(steps):
            k = c.weighted([('conv', 4), ('node', 4), ('fiat', 2), ('pay', 1), ('push', 1), ('refresh', 1), ('config', 1), ('wallet', 1)])
            n = c.pick(['main', 'test'])
            if k == 'node':
                node_amounts(w, n, wals[n])
            elif k == 'fiat':
                try:
                    w.bit.network.currency_to_satoshi_cached('12.5', c.pick(FIAT))
                    w.bit.network.satoshi_to_currency_cached(10 ** 6, c.pick(FIAT))
                except ConnectionError:
                    pass
            elif k == 'pay':
                wal = Wallet(w, kind='key', net=n)
                a, s = other_address(w, n)
                sat = 600 + draw_sat(w) % (10 ** 14)
                u = c.pick(list(UNITS))
                un = w.bit.network.meta.Unspent(sat + 10 ** 6, 1, wal.ref.script.hex(), btc.sha256(b'%d' % sat).hex(), 0)
                un.set_type('p2pkh')
                h = wal.obj.create_transaction([(a, dec_str(sat, PLACES[u]), u)], fee=1, unspents=[un], message=None)
                tx = btc.Tx.parse(h)
                if tx.vout[0] != (sat, s):
                    w.violation('inexact', 'payment of %d satoshi given in %s pays %d' % (sat, u, tx.vout[0][0]))
                w.probe('paid')
            elif k == 'config':
                bit = w.bit
                fn, v = c.pick([(bit.set_service_timeout, 10), (bit.set_service_timeout, 5), (bit.set_rate_cache_time, 60), (bit.set_rate_cache_time, 0),
                                (bit.set_fee_cache_time, 600), (bit.set_fee_cache_time, 1)])
                fn(v)
                for f in c.pick([[], [bit.network.get_fee_cached], [bit.network.get_fee]]):
                    try:
                        f(c.chance(1, 2))
                    except Exception:
                        pass
                w.probe('config')
            elif k == 'wallet':
                # the rest of the library, as a program uses it between conversions
                wal = Wallet(w, net=n)
                o = wal.obj
                c.pick([lambda: repr(o), lambda: o.address, lambda: o.segwit_address, lambda: wal.key_obj(0).to_pem(),
                        lambda: w.bit.verify_sig(wal.key_obj(0).sign(b'x'), b'x', wal.keys[0].pub), lambda: o == wal.build()])()
                w.probe('wallet_ops')
            elif k == 'push':
                try:
                    api_fn(w, 'push', n)('01000000' + '00' * 40)
                except Exception:
                    pass
            elif k == 'refresh':
                wal = wals[n]
                obj = wal.key_obj(0)
                try:
                    obj.get_unspents()
                except ConnectionError:
                    continue
                want = sum(x[2] for x in wal.coins())
                if obj.balance != want:
                    w.violation('inexact', 'wallet balance %r instead of %d' % (obj.balance, want))
                unit = c.pick(list(UNITS))
                got = obj.balance_as(unit)
                if Fraction(got) != Fraction(want, UNITS[unit]):
                    w.violation('inexact', 'balance_as(%r) gave %r for %d satoshi' % (unit, got, want))
            conversions(w, 1 + c.below(2), where + ' after ' + k)

    if c.chance(2, 3):
        w.op('history')
        if c.chance(1, 2):
            Plan(w, {s: draw_fault(w) for s in N.EXPLORERS + RATE_SERVICES if c.chance(1, 4)})
        history(2 + c.below(6), 'main')
    else:
        w.op('threads')
        w.preempt_lines = 40
        if c.chance(1, 2):
            w.preempt_sites = (c.below(1 << 16), c.pick([20, 60, 8])) if c.chance(1, 2) else (c.below(1 << 16), c.pick([3, 1, 8]), 'stores')
        errs = []

        def body(i):
            def run():
                try:
                    history(1 + c.below(3), 'thread %d' % i)
                except Exception as e:
                    errs.append(e)
            return run

        for i in range(2 + c.below(2)):
            w.spawn('t%d' % i, body(i))
        if not w.run_tasks():
            w.violation('hang', 'threads: %s' % w.hang)
        for e in errs:
            raise e
    conversions(w, 2, 'end')


SCENARIOS = {'C06': run_c06, 'C07': run_c07, 'C08': run_c08, 'C16': run_c16}
