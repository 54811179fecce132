"""C17 independent work in threads does not interfere."""
from fractions import Fraction

from . import btc, net as N, models
from .common import Plan, draw_fault, Outcome, attempt
from .core import SimAbort, SimCrash, SimHang, Violation, HarnessError
from .models import FIAT, PRECISION, floors
from .sc_pay import Payment, judge, plainly_enough, fee_rates, pool_of, draw_coins, acceptable_sats
from .sc_rates import UNITS, PLACES, dec_str, frac, RATE_SERVICES
from .wallets import Wallet, other_address, unspent_full

TTL, SLACK = 60, 45


def run(w, name, fn):
    """One operation of the calling thread; returns (Outcome, its requests)."""
    me = w.current
    start = len(w.net.requests)
    w.op(name)
    w.net.views = {}
    w.log('T%d op' % me.tid, name)
    try:
        out = Outcome('ok', fn())
    except (SimAbort, SimCrash, Violation, HarnessError):
        raise
    except SimHang as e:
        raise Violation('hang', '%s: %s' % (name, w.hang or e))
    except Exception as e:
        out = Outcome('raise', e)
    if w.hang:
        raise Violation('hang', '%s: %s' % (name, w.hang))
    w.mark('T%d ->' % me.tid, name, out.kind, type(out.value).__name__)
    w.log('   =>', out)
    return out, [r for r in w.net.requests[start:] if r.task is me]


def explained(w, name, e, reqs):
    """An exception must be a ConnectionError that this thread's own requests
    account for."""
    failed = any(r.fault or (r.status and r.status != 200) for r in reqs)
    if type(e) is ConnectionError and failed:
        w.probe('failed')
        return
    w.violation('leaked_exception', '%s raised %s: %s, own requests %s' % (
        name, type(e).__name__, e, [(r.service, r.fault, r.status) for r in reqs]))


class Worker:
    def __init__(self, w, i, wal):
        self.w, self.i, self.wal = w, i, wal
        self.focus = None
        self.fast = None
        self.rounds = 0
        self.rate_ttl, self.fee_ttl = TTL, 600

    def step(self, local=False):
        w, c, wal = self.w, self.w.c, self.wal
        self.local = local
        if self.rounds and c.chance(1, 2):
            # all threads wake up at the same moments
            w.sleep(self.rounds - w.mono % self.rounds)
        k = c.weighted([('create', 5), ('units', 1), ('prepare', 1)]) if local else c.weighted([('refresh', 3), ('create', 3), ('convert', 4), ('fee', 3), ('units', 1), ('send', 1), ('history', 1), ('prepare', 1),
                        ('pause', 1)])
        if self.focus and not local and c.chance(3, 4):
            k = self.focus
        getattr(self, k)('t%d.%s.%s' % (self.i, wal.kind, k))
        self.settled(k)

    def settled(self, k):
        o = self.wal.obj
        if o.balance != sum(u.amount for u in o.unspents):
            self.w.violation('wallet', 'after %s: balance %s, unspents %s' % (k, o.balance, sum(u.amount for u in o.unspents)))
        for u in o.unspents:
            if bytes.fromhex(u.script) not in self.wal.scripts:
                self.w.violation('wallet', 'after %s the wallet of thread %d holds a coin of another wallet' % (k, self.i))

    def pause(self, name):
        self.w.sleep(self.w.c.pick([0.1, 5, 61, 700]))

    def expected(self):
        return sorted(unspent_full(u) for u in self.wal.unspents_for(self.wal.coins()))

    def refresh(self, name):
        w, o = self.w, self.wal.obj
        want = self.expected()
        before = self.wal.state()
        out, reqs = run(w, name, o.get_unspents)
        if out.kind == 'raise':
            explained(w, name, out.value, reqs)
            if self.wal.state() != before:
                w.violation('wallet', '%s failed and changed the wallet' % name)
            return
        if sorted(unspent_full(u) for u in out.value) != want:
            w.violation('wallet', '%s returned %s instead of %s' % (name, sorted(unspent_full(u) for u in out.value), want))
        w.probe('refreshed')

    def history(self, name):
        w, o = self.w, self.wal.obj
        v = w.net.ledgers[self.wal.net].view()
        want = sorted(t for a, s in self.wal.addresses for t, _ in v.addr(s).txs)
        out, reqs = run(w, name, o.get_transactions)
        if out.kind == 'raise':
            return explained(w, name, out.value, reqs)
        if sorted(out.value) != want:
            w.violation('wallet', '%s returned %s instead of %s' % (name, sorted(out.value), want))

    def pay(self, name, mode):
        w, c, wal = self.w, self.w.c, self.wal
        led = w.net.ledgers[wal.net]
        coins = wal.coins()
        if not coins:
            return
        total = sum(x[2] for x in coins)
        p = Payment(w, wal, total // c.pick([3, 10, 1]), max_outs=2)
        addr, script = wal.addresses[0]
        pool = pool_of(coins)
        supplied = wal.unspents_for(coins) if self.local or c.chance(1, 2) else None
        kw = p.kw()
        if mode == 'prepare':
            if supplied is None:
                pool = {k: v for k, v in pool.items() if v[1] == script}
                if not pool:
                    return
            if wal.kind == 'key_u':
                kw['compressed'] = False
            fn = lambda: wal.obj.sign_transaction(wal.cls.prepare_transaction(addr, list(p.outs), unspents=supplied, **kw))
        else:
            f = wal.obj.send if mode == 'send' else wal.obj.create_transaction
            fn = lambda: f(list(p.outs), unspents=supplied, **kw)
        out, reqs = run(w, name, fn)
        if out.kind == 'raise':
            if type(out.value).__name__ == 'InsufficientFunds':
                w.probe('insufficient')
                if plainly_enough(w, wal, p, pool, fee_rates(w, p)):
                    w.violation('false_insufficient', '%s raised %r although the coins suffice' % (name, out.value))
                return
            if any(0 in acceptable_sats(w, x) for x, _ in p.want):
                return
            return explained(w, name, out.value, reqs)
        hexs = out.value
        if mode == 'send':
            sent = {r.tx_hex for r in reqs if r.kind == 'push'}
            if len(sent) != 1:
                w.violation('altered_tx', '%s broadcast %d transactions' % (name, len(sent)))
            hexs = sent.pop()
            try:
                txid = btc.Tx.parse(hexs).txid
            except btc.BadTx as e:
                w.violation('invalid_tx', '%s: %s' % (name, e))
            if out.value != txid or txid not in led.by_id:
                w.violation('wrong_txid', '%s returned %r for %s' % (name, out.value, txid))
        judge(w, name, hexs, p, set(wal.scripts), pool, fee_rates(w, p), require_unspent=mode != 'send', m=getattr(wal, 'm', 1),
              sizes_known=not (wal.is_ms and mode == 'prepare'))
        w.probe('paid')

    def create(self, name):
        self.pay(name, 'create')

    def send(self, name):
        self.pay(name, 'create' if self.wal.is_ms else 'send')

    def prepare(self, name):
        self.pay(name, 'prepare')

    def convert(self, name):
        w, c = self.w, self.w.c
        rt = w.bit.network
        cur = c.pick(['usd', 'eur', 'jpy']) if c.chance(3, 4) else c.pick(FIAT)
        cached = c.chance(3, 4)
        t0 = w.mono
        if c.chance(1, 2):
            amount = '%d.%02d' % (c.below(5000), c.below(100))
            fn = rt.currency_to_satoshi_cached if cached else rt.currency_to_satoshi
            out, reqs = run(w, name, lambda: fn(amount, cur))
            ok = lambda q: out.value in floors(q.unit * frac(amount))
            what = '%s %s' % (amount, cur)
        else:
            sat = 1 + c.below(10 ** 10)
            fn = rt.satoshi_to_currency_cached if cached else rt.satoshi_to_currency
            out, reqs = run(w, name, lambda: fn(sat, cur))
            scale = 10 ** PRECISION[cur]
            ok = lambda q: frac(out.value) * scale in floors(Fraction(sat) / q.unit * scale)
            what = '%d satoshi in %s' % (sat, cur)
        if out.kind == 'raise':
            return explained(w, name, out.value, reqs)
        try:
            good = [q for q in w.net.rates.quotes if q.key == cur and ok(q)]
        except Exception:
            w.violation('bad_result', '%s: %s gave %r' % (name, what, out.value))
        if not good:
            w.violation('foreign_rate', '%s: %s gave %r, which no quote for %s explains' % (name, what, out.value, cur))
        lim = t0 - (self.rate_ttl if cached else 0) - (SLACK if cached else 0)
        if all(q.mono < lim for q in good):
            w.violation('stale_rate', '%s: %s used a rate quoted %.0f s before' % (name, what, t0 - max(q.mono for q in good)))
        w.probe('converted')

    def fee(self, name):
        w, c = self.w, self.w.c
        fast = c.chance(1, 2) if self.fast is None or c.chance(1, 5) else self.fast
        t0 = w.mono
        out, reqs = run(w, name, lambda: w.bit.network.get_fee_cached(fast))
        if out.kind == 'raise':
            w.violation('leaked_exception', '%s raised %r' % (name, out.value))
        qs = [q for q in w.net.fees.quotes if q.key is fast and q.unit == out.value]
        if not qs and out.value != (72 if fast else 62):
            w.violation('foreign_fee', '%s(fast=%s) gave %r, never quoted for that speed' % (name, fast, out.value))
        # a default is only due if this thread's own request failed
        if not qs and not any(r.fault for r in reqs):
            w.violation('default_fee', '%s(fast=%s) gave the default without a failure' % (name, fast))
        if qs and all(q.mono < t0 - self.fee_ttl - SLACK for q in qs) and not any(r.fault for r in reqs):
            w.violation('stale_fee', '%s gave a fee quoted %.0f s before' % (name, t0 - max(q.mono for q in qs)))
        w.probe('fee')

    def units(self, name):
        w, c = self.w, self.w.c
        u = c.pick(list(UNITS))
        sat = 1 + c.below(21 * 10 ** 14)
        out, _ = run(w, name, lambda: (w.bit.network.currency_to_satoshi_cached(dec_str(sat, PLACES[u]), u),
                                       w.bit.network.satoshi_to_currency_cached(sat, u)))
        if out.kind == 'raise' or out.value[0] != sat or frac(out.value[1]) * UNITS[u] != sat:
            w.violation('inexact', '%s: %d satoshi as %s gave %r' % (name, sat, u, out.value))


def run_c17(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    w.net.max_requests = 4000
    n = c.between(2, 4)
    workers = []
    alike = c.pick([None, None, ('key', 'main'), ('key', 'test'), ('ms', 'main'), ('ms', 'test')])
    for i in range(n):
        kind, net = alike or (c.weighted([('key', 4), ('key_u', 1), ('ms', 2)]), None)
        wal = Wallet(w, kind=kind, net=net, m=1)
        draw_coins(w, wal, 1 + c.below(4))
        workers.append(Worker(w, i, wal))
    faults = {}
    if c.chance(1, 2):
        for s in N.EXPLORERS + RATE_SERVICES + ('mempool',):
            if c.chance(1, 3):
                faults[s] = draw_fault(w, kmax=4, once=c.chance(1, 2))
    Plan(w, faults)
    if c.chance(1, 2):
        w.net.latency_fn = lambda r: c.pick([0.05, 0.05, 1.0, 4.0, 9.0])
    w.preempt_lines = c.pick([40, 12, 200])
    if c.chance(2, 3):
        w.preempt_sites = (c.below(1 << 16), c.pick([60, 20, 150, 8])) if c.chance(1, 2) else (c.below(1 << 16), c.pick([3, 1, 8]), 'stores')
        w.site_stalls = c.pick([4, 0, 8, 16])
    if alike or c.chance(1, 3):
        # all threads mostly do the same
        focus, fast = c.pick(['refresh', 'fee', 'convert', 'create', 'fee']), c.chance(1, 2)
        for x in workers:
            x.focus, x.fast = focus, fast
        w.probe('focus_' + focus)
        if focus == 'fee' and c.chance(1, 2):
            t = c.pick([0, 1, 5])
            attempt(w, 'set_fee_cache_time', lambda: w.bit.set_fee_cache_time(t))
            for x in workers:
                x.fee_ttl = t
        elif focus == 'convert' and c.chance(1, 2):
            t = c.pick([0, 1, 5])
            attempt(w, 'set_rate_cache_time', lambda: w.bit.set_rate_cache_time(t))
            for x in workers:
                x.rate_ttl = t
        if focus in ('fee', 'convert') and c.chance(1, 2):
            r = c.pick([800, 200, 100])
            for x in workers:
                x.rounds = r
            w.probe('rounds')
    local = c.chance(1, 3)
    errs = []

    def body(x):
        def go():
            try:
                for _ in range(1 + c.below(4)):
                    x.step(local)
            except (SimAbort, SimCrash):
                raise
            except BaseException as e:
                errs.append(e)
        return go

    for x in workers:
        w.spawn('t%d' % x.i, body(x))
    done = w.run_tasks()
    for e in errs:
        raise e
    if not done:
        w.violation('hang', 'threads: %s' % w.hang)
    w.probe('switches', w.switches)
    w.net.fault_fn = w.net.latency_fn = None
    for x in workers:
        x.settled('end')


SCENARIOS = {'C17': run_c17}
