"""C30 an interrupted operation stops at once and leaves nothing half done."""
from . import models, net as N
from .common import attempt
from .sc_history import OPS, machines, operation, change_setting, compare, ambient
from .sc_rates import to_sat_ok
from .wallets import unspent_full


class Strike:
    """Interrupts the present operation while it waits for a reply."""

    def __init__(self, w, latest=4):
        c = w.c
        self.w = w
        self.at = c.pick([0, 0, 0, 1, 2, c.below(latest + 1)])
        self.when = c.pick(['before', 'after', 'body'])
        self.exc = c.pick([KeyboardInterrupt, KeyboardInterrupt, SystemExit])('struck')
        self.delay = c.pick([0, 0, 1, 4])
        self.seen = 0
        self.fired = None
        self.later = []

    def fire(self):
        w = self.w
        w.sleep(self.delay)
        w.fault('interrupt_' + self.when)
        w.log('    INTERRUPT', type(self.exc).__name__)
        raise self.exc

    def __call__(self, r, when):
        if self.fired is not None:
            if when == 'before':
                self.later.append(r)
            return
        if when == 'before':
            self.seen += 1
        if self.seen - 1 != self.at or when != ('before' if self.when == 'before' else 'after'):
            return
        self.fired = r
        if self.when == 'body':
            r.on_body = self.fire
        else:
            self.fire()

    def run(self, name, fn):
        """fn() with the interruption; whether it came to that."""
        w = self.w
        got = None
        w.net.on_request = self
        try:
            out = fn()
        except (KeyboardInterrupt, SystemExit) as e:
            got = e
        finally:
            w.net.on_request = None
        if got is not None and got is not self.exc:
            w.violation('other_exit', '%s ended with %r' % (name, got))
        struck = w.faults.get('interrupt_' + self.when, 0) > self.count
        if self.later and struck:
            w.violation('went_on', '%s asked %s (%s) after the interruption' % (name, self.later[0].service or self.later[0].host, self.later[0].kind))
        if struck and got is None:
            w.violation('swallowed', '%s was interrupted while it waited for %s (%s) and went on: %s' % (
                name, self.fired.service or self.fired.host, self.fired.kind, out))
        return struck

    @property
    def count(self):
        return self._count

    def arm(self):
        self._count = self.w.faults.get('interrupt_' + self.when, 0)
        return self


def states(mc):
    return [([unspent_full(u) for u in o.unspents], list(o.transactions), o.balance) for o in (wal.obj for wal in mc.wals)]


def coins_of(us):
    return sorted((u[3], u[4], u[0], u[2]) for u in us)


def library(w, mc):
    """Any operation, interrupted."""
    c = w.c
    old = states(mc)
    owned = [sorted((t, n, val, script.hex()) for t, n, val, script, _ in wal.coins()) for wal in mc.wals]
    s = Strike(w, 8).arm()
    box = []
    if not s.run('an operation', lambda: box.append(operation(w, mc, False)) or box[0]):
        w.net.fault_fn = None
        w.probe('not_reached')
        return
    w.net.fault_fn = None
    w.probe('struck_' + str(s.fired.kind).split(':')[0])
    for wal, want, (us, txs, bal), (us2, txs2, bal2) in zip(mc.wals, owned, old, states(mc)):
        if sum(u[0] for u in us2) != bal2:
            w.violation('balance', 'the balance is %d, the coins held are worth %d after an interruption' % (bal2, sum(u[0] for u in us2)))
        if txs2 != txs:
            w.violation('half_history', 'the %s wallet held %d transactions before an interrupted operation, %d after' % (wal.kind, len(txs), len(txs2)))
        if us2 == us:
            continue
        # a refresh that was completed before
        w.probe('refreshed_before')
        if coins_of(us2) != want:
            w.violation('half_refresh', 'the %s wallet holds %d coins after an interrupted operation, %d before, and owns %d' % (
                wal.kind, len(us2), len(us), len(want)))


def rate(w):
    c = w.c
    cur = c.pick(w.curs)
    rt = w.bit.network.rates
    amount = c.pick([1, 7, 1000])
    f = c.pick([rt.currency_to_satoshi_cached, rt.currency_to_satoshi_cached, rt.currency_to_satoshi])
    s = Strike(w, 1).arm()
    if not s.run('the rate of %s' % cur, lambda: attempt(w, 'rate', lambda: f(amount, cur))):
        w.probe('not_reached')
    else:
        w.probe('struck_rate')
    if c.chance(1, 3):
        w.sleep(c.pick([1, 30, 61]))
    m0 = w.mono
    out = attempt(w, 'rate.again', lambda: rt.currency_to_satoshi_cached(amount, cur))
    if out.kind == 'raise':
        w.violation('broken_after', 'the rate of %s cannot be had after an interruption: %r' % (cur, out.value))
        return
    good = [q for q in w.net.rates.quotes if q.key == cur and m0 - q.mono <= w.rate_ttl + 0.001]
    if not any(to_sat_ok(out.value, q.unit, amount) for q in good):
        w.violation('stale_rate', '%s %s are %r satoshi after an interruption, the rates quoted in the last %s s were %s' % (
            amount, cur, out.value, w.rate_ttl, [float(q.unit) for q in good]))


def fee(w):
    c = w.c
    fast = c.chance(1, 2)
    mod = w.bit.network.fees
    f = c.pick([mod.get_fee_cached, mod.get_fee_cached, mod.get_fee])
    s = Strike(w, 0).arm()
    if not s.run('the fee', lambda: attempt(w, 'fee', lambda: f(fast))):
        w.probe('not_reached')
    else:
        w.probe('struck_fee')
    if c.chance(1, 3):
        w.sleep(c.pick([1, 30, 601]))
    m0 = w.mono
    out = attempt(w, 'fee.again', lambda: mod.get_fee_cached(fast))
    good = [q.unit for q in w.net.fees.quotes if q.key == fast and m0 - q.mono <= w.fee_ttl + 0.001]
    if out.kind == 'raise' or out.value not in good:
        w.violation('stale_fee', 'the fee is %r after an interruption, quoted in the last %s s were %s' % (out.value, w.fee_ttl, good))


def run_c30(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    w.shelf, w.sigs = [], []
    w.theme = ['query', 'refresh', 'create', 'send', 'prepare', 'cosign', 'push']
    w.queries = ['balance', 'txs', 'unspent', 'tx']
    if c.chance(2, 3):
        w.theme = [c.pick(w.theme) for _ in range(c.between(1, 2))]
    w.rate_ttl, w.fee_ttl = 60, 600
    w.curs = [c.pick(models.FIAT), c.pick(models.FIAT)]
    what = c.weighted([('library', 4), ('mixed', 2), ('caches', 2)])
    mc = machines(w)
    before = ambient()
    for _ in range(1 + c.below(6)):
        k = c.weighted([('library', 6 if what != 'caches' else 0), ('rate', 3 if what != 'library' else 0), ('fee', 3 if what != 'library' else 0),
                        ('plain', 2), ('time', 1), ('setting', 1)])
        if k == 'library':
            library(w, mc)
        elif k == 'rate':
            rate(w)
        elif k == 'fee':
            fee(w)
        elif k == 'plain':
            w.net.fault_fn = None
            operation(w, mc, False)
        elif k == 'time':
            w.sleep(c.pick([1, 59, 61, 400, 601]))
            if c.chance(1, 2):
                w.net.ledgers[c.pick(['main', 'test'])].mine()
        elif what == 'library':
            change_setting(w, mc)
        now = ambient()
        for x in before:
            if now[x] != before[x]:
                w.violation('ambient_changed', 'the %s of the application went from %s to %s' % (x, before[x], now[x]))
    w.theme = c.pick([w.theme, [x for x, _ in OPS]])
    compare(w, mc, before)


SCENARIOS = {'C30': run_c30}
