"""C09 wallet refresh is all or nothing."""
from fractions import Fraction

from . import btc, net as N, models
from .common import (Plan, PeerFault, draw_fault, populate, attempt, answer_of, spread_lags, expect_unspents, ALL_KINDS, legal_kind,
                     unspent_key)
from .sc_rates import UNITS, draw_rate_plan, RATE_SERVICES, from_sat_ok
from .wallets import Wallet, fund, other_address, unspent_full


class CutPlan:
    """From the k-th explorer request of an operation on, every explorer fails
    (the connection is lost in the middle of the operation); before that,
    drawn services fail as usual."""

    def __init__(self, w, k, faults, kind, params, heal=None):
        self.w, self.k, self.faults, self.kind, self.params = w, k, faults, kind, params
        self.heal = heal
        w.net.fault_fn = self.decide

    def decide(self, r):
        idx = sum(1 for q in self.w.net.requests if q.service in N.EXPLORERS) - 1
        if r.service not in N.EXPLORERS:
            f = self.faults.get(r.service)
            return (legal_kind(f.kind, r), dict(f.params)) if f else None
        if self.k is not None and idx >= self.k and not (self.heal is not None and idx >= self.heal):
            kind = legal_kind(self.kind, r)
            p = dict(self.params)
            if kind != self.kind:
                p = {'body': N.HTML}
            if kind == 'redirect_loop' and r.method != 'GET':
                kind, p = 'http_502', {'body': N.HTML}
            return kind, p
        f = self.faults.get(r.service)
        if f is None:
            return None
        f.seen += 1
        if f.seen - 1 < f.k:
            return None
        kind = legal_kind(f.kind, r)
        p = dict(f.params)
        if kind != f.kind:
            p = {'body': N.HTML}
        if kind == 'redirect_loop' and r.method != 'GET':
            kind, p = 'http_502', {'body': N.HTML}
        return kind, p


def draw_cut(w, extra=()):
    c = w.c
    faults = {}
    if c.chance(1, 2):
        for s in N.EXPLORERS:
            if c.chance(1, 3):
                faults[s] = draw_fault(w, kmax=3)
    for s in extra:
        if c.chance(1, 3):
            faults[s] = draw_fault(w)
    k = heal = None
    f = draw_fault(w)
    if c.chance(1, 2):
        k = c.below(6)
        if c.chance(1, 4):
            heal = k + 1 + c.below(4)
    return CutPlan(w, k, faults, f.kind, f.params, heal)


def acceptable(w, wal, op, script, addr):
    """Complete answers for one address by services that were contacted."""
    got = []
    for s in N.SERVES[(op, wal.net)]:
        rs = [r for r in w.net.requests if r.service == s and r.arg in (addr, None)]
        if not any(r.arg == addr for r in w.net.requests if r.service == s):
            continue
        a = answer_of(w, s, wal.net, op, addr)
        if a[0] == 'val':
            got.append(a[1])
    return got


def check_unspents(w, wal, held, name):
    scripts = {s.hex(): a for a, s in wal.addresses}
    for u in held:
        if u.script not in scripts:
            w.violation('foreign_unspent', '%s: wallet holds an output of another script %s' % (name, u.script))
            return
    for a, s in wal.addresses:
        mine = sorted(unspent_key(u) for u in held if u.script == s.hex())
        cands = acceptable(w, wal, 'unspent', s, a)
        if mine not in cands:
            w.violation('incomplete_refresh', '%s: holds %d outputs of %s, services said %s' % (name, len(mine), a, [len(x) for x in cands]))
        for u in held:
            if u.script == s.hex() and bool(u.segwit) != (s == wal.ref.segwit_script):
                w.violation('wrong_type', '%s: output of %s held as type %s' % (name, a, u.type))


def check_history(w, wal, held, name):
    lists = []
    for a, s in wal.addresses:
        lists.append(acceptable(w, wal, 'txs', s, a))
    got = sorted(held)
    combos = [[]]
    for cands in lists:
        combos = [x + y for x in combos for y in cands]
    if not any(got == sorted(x) or got == sorted(set(x)) for x in combos):
        w.violation('incomplete_refresh', '%s: holds %d transactions, complete lists have %s' % (name, len(got), [[len(y) for y in x] for x in lists]))


def run_c09(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    wal = Wallet(w, kind=c.weighted([('key', 5), ('ms', 5), ('key_u', 1), ('ms_u', 1)]))
    net = wal.net
    led = w.net.ledgers[net]
    w.net.quirks['blockchair_404'] = c.chance(1, 2)
    for a, s in wal.addresses:
        populate(w, net, s, c.pick([1, 0, 3, 30]), outs_per_tx=c.pick([1, 1, 2, 3]))
    fund(w, wal, c.below(3), lo=50000)
    huge = c.chance(1, 60)
    if huge:
        # an exchange's wallet, more coins than one page of any service
        populate(w, net, wal.addresses[-1][1], c.pick([45, 21]), unconf_pct=0, outs_per_tx=c.pick([50, 49]), spend_pct=0)
        w.net.max_requests = 400
        w.probe('huge_wallet')
    spread_lags(w, net, 1, 3)
    for _ in range(3 + c.below(6) if not huge else 2):
        op = c.weighted([('unspents', 5), ('txs', 4), ('balance', 3), ('create', 3), ('move', 3), ('send', 2)])
        if op == 'move':
            k = c.below(3)
            if k == 0:
                fund(w, wal, 1, confirmed=c.chance(1, 2))
            elif k == 1:
                led.mine()
            else:
                spread_lags(w, net, 1, 3)
            continue
        draw_cut(w, RATE_SERVICES + ('mempool',))
        before = wal.state()
        name = '%s.%s.%s' % (wal.kind, net, op)
        cur = None
        if op == 'unspents':
            out = attempt(w, name, wal.obj.get_unspents)
        elif op == 'txs':
            out = attempt(w, name, wal.obj.get_transactions)
        elif op == 'balance':
            cur = c.pick(list(UNITS) + ['usd'])
            out = attempt(w, name, lambda: wal.obj.get_balance(cur) if cur != 'satoshi' or c.chance(1, 2) else wal.obj.get_balance())
        else:
            a, _ = other_address(w, net)
            amt = c.pick([1000, 20000, 10 ** 15])
            kw = dict(fee=c.pick([1, 10]), combine=c.chance(1, 2), replace_by_fee=c.chance(1, 3), message=c.pick([None, 'hello']))
            fn = wal.obj.send if op == 'send' and not wal.is_ms else wal.obj.create_transaction
            out = attempt(w, name, lambda: fn([(a, amt, 'satoshi')], **kw))
        asked = [r for r in w.net.requests if r.service in N.EXPLORERS]
        now = wal.state()
        held = wal.obj.unspents
        if now[2] != sum(u.amount for u in held):
            w.violation('balance_mismatch', '%s: balance %s, held unspents sum to %s' % (name, now[2], sum(u.amount for u in held)))
        if out.kind == 'raise':
            e = out.value
            okt = type(e) is ConnectionError or (op in ('create', 'send') and (
                isinstance(e, ValueError) or type(e).__name__ == 'InsufficientFunds'))
            if not okt:
                w.violation('leaked_exception', '%s raised %s: %s' % (name, type(e).__name__, e))
        refreshed = op in ('unspents', 'balance', 'create', 'send') and not (out.kind == 'raise' and now == before)
        if op == 'balance' and cur == 'usd' and out.kind == 'raise':
            refreshed = now != before
        if op == 'txs':
            if now[0] != before[0] or now[2] != before[2]:
                w.violation('state_changed', '%s changed the unspents or balance' % name)
            if out.kind == 'raise':
                w.probe('refresh_failed')
                if now[1] != before[1]:
                    w.violation('half_refresh', '%s failed but left %d instead of %d transactions' % (name, len(now[1]), len(before[1])))
            else:
                check_history(w, wal, wal.obj.transactions, name)
                if sorted(out.value) != sorted(wal.obj.transactions):
                    w.violation('bad_result', '%s returned something else than it holds' % name)
            continue
        if now[1] != before[1]:
            w.violation('state_changed', '%s changed the transaction history' % name)
        pushed = any(r.kind == 'push' for r in w.net.requests)
        if out.kind == 'raise' and now != before:
            # allowed only if the refresh itself was complete (the failure came later: rate, fee, funds, broadcast)
            if op == 'unspents':
                w.violation('half_refresh', '%s failed but changed the wallet: %d -> %d unspents' % (name, len(before[0]), len(now[0])))
            if op == 'balance' and cur in UNITS:
                w.violation('half_refresh', '%s failed but changed the wallet: %d -> %d unspents' % (name, len(before[0]), len(now[0])))
        if out.kind == 'raise':
            w.probe('refresh_failed')
        if out.kind == 'ok' or now[0] != before[0]:
            check_unspents(w, wal, held, name)
            w.probe('refreshed')
        if out.kind == 'ok':
            if op in ('unspents',) and [unspent_full(u) for u in out.value] != now[0]:
                w.violation('bad_result', '%s returned something else than the wallet holds' % name)
            if op == 'balance' and cur in UNITS and (not isinstance(out.value, str) or Fraction(out.value) != Fraction(now[2], UNITS[cur])):
                w.violation('bad_result', '%s(%s) returned %r for %d satoshi' % (name, cur, out.value, now[2]))


SCENARIOS = {'C09': run_c09}
