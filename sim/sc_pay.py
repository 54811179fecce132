"""Payments: C10 valid and exact, C11 coin selection, C14 cold storage, C18 no network, C19 no side effects."""
import json
import math
from fractions import Fraction

from . import btc, net as N, models
from .common import Plan, draw_fault, attempt, draw_amount
from .models import FIAT, floors
from .sc_rates import UNITS, PLACES, dec_str, frac, delivered, RATE_SERVICES
from .wallets import Wallet, fund, other_address, unspent_full

SEQ_FINAL = 0xFFFFFFFF
RBF_MAX = 0xFFFFFFFD


# -- what was asked -----------------------------------------------------------
class Payment:
    """A drawn payment request and what the result must look like."""

    def __init__(self, w, wal, budget, fiat=True, allow_none_fee=True, max_outs=4, coins=None):
        c = w.c
        self.w, self.wal = w, wal
        net = wal.net
        self.outs = []              # as passed to bit
        self.want = []              # [(set of acceptable satoshi or currency marker, script)]
        n = 1 + c.below(max_outs)
        left = max(1000, budget)
        for i in range(n):
            k = c.below(8)
            if k == 0 and wal.ref.segwit_address:
                a, s = wal.ref.segwit_address, wal.ref.segwit_script
            elif k == 1 and self.outs:
                a = self.outs[-1][0]
                s = btc.address_script(a)[1]
            else:
                a, s = other_address(w, net)
            kind = c.below(6)
            if kind == 0:
                sat = 546
            elif kind == 1:
                sat = max(1, left // 2 - c.below(1000))
            elif kind == 2:
                sat = max(1, left - c.below(3000))
            else:
                sat = 1 + c.below(max(1, left))
            unit = c.pick(['satoshi', 'btc', 'mbtc', 'ubtc', 'satoshi', 'fiat' if fiat else 'btc'])
            if unit == 'fiat':
                cur = c.pick(['usd', 'eur', 'jpy', 'krw'])
                amount = '%d.%02d' % (1 + c.below(20), c.below(100))
                self.outs.append((a, amount, cur))
                self.want.append(((cur, amount), s))
            else:
                text = dec_str(sat, PLACES[unit])
                form = c.below(3)
                if form == 1 and unit == 'satoshi':
                    text = sat
                elif form == 2 and sat < 10 ** 12:
                    f = float(text)
                    if int(frac(f) * UNITS[unit]) == sat:
                        text = f
                self.outs.append((a, text, unit))
                self.want.append((sat, s))
                left = max(1000, left - sat)
        self.absolute = c.chance(1, 4)
        self.fee = c.pick([300, 1, 5000, 2, 300, 1, 5000, 2, 1000000, 3000000]) if self.absolute else c.pick([1, 2, 10, 55, 200])
        if allow_none_fee and not self.absolute and c.chance(1, 5):
            self.fee = None
        self.leftover = None
        self.left_script = None
        if c.chance(1, 3):
            self.leftover, self.left_script = other_address(w, net)
            if c.chance(1, 4):
                self.leftover, self.left_script = c.pick(wal.addresses)
        self.combine = not c.chance(1, 2)
        self.message, self.msg_bytes, self.is_hex = draw_message(w)
        self.rbf = c.chance(1, 3)
        if c.chance(1, 6) and all(isinstance(x, int) for x, _ in self.want):
            if coins and not wal.is_ms and c.chance(1, 3):
                self.match(coins)
            else:
                self.exact(budget)

    def match(self, coins):
        """Asks for what some of the coins pay without a change output."""
        c = self.w.c
        self.absolute, self.combine = False, False
        self.fee = c.pick([1, 2, 10])
        sub = [x for x in coins if c.chance(1, 2)] or coins[:1]
        size = sum(VSIZE[self.wal.kind][1 if x[3] == self.wal.ref.segwit_script else 0] for x in sub)
        size += 9 + sum(len(s) + 9 for _, s in self.want) + 89 * ((len(self.msg_bytes) + 79) // 80)
        self.sat(-1, sum(x[2] for x in sub) - self.fee * (size + c.pick([0, 50, 150, 182, 183, -1])) - sum(x for x, _ in self.want[:-1]))

    def exact(self, budget):
        """Leaves a change of (about) nothing when all of `budget` is spent."""
        c = self.w.c
        self.absolute, self.combine = True, True
        if self.fee is None or c.chance(1, 2):
            self.fee = c.pick([300, 1, 5000, 2])
        self.sat(-1, budget - self.fee - sum(x for x, _ in self.want[:-1]) - c.pick([0, 1, 2, 3, 545, 546, 252, 256, -1]))

    def sat(self, i, sat):
        if sat > 0:
            self.want[i] = (sat, self.want[i][1])
            self.outs[i] = (self.outs[i][0], sat, 'satoshi')

    def kw(self):
        d = {'fee': self.fee, 'absolute_fee': self.absolute, 'leftover': self.leftover, 'combine': self.combine, 'message': self.message,
             'message_is_hex': self.is_hex, 'replace_by_fee': self.rbf}
        # what has its default may be left out
        plain = self.w.c.chance(1, 2)
        return {k: v for k, v in d.items() if v is not None and not (plain and DEFAULTS.get(k) is v)}


DEFAULTS = {'absolute_fee': False, 'combine': True, 'message_is_hex': False, 'replace_by_fee': False}


def draw_message(w):
    c = w.c
    if c.chance(1, 2):
        return None, b'', False
    n = c.pick([5, 1, 75, 76, 77, 79, 80, 81, 160, 40, 161, 240])
    k = c.below(4)
    if k == 3:
        # text that a careless program would tidy up
        s = c.pick([' {} ', '{}\n', '\t{}', '{}\0', '\ufeff{}', '0x{}', '{}\r\n'])
        s = s.format('Ab \xdf' * max(1, n // 6))
        return s, s.encode('utf8'), False
    if k == 0:
        b = bytes(97 + (i * 7 + n) % 26 for i in range(n))
        return b.decode(), b, False
    if k == 1:
        b = bytes(w.entropy.getrandbits(8) for _ in range(n))
        return b, b, True
    s = ('h\xe9\u20ac\U0001f600' * n)[:max(1, n // 3)]
    return s, s.encode('utf8'), False


def data_push(script):
    """Bytes of an OP_RETURN <push> script, or None if malformed."""
    if script[:1] != b'\x6a':
        return None
    p = btc.parse_pushes(script[1:])
    if p is None or len(p) != 1:
        return None
    return p[0]


def acceptable_sats(w, want):
    if isinstance(want, int):
        return {want}
    cur, amount = want
    out = set()
    for q in w.net.rates.quotes:
        if q.key == cur:
            out |= floors(q.unit * frac(amount))
    return out


class FeeBounds:
    """Fee the documented size estimate allows for a transaction."""

    @staticmethod
    def low(tx, rate, nmsg):
        slack = 6 + 0.25 * len(tx.vin) + 3 * nmsg + (4 if len(tx.vin) > 252 else 0)
        return math.floor(rate * (tx.vsize - slack))

    @staticmethod
    def high(tx, rate, nmsg, combine, changed, m=1):
        slack = 12 + (4 + 3 * m) * len(tx.vin) + 89 * nmsg + (0 if changed else 45) + (0 if combine or changed else 182)
        return math.ceil(rate * (tx.vsize + slack))


def judge(w, name, hexs, p, owned, pool, rates, change_scripts=None, require_unspent=True, ledger=None, sizes_known=True, m=1):
    """owned: script set of the wallet; pool: outpoint -> value that may be
    used; rates: acceptable fee rates."""
    led = ledger or w.net.ledgers[p.wal.net]
    try:
        tx = led.validate(hexs, require_unspent)
    except btc.BadTx as e:
        w.violation('invalid_tx', '%s: %s' % (name, e))
        return None
    total_in = 0
    for t, n, _, seq in tx.vin:
        val, spk = led.prevout(t, n)
        if spk not in owned or (t, n) not in pool:
            w.violation('foreign_input', '%s spends %s:%d which it was not given' % (name, t, n))
        total_in += val
        given = getattr(p, 'seqs', {}).get((t, n), SEQ_FINAL)
        if p.rbf and seq > RBF_MAX:
            w.violation('rbf', '%s: replace-by-fee requested, sequence is %#x' % (name, seq))
        elif seq != given and not p.rbf:
            w.violation('rbf', '%s: replace-by-fee not requested, sequence is %#x instead of %#x' % (name, seq, given))
        elif p.rbf and given <= RBF_MAX and seq != given:
            w.violation('rbf', '%s: sequence is %#x, the coin was given with %#x' % (name, seq, given))
    k = len(p.want)
    if len(tx.vout) < k:
        w.violation('recipients', '%s has %d outputs for %d recipients' % (name, len(tx.vout), k))
        return tx
    for i, (want, s) in enumerate(p.want):
        val, spk = tx.vout[i]
        if spk != s or val not in acceptable_sats(w, want):
            w.violation('recipients', '%s: output %d pays %d to %s, asked for %s to %s' % (name, i, val, spk.hex(), want, s.hex()))
    change, data = [], []
    for val, spk in tx.vout[k:]:
        if spk[:1] == b'\x6a':
            if val:
                w.violation('burned', '%s puts %d satoshi into a data output' % (name, val))
            data.append(spk)
        else:
            change.append((val, spk))
    if len(change) > 1:
        w.violation('extra_output', '%s has %d outputs beyond the recipients' % (name, len(change)))
    allowed = {p.left_script} if p.left_script else (change_scripts or owned)
    for val, spk in change:
        if spk not in allowed:
            w.violation('change_address', '%s sends the change to %s' % (name, spk.hex()))
        if val <= 0:
            w.violation('change_address', '%s has an empty change output' % name)
    chunks = [data_push(s) for s in data]
    if None in chunks or b''.join(chunks) != p.msg_bytes:
        w.violation('message', '%s stores %s instead of the %d byte message' % (name, [s.hex() for s in data], len(p.msg_bytes)))
    elif not all(chunks):
        w.violation('message', '%s has an empty data output' % name)
    elif any(len(x) > 80 for x in chunks):
        w.violation('message', '%s has a data output of %d bytes' % (name, max(map(len, chunks))))
    fee = total_in - sum(v for v, _ in tx.vout)
    if p.absolute:
        if fee != p.fee:
            w.violation('fee', '%s pays a fee of %d instead of exactly %d' % (name, fee, p.fee))
    elif sizes_known:
        nm = len(data)
        ok = any(FeeBounds.low(tx, r, nm) <= fee <= FeeBounds.high(tx, r, nm, p.combine, bool(change), m) for r in rates)
        if not ok:
            r = sorted(rates)[0]
            w.violation('fee', '%s pays %d for %d vbytes, %d inputs (%.1f/vB), asked for %s: allowed %d..%d' % (
                name, fee, tx.vsize, len(tx.vin), fee / tx.vsize, sorted(rates), FeeBounds.low(tx, r, nm),
                FeeBounds.high(tx, r, nm, p.combine, bool(change), m)))
    if p.combine and len(tx.vin) != len(pool):
        w.violation('combine', '%s uses %d of %d coins although consolidating' % (name, len(tx.vin), len(pool)))
    if not p.combine and change:
        largest = max(led.prevout(t, n)[0] for t, n, _, _ in tx.vin)
        if change[0][0] >= largest + 1000:
            w.violation('superfluous', '%s spends %d coins and returns %d as change, more than the largest of them (%d)' % (
                name, len(tx.vin), change[0][0], largest))
    if change:
        w.probe('change')
    else:
        w.probe('no_change')
    w.probe('inputs_%s' % (len(tx.vin) if len(tx.vin) < 3 else '3+' if len(tx.vin) < 253 else '253+'))
    w.mark('tx', len(tx.vin), len(tx.vout), len(data), p.rbf, p.absolute)
    return tx


VSIZE = {'key': (148, 91), 'key_u': (180, 180)}


def plainly_enough(w, wal, p, pool, rates):
    """True if all coins together clearly cover the request."""
    total = sum(v for v, _ in pool.values())
    target = sum(max(acceptable_sats(w, x) or {10 ** 16}) for x, _ in p.want)
    if p.absolute:
        return total >= target + p.fee
    size = 0
    for v, spk in pool.values():
        if wal.is_ms:
            size += 36 + 4 + 3 + 3 + wal.m * 74 + len(wal.ref.redeem) + 3
        else:
            size += VSIZE[wal.kind][1 if spk == wal.ref.segwit_script else 0]
    size += 45 * (len(p.want) + 1) + 92 * ((len(p.msg_bytes) + 79) // 80) + 20
    return total >= target + max(rates) * (size + 10)


def fee_rates(w, p):
    if p.fee is not None:
        return {p.fee}
    return {72} | {q.unit for q in w.net.fees.quotes if q.key is True}


def pool_of(coins):
    return {(t, n): (val, s) for t, n, val, s, cf in coins}


def draw_coins(w, wal, n):
    """Coins with a mix of sizes, including ones too small to be worth it."""
    c = w.c
    led = w.net.ledgers[wal.net]
    for _ in range(n):
        i = c.below(len(wal.addresses))
        k = c.below(6)
        amt = [100000 + c.below(900000), 1000 + c.below(30000), 10 ** 8 + c.below(10 ** 8), 546 + c.below(500), 1 + c.below(200),
               10 ** 11 + c.below(10 ** 9)][k]
        outs = [(amt, wal.addresses[i][1])]
        if c.chance(1, 25):         # an output far down in a large transaction
            outs = [(777, b'\x51')] * c.pick([255, 256, 300, 252, 511]) + outs
        elif c.chance(1, 5):
            outs.append((amt // 2 + 600, c.pick(wal.addresses)[1]))
        led.fund(outs, led.height - c.below(9) if c.chance(4, 5) else None)


def draw_faults(w, num=1, den=3):
    c = w.c
    faults = {}
    if c.chance(1, 2):
        for s in N.EXPLORERS + RATE_SERVICES + ('mempool',):
            if c.chance(num, den):
                faults[s] = draw_fault(w, kmax=3, applied=True)
    return Plan(w, faults)


# -- C10 ----------------------------------------------------------------------
def run_c10(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    wal = Wallet(w, kind=c.weighted([('key', 4), ('key_u', 1)]))
    net = wal.net
    led = w.net.ledgers[net]
    draw_coins(w, wal, 1 + c.below(6))
    owned = set(wal.scripts)
    big = c.chance(1, 50)       # more inputs or outputs than one byte can count
    if big:
        for i in range(c.pick([251, 253, 270])):
            led.fund([(5000 + 11 * i, wal.addresses[i % len(wal.addresses)][1])], led.height - 5)
    for _ in range(1 + (c.below(4) if not big else 0)):
        coins = wal.coins()
        if c.chance(1, 4) or not coins:
            draw_coins(w, wal, 1 + c.below(3))
            coins = wal.coins()
        pool = pool_of(coins)
        total = sum(x[2] for x in coins)
        supplied = None
        if c.chance(1, 2):
            sub = [x for x in coins if c.chance(3, 4)] or coins[:1]
            supplied = wal.unspents_for(c.shuffle(sub))
            pool = pool_of(sub)
            total = sum(x[2] for x in sub)
        p = Payment(w, wal, c.pick([total, total // 2, total // 10, total * 2, total]), max_outs=c.pick([4, 4, 4, 4, 4, 9, 20]), coins=[x for x in coins if (x[0], x[1]) in pool])
        if supplied is not None and c.chance(1, 5):
            # coins that come with a sequence number of their own
            p.seqs = {}
            for u in supplied:
                if c.chance(1, 2):
                    u.sequence = p.seqs[(u.txid, u.txindex)] = c.pick([0xFFFFFFFE, RBF_MAX, 0xFFFFFFFC, 5, 0])
            w.probe('own_sequence')
        if big and c.chance(1, 2):
            for i in range(c.pick([250, 252, 256])):
                a, s = p.outs[0][0], p.want[0][1]
                p.outs.append((a, 600 + i, 'satoshi'))
                p.want.append((600 + i, s))
            w.probe('many_outputs')
        mode = c.pick(['create', 'send'])
        draw_faults(w)
        w.net.quirks['known_ok'] = c.chance(1, 2)
        name = '%s.%s.%s' % (wal.kind, net, mode)
        w.log('payment', p.outs, p.kw() if not isinstance(p.message, bytes) else sorted(p.kw()))
        fn = wal.obj.send if mode == 'send' else wal.obj.create_transaction
        out = attempt(w, name, lambda: fn(list(p.outs), unspents=supplied, **p.kw()))
        reqs = list(w.net.requests)
        rates = fee_rates(w, p)
        asked_explorer = [r for r in reqs if r.service in N.EXPLORERS and r.kind != 'push']
        pushes = [r for r in reqs if r.kind == 'push']
        if supplied is not None and asked_explorer:
            w.violation('needless_query', '%s asked %s although unspents were supplied' % (name, asked_explorer[0].service))
        if mode == 'create' and pushes:
            w.violation('unasked_broadcast', '%s broadcast a transaction' % name)
        if out.kind == 'raise':
            e = out.value
            tn = type(e).__name__
            if pushes and not (type(e) is ConnectionError):
                w.violation('leaked_exception', '%s raised %r after broadcasting' % (name, e))
            if type(e) is ConnectionError:
                failing = any(r.fault for r in reqs)
                rejected = any(r.status and r.status != 200 for r in pushes)
                if not failing and not rejected:
                    w.violation('false_failure', '%s raised ConnectionError without any failure' % name)
                if any(r.acked for r in pushes):
                    w.violation('false_failure', '%s raised ConnectionError although acknowledged' % name)
                w.probe('unreachable')
            elif tn == 'InsufficientFunds':
                w.probe('insufficient')
                if plainly_enough(w, wal, p, pool, rates):
                    w.violation('false_insufficient', '%s raised %r although the coins suffice' % (name, e))
            elif any(isinstance(x, int) and x == 0 for x, _ in p.want) or any(0 in acceptable_sats(w, x) for x, _ in p.want):
                w.probe('zero_refused')
            else:
                w.violation('leaked_exception', '%s raised %s: %s' % (name, tn, e))
            continue
        if mode == 'create':
            judge(w, name, out.value, p, owned, pool, rates)
            w.probe('created')
            if c.chance(1, 2) and w.net.ledgers[net]:
                try:
                    led.accept(out.value)
                except btc.BadTx as e:
                    w.violation('invalid_tx', '%s: %s' % (name, e))
        else:
            sent = {r.tx_hex for r in pushes}
            if len(sent) != 1:
                w.violation('altered_tx', '%s broadcast %d different transactions' % (name, len(sent)))
                continue
            hexs = sent.pop()
            try:
                txid = btc.Tx.parse(hexs).txid
            except btc.BadTx as e:
                w.violation('invalid_tx', '%s: %s' % (name, e))
                continue
            if out.value != txid:
                w.violation('wrong_txid', '%s returned %r for transaction %s' % (name, out.value, txid))
            if txid not in led.by_id:
                w.violation('false_success', '%s returned although the network does not have the transaction' % name)
                continue
            judge(w, name, hexs, p, owned, pool, rates, require_unspent=False)
            w.probe('sent')


# -- C11 ----------------------------------------------------------------------
class Coin:
    pass


def run_c11(w):
    c = w.c
    mod = w.bit.transaction
    U = w.bit.network.meta.Unspent
    bias = c.below(5)
    w.rand_mode(bias)
    for _ in range(1 + c.below(3)):
        heavy = c.chance(1, 60)
        n = c.pick([1000, 1200, 2100]) if heavy and c.chance(1, 2) else (20 + c.below(20) if heavy else 1 + c.below(11))
        fee = c.pick([1, 5, 2, 20, 100])
        style = c.below(5)
        us = []
        for i in range(n):
            if style == 0:
                a = 10000 + c.below(1000) if n < 100 else 10000 + i
            elif style == 1:
                a = draw_amount(w) if n < 100 else 600 + 3 * i
            elif style == 2:
                a = 50000
            elif style == 3:
                a = (1 << min(i, 40)) * 1000
            else:
                a = 100 + c.below(30000) if n < 100 else 100 + 5 * i
            u = U(a, 6, '76a914%040x88ac' % i, btc.sha256(b'%d' % i).hex(), i & 3)
            u.set_type(c.pick(['p2pkh', 'np2wkh', 'p2pkh-uncompressed']) if n < 100 else ('p2pkh', 'np2wkh')[i & 1])
            us.append(u)
        total = sum(u.amount for u in us)
        out_size = [34] * c.below(3) + [c.pick([32, 34, 43])] + [c.pick([0, 89, 178])] + [c.pick([32, 34])]
        absolute = c.chance(1, 5)
        consolidate = c.chance(1, 3)
        if absolute:
            fee = c.pick([0, 1, 250, 10000]) if False else c.pick([1, 250, 10000])
        min_change = c.pick([0, 0, 546, 10000])
        # targets near subset sums make exact matches likely
        k = c.below(4)
        if k == 0:
            target = c.below(max(1, total))
        elif k == 1:
            sub = [u for u in us if c.chance(1, 2)] if n < 100 else us[::2]
            need = sum(u.amount - (fee * u.vsize if not absolute else 0) for u in sub) - (8 + sum(out_size[:-1]) + 1) * (0 if absolute else fee)
            target = int(max(1, need - c.below(300 * (1 if absolute else fee)) + c.below(20)))
        elif k == 2:
            est = fee if absolute else fee * (sum(u.vsize for u in us) + sum(out_size) + 10)
            target = int(max(1, total - est - min_change + c.below(5) - 2))
        else:
            target = total + c.below(1000)
        given = list(us)
        before = [unspent_full(u) for u in us]
        name = 'select n=%d target=%d fee=%d%s%s min_change=%d' % (n, target, fee, ' absolute' if absolute else '', ' all' if consolidate else '', min_change)
        out = attempt(w, 'select.%s%s' % ('abs' if absolute else 'rate', '.all' if consolidate else ''),
                      lambda: mod.select_coins(target, fee, list(out_size), min_change, absolute_fee=absolute, consolidate=consolidate, unspents=given))
        w.mark(name)
        if given != us or any(x is not y for x, y in zip(given, us)) or [unspent_full(u) for u in us] != before:
            w.violation('mutated', '%s changed its arguments' % name)

        def est(coins, change=True):
            return fee if absolute else fee * math.ceil(sum(u.vsize for u in coins) + len(btc.varint(len(coins))) + sum(out_size) + 1 + 8 + 0.5)

        if out.kind == 'raise':
            if type(out.value).__name__ != 'InsufficientFunds':
                w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, str(out.value)[:200]))
                continue
            w.probe('insufficient')
            if total - target - est(us) - (0 if absolute else 3 * fee) >= min_change:
                w.violation('false_insufficient', '%s: all coins (%d) suffice' % (name, total))
            continue
        try:
            sel, rem = out.value
            sel = list(sel)
        except Exception:
            w.violation('bad_result', '%s returned %r' % (name, out.value))
            continue
        ids = [id(u) for u in sel]
        keys = {(u.txid, u.txindex) for u in us}
        got = [(u.txid, u.txindex) for u in sel]
        if not sel or len(set(got)) != len(got) or not set(got) <= keys:
            w.violation('not_a_subset', '%s selected %d coins, %d distinct, from %d' % (name, len(sel), len(set(got)), n))
        if consolidate and len(sel) != n:
            w.violation('not_all', '%s selected %d of %d' % (name, len(sel), n))
        value = sum(u.amount for u in sel)
        paid = value - target - rem
        if rem < 0 or (rem and rem < min_change):
            w.violation('bad_change', '%s: change %d' % (name, rem))
        if not consolidate and rem >= max(u.amount for u in sel) + min_change + (0 if absolute else 2 * fee):
            w.violation('superfluous', '%s: %d coins, change %d exceeds the largest of them by the minimum' % (name, len(sel), rem))
        if absolute:
            if paid != fee:
                w.violation('fee', '%s: leaves %d as fee' % (name, paid))
            w.probe('absolute')
            continue
        size = sum(u.vsize for u in sel)
        low = fee * (size + sum(out_size[:-1]) + 9 + (out_size[-1] if rem > 0 else 0))
        high = fee * (size + sum(out_size) + 16 + (182 if rem == 0 and not consolidate else 0))
        if not low <= paid <= high:
            w.violation('fee', '%s: %d coins, change %d, leaves %d as fee, expected %d..%d' % (name, len(sel), rem, paid, low, high))
        w.probe('exact_match' if rem == 0 else 'random_draw' if not consolidate else 'consolidated')


# -- C14 ----------------------------------------------------------------------
class Offline:
    """No service can be reached."""

    def __init__(self, w, kind):
        self.kind = kind
        w.net.fault_fn = self.decide

    def decide(self, r):
        return self.kind, {}


def damage(w, text):
    """A copy of `text` that no longer parses as JSON, or None."""
    c = w.c
    k = c.below(6)
    if k == 0:
        out = text[:c.below(len(text))]
    elif k == 1:
        out = text[c.below(len(text)) + 1:]
    elif k == 2:
        i = c.below(len(text))
        out = text[:i] + c.pick(['#', '\x00', ']', '{', '"']) + text[i + 1:]
    elif k == 3:
        i = c.below(len(text))
        out = text[:i] + text[i + 1 + c.below(20):]
    elif k == 4:
        out = text + c.pick(['}', text, '0', ','])
    else:
        out = c.pick(['', ' ', '\n'])
    try:
        json.loads(out)
        return None
    except ValueError:
        return out


def run_c14(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    kind = c.weighted([('key', 5), ('key_u', 2), ('ms', 2), ('ms_u', 1)])
    wal = Wallet(w, kind=kind, own=None)
    net = wal.net
    led = w.net.ledgers[net]
    draw_coins(w, wal, 1 + c.below(5))
    addr, script = c.pick(wal.addresses)
    if not any(x[3] == script for x in wal.coins()):
        led.fund([(200000 + c.below(10 ** 6), script)], led.height - 3)
    for _ in range(1 + c.below(2)):
        here = [x for x in wal.coins() if x[3] == script]
        src = c.below(4)
        if src == 0:            # the caller supplies unspents, of both addresses
            sub = [x for x in wal.coins() if c.chance(3, 4)] or here[:1]
        else:
            sub = here
        if not sub:
            return
        supplied = wal.unspents_for(sub) if src < 2 else None
        pool = pool_of(sub)
        total = sum(x[2] for x in sub)
        p = Payment(w, wal, c.pick([total // 2, total // 3, total // 10, total]), max_outs=c.pick([3, 3, 3, 5, 12]), coins=sub)
        kw = p.kw()
        if kind == 'key_u':
            kw['compressed'] = False
        draw_faults(w)
        cls = wal.cls
        name = '%s.%s.prepare' % (kind, net)
        w.log('payment', p.outs, sorted(kw.items(), key=str), 'from', addr)
        out = attempt(w, name, lambda: cls.prepare_transaction(addr, list(p.outs), unspents=supplied, **kw))
        reqs = list(w.net.requests)
        rates = fee_rates(w, p)
        if any(r.kind == 'push' for r in reqs):
            w.violation('unasked_broadcast', '%s broadcast something' % name)
        if out.kind == 'raise':
            e = out.value
            if type(e) is ConnectionError and any(r.fault for r in reqs):
                w.probe('unreachable')
            elif type(e).__name__ == 'InsufficientFunds':
                w.probe('insufficient')
                if plainly_enough(w, wal, p, pool, rates):
                    w.violation('false_insufficient', '%s raised %r although the coins suffice' % (name, e))
            elif any(0 in acceptable_sats(w, x) for x, _ in p.want):
                w.probe('zero_refused')
            else:
                w.violation('leaked_exception', '%s raised %s: %s' % (name, type(e).__name__, e))
            continue
        text = out.value
        # the data is carried to another machine, later
        w.sleep(c.pick([10, 3600, 86400 * 3]))
        w.fresh()
        w.fault('restart')
        wal.build()
        if c.chance(2, 3):
            Offline(w, c.pick(['dns', 'refused', 'conn_timeout']))
            w.fault('partition')
        else:
            w.net.fault_fn = None
        if c.chance(1, 4):
            bad = damage(w, text)
            if bad is not None:
                w.fault('damaged_handover')
                j = c.below(len(wal.keys))
                obj = wal.signer(j) if wal.is_ms else wal.obj
                out = attempt(w, '%s.sign_damaged' % kind, lambda: obj.sign_transaction(bad))
                if out.kind != 'raise':
                    w.violation('damaged_accepted', '%s made %r of damaged data %r' % (kind, str(out.value)[:80], bad[:80]))
                w.probe('damaged_refused')
        if c.chance(1, 6):
            # someone else's machine gets the data
            other = Wallet(w, kind=c.pick(['key', 'key_u', 'ms']), net=net)
            w.net.escaped = []
            out = attempt(w, 'stranger.sign', lambda: other.obj.sign_transaction(text))
            if w.net.requests or w.net.escaped:
                w.violation('network', 'signing with a stranger\'s key contacted %s' % ([r.service for r in w.net.requests] + w.net.escaped))
                return
            if out.kind == 'ok' and isinstance(out.value, str):
                try:
                    led.validate(out.value, False)
                    w.violation('forgery', 'a stranger\'s signature makes a valid transaction')
                except btc.BadTx:
                    pass
            w.probe('stranger')
        signers = c.shuffle(list(range(len(wal.keys))))[:wal.m] if wal.is_ms else [0]
        name = '%s.%s.sign' % (kind, net)
        data = text
        for i, j in enumerate(signers):
            obj = wal.signer(j) if wal.is_ms else wal.obj
            us = wal.unspents_for(sub) if i else None
            out = attempt(w, name, lambda: obj.sign_transaction(data, unspents=us) if us else obj.sign_transaction(data))
            if w.net.requests or w.net.escaped:
                w.violation('network', '%s contacted %s' % (name, [r.service for r in w.net.requests] + w.net.escaped))
                return
            if out.kind == 'raise':
                if any(0 in acceptable_sats(w, x) for x, _ in p.want):
                    w.probe('zero_refused')
                    return
                w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
                return
            data = out.value
        tx = judge(w, name, data, p, set(wal.scripts), pool, rates, change_scripts={script}, sizes_known=not wal.is_ms)
        w.probe('signed_offline')
        if tx is not None and c.chance(1, 2):
            try:
                led.accept(data)
            except btc.BadTx as e:
                w.violation('invalid_tx', '%s: %s' % (name, e))


# -- C18 ----------------------------------------------------------------------
def net_state(w):
    """Draws what the network would do if it were used."""
    c = w.c
    k = c.below(4)
    if k == 0:
        w.net.fault_fn = None
        return 'up'
    kind = ['refused', 'dns', 'read_timeout'][k - 1]
    Offline(w, kind)
    w.fault('partition')
    return kind


def quiet(w, name):
    if w.net.requests or w.net.escaped:
        w.violation('network', '%s contacted %s' % (name, [r.service or r.host for r in w.net.requests] + w.net.escaped))


def local(w, name, fn, state=None):
    """An operation that must neither use the network nor fail."""
    state = state or net_state(w)
    w.net.escaped = []
    out = attempt(w, name, fn)
    quiet(w, name)
    if out.kind == 'raise':
        w.violation('leaked_exception', '%s (network %s) raised %s: %s' % (name, state, type(out.value).__name__, out.value))
        return None
    return out.value


def expect(w, name, got, want):
    if got != want:
        w.violation('wrong_result', '%s gave %s instead of %s' % (name, str(got)[:200], str(want)[:200]))


def run_c18(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    bit = w.bit
    kind = c.pick(['key', 'ms', 'key_u', 'ms_u'])
    wal = Wallet(w, kind=kind, own=None)
    net = wal.net
    led = w.net.ledgers[net]
    draw_coins(w, wal, 1 + c.below(4))
    coins = wal.coins()
    owned = set(wal.scripts)
    for _ in range(2 + c.below(5)):
        op = c.pick(['create', 'prepare', 'addresses', 'units', 'verify', 'inspect', 'import', 'joint'])
        name = '%s.%s.%s' % (kind, net, op)
        if op in ('create', 'prepare'):
            total = sum(x[2] for x in coins)
            p = Payment(w, wal, total // c.pick([3, 10]), fiat=False, allow_none_fee=False)
            us = wal.unspents_for(coins)
            pool = pool_of(coins)
            hexes = []
            for _ in range(2):
                state = net_state(w)
                obj = wal.build()
                w.net.escaped = []
                if op == 'create':
                    out = attempt(w, name, lambda: obj.create_transaction(list(p.outs), unspents=us, **p.kw()))
                else:
                    out = attempt(w, name, lambda: type(obj).prepare_transaction(wal.addresses[0][0], list(p.outs), unspents=us, **p.kw()))
                quiet(w, name)
                if out.kind == 'raise':
                    if type(out.value).__name__ == 'InsufficientFunds' and not plainly_enough(w, wal, p, pool, {p.fee}):
                        w.probe('insufficient')
                        hexes.append('insufficient' if p.combine else None)
                        continue
                    w.violation('leaked_exception', '%s (network %s) raised %s: %s' % (name, state, type(out.value).__name__, out.value))
                    continue
                data = out.value
                if op == 'prepare':
                    data = local(w, name + '.sign', lambda: obj.sign_transaction(data))
                    if data is None:
                        continue
                hexes.append(data if p.combine else None)
                for j in range(len(wal.keys) if wal.is_ms else 0):
                    if j == wal.own or len(hexes) > 1:
                        continue
                    try:
                        led.validate(data)
                        break
                    except btc.BadTx:
                        s = wal.signer(j)
                        new = local(w, name + '.cosign', lambda: s.sign_transaction(data, unspents=us))
                        if new is None:
                            break
                        data = new
                if not (wal.is_ms and len(hexes) > 1):
                    judge(w, name, data, p, owned, pool, {p.fee}, sizes_known=not wal.is_ms)
                    w.probe('valid_offline')
            if len(hexes) == 2 and hexes[0] != hexes[1]:
                w.violation('network_dependent', '%s gave different results depending on the network' % name)
        elif op == 'addresses':
            k = wal.keys[0]
            cls = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
            o = local(w, name, lambda: cls(k.wif))
            if o is None:
                continue
            got = local(w, name, lambda: (o.address, o.segwit_address, o.to_wif(), o.to_int(), o.public_key, o.is_compressed()))
            expect(w, name, got, (k.address, k.segwit_address, k.wif, int.from_bytes(k.secret, 'big'), k.pub, k.compressed))
            got = local(w, name, lambda: (wal.obj.address, wal.obj.segwit_address))
            expect(w, name, got, (wal.ref.address, wal.ref.segwit_address))
            for how, arg in (('from_hex', k.secret.hex()), ('from_bytes', k.secret), ('from_int', int.from_bytes(k.secret, 'big'))):
                o2 = local(w, name + '.' + how, lambda: getattr(cls, how)(arg))
                if o2 is not None:
                    expect(w, name + '.' + how, o2.to_bytes(), k.secret)
            new = local(w, name + '.new', lambda: cls())
            if new is not None:
                r = btc.RefKey(new.to_bytes(), net, True)
                expect(w, name + '.new', (new.address, new.segwit_address), (r.address, r.segwit_address))
        elif op == 'units':
            u, v = c.pick(list(UNITS)), c.pick(list(UNITS))
            sat = draw_amount(w)
            text = dec_str(sat, PLACES[u])
            for fn in ('currency_to_satoshi', 'currency_to_satoshi_cached'):
                expect(w, fn, local(w, fn, lambda: getattr(bit.network, fn)(text, u)), sat)
            for fn in ('satoshi_to_currency', 'satoshi_to_currency_cached'):
                got = local(w, fn, lambda: getattr(bit.network, fn)(sat, v))
                if got is not None:
                    expect(w, fn, frac(got) * UNITS[v], sat)
            got = local(w, 'balance_as', lambda: wal.obj.balance_as(v))
            if got is not None:
                expect(w, 'balance_as', frac(got), 0)
        elif op == 'verify':
            o = wal.key_obj(0)
            msg = w.entropy.getrandbits(64).to_bytes(8, 'big')
            sig = local(w, name, lambda: o.sign(msg))
            if sig is not None:
                expect(w, name, local(w, name, lambda: bool(o.verify(sig, msg))), True)
                expect(w, name, local(w, name, lambda: bool(bit.verify_sig(sig, msg, o.public_key))), True)
                expect(w, name, local(w, name, lambda: bool(bit.verify_sig(sig, msg + b'x', o.public_key))), False)
        elif op == 'joint':
            # a transaction that spends coins of two wallets, each supplies its own
            friend = Wallet(w, kind='key', net=net)
            draw_coins(w, friend, 1 + c.below(2))
            theirs = friend.coins()[:c.pick([1, 2])]
            mine = [x for x in coins if c.chance(1, 2)] or coins[:1]
            ins = c.shuffle(theirs + mine)
            if wal.is_ms and wal.m > 1:
                ins = theirs
            spend = sum(x[2] for x in ins) - 1000
            if spend < 1000:
                continue
            a, s = other_address(w, net)
            tx = btc.Tx(b'\x01\0\0\0', [(t, n, b'', SEQ_FINAL) for t, n, _, _, _ in ins], [(spend, s)], [], b'\0\0\0\0', False)
            data = tx.hex()
            for x in c.shuffle([wal, friend]):
                o = x.build()
                us = x.unspents_for([y for y in ins if y[3] in x.scripts])
                if not us:
                    continue
                if c.chance(1, 2):
                    # the unspents of all parties, or all it has
                    us = c.shuffle(us + [u for z in (wal, friend) if z is not x for u in z.unspents_for([y for y in ins if y[3] in z.scripts])])
                new = local(w, name, lambda: o.sign_transaction(data, unspents=us))
                if new is None:
                    break
                data = new
            else:
                try:
                    led.validate(data)
                    w.probe('joint_valid')
                except btc.BadTx as e:
                    w.violation('invalid_tx', '%s: %s' % (name, e))
        elif op == 'inspect':
            T = bit.transaction
            e = c.pick(led.entries)
            hexs = e.tx.hex()
            expect(w, name, local(w, name, lambda: T.deserialize(hexs).to_hex()), hexs)
            expect(w, name, local(w, name, lambda: T.calc_txid(hexs)), e.txid)
        else:
            state = net_state(w)
            w.net.escaped = []
            w.net.begin_op()
            w.fresh()
            bit = w.bit
            quiet(w, 'import')
            wal.build()
            w.fault('restart')
        w.probe(op)


# -- C19 ----------------------------------------------------------------------
def run_c19(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    kind = c.weighted([('key', 3), ('ms', 2), ('key_u', 1), ('ms_u', 1)])
    wal = Wallet(w, kind=kind, m=1 if c.chance(2, 3) else None)
    net = wal.net
    led = w.net.ledgers[net]
    draw_coins(w, wal, 1 + c.below(5))
    owned = set(wal.scripts)
    obj = wal.obj
    own_state = None
    if c.chance(2, 3):
        attempt(w, 'refresh', obj.get_unspents)
        if c.chance(1, 2):
            attempt(w, 'refresh', obj.get_transactions)
    coins = wal.coins()
    total = sum(x[2] for x in coins)
    shared = wal.unspents_for(coins) if c.chance(1, 2) else None      # the caller's own objects
    p = Payment(w, wal, total // c.pick([3, 2, 10, 1]), max_outs=c.pick([3, 3, 3, 6, 12]))
    seqs = {}
    if shared and c.chance(1, 3):
        for u in shared:
            if c.chance(2, 3):
                u.sequence = seqs[(u.txid, u.txindex)] = c.pick([0xFFFFFFFE, 0xFFFFFFFE, RBF_MAX, 5])
        w.probe('own_sequence')
    earlier = {}
    untypable = [x for x in coins if x[3] == wal.ref.script]
    for step in range(2 + c.below(4)):
        if c.chance(1, 5):
            sign_joint(w, wal, coins, shared)
            continue
        mode = c.pick(['create', 'create', 'prepare', 'sign', 'send'])
        if mode == 'send' and wal.is_ms:
            mode = 'create'
        # vary what does not change the identity of the request
        p.rbf = c.chance(1, 2)
        p.combine = c.chance(1, 2)
        src = c.below(3)
        untyped = None
        p.seqs = {}
        if untypable and c.chance(1, 6):
            # objects as another service's client would build them
            from_ = w.bit.network.meta.Unspent
            kinds = c.pick([('unknown', 0), ('unknown', 0), ('someday', 0), ('p2pkh', 0), ('unknown', 148)])
            us = untyped = [from_(x[2], x[4], x[3].hex(), x[0], x[1], *kinds) for x in untypable]
            pool = pool_of(untypable)
            w.probe('untyped')
        elif src == 0 and shared:
            us, pool = shared, pool_of(coins)
            p.seqs = seqs
        elif src == 1 and obj.unspents:
            us = obj.unspents                       # the wallet's own list
            ids = {(u.txid, u.txindex) for u in us}
            pool = {k: v for k, v in pool_of(coins).items() if k in ids}
        else:
            us, pool = None, pool_of(coins)
            if mode in ('prepare', 'sign'):     # prepared for the first address only
                pool = {k: v for k, v in pool.items() if v[1] == wal.addresses[0][1]}
        outs = list(p.outs)
        bad = None
        if c.chance(1, 5):
            other = 'test' if net == 'main' else 'main'
            bad = c.pick(['foreign', 'toomuch', 'junk', 'currency'])
            outs.insert(c.below(len(outs) + 1), {
                'foreign': (other_address(w, other)[0], 1000, 'satoshi'), 'toomuch': (outs[0][0], 10 ** 17, 'satoshi'),
                'junk': ('notanaddress', 1000, 'satoshi'), 'currency': (outs[0][0], 5, 'xyz')}[bad])
            w.probe('bad_' + bad)
        cut = None
        if us is None and c.chance(1, 3):
            Offline(w, c.pick(['refused', 'read_timeout', 'http_503']))
            cut = True
        else:
            draw_faults(w)
        kw = p.kw()
        if mode in ('prepare', 'sign') and kind == 'key_u':
            kw['compressed'] = False
        given_outs = list(outs)
        given_us = us
        snap_list = None if us is None else list(us)
        snap = None if us is None else [unspent_full(u) for u in us]
        before = wal.state()
        held = [(u, unspent_full(u)) for u in obj.unspents]
        name = '%s.%s.%s%s' % (kind, net, mode, '.' + bad if bad else '')
        w.log('step', mode, 'unspents', src if us is not None else 'network', 'rbf', p.rbf, 'combine', p.combine)
        text = None
        if mode == 'sign':
            res = attempt(w, name + '.prepare', lambda: type(obj).prepare_transaction(wal.addresses[0][0], given_outs, unspents=given_us, **kw))
            reqs = list(w.net.requests)
            if res.kind == 'ok':
                text = res.value
                res = attempt(w, name, lambda: obj.sign_transaction(text))
        elif mode == 'prepare':
            res = attempt(w, name, lambda: type(obj).prepare_transaction(wal.addresses[0][0], given_outs, unspents=given_us, **kw))
            reqs = list(w.net.requests)
        else:
            fn = obj.send if mode == 'send' else obj.create_transaction
            res = attempt(w, name, lambda: fn(given_outs, unspents=given_us, **kw))
            reqs = list(w.net.requests)
        # caller's data
        if given_outs != outs:
            w.violation('mutated', '%s changed the caller\'s outputs' % name)
        if us is not None:
            if len(us) != len(snap_list) or any(a is not b for a, b in zip(us, snap_list)):
                w.violation('mutated', '%s changed the caller\'s list of unspents' % name)
            if [unspent_full(u) for u in snap_list] != snap:
                w.violation('mutated', '%s changed the caller\'s unspents' % name)
        after = wal.state()
        asked = [r for r in reqs if r.service in N.EXPLORERS and r.kind not in ('push',)]
        if mode in ('create', 'send') and us is None:
            want = sorted(unspent_full(u) for u in wal.unspents_for(coins))
            strip = lambda l: sorted((x[0],) + x[2:] for x in l)      # confirmations of lagging services aside
            if after != before and (strip(after[0]) != strip(want) or after[1] != before[1]):
                w.violation('wallet_changed', '%s left the wallet with %s instead of its coins %s' % (name, strip(after[0]), strip(want)))
        elif after != before:
            w.violation('wallet_changed', '%s changed the wallet from %s to %s' % (name, before, after))
        for u, full in held:
            if unspent_full(u) != full:
                w.violation('mutated', '%s changed an unspent the wallet had handed out' % name)
        if after[2] != sum(u.amount for u in obj.unspents):
            w.violation('wallet_changed', '%s left balance %s with coins of %s' % (name, after[2], sum(u.amount for u in obj.unspents)))
        if res.kind == 'raise':
            e = res.value
            if bad or cut:
                w.probe('failed_on_purpose')
            elif type(e) is ConnectionError and (any(r.fault for r in reqs) or any(r.status and r.status != 200 for r in reqs)):
                w.probe('unreachable')
                if any(r.applied for r in reqs if r.kind == 'push'):
                    return          # the coins are gone all the same
            elif type(e).__name__ == 'InsufficientFunds':
                w.probe('insufficient')
                if untyped is None and plainly_enough(w, wal, p, pool, fee_rates(w, p)):
                    w.violation('not_repeatable', '%s raised %r although the coins suffice' % (name, e))
            elif any(0 in acceptable_sats(w, x) for x, _ in p.want) or not pool:
                w.probe('nothing_to_spend')
            else:
                w.violation('not_repeatable', '%s raised %s: %s' % (name, type(e).__name__, e))
            continue
        if bad or mode == 'prepare':
            continue
        if mode == 'send':
            pushes = {r.tx_hex for r in reqs if r.kind == 'push'}
            if len(pushes) != 1:
                w.violation('not_repeatable', '%s broadcast %d transactions' % (name, len(pushes)))
                return
            judge(w, name, pushes.pop(), p, owned, pool, fee_rates(w, p), require_unspent=False, sizes_known=untyped is None)
            w.probe('sent')
            return
        if wal.is_ms and wal.m > 1:
            w.probe('partial')
        else:
            judge(w, name, res.value, p, owned, pool, fee_rates(w, p), sizes_known=not wal.is_ms and untyped is None, m=getattr(wal, 'm', 1))
        if p.combine and us is not None and p.fee is not None and not any(isinstance(x, tuple) for x, _ in p.want):
            key = (mode, p.rbf, untyped and kinds, tuple(sorted(pool)), tuple((u.txid, u.txindex, u.sequence) for u in us))
            if earlier.setdefault(key, res.value) != res.value:
                w.violation('not_repeatable', '%s gave another transaction for the same call' % name)
            w.probe('repeated')


SCENARIOS = {'C10': run_c10, 'C11': run_c11, 'C14': run_c14, 'C18': run_c18, 'C19': run_c19}


def sign_joint(w, wal, coins, shared):
    """One party signs a transaction of several with unspents it shares with others."""
    c = w.c
    net = wal.net
    obj = wal.obj
    friend = Wallet(w, kind=c.pick(['key', 'key_u']), net=net)
    draw_coins(w, friend, 1 + c.below(2))
    theirs = friend.coins()
    mine = [x for x in coins if c.chance(1, 2)] or coins[:1]
    ins = c.shuffle(theirs + mine) if c.chance(3, 4) else mine
    a, s = other_address(w, net)
    data = btc.Tx(b'\x01\0\0\0', [(t, n, b'', SEQ_FINAL) for t, n, _, _, _ in ins], [(max(1000, sum(x[2] for x in ins) - 1000), s)], [],
                  b'\0\0\0\0', False).hex()
    us = (wal.unspents_for(coins) if shared is None or c.chance(1, 2) else list(shared)) + friend.unspents_for(theirs)
    us = c.shuffle(us)
    own = c.chance(1, 6) and bool(obj.unspents)
    if own:
        us = obj.unspents                   # the wallet's own list
    cut = c.chance(1, 5)
    text = data[:c.below(len(data))] if cut else data
    listed, snap, before = list(us), [unspent_full(u) for u in us], wal.state()
    name = '%s.%s.joint' % (wal.kind, net)
    w.log('joint', len(ins), 'inputs', len(us), 'unspents', 'cut' if cut else '')
    draw_faults(w)
    res = attempt(w, name, lambda: obj.sign_transaction(text, unspents=us))
    if len(us) != len(listed) or any(x is not y for x, y in zip(us, listed)):
        w.violation('mutated', '%s changed the caller\'s list of unspents' % name)
    if [unspent_full(u) for u in listed] != snap:
        w.violation('mutated', '%s changed the caller\'s unspents' % name)
    if wal.state() != before:
        w.violation('wallet_changed', '%s changed the wallet from %s to %s' % (name, before, wal.state()))
    if cut:
        w.probe('joint_cut')
    elif res.kind == 'raise':
        w.violation('not_repeatable', '%s raised %s: %s' % (name, type(res.value).__name__, res.value))
    else:
        again = attempt(w, name, lambda: obj.sign_transaction(text, unspents=us))
        if again.kind == 'raise' or again.value != res.value:
            w.violation('not_repeatable', '%s gave another transaction for the same call' % name)
        w.probe('joint')
