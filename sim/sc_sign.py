"""Several parties signing one transaction: C12 multisig co-signing, C13 batching."""
from . import btc, net as N, models
from .common import Plan, draw_fault, attempt
from .sc_pay import Payment, judge, draw_faults, fee_rates
from .wallets import Wallet, other_address


class Copy:
    """A copy of the transaction in somebody's hands."""

    def __init__(self, hexs, done, hist):
        self.hexs = hexs
        self.done = done        # wallet index -> set of signer indices
        self.hist = hist


def skeleton(tx):
    return (tx.version, [(t, n, q) for t, n, _, q in tx.vin], tx.vout, tx.locktime)


def valid_signers(tx, i, value, spk, wal):
    """Indices of wal's keys with a valid signature in input i (order checked
    by the final validation)."""
    ss, wit = tx.vin[i][2], tx.wit[i]
    seg = spk == wal.ref.segwit_script
    if seg:
        items = list(wit)
    else:
        items = btc.parse_pushes(ss)
        if items is None:
            return None
    got = set()
    if not wal.is_ms:
        if btc.verify_input(tx, i, value, spk) is None:
            got.add(0)
        return got
    code = wal.ref.redeem
    digest = btc.sighash_v0(tx, i, code, value) if seg else btc.sighash_legacy(tx, i, code)
    for it in items:
        for j, k in enumerate(wal.keys):
            if btc._checksig(it, k.pub, digest):
                got.add(j)
    return got


class Party:
    """Draws who holds what and judges every signing step."""

    def __init__(self, w, wallets, led):
        self.w, self.wallets, self.led = w, wallets, led
        self.skel = None
        self.owner = {}
        for x, wal in enumerate(wallets):
            for s in wal.scripts:
                self.owner[s] = x

    def need(self, x):
        return self.wallets[x].m if self.wallets[x].is_ms else 1

    def complete(self, done, tx):
        return all(len(done.get(x, ())) >= self.need(x) for x in self.owners_in(tx))

    def owners_in(self, tx):
        return sorted({self.owner[self.led.prevout(t, n)[1]] for t, n, _, _ in tx.vin})

    def judge(self, name, hexs, before, x, j, done):
        """hexs came out when signer j of wallet x signed `before` (Tx or
        None); done: contributions it must now carry."""
        w = self.w
        try:
            tx = btc.Tx.parse(hexs, partial=True)
        except btc.BadTx as e:
            w.violation('malformed', '%s produced a malformed transaction: %s (%s)' % (name, e, str(hexs)[:200]))
            return None
        if self.skel is None:
            self.skel = skeleton(tx)
        if skeleton(tx) != self.skel:
            w.violation('changed', '%s changed inputs, outputs or amounts' % name)
            return None
        for i, (t, n, ss, q) in enumerate(tx.vin):
            val, spk = self.led.prevout(t, n)
            o = self.owner.get(spk)
            if o is None:
                w.violation('foreign_input', '%s spends a coin of nobody involved' % name)
                return None
            wal = self.wallets[o]
            if o != x:
                was = (b'', []) if before is None else (before.vin[i][2], before.wit[i])
                if (ss, tx.wit[i]) != was:
                    w.violation('touched_other', '%s changed input %d which belongs to %s' % (name, i, wal.kind))
                continue
            got = valid_signers(tx, i, val, spk, wal)
            if got is None or got != done.get(o, set()):
                w.violation('signatures', '%s: input %d (%s, %d-of-%d) carries valid signatures of %s, expected %s' % (
                    name, i, 'segwit' if spk == wal.ref.segwit_script else 'legacy', self.need(o), len(wal.keys), sorted(got or ()),
                    sorted(done.get(o, ()))))
        want = self.complete(done, tx)
        try:
            self.led.validate(hexs)
            ok, why = True, None
        except btc.BadTx as e:
            ok, why = False, e
        if ok != want:
            w.violation('validity', '%s: the transaction is %s (%s) with signatures of %s, needed %s' % (
                name, 'valid' if ok else 'not valid', why, {k: sorted(v) for k, v in done.items()}, [self.need(o) for o in self.owners_in(tx)]))
        w.mark('copy', sorted((k, tuple(sorted(v))) for k, v in done.items()), ok)
        w.probe('complete' if ok else 'partial')
        return tx

    def sign_step(self, copy, x, j, unspents, faults=False):
        w = self.w
        wal = self.wallets[x]
        obj = wal.signer(j) if wal.is_ms else wal.key_obj(0)
        before = btc.Tx.parse(copy.hexs, partial=True)
        had = copy.done.get(x, set())
        name = '%s%d.sign%d' % (wal.kind, x, j)
        w.log('sign', name, 'unspents', 'network' if unspents is None else len(unspents), 'has', {k: sorted(v) for k, v in copy.done.items()})
        out = attempt(w, name, lambda: obj.sign_transaction(copy.hexs, unspents=unspents))
        if unspents and w.net.requests:
            w.violation('needless_query', '%s used the network although unspents were supplied' % name)
        if any(r.kind == 'push' for r in w.net.requests):
            w.violation('unasked_broadcast', '%s broadcast something' % name)
        if out.kind == 'raise':
            e = out.value
            if type(e) is ConnectionError and not unspents and any(r.fault for r in w.net.requests):
                w.probe('unreachable')
            elif isinstance(e, ValueError) and wal.is_ms and len(had) >= wal.m:
                w.probe('refused_complete')
            else:
                w.violation('leaked_exception', '%s raised %s: %s (already signed by %s of %d needed)' % (
                    name, type(e).__name__, str(e)[:200], sorted(had), self.need(x)))
            return None
        if x not in self.owners_in(before):
            done = dict(copy.done)
        else:
            done = {**copy.done, x: had | {j}}
        if wal.is_ms and len(had) >= wal.m:
            # more than enough: must simply stay valid
            done = dict(copy.done)
            try:
                self.led.validate(out.value)
            except btc.BadTx as e:
                if self.complete(done, before):
                    w.violation('validity', '%s made a complete transaction invalid: %s' % (name, e))
            w.probe('signed_beyond')
            return None
        if j in had:
            w.probe('signed_again')
        tx = self.judge(name, out.value, before, x, j, done)
        if tx is None:
            return None
        return Copy(out.value, done, copy.hist + [(x, j)])


def coins_for(w, wallets, led, lo, hi):
    """Funding transactions whose outputs are spread over the wallets."""
    c = w.c
    for _ in range(c.between(lo, hi)):
        outs = []
        for _ in range(1 + c.below(3)):
            wal = c.pick(wallets)
            outs.append((50000 + c.below(5000000), c.pick(wal.addresses)[1]))
        if c.chance(1, 30):
            outs = [(777, b'\x51')] * c.pick([255, 300, 252]) + outs
        led.fund(outs, led.height - c.below(5) if c.chance(3, 4) else None)


def cut_copy(w, party, copy, x, j, us):
    """A copy that was not transferred completely must not be signed."""
    wal = party.wallets[x]
    bad = copy.hexs[:2 * w.c.below(len(copy.hexs) // 2)]
    w.fault('copy_cut')
    obj = wal.signer(j) if wal.is_ms else wal.key_obj(0)
    name = '%s%d.sign%d.cut' % (wal.kind, x, j)
    out = attempt(w, name, lambda: obj.sign_transaction(bad, unspents=us))
    if out.kind != 'raise':
        w.violation('cut_accepted', '%s signed %s, the beginning of %s' % (name, bad[:200], copy.hexs[:200]))


def exchange(w, party, copies, signers, view, steps, net_ok=True):
    """signers: [(x, j)]; copies are handed around, lost, duplicated, old ones
    signed again; ends with an orderly round to completion."""
    c = w.c
    for _ in range(steps):
        k = c.below(12)
        if k == 0 and len(copies) > 1:
            copies.pop(c.below(len(copies)))
            w.fault('copy_lost')
            continue
        if k == 1:
            w.fault('restart')
            w.fresh()
            for wal in party.wallets:
                wal.build()
        if k == 2:
            w.fault('late_copy')
            src = copies[c.below(len(copies))]
        else:
            src = copies[-1] if c.chance(3, 4) else copies[c.below(len(copies))]
        x, j = c.pick(signers)
        us = view(x)
        w.net.fault_fn = None
        if us and c.chance(1, 12):
            cut_copy(w, party, src, x, j, us)
        if not us:
            draw_faults(w)
        new = party.sign_step(src, x, j, us)
        if new:
            copies.append(new)
    # faults stop: whoever holds the newest copy passes it to the missing signers
    w.net.fault_fn = None
    src = copies[-1]
    tx = btc.Tx.parse(src.hexs, partial=True)
    order = c.shuffle(list(signers))
    for x, j in order:
        if x not in party.owners_in(tx):
            continue
        had = src.done.get(x, set())
        if len(had) >= party.need(x) or j in had:
            continue
        new = party.sign_step(src, x, j, view(x))
        if new is None:
            w.violation('no_progress', 'signer %d of wallet %d could not sign although nothing failed' % (j, x))
            return
        src = new
    if not party.complete(src.done, tx):
        w.violation('no_progress', 'everybody signed and the transaction still is not complete')
        return
    try:
        party.led.accept(src.hexs)
    except btc.BadTx as e:
        w.violation('validity', 'everybody signed, the transaction is not accepted: %s' % e)
        return
    w.probe('completed')


def draw_view(w, party, coins):
    """How a signer obtains the unspents: own, everybody's, or the network."""
    c = w.c

    def view(x):
        k = c.below(5)
        wal = party.wallets[x]
        if k == 3:
            return None
        if k == 4:
            # as the network lists them, before any wallet has typed them
            w.probe('untyped_view')
            return [w.bit.network.meta.Unspent(v, cf, s.hex(), t, n) for t, n, v, s, cf in coins]
        own = [u for cn in coins if cn[3] in wal.scripts for u in wal.unspents_for([cn])]
        if k == 0:
            return own
        every = [u for cn in coins for u in party.wallets[party.owner[cn[3]]].unspents_for([cn])]
        return c.shuffle(every) if k == 1 else every
    return view


def run_c12(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    big = c.chance(1, 40)
    kind = c.weighted([('ms', 5), ('ms_u', 1)])
    # the redeem script may have 520 bytes: 15 compressed or 7 uncompressed keys
    n = c.between(5, 15 if kind == 'ms' else 7) if big else c.between(1, 5)
    wal = Wallet(w, kind=kind, n=n, m=None)
    led = w.net.ledgers[wal.net]
    coins_for(w, [wal], led, 1, 3)
    party = Party(w, [wal], led)
    coins = wal.coins()
    total = sum(x[2] for x in coins)
    p = Payment(w, wal, total // 3, fiat=False, allow_none_fee=False, max_outs=3)
    if p.combine is False and c.chance(1, 2):
        p.combine = True
    j0 = c.below(n)
    own = wal.unspents_for(coins)
    start = c.pick(['create', 'create', 'prepare', 'fetch'])
    name = '%s.%s%d' % (wal.kind, start, j0)
    first = wal.signer(j0)
    pool = {(t, i): (v, s) for t, i, v, s, cf in coins}
    if start == 'prepare':
        out = attempt(w, name, lambda: first.sign_transaction(type(first).prepare_transaction(wal.addresses[0][0], list(p.outs), unspents=own, **p.kw())))
    elif start == 'create':
        out = attempt(w, name, lambda: first.create_transaction(list(p.outs), unspents=own, **p.kw()))
    else:
        out = attempt(w, name, lambda: first.create_transaction(list(p.outs), **p.kw()))
    if out.kind == 'raise':
        if type(out.value).__name__ == 'InsufficientFunds':
            w.probe('insufficient')
            return
        w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
        return
    hexs = out.value
    done = {0: {j0}}
    tx = party.judge(name, hexs, None, 0, j0, done)
    if tx is None:
        return
    if not set((t, i) for t, i, _, _ in tx.vin) <= set(pool):
        w.violation('foreign_input', '%s spends a coin it was not given' % name)
        return
    copies = [Copy(hexs, done, [(0, j0)])]
    signers = [(0, j) for j in range(n)]
    exchange(w, party, copies, signers, draw_view(w, party, coins), 1 + c.below(2 * n + 2))
    # what was signed still is the payment that was asked for
    led.by_id
    full = [cp for cp in copies if len(cp.done[0]) >= wal.m]
    for cp in full[:1]:
        judge(w, name, cp.hexs, p, set(wal.scripts), pool, fee_rates(w, p), require_unspent=False, m=wal.m,
              change_scripts=set(wal.scripts))


def unsigned(tx):
    return btc.Tx(tx.version, [(t, n, b'', q) for t, n, _, q in tx.vin], tx.vout, [[] for _ in tx.vin], tx.locktime, False).hex()


def run_c13(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    net = c.pick(['main', 'test'])
    wallets = []
    for _ in range(c.between(2, 4)):
        kind = c.weighted([('key', 4), ('ms', 3), ('key_u', 2), ('ms_u', 1)])
        wallets.append(Wallet(w, kind=kind, net=net, n=c.between(1, 3) if kind.startswith('ms') else None, own=None))
    led = w.net.ledgers[net]
    coins_for(w, wallets, led, 2, 4)
    party = Party(w, wallets, led)
    coins = [x for wal in wallets for x in wal.coins()]
    coins = c.shuffle(coins)
    mine = [x for x in coins if c.chance(4, 5)] or coins[:1]
    every = [u for cn in mine for u in wallets[party.owner[cn[3]]].unspents_for([cn])]
    x0 = c.below(len(wallets))
    wal = wallets[x0]
    total = sum(x[2] for x in mine)
    outs = [(other_address(w, net)[0], max(600, total // (3 + c.below(5))), 'satoshi') for _ in range(1 + c.below(3))]
    kw = {'fee': c.pick([1, 3, 20]), 'replace_by_fee': c.chance(1, 3), 'combine': c.chance(2, 3)}
    left = other_address(w, net)[0] if c.chance(1, 2) else None
    if left:
        kw['leftover'] = left
    start = c.pick(['create', 'raw', 'create'])
    signers = [(x, j) for x, wl in enumerate(wallets) for j in range(len(wl.keys))]
    if start == 'create':
        j0 = c.below(len(wal.keys))
        obj = wal.signer(j0) if wal.is_ms else wal.key_obj(0)
        name = '%s%d.batch' % (wal.kind, x0)
        out = attempt(w, name, lambda: obj.create_transaction(list(outs), unspents=list(every), **kw))
        if out.kind == 'raise':
            if type(out.value).__name__ == 'InsufficientFunds':
                w.probe('insufficient')
                return
            w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
            return
        try:
            tx = btc.Tx.parse(out.value, partial=True)
        except btc.BadTx as e:
            w.violation('malformed', '%s: %s' % (name, e))
            return
        if any(led.prevout(t, i) is None for t, i, _, _ in tx.vin):
            w.violation('foreign_input', '%s spends an unknown coin' % name)
            return
        done = {x0: {j0}} if x0 in party.owners_in(tx) else {}
        tx = party.judge(name, out.value, None, x0, j0, done)
        if tx is None:
            return
        for (a, amt, _), (val, spk) in zip(outs, tx.vout):
            if (val, spk) != (amt, btc.address_script(a)[1]):
                w.violation('changed', '%s pays %d to %s instead of %d to %s' % (name, val, spk.hex(), amt, a))
        copies = [Copy(out.value, done, [(x0, j0)])]
    else:
        version = c.pick([b'\x01\0\0\0', b'\x02\0\0\0'])
        lock = c.pick([0, led.height - 10, 500000000 + c.below(10 ** 9), 1]).to_bytes(4, 'little')
        tx = btc.Tx(version, [(t, i, b'', c.pick([0xFFFFFFFF, 0xFFFFFFFD, 0xFFFFFFFE, c.below(0xFFFF)])) for t, i, _, _, _ in mine],
                    [(amt, btc.address_script(a)[1]) for a, amt, _ in outs], [[] for _ in mine], lock, False)
        if c.chance(1, 3) and any(x[3] == wl.ref.segwit_script for x in mine for wl in wallets):
            tx.segwit = True
        party.skel = skeleton(tx)
        copies = [Copy(tx.hex(), {}, [])]
        w.probe('raw_start')
    exchange(w, party, copies, signers, draw_view(w, party, coins), c.below(2 * len(signers) + 2))


SCENARIOS = {'C12': run_c12, 'C13': run_c13}
