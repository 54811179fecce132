"""C01 failover of reads, C02 completeness of listings, C29 listings while the ledger moves."""
from . import btc, net as N
from .common import (attempt, api_fn, Plan, PeerFault, draw_fault, check_query, populate, spread_lags, draw_secret, ALL_KINDS)


def pick_addr(w, net):
    k = btc.RefKey(draw_secret(w), net, True)
    t = w.c.below(3)
    if t == 0:
        return k.address, k.script
    if t == 1:
        return k.segwit_address, k.segwit_script
    prog = btc.hash160(k.pub) if w.c.below(2) == 0 else btc.sha256(k.pub)
    a = btc.bech32_address(btc.VER[net][2], prog)
    return a, btc.address_script(a)[1]


STATUS_KINDS = [k for k in ALL_KINDS if k.startswith('http_')]


def draw_plan(w, serving, kmax):
    c = w.c
    faults = {}
    prof = c.weighted([('one_healthy', 45), ('none_healthy', 20), ('mixed', 25), ('healthy', 10)])
    if prof == 'one_healthy':
        keep = c.pick(serving)
        bad = [s for s in serving if s != keep]
    elif prof == 'none_healthy':
        bad = list(serving)
    elif prof == 'mixed':
        bad = [s for s in serving if c.chance(1, 2)]
    else:
        bad = []
    if bad and c.chance(1, 3):
        # correlated failure: the same kind everywhere (local link trouble)
        f = draw_fault(w, kmax=1)
        for s in bad:
            faults[s] = PeerFault(f.kind, 0, dict(f.params))
    else:
        # error replies take other paths than broken connections: some runs have only those
        kinds = c.pick([ALL_KINDS, ALL_KINDS, STATUS_KINDS])
        for s in bad:
            faults[s] = draw_fault(w, kinds, kmax=c.pick([1, kmax]))
    return Plan(w, faults)


def run_c01(w):
    c = w.c
    nops = 1 + c.below(4)
    nets = ['main', 'test']
    addrs = {}
    w.net.quirks['blockstream_cap'] = c.pick([500, 500, 500, 2])
    w.net.quirks['blockchair_404'] = c.chance(1, 4)
    w.net.quirks['blockchair_tx_null'] = c.chance(1, 3)
    for _ in range(nops):
        net = c.pick(nets)
        if net not in addrs or c.chance(1, 4):
            addrs[net] = pick_addr(w, net)
            populate(w, net, addrs[net][1], c.below(7))
        elif c.chance(1, 2):
            populate(w, net, addrs[net][1], 1 + c.below(2))
            if c.chance(1, 2):
                w.net.ledgers[net].mine()
        spread_lags(w, net)
        op = c.pick(['unspent', 'balance', 'txs', 'tx'])
        arg = addrs[net][0]
        if op == 'tx':
            led = w.net.ledgers[net]
            if led.entries and c.chance(4, 5):
                arg = led.entries[c.below(len(led.entries))].txid
            else:
                arg = btc.sha256(b'unknown').hex()
        w.net.latency_fn = None
        if c.chance(1, 3):
            lats = {s: c.pick([0.05, 1.0, 4.0, 9.5]) for s in N.EXPLORERS}
            w.net.latency_fn = lambda r: lats.get(r.service, 0.05)
        plan = draw_plan(w, N.SERVES[(op, net)], kmax=3 if op == 'txs' else 2 if op == 'unspent' else 1)
        check_query(w, net, op, arg, plan)
        w.sleep(c.pick([0, 1, 30, 700]))


EDGES = {
    ('txs', 'blockchair'): [0, 1, 2, 999, 1000, 1001, 2000, 2003],
    ('txs', 'blockstream'): [0, 1, 24, 25, 26, 49, 50, 51, 75, 100, 126],
    ('txs', 'smartbit'): [0, 1, 2, 999, 1000, 1001, 2000, 2003],
    ('txs', 'blockchain'): [0, 1, 49, 50, 51, 99, 100, 101, 150, 251],
    ('unspent', 'blockstream'): [0, 1, 3, 30, 499, 500, 501],
    ('unspent', 'blockchair'): [0, 1, 2, 999, 1000, 1001, 2000, 2003],
    ('unspent', 'smartbit'): [0, 1, 2, 999, 1000, 1001, 2000, 2003],
    ('unspent', 'blockchain'): [0, 1, 2, 250, 251, 999, 1000, 1001],
    ('unspent', 'bitcore'): [0, 1, 10, 99, 100, 101, 199, 200, 201, 305],
}


PAGE = {('txs', 'blockchair'): 1000, ('txs', 'blockstream'): 25, ('txs', 'smartbit'): 1000, ('txs', 'blockchain'): 50,
        ('unspent', 'blockchair'): 1000, ('unspent', 'smartbit'): 1000, ('unspent', 'bitcore'): 100}
NEAR = {
    'blockchain': [(500, b'No free outputs could be looked up, try again'), (503, b'No free outputs to spend'), (500, b'Transaction not loaded')],
    'blockstream': [(500, b'Too many history entries'), (429, b'Too many requests')],
    'blockchair': [(402, b'{"data":null,"context":{"code":402,"error":"limit"}}'), (430, b'{"data":{},"context":{"code":430}}')],
    'smartbit': [(429, b'{"success":false,"error":{"code":"RATE"}}'), (500, b'{"success":true,"unspent":[]}')],
    'bitcore': [(503, b'[]'), (500, b'[]')],
}


def run_c02(w):
    c = w.c
    net = c.pick(['main', 'test'])
    op = c.pick(['unspent', 'txs'])
    serving = N.SERVES[(op, net)]
    target = c.pick(serving)
    mode = c.weighted([('target_only', 4), ('target_fails_mid', 5), ('all_random', 2)])
    edges = EDGES[(op, target)]
    page = PAGE.get((op, target))
    mid = mode == 'target_fails_mid' and page and c.chance(2, 3)
    if mid:
        edges = [n for n in edges if n > page]
    size = c.pick(edges)
    if not mid and c.chance(1, 4):
        size = c.below(60)
    a, script = pick_addr(w, net)
    w.net.quirks['blockchair_404'] = c.chance(1, 2)
    w.net.quirks['blockstream_cap'] = c.pick([500, 5000, 3])
    outs = 1
    if op == 'unspent' and c.chance(1, 2):
        # many outputs in few transactions
        outs = c.pick([1, 7, 50])
    ntx = max(0, (size + outs - 1) // outs) if outs > 1 else size
    spend = 0 if op == 'unspent' else c.pick([0, 40])
    if op == 'txs' and target == 'blockstream' and c.chance(1, 3):
        # mempool boundary
        populate(w, net, script, size if size < 200 else 20, unconf_pct=0, spend_pct=spend)
        for _ in range(c.pick([1, 48, 49, 50, 51, 55])):
            w.net.ledgers[net].fund([(1234, script)])
        w.probe('mempool_boundary')
    else:
        populate(w, net, script, ntx, unconf_pct=c.pick([0, 30, 90]), spend_pct=spend, outs_per_tx=outs)
    if c.chance(1, 3):
        w.net.ledgers[net].mine()
    # someone else's coins in the same ledger
    for _ in range(c.below(3)):
        w.net.ledgers[net].fund([(999, btc.p2pkh(btc.hash160(b'noise')))])
    spread_lags(w, net, 1, 3)
    w.probe('size_%d' % size if size in (24, 25, 26, 49, 50, 51, 99, 100, 101, 999, 1000, 1001, 2000) else 'size_other')
    w.net.max_requests = 400
    faults = {}
    if mode != 'all_random':
        for s in serving:
            if s != target:
                faults[s] = draw_fault(w, kmax=1)
        if mode == 'target_fails_mid':
            f = draw_fault(w, c.pick([ALL_KINDS, STATUS_KINDS]), kmax=1)
            f.k = c.pick([1, 2, 1, 3] if mid else [1, 0, 2, 3, 5])
            if target in NEAR and c.chance(1, 8):
                # almost the reply that means "none" or "too many"
                status, text = c.pick(NEAR[target])
                f.kind, f.k, f.params = 'http_%d' % status, c.pick([0, 0, 1]), {'body': text, 'ctype': 'text/plain'}
            f.once = c.chance(1, 2)
            faults[target] = f
            # leave one other service alive now and then
            others = [s for s in serving if s != target]
            if c.chance(1, 2):
                faults.pop(c.pick(others))
    else:
        for s in serving:
            if c.chance(2, 3):
                faults[s] = draw_fault(w, kmax=4, once=c.chance(1, 4))
    check_query(w, net, op, a, Plan(w, faults))
    if size <= 200 and c.chance(1, 3):
        # the same program asks again later
        led = w.net.ledgers[net]
        for _ in range(c.below(3)):
            led.fund([(4321, script)], led.height if c.chance(1, 2) else None)
        for _ in range(c.pick([1, 0, 2, 6])):
            led.mine()
        spread_lags(w, net, 1, 3)
        again = {s: draw_fault(w, kmax=2, once=c.chance(1, 3)) for s in serving if s != target and c.chance(3, 4)}
        check_query(w, net, op, a, Plan(w, again))
        w.probe('asked_again')


# -- C29 ----------------------------------------------------------------------
SIZES = {
    ('txs', 'blockchair'): [1000, 1001, 1400, 2003], ('txs', 'blockstream'): [3, 25, 26, 51, 76], ('txs', 'smartbit'): [1001, 1400, 2003],
    ('txs', 'blockchain'): [50, 51, 101, 130], ('unspent', 'blockstream'): [1, 3, 30], ('unspent', 'blockchair'): [1000, 1001, 1400, 2003],
    ('unspent', 'smartbit'): [1001, 1400, 2003], ('unspent', 'blockchain'): [3, 250], ('unspent', 'bitcore'): [100, 101, 230],
}


class Mover:
    """Transactions and blocks arrive between the requests of an operation."""

    def __init__(self, w, net, script, num, den):
        self.w, self.net, self.script, self.num, self.den = w, net, script, num, den
        self.left = 12

    def move(self):
        """One event; True if the address is concerned."""
        w, c = self.w, self.w.c
        led = w.net.ledgers[self.net]
        k = c.weighted([('fund', 4), ('spend', 3), ('respend', 2), ('mine', 4), ('other', 1)])
        if k == 'fund':
            led.fund([(2000 + led.seq, self.script)] * c.pick([1, 1, 2]))
        elif k in ('spend', 'respend'):
            us = led.view().addr(self.script).utxos
            if not us:
                return
            t, n, val, cf, h = us[c.pick([0, -1, c.below(len(us)), len(us) // 2])]
            led._nonce += 1
            to = self.script if k == 'respend' else btc.p2pkh(btc.hash160(b'o%d' % led._nonce))
            led._add(btc.Tx(b'\x01\0\0\0', [(t, n, b'\x51', 0xFFFFFFFF)], [(max(1, val - 7), to)], [], b'\0\0\0\0', False))
        elif k == 'mine':
            waiting = [e.txid for e in led.entries if e.height is None]
            for _ in range(c.pick([1, 1, 1, 2])):
                led.mine(None if c.chance(2, 3) else set(waiting[:c.below(len(waiting) + 1)]))
        else:
            led.fund([(999, btc.p2pkh(btc.hash160(b'noise')))])
        w.fault('moved_' + k)
        w.log('    ledger', k)

    def __call__(self, r, when):
        if when != 'before' or r.net != self.net:
            return
        n = self.w.net
        if len(n.requests) > 1 and self.left and self.w.c.chance(self.num, self.den):
            for _ in range(self.w.c.pick([1, 1, 1, 2, 3])):
                self.move()
                self.left -= 1
            n.views = {}
        if r.service in N.EXPLORERS:
            r.view = n.view(r.service, self.net)


def may_refuse(w, s, op, st):
    if op == 'txs':
        return s == 'blockstream' and sum(1 for _, h in st.txs if h is None) >= 50
    return (s == 'blockstream' and len(st.txs) > w.net.quirks.get('blockstream_cap', 500)) or (s == 'blockchain' and len(st.utxos) >= 1000)


def held(op, st):
    """What a service holds: key -> (amount, confirmations)."""
    if op == 'txs':
        return {t: (0, 0) for t, _ in st.txs}
    return {(t, n): (val, cf, h) for t, n, val, cf, h in st.utxos}


def judge_moving(w, net, op, name, out, script):
    serving = N.SERVES[(op, net)]
    reqs = {}
    for r in w.net.requests:
        if r.service in N.EXPLORERS:
            reqs.setdefault(r.service, []).append(r)
    states = {s: [held(op, r.view.addr(script)) for r in rs] for s, rs in reqs.items()}
    faulted = {s for s, rs in reqs.items() if any(r.fault for r in rs)}
    if out.kind == 'raise':
        if type(out.value) is not ConnectionError:
            w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
            return
        for s in serving:
            if s not in reqs:
                w.violation('failover_missed', '%s raised without asking %s' % (name, s))
            elif s not in faulted and len(set(r.view.upto for r in reqs[s])) == 1 and not may_refuse(w, s, op, reqs[s][0].view.addr(script)):
                w.violation('failover_missed', '%s raised although %s could have answered' % (name, s))
        w.probe('refused')
        return
    res = out.value
    last = [r.service for r in w.net.requests if r.service in N.EXPLORERS]
    if not last or not isinstance(res, list):
        w.violation('bad_result', '%s returned %r' % (name, type(res)))
        return
    s = last[-1]
    moved = len(set(r.view.upto for r in reqs[s])) > 1
    w.probe(('moved_' if moved else 'still_') + s)
    keys = list(res) if op == 'txs' else [(u.txid, u.txindex) for u in res]
    if len(set(keys)) != len(keys):
        twice = next(k for k in keys if keys.count(k) > 1)
        w.violation('twice', '%s lists %s twice (%s, %d entries)' % (name, twice, s, len(keys)))
    every = {}
    for st in states[s]:
        for k, v in st.items():
            every.setdefault(k, []).append(v)
    always = [k for k, v in every.items() if len(v) == len(states[s])]
    got = set(keys)
    gone = [k for k in always if k not in got]
    if gone:
        w.violation('missing', '%s leaves out %d of the %d entries %s held all the time, e.g. %s' % (name, len(gone), len(always), s, gone[0]))
    if op == 'txs':
        for k in keys:
            if k not in every:
                w.violation('invented', '%s lists %s which %s never held' % (name, k, s))
        return
    tip = max(r.view.height for r in reqs[s])
    for u in res:
        v = every.get((u.txid, u.txindex))
        if v is None:
            w.violation('invented', '%s lists %s:%d which %s never held' % (name, u.txid, u.txindex, s))
            continue
        lo = min(x[1] for x in v) if len(v) == len(states[s]) else 0
        # one spent meanwhile may be counted up to the newest block
        hi = max(x[1] if x[2] is None else tip - x[2] + 1 for x in v)
        if u.amount != v[0][0] or u.script != script.hex() or not lo <= u.confirmations <= hi:
            w.violation('wrong_entry', '%s lists %r, %s held (amount, confirmations) %s' % (name, u, s, sorted(set(v))))


def run_c29(w):
    c = w.c
    net = c.pick(['main', 'test'])
    op = c.pick(['unspent', 'txs'])
    serving = N.SERVES[(op, net)]
    target = c.pick(serving)
    size = c.pick(SIZES[(op, target)])
    a, script = pick_addr(w, net)
    w.net.quirks['blockchair_404'] = c.chance(1, 2)
    w.net.quirks['blockstream_cap'] = c.pick([500, 5000])
    w.net.max_requests = 400
    populate(w, net, script, size if size < 400 else size // c.pick([1, 10]) + 1, unconf_pct=c.pick([0, 10, 40]), spend_pct=0,
             outs_per_tx=1)
    led = w.net.ledgers[net]
    short = size - (len(led.view().addr(script).utxos) if op == 'unspent' else size)
    if short > 0:
        led.fund([(3000 + i, script) for i in range(short)], led.height - 600)
    elif op == 'txs' and len(led.view().addr(script).txs) < size:
        for i in range(size - len(led.view().addr(script).txs)):
            led.fund([(3000 + i, script)], led.height - 600)
    mover = Mover(w, net, script, *c.pick([(1, 1), (1, 2), (1, 4)]))
    faults = {}
    prof = c.weighted([('target', 5), ('hiccup', 2), ('some', 2), ('none', 1)])
    for s in serving:
        if prof in ('target', 'hiccup') and s != target or prof == 'some' and c.chance(1, 2):
            faults[s] = draw_fault(w, kmax=1)
            faults[s].k = c.pick([0, 0, 0, 1])
        elif prof == 'hiccup':
            # a request in the midst of the listing fails, those after it would not
            faults[s] = draw_fault(w, kinds=c.pick([ALL_KINDS, STATUS_KINDS]), kmax=1, once=True)
            faults[s].k = c.pick([1, 2, 2, 3, 4])
    w.net.latency_fn = None
    Plan(w, faults)
    w.net.on_request = mover
    name = '%s.%s' % (op, net)
    for _ in range(1 + c.below(3)):
        out = attempt(w, name, lambda: api_fn(w, op, net)(a))
        judge_moving(w, net, op, name, out, script)
        mover.left = 12
        for f in faults.values():
            f.seen = 0
    w.net.on_request = None


SCENARIOS = {'C01': run_c01, 'C02': run_c02, 'C29': run_c29}
