"""C27 what a wallet can receive it can spend."""
from . import btc, models
from .common import Plan, attempt, draw_fault, draw_secret
from .net import EXPLORERS
from .sc_pay import SEQ_FINAL
from .sc_store import edge_secret
from .wallets import other_address


def classes(w, net):
    bit = w.bit
    return (bit.PrivateKey, bit.MultiSig) if net == 'main' else (bit.PrivateKeyTestnet, bit.MultiSigTestnet)


def notation(w, pub):
    return w.c.pick([pub, pub, pub.hex()])


def script_size(m, pubs):
    return 3 + sum(len(p) + 1 for p in pubs)


def some_faults(w):
    c = w.c
    keep = c.pick(EXPLORERS[:2])
    Plan(w, {s: draw_fault(w) for s in EXPLORERS if s != keep and c.chance(1, 3)})


def unspents(w, net, coins, o, segwit_script):
    U = w.bit.network.meta.Unspent
    out = []
    for t, n, val, script, cf in coins:
        # typed by a refresh of the wallet, or not at all
        known = [u for u in o.unspents if (u.txid, u.txindex) == (t, n)]
        out.append(known[0] if known else U(val, cf, script.hex(), t, n, type='np2wkh' if script == segwit_script else 'p2pkh'))
    return out


def fund(w, net, script, k):
    c = w.c
    led = w.net.ledgers[net]
    for _ in range(k):
        led.fund([(c.pick([100000, 5 * 10 ** 6, 10 ** 9, 200000]), script)], c.pick([led.height - 5, led.height, None]))


def coins_of(w, net, scripts):
    st = w.net.ledgers[net].view()
    return [(t, n, val, s, cf) for s in scripts for t, n, val, cf, h in st.addr(s).utxos]


def spend(w, name, net, signers, addresses):
    """The first signer creates the payment, the others sign it; it must be valid."""
    c = w.c
    led = w.net.ledgers[net]
    scripts = [s for a, s in addresses]
    funded = c.pick([scripts, scripts[:1], scripts[-1:]])
    for s in funded:
        fund(w, net, s, 1 + c.below(2))
    coins = coins_of(w, net, scripts)
    total = sum(x[2] for x in coins)
    first = signers[0]
    how = c.pick(['create', 'refresh', 'prepare'])
    some_faults(w)
    out = attempt(w, name + '.refresh', first.get_unspents)
    if out.kind == 'raise':
        w.violation('not_found', '%s: %r although a service answers' % (name, out.value))
        return
    got = sorted((u.txid, u.txindex, u.amount, u.script) for u in out.value)
    want = sorted((t, n, val, s.hex()) for t, n, val, s, cf in coins)
    if got != want or first.balance != total:
        w.violation('not_found', '%s received %s and finds %s' % (name, want, got))
        return
    a, s = other_address(w, net)
    kw = {'fee': c.pick([1, 5, 20]), 'combine': c.chance(2, 3)}
    outs = [(a, max(1000, total // c.pick([2, 4])), 'satoshi')]
    if how == 'create':
        some_faults(w)
        out = attempt(w, name + '.create', lambda: first.create_transaction(outs, **kw))
    elif how == 'refresh':
        us = list(first.unspents)
        out = attempt(w, name + '.create', lambda: first.create_transaction(outs, unspents=us, **kw))
    else:
        us = list(first.unspents)
        if len(addresses) == 1 and not name.startswith('ms'):
            kw['compressed'] = False
        out = attempt(w, name + '.prepare', lambda: first.sign_transaction(type(first).prepare_transaction(addresses[0][0], outs, unspents=us, **kw)))
    data = out.value
    for i, o in enumerate(signers[1:]):
        if out.kind == 'raise':
            break
        sup = unspents(w, net, coins, o, scripts[-1] if len(scripts) > 1 else None) if c.chance(1, 2) else None
        if sup is None:
            some_faults(w)
        out = attempt(w, '%s.sign%d' % (name, i + 1), lambda: o.sign_transaction(data, unspents=sup) if sup else o.sign_transaction(data))
        data = out.value
    if out.kind == 'raise':
        if type(out.value).__name__ == 'InsufficientFunds':
            w.probe('insufficient')
            return
        w.violation('unspendable', '%s cannot spend what it received: %s: %s' % (name, type(out.value).__name__, out.value))
        return
    try:
        tx = led.validate(data)
    except btc.BadTx as e:
        w.violation('unspendable', '%s: what it received cannot be spent: %s' % (name, e))
        return
    if max(len(x[2]) for x in tx.vin) > 1650:
        w.violation('unspendable', '%s: an input script of %d bytes is not relayed' % (name, max(len(x[2]) for x in tx.vin)))
    if (tx.vout[0][0], tx.vout[0][1]) != (outs[0][1], s):
        w.violation('unspendable', '%s: pays %s' % (name, tx.vout[0]))
    w.probe('spent')
    for s in {led.prevout(t, n)[1] for t, n, _, _ in tx.vin}:
        w.probe('spent_from_%s' % ('first' if s == scripts[0] else 'segwit'))


def single(w, net):
    c = w.c
    comp = c.chance(2, 3)
    r = btc.RefKey(edge_secret(w), net, comp)
    cls = classes(w, net)[0]
    name = 'key%s.%s' % ('' if comp else '_u', net)
    how = c.below(3) if comp else 0
    out = attempt(w, name + '.new', lambda: cls(r.wif) if how == 0 else cls.from_hex(r.secret.hex()) if how == 1 else cls.from_int(int.from_bytes(r.secret, 'big')))
    if out.kind == 'raise':
        w.violation('refused', '%s: %s: %s' % (name, type(out.value).__name__, out.value))
        return
    o = out.value
    if (o.address, o.segwit_address) != (r.address, r.segwit_address):
        w.violation('wrong_address', '%s gives out %s' % (name, (o.address, o.segwit_address)))
        return
    addresses = [(r.address, r.script)] + ([(r.segwit_address, r.segwit_script)] if comp else [])
    spend(w, name, net, [o], addresses)


def contract(w, net):
    c = w.c
    n = c.pick([2, 3, 1, 7, 8, 15, 16, 17, 4, 14, 20, 6]) if c.chance(1, 2) else 1 + c.below(4)
    comp = [c.chance(9, 10) for _ in range(n)] if c.chance(1, 2) else [c.chance(1, 12)] * n if c.chance(1, 4) else [True] * n
    keys = [btc.RefKey(draw_secret(w), net, x) for x in comp]
    m = c.pick([1, n, (n + 1) // 2, 1 + c.below(n), 2])
    wrong = None
    if c.chance(1, 3):
        wrong = c.pick(['m', 'm', 'stranger', 'network', 'length', 'more_keys', 'text'])
    if n > 1 and c.chance(1, 8):
        # one co-signer counts repeatedly
        for _ in range(c.pick([1, 1, 2])):
            keys[c.below(n)] = keys[c.below(n)]
        w.probe('key_listed_repeatedly')
    weighted = len({k.pub for k in keys}) < n
    pubs = [k.pub for k in keys]
    order = c.chance(1, 3) and not weighted
    if order:
        if c.chance(1, 6):
            # a set that names a key in both notations lists it twice
            keys.append(keys[c.below(n)])
            n += 1
            w.probe('set_with_two_notations')
        keys = sorted(keys, key=lambda k: k.pub)
        pubs = [k.pub for k in keys]
    if wrong == 'm':
        m = c.pick([0, -1, n + 1, n + 2, -79, 20 + n])
    elif wrong == 'length':
        i = c.below(n)
        pubs[i] = c.pick([pubs[i][:-1], pubs[i] + b'\0', pubs[i][1:], b'', pubs[i][:1], pubs[i] * 2])
    elif wrong == 'more_keys':
        pubs = pubs + [btc.RefKey(draw_secret(w), net, True).pub for _ in range(16 - n if n < 16 else 1)]
    elif wrong == 'text':
        i = c.below(n)
    key_cls, ms_cls = classes(w, net)
    j0 = c.below(n)
    if wrong in ('length', 'text') and c.chance(1, 2) and n > 1 and i == j0:
        j0 = (j0 + 1) % n
    valid = wrong is None and 1 <= m <= n and script_size(m, pubs) <= 520
    name = 'ms.%s.%dof%d%s' % (net, m, len(pubs), '.' + wrong if wrong else '')

    def make(j):
        k = keys[j]
        if wrong == 'stranger':
            k = btc.RefKey(draw_secret(w), net, True)
        if wrong == 'network':
            other = classes(w, 'test' if net == 'main' else 'main')[0]
            priv = other(btc.RefKey(k.secret, 'test' if net == 'main' else 'main', len(k.pub) == 33).wif)
        else:
            priv = key_cls(k.wif)
        # the notation of the own key must be the one the class looks for: any
        given = [notation(w, p) if not order or pubs.count(p) == 1 else p if p not in pubs[:i] else p.hex() for i, p in enumerate(pubs)]
        if wrong == 'text':
            h = pubs[i].hex()
            given[i] = w.c.pick([h + 'g', 'x' + h[1:], h[:-2], h + '00'])
        return ms_cls(priv, set(given) if order else given, m)

    out = attempt(w, name + '.new', lambda: make(j0))
    if not valid:
        if out.kind == 'ok':
            got = attempt(w, name + '.address', lambda: (out.value.address, out.value.segwit_address))
            if got.kind == 'ok':
                w.violation('unspendable_accepted', '%s (script of %d bytes) hands out %s' % (name, script_size(m, pubs), got.value))
            out = got
        elif not isinstance(out.value, (ValueError, TypeError)):
            w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
        w.probe('contract_refused')
        w.probe('refused_%s' % (wrong or 'size'))
        return
    if out.kind == 'raise':
        w.violation('refused', '%s (script of %d bytes): %s: %s' % (name, script_size(m, pubs), type(out.value).__name__, out.value))
        return
    ref = btc.RefMultisig(keys, m, net)
    o = out.value
    if (o.address, o.segwit_address) != (ref.address, ref.segwit_address):
        w.violation('wrong_address', '%s gives out %s instead of %s' % (name, (o.address, o.segwit_address), (ref.address, ref.segwit_address)))
        return
    others, votes = [], sum(k.pub == keys[j0].pub for k in keys)
    for j in c.shuffle(list(range(n))):
        if votes < m and keys[j].pub not in [keys[i].pub for i in others + [j0]]:
            others.append(j)
            votes += sum(k.pub == keys[j].pub for k in keys)
    if c.chance(1, 4):
        w.fresh()
        w.fault('restart')
        key_cls, ms_cls = classes(w, net)
        out = attempt(w, name + '.new', lambda: make(j0))
        if out.kind == 'raise':
            w.violation('refused', '%s after a restart: %s' % (name, out.value))
            return
        o = out.value
    addresses = [(ref.address, ref.script)] + ([(ref.segwit_address, ref.segwit_script)] if ref.segwit_address else [])
    w.probe('contract_of_%s' % ('15' if n == 15 else '8+' if n > 7 else 'few'))
    spend(w, name, net, [o] + [make(j) for j in others], addresses)


def run_c27(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    for _ in range(1 + c.below(3)):
        net = c.pick(['main', 'test'])
        if c.chance(1, 4):
            single(w, net)
        else:
            contract(w, net)


SCENARIOS = {'C27': run_c27}
