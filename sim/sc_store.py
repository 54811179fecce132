"""What is written down, stored or handed over: C20 damaged addresses and keys, C21 restored
wallets, C22 transactions in transit, C23 new keys."""
from . import btc
from .common import attempt, draw_secret, Outcome
from .core import SimAbort, SimHang, Violation
from . import models
from .sc_pay import Payment, judge, draw_coins, draw_faults, fee_rates, pool_of, net_state
from .wallets import Wallet, other_address

N_ORDER = btc.ORDER
LOOKALIKE = {'1': 'lI', 'o': '0O', 'i': '1lI', 'B': '8', '8': 'B', '5': 'S', 'S': '5', '2': 'Z', 'Z': '2', 'q': 'g9', 'g': 'q', '9': 'g', '6': 'b', 'b': '6',
             'u': 'v', 'v': 'u', 'n': 'm', 'm': 'n', '0': 'O', 'l': '1', '7': '1', 'c': 'e', 'e': 'c'}


# -- C20 ----------------------------------------------------------------------
def mistype(w, text, kind):
    """(what happened, another text than `text`)."""
    c = w.c
    n = len(text)
    alphabet = btc.CH32 if text[:3].lower() in ('bc1', 'tb1') else btc.B58
    k = c.below(16)
    i = c.below(n)
    if k == 0:
        out, what = text[:i] + c.pick(alphabet) + text[i + 1:], 'char_changed'
    elif k == 1:
        out, what = text[:i] + text[i + 1:i + 2] + text[i] + text[i + 2:], 'chars_swapped'
    elif k == 2:
        out, what = text[:i] + text[i + 1:], 'char_lost'
    elif k == 3:
        out, what = text[:i] + c.pick(alphabet) + text[i:], 'char_added'
    elif k == 4:
        out, what = text[:i] + text[i] + text[i:], 'char_doubled'
    elif k == 5:
        out, what = text[:i], 'cut_off'
    elif k == 6:
        out, what = text[:i] + text[i].swapcase() + text[i + 1:], 'case_changed'
    elif k == 7:
        out, what = text[:i] + c.pick(LOOKALIKE.get(text[i], '?')) + text[i + 1:], 'misread'
    elif k == 8:
        out, what = text + c.pick([' ', '\n', '.', ',', '\u200b', '\r\n', text]), 'appended'
    elif k == 9:
        j = c.below(n)
        out = list(text)
        out[i], out[j] = c.pick(alphabet), c.pick(alphabet)
        out, what = ''.join(out), 'chars_changed'
    elif k == 10:
        out, what = c.pick([text.upper(), text.lower(), text.swapcase()]), 'case_changed'
    elif k == 11:
        out, what = c.pick([' ', '1', '\n', '"', 'bitcoin:']) + text, 'prepended'
    elif k == 12:
        # what the bech32 checksum does not notice
        out = text[:-1] + 'q' * (1 + c.below(4)) + text[-1] if c.chance(1, 2) else text[:-2] + text[-1]
        what = 'length_changed'
    elif k < 15:
        # what wrote the text was damaged: the checksum fits, the contents do not
        what = 'contents_damaged'
        body = btc.sha256(draw_secret(w))
        if kind == 'wif':
            ver = c.pick([b'\x80', b'\xef', b'\x80', b'\xef', b'\x81', b'\0'])
            flag = c.pick([b'', b'\x01', b'\x02', b'\0', b'\x01\x01'])
            body = c.pick([body, body, body[1:], body[:-2], body + b'\x07', b'', bytes(32), btc.ORDER.to_bytes(32, 'big'), b'\xff' * 32])
            out = btc.b58check(ver + body + flag)
        elif c.chance(1, 2):
            ver = c.pick([b'\0', b'\x05', b'\x6f', b'\xc4', b'\x06', b'\x80'])
            out = btc.b58check(ver + body[:c.pick([19, 21, 0, 1, 20, 32, 16, 24])])
        else:
            hrp = c.pick(['bc', 'tb', 'bc', 'tb', 'ltc', 'b'])
            out = btc.bech32_address(hrp, (body + body)[:c.pick([20, 32, 19, 21, 2, 31, 33, 40, 1, 24])], c.below(16),
                                     c.pick([(), (), (), (0,), (0, 0), (1,), (31,)]))
    else:
        # something else was copied
        r = btc.RefKey(draw_secret(w), c.pick(['main', 'test']), c.chance(1, 2))
        if kind == 'wif':
            out = c.pick([r.address, r.secret.hex(), r.pub.hex()])
        else:
            out = c.pick([r.wif, r.pub.hex(), btc.sha256(r.secret).hex(), btc.b58check(b'\x04\x88\xb2\x1e' + bytes(41) + r.pub[:33])])
        what = 'wrong_field'
    return what, out


def scripts_or_none(text, net):
    try:
        n, s = btc.address_script(text)
    except ValueError:
        return None
    return s if n == net else None


def run_c20(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    wal = Wallet(w, kind=c.weighted([('key', 4), ('key_u', 1), ('ms', 1)]), m=1)
    net = wal.net
    led = w.net.ledgers[net]
    draw_coins(w, wal, 1 + c.below(3))
    led.fund([(10 ** 7, wal.addresses[0][1])], led.height - 3)
    owned = set(wal.scripts)
    for _ in range(1 + c.below(4)):
        if c.chance(1, 3):
            damaged_key(w, net)
            continue
        coins = wal.coins()
        if sum(x[2] for x in coins) < 10 ** 6:
            led.fund([(10 ** 7, wal.addresses[0][1])], led.height - 3)
            coins = wal.coins()
        pool = pool_of(coins)
        total = sum(x[2] for x in coins)
        p = Payment(w, wal, total // c.pick([5, 10, 30]), fiat=False, max_outs=3)
        where = c.below(len(p.outs) + (1 if p.leftover else 0))
        good = p.outs[where][0] if where < len(p.outs) else p.leftover
        if c.chance(1, 3) and net == 'main':
            # the ones whose last character hides additional ones
            for x in range(64):
                a = btc.bech32_address('bc', btc.sha256(b'%d.%d' % (x, c.below(4)))[:c.pick([20, 32])])
                if a.endswith('p'):
                    good = a
                    break
        what, bad = mistype(w, good, 'address') if not c.chance(1, 6) else ('intact', good)
        script = scripts_or_none(bad, net)
        w.fault('text_' + what)
        if where < len(p.outs):
            p.outs[where] = (bad,) + p.outs[where][1:]
            p.want[where] = (p.want[where][0], script)
        else:
            p.leftover, p.left_script = bad, script
            if not bad:
                continue
        how = c.pick(['create', 'send', 'prepare']) if not wal.is_ms else c.pick(['create', 'prepare'])
        supplied = wal.unspents_for(coins) if how == 'prepare' or c.chance(1, 2) else None
        draw_faults(w)
        name = '%s.%s.%s' % (wal.kind, net, how)
        w.log('payment', p.outs, 'change', p.leftover, what, 'valid' if script else 'invalid')
        if how == 'prepare':
            kw = p.kw()
            if wal.kind == 'key_u':
                kw['compressed'] = False
            fn = lambda: wal.cls.prepare_transaction(wal.addresses[0][0], list(p.outs), unspents=supplied, **kw)  # noqa: E731
        else:
            meth = wal.obj.send if how == 'send' else wal.obj.create_transaction
            fn = lambda: meth(list(p.outs), unspents=supplied, **p.kw())  # noqa: E731
        out = attempt(w, name, fn)
        reqs = list(w.net.requests)
        pushes = [r for r in reqs if r.kind == 'push']
        if script is None:
            if pushes:
                w.violation('sent_to_damaged', '%s broadcast a payment although %r is no address (%s)' % (name, bad, what))
            if out.kind != 'raise':
                w.violation('damaged_accepted', '%s accepted %r (%s) which is no address' % (name, bad, what))
                return
            if type(out.value) is ConnectionError and any(r.fault for r in reqs):
                w.probe('unreachable')
            elif not isinstance(out.value, ValueError):
                w.violation('leaked_exception', '%s raised %s: %s for %r (%s)' % (name, type(out.value).__name__, out.value, bad, what))
            else:
                w.probe('refused')
            continue
        w.probe('valid_address')
        if out.kind == 'raise':
            if type(out.value) is ConnectionError and any(r.fault or (r.status and r.status != 200) for r in reqs):
                w.probe('unreachable')
            elif type(out.value).__name__ == 'InsufficientFunds':
                w.probe('insufficient')
            else:
                w.violation('valid_refused', '%s raised %s: %s for %r (%s)' % (name, type(out.value).__name__, out.value, bad, what))
            continue
        if how == 'create':
            judge(w, name, out.value, p, owned, pool, fee_rates(w, p), sizes_known=not wal.is_ms)


def damaged_key(w, net):
    c = w.c
    r = btc.RefKey(draw_secret(w), c.pick([net, 'main', 'test']), c.chance(2, 3))
    what, bad = mistype(w, r.wif, 'wif') if not c.chance(1, 6) else ('intact', r.wif)
    w.fault('text_' + what)
    bit = w.bit
    try:
        got = btc.wif_decode(bad)
    except ValueError:
        got = None
    how = c.below(4)
    cls = [bit.PrivateKey, bit.PrivateKeyTestnet, bit.Key, None][how]
    name = 'import.%s' % ['PrivateKey', 'PrivateKeyTestnet', 'Key', 'wif_to_key'][how]
    out = attempt(w, name, lambda: cls(bad) if cls else bit.wif_to_key(bad))
    if got is None:
        if out.kind != 'raise':
            w.violation('damaged_accepted', '%s made the key of %s from %r (%s) which is no WIF' % (name, out.value.address, bad, what))
        elif not isinstance(out.value, ValueError):
            w.violation('leaked_exception', '%s raised %s: %s for %r (%s)' % (name, type(out.value).__name__, out.value, bad, what))
        w.probe('key_refused')
    elif out.kind == 'raise':
        w.violation('valid_refused', '%s raised %s: %s for %r (%s)' % (name, type(out.value).__name__, out.value, bad, what))
    else:
        knet, secret, comp = got
        want = btc.RefKey(secret, knet if how == 3 else ('test' if how == 1 else 'main'), comp)
        if (out.value.to_bytes(), out.value.address, out.value.is_compressed()) != (secret, want.address, comp):
            w.violation('wrong_key', '%s made %s of the key of %s' % (name, out.value.address, want.address))
        w.probe('key_imported')


# -- C21 ----------------------------------------------------------------------
class Disk:
    """Files of which only what was synced survives a crash."""

    def __init__(self, w):
        self.w, self.files = w, {}

    def write(self, name, data):
        """Returns how the write ends: whole, torn, zeroed or lost."""
        c = self.w.c
        k = c.weighted([('whole', 6), ('torn', 2), ('zeroed', 1), ('lost', 1)])
        if k == 'torn':
            data = data[:c.below(len(data))]
        elif k == 'zeroed':
            i = c.below(len(data))
            z = b'\0' if isinstance(data, bytes) else '\0'
            data = data[:i] + z * (len(data) - i)
        elif k == 'lost':
            data = data[:0]
        if k != 'whole':
            self.w.fault('write_' + k)
        self.files[name] = data
        return k

    def read(self, name):
        return self.files[name]


def edge_secret(w):
    c = w.c
    k = c.below(6)
    if k == 0:
        return (1 + c.below(300)).to_bytes(32, 'big')
    if k == 1:
        return (N_ORDER - 1 - c.below(300)).to_bytes(32, 'big')
    if k == 2:
        z = 1 + c.below(30)
        return bytes(z) + (w.entropy.getrandbits(8 * (32 - z)) | 1).to_bytes(32 - z, 'big')
    if k == 3:
        return ((w.entropy.getrandbits(220) | 1) << (8 * c.below(4))).to_bytes(32, 'big')
    return draw_secret(w)


def same_key(w, name, o, r):
    """`o` must be the wallet of the reference key `r` in every respect."""
    def facts():
        return {'secret': o.to_bytes(), 'hex': o.to_hex().lower(), 'int': o.to_int(), 'public key': o.public_key,
                'public hex': o.pub_to_hex(), 'address': o.address,
                'segwit address': o.segwit_address, 'WIF': o.to_wif(), 'compressed': bool(o.is_compressed()), 'network': o.version,
                'x': o.public_point.x, 'y': o.public_point.y, 'held': (list(o.unspents), list(o.transactions), o.balance)}
    out = attempt(w, name + '.facts', facts)
    if out.kind == 'raise':
        w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
        return False
    full = btc.RefKey(r.secret, r.net, False).pub
    n = int.from_bytes(r.secret, 'big')
    want = {'secret': r.secret, 'hex': r.secret.hex(), 'int': n, 'public key': r.pub, 'public hex': r.pub.hex(), 'address': r.address,
            'segwit address': r.segwit_address, 'WIF': r.wif, 'compressed': r.compressed, 'network': r.net,
            'x': int.from_bytes(full[1:33], 'big'), 'y': int.from_bytes(full[33:], 'big'), 'held': ([], [], 0)}
    for k in want:
        if out.value[k] != want[k]:
            w.violation('not_the_same', '%s: %s is %r, was %r' % (name, k, out.value[k], want[k]))
            return False
    return True


FORMATS = ('wif', 'hex', 'bytes', 'int', 'der', 'pem')


def run_c21(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    disk = Disk(w)
    if c.chance(2, 5):
        contract(w, disk)
        return
    for _ in range(1 + c.below(3)):
        net = c.pick(['main', 'test'])
        r = btc.RefKey(edge_secret(w), net, c.chance(3, 4))
        cls = w.bit.PrivateKey if net == 'main' else w.bit.PrivateKeyTestnet
        how = c.below(3)
        name = 'key.%s' % net
        if how == 0 and r.compressed:       # a new key
            w.entropy_hook = lambda n: r.secret if n == 32 else None
            out = attempt(w, name + '.new', lambda: cls())
            w.entropy_hook = None
            if out.kind != 'raise':
                r = btc.RefKey(out.value.to_bytes(), net, True)
        else:
            out = attempt(w, name + '.wif', lambda: cls(r.wif))
        if out.kind == 'raise':
            w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
            return
        key = out.value
        fates = {}
        before = {}
        for f in c.subset(FORMATS) or [c.pick(FORMATS)]:
            out = attempt(w, 'export.' + f, lambda: getattr(key, 'to_' + f)())
            if out.kind == 'raise':
                w.violation('leaked_exception', 'to_%s raised %r' % (f, out.value))
                return
            data = out.value
            before[f] = data
            fates[f] = disk.write(f, str(data) if f == 'int' else data)
        if c.chance(3, 4):
            w.sleep(c.pick([1, 3600, 10 ** 8]))
            w.fault('restart')
            w.fresh()
        net_state(w)
        cls = w.bit.PrivateKey if net == 'main' else w.bit.PrivateKeyTestnet
        for f, fate in fates.items():
            data = disk.read(f)
            name = 'restore.%s.%s.%s' % (net, f, fate)
            if fate != 'whole':
                if f != 'wif' or data == before[f]:
                    continue        # nothing in the format could tell
                out = attempt(w, name, lambda: cls(data))
                if out.kind != 'raise':
                    w.violation('damaged_accepted', '%s: %r was written, %r is left, which gave %s' % (name, before[f], data, out.value.address))
                elif not isinstance(out.value, ValueError):
                    w.violation('leaked_exception', '%s raised %r' % (name, out.value))
                w.probe('torn_refused')
                continue
            want = r
            if f == 'wif':
                k = c.below(3)
                if k == 2:
                    fn = lambda: w.bit.wif_to_key(data)  # noqa: E731
                else:
                    fn = lambda: cls(data)  # noqa: E731
            else:
                want = btc.RefKey(r.secret, net, True)
                arg = int(data) if f == 'int' else data
                if f == 'hex' and c.chance(1, 3):
                    arg = arg.upper()
                fn = lambda: getattr(cls, 'from_' + f)(arg)  # noqa: E731
            out = attempt(w, name, fn)
            if out.kind == 'raise':
                w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
                return
            new = out.value
            if not same_key(w, name, new, want):
                return
            if not (new == key):
                w.violation('not_the_same', '%s: the restored key does not equal the original' % name)
            if w.net.requests or w.net.escaped:
                w.violation('network', '%s used the network' % name)
            w.probe('restored_' + f)
            if c.chance(1, 3):
                spend(w, name, new, want, net)


def spend(w, name, o, r, net):
    """The restored key can spend what the original received."""
    c = w.c
    led = w.net.ledgers[net]
    w.net.fault_fn = None
    e = led.fund([(200000 + c.below(1000), r.script)] + ([(300000, r.segwit_script)] if r.segwit_address else []), led.height - 2)
    U = w.bit.network.meta.Unspent
    us = []
    for n, (v, s) in enumerate(e.tx.vout):
        u = U(v, 3, s.hex(), e.txid, n)
        us.append(u.set_type('np2wkh' if n else ('p2pkh' if r.compressed else 'p2pkh-uncompressed')))
    a, s = other_address(w, net)
    out = attempt(w, name + '.spend', lambda: o.create_transaction([(a, 5000, 'satoshi')], fee=2, unspents=us))
    if out.kind == 'raise':
        w.violation('leaked_exception', '%s.spend raised %r' % (name, out.value))
        return
    try:
        tx = led.validate(out.value)
    except btc.BadTx as e:
        w.violation('cannot_spend', '%s: the restored key does not spend the coins of the original: %s' % (name, e))
        return
    if tx.vout[0] != (5000, s):
        w.violation('cannot_spend', '%s pays %r' % (name, tx.vout[0]))
    w.probe('spent')


def contract(w, disk):
    """Co-signers on machines of their own derive the same contract."""
    c = w.c
    net = c.pick(['main', 'test'])
    n = c.between(1, 5)
    keys = []
    while len(keys) < n:
        k = btc.RefKey(edge_secret(w), net, c.chance(9, 10))
        if k.secret not in [x.secret for x in keys]:
            keys.append(k)
    m = c.between(1, n)
    as_set = c.chance(1, 2)
    order = sorted(keys, key=lambda k: k.pub) if as_set else keys
    ref = btc.RefMultisig(order, m, net)
    seen = []
    for j in range(n):
        w.fresh()
        w.fault('restart')
        state = net_state(w)
        bit = w.bit
        kcls = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
        mcls = bit.MultiSig if net == 'main' else bit.MultiSigTestnet
        me = order[j]
        pubs = []
        for k in (c.shuffle(order) if as_set else order):
            f = c.below(3)
            pubs.append(k.pub if f == 0 else k.pub.hex() if f == 1 or k is me else k.pub.hex().upper())
        name = '%s.%dof%d.signer' % (net, m, n)
        w.log('public keys', pubs)
        out = attempt(w, name, lambda: mcls(kcls(me.wif), set(pubs) if as_set else list(pubs), m))
        if out.kind == 'raise':
            w.violation('leaked_exception', '%s (%s) raised %s: %s' % (name, state, type(out.value).__name__, out.value))
            return
        o = out.value
        out = attempt(w, name + '.facts', lambda: (o.address, o.segwit_address, bytes(o.redeemscript), o.m))
        if out.kind == 'raise':
            w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
            return
        got = out.value
        if w.net.requests or w.net.escaped:
            w.violation('network', '%s used the network' % name)
        want = (ref.address, ref.segwit_address, ref.redeem, m)
        if got != want:
            w.violation('disagree', 'signer %d of %s has %s, the contract of these keys is %s' % (j, name, got[:2], want[:2]))
            return
        seen.append(got)
    w.probe('contract_agreed')


# -- C22 ----------------------------------------------------------------------
def draw_script(w, lengths):
    n = w.c.pick(lengths)
    return w.entropy.randbytes(n)


def draw_tx(w, maxn=4):
    """A well-formed transaction of any form somebody may have made."""
    c = w.c
    e = w.entropy
    lens = [25, 0, 1, 22, 34, 107, 252, 253, 254, 255, 256, 300, 600]
    many = c.chance(1, 30)
    nin = c.pick([252, 253, 300]) if many and c.chance(1, 2) else 1 + c.below(maxn)
    nout = c.pick([252, 253, 256]) if many and nin < 10 else 1 + c.below(maxn)
    if many:
        lens = [25, 0, 1]
    vin = [(e.randbytes(32).hex(), c.pick([0, 1, 255, 256, 0xFFFFFFFF, 65536]), draw_script(w, lens), c.pick([0xFFFFFFFF, 0, 0xFFFFFFFD, 0xFFFFFFFE]))
           for _ in range(nin)]
    vout = [(c.pick([0, 1, 546, 10 ** 8, 2100000000000000, 2 ** 32]), draw_script(w, lens)) for _ in range(nout)]
    seg = c.chance(1, 2)
    wit = [[] for _ in vin]
    if seg:
        for i in range(nin):
            if c.chance(2, 3) or i == nin - 1:
                wit[i] = [draw_script(w, [72, 33, 0, 1, 252, 253, 256, 520]) for _ in range(1 + c.below(4))]
        if c.chance(1, 40):
            wit[0] = [e.randbytes(70000)]
        if c.chance(1, 40):
            wit[0] = [b'\x01'] * 253
    return btc.Tx(c.pick([1, 2, 0, 0x7FFFFFFF]).to_bytes(4, 'little'), vin, vout, wit, c.pick([0, 500000, 1700000000, 0xFFFFFFFF]).to_bytes(4, 'little'), seg)


def transit_damage(w, hexs):
    """The transaction is not received as sent, recognisably."""
    c = w.c
    k = c.below(8)
    n = len(hexs)
    if k == 0:
        out, what = hexs[:2 * c.below(n // 2)], 'cut_off'
    elif k == 1:
        out, what = hexs[:n - 2 * (1 + c.below(8))], 'cut_off'
    elif k == 2:
        out, what = hexs[:1 + 2 * c.below(n // 2)], 'cut_off'
    elif k == 3:
        out, what = hexs + c.pick(['00', hexs, '0', 'ff' * 4, '00000000']), 'extended'
    elif k == 4:
        i = c.below(n)
        out, what = hexs[:i] + c.pick(['g', ' ', '\n', '-']) + hexs[i + 1:], 'not_hex'
    elif k < 7:
        i = c.pick([8, 10, 2 * c.below(n // 2)])
        out, what = hexs[:i] + c.pick(['00', '01', '02', 'ff', 'fd', '%02x' % c.below(256)]) + hexs[i + 2:], 'byte_changed'
    else:
        i = 2 * c.below(n // 2)
        out, what = hexs[:i] + hexs[i + 2 * (1 + c.below(4)):], 'bytes_lost'
    try:
        btc.Tx.parse(out, partial=True)
    except btc.BadTx:
        return what, out
    return None, out


def run_c22(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    wal = Wallet(w, kind=c.weighted([('key', 3), ('key_u', 1), ('ms', 2)]), own=None)
    net = wal.net
    led = w.net.ledgers[net]
    T = w.bit.transaction
    for _ in range(1 + c.below(4)):
        own = c.chance(1, 3)
        if own:
            draw_coins(w, wal, 1 + c.below(3))
            coins = wal.coins()
            us = wal.unspents_for(coins)
            tx = btc.Tx(b'\x01\0\0\0', [(t, n, b'', 0xFFFFFFFF) for t, n, v, s, cf in coins],
                        [(sum(x[2] for x in coins) // 2 + 1, other_address(w, net)[1])], [[] for _ in coins], bytes(4), False)
        else:
            tx = draw_tx(w)
            us = None
        hexs = tx.hex()
        form = c.pick(['hex', 'HEX', 'bytes'])
        data = hexs if form == 'hex' else hexs.upper() if form == 'HEX' else bytes.fromhex(hexs)
        net_state(w)
        name = 'tx.%s' % form
        out = attempt(w, name, lambda: T.deserialize(data))
        if out.kind == 'raise':
            w.violation('leaked_exception', '%s raised %s: %s for a well-formed transaction' % (name, type(out.value).__name__, out.value))
            return
        obj = out.value
        out = attempt(w, name + '.ser', lambda: (obj.to_hex(), bytes(obj).hex(), T.TxObj.is_segwit(data) if form != 'HEX' else tx.segwit,
                                                 T.calc_txid(hexs)))
        if out.kind == 'raise':
            w.violation('leaked_exception', '%s.ser raised %s: %s' % (name, type(out.value).__name__, out.value))
            return
        want = (hexs, hexs, tx.segwit, tx.txid)
        if out.value != want:
            w.violation('changed', '%s came back as %r, was %r' % (name, [str(x)[:400] for x in out.value], [str(x)[:400] for x in want]))
            return
        w.probe('round_trip')
        what, bad = transit_damage(w, hexs)
        if what is None:
            continue
        w.fault('tx_' + what)
        if own:
            j = c.below(len(wal.keys))
            o = wal.signer(j) if wal.is_ms else wal.obj
            name = 'sign.%s.%s' % (wal.kind, what)
            out = attempt(w, name, lambda: o.sign_transaction(bad, unspents=us))
        else:
            name = 'read.%s' % what
            fn = c.pick([T.deserialize, T.calc_txid])
            out = attempt(w, name, lambda: fn(bad))
        if w.net.requests or w.net.escaped:
            w.violation('network', '%s used the network' % name)
        if out.kind != 'raise':
            w.violation('damaged_accepted', '%s: %s of %s was accepted and gave %s' % (name, bad[:300], hexs[:300], str(out.value)[:300]))
        elif not isinstance(out.value, ValueError):
            w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
        w.probe('damage_refused')


# -- C23 ----------------------------------------------------------------------
class OsRandom:
    """The operating system's randomness of one machine, as a byte stream.

    Two machines may get streams that differ in only one byte of every 32."""

    def __init__(self, w, seed, delta=0, pos=0):
        import random
        self.w = w
        self.rng = random.Random(seed)
        self.delta, self.pos, self.at = delta, pos, 0
        self.down = False
        self.odd = 0
        self.met = False
        self.read = 0

    def __call__(self, n):
        if self.down:
            raise OSError(38, 'Function not implemented') if self.down == 1 else NotImplementedError('no source of randomness')
        out = bytearray(self.rng.randbytes(n))
        for i in range(n):
            if (self.at + i) % 32 == self.pos:
                out[i] ^= self.delta
        self.at += n
        self.read += n
        if n == 32 and self.odd:
            self.odd -= 1
            self.met = True
            self.w.fault('useless_random')
            return self.w.c.pick([bytes(32), b'\xff' * 32, N_ORDER.to_bytes(32, 'big'), (N_ORDER + 1).to_bytes(32, 'big')])
        return bytes(out)


def make_key(w, how):
    """(secret, address, segwit address or None) of a new key."""
    bit = w.bit
    if how == 2:
        kg = __import__('bit.keygen', fromlist=['x'])
        wif, address = kg.generate_key_address_pair()
        net, secret, comp = btc.wif_decode(wif)
        r = btc.RefKey(secret, net, comp)
        return 'main', comp, secret, address, r.segwit_address
    if how == 3:
        kg = __import__('bit.keygen', fromlist=['x'])
        wif, address = kg.generate_matching_address('')
        net, secret, comp = btc.wif_decode(wif)
        r = btc.RefKey(secret, net, comp)
        return 'main', comp, secret, address, r.segwit_address
    o = (bit.PrivateKey, bit.PrivateKeyTestnet, None, None, bit.Key)[how]()
    return o.version, o.is_compressed(), o.to_bytes(), o.address, o.segwit_address


def judge_key(w, name, got, seen, who):
    net, comp, secret, address, seg = got
    n = int.from_bytes(secret, 'big')
    if not 0 < n < N_ORDER or len(secret) != 32:
        w.violation('invalid_key', '%s made the invalid key %s' % (name, secret.hex()))
        return
    r = btc.RefKey(secret, net, comp)
    if (address, seg) != (r.address, r.segwit_address) or not comp:
        w.violation('not_controlled', '%s reports %s / %s, its key controls %s / %s' % (name, address, seg, r.address, r.segwit_address))
    if secret in seen:
        w.violation('repeated_key', '%s (%s) made the same key as %s' % (name, who, seen[secret]))
    seen[secret] = who


def run_c23(w):
    import random as rnd
    c = w.c
    seed = c.below(1 << 20)
    t0 = (w.mono, w.skew)
    pyseed = c.below(4)
    same = c.chance(1, 2)
    pos = c.below(32)
    ops = [c.below(5) for _ in range(1 + c.below(4))]
    threads = c.chance(1, 3)
    seen = {}
    for mach in range(2):
        # a clone of the machine: same clock, same state of the random module, other entropy
        w.mono, w.skew = t0
        w.fault('restart')
        w.rand_mode(0)
        rnd.seed(pyseed)
        src = OsRandom(w, seed if same else seed * 2 + mach, 1 + c.below(255) if mach and same else 0, pos)
        w.entropy_hook = src
        w.fresh()
        __import__('bit.keygen')        # importing takes a lock that the scheduler does not know
        rnd.seed(pyseed)
        if threads and mach == 0 or not threads:
            net_state(w)
        if threads:
            threads_of_keys(w, ops, seen, mach)
            continue
        for i, how in enumerate(ops):
            if c.chance(1, 5):
                src.down = 1 + c.below(2)
                w.fault('no_randomness')
            elif c.chance(1, 5):
                src.odd = 1 + c.below(2)
            name = 'new%d' % how
            out = attempt(w, name, lambda: make_key(w, how))
            if w.net.requests or w.net.escaped:
                w.violation('network', '%s used the network' % name)
            if src.down:
                if out.kind != 'raise':
                    w.violation('weak_key', '%s made a key although the system had no randomness' % name)
                w.probe('refused')
                src.down = False
                out = attempt(w, name, lambda: make_key(w, how))
            if out.kind == 'raise':
                if src.met:
                    src.met = False
                    w.probe('useless_refused')
                    continue
                w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
                return
            src.met = False
            judge_key(w, name, out.value, seen, 'machine %d, key %d' % (mach, i))
            w.probe('key')
            if c.chance(1, 3):
                rnd.seed(pyseed)        # as programs do that want repeatable choices
                w.fault('reseeded')
    if same:
        w.probe('one_byte_of_entropy')


def threads_of_keys(w, ops, seen, mach):
    c = w.c
    w.preempt_lines = 25
    boxes = []
    start = len(w.tasks)
    for i in range(2 + c.below(2)):
        box = []
        boxes.append(box)

        def work(box=box):
            for how in ops:
                try:
                    box.append(Outcome('ok', make_key(w, how)))
                except (SimAbort, SimHang, Violation):
                    raise
                except Exception as e:
                    box.append(Outcome('raise', e))
        w.spawn('m%dt%d' % (mach, i), work)
    if not w.run_tasks(deadline=w.mono + 3600):
        w.violation('hang', 'creating keys did not end: %s' % w.hang)
        return
    for i, box in enumerate(boxes):
        if w.tasks[start + i].error is not None:
            w.violation('leaked_exception', 'thread %d: %r' % (i, w.tasks[start + i].error))
        for k, out in enumerate(box):
            if out.kind == 'raise':
                w.violation('leaked_exception', 'thread %d raised %r' % (i, out.value))
                return
            judge_key(w, 'thread%d' % i, out.value, seen, 'machine %d, thread %d, key %d' % (mach, i, k))
    w.op('threads')
    w.probe('threads')


# -- C24 ----------------------------------------------------------------------
def tamper(w, b):
    c = w.c
    k = c.below(5)
    i = c.below(len(b))
    if k == 0:
        out = b[:i] + bytes([b[i] ^ (1 << c.below(8))]) + b[i + 1:]
    elif k == 1:
        out = b[:i]
    elif k == 2:
        out = b + w.entropy.randbytes(c.pick([1, 2, 3, 8, 60]))
    elif k == 3:
        out = b[:i] + b[i + 1:]
    else:
        out = bytes(len(b))
    return out if out != b else b + b'x'


def run_c24(w):
    c = w.c
    for _ in range(1 + c.below(3)):
        net = c.pick(['main', 'test'])
        keys = [btc.RefKey(edge_secret(w), net, c.chance(3, 4)) for _ in range(2)]
        if keys[0].secret == keys[1].secret:
            continue
        bit = w.bit
        cls = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
        o = cls(keys[0].wif)
        if c.chance(1, 4):
            mc = bit.MultiSig if net == 'main' else bit.MultiSigTestnet
            signer = mc(o, [k.pub for k in keys], 1)
        else:
            signer = o
        data = w.entropy.randbytes(c.pick([32, 1, 33, 64, 500, 80, 5000, 70000]))
        out = attempt(w, 'sign', lambda: signer.sign(data))
        if out.kind == 'raise':
            w.violation('leaked_exception', 'sign raised %r' % out.value)
            return
        sig = out.value
        if not isinstance(sig, bytes) or not btc._strict_der(sig):
            w.violation('not_standard', 'the signature %r is not a strict low-S DER one' % sig)
            return
        if not btc._checksig(sig + b'\x01', keys[0].pub, btc.sha256(data)):
            w.violation('invalid_signature', 'an independent verifier refuses %s' % sig.hex())
            return
        # on to the verifier's machine
        w.sleep(c.pick([0, 3600]))
        if c.chance(1, 2):
            w.fresh()
            w.fault('restart')
        net_state(w)
        bit = w.bit
        cls = bit.PrivateKey if net == 'main' else bit.PrivateKeyTestnet
        for _ in range(1 + c.below(4)):
            check_copy(w, bit, cls, keys, sig, data)


def check_copy(w, bit, cls, keys, sig, data):
    """One verification of what may have been tampered with."""
    c = w.c
    pub, s2, d2 = keys[0].pub, sig, data
    what = c.pick(['intact', 'data', 'signature', 'key', 'data', 'signature', 'key'])
    if what == 'data':
        d2 = tamper(w, data)
    elif what == 'signature':
        s2 = tamper(w, sig)
    elif what == 'key':
        pub = keys[1].pub
    w.fault('tampered_' + what) if what != 'intact' else None
    for name, fn in (('verify_sig', lambda: bit.verify_sig(s2, d2, pub)),
                     ('verify', lambda: cls((keys[1] if what == 'key' else keys[0]).wif).verify(s2, d2))):
        out = attempt(w, name, fn)
        if w.net.requests or w.net.escaped:
            w.violation('network', '%s used the network' % name)
        if what == 'intact':
            if out.kind == 'raise' or not out.value:
                w.violation('valid_refused', '%s refuses its own signature %s: %r' % (name, sig.hex(), out.value))
            w.probe('verified')
        elif out.kind != 'raise' and out.value:
            w.violation('forgery', '%s accepts a tampered %s' % (name, what))
        else:
            w.probe('tampering_refused')


SCENARIOS = {'C24': run_c24, 'C20': run_c20, 'C21': run_c21, 'C22': run_c22, 'C23': run_c23}
