"""bit wallets with their reference counterparts."""
from . import btc
from .common import draw_secret


class Wallet:
    """kind: key, key_u (uncompressed), ms (multisig), ms_u (with uncompressed member)."""

    def __init__(self, w, kind=None, net=None, m=None, n=None, keys=None, own=0):
        c = w.c
        self.w = w
        self.kind = kind or c.pick(['key', 'ms', 'key_u', 'ms_u'])
        self.net = net or c.pick(['main', 'test'])
        self.own = own
        if self.kind in ('key', 'key_u'):
            self.keys = keys or [btc.RefKey(draw_secret(w), self.net, self.kind == 'key')]
            self.ref = self.keys[0]
        else:
            if keys is None:
                n = n or c.between(1, 4)
                keys = [btc.RefKey(draw_secret(w), self.net, True) for _ in range(n)]
                if self.kind == 'ms_u':
                    j = c.below(n)
                    keys[j] = btc.RefKey(keys[j].secret, self.net, False)
            self.as_set = c.chance(1, 4)
            if self.as_set:
                keys = sorted(keys, key=lambda k: k.pub)
            self.keys = keys
            self.m = m or c.between(1, len(keys))
            self.ref = btc.RefMultisig(self.keys, self.m, self.net)
            self.own = own if own is not None else c.below(len(keys))
        self.addresses = [(self.ref.address, self.ref.script)]
        if self.ref.segwit_address:
            self.addresses.append((self.ref.segwit_address, self.ref.segwit_script))
        self.scripts = {s: a for a, s in self.addresses}
        self.build()

    @property
    def is_ms(self):
        return self.kind.startswith('ms')

    def key_obj(self, i):
        bit = self.w.bit
        cls = bit.PrivateKey if self.net == 'main' else bit.PrivateKeyTestnet
        return cls(self.keys[i].wif)

    def signer(self, i):
        """A multisig wallet object held by co-signer i."""
        bit = self.w.bit
        cls = bit.MultiSig if self.net == 'main' else bit.MultiSigTestnet
        pubs = [k.pub for k in self.keys]
        pubs = pubs if i % 2 == 0 else [p.hex() for p in pubs]
        return cls(self.key_obj(i), set(pubs) if self.as_set else pubs, self.m)

    def build(self):
        """(Re)creates the bit object, e.g. after a restart."""
        self.obj = self.signer(self.own) if self.is_ms else self.key_obj(0)
        return self.obj

    @property
    def cls(self):
        return type(self.obj)

    def state(self):
        o = self.obj
        return ([unspent_full(u) for u in o.unspents], list(o.transactions), o.balance)

    def unspents_for(self, coins):
        """bit Unspent objects for ledger coins (txid, n, value, script), typed
        as the wallet itself types them after a refresh."""
        from_ = self.w.bit.network.meta.Unspent
        out = []
        for t, n, val, script, conf in coins:
            u = from_(val, conf, script.hex(), t, n)
            self.type_unspent(u, script)
            if int(t[:2], 16) & 1:
                # the way callers build them
                u = from_(val, conf, script.hex(), t, n, u.type, u.vsize)
            out.append(u)
        return out

    def type_unspent(self, u, script):
        seg = script == self.ref.segwit_script
        if self.is_ms:
            red = len(self.ref.redeem)
            p2sh = 1 + self.m * 74 + len(btc.varint(red)) + red
            if seg:
                u.set_type('np2wsh', 36 + 40 + (1 + p2sh) / 4)
            else:
                u.set_type('p2sh', 36 + len(btc.varint(p2sh)) + p2sh + 4)
        elif seg:
            u.set_type('np2wkh')
        else:
            u.set_type('p2pkh' if self.kind == 'key' else 'p2pkh-uncompressed')
        return u

    def coins(self, led=None):
        led = led or self.w.net.ledgers[self.net]
        v = led.view()
        out = []
        for a, s in self.addresses:
            out += [(t, n, val, s, cf) for t, n, val, cf, h in v.addr(s).utxos]
        return out


def unspent_full(u):
    return (u.amount, u.confirmations, u.script, u.txid, u.txindex, u.type, u.vsize, u.segwit, u.sequence)


def other_address(w, net, tag=None):
    """A foreign address of a drawn type: (address, script)."""
    w._addr_n = getattr(w, '_addr_n', 0) + 1
    h = btc.sha256(b'other%d' % w._addr_n)
    k = w.c.below(4)
    if k == 0:
        a = btc.b58check(btc.VER[net][0] + h[:20])
    elif k == 1:
        a = btc.b58check(btc.VER[net][1] + h[:20])
    elif k == 2:
        a = btc.bech32_address(btc.VER[net][2], h[:20])
    else:
        a = btc.bech32_address(btc.VER[net][2], h)
    return a, btc.address_script(a)[1]


def fund(w, wal, n, seg=None, lo=20000, hi=5000000, confirmed=True):
    """n coins for the wallet, spread over its addresses."""
    led = w.net.ledgers[wal.net]
    for _ in range(n):
        i = w.c.below(len(wal.addresses)) if seg is None else (1 if seg and len(wal.addresses) > 1 else 0)
        amt = lo + w.c.below(hi - lo + 1)
        outs = [(amt, wal.addresses[i][1])]
        if w.c.chance(1, 4):
            outs.insert(0, (999, btc.p2pkh(btc.hash160(b'x'))))
        while len(outs) < 4 and w.c.chance(1, 4):
            # several outputs of one transaction, maybe of the same amount
            j = w.c.below(len(wal.addresses))
            outs.append((amt if w.c.chance(1, 4) else lo + w.c.below(hi - lo + 1), wal.addresses[j][1]))
        led.fund(outs, led.height - w.c.below(50) if confirmed else None)


def sign_p2pkh(ref, ins, outs):
    """Reference-signed legacy transaction: ins [(txid, n)] all paying ref.script."""
    from coincurve import PrivateKey
    tx = btc.Tx(b'\x01\0\0\0', [(t, n, b'', 0xFFFFFFFF) for t, n in ins], outs, [], b'\0\0\0\0', False)
    pk = PrivateKey(ref.secret)
    scripts = []
    for i in range(len(ins)):
        sig = pk.sign(btc.sighash_legacy(tx, i, ref.script), hasher=None) + b'\x01'
        scripts.append(bytes([len(sig)]) + sig + bytes([len(ref.pub)]) + ref.pub)
    tx.vin = [(t, n, scripts[i], q) for i, (t, n, _, q) in enumerate(tx.vin)]
    return tx.hex()
