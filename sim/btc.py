"""Independent Bitcoin reference: encodings, strict transaction parser,
signature hashes (legacy and BIP143), script verification for the output types
bit can spend, and a small ledger.  Shares no code with /repo; the only common
component is libsecp256k1 (through coincurve) for ECDSA verification.
"""
import hashlib
import struct

from coincurve import PrivateKey as _EC, PublicKey as _PC


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def hash160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


# -- base58 / bech32 --------------------------------------------------------
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58check(payload):
    raw = payload + dsha(payload)[:4]
    n = int.from_bytes(raw, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(raw) - len(raw.lstrip(b'\0'))) + s


def b58check_decode(s):
    n = 0
    for ch in s:
        n = n * 58 + B58.index(ch)
    body = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    raw = b'\0' * (len(s) - len(s.lstrip('1'))) + body
    if len(raw) < 5 or dsha(raw[:-4])[:4] != raw[-4:]:
        raise ValueError('bad checksum')
    return raw[:-4]


CH32 = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def _polymod(vals):
    gen = [0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]
    chk = 1
    for v in vals:
        b = chk >> 25
        chk = (chk & 0x1FFFFFF) << 5 ^ v
        for i in range(5):
            chk ^= gen[i] if (b >> i) & 1 else 0
    return chk


def _to5(data):
    acc = bits = 0
    out = []
    for b in data:
        acc = (acc << 8) | b
        bits += 8
        while bits >= 5:
            bits -= 5
            out.append((acc >> bits) & 31)
    if bits:
        out.append((acc << (5 - bits)) & 31)
    return out


def bech32_address(hrp, prog, padding=0, extra=()):
    data = [0] + _to5(prog)
    data[-1] |= padding & ((1 << (-8 * len(prog) % 5)) - 1)
    data += extra
    exp = [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]
    pm = _polymod(exp + data + [0] * 6) ^ 1
    chk = [(pm >> 5 * (5 - i)) & 31 for i in range(6)]
    return hrp + '1' + ''.join(CH32[d] for d in data + chk)


# -- scripts and addresses --------------------------------------------------
ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
VER = {'main': (b'\x00', b'\x05', 'bc', b'\x80'), 'test': (b'\x6f', b'\xc4', 'tb', b'\xef')}


def p2pkh(h):
    return b'\x76\xa9\x14' + h + b'\x88\xac'


def p2sh(h):
    return b'\xa9\x14' + h + b'\x87'


def addr_p2pkh(pub, net):
    return b58check(VER[net][0] + hash160(pub))


def addr_p2sh(redeem, net):
    return b58check(VER[net][1] + hash160(redeem))


def np2wkh_redeem(pub):
    return b'\x00\x14' + hash160(pub)


def np2wsh_redeem(script):
    return b'\x00\x20' + sha256(script)


def multisig_script(m, pubs):
    return bytes([80 + m]) + b''.join(bytes([len(p)]) + p for p in pubs) + bytes([80 + len(pubs)]) + b'\xae'


def wif(secret, net, compressed):
    return b58check(VER[net][3] + secret + (b'\x01' if compressed else b''))


class RefKey:
    """Reference key material (never handed to bit except as WIF)."""

    def __init__(self, secret, net, compressed=True):
        self.secret = secret
        self.net = net
        self.compressed = compressed
        self.pub = _EC(secret).public_key.format(compressed=compressed)
        self.wif = wif(secret, net, compressed)
        self.address = addr_p2pkh(self.pub, net)
        self.script = p2pkh(hash160(self.pub))
        if compressed:
            self.segwit_address = addr_p2sh(np2wkh_redeem(self.pub), net)
            self.segwit_script = p2sh(hash160(np2wkh_redeem(self.pub)))
        else:
            self.segwit_address = None
            self.segwit_script = None


class RefMultisig:
    def __init__(self, keys, m, net):
        self.keys = keys
        self.m = m
        self.net = net
        self.redeem = multisig_script(m, [k.pub for k in keys])
        self.address = addr_p2sh(self.redeem, net)
        self.script = p2sh(hash160(self.redeem))
        if all(len(k.pub) == 33 for k in keys):
            self.segwit_address = addr_p2sh(np2wsh_redeem(self.redeem), net)
            self.segwit_script = p2sh(hash160(np2wsh_redeem(self.redeem)))
        else:
            self.segwit_address = None
            self.segwit_script = None


def address_script(addr):
    """(net, scriptPubKey) of an address; ValueError if it is none."""
    low = addr.lower()
    for net in ('main', 'test'):
        hrp = VER[net][2]
        if low.startswith(hrp + '1'):
            if addr not in (low, addr.upper()) or not 14 <= len(addr) <= 74:
                raise ValueError('bech32 form')
            data = [CH32.index(ch) for ch in low[len(hrp) + 1:]]
            exp = [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]
            if _polymod(exp + data) != 1 or data[0] != 0:
                raise ValueError('bech32')
            acc = bits = 0
            out = []
            for v in data[1:-6]:
                acc = (acc << 5) | v
                bits += 5
                while bits >= 8:
                    bits -= 8
                    out.append((acc >> bits) & 255)
            if len(out) not in (20, 32) or bits > 4 or acc & ((1 << bits) - 1):
                raise ValueError('witness program')
            return net, bytes([0, len(out)]) + bytes(out)
    raw = b58check_decode(addr)
    if len(raw) != 21:
        raise ValueError('address length')
    for net in ('main', 'test'):
        if raw[:1] == VER[net][0]:
            return net, p2pkh(raw[1:])
        if raw[:1] == VER[net][1]:
            return net, p2sh(raw[1:])
    raise ValueError('address version')


def wif_decode(text):
    """(net, secret, compressed) of a WIF; ValueError if it is none."""
    raw = b58check_decode(text)
    net = {b'\x80': 'main', b'\xef': 'test'}.get(raw[:1])
    if net is None or not (len(raw) == 33 or len(raw) == 34 and raw[-1] == 1):
        raise ValueError('not a WIF')
    if not 0 < int.from_bytes(raw[1:33], 'big') < ORDER:
        raise ValueError('not a key')
    return net, raw[1:33], len(raw) == 34


# -- transactions -----------------------------------------------------------
def varint(n):
    if n < 253:
        return bytes([n])
    if n < 65536:
        return b'\xfd' + struct.pack('<H', n)
    if n < 1 << 32:
        return b'\xfe' + struct.pack('<I', n)
    return b'\xff' + struct.pack('<Q', n)


class BadTx(Exception):
    pass


class _R:
    def __init__(self, b):
        self.b = b
        self.i = 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise BadTx('truncated')
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def vi(self):
        n = self.take(1)[0]
        if n < 253:
            return n
        w = {253: 2, 254: 4, 255: 8}[n]
        v = int.from_bytes(self.take(w), 'little')
        if v < {2: 253, 4: 65536, 8: 1 << 32}[w]:
            raise BadTx('non-canonical compact size')
        return v

    def vs(self):
        return self.take(self.vi())


class Tx:
    """vin: [(txid_hex, n, script, seq)], vout: [(value, script)], wit: [[items]]"""

    def __init__(self, version, vin, vout, wit, locktime, segwit):
        self.version, self.vin, self.vout, self.wit = version, vin, vout, wit
        self.locktime, self.segwit = locktime, segwit

    @classmethod
    def parse(cls, hexs, partial=False):
        try:
            b = bytes.fromhex(hexs)
        except (ValueError, TypeError):
            raise BadTx('not hex')
        r = _R(b)
        ver = r.take(4)
        segwit = b[4:6] == b'\x00\x01'
        if segwit:
            r.take(2)
        vin = []
        for _ in range(r.vi()):
            txid = r.take(32)[::-1].hex()
            n = struct.unpack('<I', r.take(4))[0]
            script = r.vs()
            seq = struct.unpack('<I', r.take(4))[0]
            vin.append((txid, n, script, seq))
        if not vin:
            raise BadTx('no inputs')
        vout = []
        for _ in range(r.vi()):
            val = struct.unpack('<q', r.take(8))[0]
            vout.append((val, r.vs()))
        if not vout:
            raise BadTx('no outputs')
        wit = [[] for _ in vin]
        if segwit:
            for i in range(len(vin)):
                wit[i] = [r.vs() for _ in range(r.vi())]
            if not any(wit) and not partial:
                raise BadTx('superfluous witness record')
        lock = r.take(4)
        if r.i != len(b):
            raise BadTx('trailing bytes')
        return cls(ver, vin, vout, wit, lock, segwit)

    def ser(self, witness=True):
        wit = witness and self.segwit
        o = [self.version]
        if wit:
            o.append(b'\x00\x01')
        o.append(varint(len(self.vin)))
        for t, n, s, q in self.vin:
            o.append(bytes.fromhex(t)[::-1] + struct.pack('<I', n) + varint(len(s)) + s + struct.pack('<I', q))
        o.append(varint(len(self.vout)))
        for v, s in self.vout:
            o.append(struct.pack('<q', v) + varint(len(s)) + s)
        if wit:
            for items in self.wit:
                o.append(varint(len(items)))
                for it in items:
                    o.append(varint(len(it)) + it)
        o.append(self.locktime)
        return b''.join(o)

    @property
    def txid(self):
        return dsha(self.ser(False))[::-1].hex()

    @property
    def vsize(self):
        base = len(self.ser(False))
        return (base * 3 + len(self.ser(True)) + 3) // 4

    def hex(self):
        return self.ser().hex()


def sighash_legacy(tx, i, code):
    vin = [(t, n, code if j == i else b'', q) for j, (t, n, s, q) in enumerate(tx.vin)]
    t2 = Tx(tx.version, vin, tx.vout, [], tx.locktime, False)
    return dsha(t2.ser(False) + struct.pack('<I', 1))


def sighash_v0(tx, i, code, value):
    hp = dsha(b''.join(bytes.fromhex(t)[::-1] + struct.pack('<I', n) for t, n, _, _ in tx.vin))
    hs = dsha(b''.join(struct.pack('<I', q) for _, _, _, q in tx.vin))
    ho = dsha(b''.join(struct.pack('<q', v) + varint(len(s)) + s for v, s in tx.vout))
    t, n, _, q = tx.vin[i]
    return dsha(
        tx.version + hp + hs + bytes.fromhex(t)[::-1] + struct.pack('<I', n)
        + varint(len(code)) + code + struct.pack('<q', value) + struct.pack('<I', q) + ho + tx.locktime
        + struct.pack('<I', 1)
    )


HALF = 0x7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF5D576E7357A4501DDFE92F46681B20A0


def _strict_der(sig):
    if not 8 <= len(sig) <= 72 or sig[0] != 0x30 or sig[1] != len(sig) - 2 or sig[2] != 2:
        return False
    rl = sig[3]
    if 5 + rl >= len(sig) or sig[4 + rl] != 2:
        return False
    sl = sig[5 + rl]
    if rl + sl + 6 != len(sig) or rl == 0 or sl == 0:
        return False
    r, s = sig[4:4 + rl], sig[6 + rl:]
    for x in (r, s):
        if x[0] & 0x80 or (len(x) > 1 and x[0] == 0 and not x[1] & 0x80):
            return False
    return int.from_bytes(s, 'big') <= HALF


def _checksig(sig, pub, digest):
    if not sig or sig[-1] != 1 or not _strict_der(sig[:-1]):
        return False
    try:
        # coincurve hashes with `hasher`; None means digest given
        return _PC(pub).verify(sig[:-1], digest, hasher=None)
    except Exception:
        return False


def parse_pushes(script):
    """Push-only script with minimal pushes, or None."""
    out = []
    i = 0
    while i < len(script):
        op = script[i]
        i += 1
        if op == 0:
            out.append(b'')
            continue
        if op <= 75:
            n = op
        elif op == 76:
            n = script[i] if i < len(script) else 1 << 30
            i += 1
            if n <= 75:
                return None
        elif op == 77:
            n = int.from_bytes(script[i:i + 2], 'little')
            i += 2
            if n <= 255:
                return None
        else:
            return None
        if i + n > len(script):
            return None
        out.append(script[i:i + n])
        i += n
    return out


def parse_multisig(script):
    if len(script) < 3 or script[-1] != 0xAE:
        return None
    m, n = script[0] - 80, script[-2] - 80
    if not 1 <= m <= n <= 16:
        return None
    pubs = []
    i = 1
    while i < len(script) - 2:
        ln = script[i]
        if ln not in (33, 65):
            return None
        pubs.append(script[i + 1:i + 1 + ln])
        i += 1 + ln
    if len(pubs) != n:
        return None
    return m, pubs


def _multisig_ok(sigs, m, pubs, digest):
    if len(sigs) != m:
        return 'wrong signature count %d, need %d' % (len(sigs), m)
    k = 0
    for s in sigs:
        while k < len(pubs) and not _checksig(s, pubs[k], digest):
            k += 1
        if k == len(pubs):
            return 'signature does not verify in key order'
        k += 1
    return None


def verify_input(tx, i, value, spk):
    """None if input i correctly spends (value, spk), else the reason."""
    ss = tx.vin[i][2]
    wit = tx.wit[i]
    pushes = parse_pushes(ss)
    if pushes is None:
        return 'scriptSig is not minimal push-only'
    if len(spk) == 25 and spk[:3] == b'\x76\xa9\x14':
        if wit:
            return 'unexpected witness'
        if len(pushes) != 2:
            return 'P2PKH scriptSig has %d items' % len(pushes)
        sig, pub = pushes
        if hash160(pub) != spk[3:23]:
            return 'public key does not match'
        if not _checksig(sig, pub, sighash_legacy(tx, i, spk)):
            return 'invalid signature (p2pkh)'
        return None
    if len(spk) == 23 and spk[:2] == b'\xa9\x14':
        if not pushes:
            return 'unsigned'
        redeem = pushes[-1]
        if hash160(redeem) != spk[2:22]:
            return 'redeem script does not match'
        if len(redeem) == 22 and redeem[:2] == b'\x00\x14':
            if len(pushes) != 1:
                return 'malleated scriptSig'
            if len(wit) != 2:
                return 'P2WPKH witness has %d items' % len(wit)
            sig, pub = wit
            if len(pub) != 33 or hash160(pub) != redeem[2:]:
                return 'witness public key does not match'
            if not _checksig(sig, pub, sighash_v0(tx, i, p2pkh(redeem[2:]), value)):
                return 'invalid signature (p2sh-p2wpkh)'
            return None
        if len(redeem) == 34 and redeem[:2] == b'\x00\x20':
            if len(pushes) != 1:
                return 'malleated scriptSig'
            if len(wit) < 2:
                return 'empty witness'
            ws = wit[-1]
            if sha256(ws) != redeem[2:]:
                return 'witness script does not match'
            ms = parse_multisig(ws)
            if not ms:
                return 'unsupported witness script'
            if wit[0] != b'':
                return 'NULLDUMMY'
            return _multisig_ok(wit[1:-1], ms[0], ms[1], sighash_v0(tx, i, ws, value))
        if wit:
            return 'unexpected witness'
        ms = parse_multisig(redeem)
        if not ms:
            return 'unsupported redeem script'
        if pushes[0] != b'':
            return 'NULLDUMMY'
        return _multisig_ok(pushes[1:-1], ms[0], ms[1], sighash_legacy(tx, i, redeem))
    return 'unsupported output type'


# -- ledger -----------------------------------------------------------------
class Entry:
    __slots__ = ('tx', 'txid', 'add_seq', 'conf_seq', 'height', 'hexs')

    def __init__(self, tx, txid, add_seq, hexs):
        self.tx, self.txid, self.add_seq, self.hexs = tx, txid, add_seq, hexs
        self.conf_seq = None
        self.height = None


class Ledger:
    """The true state of one network: transactions, blocks, and spends."""

    BASE_HEIGHT = 700000

    def __init__(self, net):
        self.net = net
        self.entries = []          # in order of acceptance
        self.by_id = {}
        self.spent = {}            # outpoint -> spending txid
        self.seq = 0
        self.tips = [(0, self.BASE_HEIGHT)]
        self._nonce = 0
        self._views = {}
        self._vseq = -1

    @property
    def height(self):
        return self.tips[-1][1]

    def _add(self, tx, hexs=None):
        self.seq += 1
        txid = tx.txid
        e = Entry(tx, txid, self.seq, hexs)
        self.entries.append(e)
        self.by_id[txid] = e
        for t, n, _, _ in tx.vin:
            self.spent[(t, n)] = txid
        return e

    def fund(self, outs, confirmed_height=None):
        """A transaction from elsewhere paying `outs` [(value, script)]."""
        self._nonce += 1
        src = sha256(b'src%s%d' % (self.net.encode(), self._nonce)).hex()
        tx = Tx(b'\x01\0\0\0', [(src, self._nonce & 7, b'\x51', 0xFFFFFFFF)], list(outs), [], b'\0\0\0\0', False)
        e = self._add(tx)
        if confirmed_height is not None:
            e.conf_seq = e.add_seq
            e.height = confirmed_height
        return e

    def mine(self, txids=None):
        """One block confirming the given (default: all) pending txs."""
        self.seq += 1
        h = self.height + 1
        self.tips.append((self.seq, h))
        for e in self.entries:
            if e.height is None and (txids is None or e.txid in txids):
                e.conf_seq = self.seq
                e.height = h

    def validate(self, hexs, require_unspent=True):
        """Parsed tx if a node would accept it; raises BadTx otherwise."""
        tx = Tx.parse(hexs)
        seen = set()
        total = 0
        for i, (t, n, _, _) in enumerate(tx.vin):
            if (t, n) in seen:
                raise BadTx('duplicate input')
            seen.add((t, n))
            e = self.by_id.get(t)
            if e is None or n >= len(e.tx.vout):
                raise BadTx('missing input %s:%d' % (t, n))
            if require_unspent and (t, n) in self.spent:
                raise BadTx('input already spent %s:%d' % (t, n))
            value, spk = e.tx.vout[n]
            why = verify_input(tx, i, value, spk)
            if why:
                raise BadTx('input %d: %s' % (i, why))
            total += value
        for v, _ in tx.vout:
            if v < 0 or v > 21 * 10 ** 14:
                raise BadTx('output value out of range')
        if sum(v for v, _ in tx.vout) > total:
            raise BadTx('spends more than its inputs')
        return tx

    def accept(self, hexs):
        tx = self.validate(hexs)
        return self._add(tx, hexs)

    def prevout(self, t, n):
        e = self.by_id.get(t)
        return e.tx.vout[n] if e and n < len(e.tx.vout) else None

    def view(self, upto=None):
        upto = self.seq if upto is None else min(upto, self.seq)
        if self._vseq != self.seq:
            self._views = {}
            self._vseq = self.seq
        v = self._views.get(upto)
        if v is None:
            v = self._views[upto] = View(self, upto)
        return v


class View:
    """The ledger as a service that has seen events up to `upto` reports it."""

    def __init__(self, ledger, upto):
        self.l = ledger
        self.upto = upto
        self.height = max(h for s, h in ledger.tips if s <= upto)
        self._cache = {}

    def _conf(self, e):
        return e.conf_seq is not None and e.conf_seq <= self.upto

    def addr(self, script):
        r = self._cache.get(script)
        if r is None:
            r = self._cache[script] = AddrState(self, script)
        return r

    def tx(self, txid):
        e = self.l.by_id.get(txid)
        if e is None or e.add_seq > self.upto:
            return None
        return e


class AddrState:
    def __init__(self, v, script):
        self.txs = []              # newest first: (txid, height or None)
        self.utxos = []            # (txid, n, value, confirmations, height or None)
        self.received = self.sent = 0
        self.received_unconf = self.sent_unconf = 0
        outs = {}
        ordered = sorted((e for e in v.l.entries if e.add_seq <= v.upto),
                         key=lambda e: (e.height if v._conf(e) else 1 << 40, e.add_seq))
        for e in ordered:
            conf = v._conf(e)
            touched = False
            for t, n, _, _ in e.tx.vin:
                if (t, n) in outs:
                    touched = True
                    val = outs.pop((t, n))[0]
                    self.sent += val
                    if not conf:
                        self.sent_unconf += val
            for n, (val, spk) in enumerate(e.tx.vout):
                if spk == script:
                    touched = True
                    outs[(e.txid, n)] = (val, e.height if conf else None)
                    self.received += val
                    if not conf:
                        self.received_unconf += val
            if touched:
                self.txs.append((e.txid, e.height if conf else None))
        self.txs.reverse()
        for (t, n), (val, h) in outs.items():
            self.utxos.append((t, n, val, v.height - h + 1 if h is not None else 0, h))
        self.balance = self.received - self.sent
