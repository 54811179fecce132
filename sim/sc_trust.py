"""C25 only authenticated services are believed, C26 keys and credentials stay where they belong."""
import base64
import builtins
import io
import json
import logging
import os
import sys

import requests

from . import btc, net as N, models
from .common import (Plan, PeerFault, draw_fault, check_query, populate, attempt, api_fn, spread_lags, draw_secret)
from .sc_net import OWN_CA, OTHER_CA, NODE_FAULTS
from .sc_pay import Payment, draw_coins, damage
from .sc_rates import RATE_SERVICES
from .wallets import Wallet, fund, other_address, sign_p2pkh, unspent_full

PUBLIC = N.EXPLORERS + RATE_SERVICES + ('mempool',)


# -- C25 ----------------------------------------------------------------------
class Impostors:
    """Some services are impersonated, others fail."""

    def __init__(self, w, faults, issuers):
        self.plan = Plan(w, faults)
        self.issuers = issuers
        w.net.fault_fn = self.decide

    def decide(self, r):
        if r.service in self.issuers:
            return 'impostor', {'issuer': self.issuers[r.service], 'body': N.HTML}
        return self.plan.decide(r)


def draw_impostors(w, names):
    c = w.c
    faults, issuers = {}, {}
    prof = c.weighted([('some', 4), ('all', 3), ('keep_one', 3), ('none', 1)])
    keep = c.pick(names) if prof == 'keep_one' else None
    for s in names:
        k = c.below(6) if prof == 'some' else 0
        if prof == 'none' or s == keep or k > 3:
            continue
        if k < 3:
            issuers[s] = c.pick(['self', 'self', 'wrong_host', OWN_CA, 'expired'])
        else:
            faults[s] = draw_fault(w)
    return Impostors(w, faults, issuers)


def unfooled(w, name):
    if w.net.fooled:
        w.violation('impostor', '%s believed an impostor: %s' % (name, w.net.fooled[0]))
    if w.net.escaped:
        w.violation('escaped', '%s bypassed the transport: %s' % (name, w.net.escaped[:3]))


def run_c25(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    w.net.max_requests = 200
    wals = {n: Wallet(w, kind=c.pick(['key', 'ms', 'key_u']), net=n) for n in ('main', 'test')}
    for n in wals:
        for a, s in wals[n].addresses:
            populate(w, n, s, c.below(4))
        fund(w, wals[n], 1 + c.below(2), lo=100000)
    bit = w.bit
    api = bit.network.NetworkAPI
    if c.chance(1, 4):
        os.environ['REQUESTS_CA_BUNDLE'] = requests.certs.where()
        w.probe('env_ca_bundle')
    if c.chance(1, 5):
        # the settings a user may change have no say in whom to believe
        bit.set_rate_cache_time(c.pick([0, 5, -1]))
        bit.set_fee_cache_time(c.pick([0, 5, -1]))
        bit.set_service_timeout(c.pick([1, 60, 0.5]))
        w.probe('settings')
    node = None
    for _ in range(3 + c.below(6)):
        net = c.pick(['main', 'test'])
        op = c.weighted([('query', 4), ('paged', 1), ('push', 3), ('refresh', 2), ('send', 2), ('rate', 2), ('fee', 2), ('connect', 1), ('restart', 1)])
        if op == 'restart':
            w.fresh()
            bit = w.bit
            api = bit.network.NetworkAPI
            node = None
            for x in wals.values():
                x.build()
            w.fault('restart')
            continue
        if op == 'connect':
            # the user's own node serves one network, the services the other
            if node and node[0] != net:
                continue
            key = (c.pick(['node.example', 'localhost', '127.0.0.1', 'node.local', '10.1.2.3']), 8332 if net == 'main' else 18332)
            ca = c.pick([OWN_CA, OTHER_CA, None])
            if key in w.net.nodes:
                ca = w.net.nodes[key].ca
            else:
                w.net.nodes[key] = N.Node(net, 'u', 'p', w.net.ledgers[net], ca)
            https = c.pick([False, ca or True, ca or True])
            out = attempt(w, 'connect', lambda: api.connect_to_node('u', 'p', host=key[0], port=key[1], use_https=https, testnet=net == 'test'))
            node = (net, 'node:%s:%d' % key, https, key, out.value)
            continue
        wal = wals[net]
        led = w.net.ledgers[net]
        name = '%s.%s' % (op, net)
        mine = node is not None and node[0] == net
        if mine and op in ('query', 'paged', 'push', 'refresh', 'send'):
            # an impostor of the node
            n = w.net.nodes[node[3]]
            fake = c.chance(1, 2) and node[2]
            if fake:
                issuers = ['self', 'expired', 'wrong_host'] + (['public', OTHER_CA if n.ca == OWN_CA else OWN_CA] if n.ca else [OWN_CA])
                Impostors(w, {}, {node[1]: c.pick(issuers)})
            else:
                Plan(w, {})
            a = wal.addresses[0][0]
            if op == 'refresh':
                out = attempt(w, name, wal.obj.get_unspents)
            elif c.chance(1, 4):
                out = attempt(w, name + '.direct', lambda: node[4].getblockcount())
            else:
                out = attempt(w, name, lambda: api_fn(w, c.pick(['balance', 'unspent', 'txs']), net)(a))
            unfooled(w, name)
            if fake and out.kind == 'ok':
                w.violation('impostor', '%s answered although only an impostor of the node was there' % name)
            if not fake and out.kind == 'raise':
                w.violation('false_failure', '%s raised %r although the node answers' % (name, out.value))
            w.probe('node_impostor' if fake else 'node_ok')
            continue
        if op in ('query', 'paged'):
            q = c.pick(['balance', 'txs', 'tx', 'unspent'])
            if op == 'paged':
                q = c.pick(['txs', 'unspent'])
                k = btc.RefKey(draw_secret(w), net, True)
                populate(w, net, k.script, c.pick([26, 51, 101, 120, 1001, 2001]), unconf_pct=0, spend_pct=0)
                a = k.address
            else:
                a = c.pick(wal.addresses)[0]
            arg = c.pick(led.entries).txid if q == 'tx' else a
            plan = draw_impostors(w, N.SERVES[(q, net)])
            if op == 'paged' and c.chance(1, 2):
                # impersonated from the second page on
                inner, seen = plan.decide, {}

                def later(r):
                    seen[r.service] = seen.get(r.service, 0) + 1
                    return inner(r) if seen[r.service] > 1 else None
                w.net.fault_fn = later
            spread_lags(w, net, 1, 4)
            check_query(w, net, q, arg, plan)
            unfooled(w, name)
        elif op == 'push':
            ref = btc.RefKey(draw_secret(w), net, True)
            e = led.fund([(60000, ref.script)], led.height - 1)
            raw = sign_p2pkh(ref, [(e.txid, 0)], [(40000, other_address(w, net)[1])])
            draw_impostors(w, N.SERVES[('push', net)])
            out = attempt(w, name, lambda: api_fn(w, 'push', net)(raw))
            unfooled(w, name)
            if out.kind == 'ok' and not any(p[3] for p in w.net.pushes):
                w.violation('false_success', '%s returned although no service has the transaction' % name)
        elif op == 'refresh':
            draw_impostors(w, N.EXPLORERS)
            before = wal.state()
            out = attempt(w, name, c.pick([wal.obj.get_unspents, wal.obj.get_transactions, wal.obj.get_balance]))
            unfooled(w, name)
            if out.kind == 'raise' and wal.state() != before:
                w.violation('half_refresh', '%s failed but changed the wallet' % name)
        elif op == 'send':
            draw_impostors(w, PUBLIC)
            a, _ = other_address(w, net)
            fn = getattr(wal.obj, 'send', wal.obj.create_transaction)
            out = attempt(w, name, lambda: fn([(a, 3000, 'satoshi')], fee=c.pick([2, None])))
            unfooled(w, name)
        elif op == 'rate':
            imp = draw_impostors(w, RATE_SERVICES)
            cur = c.pick(['usd', 'eur', 'jpy'])
            f = bit.network.currency_to_satoshi if c.chance(2, 3) else bit.network.currency_to_satoshi_cached
            out = attempt(w, name, lambda: f(5, cur))
            unfooled(w, name)
            if out.kind == 'ok' and w.net.requests and not any(r.quotes for r in w.net.requests if not r.fault):
                w.violation('impostor', '%s gave %r without a quote' % (name, out.value)) if f is bit.network.currency_to_satoshi else None
        else:
            draw_impostors(w, ('mempool',))
            out = attempt(w, name, lambda: c.pick([bit.network.get_fee, bit.network.get_fee_cached])(c.chance(1, 2)))
            unfooled(w, name)
        w.probe(op)
        if c.chance(1, 4):
            w.sleep(c.pick([1, 700, 4000]))


# -- C26 ----------------------------------------------------------------------
class Secrets:
    """Finds key material in what leaves the wallet."""

    def __init__(self):
        self.pats = {}          # pattern -> what

    def add(self, ref):
        s = ref.secret
        rev = s[::-1]
        for i in (0, 8, 16, 24):
            self.pats[s[i:i + 8].hex()] = 'hex'
            self.pats[rev[i:i + 8].hex()] = 'reversed hex'
        self.pats[str(int.from_bytes(s, 'big'))] = 'decimal'
        self.pats[str(int.from_bytes(s, 'little'))] = 'decimal'
        for i in range(0, 32, 8):
            part = s[i:i + 8]
            if b"'" not in part and b'"' not in part:
                self.pats[repr(part)[2:-1].lower()] = 'bytes'
            self.pats[', '.join(map(str, part))] = 'list of bytes'
        for enc in ('latin1', 'utf-8'):
            self.pats[s.decode(enc, 'replace').lower()] = 'text'
        b = base64.b64encode(s).decode().lower()
        self.pats[b[:20]] = self.pats[b[20:40]] = 'base64'
        for net in ('main', 'test'):
            for comp in (True, False):
                t = btc.RefKey(s, net, comp).wif.lower()
                for i in (3, 17, 31):
                    self.pats[t[i:i + 14]] = 'WIF'

    def find(self, text):
        t = text.lower()
        for p, what in self.pats.items():
            if p in t:
                return what
        return None


class Sinks:
    """Captures logs, printed text and files of one run."""

    def __init__(self, w):
        self.w = w
        self.records = []
        self.files = []

    def __enter__(self):
        me = self

        class H(logging.Handler):
            def emit(self, record):
                try:
                    text = record.getMessage()
                except Exception:
                    text = repr((record.msg, record.args))
                me.records.append(text + (repr(record.exc_info) if record.exc_info else ''))
        self.h = H(0)
        root = logging.getLogger()
        self.level = root.level
        root.addHandler(self.h)
        root.setLevel(logging.DEBUG)
        self.std = sys.stdout, sys.stderr
        sys.stdout = self.out = io.StringIO()
        sys.stderr = self.out
        self.open = builtins.open

        def fake(file, mode='r', *a, **k):
            if isinstance(mode, str) and set(mode) & set('wax+'):
                b = io.BytesIO() if 'b' in mode else io.StringIO()
                b.close = lambda: None
                me.files.append((str(file), b))
                return b
            return me.open(file, mode, *a, **k)
        builtins.open = fake
        return self

    def __exit__(self, *a):
        builtins.open = self.open
        sys.stdout, sys.stderr = self.std
        logging.getLogger().removeHandler(self.h)
        logging.getLogger().setLevel(self.level)
        return False

    def texts(self):
        for r in self.records:
            yield 'log', r
        yield 'printed text', self.out.getvalue()
        for f, b in self.files:
            v = b.getvalue()
            yield 'file ' + f, v if isinstance(v, str) else v.decode('latin1') + ' ' + v.hex()

    def clear(self):
        self.records.clear()
        self.out.seek(0)
        self.out.truncate()
        self.files.clear()


def chain(e):
    """Everything an exception and its causes say."""
    out, seen = [], set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        out.append('%r %s %r' % (e, e, e.args))
        for x in vars(e).values():
            out.append(repr(x))
        req = getattr(e, 'request', None)
        if req is not None:
            pass            # the request itself, seen on the wire
        e = e.__cause__ or e.__context__
    return ' '.join(out)


def ders(b):
    """(r, s) of every DER signature with a hash type in a blob."""
    i = 0
    while True:
        i = b.find(b'\x30', i)
        if i < 0 or i + 8 > len(b):
            return
        n = b[i + 1]
        sig = b[i:i + 2 + n]
        if len(sig) == n + 2 and 60 <= n <= 72 and btc._strict_der(sig):
            rl = sig[3]
            yield sig[4:4 + rl], sig[6 + rl:]
            i += 2 + n
        else:
            i += 1


class Leaks:
    def __init__(self, w, sinks):
        self.w, self.sinks = w, sinks
        self.sec = Secrets()
        self.nonces = {}
        self.creds = {}         # service -> (patterns)
        self.seen_reqs = set()

    def key(self, ref):
        self.sec.add(ref)

    def cred(self, service, user, pw):
        b = base64.b64encode(('%s:%s' % (user, pw)).encode()).decode().lower()
        self.creds[service] = [pw.lower(), b, requests.utils.quote(pw, safe='').lower()]

    def see(self, where, text, node=None):
        if isinstance(text, (bytes, bytearray)):
            text = bytes(text).hex() + ' ' + bytes(text).decode('latin1')
        what = self.sec.find(text)
        if what:
            self.w.violation('key_leak', '%s contains the private key (%s): %s' % (where, what, text[:300]))
        t = text.lower()
        for s, pats in self.creds.items():
            if s != node and any(p in t for p in pats):
                self.w.violation('credential_leak', '%s contains the password of %s: %s' % (where, s, text[:300]))

    def signature(self, where, blob):
        for r, s in ders(blob):
            if self.nonces.setdefault(r, s) != s:
                self.w.violation('nonce_reuse', '%s: two signatures share the nonce of r=%s, anyone can compute the key' % (where, r.hex()))

    def after(self, name, out, wals):
        w = self.w
        for r in w.net.requests:
            if id(r) in self.seen_reqs:
                continue
            hdr = ' '.join('%s: %s' % x for x in r.headers.items())
            self.see('a request of %s to %s' % (name, r.service or r.host), '%s %s %s %s' % (r.host, r.target, hdr, r.text()), node=r.service)
        for where, text in self.sinks.texts():
            self.see('%s of %s' % (where, name), text)
        self.sinks.clear()
        if out.kind == 'raise':
            self.see('the exception of %s' % name, chain(out.value))
        else:
            self.value(name, out.value)
        for x in wals:
            self.see('repr of the wallet', '%r %s' % (x.obj, x.obj))

    def value(self, name, v):
        if isinstance(v, str):
            self.see('the result of %s' % name, v)
            try:
                b = bytes.fromhex(v)
            except ValueError:
                return
            self.signature(name, b)
        elif isinstance(v, (bytes, bytearray)):
            self.see('the result of %s' % name, v)
            self.signature(name, bytes(v))
        else:
            self.see('the result of %s' % name, repr(v))


def run_c26(w):
    with Sinks(w) as sinks:
        leaks(w, sinks)


def leaks(w, sinks):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    L = Leaks(w, sinks)
    net = c.pick(['main', 'test'])
    wals = [Wallet(w, kind=c.pick(['key', 'ms', 'key_u', 'ms_u']), net=net, own=None) for _ in range(c.pick([1, 2, 1]))]
    led = w.net.ledgers[net]
    for x in wals:
        for k in x.keys:
            L.key(k)
        draw_coins(w, x, 1 + c.below(4))
    if c.chance(1, 4):
        # the system's randomness is stuck
        b = c.below(254) + 1
        # short draws, which choose rather than hide, still vary
        w.entropy_hook = lambda n: bytes([b]) * n if n >= 16 else w.entropy.randbytes(n)
        w.fault('stuck_randomness')
    if c.chance(1, 4):
        w.rand_mode(c.pick([1, 2, 3]))
    node = None
    text = None
    for step in range(3 + c.below(6)):
        wal = c.pick(wals)
        op = c.weighted([('create', 4), ('send', 3), ('prepare', 2), ('sign', 3), ('message', 3), ('refresh', 2), ('connect', 1), ('cosign', 2),
                         ('bad', 3), ('import', 2), ('restart', 1), ('rpc', 2)])
        if op == 'send' and wal.is_ms:
            op = 'create'
        if op == 'rpc' and node is None:
            op = 'connect'
        name = '%s.%s.%s' % (wal.kind, net, op)
        faults = {}
        if c.chance(1, 2):
            for s in PUBLIC + ((node[0],) if node else ()):
                if c.chance(1, 3):
                    if s not in PUBLIC:
                        faults[s] = PeerFault(c.pick([k for k in NODE_FAULTS if k not in N.BODY_FAULTS] + ['redirect_away'] * 4), 0, {'body': N.HTML})
                    else:
                        faults[s] = draw_fault(w, kmax=2, applied=True)
        Plan(w, faults)
        coins = wal.coins()
        us = wal.unspents_for(coins) if coins and c.chance(1, 2) else None
        total = sum(x[2] for x in coins)
        if op == 'connect':
            host = c.pick(['node.example', '10.1.2.3', 'localhost'])
            key = (host, 18332 if net == 'test' else 8332)
            sv = 'node:%s:%d' % key
            if key not in w.net.nodes:
                user, pw = 'rpcuser%d' % step, 'S3cr3t%08x' % w.entropy.getrandbits(32) + c.pick(['', '/x', '@y', ':z', '%41', '#', '?a=b'])
                w.net.nodes[key] = N.Node(net, user, pw, led, None)
                L.cred(sv, user, pw)
            n = w.net.nodes[key]
            wrong = c.chance(1, 6)
            out = attempt(w, name, lambda: w.bit.network.NetworkAPI.connect_to_node(
                n.user, n.password[::-1] if wrong else n.password, host=host, port=key[1], testnet=net == 'test', use_https=c.chance(1, 2)))
            node = (sv, n)
            if out.kind == 'ok':
                out.value = None
        elif op == 'rpc':
            # the node's methods, called directly
            n = node[1]
            host, port = node[0].split(':')[1], int(node[0].split(':')[2])
            h = w.bit.network.services.RPCHost(n.user, n.password, host, port, False, '')
            a = wal.addresses[0][0]
            out = attempt(w, name, c.pick([lambda: h.get_balance(a), lambda: h.get_unspent(a), lambda: h.getblockchaininfo(), lambda: h.get_transactions(a),
                                           lambda: h.broadcast_tx('00')]))
        elif op == 'restart':
            w.fresh()
            w.fault('restart')
            node = None
            for x in wals:
                x.build()
            continue
        elif op in ('create', 'send'):
            p = Payment(w, wal, c.pick([total // 2, total // 10, total * 2]))
            fn = wal.obj.send if op == 'send' else wal.obj.create_transaction
            out = attempt(w, name, lambda: fn(list(p.outs), unspents=us, **p.kw()))
        elif op == 'prepare':
            p = Payment(w, wal, total // 3)
            kw = p.kw()
            out = attempt(w, name, lambda: wal.cls.prepare_transaction(wal.addresses[0][0], list(p.outs), unspents=us, **kw))
            if out.kind == 'ok':
                text = out.value
        elif op == 'sign':
            if text is None:
                p = Payment(w, wal, total // 3)
                out = attempt(w, name + '.prepare', lambda: wal.cls.prepare_transaction(wal.addresses[0][0], list(p.outs), unspents=us, **p.kw()))
                if out.kind == 'raise':
                    L.after(name, out, wals)
                    continue
                text = out.value
            t2 = text if c.chance(2, 3) else damage(w, text) or text
            out = attempt(w, name, lambda: wal.obj.sign_transaction(t2))
        elif op == 'message':
            o = wal.key_obj(c.below(len(wal.keys)))
            data = w.entropy.randbytes(c.pick([32, 5, 64]))
            out = attempt(w, name, lambda: (wal.obj if c.chance(1, 3) else o).sign(data))
            if out.kind == 'ok':
                # r values of signatures without a hash type
                L.signature(name, out.value)
        elif op == 'refresh':
            out = attempt(w, name, c.pick([wal.obj.get_unspents, wal.obj.get_transactions, wal.obj.get_balance,
                                           lambda: wal.obj.get_balance('usd')]))
        elif op == 'cosign':
            if not coins:
                continue
            ins = coins[:c.pick([1, 2, 3])]
            raw = btc.Tx(b'\x01\0\0\0', [(x[0], x[1], b'', 0xFFFFFFFF) for x in ins], [(1000, other_address(w, net)[1])], [], b'\0\0\0\0', False).hex()
            if c.chance(1, 4):
                raw = raw[:c.below(len(raw))]
            s = wal.signer(c.below(len(wal.keys))) if wal.is_ms else wal.obj
            out = attempt(w, name, lambda: s.sign_transaction(raw, unspents=us) if us else s.sign_transaction(raw))
        elif op == 'bad':
            other = 'test' if net == 'main' else 'main'
            a, _ = other_address(w, net)
            b, _ = other_address(w, other)
            outs = c.pick([[(b, 1000, 'satoshi')], [(a, 10 ** 17, 'satoshi')], [('junk', 1, 'btc')], [(a, 5, 'xyz')], [(a, 'abc', 'btc')],
                           [(a, 0, 'satoshi')], [(a, -5, 'satoshi')], [], [(a,)], [(a, 1, 'satoshi', 7)]])
            out = attempt(w, name, lambda: wal.obj.create_transaction(outs, unspents=us, leftover=c.pick([None, b]), fee=c.pick([1, None])))
        else:
            k = c.pick(wal.keys)
            cls = w.bit.PrivateKey if net == 'main' else w.bit.PrivateKeyTestnet
            wrong = w.bit.PrivateKeyTestnet if net == 'main' else w.bit.PrivateKey
            n = int.from_bytes(k.secret, 'big')
            if c.chance(1, 4):
                # the key as another chain's or another software's wallet writes it
                ver = bytes([c.pick([0xb0, 0xcc, 0x9e, 0x81, 0, 5, 0x80, 0xef])])
                odd = btc.b58check(ver + k.secret + c.pick([b'', b'\1', b'', b'\1', b'\0', b'\1\1', b'\2' * 5]))
                odd = c.pick([odd, k.wif[:-1], k.wif + '1', k.secret.hex(), k.secret.hex()[:-1] + 'x'])
                out = attempt(w, name, lambda: c.pick([cls, w.bit.wif_to_key, cls.from_hex])(odd))
                if out.kind == 'raise' and odd in str(out.value):
                    continue        # the caller's own text comes back
                L.after(name, out, wals)
                w.probe('foreign_key')
                continue
            how = c.below(8)
            fn = [lambda: cls(k.wif), lambda: cls.from_hex(k.secret.hex()), lambda: cls.from_bytes(k.secret), lambda: cls.from_int(n),
                  lambda: w.bit.wif_to_key(k.wif), lambda: wrong(k.wif), lambda: cls.from_pem(cls(k.wif).to_pem()),
                  lambda: cls.from_der(cls(k.wif).to_der())][how]
            out = attempt(w, name, fn)
            if how == 5 and out.kind == 'raise':
                continue        # the caller's own text comes back
        if w.net.escaped:
            w.violation('escaped', '%s bypassed the transport: %s' % (name, w.net.escaped[:3]))
        L.after(name, out, wals)
        w.probe(op)
        w.probe('failed' if out.kind == 'raise' else 'done')
    w.probe('signatures', len(L.nonces))


SCENARIOS = {'C25': run_c25, 'C26': run_c26}
