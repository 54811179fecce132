"""C03 broadcast, C04 network separation, C05 own node."""
import os

import requests

from . import btc, net as N, models
from .common import (Plan, PeerFault, draw_fault, populate, draw_secret, attempt, api_fn, answer_of, norm_unspents, spread_lags, PRE,
                     ALL_KINDS)
from .wallets import Wallet, fund, other_address, sign_p2pkh

AMBIGUOUS = ('stall_body', 'truncated', 'chunk_truncated', 'bad_gzip')


# -- C03 ----------------------------------------------------------------------
def judge_broadcast(w, net, hexs, out, name, serving=None):
    reqs = w.net.requests
    serving = serving or N.SERVES[('push', net)]
    tried = {}
    acked_at = None
    for r in reqs:
        if r.kind != 'push':
            w.violation('stray_request', '%s made a %s request to %s' % (name, r.kind, r.service))
            continue
        tried[r.service] = tried.get(r.service, 0) + 1
        if r.net != net:
            w.violation('wrong_network', '%s pushed to %s %s' % (name, r.service, r.net))
        if r.tx_hex is None or r.tx_hex.lower() != hexs.lower():
            w.violation('altered_tx', '%s sent something else than the given transaction to %s' % (name, r.service))
        if acked_at is not None:
            w.violation('push_after_ack', '%s contacted %s after %s had acknowledged' % (name, r.service, acked_at))
        if r.acked:
            acked_at = r.service
    for s, k in tried.items():
        if k > 1:
            w.violation('pushed_twice', '%s sent the transaction %d times to %s' % (name, k, s))
    maybe = [r for r in reqs if r.fault in AMBIGUOUS and r.status == 200]
    if out.kind == 'ok':
        if acked_at is None and not maybe:
            w.violation('false_success', '%s returned although no service acknowledged (tried %s)' % (name, sorted(tried)))
    else:
        node = serving[0].startswith('node:')
        if type(out.value) is not ConnectionError and not (node and type(out.value).__name__ == 'BitcoinNodeException'):
            w.violation('leaked_exception', '%s raised %s: %s' % (name, type(out.value).__name__, out.value))
        if acked_at is not None:
            w.violation('false_failure', '%s raised although %s acknowledged' % (name, acked_at))
        missing = [s for s in serving if s not in tried]
        if missing:
            w.violation('not_tried', '%s raised without trying %s' % (name, missing))
        w.probe('broadcast_failed')
    return acked_at


def run_c03(w):
    c = w.c
    nodes = {}
    for net in ('main', 'test'):
        if c.chance(1, 8):
            w.net.nodes[('localhost', 8332 if net == 'main' else 18332)] = N.Node(net, 'u', 'p', w.net.ledgers[net])
            w.bit.network.NetworkAPI.connect_to_node('u', 'p', port=8332 if net == 'main' else 18332, testnet=net == 'test')
            nodes[net] = ('node:localhost:%d' % (8332 if net == 'main' else 18332),)
            w.probe('node')
    for _ in range(1 + c.below(3)):
        net = c.pick(['main', 'test'])
        led = w.net.ledgers[net]
        ref = btc.RefKey(draw_secret(w), net, True)
        w.net.quirks['known_ok'] = c.chance(1, 2)
        w.net.quirks['rejection'] = c.below(len(N.REJECTIONS))
        w.net.quirks['rejection_status'] = c.pick([400, 400, 422, 409, 500, 413, 414, 406, 429])
        ins = []
        for _ in range(1 + c.below(3)):
            e = led.fund([(50000 + c.below(1000), ref.script)], led.height - 3)
            ins.append((e.txid, 0))
        kind = c.weighted([('valid', 6), ('known', 2), ('spent', 2), ('garbage', 1)])
        _, oscript = other_address(w, net)
        outs = [(20000, oscript)]
        if c.chance(1, 8):
            outs.append((1000, b'\x51' * c.pick([300, 700, 1100, 1500, 2500, 5000, 20000, 40000, 99000])))       # large, within what nodes relay
            w.probe('large_tx')
        hexs = sign_p2pkh(ref, ins, outs)
        if kind == 'known':
            led.accept(hexs)
        elif kind == 'spent':
            led.accept(sign_p2pkh(ref, ins[:1], [(1000, oscript)]))
        elif kind == 'garbage':
            hexs = hexs[:-8] + '00000001' + 'ff' * 3
        if c.chance(1, 6):
            hexs = hexs.upper()
        w.probe('tx_' + kind)
        serving = nodes.get(net) or N.SERVES[('push', net)]
        faults = {}
        prof = c.weighted([('mixed', 5), ('one_healthy', 4), ('none', 3), ('reject_some', 3), ('healthy', 1)])
        keep = c.pick(serving)
        for s in serving:
            if prof == 'healthy' or (prof == 'one_healthy' and s == keep):
                continue
            if prof in ('mixed', 'reject_some') and c.chance(1, 2):
                continue
            if s.startswith('node:'):
                k = c.pick(PRE + ['read_timeout', 'reset', 'stall_body', 'truncated', 'http_503', 'http_401'])
                faults[s] = PeerFault(k, 0, {'body': N.HTML, 'frac': 50, 'applied': c.chance(1, 2)})
            elif prof == 'reject_some' or c.chance(1, 5):
                faults[s] = PeerFault('http_%d' % c.pick([400, 404, 409, 422, 500, 413, 414, 406, 429, 451]), 0, {'body': c.pick(N.REJECTIONS), 'ctype': 'text/plain'})
            else:
                faults[s] = draw_fault(w, applied=True)
        Plan(w, faults)
        if c.chance(1, 3):
            lats = {s: c.pick([0.05, 4.0, 9.5]) for s in serving}
            w.net.latency_fn = lambda r: lats.get(r.service, 0.05)
        else:
            w.net.latency_fn = None
        for _ in range(1 + c.below(2)):
            out = attempt(w, 'broadcast.' + net, lambda: api_fn(w, 'push', net)(hexs))
            acked = judge_broadcast(w, net, hexs, out, 'broadcast.' + net, serving)
            if acked:
                w.probe('acked')
                try:
                    ok = btc.Tx.parse(hexs).txid in led.by_id
                except btc.BadTx:
                    ok = False
                if not ok:
                    w.violation('acked_but_absent', 'service acknowledged a transaction the network does not have')
            if any(r.fault and r.applied for r in w.net.requests):
                w.probe('lost_ack')


# -- C04 ----------------------------------------------------------------------
def check_nets(w, net, name):
    for r in w.net.requests:
        if r.service in N.EXPLORERS and r.net != net:
            w.violation('network_mix', '%s (%s) contacted the %s endpoint of %s: %s' % (name, net, r.net, r.service, r.target))
        if r.service and r.service.startswith('node:') and r.net != net:
            w.violation('network_mix', '%s (%s) contacted a %s node' % (name, net, r.net))
        if r.arg and r.kind in ('addr', 'utxo', 'stats', 'txs_mempool', 'txs_chain', 'txs_all'):
            try:
                anet = btc.address_script(r.arg)[0]
            except Exception:
                continue
            if anet != net:
                w.violation('network_mix', '%s (%s) asked for a %s address' % (name, net, anet))


def random_plan(w, kmax=4, num=1, den=2, kinds=ALL_KINDS):
    c = w.c
    faults = {}
    for s in N.EXPLORERS:
        if c.chance(num, den):
            faults[s] = draw_fault(w, kinds=kinds, kmax=kmax, applied=True)
    return Plan(w, faults)


def run_c04(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    wals = [Wallet(w, net='main'), Wallet(w, net='test')]
    if c.chance(1, 3):
        # the same secrets on both networks
        wals[1] = Wallet(w, kind=wals[0].kind, net='test', m=getattr(wals[0], 'm', None),
                         keys=[btc.RefKey(k.secret, 'test', k.compressed) for k in wals[0].keys])
    for wal in wals:
        fund(w, wal, 1 + c.below(3), lo=100000)
    for _ in range(2 + c.below(4)):
        wal = c.pick(wals)
        net = wal.net
        other = 'test' if net == 'main' else 'main'
        random_plan(w, num=c.pick([1, 2, 3]), den=4)
        op = c.pick(['pay_cross', 'refresh', 'api', 'txs', 'send', 'prepare_cross', 'sign_hex', 'balance', 'pay_cross'])
        name = '%s.%s.%s' % (wal.kind, net, op)
        if op == 'api':
            q = c.pick(['balance', 'txs', 'tx', 'unspent', 'push'])
            a = c.pick(wal.addresses)[0]
            if q == 'tx':
                led = w.net.ledgers[net]
                a = led.entries[c.below(len(led.entries))].txid
            elif q == 'push':
                a = '0100000001' + '00' * 60
            attempt(w, name + '.' + q, lambda: api_fn(w, q, net)(a))
        elif op == 'refresh':
            attempt(w, name, wal.obj.get_unspents)
        elif op == 'balance':
            attempt(w, name, wal.obj.get_balance)
        elif op == 'txs':
            attempt(w, name, wal.obj.get_transactions)
        elif op == 'send':
            a, _ = other_address(w, net)
            fn = getattr(wal.obj, 'send', wal.obj.create_transaction)
            attempt(w, name, lambda: fn([(a, 5000, 'satoshi')], fee=2))
        elif op == 'sign_hex':
            a, s = other_address(w, net)
            t, n, val, sc, cf = c.pick(wal.coins() or [('00' * 32, 0, 1, b'', 0)])
            raw = btc.Tx(b'\x01\0\0\0', [(t, n, b'', 0xFFFFFFFF)], [(1000, s)], [], b'\0\0\0\0', False).hex()
            attempt(w, name, lambda: wal.obj.sign_transaction(raw))
        else:
            bad, _ = other_address(w, other)
            if c.chance(1, 6):
                # the wallet's own key, but its address on the other network
                bad = btc.RefKey(wal.keys[0].secret, other, wal.keys[0].compressed).address
            good, _ = other_address(w, net)
            amt = 1000 + c.below(5000)
            where = c.pick(['recipient', 'leftover', 'second', 'all'])
            outs = [(good, amt, 'satoshi')]
            left = None
            if where in ('recipient', 'all'):
                outs = [(bad, amt, 'satoshi')]
                if where == 'all':
                    outs += [(other_address(w, other)[0], amt, 'satoshi') for _ in range(c.below(2))]
                    left = other_address(w, other)[0]
                elif c.chance(1, 3):
                    left = good
            elif where == 'second':
                outs.insert(c.below(2), (bad, amt, 'satoshi'))
            else:
                left = bad
            led_cross = False
            kw = dict(fee=c.pick([1, 5, 20]), leftover=left, combine=c.chance(1, 2), message=c.pick([None, 'hi']))
            if c.chance(1, 4):
                kw.update(absolute_fee=True, fee=c.pick([300, 1000]))
            if c.chance(1, 4):
                kw['replace_by_fee'] = True
            supplied = None
            if c.chance(1, 2):
                supplied = wal.unspents_for(wal.coins())
            mode = 'prepare' if op == 'prepare_cross' else c.pick(['create', 'send'])
            enough = sum(x[2] for x in wal.coins()) > 2 * amt + 200000
            w.net.ledgers[net].fund([(10 ** 7, wal.addresses[0][1])], w.net.ledgers[net].height - 1) if not enough else None
            if supplied is not None:
                supplied = wal.unspents_for(wal.coins())
            if mode == 'prepare':
                def fn():
                    return wal.cls.prepare_transaction(wal.addresses[0][0], outs, unspents=supplied, **kw)
            elif mode == 'send' and hasattr(wal.obj, 'send'):
                def fn():
                    return wal.obj.send(outs, unspents=supplied, **kw)
            else:
                def fn():
                    return wal.obj.create_transaction(outs, unspents=supplied, **kw)
            out = attempt(w, name + '.' + mode, fn)
            if w.net.pushes:
                w.violation('cross_network_push', '%s: a payment to a %s address was broadcast' % (name, other))
            if out.kind == 'ok':
                if where == 'leftover' and kw['combine'] is False:
                    # a change-free selection pays nobody on the other network
                    import json
                    if mode == 'prepare':
                        paid = [o[0] for o in json.loads(out.value)['outputs']]
                        crossed = bad in paid
                    elif mode == 'send':
                        crossed = False
                    else:
                        bs = btc.address_script(bad)[1]
                        crossed = any(s == bs for _, s in btc.Tx.parse(out.value).vout)
                    if crossed:
                        w.violation('cross_network_payment', '%s accepted change to a %s address' % (name, other))
                else:
                    w.violation('cross_network_payment', '%s accepted a %s to a %s address' % (name, where, other))
            elif isinstance(out.value, ValueError):
                w.probe('cross_refused')
            elif type(out.value) is ConnectionError and supplied is None:
                w.probe('cross_unreachable')
            elif type(out.value).__name__ == 'InsufficientFunds' and mode == 'prepare':
                w.probe('cross_insufficient')
            else:
                w.violation('wrong_exception', '%s raised %s: %s for a cross-network payment' % (name, type(out.value).__name__, out.value))
        check_nets(w, net, name)


# -- C05 ----------------------------------------------------------------------
NODE_FAULTS = ['refused', 'http_401', 'read_timeout', 'http_503', 'reset', 'garbage200', 'conn_timeout', 'http_403', 'dns', 'truncated',
               'cut_json', 'http_500', 'stall_body', 'empty200', 'http_502', 'chunk_truncated', 'ssl', 'http_204', 'http_202', 'schema200', 'http_404', 'http_400', 'http_429']


# the certificate authorities of node owners (requests wants the files to exist)
OWN_CA, OTHER_CA = os.path.abspath(__file__), os.path.abspath(btc.__file__)


class NodePlan:
    """service -> PeerFault for nodes; everything else healthy."""

    def __init__(self, w):
        self.w = w
        self.faults = {}
        w.net.fault_fn = self.decide

    def decide(self, r):
        f = self.faults.get(r.service)
        if f is None:
            return None
        p = dict(f.params)
        if r.kind == 'push' and f.kind in ('garbage200', 'cut_json', 'empty200'):
            return 'http_503', {'body': N.HTML}
        return f.kind, p


def node_answer(w, node, name, op, arg):
    v = w.net.view(name, node.net)
    if op == 'tx':
        e = v.tx(arg)
        return None if e is None else w.net.rawhex(e)
    _, script = btc.address_script(arg)
    return v.addr(script), script, v


def direct_rpc(w, handles, plan):
    """A call on the node object that connect_to_node returned, possibly an older one."""
    c = w.c
    if not handles:
        return
    obj, net, name, node, wrong, path, https = c.pick(handles)
    faulty = c.chance(1, 4)
    if faulty:
        plan.faults[name] = PeerFault(c.pick(['refused', 'http_401', 'read_timeout', 'http_503', 'reset', 'truncated']), 0, {'body': N.HTML})
    m = c.pick(['getblockcount', 'getnothing', 'getrawtransaction'])
    led = w.net.ledgers[net]
    args = (c.pick(led.entries).txid,) if m == 'getrawtransaction' else ()
    out = attempt(w, 'rpc.%s.%s' % (net, m), lambda: getattr(obj, m)(*args))
    for r in w.net.requests:
        if r.service != name or r.path != '/' + path or r.scheme != ('https' if https else 'http'):
            w.violation('leak', 'a call on the node %s contacted %s://%s%s' % (name, r.scheme, r.service or r.host, r.path))
    v = w.net.view(name, net)
    want = v.height if m == 'getblockcount' else None
    if m == 'getrawtransaction':
        e = v.tx(args[0])
        want = w.net.rawhex(e) if e else None
    if out.kind == 'ok':
        if wrong or faulty or want is None or out.value != want:
            w.violation('wrong_answer', '%s on the node returned %r, the node %s' % (m, out.value, 'failed' if wrong or faulty else 'has %r' % want))
    elif not wrong and not faulty and want is not None:
        w.violation('false_failure', '%s on the node raised %r although the node answered' % (m, out.value))
    w.probe('direct_rpc')


# why a node may refuse a valid transaction
NODE_POLICY = ['txn-mempool-conflict', 'min relay fee not met, 0 < 141', 'mempool min fee not met, 141 < 500', 'dust', 'tx-size', 'non-final',
               'insufficient fee, rejecting replacement abc', 'too-long-mempool-chain', 'txn-same-nonwitness-data-in-mempool',
               'bad-txns-inputs-missingorspent', 'scriptpubkey', 'mandatory-script-verify-flag-failed (Signature must be zero)', 'missing-inputs']


def run_c05(w):
    c = w.c
    w.net.rates, w.net.fees = models.Rates(w), models.Fees(w)
    w.net.max_requests = 100
    nodes = {}
    hosts = ['localhost', 'node.example', '10.1.2.3']
    ports = {'main': 8332, 'test': 18332}
    current = {'main': None, 'test': None}
    wals = {n: Wallet(w, kind=c.pick(['key', 'ms', 'key_u']), net=n) for n in ('main', 'test')}
    for n in wals:
        for a, s in wals[n].addresses:
            populate(w, n, s, c.below(5))
        fund(w, wals[n], 1 + c.below(2), lo=100000)
    api = w.bit.network.NetworkAPI
    plan = NodePlan(w)
    handles = []
    if c.chance(1, 4):
        os.environ['REQUESTS_CA_BUNDLE'] = requests.certs.where()
        w.probe('env_ca_bundle')
    for _ in range(4 + c.below(7)):
        net = c.pick(['main', 'test'])
        op = c.weighted([('unspent', 3), ('connect', 4), ('balance', 3), ('txs', 2), ('tx', 3), ('push', 3), ('refresh', 2), ('send', 2), ('move', 2), ('rpc', 2)])
        if current[net] is None and c.chance(1, 2):
            op = 'connect'
        if op == 'move':
            fund(w, wals[net], 1, lo=50000, confirmed=c.chance(1, 2))
            if c.chance(1, 2):
                w.net.ledgers[net].mine()
            continue
        if op == 'connect':
            host = c.pick(hosts)
            port = ports[net] if c.chance(3, 4) else c.pick([9000, 9001, 9002, 8332, 18332])
            key = (host, port)
            user, pw = 'user%d' % len(nodes), 'pw%d' % len(nodes)
            if c.chance(1, 4):
                pw += c.pick(['/x', '#x', '?x', '%41', '@x', ':x', ' x', '+x', '&=;', '[x]', '%', '%zz'])
                w.probe('odd_password')
            if c.chance(1, 12):
                user += c.pick(['/x', '#x', '?x', '%41', '@x', '+x'])
            if key in nodes and nodes[key].net != net:
                continue
            if key not in nodes:
                nodes[key] = w.net.nodes[key] = N.Node(net, user, pw, w.net.ledgers[net], c.pick([None, None, OWN_CA, OTHER_CA]))
            node = nodes[key]
            name = 'node:%s:%d' % key
            if c.chance(1, 3):
                led = w.net.ledgers[net]
                w.net.lag[(name, net)] = max(0, led.seq - c.below(3))
            wrong = c.chance(1, 10)
            kw = dict(host=host, port=port, testnet=(net == 'test'))
            if net == 'main' and c.chance(1, 2):
                kw.pop('testnet')
            if host == 'localhost' and c.chance(1, 2):
                kw.pop('host')
            if port == 8332 and c.chance(1, 2):
                kw.pop('port')
            path, https = '', False
            if c.chance(1, 4):
                path = kw['path'] = c.pick(['wallet/w1', 'wallet/w2', 'rpc', 'wallet/a/b', 'x/wallet/w1', 'wallet/w1/'])
            if c.chance(1, 3):
                https = kw['use_https'] = node.ca or True
            out = attempt(w, 'connect.' + net, lambda: api.connect_to_node(node.user, 'bad' if wrong else node.password, **kw))
            if out.kind == 'raise':
                w.violation('connect_failed', 'connect_to_node raised %r' % out.value)
            if w.net.requests:
                for r in w.net.requests:
                    if r.service != name:
                        w.violation('leak', 'connect_to_node contacted %s' % (r.service or r.host))
            current[net] = (name, node, wrong, path, https)
            handles.append((out.value, net) + current[net])
            w.probe('connect_n%d' % min(4, sum(1 for x in current.values() if x)))
            continue
        if op == 'rpc':
            plan.faults = {}
            direct_rpc(w, handles, plan)
            continue
        cur = current[net]
        plan.faults = {}
        faulty = cur is not None and c.chance(2, 5)
        if faulty:
            kind = c.pick(NODE_FAULTS)
            if cur[4] and c.chance(1, 4):
                kind = 'impostor'
            params = {'applied': c.chance(1, 2)}
            if kind == 'schema200':
                params['body'] = c.pick(N.SCHEMAS)
            if kind.startswith('http_'):
                params['body'] = b'' if kind == 'http_204' else c.pick([N.HTML, b'', b'{"error":{"code":-28,"message":"Loading block index..."},"result":null,"id":null}',
                                                                          b'{}', b'null', b'[]'])
                if kind != 'http_500' and params['body'] == b'':
                    params['ctype'] = 'text/html'
            plan.faults[cur[0]] = PeerFault(kind, 0, params)
        if cur is None and c.chance(1, 3):
            for s in N.EXPLORERS:
                if c.chance(1, 3):
                    plan.faults[s] = PeerFault(c.pick(['refused', 'http_503']), 0, {'body': N.HTML})
        name = '%s.%s' % (op, net)
        wal = wals[net]
        led = w.net.ledgers[net]
        arg = c.pick(wal.addresses)[0]
        if op == 'tx':
            arg = led.entries[c.below(len(led.entries))].txid if c.chance(3, 4) else btc.sha256(b'nope').hex()
        if op == 'push':
            ref = btc.RefKey(draw_secret(w), net, True)
            e = led.fund([(60000, ref.script)], led.height - 1)
            arg = sign_p2pkh(ref, [(e.txid, 0)], [(40000, other_address(w, net)[1])])
            how = c.pick(['valid', 'spent', 'garbage', 'known'])
            if how == 'known':
                led.accept(arg)
                if c.chance(1, 2):
                    led.mine()
                    w.net.quirks['node_known'] = c.below(3)
            if how == 'spent':
                led.accept(sign_p2pkh(ref, [(e.txid, 0)], [(30000, other_address(w, net)[1])]))
            elif how == 'garbage':
                arg = arg[:-20] + '0000'
        if op in ('push', 'send'):
            w.net.quirks['node_policy'] = c.pick(NODE_POLICY) if c.chance(1, 5) else None
        if op == 'refresh':
            out = attempt(w, name, wal.obj.get_unspents)
        elif op == 'send':
            if wal.is_ms:
                continue
            a, sc = other_address(w, net)
            out = attempt(w, name, lambda: wal.obj.send([(a, 3000, 'satoshi')], fee=2))
        else:
            out = attempt(w, name, lambda: api_fn(w, op, net)(arg))
        # who was contacted
        for r in w.net.requests:
            if cur is not None and r.service != cur[0]:
                w.violation('leak', '%s with a node connected contacted %s' % (name, r.service or r.host))
            if cur is not None and (r.path != '/' + cur[3] or r.scheme != ('https' if cur[4] else 'http')):
                w.violation('leak', '%s contacted %s %s of the node, connected is /%s' % (name, r.scheme, r.path, cur[3]))
            if cur is None and r.service not in N.EXPLORERS:
                w.violation('leak', '%s without a node for that network contacted %s' % (name, r.service or r.host))
            if r.net != net:
                w.violation('network_mix', '%s contacted a %s endpoint' % (name, r.net))
        if w.net.fooled:
            w.violation('impostor', '%s talked to an impostor of the node without noticing: %s' % (name, w.net.fooled[0]))
        if w.net.escaped:
            w.violation('leak', '%s bypassed the transport: %s' % (name, w.net.escaped[:3]))
        if cur is None:
            w.probe('web')
            continue
        node_name, node, wrong = cur[:3]
        failed = wrong or (faulty and any(r.fault for r in w.net.requests))
        if out.kind == 'raise':
            e = out.value
            if type(e) is not ConnectionError and type(e).__name__ != 'BitcoinNodeException':
                if not (op == 'send' and type(e).__name__ == 'InsufficientFunds') and not (op == 'send' and isinstance(e, ValueError)):
                    w.violation('leaked_exception', '%s raised %s: %s' % (name, type(e).__name__, e))
            if not w.net.requests and op != 'send':
                w.violation('not_asked', '%s raised without asking the node' % name)
            if not failed:
                good = True
                if op == 'tx':
                    good = node_answer(w, node, node_name, op, arg) is not None
                elif op in ('push', 'send'):
                    good = any(p[3] for p in w.net.pushes)
                if good:
                    w.violation('false_failure', '%s raised %r although the node answered' % (name, e))
            w.probe('node_error')
            continue
        if failed and op not in ('push', 'send'):
            w.violation('answer_from_failed_node', '%s returned %r although the node failed (%s)' % (name, out.value, plan.faults))
        if op == 'push' or op == 'send':
            acc = [p for p in w.net.pushes if p[3]]
            if not acc:
                w.violation('false_success', '%s returned although the node did not accept' % name)
            elif op == 'push' and acc[0][2].lower() != arg.lower():
                w.violation('altered_tx', '%s sent something else' % name)
            elif op == 'send' and out.value != btc.Tx.parse(acc[0][2]).txid:
                w.violation('wrong_txid', '%s returned %r' % (name, out.value))
            continue
        got = out.value
        if op == 'tx':
            want = node_answer(w, node, node_name, op, arg)
            if got != want:
                w.violation('wrong_answer', '%s returned %r' % (name, got))
            continue
        if op == 'refresh':
            v = w.net.view(node_name, net)
            want = sorted((t, n, val, cf, s.hex()) for a, s in wal.addresses for t, n, val, cf, h in v.addr(s).utxos)
            if norm_unspents(got) != want:
                w.violation('wrong_answer', '%s: wallet holds %d unspents, node has %d' % (name, len(got), len(want)))
            continue
        st, script, v = node_answer(w, node, node_name, op, arg)
        if op == 'unspent':
            want = sorted((t, n, val, cf, script.hex()) for t, n, val, cf, h in st.utxos)
            if norm_unspents(got) != want:
                w.violation('wrong_answer', '%s returned %s, node has %s' % (name, norm_unspents(got), want))
        elif op == 'balance':
            if type(got) is not int:
                w.violation('wrong_answer', '%s returned %r' % (name, got))
            elif got != st.balance:
                if got == st.received:
                    w.violation('rpc-balance-total-received', '%s returned %d (total ever received), balance is %d' % (name, got, st.balance))
                else:
                    w.violation('wrong_answer', '%s returned %d, balance is %d' % (name, got, st.balance))
        elif op == 'txs':
            want = sorted(t for t, _ in st.txs)
            if sorted(got) != want:
                recv = sorted(e.txid for e in led.entries if e.add_seq <= v.upto and any(s == script for _, s in e.tx.vout))
                if sorted(got) == recv:
                    w.violation('rpc-history-receiving-only', '%s returned only the %d receiving transactions of %d' % (name, len(recv), len(want)))
                else:
                    w.violation('wrong_answer', '%s returned %s, node has %s' % (name, sorted(got), want))


SCENARIOS = {'C03': run_c03, 'C04': run_c04, 'C05': run_c05}
