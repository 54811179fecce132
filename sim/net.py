"""Simulated network: the seam under urllib3, the fault injector, and the
simulated peers (five block explorers, two rate services, one fee service,
Bitcoin Core nodes).

The seam is HTTPConnectionPool._make_request: everything above it - requests,
its adapters, urllib3's retry and error translation, body decoding - is the
real library code.
"""
import http.client
import io
import json
from urllib.parse import urlsplit, parse_qs, unquote

import urllib3.exceptions as U3
from urllib3.response import HTTPResponse

from . import btc
from .core import SimHang

EXPLORERS = ('blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain')

# which explorers serve which query, per network (order is not assumed)
SERVES = {
    ('balance', 'main'): ('blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain'),
    ('balance', 'test'): ('blockchair', 'blockstream', 'bitcore', 'smartbit'),
    ('txs', 'main'): ('blockchair', 'blockstream', 'smartbit', 'blockchain'),
    ('txs', 'test'): ('blockchair', 'blockstream', 'smartbit'),
    ('tx', 'main'): ('blockchair', 'blockstream', 'smartbit', 'blockchain'),
    ('tx', 'test'): ('blockchair', 'blockstream', 'smartbit'),
    ('unspent', 'main'): ('blockstream', 'blockchair', 'smartbit', 'blockchain', 'bitcore'),
    ('unspent', 'test'): ('blockstream', 'blockchair', 'smartbit', 'bitcore'),
    ('push', 'main'): ('blockchair', 'blockstream', 'bitcore', 'smartbit', 'blockchain'),
    ('push', 'test'): ('blockchair', 'blockstream', 'bitcore', 'smartbit'),
}

# what Bitcoin Core has said over the years of a transaction already in a block
NODE_KNOWN = ('Transaction already in block chain', 'transaction already in block chain', 'Transaction outputs already in utxo set')
HTTP_STATUSES = (503, 429, 500, 502, 403, 504, 520, 402, 430, 400, 401, 404, 409, 422)
# not an error to HTTP, not an answer either: bot challenges, caches
ODD_STATUSES = (202, 204, 300, 304)
# fault kinds that happen before the peer has seen the request
PRE_FAULTS = ('refused', 'dns', 'conn_timeout', 'ssl')          # 'impostor' ends as 'ssl' unless the client does not check
# kinds after the peer has processed it
POST_FAULTS = ('reset', 'read_timeout', 'stall_body', 'truncated', 'chunk_truncated', 'bad_gzip')
ODD_FAULTS = tuple('http_%d' % s for s in ODD_STATUSES)
STATUS_FAULTS = tuple('http_%d' % s for s in HTTP_STATUSES + (406, 413, 414, 451)) + ODD_FAULTS
BODY_FAULTS = ('garbage200', 'empty200', 'cut_json', 'schema200')
RATE_SCHEMAS = (b'{"data":{}}', b'{"data":[]}', b'{"data":{"rate":null}}', b'{"data":null}')
# decodes, but is not what was asked for
SCHEMAS = (b'{"error":"temporarily unavailable"}', b'null', b'"Service unavailable"', b'true', b'{"success":false,"message":"rate limited"}')
REDIRECT = ('redirect_loop', 'redirect_away')

HTML = b'<!DOCTYPE html><html><head><title>Just a moment...</title></head><body>try again</body></html>'
ERROR_BODIES = (HTML, b'', b'{}', b'[]', b'{"error":"temporarily unavailable"}', b'null',
                b'Too many requests for free outputs, try again later', b'Transaction database not found')
# what services say when they refuse a transaction; none of it is an acknowledgement
REJECTIONS = (b'sendrawtransaction RPC error', b'sendrawtransaction RPC error: {"code":-26,"message":"txn-mempool-conflict"}',
              b'An outpoint is already spent in another transaction', b'Transaction already in block chain', b'txn-already-known',
              b'{"success":false,"error":{"code":"PUSHTX_ERROR","message":"Transaction already exists"}}',
              b'{"data":null,"context":{"code":400,"error":"Invalid transaction. Error: Transaction already in block chain"}}',
              b'missing inputs', b'dust', b'ok')


class Req:
    def __init__(self, method, scheme, host, port, target, body, headers, ctimeout, rtimeout):
        self.method, self.scheme, self.host, self.port = method, scheme, host, port
        u = urlsplit(target)
        self.path = u.path
        self.query = {k: v[0] for k, v in parse_qs(u.query, keep_blank_values=True).items()}
        self.target = target
        self.body = body
        self.headers = headers
        self.ctimeout, self.rtimeout = ctimeout, rtimeout
        self.service = None
        self.net = None
        self.kind = None
        self.index = None
        self.acked = False
        self.applied = False
        self.status = None
        self.fault = None
        self.on_body = None        # called when the body was read in part
        self.quotes = []
        self.late = False
        self.t0 = None
        self.checks = False        # TLS with the certificate checked
        self.verified = False      # and with the host name checked
        self.ca = None

    def text(self):
        if self.body is None:
            return ''
        if isinstance(self.body, bytes):
            return self.body.decode('utf8', 'replace')
        return str(self.body)


class Rep:
    def __init__(self, status, body, ctype):
        self.status, self.body, self.ctype = status, body, ctype


def jrep(obj, status=200):
    return Rep(status, json.dumps(obj).encode(), 'application/json')


def trep(text, status=200):
    return Rep(status, text.encode(), 'text/plain')


class Body(io.BytesIO):
    """Body bytes followed by EOF, an exception or a stall."""

    def __init__(self, data, end=None):
        super().__init__(data)
        self.end = end

    def read(self, n=-1):
        d = super().read(n)
        if not d and self.end is not None:
            self.end()
        if n is None or n < 0:
            if self.end is not None:
                self.end()
        return d

    read1 = read


class Network:
    MAX_REQUESTS = 400

    def __init__(self, world):
        self.w = world
        self.ledgers = {'main': btc.Ledger('main'), 'test': btc.Ledger('test')}
        self.nodes = {}            # (host, port) -> Node
        self.requests = []         # every request of the current operation
        self.total = 0
        self.views = {}
        self.lag = {}              # (service, net) -> ledger seq or absent = newest
        self.quirks = {}
        self.fault_fn = None       # (req) -> None | (kind, params)
        self.latency_fn = None     # (req) -> seconds
        self.on_request = None     # scenario hook (crash points etc.)
        self.rates = None          # rates model
        self.fees = None
        self.acks = []             # (service, net, hex) acknowledged with 200 and delivered
        self.pushes = []           # (service, net, hex, accepted)
        self.partition = False
        self.escaped = []
        self.fooled = []           # requests that went to an impostor without noticing
        self.max_requests = self.MAX_REQUESTS

    # -- per-operation bookkeeping -----------------------------------------
    def begin_op(self):
        self.requests = []
        self.views = {}
        self.acks = []
        self.pushes = []

    def view(self, service, net):
        k = (service, net)
        v = self.views.get(k)
        if v is None:
            led = self.ledgers[net]
            v = self.views[k] = led.view(self.lag.get(k))
        return v

    # -- the seam -----------------------------------------------------------
    def make_request(self, pool, conn, method, url, body, headers, timeout, response_conn, retries):
        w = self.w
        w._check()
        ct = rt = None
        if timeout is not None:
            ct = getattr(timeout, 'connect_timeout', None)
            try:
                rt = timeout._read
                if rt is not None and not isinstance(rt, (int, float)):
                    rt = None
            except AttributeError:
                rt = None
            if ct is not None and not isinstance(ct, (int, float)):
                ct = None
        req = Req(method, pool.scheme, pool.host, pool.port, url, body, dict(headers or {}), ct, rt)
        if pool.scheme == 'https':
            req.checks = str(getattr(pool, 'cert_reqs', None)).rsplit('.', 1)[-1] in ('CERT_REQUIRED', '2')
            req.verified = req.checks and getattr(pool, 'assert_hostname', None) is not False
            req.ca = getattr(pool, 'ca_certs', None)
        self.classify(req)
        self.total += 1
        req.index = len(self.requests)
        req.t0 = w.mono
        req.task = w.current
        self.requests.append(req)
        w.mark('req', req.service, req.net, req.kind)
        w.log('   ', method, req.host, url[:200], 'timeout', ct, rt)
        if len(self.requests) > self.max_requests:
            w.hang = 'more than %d requests in one operation (no progress)' % self.max_requests
            raise SimHang(w.hang)
        if self.on_request:
            self.on_request(req, 'before')
        fault = None
        if self.partition:
            fault = ('refused', {})
        elif req.service is None:
            fault = ('dns', {})
        elif self.fault_fn:
            fault = self.fault_fn(req)
        kind = fault[0] if fault else None
        params = fault[1] if fault else {}
        req.fault = kind
        node = self.nodes.get((req.host, req.port))
        if kind == 'impostor':
            # someone else answers at this address, with a certificate nobody vouches for
            w.fault('impostor')
            issuer = params.get('issuer', 'self')
            if req.scheme != 'https' or not req.checks:
                fooled = True
            elif issuer == 'wrong_host':
                fooled = not req.verified
            elif issuer == 'public':
                fooled = req.ca != (node.ca if node else None)
            else:
                fooled = issuer == req.ca
            if fooled:
                self.fooled.append('%s %s://%s%s' % (req.service, req.scheme, req.host, req.path[:80]))
                kind, params = 'http_503', {'body': HTML}
            else:
                kind = 'ssl'
        elif kind is None and node is not None and node.ca and req.scheme == 'https' and req.verified and req.ca != node.ca:
            kind = req.fault = 'ssl'           # the node's certificate is signed by its owner's authority only
        if kind and not (kind == 'redirect_loop' and req.index and self.requests[req.index - 1].fault == 'redirect_loop'):
            w.fault(kind)
            w.log('    fault', kind, params)
        # -- before the peer sees it
        if kind == 'refused':
            w.sleep(0.01)
            raise U3.NewConnectionError(conn, 'Failed to establish a new connection: [Errno 111] Connection refused')
        if kind == 'dns':
            w.sleep(0.01)
            raise U3.NameResolutionError(req.host, conn, OSError(-3, 'Temporary failure in name resolution'))
        if kind == 'conn_timeout':
            if ct is None:
                w.sleep(130)
                raise U3.NewConnectionError(conn, 'Failed to establish a new connection: [Errno 110] timed out')
            w.sleep(ct)
            raise U3.ConnectTimeoutError(conn, 'Connection to %s timed out. (connect timeout=%s)' % (req.host, ct))
        if kind == 'ssl':
            w.sleep(0.02)
            import ssl
            raise ssl.SSLError(1, '[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed')
        lat = self.latency_fn(req) if self.latency_fn else 0.05
        if kind == 'slow':
            lat = params['delay']
        if rt is not None and lat > rt:
            # reply arrives too late
            req.late = True
            self.respond(req) if params.get('applied', True) else None
            w.sleep(rt)
            raise U3.ReadTimeoutError(pool, url, 'Read timed out. (read timeout=%s)' % rt)
        w.sleep(lat)
        rep = None
        if kind is None or kind == 'slow' or (kind in POST_FAULTS) or params.get('applied'):
            if not (req.kind == 'push' and kind in ('reset', 'read_timeout') and not params.get('applied')):
                rep = self.respond(req)
                req.applied = True
        if self.on_request:
            self.on_request(req, 'after')
        if kind == 'reset':
            raise ConnectionResetError(104, 'Connection reset by peer')
        if kind == 'read_timeout':
            if rt is None:
                w.hang = 'no timeout: waits forever for %s %s' % (req.service, req.host)
                w.log('HANG', w.hang)
                raise SimHang(w.hang)
            w.sleep(rt)
            raise U3.ReadTimeoutError(pool, url, 'Read timed out. (read timeout=%s)' % rt)
        hdr = {}
        end = None
        if rep is None and kind not in STATUS_FAULTS + BODY_FAULTS + REDIRECT:
            rep = Rep(200, b'{}', 'application/json')
        if kind in STATUS_FAULTS:
            rep = Rep(int(kind[5:]), params.get('body', HTML), params.get('ctype', 'text/html'))
        elif kind == 'garbage200':
            rep = Rep(200, HTML, 'text/html')
        elif kind == 'schema200':
            body = params.get('body', SCHEMAS[0])
            if body == b'null' and (req.service == 'bitcore' and req.kind == 'utxo' or req.service == 'blockstream' and req.kind.startswith('txs')):
                body = SCHEMAS[0]       # null where a list was asked for may be read as an empty one
            rep = Rep(200, body, 'application/json')
        elif kind == 'empty200':
            rep = Rep(200, b'', 'application/json')
        elif kind == 'redirect_loop':
            rep = Rep(302, b'', 'text/html')
            hdr['Location'] = url
        elif kind == 'redirect_away':
            rep = Rep(params.get('status', 307), b'', 'text/html')
            hdr['Location'] = 'http://elsewhere.example/'
        elif kind == 'cut_json':
            full = self.respond(req)
            cut = params.get('cut', 50) % max(1, len(full.body) - 1)
            rep = Rep(200, full.body[:cut], 'application/json')
        data = rep.body
        if kind == 'truncated':
            hdr['Content-Length'] = str(len(data) + 7)
            data = data[: (len(data) * params.get('frac', 50)) // 100]
        elif kind == 'chunk_truncated':
            data = data[: (len(data) * params.get('frac', 50)) // 100]

            def end():
                raise http.client.IncompleteRead(b'')
        elif kind == 'stall_body':
            data = data[: (len(data) * params.get('frac', 50)) // 100]

            def end():
                if rt is None:
                    w.hang = 'no timeout: waits forever for the rest of the reply of %s %s' % (req.service, req.host)
                    w.log('HANG', w.hang)
                    raise SimHang(w.hang)
                w.sleep(rt)
                raise TimeoutError('timed out')
        elif kind == 'bad_gzip':
            hdr['Content-Encoding'] = 'gzip'
            data = b'\xff\xfe not a gzip stream ' + data
        if req.on_body:
            data, end = data[:len(data) // 2], req.on_body
        hdr['Content-Type'] = rep.ctype
        if req.kind == 'push' and rep.status == 200 and (kind is None or kind == 'slow'):
            self.acks.append((req.service, req.net, req.tx_hex))
            req.acked = True
        req.status = rep.status
        w.log('    reply', rep.status, len(data))
        return HTTPResponse(
            body=Body(data, end), headers=hdr, status=rep.status, version=11, reason=http.client.responses.get(rep.status, ''),
            preload_content=False, decode_content=False, pool=pool, connection=response_conn, retries=retries,
            request_method=method, request_url=url, enforce_content_length=True,
        )

    # -- routing ------------------------------------------------------------
    def classify(self, r):
        h, p = r.host, r.path
        r.tx_hex = None
        r.arg = None
        r.kind = 'other'
        if (h, r.port) in self.nodes:
            r.service = 'node:%s:%d' % (h, r.port)
            r.net = self.nodes[(h, r.port)].net
            try:
                r.rpc = json.loads(r.text())
                r.kind = 'rpc:' + r.rpc['method']
                if r.rpc['method'] == 'sendrawtransaction':
                    r.kind = 'push'
                    r.tx_hex = r.rpc['params'][0]
            except Exception:
                r.rpc = None
                r.kind = 'rpc:?'
            return
        seg = [unquote(x) for x in p.split('/') if x]
        if h == 'api.blockchair.com':
            r.service = 'blockchair'
            seg = seg[1:] if seg[:1] == ['bitcoin'] else ['?']
            r.net = 'main'
            if seg[:1] == ['testnet']:
                r.net = 'test'
                seg = seg[1:]
            if seg[:2] == ['dashboards', 'address'] and len(seg) == 3:
                r.kind, r.arg = 'addr', seg[2]
            elif seg[:2] == ['raw', 'transaction'] and len(seg) == 3:
                r.kind, r.arg = 'tx', seg[2]
            elif seg == ['push', 'transaction']:
                r.kind = 'push'
        elif h == 'blockstream.info':
            r.service = 'blockstream'
            r.net = 'main'
            if seg[:1] == ['testnet']:
                r.net = 'test'
                seg = seg[1:]
            seg = seg[1:] if seg[:1] == ['api'] else ['?']
            if seg == ['blocks', 'tip', 'height']:
                r.kind = 'height'
            elif seg[:1] == ['address'] and len(seg) >= 2:
                r.arg = seg[1]
                rest = seg[2:]
                if not rest:
                    r.kind = 'stats'
                elif rest == ['utxo']:
                    r.kind = 'utxo'
                elif rest == ['txs', 'mempool']:
                    r.kind = 'txs_mempool'
                elif rest[:2] == ['txs', 'chain']:
                    r.kind = 'txs_chain'
                    r.last = rest[2] if len(rest) > 2 else ''
                elif rest == ['txs']:
                    r.kind = 'txs_all'
            elif seg[:1] == ['tx'] and len(seg) == 3 and seg[2] == 'hex':
                r.kind, r.arg = 'tx', seg[1]
            elif seg == ['tx'] and r.method == 'POST':
                r.kind = 'push'
        elif h == 'api.bitcore.io':
            r.service = 'bitcore'
            if seg[:2] == ['api', 'BTC'] and len(seg) > 2:
                r.net = {'mainnet': 'main', 'testnet': 'test'}.get(seg[2])
                seg = seg[3:]
                if seg[:1] == ['address'] and len(seg) == 3 and seg[2] == 'balance':
                    r.kind, r.arg = 'stats', seg[1]
                elif seg[:1] == ['address'] and len(seg) == 2:
                    r.kind, r.arg = 'utxo', seg[1]
                elif seg == ['tx', 'send']:
                    r.kind = 'push'
        elif h in ('api.smartbit.com.au', 'testnet-api.smartbit.com.au'):
            r.service = 'smartbit'
            r.net = 'test' if h.startswith('testnet') else 'main'
            if seg[:2] == ['v1', 'blockchain']:
                seg = seg[2:]
                if seg[:1] == ['address'] and len(seg) == 2:
                    r.kind, r.arg = 'addr', seg[1]
                elif seg[:1] == ['address'] and len(seg) == 3 and seg[2] == 'unspent':
                    r.kind, r.arg = 'utxo', seg[1]
                elif seg[:1] == ['tx'] and len(seg) == 3 and seg[2] == 'hex':
                    r.kind, r.arg = 'tx', seg[1]
                elif seg == ['pushtx']:
                    r.kind = 'push'
        elif h == 'blockchain.info':
            r.service = 'blockchain'
            r.net = 'main'
            if seg[:1] == ['address'] and len(seg) == 2:
                r.kind, r.arg = 'addr', seg[1]
            elif seg == ['unspent']:
                r.kind, r.arg = 'utxo', r.query.get('active')
            elif seg[:1] == ['rawtx'] and len(seg) == 2:
                r.kind, r.arg = 'tx', seg[1]
            elif seg == ['pushtx']:
                r.kind = 'push'
            elif seg == ['tobtc']:
                r.service, r.kind, r.arg, r.net = 'blockchain_rates', 'rate', (r.query.get('currency') or '').lower(), None
        elif h == 'bitpay.com':
            r.service = 'bitpay'
            if seg[:2] == ['rates', 'BTC'] and len(seg) == 3:
                r.kind, r.arg = 'rate', seg[2].lower()
        elif h == 'mempool.space':
            r.service = 'mempool'
            if p.rstrip('/').endswith('/fees/recommended'):
                r.kind = 'fee'
        if r.kind == 'push' and r.tx_hex is None:
            r.tx_hex = self.find_hex(r)

    @staticmethod
    def find_hex(r):
        """The transaction in a push body, wherever the client put it."""
        t = r.text().strip()
        cands = []
        try:
            j = json.loads(t)
            if isinstance(j, dict):
                cands += [v for v in j.values() if isinstance(v, str)]
            elif isinstance(j, str):
                cands.append(j)
        except ValueError:
            pass
        for vs in parse_qs(t).values():
            cands += vs
        cands.append(t)
        best = None
        for cnd in cands:
            cnd = cnd.strip()
            if len(cnd) >= 20 and len(cnd) % 2 == 0:
                try:
                    bytes.fromhex(cnd)
                except ValueError:
                    continue
                if best is None or len(cnd) > len(best):
                    best = cnd
        return best

    # -- peers --------------------------------------------------------------
    def respond(self, r):
        if r.service.startswith('node:'):
            return self.nodes[(r.host, r.port)].handle(self, r)
        if r.service in ('bitpay', 'blockchain_rates'):
            if r.kind != 'rate' or self.rates is None:
                return Rep(404, b'not found', 'text/plain')
            rep = self.rates.reply(self.w, r.service, r.arg)
            r.quotes = self.rates.quotes[-1:] if rep.status == 200 else []
            return rep
        if r.service == 'mempool':
            if r.kind != 'fee' or self.fees is None:
                return Rep(404, b'not found', 'text/plain')
            rep = self.fees.reply(self.w)
            r.quotes = self.fees.quotes[-2:]
            return rep
        if r.net is None or r.kind == 'other':
            return Rep(404, b'not found', 'text/plain')
        if r.kind == 'push':
            return self.push(r)
        v = self.view(r.service, r.net)
        st = None
        if r.kind != 'tx' and r.kind != 'height':
            try:
                net, script = btc.address_script(r.arg or '')
            except Exception:
                net = None
            if net != r.net:
                return Rep(404 if r.service != 'blockstream' else 400, b'Invalid Bitcoin address', 'text/plain')
            st = v.addr(script)
        return getattr(self, 'srv_' + r.service)(r, v, st)

    def _num(self, r, key, default):
        try:
            return int(r.query.get(key, default))
        except (TypeError, ValueError):
            return default

    def rawhex(self, e):
        return e.hexs or e.tx.hex()

    def srv_blockchair(self, r, v, st):
        if r.kind == 'tx':
            e = v.tx(r.arg)
            if e is None:
                if self.quirks.get('blockchair_tx_null'):
                    return jrep({'data': None, 'context': {'code': 200}})
                return jrep({'data': None, 'context': {'code': 404}}, 404)
            return jrep({'data': {r.arg: {'raw_transaction': self.rawhex(e), 'decoded_raw_transaction': {}}},
                         'context': {'code': 200, 'state': v.height}})
        if not st.txs and self.quirks.get('blockchair_404'):
            return jrep({'data': None, 'context': {'code': 404, 'error': 'not found'}}, 404)
        lim = max(0, min(self._num(r, 'limit', 100), 1000))
        off = max(0, self._num(r, 'offset', 0))
        _, script = btc.address_script(r.arg)
        return jrep({
            'data': {r.arg: {
                'address': {
                    'type': 'pubkeyhash', 'script_hex': script.hex(), 'balance': st.balance,
                    'received': st.received, 'spent': st.sent,
                    'unspent_output_count': len(st.utxos), 'transaction_count': len(st.txs),
                },
                'transactions': [t for t, _ in st.txs[off:off + lim]],
                'utxo': [{'block_id': h if h is not None else -1, 'transaction_hash': t, 'index': n, 'value': val}
                         for t, n, val, cf, h in st.utxos[::-1][off:off + lim]],
            }},
            'context': {'code': 200, 'state': v.height, 'limit': str(lim), 'offset': str(off)},
        })

    def srv_blockstream(self, r, v, st):
        k = r.kind
        if k == 'height':
            return trep(str(v.height))
        if k == 'tx':
            e = v.tx(r.arg)
            return trep('Transaction not found', 404) if e is None else trep(self.rawhex(e))
        if k == 'stats':
            return jrep({
                'address': r.arg,
                'chain_stats': {'funded_txo_sum': st.received - st.received_unconf, 'spent_txo_sum': st.sent - st.sent_unconf,
                                'tx_count': sum(1 for _, h in st.txs if h is not None)},
                'mempool_stats': {'funded_txo_sum': st.received_unconf, 'spent_txo_sum': st.sent_unconf,
                                  'tx_count': sum(1 for _, h in st.txs if h is None)},
            })
        if k == 'utxo':
            cap = self.quirks.get('blockstream_cap', 500)
            if len(st.txs) > cap:
                return trep('Too many history entries', 400)
            return jrep([{'txid': t, 'vout': n, 'value': val,
                          'status': {'confirmed': True, 'block_height': h, 'block_hash': '00', 'block_time': 1}
                          if h is not None else {'confirmed': False}}
                         for t, n, val, cf, h in st.utxos])
        mem = [{'txid': t, 'status': {'confirmed': False}} for t, h in st.txs if h is None]
        chain = [{'txid': t, 'status': {'confirmed': True, 'block_height': h}} for t, h in st.txs if h is not None]
        if k == 'txs_mempool':
            return jrep(mem[:50])
        if k == 'txs_all':
            return jrep(mem[:50] + chain[:25])
        i = 0
        if r.last:
            ids = [x['txid'] for x in chain]
            i = ids.index(r.last) + 1 if r.last in ids else len(ids)
        return jrep(chain[i:i + 25])

    def srv_bitcore(self, r, v, st):
        if r.kind == 'stats':
            return jrep({'confirmed': st.balance, 'unconfirmed': 0, 'balance': st.balance})
        lim = max(1, min(self._num(r, 'limit', 10), 100))
        # an id is given once and for all
        items = [{'_id': '%024x' % order(v, t, n), 'mintTxid': t, 'mintIndex': n, 'value': val, 'confirmations': cf,
                  'script': btc.address_script(r.arg)[1].hex(), 'address': r.arg, 'spentTxid': ''}
                 for t, n, val, cf, h in sorted(st.utxos, key=lambda u: order(v, u[0], u[1]))]
        since = r.query.get('since')
        if since:
            items = [x for x in items if x['_id'] > since]
        return jrep(items[:lim])

    def srv_smartbit(self, r, v, st):
        if r.kind == 'tx':
            e = v.tx(r.arg)
            if e is None:
                return jrep({'success': False, 'error': {'code': 'REQ_ERROR', 'message': 'not found'}}, 400)
            return jrep({'success': True, 'hex': [{'txid': r.arg, 'hex': self.rawhex(e)}]})
        lim = max(1, min(self._num(r, 'limit', 10), 1000))
        cur = self._num(r, 'next', 0)          # a position in the order of arrival
        base = 'https://%s%s' % (r.host, r.path)

        def page(rows):
            rows = sorted(((order(v, x[0], x[1] if len(x) > 2 else 0), x) for x in rows), reverse=True)
            if cur > 0:
                rows = [x for x in rows if x[0] < cur]
            nxt = '%s?limit=%d&next=%d' % (base, lim, rows[lim - 1][0]) if len(rows) > lim else None
            return [x for _, x in rows[:lim]], {'limit': lim, 'next_link': nxt}

        if r.kind == 'addr':
            a = {'address': r.arg, 'total': {'balance_int': st.balance, 'balance': '%d.%08d' % divmod(st.balance, 10 ** 8)}}
            if st.txs:
                rows, a['transaction_paging'] = page(st.txs)
                a['transactions'] = [{'txid': t, 'hash': t, 'confirmations': 0} for t, _ in rows]
            return jrep({'success': True, 'address': a})
        rows, paging = page(st.utxos)
        o = {'success': True, 'paging': paging}
        if rows or cur:
            sc = btc.address_script(r.arg)[1].hex()
            o['unspent'] = [{'value': '%d.%08d' % divmod(val, 10 ** 8), 'value_int': val, 'confirmations': cf, 'txid': t, 'n': n,
                             'script_pub_key': {'hex': sc}} for t, n, val, cf, h in rows]
        return jrep(o)

    def srv_blockchain(self, r, v, st):
        if r.kind == 'tx':
            e = v.tx(r.arg)
            if e is None:
                return trep('Transaction not found', 500)
            if r.query.get('format') != 'hex':
                return jrep({'hash': r.arg, 'ver': 1, 'inputs': [], 'out': [], 'lock_time': 0})
            return trep(self.rawhex(e))
        off = max(0, self._num(r, 'offset', 0))
        if r.kind == 'addr':
            lim = max(0, min(self._num(r, 'limit', 50), 50))
            return jrep({'address': r.arg, 'n_tx': len(st.txs), 'final_balance': st.balance,
                         'total_received': st.received, 'total_sent': st.sent,
                         'txs': [{'hash': t} for t, _ in st.txs[off:off + lim]]})
        lim = max(1, min(self._num(r, 'limit', 250), 1000))
        if not st.utxos:
            return trep('No free outputs to spend', 500)
        sc = btc.address_script(r.arg)[1].hex()
        # reports at most 1000 and knows nothing beyond
        return jrep({'unspent_outputs': [
            {'tx_hash_big_endian': t, 'tx_hash': bytes.fromhex(t)[::-1].hex(), 'tx_output_n': n, 'value': val,
             'confirmations': cf, 'script': sc} for t, n, val, cf, h in st.utxos[:lim]]})

    def push(self, r):
        led = self.ledgers[r.net]
        if r.tx_hex is None:
            self.pushes.append((r.service, r.net, None, False))
            return trep('missing transaction', 400)
        try:
            txid = btc.Tx.parse(r.tx_hex).txid
            if txid in led.by_id:
                # already known: explorers differ; drawn per run
                ok = bool(self.quirks.get('known_ok', False))
            else:
                led.accept(r.tx_hex)
                ok = True
        except btc.BadTx as e:
            self.w.log('    rejected:', e)
            ok = False
            txid = None
        self.pushes.append((r.service, r.net, r.tx_hex, ok))
        if not ok:
            text = REJECTIONS[self.quirks.get('rejection', 0) % len(REJECTIONS)]
            return Rep(self.quirks.get('rejection_status', 400), text, 'text/plain')
        return jrep({'txid': txid, 'data': {'transaction_hash': txid}})


def order(v, txid, n):
    """Place of an output (or a transaction) in the order of arrival; never changes."""
    return v.l.by_id[txid].add_seq * 100000 + n


class Node:
    """A Bitcoin Core JSON-RPC endpoint for one network."""

    def __init__(self, net, user, password, ledger, ca=None):
        self.net, self.user, self.password, self.ledger, self.ca = net, user, password, ledger, ca
        self.calls = []

    def handle(self, nw, r):
        import base64
        want = 'Basic ' + base64.b64encode(('%s:%s' % (self.user, self.password)).encode()).decode()
        if r.headers.get('Authorization') != want:
            return Rep(401, b'', 'text/html')
        if not r.rpc:
            return Rep(500, json.dumps({'result': None, 'error': {'code': -32700, 'message': 'Parse error'}, 'id': None}).encode(),
                       'application/json')
        m, p = r.rpc.get('method'), r.rpc.get('params') or []
        self.calls.append((m, p))
        v = nw.view(r.service, self.net)

        def ok(x):
            return Rep(200, ('{"result":%s,"error":null,"id":null}' % (x if isinstance(x, str) else json.dumps(x))).encode(),
                       'application/json')

        def err(code, msg):
            return Rep(500, json.dumps({'result': None, 'error': {'code': code, 'message': msg}, 'id': None}).encode(),
                       'application/json')

        def amt(s):
            return '%d.%08d' % divmod(s, 10 ** 8)

        def addr(a):
            net, script = btc.address_script(a)
            if net != self.net:
                raise ValueError
            return v.addr(script)

        try:
            if m == 'getreceivedbyaddress':
                minconf = p[1] if len(p) > 1 else 1
                st = addr(p[0])
                rec = st.received if minconf == 0 else st.received - st.received_unconf
                return ok(amt(rec))
            if m == 'listreceivedbyaddress':
                minconf = p[0] if p else 1
                a = p[3] if len(p) > 3 else None
                st = addr(a)
                _, script = btc.address_script(a)
                ids = []
                rec = 0
                for e in self.ledger.entries:
                    if e.add_seq > v.upto or (minconf > 0 and not v._conf(e)):
                        continue
                    got = sum(val for val, s in e.tx.vout if s == script)
                    if got:
                        rec += got
                        ids.append(e.txid)
                if not ids and not (len(p) > 1 and p[1]):
                    return ok('[]')
                if self.__dict__.get('unwatched') and a in self.unwatched:
                    return ok('[]')
                return ok('[{"address":"%s","amount":%s,"confirmations":1,"label":"","txids":%s}]' % (a, amt(rec), json.dumps(ids)))
            if m == 'getrawtransaction':
                e = v.tx(p[0])
                if e is None:
                    return err(-5, 'No such mempool or blockchain transaction.')
                return ok(json.dumps(nw.rawhex(e)))
            if m == 'listunspent':
                minconf = p[0] if p else 1
                maxconf = p[1] if len(p) > 1 else 9999999
                out = []
                for a in (p[2] if len(p) > 2 else []):
                    for t, n, val, cf, h in addr(a).utxos:
                        if minconf <= cf <= maxconf:
                            out.append('{"txid":"%s","vout":%d,"address":"%s","scriptPubKey":"%s","amount":%s,"confirmations":%d}'
                                       % (t, n, a, btc.address_script(a)[1].hex(), amt(val), cf))
                return ok('[%s]' % ','.join(out))
            if m == 'sendrawtransaction':
                h = p[0]
                try:
                    tx = btc.Tx.parse(h)
                    known = self.ledger.by_id.get(tx.txid)
                    if nw.quirks.get('node_policy'):
                        raise btc.BadTx(nw.quirks['node_policy'])
                    if known is not None:
                        if known.height is not None:
                            nw.pushes.append((r.service, self.net, h, False))
                            return err(-27, NODE_KNOWN[nw.quirks.get('node_known', 0) % len(NODE_KNOWN)])
                        raise btc.BadTx('txn-already-known')
                    self.ledger.accept(h)
                except btc.BadTx as e:
                    nw.pushes.append((r.service, self.net, h, False))
                    return err(-26, str(e))
                nw.pushes.append((r.service, self.net, h, True))
                return ok(json.dumps(tx.txid))
            if m in ('getblockcount',):
                return ok(str(v.height))
            return err(-32601, 'Method not found')
        except (ValueError, IndexError, TypeError):
            return err(-5, 'Invalid address')
