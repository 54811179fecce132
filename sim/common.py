"""Shared scenario machinery: fault plans, query execution, oracles."""
import re

from . import btc, net as N
from .core import SimHang, Violation, SimCrash, HarnessError

TEXT_KINDS = {('blockstream', 'height'), ('blockstream', 'tx'), ('blockchain', 'tx'), ('blockchain_rates', 'rate')}

PRE = list(N.PRE_FAULTS)
ALL_KINDS = (['refused', 'read_timeout', 'http_503', 'garbage200', 'truncated', 'http_429', 'conn_timeout', 'reset', 'chunk_truncated',
              'http_500', 'cut_json', 'dns', 'stall_body', 'http_502', 'empty200', 'bad_gzip', 'ssl', 'http_403', 'http_504',
              'redirect_loop', 'http_520', 'http_402', 'http_430', 'http_401', 'http_404', 'http_400', 'http_422', 'schema200', 'schema200'] + list(N.ODD_FAULTS))


class PeerFault:
    """From its k-th request on (in this operation) the peer fails this way."""

    def __init__(self, kind, k, params, once=False):
        self.kind, self.k, self.params, self.once = kind, k, params, once
        self.seen = 0
        self.fired = 0


ODD = list(N.ODD_FAULTS)


def draw_fault(w, kinds=ALL_KINDS, kmax=1, applied=False, once=False):
    c = w.c
    kind = c.pick(kinds)
    params = {}
    if kind.startswith('http_'):
        params['body'] = c.pick(N.ERROR_BODIES)
        params['ctype'] = 'text/html' if params['body'] == N.HTML else 'application/json'
        if kind in ODD:
            params = {'body': N.HTML if kind in ('http_202', 'http_300') and c.chance(3, 4) else b'', 'ctype': 'text/html'}
    if kind in ('truncated', 'chunk_truncated', 'stall_body'):
        params['frac'] = c.pick([50, 0, 90, 99, 10])
    if kind == 'schema200':
        params['body'] = c.pick(N.SCHEMAS)
    if kind == 'cut_json':
        params['cut'] = c.below(400)
    if applied:
        params['applied'] = c.chance(1, 2)
    return PeerFault(kind, c.below(kmax), params, once)


def legal_kind(kind, req):
    if kind in ODD and req.service not in N.EXPLORERS:
        return 'http_503'
    if req.service == 'blockchain_rates':
        # a number cut short still is a number; anything else must be noticed
        return 'http_503' if kind == 'cut_json' else kind
    if kind == 'http_404' and (req.service == 'blockchair' and req.kind != 'push' and req.query.get('offset', '0') == '0'
                               or (req.service, req.kind) == ('blockstream', 'tx')):
        return 'http_503'           # there it means that nothing is known
    if kind == 'http_400' and (req.service == 'blockstream' and req.kind.startswith('txs') and not re.search('/txs/chain/.', req.path)
                               or (req.service, req.kind) == ('smartbit', 'tx')):
        return 'http_503'
    if kind == 'cut_json' and (req.service, req.kind) in TEXT_KINDS:
        return 'http_503'           # what remains still looks like the thing asked for
    if kind == 'schema200' and (req.service, req.kind) == ('smartbit', 'utxo'):
        return 'garbage200'         # it leaves out the list when there is nothing to list
    if kind in N.BODY_FAULTS and req.kind == 'push':
        return 'http_503'
    return kind


class Plan:
    """service -> PeerFault; installed as the network's fault function."""

    def __init__(self, w, faults):
        self.w = w
        self.faults = faults
        w.net.fault_fn = self.decide

    def decide(self, req):
        f = self.faults.get(req.service)
        if f is None:
            return None
        i = f.seen
        f.seen += 1
        if i < f.k or (f.once and f.fired):
            return None
        kind = legal_kind(f.kind, req)
        params = dict(f.params)
        if kind != f.kind:
            params = {'body': N.HTML, 'ctype': 'text/html', 'applied': params.get('applied')}
        if kind == 'redirect_loop' and req.method != 'GET':
            kind, params = 'http_502', {'body': N.HTML, 'ctype': 'text/html', 'applied': params.get('applied')}
        if kind == 'schema200' and req.service == 'bitpay' and params['body'][:1] == b'{':
            params['body'] = N.RATE_SCHEMAS[len(params['body']) % 2 + 2 * (f.fired % 2)]
        f.fired += 1
        return kind, params


def unspent_key(u):
    return (u.txid, u.txindex, u.amount, u.confirmations, u.script)


def expect_unspents(st, script):
    return sorted((t, n, val, cf, script.hex()) for t, n, val, cf, h in st.utxos)


def norm_unspents(res):
    return sorted(unspent_key(u) for u in res)


class Outcome:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value    # 'ok' | 'raise'

    def __repr__(self):
        v = re.sub(r'0x[0-9a-f]{6,}', '0x', repr(self.value))
        return '%s %s' % (self.kind, v if len(v) < 160 else v[:160] + '...')


def attempt(w, name, fn):
    """Run one operation of the code under test; hangs become violations."""
    w.net.begin_op()
    w.op(name)
    w.log('op', name)
    try:
        out = Outcome('ok', fn())
    except SimCrash:
        raise
    except SimHang as e:
        w.violation('hang', '%s: %s' % (name, w.hang or e))
        raise Violation('hang', '%s: %s' % (name, w.hang or e))
    except (Violation, HarnessError):
        raise
    except RecursionError as e:
        out = Outcome('raise', e)
    except Exception as e:
        out = Outcome('raise', e)
    if w.hang:
        w.violation('hang', '%s: %s' % (name, w.hang))
        raise Violation('hang', '%s: %s' % (name, w.hang))
    w.mark('->', out.kind, type(out.value).__name__)
    w.log('   =>', out)
    return out


def api_fn(w, op, net):
    api = w.bit.network.NetworkAPI
    sfx = '' if net == 'main' else '_testnet'
    return getattr(api, {
        'balance': 'get_balance', 'txs': 'get_transactions', 'tx': 'get_transaction_by_id', 'unspent': 'get_unspent',
        'push': 'broadcast_tx',
    }[op] + sfx)


def answer_of(w, service, net, op, arg):
    """What `service` would fully answer, or ('unable', why)."""
    v = w.net.view(service, net)
    if op == 'tx':
        e = v.tx(arg)
        return ('val', None if e is None else w.net.rawhex(e))
    _, script = btc.address_script(arg)
    st = v.addr(script)
    if op == 'balance':
        if service == 'blockchair' and not st.txs and w.net.quirks.get('blockchair_404'):
            return ('unable', '404')
        return ('val', st.balance)
    if op == 'txs':
        if service == 'blockstream' and sum(1 for _, h in st.txs if h is None) >= 50:
            return ('unable', 'mempool cap')
        return ('val', sorted(t for t, _ in st.txs))
    if op == 'unspent':
        if service == 'blockstream' and len(st.txs) > w.net.quirks.get('blockstream_cap', 500):
            return ('unable', 'history cap')
        if service == 'blockchain' and len(st.utxos) >= 1000:
            return ('unable', 'utxo cap')
        return ('val', expect_unspents(st, script))
    raise HarnessError(op)


def check_query(w, net, op, arg, plan, prop=''):
    """One read through NetworkAPI under `plan`, judged against the model."""
    name = '%s.%s' % (op, net)
    out = attempt(w, name, lambda: api_fn(w, op, net)(arg))
    serving = N.SERVES[(op, net)]
    answers = {s: answer_of(w, s, net, op, arg) for s in serving}
    contacted = {}
    for r in w.net.requests:
        contacted.setdefault(r.service, []).append(r)
        if r.fault:
            w.probe('fault@req%d' % min(3, len(contacted[r.service]) - 1))
    faulted = {s for s, rs in contacted.items() if any(r.fault and r.fault != 'slow' for r in rs)}
    w.probe('services_tried_%d' % len(contacted))
    if out.kind == 'raise':
        e = out.value
        if type(e) is not ConnectionError:
            w.violation('leaked_exception', '%s raised %s: %s instead of failing over / ConnectionError (services tried: %s)'
                        % (name, type(e).__module__ + '.' + type(e).__name__, e, sorted(map(str, contacted))))
            return out
        good = [s for s in serving if answers[s][0] == 'val' and s not in faulted]
        if good:
            w.violation('failover_missed', '%s raised ConnectionError although %s could have answered' % (name, good))
        w.probe('all_failed')
        return out
    res = out.value
    try:
        if op == 'balance':
            got = res
            okt = isinstance(res, int) and not isinstance(res, bool)
        elif op == 'tx':
            got = res
            okt = res is None or isinstance(res, str)
        elif op == 'txs':
            got = sorted(res)
            okt = isinstance(res, list)
        else:
            got = norm_unspents(res)
            okt = isinstance(res, list)
    except Exception as e:
        w.violation('bad_result', '%s returned %r: %r' % (name, res, e))
        return out
    if not okt:
        w.violation('bad_result', '%s returned a %s: %r' % (name, type(res).__name__, res))
        return out
    match = [s for s in serving if answers[s][0] == 'val' and answers[s][1] == got and s in contacted]
    honest = [s for s in match if s not in faulted]
    if not match:
        near = {s: (len(a[1]) if isinstance(a[1], list) else a[1]) for s, a in answers.items()}
        w.violation('wrong_answer', '%s(%s) returned %s which is no contacted service\'s complete answer (complete: %s; contacted %s; faulted %s)'
                    % (name, arg, (len(got) if isinstance(got, list) else got), near, sorted(map(str, contacted)), sorted(map(str, faulted))))
    elif not honest:
        # a faulted service's answer can still be complete only if the fault
        # hit a request that carried no part of the answer
        w.probe('answer_despite_fault')
    return out


# -- ledger population ------------------------------------------------------
def draw_secret(w):
    return (w.entropy.getrandbits(255) + 1).to_bytes(32, 'big')


def draw_amount(w):
    c = w.c
    k = c.below(6)
    if k == 0:
        return 100000 + c.below(100)
    if k == 1:
        return 546 + c.below(10000)
    if k == 2:
        return 1 + c.below(1000000)
    if k == 3:
        return 10 ** 8 * (1 + c.below(50)) + c.below(10 ** 8)
    if k == 4:
        return 10 ** 9 + c.below(10 ** 9) * 3
    return 10 ** 8 * c.below(2000) + c.below(10 ** 8) + 1


def populate(w, net, script, ntx, unconf_pct=30, spend_pct=30, outs_per_tx=1):
    """ntx transactions touching `script` (synthetic counterparties)."""
    led = w.net.ledgers[net]
    c = w.c
    made = 0
    live = []
    base = led.height - 500
    n_unconf = sum(1 for _ in range(min(ntx, 60)) if c.below(100) >= 100 - unconf_pct)
    bulk = ntx > 60
    step = 0 if outs_per_tx > 1 and c.chance(1, 3) else 1     # several outputs of one transaction with one amount
    while made < ntx:
        conf = base + (made * 400) // max(1, ntx) if made < ntx - n_unconf else None
        if live and not bulk and c.below(100) >= 100 - spend_pct:
            t, n = live.pop(c.below(len(live)))
            led._nonce += 1
            outs = [(1000 + led._nonce, btc.p2pkh(btc.hash160(b'other%d' % led._nonce)))]
            tx = btc.Tx(b'\x01\0\0\0', [(t, n, b'\x51', 0xFFFFFFFF)], outs, [], b'\0\0\0\0', False)
            e = led._add(tx)
            if conf is not None:
                e.conf_seq, e.height = e.add_seq, conf
        else:
            amt = draw_amount(w) if not bulk else 5000 + made * 7
            outs = [(amt + j * step, script) for j in range(outs_per_tx)]
            if not bulk and c.chance(1, 4):
                outs.insert(0, (777, btc.p2pkh(btc.hash160(b'z%d' % made))))
            elif not bulk and c.chance(1, 40):
                # a payout with so many recipients that output indices outgrow a byte
                outs = [(600, b'\x51')] * c.pick([255, 256, 300]) + outs
                w.probe('far_output')
            e = led.fund(outs, conf)
            for n, (v, s) in enumerate(outs):
                if s == script:
                    live.append((e.txid, n))
        made += 1


def spread_lags(w, net, num=1, den=2):
    """Some services have not yet seen the newest ledger events."""
    led = w.net.ledgers[net]
    w.net.lag = {k: v for k, v in w.net.lag.items() if k[1] != net}
    if not led.entries:
        return
    for s in N.EXPLORERS:
        if w.c.chance(num, den):
            w.net.lag[(s, net)] = max(0, led.seq - 1 - w.c.below(min(led.seq, 6)))
