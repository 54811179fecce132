"""C15 vanity generation returns a key that controls the address."""
import io
import re
import sys

from . import btc
from .common import attempt, Outcome
from .core import SimAbort, SimHang, Violation

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
_table = []
PATIENCE = 40     # keys a worker may still try after the result was reported


# pairs of secrets whose addresses share seven characters, or six but for the case
TWINS = (826584, 35678, 70312, 315958, 121221, 74193, 746482, 81274, 539104, 794, 801, 201680, 804, 719728, 1141, 815848)


def table():
    """Fixed secrets with their (compressed) addresses."""
    if not _table:
        secrets = [btc.sha256(b'keygen%d' % i) for i in tuple(range(600)) + TWINS]
        # small secrets, and ones that end like a compression flag
        secrets += [(k).to_bytes(32, 'big') for k in (1, 2, 257, 1 << 200, (1 << 248) + 1, (7 << 200) + 1)]
        for s in secrets:
            _table.append((s, btc.RefKey(s, 'main', True).address))
    return _table


def decode_wif(text):
    raw = btc.b58check_decode(text)
    if raw[:1] != b'\x80':
        raise ValueError('not a mainnet WIF')
    if len(raw) == 33:
        return raw[1:], False
    if len(raw) == 34 and raw[-1] == 1:
        return raw[1:33], True
    raise ValueError('bad WIF length')


def judge_pair(w, name, prefix, wif, address):
    try:
        secret, compressed = decode_wif(wif)
    except Exception as e:
        w.violation('bad_key', '%s reported the private key %r: %s' % (name, wif, e))
        return
    ref = btc.RefKey(secret, 'main', compressed)
    if not address.startswith(prefix):
        w.violation('wrong_prefix', '%s reported %s' % (name, address))
    if ref.address != address:
        w.violation('not_controlled', '%s reported %s, but the reported key controls %s' % (name, address, ref.address))
        return
    try:
        got = w.bit.Key(wif).address
    except Exception as e:
        w.violation('bad_key', '%s: importing the reported key raised %r' % (name, e))
        return
    if got != address:
        w.violation('not_controlled', '%s reported %s, a wallet with the reported key has %s' % (name, address, got))


def run_c15(w):
    c = w.c
    kg = __import__('bit.keygen', fromlist=['x'])
    if c.chance(1, 10):
        out = attempt(w, 'gen.none', lambda: kg.generate_matching_address(''))
        try:
            wif, address = out.value
        except Exception:
            w.violation('bad_result', 'generation without a prefix gave %r' % out)
            return
        judge_pair(w, 'gen.none', '1', wif, address)
        w.probe('no_prefix')
        return
    tab = table()
    if c.chance(1, 8):
        good = c.pick(tab)[1][1:2 + c.below(3)]
        i = c.below(len(good) + 1)
        bad = good[:i] + c.pick(['0', 'O', 'I', 'l', '+', ' ', '\u00e9']) + good[i:]
        out = attempt(w, 'gen.bad', lambda: kg.generate_matching_address(bad))
        if out.kind != 'raise' or not isinstance(out.value, ValueError):
            w.violation('invalid_accepted', 'prefix %r gave %r' % (bad, out))
        if w.procs:
            w.violation('invalid_accepted', 'prefix %r started %d workers' % (bad, len(w.procs)))
        w.probe('invalid_prefix')
        return
    w.cpus = c.pick([2, 1, 4, 3])
    cores = c.pick(['all', 1, 2, '2', 8, 0])
    hit = c.pick(tab)
    n = 1 + c.below(3)
    twins = None
    if c.chance(1, 4):
        # a long prefix, with near misses around
        i = 600 + c.below(len(TWINS))
        hit, twins = tab[i], [tab[i ^ 1][0]]
        n = c.pick([4, 5, 6, 7, 8, 12, 33])
        w.probe('long_prefix')
    prefix = hit[1][1:1 + n]
    given = prefix if c.chance(1, 2) else '1' + prefix
    if given.startswith('1'):
        want = given
    else:
        want = '1' + given
    hits = [s for s, a in tab if a.startswith(want)]
    if not hits:
        return
    miss = [s for s, a in tab if not a.startswith(want)] or hits
    if twins and not tab[i ^ 1][1].startswith(want) and c.chance(3, 4):
        miss = twins * 200 + miss
    after = c.below(14)         # keys tried before a hit becomes likely
    state = {'n': 0}
    late = {}
    box = {}

    def entropy(k):
        if k != 32 or w.current is None:
            return None
        state['n'] += 1
        if 'out' in box and w.current.name != 'parent':
            # the search is over: workers should notice it soon
            t = w.current.tid
            late[t] = late.get(t, 0) + 1
            w.sleep(0.01)
            return c.pick(hits) if late[t] > PATIENCE else c.pick(miss)
        if state['n'] > after and (state['n'] > after + 12 or c.chance(1, 3)):
            s = c.pick(hits)
        else:
            s = c.pick(miss)
        # generating a key takes time
        w.sleep(c.pick([0.01, 0.3, 0.999, 1.0, 2.5, 0.01, 0.01]))
        return s

    def stall(point):
        if w.current is not None and c.chance(1, 8):
            w.fault('stall_' + point)
            w.sleep(c.pick([0.5, 1.0, 3.0, 40.0]))

    w.entropy_hook = entropy
    w.stall = stall

    def delay():
        d = c.pick([0.001, 0.2, 1.5, 30.0])
        if d > 1:
            w.fault('late_delivery')
        return d

    w.queue_delay = delay
    # Ctrl-C, or a signal handler that exits, while the parent waits
    strike = None
    if c.chance(1, 4):
        strike = {'at': c.below(6), 'seen': 0, 'exc': c.pick([KeyboardInterrupt, SystemExit])('struck'), 'frac': c.pick([0.5, 0.0, 0.999, 0.1])}

        def waits(wait, d):
            if w.current is None or w.current.name != 'parent' or strike.get('done'):
                return wait(d)
            strike['seen'] += 1
            if strike['seen'] <= strike['at']:
                return wait(d)
            w.sleep_plain((d or 0) * strike['frac'])
            strike['done'] = True
            w.fault('interrupt')
            raise strike['exc']
        w.sleep_plain = w.sleep
        w.sleep = lambda d: waits(w.sleep_plain, d)
    w.preempt_lines = 30 if c.chance(1, 2) else 0
    cap = io.StringIO()

    def parent():
        try:
            box['out'] = Outcome('ok', kg.generate_matching_address(given, cores) if c.chance(3, 4) else cli(given, cores))
        except (SimAbort, SimHang, Violation):
            raise
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            box['out'] = Outcome('raise', e)

    def cli(p, k):
        m = __import__('bit.cli', fromlist=['x'])
        w.probe('cli')
        try:
            return m.gen.callback(p, str(k))
        except SystemExit as e:
            if strike and e is strike['exc']:
                raise
            raise RuntimeError('exit %s' % e)

    name = 'gen %s cores=%s cpus=%d' % (given, cores, w.cpus)
    w.op('gen')
    w.mark(name)
    old = sys.stdout
    sys.stdout = cap
    try:
        w.spawn('parent', parent)
        done = w.run_tasks(deadline=w.mono + 3600)
    finally:
        sys.stdout = old
    if not done:
        w.violation('hang', '%s did not end: %s' % (name, w.hang))
        return
    if late and max(late.values()) > PATIENCE:
        w.violation('workers_go_on', '%s: a worker tried %d more keys after the result was reported or the search interrupted' % (name, max(late.values())))
    out = box.get('out')
    text = cap.getvalue()
    w.log('output', text)
    for t in w.tasks:
        if t.error is not None:
            w.violation('worker_died', '%s: %s raised %r' % (name, t.name, t.error))
    if strike and strike.get('done'):
        if out is None or out.kind != 'raise' or out.value is not strike['exc']:
            w.violation('interruption_lost', '%s: struck by %r it gave %r' % (name, strike['exc'], out))
        w.probe('interrupted')
        return
    if out is None or out.kind == 'raise':
        w.violation('leaked_exception', '%s raised %r' % (name, out and out.value))
        return
    m1 = re.search(r'WIF: *(\S+)', text)
    m2 = re.search(r'Address: *(\S+)', text)
    if m1 and m2:
        judge_pair(w, name, want, m1.group(1), m2.group(1))
    elif isinstance(out.value, tuple) and len(out.value) == 2:
        judge_pair(w, name, want, *out.value)
    else:
        w.violation('nothing_reported', '%s reported %r' % (name, text))
    w.probe('workers_%d' % len(w.procs))
    w.probe('found')


SCENARIOS = {'C15': run_c15}
