"""Simulator worker: executes runs of one property.

  worker.py runs PID TIER BASESEED FIRST COUNT   one JSON line per run
  worker.py replay FILE                          re-executes a replay file
  worker.py minimise FILE                        shrinks a failing choice list in place
"""
import gc
import hashlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

from sim import load, core  # noqa: E402
from sim.registry import scenario  # noqa: E402

RUN_WALL = int(os.environ.get('SIM_RUN_WALL', '60'))


class WallTimeout(BaseException):
    pass


_limit = [0, 0, 0]       # seconds, processor time at the start, alarms so far


def _start(limit):
    _limit[:] = [limit, sum(os.times()[:2]), 0]
    signal.setitimer(signal.ITIMER_REAL, limit)


def _alarm(*a):
    # on a machine busy with other work, wait longer for a run that had no chance to use its time
    _limit[2] += 1
    if _limit[2] < 5 and 0.02 * _limit[0] < sum(os.times()[:2]) - _limit[1] < 0.8 * _limit[0]:
        signal.setitimer(signal.ITIMER_REAL, _limit[0])
        return
    raise WallTimeout()


signal.signal(signal.SIGALRM, _alarm)


def known_classes(pid):
    try:
        with open(os.path.join(ROOT, 'known_findings.json')) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['class']: e for e in data.get('known', []) if e['property'] == pid}


def seed_of(base, pid, i):
    return int.from_bytes(hashlib.sha256(('%d:%s:%d' % (base, pid, i)).encode()).digest()[:8], 'big')


def execute(pid, tier, choices, wall=None, full=False):
    """One simulated run -> result dict."""
    fn = scenario(pid)
    known = known_classes(pid)
    res = {'status': 'ok'}
    t0 = load.REAL['perf_counter']()
    _start(wall or RUN_WALL)
    run = load.Run(choices, known)
    w = None
    try:
        with run as w:
            w.tier = tier
            try:
                fn(w)
                if w.net.escaped and pid != 'C18':
                    w.log('escaped', w.net.escaped)
            except core.Violation as v:
                res.update(status='violation', vclass=v.vclass, msg=v.msg)
            except core.SimCrash:
                raise core.HarnessError('uncaught simulated crash')
            except core.SimHang as e:
                res.update(status='violation', vclass='hang', msg=str(w.hang or e))
            signal.setitimer(signal.ITIMER_REAL, 0)
    except WallTimeout:
        res.update(status='violation', vclass='wall_hang', msg='run did not finish within %s s of real time' % (wall or RUN_WALL))
    except core.HarnessError as e:
        res.update(status='harness', msg='%s\n%s' % (e, traceback.format_exc(limit=8)))
    except Exception as e:
        res.update(status='harness', msg='%r\n%s' % (e, traceback.format_exc(limit=12)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res['wall'] = load.REAL['perf_counter']() - t0
    if w is not None:
        res.update(digest=w.digest(), sig=w.sig.hexdigest()[:16], sim=w.mono - 1000.0, faults=w.faults, probes=w.probes, ops=w.ops,
                   switches=w.switches, requests=w.net.total, known=w.known_hits)
        if full or res['status'] != 'ok':
            res['log'] = w.log_lines
    res['choices'] = len(choices.rec)
    if full or res['status'] != 'ok':
        res['rec'] = choices.rec
    return res


def cmd_runs(pid, tier, base, first, count):
    out = sys.stdout
    gc.collect()
    gc.freeze()
    for i in range(first, first + count):
        r = execute(pid, tier, core.Choices(seed=seed_of(base, pid, i)), full=(i == first))
        r['i'] = i
        r['seed'] = seed_of(base, pid, i)
        out.write(json.dumps(r) + '\n')
        out.flush()
        if r['status'] != 'ok':
            break


def cmd_replay(path):
    with open(path) as f:
        d = json.load(f)
    r = execute(d['property'], d.get('tier', 'quick'), core.Choices(replay=d['choices']), wall=RUN_WALL * 3, full=True)
    return d, r


def minimise(pid, tier, rec, vclass, budget):
    """Greedy shrinking of the choice list, same violation class throughout."""
    clock = load.REAL['monotonic']
    end = clock() + budget
    tried = 0

    def fails(cand):
        nonlocal tried
        tried += 1
        r = execute(pid, tier, core.Choices(replay=cand), wall=20)
        return (r['status'] == 'violation' and r['vclass'] == vclass), r

    def trim(r):
        t = list(r)
        while t and t[-1] == 0:
            t.pop()
        return t

    best = trim(rec)
    improved = True
    while improved and clock() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and clock() < end:
            i = 0
            while i < len(best) and clock() < end:
                cand = best[:i] + best[i + size:]
                ok, r = fails(cand)
                if ok:
                    best = trim(cand)
                    improved = True
                    continue
                if any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if trim(cand) != best:
                        ok, r = fails(cand)
                        if ok:
                            best = trim(cand)
                            improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if clock() >= end or i >= len(best):
                break
            lo = best[i]
            for v in (1, lo // 2, lo - 1):
                if 0 < v < best[i]:
                    cand = best[:i] + [v] + best[i + 1:]
                    ok, r = fails(cand)
                    if ok:
                        best = trim(cand)
                        improved = True
                        break
    return best, tried


def main(a):
    if a[0] == 'runs':
        cmd_runs(a[1], a[2], int(a[3]), int(a[4]), int(a[5]))
    elif a[0] == 'replay':
        d, r = cmd_replay(a[1])
        print(json.dumps({'status': r['status'], 'vclass': r.get('vclass'), 'msg': r.get('msg'), 'digest': r.get('digest'), 'log': r.get('log')}))
    elif a[0] == 'minimise':
        with open(a[1]) as f:
            d = json.load(f)
        best, tried = minimise(d['property'], d.get('tier', 'quick'), d['choices'], d['vclass'], float(a[2]) if len(a) > 2 else 25)
        r = execute(d['property'], d.get('tier', 'quick'), core.Choices(replay=best), full=True)
        if r['status'] == 'violation' and r['vclass'] == d['vclass']:
            d.update(choices=best, original_choices=len(d['choices']), minimise_runs=tried, message=r['msg'], digest=r['digest'], trace=r['log'])
            with open(a[1], 'w') as f:
                json.dump(d, f, indent=1)
        print(json.dumps({'tried': tried, 'len': len(best)}))
    else:
        raise SystemExit('usage')


if __name__ == '__main__':
    main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(0)
