#!/opt/venv/bin/python
"""Runs the deterministic-simulation check of one property.

  check.py PID            VERIF_SEED, VERIF_TIER from the environment
  check.py --replay FILE  re-executes a replay file, prints its trace

Exit 0: the property held on every simulated run.  Exit 1: violation, with a
line "VIOLATION property=<id> replay=<path>".  Exit 2: the machinery failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
sys.path.insert(0, ROOT)
from sim.plan import PLAN, COMPONENTS  # noqa: E402

WORKERS = max(1, min(8, os.cpu_count() or 1))


def env(hashseed):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = str(hashseed)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.pop('PYTHONPATH', None)
    return e


def hashseed_of(base, pid, k):
    return int.from_bytes(hashlib.sha256(b'h%d:%s:%d' % (base, pid.encode(), k)).digest()[:4], 'big') % 4294967295


def run_chunk(pid, tier, base, first, count, hashseed, timeout):
    p = subprocess.Popen([PY, '-m', 'sim.worker', 'runs', pid, tier, str(base), str(first), str(count)], cwd=ROOT, env=env(hashseed),
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    timed = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        timed = True
    rs = []
    for line in out.decode().splitlines():
        try:
            rs.append(json.loads(line))
        except ValueError:
            pass
    problem = None
    if not timed and (p.returncode != 0 or not rs or (len(rs) < count and rs[-1]['status'] == 'ok')):
        problem = 'worker exit %s after %d runs: %s' % (p.returncode, len(rs), err.decode()[-1500:])
    for r in rs:
        r['hashseed'] = hashseed
    return rs, problem, timed


def replay_once(path, hashseed, timeout=400):
    p = subprocess.run([PY, '-m', 'sim.worker', 'replay', path], cwd=ROOT, env=env(hashseed), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    return json.loads(p.stdout.decode().splitlines()[-1])


def known_for(pid):
    try:
        with open(os.path.join(ROOT, 'known_findings.json')) as f:
            return [e for e in json.load(f)['known'] if e['property'] == pid]
    except FileNotFoundError:
        return []


def main(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    base = int(os.environ.get('VERIF_SEED', '1'))
    plan = PLAN[pid]
    total = plan[tier]
    chunk = plan.get('chunk', 100)
    wall_budget = float(os.environ.get('SIM_BUDGET', '420' if tier == 'quick' else '10800'))
    t0 = time.monotonic()
    jobs = [(k, first, min(chunk, total - first)) for k, first in enumerate(range(0, total, chunk))]
    results, problems, bad = [], [], None
    skipped = 0
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        def job(j):
            k, first, count = j
            left = wall_budget - (time.monotonic() - t0)
            if left <= 0 or stop:
                return None
            return run_chunk(pid, tier, base, first, count, hashseed_of(base, pid, k), left + 60)
        stop = []
        futs = [ex.submit(job, j) for j in jobs]
        for f in cf.as_completed(futs):
            r = f.result()
            if r is None:
                skipped += 1
                continue
            rs, problem, timed = r
            results += rs
            if timed:
                skipped += 1
            if problem:
                problems.append(problem)
                stop.append(1)
            for x in rs:
                if x['status'] == 'violation':
                    stop.append(1)
                elif x['status'] == 'harness':
                    problems.append('run %d: %s' % (x['i'], x['msg']))
                    stop.append(1)
    results.sort(key=lambda r: r['i'])
    viol = [r for r in results if r['status'] == 'violation']
    rc = 0
    if viol:
        bad = min(viol, key=lambda r: (r['choices'], r['i']))
        rc = report(pid, tier, base, bad)
    # determinism: re-execute some recorded runs in a fresh process from their choice lists
    det = {'rechecked': 0, 'identical': 0}
    if not viol and not problems:
        for r in [r for r in results if r.get('rec') is not None][:3]:
            p = os.path.join(ROOT, 'replays', '.det-%s-%d-%d.json' % (pid, os.getpid(), r['i']))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'choices': r['rec']}, f)
            try:
                q = replay_once(p, (r['hashseed'] + 1) % 4294967295)
                det['rechecked'] += 1
                if q['digest'] == r['digest']:
                    det['identical'] += 1
                else:
                    problems.append('run %d is not reproducible from its choice list' % r['i'])
            finally:
                os.unlink(p)
    hits = {}
    for r in results:
        hits.update(r.get('known') or {})
    for e in known_for(pid):
        if e['class'] in hits:
            print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
        elif rc == 0 and not problems:
            print('note: listed finding %s did not show on this run' % e['class'])
    wall = time.monotonic() - t0
    evidence(pid, tier, base, plan, results, wall, det, skipped, len(viol), total)
    if rc:
        return rc
    if problems:
        print('HARNESS ERROR property=%s: %s' % (pid, problems[0]))
        return 2
    print('ok property=%s runs=%d (%.0f/h) in %.1f s' % (pid, len(results), len(results) / wall * 3600, wall))
    return 0


def report(pid, tier, base, bad):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (pid, bad['vclass'], bad['i']))
    rec = {'property': pid, 'tier': tier, 'verif_seed': base, 'run': bad['i'], 'seed': bad['seed'], 'hashseed': bad['hashseed'],
           'vclass': bad['vclass'], 'message': bad['msg'], 'choices': bad['rec'], 'trace': bad.get('log'), 'digest': bad.get('digest')}
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    if bad['vclass'] != 'wall_hang':
        try:
            subprocess.run([PY, '-m', 'sim.worker', 'minimise', path, '25'], cwd=ROOT, env=env(bad['hashseed']), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            pass
    try:
        q = replay_once(path, bad['hashseed'])
    except Exception as e:
        q = {'status': 'error', 'msg': repr(e), 'vclass': None}
    with open(path) as f:
        rec = json.load(f)
    if q['status'] != 'violation' or q['vclass'] != rec['vclass']:
        # fall back to the unminimised recording
        rec['choices'] = bad['rec']
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        try:
            q = replay_once(path, bad['hashseed'])
        except Exception as e:
            q = {'status': 'error', 'msg': repr(e), 'vclass': None}
        if q['status'] != 'violation':
            print('HARNESS ERROR property=%s: violation of run %d does not replay (%s)' % (pid, bad['i'], q))
            return 2
    print('%s: %s' % (rec['vclass'], rec['message']))
    print('seed %d, %d choices after minimisation (%d before)' % (rec['seed'], len(rec['choices']), len(bad['rec'])))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def evidence(pid, tier, base, plan, results, wall, det, skipped, nviol, total):
    faults, probes, ops = {}, {}, {}
    for r in results:
        for src, dst in ((r.get('faults'), faults), (r.get('probes'), probes), (r.get('ops'), ops)):
            for k, v in (src or {}).items():
                dst[k] = dst.get(k, 0) + v
    sigs = {r['sig'] for r in results if r.get('sig') and (r.get('requests') or r.get('switches') or r.get('ops'))}
    samples = []
    for r in results:
        if r.get('log') and len(samples) < 3:
            samples.append({'run': r['i'], 'seed': r['seed'], 'choices': r.get('rec', [])[:60], 'trace': r['log'][:40]})
    ev = {
        'property': pid, 'tier': tier, 'seed': base, 'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(sigs),
            'rule': plan['rule'] + ' Distinct: by hash of the run\'s sequence of operations, requests, injected faults, outcomes and task '
                    'switches; runs in which no operation of the code under test executed are not counted.',
            'samples': samples,
            'simulated_runs': len(results), 'requested_runs': total, 'chunks_skipped_for_time': skipped,
            'runs_per_hour': round(len(results) / wall * 3600),
            'seeds_per_hour': round(len(results) / wall * 3600),
            'simulated_seconds': round(sum(r.get('sim', 0) for r in results), 1),
            'faults_injected': dict(sorted(faults.items())),
            'operations': dict(sorted(ops.items())),
            'probes': dict(sorted(probes.items())),
            'task_switches': sum(r.get('switches', 0) for r in results),
            'simulated_requests': sum(r.get('requests', 0) for r in results),
            'determinism_recheck': det,
            'components_real': COMPONENTS['real'] + plan.get('real', []),
            'components_stubbed': COMPONENTS['stub'] + plan.get('stub', []),
        },
        'assumptions': plan.get('assumptions', []) + COMPONENTS['assumptions'],
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            d = json.load(f)
        q = replay_once(os.path.abspath(sys.argv[2]), d.get('hashseed', 0))
        print('\n'.join(q.get('log') or []))
        print(q['status'], q.get('vclass'), q.get('msg'))
        if d.get('digest'):
            print('trace identical' if q.get('digest') == d['digest'] else 'trace differs from the recorded one')
        sys.exit(1 if q['status'] == 'violation' else 0)
    sys.exit(main(sys.argv[1]))
