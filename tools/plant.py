#!/opt/venv/bin/python
"""Builds and confirms planted bugs.

    plant.py SPEC.py [ids...]     write /verif/seeded/<id>/ from the specs
    plant.py --check [ids...]     run the property's check against each

A spec lists BUGS: dicts with id, property, edits [(file, old, new)], demo
(Python source), needs, breaks; HELPER is a module laid beside each demo.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

SEEDED = '/verif/seeded'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, timeout=900, **kw):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def clean():
    assert sh(['git', 'status', '--porcelain', '-uno'], '/repo').stdout == '', 'dirty /repo'


def passed():
    out = tempfile.mktemp(suffix='.json')
    sh(['bash', '/opt/vp/test.sh', out])
    got = set(json.load(open(out))['passed'])
    os.remove(out)
    return got


def write(spec, ids):
    d = runpy.run_path(spec)
    helper = open(d['HELPER']).read()
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in d['BUGS']:
        if ids and b['id'] not in ids:
            continue
        clean()
        box = os.path.join(SEEDED, b['id'])
        shutil.rmtree(box, ignore_errors=True)
        os.makedirs(box)
        open(os.path.join(box, 'fakenet.py'), 'w').write(helper)
        open(os.path.join(box, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(box, 'demo.sh'), 'w').write(
            '#!/bin/bash\ncd "$(dirname "$0")" || exit 2\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo\nexec timeout 250 /opt/venv/bin/python demo.py\n')
        os.chmod(os.path.join(box, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(box, 'meta.json'), 'w'), indent=1)
        try:
            for f, old, new in b['edits']:
                p = os.path.join('/repo', f)
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    raise SystemExit('%s: %d matches in %s of %r' % (b['id'], n, f, old))
                open(p, 'w').write(s.replace(old, new))
            diff = sh(['git', 'diff'], '/repo').stdout
            open(os.path.join(box, 'patch.diff'), 'w').write(diff)
            build = sh(['bash', '/opt/vp/build.sh'])
            lost = stable - passed()
            bad = sh(['bash', os.path.join(box, 'demo.sh')], '/repo')
        finally:
            sh(['git', 'checkout', '--', '.'], '/repo')
        good = sh(['bash', os.path.join(box, 'demo.sh')], '/repo')
        ok = build.returncode == 0 and not lost and bad.returncode != 0 and good.returncode == 0
        print('%-28s %s build=%d lost=%d demo bad=%d good=%d' % (
            b['id'], 'OK ' if ok else 'BAD', build.returncode, len(lost), bad.returncode, good.returncode), flush=True)
        print('    with:', (bad.stdout.strip().splitlines() or [''])[-1][:180])
        if not ok:
            print(good.stdout[-1500:], sorted(lost)[:3], build.stdout[-300:])
            shutil.rmtree(box)


def check(ids):
    for i in sorted(os.listdir(SEEDED)):
        if ids and i not in ids:
            continue
        box = os.path.join(SEEDED, i)
        pid = json.load(open(os.path.join(box, 'meta.json')))['property']
        clean()
        try:
            r = sh(['git', 'apply', os.path.join(box, 'patch.diff')], '/repo')
            if r.returncode:
                print(i, 'does not apply', r.stdout)
                continue
            c = sh(['/verif/check.py', pid], '/verif')
        finally:
            sh(['git', 'checkout', '--', '.'], '/repo')
        lines = [x for x in c.stdout.splitlines() if x.strip()]
        v = [x for x in lines if 'VIOLATION' in x]
        print('%-28s %s %s rc=%d %s' % (i, pid, 'CAUGHT' if v and c.returncode == 1 else 'MISSED', c.returncode, (lines or [''])[0][:170]), flush=True)


if sys.argv[1] == '--check':
    check(sys.argv[2:])
else:
    write(sys.argv[1], sys.argv[2:])
