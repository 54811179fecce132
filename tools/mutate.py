#!/opt/venv/bin/python
"""Mutation survey: which small changes of /repo/bit pass the tests and escape
the checks?   mutate.py OUT.jsonl [file-glob...] [--sample N] [--runs K] [--jobs J]

Works on copies under a scratch directory (BIT_REPO); /repo is not touched.
Not a registered check, a tool to find gaps in the checks.
"""
import ast
import concurrent.futures as cf
import fnmatch
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
RUNS = {'C01': 1500, 'C02': 1200, 'C03': 1000, 'C04': 700, 'C05': 900, 'C06': 900, 'C07': 1500, 'C08': 1500, 'C09': 500, 'C10': 1000,
        'C11': 500, 'C12': 500, 'C13': 700, 'C14': 900, 'C15': 700, 'C16': 900, 'C17': 250, 'C18': 800, 'C19': 1000,
        'C20': 800, 'C21': 700, 'C22': 900, 'C23': 600, 'C24': 900, 'C25': 500, 'C26': 600, 'C27': 500, 'C28': 500, 'C29': 400, 'C30': 500}
ORDER = {
    'services.py': ['C02', 'C01', 'C29', 'C03', 'C04', 'C05', 'C16', 'C06', 'C09', 'C30', 'C17', 'C10'],
    'rates.py': ['C07', 'C06', 'C30', 'C17', 'C16'],
    'fees.py': ['C08', 'C30', 'C17', 'C16', 'C10', 'C18'],
    'meta.py': ['C14', 'C10', 'C02', 'C12', 'C19', 'C13'],
    'keygen.py': ['C15', 'C23'],
    'cli.py': ['C15'],
    'wallet.py': ['C10', 'C09', 'C04', 'C14', 'C12', 'C13', 'C18', 'C19', 'C17', 'C05', 'C20', 'C21', 'C23', 'C24'],
    'transaction.py': ['C10', 'C11', 'C12', 'C13', 'C14', 'C19', 'C18', 'C04', 'C22', 'C20'],
}
DEFAULT = ['C20', 'C21', 'C22', 'C24', 'C23', 'C10', 'C12', 'C14', 'C13', 'C04', 'C11', 'C15', 'C18', 'C02', 'C19']

CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
CMPTXT = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in', ast.NotIn: 'not in',
          ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.Div: '*', ast.FloorDiv: '*'}


def mutants(src):
    """Yields (line, description, new source)."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln))
    raw = src

    def pos(line, col):
        # columns are utf-8 offsets; the sources are ASCII where it matters
        return offs[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def sub(n, text):
        a, b = span(n)
        return raw[:a] + text + raw[b:]

    def seg(n):
        a, b = span(n)
        return raw[a:b]

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
    for n in ast.walk(tree):
        if n in doc:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            yield ln, 'cmp', sub(n, '(%s %s %s)' % (seg(n.left), CMP[op], seg(n.comparators[0])))
            if op in (ast.Gt, ast.LtE, ast.Lt, ast.GtE):
                inv = {ast.Gt: '<=', ast.LtE: '>', ast.Lt: '>=', ast.GtE: '<'}[op]
                yield ln, 'cmpinv', sub(n, '(%s %s %s)' % (seg(n.left), inv, seg(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield ln, 'bool', sub(n, '(' + w.join(seg(v) for v in n.values) + ')')
            for i in range(len(n.values)):
                yield ln, 'operand%d' % i, sub(n, '(' + seg(n.values[i]) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield ln, 'not', sub(n, '(' + seg(n.operand) + ')')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            yield ln, 'bin', sub(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)))
            if isinstance(n.op, (ast.Add, ast.Sub)):
                yield ln, 'left', sub(n, '(%s)' % seg(n.left))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                yield ln, 'const', sub(n, str(not v))
            elif isinstance(v, int):
                yield ln, 'const+1', sub(n, str(v + 1))
                if v > 0:
                    yield ln, 'const-1', sub(n, str(v - 1))
            elif isinstance(v, bytes) and v:
                yield ln, 'bytes', sub(n, repr(bytes([v[0] ^ 1]) + v[1:]))
        elif isinstance(n, ast.IfExp):
            yield ln, 'ifexp1', sub(n, '(' + seg(n.body) + ')')
            yield ln, 'ifexp0', sub(n, '(' + seg(n.orelse) + ')')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield ln, 'noslice', sub(n, seg(n.value))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None:
                    continue
                a, b = span(k)
                rest = raw[b:]
                r2 = rest.lstrip()
                if r2.startswith(','):
                    new = raw[:a] + r2[1:].lstrip(' ')
                else:
                    new = raw[:a].rstrip().rstrip(',') + rest
                yield ln, 'kw-' + k.arg, new
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'normalize', 'lstrip', 'strip') and not n.args:
                yield ln, 'nocall', sub(n, seg(n.func.value))
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'sorted', 'copy', 'int', 'bool') and len(n.args) == 1 and not n.keywords:
                yield ln, 'nocall', sub(n, '(' + seg(n.args[0]) + ')')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) or (
                isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            yield ln, 'del', sub(n, 'pass')
        if isinstance(n, ast.Return) and n.value is not None:
            yield ln, 'return', sub(n, 'return None')
        if isinstance(n, ast.If) or isinstance(n, ast.While):
            yield ln, 'cond0', sub(n.test, 'False')
            if isinstance(n, ast.If):
                yield ln, 'cond1', sub(n.test, 'True')
        if isinstance(n, ast.Dict) and len(n.keys) > 1:
            continue
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            for i in range(len(n.elts) if len(n.elts) < 12 else 0):
                keep = [seg(e) for j, e in enumerate(n.elts) if j != i]
                o, c = ('[', ']') if isinstance(n, ast.List) else ('(', ',)')
                yield ln, 'elt%d' % i, sub(n, o + ', '.join(keep) + c)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for x, y in (('MAIN_', 'TEST_'), ('TEST_', 'MAIN_')):
                if n.attr.startswith(x):
                    yield ln, 'net', sub(n, seg(n.value) + '.' + y + n.attr[5:])
            if n.attr.endswith('_testnet'):
                yield ln, 'net', sub(n, seg(n.value) + '.' + n.attr[:-8])
            if n.attr in ('segwit_address', 'address') and isinstance(n.value, ast.Name):
                yield ln, 'addr', sub(n, seg(n.value) + '.' + ('address' if n.attr[0] == 's' else 'segwit_address'))


def run_tests(repo):
    x = tempfile.mktemp(suffix='.xml')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '-W', 'error:Unreachable API',
                        '-o', 'junit_family=xunit2', '--junitxml=' + x] + SELECT,
                       cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        import xml.etree.ElementTree as ET
        got = set()
        for t in ET.parse(x).iter('testcase'):
            if not list(t):
                got.add('%s::%s' % (t.get('classname'), t.get('name')))
        return STABLE <= got
    except Exception:
        return False
    finally:
        if os.path.exists(x):
            os.remove(x)


def node_id(s):
    path, name = s.split('::')
    parts = path.split('.')
    for i in range(len(parts), 0, -1):
        f = os.path.join('/repo', *parts[:i]) + '.py'
        if os.path.exists(f):
            return '/'.join(parts[:i]) + '.py' + ''.join('::' + p for p in parts[i:]) + '::' + name
    return s


SELECT = sorted(node_id(s) for s in STABLE)


def one(job):
    rel, line, desc, new, mult = job
    box = tempfile.mkdtemp(prefix='m', dir=SCRATCH)
    repo = os.path.join(box, 'repo')
    try:
        os.makedirs(repo)
        for d in ('bit', 'tests'):
            shutil.copytree(os.path.join('/repo', d), os.path.join(repo, d), ignore=shutil.ignore_patterns('__pycache__'))
        for f in os.listdir('/repo'):
            if os.path.isfile(os.path.join('/repo', f)):
                shutil.copy(os.path.join('/repo', f), repo)
        open(os.path.join(repo, rel), 'w').write(new)
        if not run_tests(repo):
            return rel, line, desc, 'tests', None
        env = dict(os.environ, BIT_REPO=repo, PYTHONDONTWRITEBYTECODE='1')
        for pid in ORDER.get(os.path.basename(rel), DEFAULT):
            n = int(RUNS[pid] * mult)
            try:
                r = subprocess.run([PY, '-m', 'sim.worker', 'runs', pid, 'quick', '1', '0', str(n)], cwd=VERIF, env=env, text=True,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            except subprocess.TimeoutExpired:
                return rel, line, desc, 'slow', pid
            for out in r.stdout.splitlines():
                try:
                    d = json.loads(out)
                except ValueError:
                    continue
                if d.get('status') == 'violation':
                    return rel, line, desc, pid, d.get('vclass')
                if d.get('status') not in ('ok', 'known'):
                    return rel, line, desc, 'harness', '%s %s %s' % (pid, d.get('status'), d.get('msg'))
            if r.returncode not in (0, 1):
                return rel, line, desc, 'harness', '%s rc %d %s' % (pid, r.returncode, r.stdout[-300:])
        return rel, line, desc, 'SURVIVED', None
    finally:
        shutil.rmtree(box, ignore_errors=True)


def main():
    global SCRATCH
    args = sys.argv[1:]
    opt = {'--sample': 0, '--runs': 1.0, '--jobs': 8, '--seed': 1}
    rest = []
    while args:
        a = args.pop(0)
        if a in opt:
            opt[a] = float(args.pop(0))
        else:
            rest.append(a)
    out, globs = rest[0], rest[1:] or ['bit/*.py', 'bit/network/*.py']
    SCRATCH = tempfile.mkdtemp(prefix='mutate')
    jobs = []
    files = subprocess.check_output(['git', '-C', '/repo', 'ls-files', 'bit'], text=True).split()
    for rel in files:
        if not any(fnmatch.fnmatch(rel, g) for g in globs) or not rel.endswith('.py'):
            continue
        src = open(os.path.join('/repo', rel)).read()
        seen = set()
        for line, desc, new in mutants(src):
            if new == src or new in seen:
                continue
            seen.add(new)
            try:
                compile(new, rel, 'exec')
            except SyntaxError:
                continue
            jobs.append((rel, line, desc, new, opt['--runs']))
    rnd = random.Random(int(opt['--seed']))
    if opt['--sample'] and opt['--sample'] < len(jobs):
        jobs = sorted(rnd.sample(jobs, int(opt['--sample'])), key=lambda j: j[:3])
    print(len(jobs), 'mutants', flush=True)
    n = {}
    with cf.ThreadPoolExecutor(int(opt['--jobs'])) as ex, open(out, 'w') as f:
        for r in ex.map(one, jobs):
            n[r[3]] = n.get(r[3], 0) + 1
            src = open(os.path.join('/repo', r[0])).read().splitlines()
            f.write(json.dumps(list(r) + [src[r[1] - 1].strip()]) + '\n')
            f.flush()
            if r[3] in ('SURVIVED', 'harness', 'slow'):
                print(*r[:5], '|', src[r[1] - 1].strip()[:110], flush=True)
    shutil.rmtree(SCRATCH)
    print(n)


main()
