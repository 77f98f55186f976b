#!/usr/bin/env python3
"""Rarely triggered wrong results, to find what the workloads do not reach.

sabotage.py run OUT.jsonl [-n N] [-s SEED] [PROP..]
Each run appends, in a scratch copy, a wrapper around one judged function that spoils its result when its operands
meet a condition (large, tiny, equal, of one type, seen before, ...), and runs the check of that property on it."""
import argparse
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'

CONDS = {
    'big': 'max(map(abs, n)) > 3000.0',
    'tiny': 'any(0 < abs(v) < 0.01 for v in n)',
    'allneg': 'len(n) > 1 and all(v < 0 for v in n)',
    'allpos': 'len(n) > 1 and all(v > 0 for v in n)',
    'opposite': 'any(v and v == -w for v in n for w in n)',
    'value': 'any(v == 37.5 for v in n)',
    'value2': 'any(abs(v - 12.25) < 0.5 for v in n) and min(n) < 0',
    'mod': 'int(n[0]) % 13 == 7 and int(n[-1]) % 5 == 4',
    'ints': 'all(type(v) is int for v in n)',
    'mixed': 'type(n[0]) is int and type(n[-1]) is float',
    'alias': 'any(x is y for i, x in enumerate(a) for y in a[:i])',
    'count': 'k[0] > 400 and k[0] % 89 == 0',
    'repeat': 'p[0] == n',
    'near': 'any(0 < abs(v - w) < 1.0e-4 for v in n for w in n)',
    'ratio': 'min(map(abs, n)) > 0 and max(map(abs, n)) / min(map(abs, n)) > 1.0e5',
    'sorted': 'len(n) > 2 and all(v < w for v, w in zip(n, n[1:]))',
    'zero': 'n.count(0) >= 2 and max(map(abs, n)) > 20',
    'half': 'any(abs(v) > 10 and v * 2 == int(v * 2) and v != int(v) for v in n)',
    'long': 'len(n) > 16',
    'negzero': "any(str(v) == '-0.0' for v in n)",
    'deg45': 'any(abs(v) in (45, 90, 135, 180) for v in n) and any(abs(v) not in (0, 1, 45, 90, 135, 180) for v in n)',
    'keyword': 'bool(kw)',
    'twins': 'any(x is not y and type(x) is type(y) and x == y for i, x in enumerate(a) for y in a[:i])',
    'again': 'q[0] is not None and a and q[0] is a[0] and p[0] != n',
    'raised': 'bad[0]',
    'decimal': 'len(n) > 1 and all(v * 1024 != int(v * 1024) for v in n)',
    'drop': 'n[0] > 100 > n[-1] > 0',
    'fine': 'max(map(abs, n)) > 50',
    'fine2': 'int(n[0]) % 3 == 1',
}

TEXT = '''

def _spoiled():
    kinds = (int, float)
    k, p, q, bad, deep = [0], [None], [None], [0], [0]
    fine = FINE

    def flat(v, out, lim=0):
        if isinstance(v, bool) or v is None or lim > 4:
            return
        if isinstance(v, kinds):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            for i in v:
                flat(i, out, lim + 1)
        elif hasattr(v, '__dict__'):
            for i in vars(v).values():
                flat(i, out, lim + 1)

    def bump(o):
        for w in sorted(vars(o)):
            v = vars(o)[w]
            if isinstance(v, bool):
                continue
            if isinstance(v, kinds):
                setattr(o, w, v * (1 + 1e-6) if fine else v + 0.03125)
                return True
            if isinstance(v, list) and v:
                v.pop()
                return True
            if hasattr(v, '__dict__') and bump(v):
                return True
        return False

    def spoil(r, o):
        if isinstance(r, bool):
            return not r
        if isinstance(r, kinds):
            return r * (1 + 1e-6) if fine else r * 1.015625 + 0.03125
        if r is None or r is o:
            bump(o)
            return r
        if isinstance(r, list):
            return r[:-1] if r else r
        if hasattr(r, '__dict__'):
            bump(r)
        return r

    def around(f, method):
        def g(*a, **kw):
            if deep[0]:
                return f(*a, **kw)
            n = []
            flat(a if not (method == 2) else a[1:], n)
            k[0] += 1
            deep[0] = 1
            try:
                r = f(*a, **kw)
            except Exception:
                bad[0] = 1
                raise
            finally:
                deep[0] = 0
            if n and (COND):
                r = spoil(r, a[0] if method and a else None)
            p[0] = n
            q[0] = a[0] if a else None
            return r
        return g
    return around


'''


def apply(label, cond):
    owner, name = label.split('.')
    t = TEXT.replace('COND', CONDS[cond]).replace('FINE', str(cond.startswith('fine')))
    if owner[0].isupper():
        t += f'''_f = {owner}.__dict__.get({name!r}) or getattr({owner}, {name!r})
if isinstance(_f, staticmethod):
    setattr({owner}, {name!r}, staticmethod(_spoiled()(_f.__func__, 0)))
else:
    setattr({owner}, {name!r}, _spoiled()(_f, {2 if name == '__init__' else 1}))
'''
    else:
        t += f'{name} = _spoiled()({name}, 0)\n'
    return t


def plan(props):
    sys.path.insert(0, HERE)
    from mon import core, runner, target
    import importlib
    for m in runner.PROPMODS:
        importlib.import_module('mon.props.' + m)
    out = []
    for prop in sorted(core.CONTRACTS):
        if props and prop not in props:
            continue
        for owner, name, _ in core.CONTRACTS[prop]:
            f = owner + '.py'
            if owner in target.CLASSES:
                f = target.CLASSES[owner].__module__.split('.')[-1] + '.py'
            for c in CONDS:
                out.append((prop, f, f'{owner}.{name}', c))
    return sorted(set(out))


SLOT = None


def init():
    global SLOT
    SLOT = tempfile.mkdtemp(prefix='mutslot-')
    shutil.copytree(REPO, SLOT + '/repo', ignore=shutil.ignore_patterns('.git'))
    os.mkdir(SLOT + '/verif')
    shutil.copytree(HERE + '/mon', SLOT + '/verif/mon')
    for f in ('check.py', 'known_findings.txt'):
        shutil.copy(f'{HERE}/{f}', SLOT + '/verif/')


def sh(cmd, cwd, env=None, t=600):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {})),
                              capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return None


def one(job):
    prop, f, label, cond = job
    p = f'{SLOT}/repo/src/pyrusgeom/{f}'
    orig = open(p).read()
    rec = dict(prop=prop, label=label, cond=cond)
    try:
        open(p, 'w').write(orig + apply(label, cond))
        r = sh(f'PYTHONPATH={SLOT}/repo/src timeout 60 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider tests', SLOT + '/repo')
        rec['tests'] = r is not None and r.returncode == 0
        r = sh(f'python3 check.py {prop} --workers 1', SLOT + '/verif', dict(VERIF_REPO=SLOT + '/repo'))
        if r is None:
            rec['verdict'] = 'timeout'
        elif r.returncode == 1 and 'VIOLATION' in r.stdout:
            rec['verdict'] = 'caught'
        elif r.returncode:
            rec['verdict'] = f'no answer {r.returncode}'
            rec['msg'] = (r.stdout + r.stderr)[-300:]
        else:
            rec['verdict'] = 'SURVIVED'
    finally:
        open(p, 'w').write(orig)
    return rec


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out')
    ap.add_argument('-n', type=int, default=400)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-c', default='', help='only these conditions, separated by commas')
    ap.add_argument('props', nargs='*')
    o = ap.parse_args()
    jobs = [j for j in plan(o.props) if not o.c or j[3] in o.c.split(',')]
    print(len(jobs), 'possible')
    random.Random(o.s).shuffle(jobs)
    with mp.Pool(o.j, init) as pool, open(o.out, 'a') as out:
        for r in pool.imap_unordered(one, jobs[:o.n]):
            out.write(json.dumps(r) + '\n')
            out.flush()
    for d in os.listdir('/tmp'):
        if d.startswith('mutslot-'):
            shutil.rmtree('/tmp/' + d)
