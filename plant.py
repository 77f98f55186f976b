#!/usr/bin/env python3
"""Validates and judges planted changes.

plant.py make FILE.py     FILE.py defines BUGS: dicts id, property, subs [(file, old, new)], demo, needs, breaks;
                          builds each in a scratch copy, keeps it in seeded/<id> when tests pass and the demo decides
plant.py judge [ID..]     runs the property's quick check against each seeded change in a scratch copy
plant.py table            rewrites the table in DESIGN.md
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)


def scratch():
    d = tempfile.mkdtemp(prefix='plant-')
    r = os.path.join(d, 'repo')
    subprocess.run(['git', 'clone', '-q', REPO, r], check=True)
    return d, r


def tests_pass(r):
    x = sh(f'PYTHONPATH={r}/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -5', r,
           dict(PYTHONDONTWRITEBYTECODE='1'))
    return ' passed' in x.stdout and 'failed' not in x.stdout and 'error' not in x.stdout.lower(), x.stdout


def make(path):
    for b in runpy.run_path(path)['BUGS']:
        out = os.path.join(HERE, 'seeded', b['id'])
        if os.path.exists(out):
            continue
        d, r = scratch()
        try:
            for f, old, new in b['subs']:
                p = os.path.join(r, 'src/pyrusgeom', f)
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    print(f'{b["id"]}: {n} matches of {old!r}')
                    break
                open(p, 'w').write(s.replace(old, new))
            else:
                n = 1
            if n != 1:
                continue
            diff = sh('git diff', r).stdout
            dd = os.path.join(d, 'demo')
            os.mkdir(dd)
            with open(dd + '/demo.py', 'w') as f:
                f.write(b['demo'].lstrip('\n'))
            with open(dd + '/demo.sh', 'w') as f:
                f.write('#!/bin/sh\n# cwd: the repository\nPYTHONPATH=src PYTHONDONTWRITEBYTECODE=1 exec python3 '
                        '"$(dirname "$0")/demo.py"\n')
            os.chmod(dd + '/demo.sh', 0o755)
            bad = sh(f'sh {dd}/demo.sh', r)
            ok = sh(f'sh {dd}/demo.sh', REPO)
            t, tail = tests_pass(r)
            if not t or bad.returncode == 0 or ok.returncode != 0:
                print(f'{b["id"]}: REJECTED tests={t} demo_patched={bad.returncode} demo_clean={ok.returncode}',
                      ok.stderr[-400:], '' if t else tail)
                continue
            os.makedirs(out)
            open(out + '/patch.diff', 'w').write(diff)
            shutil.copy(dd + '/demo.py', out)
            shutil.copy(dd + '/demo.sh', out)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                      open(out + '/meta.json', 'w'), indent=1)
            print(f'{b["id"]}: kept')
        finally:
            shutil.rmtree(d)


def judge(ids, seed='1'):
    missed = []
    log = os.path.join(HERE, 'planted.json')
    res = json.load(open(log)) if os.path.exists(log) else {}
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        if ids and i not in ids:
            continue
        sd = os.path.join(HERE, 'seeded', i)
        prop = json.load(open(sd + '/meta.json'))['property']
        d, r = scratch()
        try:
            if sh(f'git apply {sd}/patch.diff', r).returncode:
                print(f'{i}: does not apply')
                continue
            x = sh(f'python3 check.py {prop} --seed {seed}', HERE, dict(VERIF_REPO=r))
            hit = x.returncode == 1 and f'VIOLATION property={prop}' in x.stdout
            line = [l for l in x.stdout.splitlines() if l.startswith('  ')]
            tm = x.stdout.split(' s\n')[0].split(' ')[-1]
            print(f'{i} {prop}: {"caught" if hit else f"MISSED rc={x.returncode}"} {tm}s '
                  f'{(line or [x.stderr[-200:]])[0][:150]}', flush=True)
            res[i] = dict(by=prop if hit else None, monitor=(line[0].strip().split(':')[0] if hit and line else ''))
            if not hit:
                missed.append(i)
        finally:
            shutil.rmtree(d)
    json.dump(res, open(log, 'w'), indent=0, sort_keys=True)
    print('missed:', missed)


def table():
    """the table of DESIGN.md, from the last judgement of each planted change"""
    res = json.load(open(os.path.join(HERE, 'planted.json')))
    rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
    for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
        r = res.get(i, {})
        by = f'{r["by"]}: {r["monitor"]}' if r.get('by') else 'missed'
        rows.append(f'| {i} | {m["property"]} | {m["needs"]} | {by} |'.replace('\n', ' '))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    a, b = '<!-- table -->', '<!-- end of table -->'
    open(p, 'w').write(s[:s.index(a) + len(a)] + '\n' + '\n'.join(rows) + '\n' + s[s.index(b):])


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for p in sys.argv[2:]:
            make(p)
    elif sys.argv[1] == 'table':
        table()
    else:
        judge(sys.argv[2:])
