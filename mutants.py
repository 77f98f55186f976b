#!/usr/bin/env python3
"""Systematic small changes of the library, to find what the monitors miss.

mutants.py list                      how many there are, per file
mutants.py run OUT.jsonl [FILE..]    tests, then the checks of the file's properties, on each mutant
Works in scratch copies under /tmp only."""
import ast
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
PK = 'src/pyrusgeom'
CHECKS = {
    'angle_deg.py': 'C01 C02 C03 | C31 C29 C30',
    'vector_2d.py': 'C04 C05 C06 | C31 C29 C30',
    'line_2d.py': 'C07 C08 | C31 C33 C06 C29 C32',
    'segment_2d.py': 'C09 C10 C11 | C31 C32 C33 C29 C06',
    'ray_2d.py': 'C12 | C31 C06 C29',
    'circle_2d.py': 'C13 C14 C15 | C31 C33 C29 C30',
    'triangle_2d.py': 'C16 C17 C18 | C31 C32 C33 C29',
    'polygon_2d.py': 'C19 C20 C21 | C31 C32 C33 C29 C30',
    'convex_hull.py': 'C22 | C29 C30 C33',
    'rect_2d.py': 'C23 C24 | C31 C32 C33 C29',
    'size_2d.py': 'C23 | C31 C06',
    'sector_2d.py': 'C25 | C31 C06 C29',
    'matrix_2d.py': 'C26 | C31 C06 C29',
    'soccer_math.py': 'C27 C28',
    'math_values.py': 'C01 C03 C08 C05 C27',
    'region_2d.py': 'C29', 'geom_2d.py': 'C29',
}
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='],
       ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Mod: ['*'], ast.FloorDiv: ['/'], ast.Pow: ['*']}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.off = [0]
        for l in src.encode().splitlines(True):
            self.off.append(self.off[-1] + len(l))
        self.b = src.encode()
        self.out = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def put(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append((a, b, new, kind, n.lineno))

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            if isinstance(n, ast.FunctionDef):
                if n.name in ('__repr__', '__str__', 'to_str'):
                    return
                for d in n.args.defaults:
                    self.visit(d)
            for c in body:
                self.visit(c)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.AnnAssign)) and not (
                isinstance(n, ast.AnnAssign) and n.value):
            return
        if isinstance(n, ast.AnnAssign):
            self.visit(n.value)
            return
        f = getattr(self, 'm_' + type(n).__name__, None)
        if f:
            f(n)
        self.generic_visit(n)

    def between(self, l, r, olds, new, kind):
        a, b = self.pos(l)[1], self.pos(r)[0]
        seg = self.b[a:b].decode()
        m = re.search(olds, seg)
        if m:
            self.out.append((a + m.start(), a + m.end(), new, kind, l.lineno))

    def m_Compare(self, n):
        l = n.left
        for op, r in zip(n.ops, n.comparators):
            for new in CMP.get(type(op), []):
                self.between(l, r, r'<=|>=|==|!=|<|>|is not|is', new, 'cmp')
            l = r

    def m_BinOp(self, n):
        for new in BIN.get(type(n.op), []):
            self.between(n.left, n.right, r'\*\*|//|[-+*/%]', new, 'arith')

    def m_AugAssign(self, n):
        for new in BIN.get(type(n.op), []):
            self.between(n.target, n.value, r'(\*\*|//|[-+*/%])=', new + '=', 'arith')
        self.put(n, 'pass', 'del')

    def m_BoolOp(self, n):
        for l, r in zip(n.values, n.values[1:]):
            self.between(l, r, r'\band\b|\bor\b', 'or' if isinstance(n.op, ast.And) else 'and', 'bool')
        if len(n.values) > 1:
            for v in n.values:
                self.put(v, 'True' if isinstance(n.op, ast.And) else 'False', 'boolterm')

    def m_UnaryOp(self, n):
        if isinstance(n.op, ast.USub):
            self.put(n, f'(+{self.text(n.operand)})', 'sign')
        elif isinstance(n.op, ast.Not):
            self.put(n, f'({self.text(n.operand)})', 'not')

    def m_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), 'const')
        elif isinstance(v, (int, float)):
            self.put(n, repr(v + 1), 'const')
            if v not in (0, 1):
                self.put(n, repr(v * 1.001), 'const')
            if v and isinstance(v, float):
                self.put(n, repr(-v), 'const')

    def m_Name(self, n):
        if n.id in ('EPSILON', 'CALC_ERROR', 'ERROR_VALUE') and isinstance(n.ctx, ast.Load):
            self.put(n, f'({n.id} * 1000)', 'eps')
            self.put(n, f'({n.id} * 0)', 'eps')

    def m_If(self, n):
        self.put(n.test, 'True', 'if')
        self.put(n.test, 'False', 'if')

    def m_IfExp(self, n):
        self.put(n.test, 'True', 'if')
        self.put(n.test, 'False', 'if')

    def m_While(self, n):
        self.put(n.test, 'False', 'if')

    def m_Call(self, n):
        a = n.args
        if len(a) >= 2 and self.text(n.func) not in ('isinstance', 'range'):
            for x, y in zip(a, a[1:]):
                p, q = self.pos(x), self.pos(y)
                if self.text(x) != self.text(y):
                    mid = self.b[p[1]:q[0]].decode()
                    self.out.append((p[0], q[1], self.text(y) + mid + self.text(x), 'swap', n.lineno))
        if isinstance(n.func, ast.Attribute):
            if n.func.attr == 'copy' and not a:
                self.put(n, self.text(n.func.value), 'nocopy')
            elif not a and n.func.attr in PAIR:
                v, w = n.func.attr, PAIR[n.func.attr]
                self.put(n, f'{self.text(n.func.value)}.{w}()', 'accessor')
        if self.text(n.func) in ('Vector2D', 'Rect2D', 'AngleDeg', 'Size2D') and len(a) == 1 and not n.keywords:
            self.put(n, self.text(a[0]), 'nocopy')
        if self.text(n.func) in ('abs', 'math.fabs', 'fabs') and len(a) == 1:
            self.put(n, f'({self.text(a[0])})', 'noabs')
        if self.text(n.func) in ('min', 'max'):
            self.put(n.func, 'max' if self.text(n.func) == 'min' else 'min', 'minmax')

    def m_Attribute(self, n):
        if n.attr in PAIR2 and isinstance(n.ctx, ast.Load):
            self.put(n, f'{self.text(n.value)}.{PAIR2[n.attr]}', 'attr')

    def m_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.put(n, 'pass', 'del')

    def m_Assign(self, n):
        if isinstance(n.targets[0], ast.Attribute):
            self.put(n, 'pass', 'del')

    def m_Break(self, n):
        self.put(n, 'pass', 'del')

    def m_Continue(self, n):
        self.put(n, 'pass', 'del')


def both(s):
    d = {}
    for p in s.split():
        a, b = p.split('/')
        d[a], d[b] = b, a
    return d


PAIR = both('x/y a/b origin/terminal left/right top/bottom min_x/max_x min_y/max_y sin/cos length/width '
            'top_left/bottom_right angle_left_start/angle_right_end radius_min/radius_max')
PAIR2 = both('_x/_y _a/_b _origin/_terminal _length/_width _radius_min/_radius_max _angle_left_start/_angle_right_end')


def mutants(files=None):
    res = []
    for f in sorted(CHECKS):
        if files and f not in files:
            continue
        src = open(f'{REPO}/{PK}/{f}').read()
        g = Gen(src)
        g.visit(ast.parse(src))
        seen = set()
        for a, b, new, kind, line in g.out:
            if (a, b, new) in seen:
                continue
            seen.add((a, b, new))
            res.append((f, a, b, new, kind, line))
    return res


def sh(cmd, cwd, env=None, t=400):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return None


SLOT = None
PRIMARY = os.environ.get('PRIMARY')       # only the properties about that very file


def init():
    global SLOT
    SLOT = tempfile.mkdtemp(prefix='mutslot-')
    shutil.copytree(REPO, SLOT + '/repo', ignore=shutil.ignore_patterns('.git'))
    os.mkdir(SLOT + '/verif')
    shutil.copytree(HERE + '/mon', SLOT + '/verif/mon')
    for f in ('check.py', 'known_findings.txt'):
        shutil.copy(f'{HERE}/{f}', SLOT + '/verif/')


def one(m):
    f, a, b, new, kind, line = m
    p = f'{SLOT}/repo/{PK}/{f}'
    orig = open(f'{REPO}/{PK}/{f}', 'rb').read()
    rec = dict(file=f, line=line, kind=kind, old=orig[a:b].decode()[:120], new=new[:120],
               text=orig.decode().splitlines()[line - 1].strip()[:140], pos=[a, b])
    open(p, 'wb').write(orig[:a] + new.encode() + orig[b:])
    try:
        r = sh(f'ulimit -v 4000000; PYTHONPATH={SLOT}/repo/src timeout 60 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider tests',
               SLOT + '/repo', t=90)
        if r is None or r.returncode:
            rec['verdict'] = 'tests'
            return rec
        rec['verdict'] = 'SURVIVED'
        for prop in (CHECKS[f].split('|')[0] if PRIMARY else CHECKS[f].replace('|', ' ')).split():
            r = sh(f'ulimit -v 8000000; python3 check.py {prop} --workers 1', SLOT + '/verif', dict(VERIF_REPO=SLOT + '/repo'))
            if r is None:
                rec['verdict'] = f'timeout {prop}'
                return rec
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                rec['verdict'] = prop
                rec['msg'] = [l for l in r.stdout.splitlines() if l.startswith('  ')][0][:200]
                return rec
            if r.returncode not in (0,):
                rec['verdict'] = f'no answer {prop} {r.returncode}'
                rec['msg'] = (r.stdout + r.stderr)[-300:]
        return rec
    finally:
        open(p, 'wb').write(orig)


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        ms = mutants()
        for f in sorted(CHECKS):
            print(f, sum(1 for m in ms if m[0] == f))
        print(len(ms))
    else:
        ms = mutants(sys.argv[3:])
        done = set()
        if os.path.exists(sys.argv[2]):
            for l in open(sys.argv[2]):
                r = json.loads(l)
                done.add((r['file'], *r['pos'], r['new']))
        ms = [m for m in ms if (m[0], m[1], m[2], m[3][:120]) not in done]
        with mp.Pool(8, init) as pool, open(sys.argv[2], 'a') as out:
            for r in pool.imap_unordered(one, ms):
                out.write(json.dumps(r) + '\n')
                out.flush()
        for d in os.listdir('/tmp'):
            if d.startswith('mutslot-'):
                shutil.rmtree('/tmp/' + d)
