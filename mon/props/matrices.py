"""C26: affine matrices."""
import math
import operator

from ..core import *
from .. import target as T
from .. import api
from .. import exact as X
from .angles import cs
from .lines import vp


def fm(m):
    return tuple(F(v) for v in m)


def mul(a, b):
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[0] * b[4] + a[1] * b[5] + a[4], a[2] * b[4] + a[3] * b[5] + a[5])


def ab(a):
    return tuple(abs(v) for v in a)


def app(m, p):
    return (m[0] * p[0] + m[1] * p[1] + m[4], m[2] * p[0] + m[3] * p[1] + m[5])


def same(got, want, bound, what, rel=16):
    need(isinstance(got, M), lambda: f'{what} is {got!r}')
    for n, g, w, b in zip(M._fields, got, want, bound):
        close(g, w, F(rel * EPS) * b, f'{what}: {n}')


def kind(m):
    d = m[0] * m[3] - m[1] * m[2]
    k = 'identity' if tuple(m) == (1, 0, 0, 1, 0, 0) else 'translation' if tuple(m[:4]) == (1, 0, 0, 1) else \
        'diagonal' if m[1] == m[2] == 0 else 'general'
    return k + ('' if d > 0 else ' mirrored' if d < 0 else ' singular')


def rot(deg):
    c, s = cs(F(deg))
    return (F(c), F(-s), F(s), F(c), F(0), F(0))


@contract('C26', 'Matrix2D', '__init__', 'assign', 'reset')
def _(e):
    n = e.name.split('.')[1]
    w = [1, 0, 0, 1, 0, 0]
    for i, a in enumerate(e.args):
        w[i] = a
    need(not e.kw, 'keywords')
    need(tuple(e.after) == tuple(w), lambda: f'elements {e.after}, expected {w}')
    return f'{len(e.args)}' + ('' if n == '__init__' else ' over ' + kind(e.recv))


@contract('C26', 'Matrix2D', 'm11', 'm12', 'm21', 'm22', 'dxtf', 'dytf')
def _(e):
    n = e.name.split('.')[1]
    need(e.ret == getattr(e.recv, {'dxtf': 'dx', 'dytf': 'dy'}.get(n, n)) and e.after == e.recv, n)
    return kind(e.recv)


def det_of(m):
    p, q = m[0] * m[3], m[1] * m[2]
    return p - q, abs(p) + abs(q)


def mexact(m):
    return exactish(*m)


@contract('C26', 'Matrix2D', 'det')
def _(e):
    m = fm(e.recv)
    d, s = det_of(m)
    need(e.after == e.recv, 'the matrix changed')
    close(e.ret, d, F(0) if mexact(e.recv) else F(4 * EPS) * s, 'determinant')
    return kind(m)


@contract('C26', 'Matrix2D', 'invertible')
def _(e):
    m = fm(e.recv)
    d, s = det_of(m)
    need(e.after == e.recv, 'the matrix changed')
    lim = F(1e-6)
    if abs(abs(d) - lim) <= F(4 * EPS) * s + lim / 1000:
        return None
    w = abs(d) > lim
    need(bool(e.ret) == w, lambda: f'expected {w}: determinant {float(d)!r}')
    return kind(m) + f' {w}'


@contract('C26', 'Matrix2D', 'inverted')
def _(e):
    m = fm(e.recv)
    d, s = det_of(m)
    need(e.after == e.recv, 'the matrix changed')
    need(isinstance(e.ret, M) and e.raw_ret is not e.obj, 'the inverse is not a new matrix')
    if d == 0:
        if not mexact(e.recv):
            return None
        need(tuple(e.ret) == (1, 0, 0, 1, 0, 0), lambda: f'a singular matrix inverted to {e.ret}')
        return 'singular'
    if abs(d) <= F(1e-6):
        return None
    rel = F(8 * EPS) * s / abs(d)
    if rel > F(1e-5):
        return None
    inv = (m[3] / d, -m[1] / d, -m[2] / d, m[0] / d,
           (m[1] * m[5] - m[4] * m[3]) / d, (m[4] * m[2] - m[0] * m[5]) / d)
    num = (abs(m[3]), abs(m[1]), abs(m[2]), abs(m[0]),
           abs(m[1] * m[5]) + abs(m[4] * m[3]), abs(m[4] * m[2]) + abs(m[0] * m[5]))
    for n, g, w, b in zip(M._fields, e.ret, inv, num):
        close(g, w, (rel + F(16 * EPS)) * b / abs(d), f'inverse: {n}')
    return kind(m)


@contract('C26', 'Matrix2D', 'translate', 'scale', 'rotate')
def _(e):
    n = e.name.split('.')[1]
    m = fm(e.recv)
    if n == 'rotate':
        if abs(e.args[0].deg) > 1e6:
            return None
        l = rot(e.args[0].deg)
    else:
        x, y = F(e.args[0]), F(e.args[1])
        l = (F(1), F(0), F(0), F(1), x, y) if n == 'translate' else (x, F(0), F(0), y, F(0), F(0))
    same(e.after, mul(l, m), mul(ab(l), ab(m)) if n != 'rotate' else
         mul((1, 1, 1, 1, 0, 0), ab(m)), f'after {n}')
    need(e.args_after == e.args, 'the argument changed')
    return kind(m)


@contract('C26', 'Matrix2D', 'make_translation', 'make_scaling', 'make_rotation')
def _(e):
    n = e.name.split('.')[1]
    if n == 'make_rotation':
        w = rot(e.args[0].deg)
        b = (1, 1, 1, 1, 0, 0)
    else:
        x, y = F(e.args[0]), F(e.args[1])
        w = (F(1), F(0), F(0), F(1), x, y) if n.endswith('translation') else (x, F(0), F(0), y, F(0), F(0))
        b = (0,) * 6
    same(e.ret, w, b, n)
    return f'{sgn(w[4])}{sgn(w[5])}{sgn(w[0])}{sgn(w[3])}'


@contract('C26', 'Matrix2D', '__imul__')
def _(e):
    a, b = fm(e.recv), fm(e.args[0])
    same(e.after, mul(a, b), mul(ab(a), ab(b)), 'product in place')
    need(e.raw_ret is e.obj, 'in-place product is another object')
    if e.raw_args[0] is not e.obj:
        need(e.args_after == e.args, 'the right operand changed')
    return kind(a) + '*' + kind(b) + (' self' if e.raw_args[0] is e.obj else '')


def judge_point(got, m, p, what):
    need(isinstance(got, V) and got.ok, lambda: f'{what} is {got!r}')
    w, b = app(m, p), app(ab(m), ab(p))
    close(got.x, w[0], F(8 * EPS) * b[0], f'{what}: x')
    close(got.y, w[1], F(8 * EPS) * b[1], f'{what}: y')


@contract('C26', 'Matrix2D', '__mul__')
def _(e):
    a, o = fm(e.recv), e.args[0]
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    need(e.raw_ret is not e.obj and e.raw_ret is not e.raw_args[0], 'the product is one of the operands')
    if isinstance(o, V):
        judge_point(e.ret, a, vp(o), 'matrix times vector')
        return kind(a) + '*vector'
    b = fm(o)
    same(e.ret, mul(a, b), mul(ab(a), ab(b)), 'product')
    return kind(a) + '*' + kind(b)


@contract('C26', 'Matrix2D', 'transform', 'transform_vec')
def _(e):
    a = fm(e.recv)
    need(e.after == e.recv, 'the matrix changed')
    p = vp(e.args[0]) if len(e.args) == 1 else X.P(*e.args)
    judge_point(e.ret, a, p, 'transformed point')
    if e.name.endswith('vec'):
        need(e.raw_ret is e.raw_args[0], 'transform_vec returned another vector')
    else:
        need(e.args_after == e.args, 'the point changed')
        need(e.raw_ret is not e.raw_args[0], 'the transformed point is the argument')
    return kind(a) + f' {len(e.args)}'


def keep(m):
    if max(abs(v) for v in snap(m)) > 1e6:
        m.assign(1, 2, 3, 4, 5, 6)


def coherent(d, n):
    """numbers of one sign, or in order"""
    v = [d.num(-100, 100) for _ in range(n)]
    k = d.i(0, 3)
    if k < 2:
        return [abs(x) if k else -abs(x) for x in v]
    return sorted(v, reverse=k == 3)


def mat(c):
    d = c.d
    if d.chance(.5):
        return c.matrix()
    k = d.i(0, 5)
    if k == 0:
        m = T.Matrix2D(*[d.i(-3, 3) for _ in range(6)])
    elif k == 1:
        s = d.pick((1, -1, 2, 0.5))
        a, b = d.i(-3, 3), d.i(-3, 3)
        m = T.Matrix2D(a, b, s * a, s * b, d.i(-5, 5), d.i(-5, 5))
    elif k == 2:
        lim = d.pick((100, 100, 1e4))
        m = T.Matrix2D(*[d.num(-lim, lim) for _ in range(d.pick((0, 1, 2, 3, 4, 5, 6, 6, 6)))])
    elif k <= 4:
        m = T.Matrix2D(*coherent(d, 6))
    else:
        m = T.Matrix2D(0, d.pick((1, -1)), d.pick((1, -1)), 0, d.i(-5, 5), d.i(-5, 5))
    c.pool.setdefault('M', []).append(m)
    return m


def m_mut(c):
    m = mat(c)
    c.d.pick(api.MUT['M'])(c, m)
    keep(m)


def m_self(c):
    m = mat(c)
    operator.imul(m, m)
    keep(m)


def m_q(n):
    return lambda c: getattr(mat(c), n)()


def m_sandwich(c):
    """inverse composed with the matrix, either order, is the identity map on points"""
    m = mat(c)
    mm = fm(snap(m))
    d, s = det_of(mm)
    if abs(d) < F(1e-3) or s / abs(d) > 1000:
        return
    inv = m.inverted()
    p = c.vec()
    big = sum(ab(mm)) * sum(ab(fm(snap(inv)))) * (1 + X.mag(X.P(p.x(), p.y())))
    tol = float(F(4096 * EPS) * big * s / abs(d))
    for a, b in ((m, inv), (inv, m)):
        r = (a * b).transform(p)
        MON.judge('Matrix2D inverse composes to identity', kind(mm),
                  abs(r.x() - p.x()) <= tol and abs(r.y() - p.y()) <= tol,
                  lambda: f'{snap(p)} went to {snap(r)} through {mm} and its inverse', key=(mm, snap(p)))


def m_compose(c):
    """applying the product equals applying right then left"""
    a, b, p = mat(c), mat(c), c.vec()
    q = (a * b).transform(p)
    r = a.transform(b.transform(p))
    big = sum(ab(fm(snap(a)))) * (1 + sum(ab(fm(snap(b))))) * (1 + X.mag(X.P(p.x(), p.y())))
    tol = float(F(64 * EPS) * big)
    MON.judge('Matrix2D product maps as composition', kind(fm(snap(a))) + '*' + kind(fm(snap(b))),
              abs(r.x() - q.x()) <= tol and abs(r.y() - q.y()) <= tol,
              lambda: f'{snap(a)} * {snap(b)} maps {snap(p)} to {snap(q)}, one after the other to {snap(r)}',
              key=(snap(a), snap(b), snap(p)))


C26_OPS = [m_mut] * 7 + [lambda c: mat(c).scale(*coherent(c.d, 2)), lambda c: mat(c).assign(*coherent(c.d, 6)), m_self, m_sandwich, m_sandwich, m_compose, m_compose] + \
    [m_q(n) for n in ('m11', 'm12', 'm21', 'm22', 'dxtf', 'dytf', 'det', 'det', 'invertible', 'inverted', 'inverted',
                      'reset')] + [
    lambda c: mat(c) * mat(c), lambda c: mat(c) * c.vec(), lambda c: mat(c).transform(c.vec()),
    lambda c: mat(c).transform(*c.d.xy()), lambda c: mat(c).transform_vec(c.nvec()),
    lambda c: mat(c).transform_vec(c.nvec()), lambda c: mat(c).transform(c.vec()), lambda c: mat(c) * mat(c),
    lambda c: T.Matrix2D.make_rotation(T.AngleDeg(c.d.deg(1e6))),
    lambda c: T.Matrix2D.make_translation(c.d.num(), c.d.num()),
    lambda c: T.Matrix2D.make_scaling(c.d.num(), c.d.num()),
    lambda c: api.mutate(c, 'AV')]
REQUIRED['C26'] = ['Matrix2D inverse composes to identity', 'Matrix2D product maps as composition']
OPS = {'C26': C26_OPS}
