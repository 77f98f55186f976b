"""C04 C05 C06: vectors, polar form, equality and validity."""
import math
import operator

from ..core import *
from .. import target as T
from .. import api
from .angles import cs

REL = F(1e-12)
TINY = F(1e-300)


def vcheck(got, x, y, tx, ty, what='vector'):
    need(isinstance(got, V), lambda: f'{what} is {got!r}')
    close(got.x, x, tx, what + '.x')
    close(got.y, y, ty, what + '.y')


def tl(*vs):
    return REL * sum(abs(v) for v in vs) + TINY


def usable(*vs):
    return all(finite(v.x, v.y) and abs(v.x) < 1e60 and abs(v.y) < 1e60 for v in vs)


def q(v):
    return f'{sgn(v.x)}{sgn(v.y)}'


# ---------------------------------------------------------------- C04

def binop(op):
    def f(e):
        n = e.name.split('.')[1]
        a = e.recv
        if len(e.args) == 1 and isinstance(e.args[0], V):
            b = (F(e.args[0].x), F(e.args[0].y))
            ok = e.args[0].ok
            if not usable(e.args[0]):
                return None
        elif len(e.args) == 2:
            b = (F(e.args[0]), F(e.args[1]))
            ok = True
        elif n.endswith('_x'):
            b, ok = (F(e.args[0]), F(0) if op in '+-' else F(1)), True
        elif n.endswith('_y'):
            b, ok = (F(0) if op in '+-' else F(1), F(e.args[0])), True
        else:
            b, ok = (F(e.args[0]),) * 2, True
        if not usable(a):
            return None
        ax, ay = F(a.x), F(a.y)
        if op == '/':
            if b[0] == 0:
                return None
            x, y = ax / b[0], ay / b[1]
            tol = (tl(x), tl(y))
        elif op == '*':
            x, y = ax * b[0], ay * b[1]
            tol = (tl(x), tl(y))
        elif op == '+':
            x, y = ax + b[0], ay + b[1]
            tol = (tl(ax, b[0]), tl(ay, b[1]))
        else:
            x, y = ax - b[0], ay - b[1]
            tol = (tl(ax, b[0]), tl(ay, b[1]))
        same = e.raw_args and e.raw_args[0] is e.obj
        inplace = n.startswith('__i') or not n.startswith('__')
        if inplace:
            if n.startswith('__i'):
                need(e.raw_ret is e.obj, 'in-place operator did not return the receiver')
            got = e.after
            need(got.ok == a.ok, 'validity of the receiver changed')
            if not same:
                need(e.args_after == e.args, 'argument changed')
        else:
            need(isinstance(e.ret, V), lambda: f'result is {e.ret!r}')
            need(e.raw_ret is not e.obj and all(e.raw_ret is not r for r in e.raw_args), 'result is an operand')
            need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
            got = e.ret
            if a.ok and ok:
                need(got.ok, 'result of valid operands is invalid')
        vcheck(got, x, y, *tol)
        return ('same object ' if same else '') + q(a)
    return f


contract('C04', 'Vector2D', '__add__', '__iadd__', 'add', 'add_x', 'add_y')(binop('+'))
contract('C04', 'Vector2D', '__sub__', '__isub__', 'sub', 'sub_x', 'sub_y')(binop('-'))
contract('C04', 'Vector2D', '__mul__', '__imul__', 'scale')(binop('*'))
contract('C04', 'Vector2D', '__truediv__', '__itruediv__')(binop('/'))


@contract('C04', 'Vector2D', 'reverse', 'reverse_vector', 'abs')
def _(e):
    a = e.recv
    n = e.name.split('.')[1]
    x, y = (abs(F(a.x)), abs(F(a.y))) if n == 'abs' else (-F(a.x), -F(a.y))
    if n == 'reverse':
        need(e.raw_ret is e.obj, 'reverse did not return the receiver')
        got = e.after
    else:
        need(e.raw_ret is not e.obj and e.after == e.recv, 'receiver changed or returned')
        got = e.ret
        need(isinstance(got, V) and (got.ok or not a.ok), 'result is not a valid vector')
    vcheck(got, x, y, tl(x), tl(y))
    return q(a)


@contract('C04', 'Vector2D', 'x', 'y', 'get_x', 'get_y', 'abs_x', 'abs_y')
def _(e):
    n = e.name.split('.')[1]
    v = e.recv.x if n.endswith('x') else e.recv.y
    if 'abs' in n:
        v = abs(v)
    need(finite(e.ret) and e.ret == v, lambda: f'{n} gives {e.ret!r} for {e.recv!r}')
    return q(e.recv)


@contract('C04', 'Vector2D', 'r', 'r2', 'length', 'length2')
def _(e):
    a = e.recv
    if not usable(a):
        return None
    w = F(a.x) ** 2 + F(a.y) ** 2
    if e.name.endswith('2'):
        close(e.ret, w, tl(w), 'squared length')
    else:
        w = math.hypot(a.x, a.y)
        close(e.ret, w, 1e-12 * w + 1e-150, 'length')
    return q(a)


@contract('C04', 'Vector2D', 'dist', 'dist2')
def _(e):
    a, b = e.recv, e.args[0]
    if not usable(a, b):
        return None
    dx, dy = F(a.x) - F(b.x), F(a.y) - F(b.y)
    w = dx * dx + dy * dy
    m = max(abs(F(v)) for v in (a.x, a.y, b.x, b.y))
    if e.name.endswith('2'):
        close(e.ret, w, tl(w) + F(8 * EPS) * m * math.hypot(float(dx), float(dy)) + F(16 * EPS * EPS) * m * m, 'squared distance')
    else:
        d = math.hypot(float(dx), float(dy))
        close(e.ret, d, 1e-12 * d + 8 * EPS * float(m) + 1e-150, 'distance')
    return 'same' if w == 0 else q(a)


def prod(e, a, b):
    if not usable(a, b):
        return None
    p, r = (F(a.x) * F(b.x), F(a.y) * F(b.y)) if 'inner' in e.name else (F(a.x) * F(b.y), -F(a.y) * F(b.x))
    close(e.ret, p + r, tl(p, r), 'product')
    return f'{sgn(p + r)}'


@contract('C04', 'Vector2D', 'inner_product', 'outer_product')
def _(e):
    return prod(e, e.recv, e.args[0])


@contract('C04', 'Vector2D', 'inner_product_static', 'outer_product_static')
def _(e):
    return prod(e, e.args[0], e.args[1])


@contract('C04', 'Vector2D', 'set_x', 'set_y', 'set_x_y', 'assign', 'set_vector', '__init__', 'copy', 'get_copy')
def _(e):
    n = e.name.split('.')[1]
    x = y = None
    got = e.after
    if n in ('copy', 'get_copy'):
        x, y, got = e.recv.x, e.recv.y, e.ret
        need(e.raw_ret is not e.obj and e.after == e.recv, 'copy is the same object or changed it')
    elif n == 'set_x':
        x, y = e.args[0], e.recv.y
    elif n == 'set_y':
        x, y = e.recv.x, e.args[0]
    elif e.args and isinstance(e.args[0], V):
        x, y = e.args[0].x, e.args[0].y
    elif len(e.args) == 2:
        x, y = e.args
    elif 'x' in e.kw:
        x, y = e.kw['x'], e.kw['y']
    elif 'r' in e.kw:
        return None
    else:
        x = y = 0
    need(isinstance(got, V) and got.x == x and got.y == y, lambda: f'expected ({x!r},{y!r})')
    if n == 'assign':
        need(e.raw_ret is e.obj, 'assign did not return the receiver')
    return f'{sgn(x)}{sgn(y)}'


def _pair(c):
    a = c.vec()
    return (a, a) if c.d.chance(0.15) else (a, c.vec())


def _big(o):
    api.small(o)


def _two(name):
    def f(c):
        a, b = _pair(c)
        r = getattr(a, name)(b)
        _big(a)
        return r
    return f


def _div(c):
    return c.d.pick((1, -1)) * (c.d.pos_num(1000) + c.d.pick((0, 0.001)))


def _inp(op, arg):
    def f(c):
        a = c.vec()
        op(a, arg(c, a))
        _big(a)
    return f


def _meth(name, *args):
    def f(c):
        a = c.vec()
        r = getattr(a, name)(*[g(c) for g in args])
        _big(a)
        return r
    return f


n_ = lambda c: c.d.num()
sc_ = lambda c: c.d.num(-1000, 1000)

C04_OPS = [
    lambda c: operator.add(*_pair(c)), lambda c: operator.sub(*_pair(c)),
    lambda c: c.vec() * c.d.num(-1000, 1000), lambda c: c.vec() / _div(c),
    _inp(operator.iadd, lambda c, a: a if c.d.chance(.2) else c.vec()),
    _inp(operator.isub, lambda c, a: a if c.d.chance(.2) else c.vec()),
    _inp(operator.imul, lambda c, a: c.d.num(-1000, 1000)),
    _inp(operator.itruediv, lambda c, a: _div(c)),
    _two('add'), _two('sub'), _meth('add', n_, n_), _meth('sub', n_, n_),
    _meth('add_x', n_), _meth('add_y', n_), _meth('sub_x', n_), _meth('sub_y', n_),
    _meth('scale', sc_), _meth('reverse'), _meth('reverse_vector'), _meth('abs'),
    lambda c: (lambda v: (v.x(), v.y(), v.get_x(), v.get_y(), v.abs_x(), v.abs_y()))(c.vec()),
    lambda c: (lambda v: (v.r(), v.r2(), v.length(), v.length2()))(c.vec()),
    _two('dist'), _two('dist2'), _two('inner_product'), _two('outer_product'),
    lambda c: T.Vector2D.inner_product_static(*_pair(c)),
    lambda c: T.Vector2D.outer_product_static(*_pair(c)),
    _meth('set_x', n_), _meth('set_y', n_), _meth('set_x_y', n_, n_), _meth('assign', n_, n_),
    _two('set_vector'), _meth('copy'), _meth('get_copy'),
    lambda c: (T.Vector2D(c.vec()), T.Vector2D(), T.Vector2D(x=c.d.num(), y=c.d.num())),
]


# ---------------------------------------------------------------- C05

def dval(a):
    return F(a.deg) if isinstance(a, A) else F(a)


def polar_tol(r, d):
    return abs(r) * (1e-12 + 4e-16 * abs(float(d))) + 1e-150


def check_polar(got, r, d, what='vector'):
    if abs(d) > 10 ** 9:
        return None
    c, s = cs(d)
    t = polar_tol(r, d)
    need(isinstance(got, V), lambda: f'{what} is {got!r}')
    close(got.x, float(r) * c, t, what + '.x')
    close(got.y, float(r) * s, t, what + '.y')
    m = d % 360
    return f'q{int(m // 90)}' + (' axis' if m % 90 == 0 else '') + (' null' if r == 0 else '') \
        + (' far' if abs(d) > 360 else '') + (' r<0' if r < 0 else '')


@contract('C05', 'Vector2D', 'set_polar', 'from_polar', 'polar2vector')
def _(e):
    r, d = e.args[0], dval(e.args[1])
    if 'set_polar' in e.name:
        need(e.after.ok == e.recv.ok, 'validity changed')
        return check_polar(e.after, r, d)
    need(isinstance(e.ret, V) and e.ret.ok, 'result is not a valid vector')
    return check_polar(e.ret, r, d)


@contract('C05', 'Vector2D', '__init__')
def _(e):
    if 'r' not in e.kw:
        return None
    need(e.after.ok, 'new vector is invalid')
    return check_polar(e.after, e.kw['r'], dval(e.kw['a']))


@contract('C05', 'Vector2D', 'th', 'dir')
def _(e):
    v = e.recv
    m = max(abs(v.x), abs(v.y))
    if 0.9e-6 < m < 1.1e-6 or not usable(v):
        return None
    need(isinstance(e.ret, A) and e.after == e.recv, 'direction is not an angle, or the vector changed')
    d = e.ret.deg
    need(finite(d) and -180 <= d <= 180, lambda: f'direction {d!r} outside [-180, 180]')
    if m < 1e-6:
        close(d, 0.0, 1e-12, 'direction of a null vector')
        return 'null'
    c, s = cs(F(d))
    h = math.hypot(v.x, v.y)
    need(abs(c * v.y - s * v.x) <= 1e-11 * h and c * v.x + s * v.y > 0,
         lambda: f'direction {d!r} is not that of {v!r}')
    return q(v)


@contract('C05', 'Vector2D', 'rotate', 'rotated_vector')
def _(e):
    v, d = e.recv, dval(e.args[0])
    if abs(d) > 10 ** 9 or not usable(v):
        return None
    if e.name.endswith('rotate'):
        need(e.raw_ret is e.obj, 'rotate did not return the receiver')
        got = e.after
        need(got.ok == v.ok, 'validity changed')
    else:
        need(e.after == e.recv and e.raw_ret is not e.obj, 'rotated_vector changed its receiver')
        got = e.ret
        need(isinstance(got, V) and (got.ok or not v.ok), 'not a valid vector')
    c, s = cs(d)
    t = polar_tol(math.hypot(v.x, v.y), d) * 4
    close(got.x, v.x * c - v.y * s, t, 'x')
    close(got.y, v.x * s + v.y * c, t, 'y')
    m = d % 360
    return f'q{int(m // 90)}' + (' axis' if m % 90 == 0 else '') + q(v)


@contract('C05', 'Vector2D', 'set_dir')
def _(e):
    if not usable(e.recv):
        return None
    need(e.after.ok == e.recv.ok, 'validity changed')
    return check_polar(e.after, math.hypot(e.recv.x, e.recv.y), dval(e.args[0]))


@contract('C05', 'Vector2D', 'set_length', 'set_length_vector', 'normalize', 'normalize_vector')
def _(e):
    v = e.recv
    n = e.name.split('.')[1]
    if not usable(v):
        return None
    want = 1.0 if 'normal' in n else e.args[0]
    r = math.hypot(v.x, v.y)
    if n.endswith('vector'):
        need(e.after == e.recv and e.raw_ret is not e.obj, 'receiver changed or returned')
        got = e.ret
        need(isinstance(got, V) and (got.ok or not v.ok), 'not a valid vector')
    else:
        got = e.after
        need(got.ok == v.ok, 'validity changed')
    if abs(r - 1e-6) < 1e-12:
        return None
    if r < 1e-6:
        need(got.x == v.x and got.y == v.y, 'a vector of length at most 1e-6 was changed')
        return 'tiny' if r else 'null'
    t = 1e-11 * abs(want) + 1e-150
    close(got.x, v.x / r * want, t, 'x')
    close(got.y, v.y / r * want, t, 'y')
    return q(v) + (' zero' if want == 0 else ' neg' if want < 0 else '')


def tinyvec(c):
    if c.d.chance(0.15):
        d = c.d
        s = d.pick((1e-9, 1e-7, 4e-7, 6e-7, 9e-7, 1.2e-6, 2e-6, 0.0))
        return T.Vector2D(s * d.pick((1, -1, 0, 0.5)), s * d.pick((1, -1, 0, 0.5)))
    return c.vec()


def _c5(name, *args):
    def f(c):
        a = tinyvec(c)
        r = getattr(a, name)(*[g(c) for g in args])
        _big(a)
        return r
    return f


g_ = lambda c: c.ang()
ln_ = lambda c: c.d.num(-1e4, 1e4) if c.d.chance(.3) else c.d.pos_num(1e4, True)

C05_OPS = [
    _c5('set_polar', ln_, g_), lambda c: T.Vector2D.from_polar(ln_(c), c.ang()),
    lambda c: T.Vector2D.polar2vector(ln_(c), c.ang()),
    lambda c: T.Vector2D(r=ln_(c), a=c.ang()),
    _c5('th'), _c5('dir'), _c5('th'),
    _c5('rotate', g_), _c5('rotated_vector', g_), _c5('set_dir', g_),
    _c5('set_length', ln_), _c5('set_length_vector', ln_), _c5('normalize'), _c5('normalize_vector'),
    _c5('rotate', g_), _c5('set_dir', g_), _c5('set_length', ln_),
    lambda c: api.mutate(c, 'V'),
]


# ---------------------------------------------------------------- C06

LO, HI = 0.9e-6, 1.1e-6


def weak(ds):
    """verdict on componentwise closeness: True, False or None in the band"""
    if any(d > HI for d in ds):
        return False
    if all(d < LO for d in ds):
        return True
    return None


def judge_eq(e, want, why):
    if want is None:
        return None
    need(bool(e.ret) == want, lambda: f'expected {want} ({why})')
    need(e.after == e.recv and e.args_after == e.args, 'comparing changed an operand')
    return f'{want}' + (' same object' if e.raw_args and e.raw_args[0] is e.obj else '')


@contract('C06', 'Vector2D', '__eq__', 'equals')
def _(e):
    o = e.args[0]
    want = isinstance(o, V) and o.x == e.recv.x and o.y == e.recv.y
    return judge_eq(e, want, 'coordinates compared exactly') + ('' if isinstance(o, V) else ' foreign')


@contract('C06', 'Vector2D', '__hash__')
def _(e):
    need(isinstance(e.ret, int), 'hash is not an int')
    h = e.ret if -2 ** 63 <= e.ret < 2 ** 63 else hash(e.ret)      # what hash() makes of it
    h = -2 if h == -1 else h
    twin = T.Vector2D(e.recv.x, e.recv.y)
    need(hash(twin) == h, 'an equal vector hashes differently')
    if isinstance(e.recv.x, float) and e.recv.x == int(e.recv.x):
        need(hash(T.Vector2D(int(e.recv.x), e.recv.y)) == h, 'an equal vector (integer x) hashes differently')
    if e.recv.x == 0:
        need(hash(T.Vector2D(-0.0, e.recv.y)) == h, 'an equal vector (-0.0) hashes differently')
    return q(e.recv)


def cd(a, b):
    return abs(float(F(a) - F(b)))


@contract('C06', 'Vector2D', 'equals_weakly')
def _(e):
    o = e.args[0]
    return judge_eq(e, weak((cd(e.recv.x, o.x), cd(e.recv.y, o.y))), 'within 1e-6')


@contract('C06', 'Segment2D', '__eq__')
def _(e):
    return judge_eq(e, tuple(e.recv) == tuple(e.args[0]), 'ends compared exactly')


@contract('C06', 'Segment2D', 'equals_weakly')
def _(e):
    return judge_eq(e, weak([cd(a, b) for a, b in zip(e.recv, e.args[0])]), 'ends within 1e-6')


@contract('C06', 'Size2D', '__eq__')
def _(e):
    return judge_eq(e, weak([cd(a, b) for a, b in zip(e.recv, e.args[0])]), 'within 1e-6')


@contract('C06', 'Matrix2D', '__eq__')
def _(e):
    return judge_eq(e, tuple(e.recv) == tuple(e.args[0]), 'elements compared exactly')


@contract('C06', 'AngleDeg', '__eq__')
def _(e):
    o = e.args[0].deg if isinstance(e.args[0], A) else e.args[0]
    if not -180 <= o <= 180:
        return None
    d = cd(e.recv.deg, o)
    if d > 359:
        return None
    return judge_eq(e, weak((d,)), 'degrees within 1e-6')


@contract('C06', 'Sector2D', '__eq__')
def _(e):
    a, b = e.recv, e.args[0]
    if cd(a.start, b.start) > 359 or cd(a.end, b.end) > 359:
        return None
    return judge_eq(e, weak([cd(x, y) for x, y in zip(a, b)]), 'components within 1e-6')


@contract('C06', 'Ray2D', '__eq__')
def _(e):
    a, b = e.recv, e.args[0]
    d = cd(a.deg, b.deg)
    d = min(d, 360 - d)
    w = weak((d,))
    if w is None:
        return None
    return judge_eq(e, w and a.x == b.x and a.y == b.y, 'origin exactly and direction within 1e-6')


@contract('C06', 'Line2D', '__eq__')
def _(e):
    a, b = e.recv, e.args[0]
    m = [F(a.a) * F(b.b) - F(b.a) * F(a.b), F(a.a) * F(b.c) - F(b.a) * F(a.c), F(a.b) * F(b.c) - F(b.b) * F(a.c)]
    err = F(8 * EPS) * max(abs(F(v)) for v in a) * max(abs(F(v)) for v in b)
    if max(abs(v) for v in m) > F(1e-5) + err:
        want = False
    elif all(v == 0 for v in m) and err < F(1e-7):
        want = True
    else:
        return None
    return judge_eq(e, want, 'same point set')


@contract('C06', 'Vector2D', 'is_valid', 'validate', 'invalidate', '__init__', 'copy', 'get_copy', 'set_vector', 'invalid')
def _(e):
    n = e.name.split('.')[1]
    if n == 'is_valid':
        need(e.ret is e.recv.ok or e.ret == e.recv.ok, 'validity differs')
        need(e.after == e.recv, 'is_valid changed the vector')
    elif n == 'validate':
        need(e.after == e.recv._replace(ok=True), 'validate')
    elif n == 'invalidate':
        need(e.after == e.recv._replace(ok=False), 'invalidate')
    elif n == 'invalid':
        need(isinstance(e.ret, V) and not e.ret.ok, 'invalid() gives a valid vector')
    elif n in ('copy', 'get_copy'):
        need(e.ret == e.recv, 'copy differs')
        return str(e.recv.ok)
    elif n == 'set_vector':
        need(e.after == e.args[0], 'set_vector')
        return str(e.after.ok)
    else:
        w = e.args[0].ok if e.args and isinstance(e.args[0], V) else True
        need(e.after.ok == w, f'new vector validity is {e.after.ok}')
        return str(w)
    return 'ok'


# the validity flag through the rest of the vector API: only the flag operations change it
@contract('C06', 'Vector2D', 'assign', 'set_x', 'set_y', 'set_x_y', 'set_polar', 'add', 'sub', 'scale',
          'reverse', 'set_length', 'normalize', 'rotate', 'set_dir', '__iadd__', '__isub__', '__imul__',
          '__itruediv__')
def _(e):
    need(e.after.ok == e.recv.ok, 'an edit of the coordinates changed the validity')
    return str(e.recv.ok)


DELTA = (0, 0, 1e-9, 5e-7, 8e-7, 1.3e-6, 2e-6, 1e-5, 1e-3, 1.0)


def near(c, x):
    """x or something a little off"""
    return x + c.d.pick(DELTA) * c.d.pick((1, -1))


def eq_vec(c):
    a = c.vec()
    k = c.d.i(0, 7)
    if k == 0:
        b = a
    elif k == 1:
        b = c.d.pick((None, 'x', 3, (a.x(), a.y()), [1], T.AngleDeg(0), T.Size2D(a.x(), a.y())))
        return a == b, a != b
    elif k == 2:
        b = T.Vector2D(float(a.x()), float(a.y()))
    elif k == 3:
        b = T.Vector2D(a.y(), a.x())
    elif k == 4:
        b = c.vec()
    else:
        b = T.Vector2D(near(c, a.x()), near(c, a.y()))
    MON.judge('Vector2D symmetry', 'strict', (a == b) == (b == a) and (a.equals(b) == b.equals(a)) and (a != b) == (not a == b),
              lambda: f'== is not symmetric or != is not its negation for {a} {b}')
    MON.judge('Vector2D symmetry', 'weak', a.equals_weakly(b) == b.equals_weakly(a), lambda: f'weak {a} {b}')
    if a == b:
        MON.judge('equal vectors hash', 'equal', hash(a) == hash(b) and a.equals_weakly(b) and len({a, b}) == 1,
                  lambda: f'{a} == {b} but hashes or weak equality differ')
    return hash(a)


def sym(label, a, b):
    MON.judge('symmetry and reflexivity', label, (a == b) == (b == a) and a == a and b == b,
              lambda: f'== of {label} is not symmetric or not reflexive: {a} {b}')


def eq_seg(c):
    a = c.seg()
    k = c.d.i(0, 4)
    s = snap(a)
    b = a if k == 0 else T.Segment2D(*[near(c, v) for v in s]) if k < 4 else c.seg()
    sym('segment', a, b)
    MON.judge('symmetry and reflexivity', 'segment weak', a.equals_weakly(b) == b.equals_weakly(a) and a.equals_weakly(a),
              lambda: f'{a} {b}')


def eq_misc(c):
    d = c.d
    k = d.i(0, 5)
    if k == 0:
        a = c.size()
        sym('size', a, T.Size2D(near(c, a.length()), near(c, a.width())))
    elif k == 1:
        a = c.matrix()
        m = list(snap(a))
        if d.chance(0.7):
            i = d.i(0, 5)
            m[i] = near(c, m[i])
        b = T.Matrix2D()
        b.assign(*m)
        sym('matrix', a, b)
    elif k == 2:
        a = c.angle()
        v = near(c, a.degree())
        b = T.AngleDeg(v) if d.chance(0.7) else v
        sym('angle', a, b)
    elif k == 3:
        a = c.sector()
        s = list(snap(a))
        if d.chance(0.8):
            i = d.i(0, 5)
            s[i] = near(c, s[i])
        b = T.Sector2D(T.Vector2D(s[0], s[1]), s[2], s[3], T.AngleDeg(s[4]), T.AngleDeg(s[5]))
        sym('sector', a, b)
    elif k == 4:
        a = c.ray()
        s = snap(a)
        b = T.Ray2D(T.Vector2D(s.x, near(c, s.y) if d.chance(.4) else s.y),
                    T.AngleDeg(near(c, s.deg) + d.pick((0, 0, 360, -360))))
        if d.chance(0.2):
            b = c.ray()
        sym('ray', a, b)
    else:
        a = c.line()
        s = snap(a)
        k = d.pick((1, 2, -1, 0.5, -4))
        t = [v * k for v in s]
        if d.chance(0.5):
            i = d.i(0, 2)
            t[i] = t[i] + d.pick((1, -1, 0.5, 0.01)) * d.pick((0, 1))
        if d.chance(0.15):
            t[2] = -t[2]
        b = T.Line2D(*t) if abs(t[0]) + abs(t[1]) > 1e-3 else c.line()
        (a == b), (b == a)
        if d.chance(0.3):
            a == c.line()


def flags(c):
    v = c.vec()
    w = c.vec()
    k = c.d.i(0, 9)
    if k == 0:
        v.invalidate()
    elif k == 1:
        v.validate()
    elif k == 2:
        v.is_valid()
    elif k == 3:
        v.copy()
    elif k == 4:
        v.get_copy()
    elif k == 5:
        v.set_vector(w)
    elif k == 6:
        T.Vector2D(v)
    elif k == 7:
        T.Vector2D.invalid().is_valid()
        T.Vector2D(x=1, y=2)
        T.Vector2D(r=1, a=2)
        T.Vector2D()
    else:
        c.d.pick(api.MUT['V'])(c, v)
        _big(v)


REQUIRED['C06'] = ['Vector2D symmetry', 'symmetry and reflexivity', 'equal vectors hash']
C06_OPS = [eq_vec, eq_vec, eq_seg, eq_misc, eq_misc, eq_misc, flags, flags, lambda c: api.mutate(c, 'V')]

OPS = {'C04': C04_OPS, 'C05': C05_OPS, 'C06': C06_OPS}
