"""C07 C08: lines."""
import math

from ..core import *
from .. import target as T
from .. import api
from .. import exact as X
from .angles import cs
from .vectors import dval

PT = F(1e-11)


def fl(l):
    return F(l.a), F(l.b), F(l.c)


def good_line(l):
    return isinstance(l, L) and finite(*l) and (abs(l.a) > 0 or abs(l.b) > 0)


def resid(l, p):
    a, b, c = fl(l)
    return abs(a * p[0] + b * p[1] + c)


def on_line(l, p, extra=0, what='the point'):
    need(good_line(l), lambda: f'not a line: {l!r}')
    n = X.sqrt(F(l.a) ** 2 + F(l.b) ** 2)
    d = float(resid(l, p)) / n
    tol = float(PT) * (1 + float(X.mag(p))) + float(extra)
    need(d <= tol, lambda: f'{what} ({float(p[0])!r}, {float(p[1])!r}) is {d:.3g} off the line {l!r} (allowed {tol:.3g})')


def along(l, dx, dy, tol=1e-11):
    """the line runs in direction (dx, dy), given as a unit-ish vector"""
    n = math.hypot(l.a, l.b)
    h = math.hypot(dx, dy)
    s = abs(l.a / n * dx / h + l.b / n * dy / h)
    need(s <= tol, lambda: f'line {l!r} does not run in direction ({dx!r}, {dy!r}): sine {s:.3g}')


def vp(v):
    return X.P(v.x, v.y)


def dircls(l):
    return 'vertical' if abs(l.b) < 1e-12 else 'horizontal' if abs(l.a) < 1e-12 else 'oblique'


# ---------------------------------------------------------------- C07

def through_two(l, p, q):
    d = X.sub(q, p)
    if X.n2(d) == 0:
        return None
    on_line(l, p, what='first point')
    on_line(l, q, what='second point')
    return True


@contract('C07', 'Line2D', '__init__')
def _(e):
    l = e.after
    if len(e.args) == 2 and isinstance(e.args[1], V) or 'p1' in e.kw:
        p, q = (e.args if e.args else (e.kw['p1'], e.kw['p2']))
        if through_two(l, vp(p), vp(q)) is None:
            return None
        return 'points ' + dircls(l)
    if len(e.args) == 2 or 'p' in e.kw:
        p, d = (e.args if e.args else (e.kw['p'], e.kw['a']))
        d = dval(d)
        if abs(d) > 10 ** 9:
            return None
        on_line(l, vp(p))
        c, s = cs(d)
        along(l, c, s, 1e-11 + 4e-16 * float(abs(d)))
        return 'angle ' + dircls(l)
    if len(e.args) == 1 or 'l' in e.kw:
        o = e.args[0] if e.args else e.kw['l']
        need(l == o, 'copied line differs')
        return 'copy'
    w = e.args if e.args else (e.kw['a'], e.kw['b'], e.kw['c'])
    need(tuple(l) == tuple(w), 'coefficients differ')
    return 'coefficients'


@contract('C07', 'Line2D', 'copy')
def _(e):
    need(e.ret == e.recv and e.raw_ret is not e.obj, 'copied line differs')
    return dircls(e.recv)


@contract('C07', 'Segment2D', 'line')
def _(e):
    s = e.recv
    p, q = X.P(s.ox, s.oy), X.P(s.tx, s.ty)
    if X.dist(p, q) < 1e-9:
        return None
    through_two(e.ret, p, q)
    return dircls(e.ret)


@contract('C07', 'Ray2D', 'line')
def _(e):
    on_line(e.ret, X.P(e.recv.x, e.recv.y))
    along(e.ret, *cs(F(e.recv.deg)))
    return dircls(e.ret)


@contract('C07', 'Line2D', 'get_x', 'get_y')
def _(e):
    l = e.recv
    v = F(e.args[0])
    a, b, c = fl(l)
    if e.name.endswith('get_y'):
        a, b = b, a
    # solve a*x + b*v + c = 0 for x
    if abs(a) < F(0.9e-6):
        need(e.ret == 1e20, lambda: f'{e.ret!r} instead of the error value')
        return 'error value'
    if abs(a) < F(1.1e-6):
        return None
    want = -(b * v + c) / a
    close(e.ret, want, F(1e-11) * (1 + abs(want)) + F(16 * EPS) * (abs(b * v) + abs(c)) / abs(a), 'coordinate')
    return dircls(l)


@contract('C07', 'Line2D', 'perpendicular')
def _(e):
    l, p = e.recv, vp(e.args[0])
    if math.hypot(l.a, l.b) < 1e-6:
        return None
    on_line(e.ret, p)
    # a second point one normal away from p carries the rounding of p's coordinates
    along(e.ret, l.a, l.b, 1e-11 + 8 * EPS * float(X.mag(p)) / math.hypot(l.a, l.b))
    need(e.after == e.recv, 'receiver changed')
    return dircls(l)


def bisector(l, p, q):
    d = X.sub(q, p)
    if max(abs(d[0]), abs(d[1])) < F(1.1e-6):
        return None
    h = X.norm(d)
    m = float(X.mag(p, q))
    on_line(l, X.lerp(p, q, F(1, 2)), extra=16 * EPS * m * m / h, what='midpoint')
    along(l, -float(d[1]), float(d[0]), 1e-11 + 8 * EPS * m / h)
    return dircls(l) + (' short' if h < 1e-3 else '')


@contract('C07', 'Line2D', 'perpendicular_bisector')
def _(e):
    return bisector(e.ret, vp(e.args[0]), vp(e.args[1]))


@contract('C07', 'Segment2D', 'perpendicular_bisector')
def _(e):
    s = e.recv
    return bisector(e.ret, X.P(s.ox, s.oy), X.P(s.tx, s.ty))


@contract('C07', 'Line2D', 'angle_bisector')
def _(e):
    p, l, r = e.args
    l, r = dval(l), dval(r)
    if max(abs(l), abs(r)) > 10 ** 6:
        return None
    on_line(e.ret, vp(p))
    sweep = (l - r) % 360
    along(e.ret, *cs(r + sweep / 2), 1e-9)
    return ('reflex' if sweep > 180 else 'acute' if 0 < sweep < 180 else 'edge') + (' seam' if abs(l - r) > 180 else '')


def pq(c):
    p, q = c.vec(), c.vec()
    if p.dist(q) < 1e-6:
        q = T.Vector2D(p.x() + 1, p.y() - c.d.pick((0, 1)))
    return p, q


def bis(c):
    p = c.vec()
    if c.d.chance(0.7):
        q = c.vec()
    else:
        q = T.Vector2D(p.x() + c.d.pick((1e-5, -1e-4, 0.01, 0)), p.y() + c.d.pick((1e-5, 2e-4, 0.01)))
    return T.Line2D.perpendicular_bisector(p, q)


C07_OPS = [
    lambda c: c.line(False), lambda c: c.line(False),
    lambda c: T.Line2D(*pq(c)), lambda c: T.Line2D(c.vec(), c.ang()), lambda c: T.Line2D(c.vec(), c.angle()),
    lambda c: (lambda p: T.Line2D(p1=p[0], p2=p[1]))(pq(c)), lambda c: T.Line2D(p=c.vec(), a=c.ang()),
    lambda c: T.Line2D(c.line()), lambda c: T.Line2D(l=c.line()),
    lambda c: T.Line2D(a=1, b=c.d.num(), c=c.d.num()), lambda c: c.line().copy(),
    lambda c: c.seg().line(), lambda c: c.ray().line(),
    lambda c: c.line().get_x(c.d.num()), lambda c: c.line().get_y(c.d.num()),
    lambda c: c.line().get_x(c.vec().y()), lambda c: c.line().get_y(c.vec().x()),
    lambda c: c.line().perpendicular(c.vec()), bis, bis, lambda c: c.seg().perpendicular_bisector(),
    lambda c: T.Line2D.angle_bisector(c.vec(), c.angle(), c.angle()),
    lambda c: T.Line2D.angle_bisector(c.vec(), T.AngleDeg(c.d.deg(1e6)), T.AngleDeg(c.d.deg(1e6))),
    lambda c: api.mutate(c, 'VSA'),
]


# ---------------------------------------------------------------- C08

def lerr(l, p):
    a, b, c = fl(l)
    return F(8 * EPS) * (abs(a * p[0]) + abs(b * p[1]) + abs(c))


@contract('C08', 'Line2D', 'dist', 'dist2')
def _(e):
    l, p = e.recv, vp(e.args[0])
    n2 = F(l.a) ** 2 + F(l.b) ** 2
    if n2 < F(1e-12):
        return None
    r = resid(l, p)
    err = lerr(l, p)
    if e.name.endswith('2'):
        w = r * r / n2
        close(e.ret, w, F(1e-11) * w + (2 * r * err + err * err) / n2 + F(1e-300), 'squared distance')
    else:
        n = X.sqrt(n2)
        w = float(r) / n
        close(e.ret, w, 1e-11 * w + float(err) / n + 1e-300, 'distance')
    return 'on' if r == 0 else dircls(l)


def det_of(l1, l2):
    a1, b1, _ = fl(l1)
    a2, b2, _ = fl(l2)
    return a1 * b2 - a2 * b1, F(4 * EPS) * (abs(a1 * b2) + abs(a2 * b1))


def par(l1, l2):
    """True, False, or None within the tolerance band"""
    det, err = det_of(l1, l2)
    if abs(det) + err < F(1e-6):
        return True
    if abs(det) - err > F(1e-6):
        return False
    return None


@contract('C08', 'Line2D', 'is_parallel')
def _(e):
    w = par(e.recv, e.args[0])
    if w is None:
        return None
    need(bool(e.ret) == w, lambda: f'expected {w}: cross product {float(det_of(e.recv, e.args[0])[0])!r}')
    d = abs(det_of(e.recv, e.args[0])[0])
    return f'{w}' + (' exact' if d == 0 else ' near' if d < F(1e-4) else '')


def meet(l1, l2):
    """exact intersection point and its float error allowance"""
    a1, b1, c1 = fl(l1)
    a2, b2, c2 = fl(l2)
    det, derr = det_of(l1, l2)
    x = (b1 * c2 - b2 * c1) / det
    y = (a2 * c1 - a1 * c2) / det
    tx = F(1e-10) * (1 + abs(x)) + (F(16 * EPS) * (abs(b1 * c2) + abs(b2 * c1)) + 8 * derr * abs(x)) / abs(det)
    ty = F(1e-10) * (1 + abs(y)) + (F(16 * EPS) * (abs(a1 * c2) + abs(a2 * c1)) + 8 * derr * abs(y)) / abs(det)
    return (x, y), (tx, ty)


def judge_meet(e, l1, l2):
    w = par(l1, l2)
    if w is None:
        return None
    need(isinstance(e.ret, V), lambda: f'result is {e.ret!r}')
    if w:
        need(not e.ret.ok, 'parallel lines gave a valid point')
        return 'parallel'
    need(e.ret.ok, 'lines that are not parallel gave an invalid point')
    (x, y), (tx, ty) = meet(l1, l2)
    close(e.ret.x, x, tx, 'x')
    close(e.ret.y, y, ty, 'y')
    return dircls(l1) + '/' + dircls(l2)


@contract('C08', 'Line2D', 'intersection')
def _(e):
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    return judge_meet(e, e.recv, e.args[0])


@contract('C08', 'Line2D', 'line_intersection')
def _(e):
    return judge_meet(e, *e.args)


@contract('C08', 'Line2D', 'projection')
def _(e):
    l, p = e.recv, vp(e.args[0])
    a, b, c = fl(l)
    n2 = a * a + b * b
    if n2 < F(1.1e-6):
        return None
    need(isinstance(e.ret, V) and e.ret.ok, lambda: f'projection is {e.ret!r}')
    t = (a * p[0] + b * p[1] + c) / n2
    f = (p[0] - a * t, p[1] - b * t)
    m = X.mag(p, f)
    tol = F(1e-10) * (1 + m) + F(32 * EPS) * (abs(c) * (abs(a) + abs(b)) / n2 + m)
    close(e.ret.x, f[0], tol, 'x')
    close(e.ret.y, f[1], tol, 'y')
    return 'on' if t == 0 else dircls(l)


def par_line(c, l):
    """a line (nearly) parallel to l"""
    d = c.d
    a, b, cc = snap(l)
    k = d.pick((1, -1, 2, 0.5))
    i = d.i(0, 4)
    if i == 0:
        return T.Line2D(a * k, b * k, cc * k)
    if i == 1:
        return T.Line2D(a * k, b * k, d.num())
    if i == 2:
        return T.Line2D(a * k + d.pick((1e-7, 1e-6, 1e-5, 1e-3)), b * k, d.num())
    if i == 3:
        return T.Line2D(b, -a, d.num())
    return T.Line2D(b, a, cc)


def two(c):
    l = c.line()
    k = c.d.i(0, 5)
    if k == 0:
        return l, l
    if k <= 2:
        return l, par_line(c, l)
    return l, c.line()


def onpt(c, l):
    """a point on or near the line"""
    a, b, cc = snap(l)
    n2 = a * a + b * b
    if c.d.chance(0.6) or n2 < 1e-6 or abs(cc) / math.sqrt(n2) > 1e5:
        return c.vec()
    t = c.d.num(-1000, 1000)
    return T.Vector2D(-a * cc / n2 + b * t, -b * cc / n2 - a * t)


def pcall(name):
    def f(c):
        l = c.line()
        p = onpt(c, l)
        if abs(p.x()) > 1e6 or abs(p.y()) > 1e6:
            p = c.vec()
        return getattr(l, name)(p)
    return f


def agree(c):
    """whichever operand asks"""
    a, b = two(c)
    p, q = a.intersection(b), b.intersection(a)
    if par(snap(a), snap(b)) is not None:
        MON.judge('Line2D.intersection order', 'meet' if p.is_valid() else 'none', p.is_valid() == q.is_valid(),
                  lambda: f'{a} {b}: one order gives a point, the other does not')
        MON.judge('Line2D.is_parallel order', str(p.is_valid()), a.is_parallel(b) == b.is_parallel(a) == (not p.is_valid()),
                  lambda: f'{a} {b}: is_parallel and intersection disagree')


REQUIRED['C08'] = ['Line2D.intersection order', 'Line2D.is_parallel order']
C08_OPS = [
    pcall('dist'), pcall('dist2'), pcall('projection'), pcall('projection'),
    lambda c: (lambda t: t[0].is_parallel(t[1]))(two(c)),
    lambda c: (lambda t: t[0].intersection(t[1]))(two(c)),
    lambda c: T.Line2D.line_intersection(*two(c)), agree,
    lambda c: api.mutate(c, 'VA'),
]

OPS = {'C07': C07_OPS, 'C08': C08_OPS}
