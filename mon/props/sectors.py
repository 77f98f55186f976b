"""C25: sectors."""
import math

from ..core import *
from .. import target as T
from .. import api
from .. import exact as X
from .angles import degval, circ, cs
from .lines import vp


def sweep_of(k):
    return (F(k.end) - F(k.start)) % 360


def sw_class(s):
    return '0' if s == 0 else '<180' if s < 180 else '180' if s == 180 else '>180'


def int_deg(*v):
    return all(F(x).denominator <= 1024 for x in v)


@contract('C25', 'Sector2D', '__init__', 'assign')
def _(e):
    names = ('center', 'min_r', 'max_r', 'start', 'end')
    a = dict(zip(names, e.args))
    a.update(e.kw)
    ctr, lo, hi, st, en = (a[n] for n in names)
    k = e.after
    need((k.x, k.y) == (ctr.x, ctr.y), lambda: f'centre is ({k.x}, {k.y})')
    need(k.rmin == max(0, lo), lambda: f'inner radius is {k.rmin!r}, expected {max(0, lo)!r}')
    need(k.rmax == max(hi, lo, 0), lambda: f'outer radius is {k.rmax!r}, expected {max(hi, lo, 0)!r}')
    for g, w, n in ((k.start, st, 'start'), (k.end, en, 'end')):
        need(finite(g) and -180 <= g <= 180, lambda: f'{n} angle is {g!r}')
        E = degval(w)
        need(circ(F(g) - E) <= F(1e-9) + F(4 * EPS) * abs(E), lambda: f'{n} angle is {g!r}, expected {float(E)!r}')
    need(e.args_after == e.args, 'an argument changed')
    return ('negative inner ' if lo < 0 else '') + ('negative outer ' if hi < 0 else '') + ('swapped radii ' if lo > hi else '') + \
        ('A' if isinstance(st, A) else 'n') + ('A' if isinstance(en, A) else 'n')


@contract('C25', 'Sector2D', 'center', 'radius_min', 'radius_max', 'angle_left_start', 'angle_right_end')
def _(e):
    n = e.name.split('.')[1]
    k = e.recv
    need(e.after == k, 'the sector changed')
    if n == 'center':
        need(isinstance(e.ret, V) and (e.ret.x, e.ret.y) == (k.x, k.y), 'centre')
    elif n.startswith('angle'):
        need(isinstance(e.ret, A) and e.ret.deg == (k.start if 'start' in n else k.end), n)
    else:
        need(e.ret == (k.rmin if n.endswith('min') else k.rmax), n)
    return sw_class(sweep_of(k))


@contract('C25', 'Sector2D', 'area', 'get_circumference_min', 'get_circumference_max')
def _(e):
    k = e.recv
    need(e.after == k, 'the sector changed')
    s = sweep_of(k)
    if min(s, 360 - s) < F(1e-7) and not int_deg(k.start, k.end):
        return None
    frac = float(s) / 360
    n = e.name.split('.')[1]
    if n == 'area':
        w = math.pi * (k.rmax ** 2 - k.rmin ** 2) * frac
        tol = 1e-12 * (1 + k.rmax ** 2) * math.pi
    else:
        r = k.rmin if n.endswith('min') else k.rmax
        w = 2 * math.pi * r * frac
        tol = 1e-12 * (1 + r) * 7
    close(e.ret, w, tol, n)
    return sw_class(s) + (' seam' if k.start > k.end else '') + (' hollow' if k.rmin else '')


@contract('C25', 'Sector2D', 'contains')
def _(e):
    k = e.recv
    p = vp(e.args[0])
    need(e.after == k and e.args_after == e.args, 'an operand changed')
    d = X.sub(p, X.P(k.x, k.y))
    d2 = X.n2(d)
    lo, hi = F(k.rmin) ** 2, F(k.rmax) ** 2
    tol = F(1e-12) * (d2 + hi + X.mag(p) * (abs(d[0]) + abs(d[1])))
    if exactish(float(p[0]), float(p[1]), k.x, k.y, k.rmin, k.rmax):
        tol = F(0)
    if d2 < lo - tol or d2 > hi + tol:
        need(not e.ret, lambda: f'contains a point at distance {X.sqrt(d2)!r}')
        return 'nearer' if d2 < lo else 'farther'
    if tol and (d2 <= lo + tol or d2 >= hi - tol) and lo + tol > 0 and not (lo == 0 and d2 < hi - tol):
        return None
    s = sweep_of(k)
    if d2 == 0 and hi > 0 and int_deg(k.start, k.end) and 0 < -F(k.start) % 360 < s:
        # the centre of a sector without hole: on the wedge as a closed set, and by the convention that it has direction 0
        need(bool(e.ret), 'the centre is not contained')
        return 'centre'
    if d2 < F(1e-10):
        return None
    if (d[0] == 0 or d[1] == 0) and float(p[0] - F(k.x)) == d[0] and float(p[1] - F(k.y)) == d[1] \
            and F(p[0]) == F(float(p[0])):
        dirn = F(0 if d[0] > 0 else 180) if d[1] == 0 else F(90 if d[1] > 0 else -90)
        dt = F(0) if int_deg(k.start, k.end) else F(1e-9)
    else:
        dirn = F(math.degrees(math.atan2(float(d[1]), float(d[0]))))
        dt = F(1e-9) + F(64 * EPS * float(X.mag(p, X.P(k.x, k.y))) / X.sqrt(d2) * 57.3)
    off = (dirn - F(k.start)) % 360
    if dt and min(off, 360 - off, abs(off - s)) <= dt:
        return None
    if min(s, 360 - s) <= F(1e-9) and not int_deg(k.start, k.end):
        return None
    want = off <= s
    need(bool(e.ret) == want, lambda: f'expected {want}: direction {float(dirn)!r} and the sweep of {float(s)!r} from {k.start!r}')
    edge = ' rim' if d2 in (lo, hi) else ''
    edge += ' start' if off == 0 else ' end' if off == s else ''
    return f'{want} {sw_class(s)}' + (' seam' if k.start > k.end else '') + edge


def mksec(c):
    d = c.d
    if d.chance(.3):
        return c.sector()
    k = d.i(0, 5)
    lo = d.pick((0, 1, 2, 3, 0.5, d.pos_num(1e3, True), -1))
    w = d.pick((1, 2, 0, 5, 0.5, d.pos_num(1e3, True)))
    hi = max(lo, 0) + w if k else d.pick((d.pos_num(100, True), -d.pos_num(100, True)))
    s = c.ang() if d.chance(.5) else d.pick((0, 45, 90, -90, 180, -180, 135, 30, 170, -170))
    en = c.ang() if d.chance(.5) else d.pick((0, 45, 90, -90, 180, -180, 135, 30, 170, -170))
    if d.chance(.2):
        o = T.Sector2D(center=c.vec(), min_r=lo, max_r=hi, start=s, end=en)
    else:
        o = T.Sector2D(c.vec(), lo, hi, s, en)
    c.pool.setdefault('K', []).append(o)
    return o


def sec_pt(c, s):
    d = c.d
    k = d.i(0, 6)
    ctr = s.center()
    lo, hi = s.radius_min(), s.radius_max()
    if k == 0:
        return c.vec()
    if k == 1:
        r = d.pick((lo, hi, (lo + hi) / 2, 1, 2, 3))
        ux, uy = d.pick(((1, 0), (0, 1), (-1, 0), (0, -1)))
        return T.Vector2D(ctr.x() + r * ux, ctr.y() + r * uy)
    if k == 2:
        n = d.i(1, 4)
        ux, uy = d.pick(((3, 4), (4, -3), (-3, 4), (-4, -3), (5, 0), (0, -5)))
        return T.Vector2D(ctr.x() + n * ux, ctr.y() + n * uy)
    u = d.pick((0, 0.5, 1, 1.01, 0.99, -0.1, d.val(lambda q: q.uniform(-.3, 1.3), -1, 2)))
    r = lo + (hi - lo) * u
    v = d.pick((0.5, 0.01, 0.99, -0.01, 1.01, d.val(lambda q: q.uniform(-.3, 1.3), -1, 2)))
    sw = (s.angle_right_end().degree() - s.angle_left_start().degree()) % 360
    a = math.radians(s.angle_left_start().degree() + sw * v)
    return T.Vector2D(ctr.x() + r * math.cos(a), ctr.y() + r * math.sin(a))


def s_cont(c):
    s = mksec(c)
    p = sec_pt(c, s)
    if abs(p.x()) > 2e5 or abs(p.y()) > 2e5:
        return
    s.contains(p)


def s_assign(c):
    d = c.d
    lo = d.pick((0, 1, 2, -1, d.pos_num(1e3, True)))
    hi = d.pick((3, 5, 1, d.pos_num(1e3, True)))
    mksec(c).assign(c.vec(), lo, hi, c.ang(), c.ang())


def s_own(c):
    """assigned from its own parts"""
    k = mksec(c)
    two = (k.angle_left_start_(), k.angle_right_end_())
    k.assign(k.center_(), k.radius_min(), k.radius_max(), c.d.pick(two), c.d.pick(two))


def s_q(n):
    return lambda c: getattr(mksec(c), n)()


C25_OPS = [s_cont] * 7 + [s_assign] * 2 + [s_own] + [s_q(n) for n in
           ('area', 'area', 'get_circumference_min', 'get_circumference_max', 'center', 'radius_min', 'radius_max',
            'angle_left_start', 'angle_right_end')] + [lambda c: api.mutate(c, 'KVA')]
OPS = {'C25': C25_OPS}
