"""C09 C10 C11 segments, C12 rays."""
import math

from ..core import *
from .. import target as T
from .. import api
from .. import exact as X
from .angles import cs, circ
from .vectors import dval
from .lines import fl, vp, on_line, along, par_line


def ends(s):
    return X.P(s.ox, s.oy), X.P(s.tx, s.ty)


def ext(*pts):
    return max(max(p[i] for p in pts) - min(p[i] for p in pts) for i in (0, 1))


def is_exact(*pts):
    return exactish(*[v for p in pts for v in (float(p[0]), float(p[1]))]) and \
        all(F(float(p[0])) == p[0] and F(float(p[1])) == p[1] for p in pts)


def four(a, b, c, d):
    return X.area2(a, b, c), X.area2(a, b, d), X.area2(c, d, a), X.area2(c, d, b)


def areas_clear(a, b, c, d):
    """are all four orientations far enough from zero for doubles"""
    m = X.mag(a, b, c, d)
    D = ext(a, b, c, d)
    tol = F(16 * EPS) * m * D
    return all(abs(v) > tol for v in four(a, b, c, d))


def seg_seg_dist(a, b, c, d):
    if X.segs_meet(a, b, c, d):
        return 0.0
    return X.sqrt(min(X.seg_dist2(a, b, c), X.seg_dist2(a, b, d), X.seg_dist2(c, d, a), X.seg_dist2(c, d, b)))


def position(a, b, c, d):
    """name of the relative position"""
    za, zc = a == b, c == d
    if za or zc:
        k = 'point/point' if za and zc else 'point/segment'
    else:
        s = four(a, b, c, d)
        if all(v == 0 for v in s):
            k = 'collinear'
        elif X.cross(X.sub(b, a), X.sub(d, c)) == 0:
            k = 'parallel'
        elif a in (c, d) or b in (c, d):
            k = 'shared end'
        elif 0 in s and X.segs_meet(a, b, c, d):
            k = 'touch'
        else:
            k = 'general'
    return k + (' meet' if X.segs_meet(a, b, c, d) else ' apart')


# ---------------------------------------------------------------- C09

@contract('C09', 'Segment2D', 'exist_intersection')
def _(e):
    a, b = ends(e.recv)
    o = e.args[0]
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    if isinstance(o, L):
        la, lb, lc = fl(o)
        r0, r1 = la * a[0] + lb * a[1] + lc, la * b[0] + lb * b[1] + lc
        want = r0 * r1 <= 0
        if not (is_exact(a, b) and exactish(o.a, o.b) and exactish(o.c, bits=20, mag=1 << 24)):
            err = F(8 * EPS) * max(abs(la * p[0]) + abs(lb * p[1]) + abs(lc) for p in (a, b))
            if abs(r0) <= err or abs(r1) <= err:
                return None
        need(bool(e.ret) == want, lambda: f'expected {want}: line values at the ends {float(r0)!r} {float(r1)!r}')
        return 'line ' + ('end' if r0 * r1 == 0 else 'cross' if want else 'apart')
    c, d = ends(o)
    want = X.segs_meet(a, b, c, d)
    strict = is_exact(a, b, c, d)
    shared = a in (c, d) or b in (c, d)
    if not (strict or shared or areas_clear(a, b, c, d)):
        far = F(1e-6) * (1 + X.mag(a, b, c, d))
        if want or seg_seg_dist(a, b, c, d) < far:
            return None
    need(bool(e.ret) == want, lambda: f'expected {want} ({position(a, b, c, d)})')
    return position(a, b, c, d) + (' exact' if strict else '')


@contract('C09', 'Segment2D', 'exist_intersection_except_endpoint', 'intersects_except_endpoint')
def _(e):
    a, b = ends(e.recv)
    c, d = ends(e.args[0])
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    want = X.segs_cross(a, b, c, d)
    strict = is_exact(a, b, c, d)
    shared = a in (c, d) or b in (c, d)
    if not (strict or shared or areas_clear(a, b, c, d)):
        return None
    need(bool(e.ret) == want, lambda: f'expected {want} ({position(a, b, c, d)})')
    return position(a, b, c, d) + f' {want}' + (' exact' if strict else '')


def rel_seg(c, s):
    """a segment in a special position to s"""
    d = c.d
    o, t = s.origin(), s.terminal()
    k = d.i(0, 9)

    def at(u):
        return T.Vector2D(o.x() + (t.x() - o.x()) * u, o.y() + (t.y() - o.y()) * u)
    U = (0, 1, 0.5, 0.25, -0.5, 1.5, 2, -1, 0.75, 3)
    if k <= 2:        # along the same line
        return T.Segment2D(at(d.pick(U)), at(d.pick(U)))
    if k <= 4:        # starting on it
        return T.Segment2D(at(d.pick(U)), c.vec()) if d.chance(.5) else T.Segment2D(c.vec(), at(d.pick(U)))
    if k == 5:        # parallel
        x, y = d.pick((0, 1, -1, 0.5, 2)), d.pick((0, 1, -1, 0.5))
        p, q = at(d.pick(U)), at(d.pick(U))
        return T.Segment2D(p.x() + x, p.y() + y, q.x() + x, q.y() + y)
    if k == 6:        # a point
        p = at(d.pick(U))
        if d.chance(.4):
            p = T.Vector2D(p.x() + d.pick((0, 1, -1, 0.5)), p.y() + d.pick((0, 1, 2)))
        return T.Segment2D(p, p)
    if k == 7:        # crossing at a point of it
        p = at(d.pick(U))
        x, y = d.num(-50, 50), d.num(-50, 50)
        u = d.pick((1, 0.5, 2, 0))
        return T.Segment2D(p.x() + x, p.y() + y, p.x() - u * x, p.y() - u * y)
    if k == 8:
        return T.Segment2D(t, o) if d.chance(.5) else T.Segment2D(o, t)
    return c.seg()


def pair(c):
    s = c.seg()
    if c.d.chance(0.6):
        r = rel_seg(c, s)
        if max(abs(v) for v in snap(r)) > 1e6:
            return s, c.seg()
        if c.d.chance(0.3):
            c.pool.setdefault('S', []).append(r)
        return (s, r) if c.d.chance(.5) else (r, s)
    return s, c.seg()


def line_for(c, s):
    k = c.d.i(0, 6)
    sn = snap(s)
    o, t = s.origin(), s.terminal()
    if k == 0 and s.length() > 1e-6:
        return s.line()
    if k == 1 and s.length() > 1e-6:
        return s.line().perpendicular(c.vec())
    if k == 2:
        return T.Line2D(o if c.d.chance(.5) else t, c.ang())
    if k == 3:
        q = c.vec()
        p = o if c.d.chance(.5) else t
        if p.dist(q) > 1e-6:
            return T.Line2D(p, q)
    if k == 4:
        l = T.Line2D(0, 1, -c.d.pick((sn.oy, sn.ty))) if c.d.chance(.5) else T.Line2D(1, 0, -c.d.pick((sn.ox, sn.tx)))
        return l
    return c.line()


def order_free(c):
    a, b = pair(c)
    A1, B1 = ends(snap(a)), ends(snap(b))
    pts = A1 + B1
    if not (is_exact(*pts) or areas_clear(*pts)):
        return
    ra, rb = a.reversed_segment(), b.reversed_segment()
    r = {x.exist_intersection(y) for x, y in ((a, b), (b, a), (ra, b), (a, rb), (rb, ra))}
    q = {x.exist_intersection_except_endpoint(y) for x, y in ((a, b), (b, a), (ra, b), (a, rb), (rb, ra))}
    MON.judge('Segment2D order of operands', position(*pts), len(r) == 1 and len(q) == 1,
              lambda: f'{a} {b}: the answer depends on the order of operands or ends')


REQUIRED['C09'] = ['Segment2D order of operands']
_s2 = lambda name: (lambda c: (lambda p: getattr(p[0], name)(p[1]))(pair(c)))
C09_OPS = [_s2('exist_intersection')] * 4 + [
    _s2('exist_intersection_except_endpoint'), _s2('exist_intersection_except_endpoint'),
    _s2('intersects_except_endpoint'), order_free,
    lambda c: (lambda s: s.exist_intersection(line_for(c, s)))(c.seg()),
    lambda c: api.mutate(c, 'SV'),
]


# ---------------------------------------------------------------- C10

def box_state(v, o, t, tol):
    """is coordinate v inside [o, t] by the product rule: True, False, None"""
    f = (v - o) * (v - t)
    w = abs(t - o)
    slack = 2 * tol * (w + tol)
    if f > F(1e-8) + slack:
        return False
    if f <= 0 and (f <= -slack or slack < F(0.5e-9)):
        return True
    return None


@contract('C10', 'Segment2D', 'contains')
def _(e):
    o, t = ends(e.recv)
    p = vp(e.args[0])
    st = [box_state(p[i], o[i], t[i], F(4 * EPS) * X.mag(o, t, p)) for i in (0, 1)]
    inside = all(min(o[i], t[i]) <= p[i] <= max(o[i], t[i]) for i in (0, 1))
    if inside:
        want = True
    elif False in st:
        want = False
    else:
        return None
    need(bool(e.ret) == want, lambda: f'expected {want}')
    edge = any(p[i] in (o[i], t[i]) for i in (0, 1))
    return f'{want}' + (' edge' if edge else '')


def seg_line(s):
    o, t = ends(s)
    a, b = -(t[1] - o[1]), t[0] - o[0]
    c = -a * o[0] - b * o[1]
    return (a, b, c), abs(a * o[0]) + abs(b * o[1])


def meet2(l1, m1, l2, m2):
    """exact crossing of two lines and the float allowance; m = magnitude of c before cancellation"""
    a1, b1, c1 = l1
    a2, b2, c2 = l2
    det = a1 * b2 - a2 * b1
    derr = F(8 * EPS) * (abs(a1) + abs(b1)) * (abs(a2) + abs(b2))
    if abs(det) + derr < F(1e-6):
        return 'parallel', None, None
    if abs(det) - derr < F(1e-6):
        return None, None, None
    x, y = (b1 * c2 - b2 * c1) / det, (a2 * c1 - a1 * c2) / det
    k = F(16 * EPS)
    tx = F(1e-12) * (1 + abs(x)) + (k * (abs(b1) * m2 + abs(b2) * m1) + 2 * derr * abs(x)) / abs(det)
    ty = F(1e-12) * (1 + abs(y)) + (k * (abs(a1) * m2 + abs(a2) * m1) + 2 * derr * abs(y)) / abs(det)
    return 'point', (x, y), (tx, ty)


def inside_seg(s, p, tol):
    o, t = ends(s)
    st = [box_state(p[i], o[i], t[i], tol[i]) for i in (0, 1)]
    return False if False in st else None if None in st else True


@contract('C10', 'Segment2D', 'intersection')
def _(e):
    s = e.recv
    o = e.args[0]
    need(isinstance(e.ret, V), lambda: f'result is {e.ret!r}')
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    l1, m1 = seg_line(s)
    if isinstance(o, L):
        l2 = fl(o)
        kind, p, tol = meet2(l1, m1, l2, abs(l2[2]))
        if kind is None:
            return None
        if kind == 'parallel':
            need(not e.ret.ok, 'parallel operands gave a valid point')
            return 'line parallel'
        st = inside_seg(s, p, tol)
        if st is None:
            return None
        need(e.ret.ok == st, lambda: f'expected {"the point" if st else "no point"} near ({float(p[0])!r}, {float(p[1])!r})')
        if st:
            close(e.ret.x, p[0], tol[0] + F(1e-9), 'x')
            close(e.ret.y, p[1], tol[1] + F(1e-9), 'y')
        return f'line {st}' + (' end' if p in ends(s) else '')
    allow = bool(e.args[1]) if len(e.args) > 1 else False
    l2, m2 = seg_line(o)
    kind, p, tol = meet2(l1, m1, l2, m2)
    a, b = ends(s)
    c, d = ends(o)
    if kind is None:
        return None
    if kind == 'parallel':
        need(not e.ret.ok, 'parallel or collinear operands gave a valid point')
        return 'parallel' + (f' allow={allow}')
    st1, st2 = inside_seg(s, p, tol), inside_seg(o, p, tol)
    if st1 is False or st2 is False:
        want = False
    elif st1 is None or st2 is None:
        return None
    else:
        want = True
    touch = not X.segs_cross(a, b, c, d)
    if want and not allow:
        if not (is_exact(a, b, c, d) or areas_clear(a, b, c, d) or a in (c, d) or b in (c, d)):
            return None
        want = not touch
    need(e.ret.ok == want, lambda: f'expected {"a" if want else "no"} point (allow end points: {allow}; {position(a, b, c, d)})')
    if want:
        close(e.ret.x, p[0], tol[0] + F(1e-9), 'x')
        close(e.ret.y, p[1], tol[1] + F(1e-9), 'y')
    return position(a, b, c, d) + f' allow={allow} {want}'


def c10_seg(c):
    a, b = pair(c)
    k = c.d.i(0, 2)
    return a.intersection(b) if k == 0 else a.intersection(b, k == 1)


def near_pt(c, s):
    d = c.d
    o, t = s.origin(), s.terminal()
    k = d.i(0, 4)
    if k == 0:
        return c.vec()
    u = d.pick((0, 1, 0.5, 0.25, -0.5, 1.5, d.val(lambda r: r.uniform(-1, 2), -1, 2)))
    x, y = o.x() + (t.x() - o.x()) * u, o.y() + (t.y() - o.y()) * u
    if k == 1:
        return T.Vector2D(x, y)
    if k == 2:
        return T.Vector2D(o.x(), t.y()) if d.chance(.5) else T.Vector2D(t.x(), y)
    w = d.pick((1, -1, 0.5, 1e-3, 1e-5, 2e-6, 4e-7, -1e-7, 0, 10))
    L_ = s.length() or 1
    return T.Vector2D(x - (t.y() - o.y()) / L_ * w, y + (t.x() - o.x()) / L_ * w)


C10_OPS = [c10_seg] * 5 + [
    lambda c: (lambda s: s.intersection(line_for(c, s)))(c.seg()),
    lambda c: (lambda s: s.intersection(line_for(c, s)))(c.seg()),
    lambda c: (lambda s: s.contains(near_pt(c, s)))(c.seg()),
    lambda c: (lambda s: s.contains(near_pt(c, s)))(c.seg()),
    lambda c: api.mutate(c, 'SV'),
]


# ---------------------------------------------------------------- C11

def stol(a, b, p):
    m = float(X.mag(a, b, p))
    l = X.dist(a, b)
    return 1e-11 * (1 + m) + (16 * EPS * m * float(ext(a, b, p)) / l if l else 0)


def foot_class(a, b, p):
    l2 = X.n2(X.sub(b, a))
    if l2 == 0:
        return 'zero length'
    t = X.dot(X.sub(p, a), X.sub(b, a)) / l2
    on = X.area2(a, b, p) == 0
    k = 'before' if t < 0 else 'origin' if t == 0 else 'inside' if t < 1 else 'terminal' if t == 1 else 'beyond'
    return k + (' on line' if on else '')


@contract('C11', 'Segment2D', 'nearest_point')
def _(e):
    a, b = ends(e.recv)
    p = vp(e.args[0])
    need(isinstance(e.ret, V) and e.ret.ok, lambda: f'nearest point is {e.ret!r}')
    n = X.nearest_on_seg(a, b, p)
    t = stol(a, b, p)
    close(e.ret.x, n[0], t, 'x')
    close(e.ret.y, n[1], t, 'y')
    return foot_class(a, b, p)


@contract('C11', 'Segment2D', 'dist')
def _(e):
    a, b = ends(e.recv)
    o = e.args[0]
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    if isinstance(o, V):
        p = vp(o)
        w = X.sqrt(X.seg_dist2(a, b, p))
        close(e.ret, w, stol(a, b, p), 'distance')
        if w == 0 and is_exact(a, b, p):
            need(e.ret == 0, 'distance to a point of the segment is not zero')
        return 'point ' + foot_class(a, b, p)
    c, d = ends(o)
    w = seg_seg_dist(a, b, c, d)
    t = max(stol(a, b, c), stol(a, b, d), stol(c, d, a), stol(c, d, b))
    close(e.ret, w, t, 'distance')
    if is_exact(a, b, c, d) or areas_clear(a, b, c, d):
        need((e.ret == 0) == (w == 0), 'distance is zero exactly for segments that meet')
    return 'segment ' + position(a, b, c, d)


@contract('C11', 'Segment2D', 'farthest_dist')
def _(e):
    a, b = ends(e.recv)
    p = vp(e.args[0])
    w = max(X.dist(a, p), X.dist(b, p))
    close(e.ret, w, 1e-12 * (1 + float(X.mag(a, b, p))), 'farthest distance')
    return 'origin' if X.n2(X.sub(a, p)) > X.n2(X.sub(b, p)) else 'terminal'


@contract('C11', 'Segment2D', 'length')
def _(e):
    a, b = ends(e.recv)
    close(e.ret, X.dist(a, b), 1e-12 * (1 + float(X.mag(a, b))), 'length')
    return 'zero' if a == b else 'positive'


@contract('C11', 'Segment2D', 'direction')
def _(e):
    a, b = ends(e.recv)
    d = X.sub(b, a)
    m = max(abs(d[0]), abs(d[1]))
    if m < F(1e-5):
        return None
    need(isinstance(e.ret, A), 'direction is not an angle')
    c, s = cs(F(e.ret.deg))
    x, y = float(d[0]), float(d[1])
    h = math.hypot(x, y)
    need(abs(c * y - s * x) <= 1e-10 * h * (1 + float(X.mag(a, b)) / h * 1e-4) and c * x + s * y > 0,
         lambda: f'direction {e.ret.deg!r} does not lead from origin to terminal')
    return f'{sgn(d[0])}{sgn(d[1])}'


@contract('C11', 'Segment2D', 'projection')
def _(e):
    a, b = ends(e.recv)
    p = vp(e.args[0])
    l = X.dist(a, b)
    if l < 1.1e-6:
        return None
    need(isinstance(e.ret, V), lambda: f'projection is {e.ret!r}')
    d = X.sub(b, a)
    ip = float(X.dot(X.sub(p, a), d)) / l
    err = 1e-9 + 16 * EPS * float(X.mag(a, b, p))
    k = foot_class(a, b, p)
    if ip < -1e-6 - err or ip > l + 1e-6 + err:
        need(not e.ret.ok, 'the foot is beyond an end but the projection is valid')
        return 'none ' + k
    if ip < -err or ip > l + err:
        return None
    need(e.ret.ok, 'the foot is on the segment but the projection is invalid')
    f = X.lerp(a, b, X.dot(X.sub(p, a), d) / X.n2(d))
    t = stol(a, b, p)
    close(e.ret.x, f[0], t, 'x')
    close(e.ret.y, f[1], t, 'y')
    return k


@contract('C11', 'Segment2D', 'on_segment')
def _(e):
    a, b = ends(e.recv)
    p = vp(e.args[0])
    want = X.on_seg(a, b, p)
    if not (is_exact(a, b, p) or p in (a, b)):
        if want or X.sqrt(X.seg_dist2(a, b, p)) < 1e-6 * (1 + float(X.mag(a, b, p))):
            return None
    need(bool(e.ret) == want, lambda: f'expected {want}')
    return f'{want} ' + foot_class(a, b, p)


@contract('C11', 'Segment2D', 'on_segment_weakly')
def _(e):
    a, b = ends(e.recv)
    p = vp(e.args[0])
    l = X.dist(a, b)
    if 0 < l < 1e-5:
        return None
    d = X.sqrt(X.seg_dist2(a, b, p))
    t = stol(a, b, p)
    if t > 1e-7:
        return None
    if d > 3e-6:
        want = False
    else:
        if l:
            u = X.dot(X.sub(p, a), X.sub(b, a)) / X.n2(X.sub(b, a))
            if not 0 <= u <= 1:
                return None
        if d < 0.5e-6:
            want = True
        else:
            return None
    need(bool(e.ret) == want, lambda: f'expected {want}: distance {d:.3g}')
    return f'{want} ' + foot_class(a, b, p)


_sp = lambda name: (lambda c: (lambda s: getattr(s, name)(near_pt(c, s)))(c.seg()))
C11_OPS = [_sp('nearest_point'), _sp('nearest_point'), _sp('dist'), _sp('dist'), _sp('farthest_dist'),
           _sp('projection'), _sp('projection'), _sp('on_segment'), _sp('on_segment'),
           _sp('on_segment_weakly'), _sp('on_segment_weakly'), _s2('dist'), _s2('dist'), _s2('dist'),
           lambda c: c.seg().length(), lambda c: c.seg().direction(),
           lambda c: api.mutate(c, 'SV')]


# ---------------------------------------------------------------- C12

def rayv(r):
    return X.P(r.x, r.y), cs(F(r.deg))


@contract('C12', 'Ray2D', '__init__')
def _(e):
    p = e.args[0]
    need(e.after.x == p.x and e.after.y == p.y, 'ray does not start at its origin')
    d = e.args[1]
    if isinstance(d, V):
        v = X.sub(vp(d), vp(p))
        m = max(abs(v[0]), abs(v[1]))
        if m < F(1e-5):
            return None
        c, s = cs(F(e.after.deg))
        x, y = float(v[0]), float(v[1])
        h = math.hypot(x, y)
        t = 1e-10 + 4 * EPS * float(X.mag(vp(p), vp(d))) / h
        need(abs(c * y - s * x) <= t * h and c * x + s * y > 0, lambda: f'direction {e.after.deg!r} misses the second point')
        return f'point {sgn(v[0])}{sgn(v[1])}'
    E = dval(d)
    if abs(E) > 10 ** 9:
        return None
    need(circ(F(e.after.deg) - E) < F(1e-9) + F(4 * EPS) * abs(E), lambda: f'direction {e.after.deg!r}, expected {float(E)!r}')
    return 'angle' + (' far' if abs(E) > 180 else '')


@contract('C12', 'Ray2D', 'origin', 'dir', 'copy')
def _(e):
    n = e.name.split('.')[1]
    w = V(e.recv.x, e.recv.y, True) if n == 'origin' else A(e.recv.deg) if n == 'dir' else e.recv
    need(e.ret == w, lambda: f'{n} differs')
    return 'ok'


@contract('C12', 'Ray2D', 'line')
def _(e):
    on_line(e.ret, X.P(e.recv.x, e.recv.y))
    along(e.ret, *cs(F(e.recv.deg)))
    return 'ok'


@contract('C12', 'Ray2D', 'in_right_dir')
def _(e):
    o, (c, s) = rayv(e.recv)
    p = vp(e.args[0])
    thr = e.args[1] if len(e.args) > 1 else e.kw.get('thr', 10.0)
    v = X.sub(p, o)
    h = X.norm(v)
    if h < 1e-5:
        return None
    x, y = float(v[0]), float(v[1])
    dev = abs(math.degrees(math.atan2(c * y - s * x, c * x + s * y)))
    tol = 1e-7 + math.degrees(4 * EPS * float(X.mag(o, p)) / h)
    if abs(dev - thr) <= tol:
        return None
    want = dev < thr
    need(bool(e.ret) == want, lambda: f'expected {want}: deviation {dev!r}, threshold {thr!r}')
    seam = abs(e.recv.deg - math.degrees(math.atan2(y, x))) > 180
    return f'{want}' + (' seam' if seam else '') + ('' if len(e.args) > 1 or e.kw else ' default') + \
        (' close' if abs(dev - thr) < 1 else '')


def ray_hit(o, d, l2, m2):
    """crossing of the ray line (origin, unit direction) with a line: parameter, point, allowance"""
    dx, dy = F(d[0]), F(d[1])
    a2, b2, c2 = l2
    nn = X.sqrt(a2 * a2 + b2 * b2)
    den = a2 * dx + b2 * dy
    if abs(den) < F(0.9e-6):
        if abs(den) + F(1e-14 * nn) < F(0.9e-6):
            return 'parallel', None, None, None
        return None, None, None, None
    if abs(den) < F(1.1e-6) or abs(den) < F(1e-6 * nn):
        return None, None, None, None
    t = -(a2 * o[0] + b2 * o[1] + c2) / den
    p = (o[0] + t * dx, o[1] + t * dy)
    m = float(X.mag(o, p)) + abs(float(t))
    tol = 1e-10 * (1 + m) + 32 * EPS * (nn * m + float(m2)) / float(abs(den)) * (1 + nn / float(abs(den)) * 0)
    return 'point', t, p, tol


def ahead(t, tol):
    return None if abs(t) < F(1e-4) or abs(t) < 20 * F(tol) else t > 0


@contract('C12', 'Ray2D', 'intersection')
def _(e):
    o, d = rayv(e.recv)
    other = e.args[0]
    need(isinstance(e.ret, V), lambda: f'result is {e.ret!r}')
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    if isinstance(other, L):
        l2 = fl(other)
        kind, t, p, tol = ray_hit(o, d, l2, abs(l2[2]))
        if kind is None:
            return None
        if kind == 'parallel':
            need(not e.ret.ok, 'parallel operands gave a valid point')
            return 'line parallel'
        w = ahead(t, tol)
        if w is None:
            return None
        lab = 'line '
    else:
        o2, d2 = rayv(other)
        l2 = (F(-d2[1]), F(d2[0]))
        l2 = l2 + (-(l2[0] * o2[0] + l2[1] * o2[1]),)
        m2 = X.mag(o2)
        kind, t, p, tol = ray_hit(o, d, l2, 2 * m2)
        if kind is None:
            return None
        if kind == 'parallel':
            need(not e.ret.ok, 'parallel rays gave a valid point')
            return 'ray parallel'
        u = (p[0] - o2[0]) * F(d2[0]) + (p[1] - o2[1]) * F(d2[1])
        w1, w2 = ahead(t, tol), ahead(u, tol)
        if w1 is False or w2 is False:
            w = False
        elif w1 is None or w2 is None:
            return None
        else:
            w = True
        lab = f'ray {"+" if w1 else "-"}{"+" if w2 else "-"} '
    need(e.ret.ok == w, lambda: f'expected {"the point" if w else "no point"} ({float(p[0])!r}, {float(p[1])!r}) at {float(t)!r} along the ray')
    if w:
        close(e.ret.x, p[0], tol, 'x')
        close(e.ret.y, p[1], tol, 'y')
    return lab + str(w)


def ray_pt(c, r):
    """a point around the direction of the ray"""
    d = c.d
    s = snap(r)
    if d.chance(0.4):
        return c.vec()
    off = d.pick((0, 9.9, 10.1, -9.9, -10.1, 180, 90, 0.5, -1.5, 5, 30, 179)) + d.pick((0, d.val(lambda q: q.uniform(-1, 1), -1, 1)))
    k = d.pos_num(1e3)
    a = math.radians(s.deg + off)
    return T.Vector2D(s.x + k * math.cos(a), s.y + k * math.sin(a))


def right_dir(c):
    r = c.ray()
    p = ray_pt(c, r)
    k = c.d.i(0, 3)
    if k == 0:
        return r.in_right_dir(p, c.d.pick((1.0, 5, 10, 20.0, 90, 180.0, 0.5, 45)))
    if k == 1:
        return r.in_right_dir(p, thr=c.d.pick((1.0, 5, 10, 20.0, 90, 180.0)))
    return r.in_right_dir(p)


def ray_line(c):
    r = c.ray()
    if c.d.chance(0.5):
        p = ray_pt(c, r)
        return r.intersection(T.Line2D(p, c.ang()))
    return r.intersection(c.line())


def ray_ray(c):
    r = c.ray()
    if c.d.chance(0.5):
        p, q = ray_pt(c, r), c.vec()
        if p.dist(q) > 1e-4:
            return r.intersection(T.Ray2D(q, p) if c.d.chance(.6) else T.Ray2D(p, q))
    return r.intersection(c.ray())


C12_OPS = [
    lambda c: c.ray(False), lambda c: c.ray(False), lambda c: T.Ray2D(c.vec(), c.ang()),
    lambda c: (lambda r: (r.origin(), r.dir(), r.copy(), r.line()))(c.ray()),
    right_dir, right_dir, right_dir, ray_line, ray_line, ray_line, ray_ray, ray_ray, ray_ray,
    lambda c: (lambda r: r.intersection(par_line(c, r.line())))(c.ray()),
    lambda c: api.mutate(c, 'RV'),
]

OPS = {'C09': C09_OPS, 'C10': C10_OPS, 'C11': C11_OPS, 'C12': C12_OPS}
