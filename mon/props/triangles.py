"""C16 C17 C18: triangles."""
import math

from ..core import *
from .. import target as T
from .. import api
from .. import exact as X
from .angles import cs
from .lines import fl, vp
from .segments import ends, seg_line, meet2, box_state, is_exact, ext, line_for, ray_pt
from .circles import circumcentre, tri_domain, tri_pts


def verts(t):
    return X.P(t.ax, t.ay), X.P(t.bx, t.by), X.P(t.cx, t.cy)


def atol(*pts):
    return F(16 * EPS) * X.mag(*pts) * ext(*pts)


def area_of(e):
    n = e.name.split('.')[1]
    pts = verts(e.recv) if e.recv is not None else tuple(vp(v) for v in e.args)
    return n, pts, X.area2(*pts)


@contract('C16', 'Triangle2D', 'area', 'signed_area', 'double_signed_area', 'signed_area_st', 'double_signed_area_st')
def _(e):
    n, pts, ar = area_of(e)
    w = abs(ar) / 2 if n == 'area' else ar if 'double' in n else ar / 2
    close(e.ret, w, F(1e-12) * abs(w) + atol(*pts), n)
    if is_exact(*pts):
        need(e.ret == w, lambda: f'{n} is {e.ret!r}, exactly {float(w)!r}')
    return f'{sgn(ar)}' + (' exact' if is_exact(*pts) else '')


@contract('C16', 'Triangle2D', 'ccw', 'tri_ccw')
def _(e):
    n, pts, ar = area_of(e)
    if not is_exact(*pts) and abs(ar) <= atol(*pts):
        return None
    need(bool(e.ret) == (ar > 0), lambda: f'expected {ar > 0}: doubled signed area {float(ar)!r}')
    return f'{sgn(ar)}'


def judge_contains(e, pts, p):
    ar = X.area2(*pts)
    s = [X.area2(pts[i], pts[(i + 1) % 3], p) for i in range(3)]
    strict = is_exact(*pts, p)
    tol = atol(*pts, p)
    if ar == 0 or (not strict and abs(ar) <= tol):
        if not strict or all(v == 0 for v in s):
            return None
    if p in pts and ar != 0:
        need(e.ret, 'a vertex is not contained')
        return 'vertex'
    if not strict and any(abs(v) <= tol for v in s):
        return None
    want = all(v >= 0 for v in s) or all(v <= 0 for v in s)
    need(bool(e.ret) == want, lambda: f'expected {want}: edge orientations {[float(v) for v in s]}')
    k = 'boundary' if want and 0 in s else 'inside' if want else 'outside on edge line' if 0 in s else 'outside'
    return k + (' ccw' if ar > 0 else ' cw' if ar < 0 else ' flat')


@contract('C16', 'Triangle2D', 'contains')
def _(e):
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    return judge_contains(e, verts(e.recv), vp(e.args[0]))


@contract('C16', 'Triangle2D', 'tri_contains')
def _(e):
    return judge_contains(e, tuple(vp(v) for v in e.args[:3]), vp(e.args[3]))


@contract('C16', 'Triangle2D', 'is_valid')
def _(e):
    a, b, c = verts(e.recv)
    ok = all(v.is_valid() for v in (e.obj.a(), e.obj.b(), e.obj.c()))
    want = ok and a != b and b != c and c != a
    need(bool(e.ret) == want, lambda: f'expected {want}')
    return f'{want} ' + ('invalid vertex' if not ok else 'ab' if a == b else 'bc' if b == c else 'ca' if a == c else '')


@contract('C16', 'Triangle2D', '__init__', 'assign')
def _(e):
    if len(e.args) == 3:
        w = tuple(v for p in e.args for v in (p.x, p.y))
    else:
        s, p = e.args
        w = tuple(s) + (p.x, p.y)
    need(tuple(e.after) == w, 'vertices differ')
    return f'{len(e.args)} arguments'


def tri_pt(c, t):
    d = c.d
    k = d.i(0, 4)
    if k == 0:
        return c.vec()
    vs = [t.a(), t.b(), t.c()]
    i = d.i(0, 2)
    if k == 1:
        return vs[i]
    a, b, q = vs[i], vs[(i + 1) % 3], vs[(i + 2) % 3]
    u = d.pick((0.5, 0.25, 0.75, -0.5, 1.5, 2, 0.125))
    x, y = a.x() + u * (b.x() - a.x()), a.y() + u * (b.y() - a.y())
    if k == 2:
        return T.Vector2D(x, y)
    w = d.pick((0.5, 0.25, -0.25, 1.5, 0.01, -0.01, 1e-4, -1e-4))
    return T.Vector2D(x + w * (q.x() - x), y + w * (q.y() - y))


def mktri(c):
    if c.d.chance(.2):
        t = T.Triangle2D(*tri_pts(c))
        c.pool.setdefault('T', []).append(t)
        return t
    return c.tri()


def st3(name):
    return lambda c: getattr(T.Triangle2D, name)(*tri_pts(c))


def dup(c):
    a, b = c.vec(), c.vec()
    k = c.d.i(0, 5)
    vs = [a, b, c.vec()]
    if k < 3:
        vs[k] = vs[(k + 1) % 3]
    if k == 3:
        w = vs[c.d.i(0, 2)].copy()
        w.invalidate()
        vs[c.d.i(0, 2)] = w
    return T.Triangle2D(*vs).is_valid()


C16_OPS = [
    lambda c: (lambda t: (t.area(), t.signed_area(), t.double_signed_area(), t.ccw(), t.is_valid()))(mktri(c)),
    st3('double_signed_area_st'), st3('signed_area_st'), st3('tri_ccw'), dup,
    lambda c: (lambda t: t.contains(tri_pt(c, t)))(mktri(c)),
    lambda c: (lambda t: t.contains(tri_pt(c, t)))(mktri(c)),
    lambda c: (lambda t: t.contains(tri_pt(c, t)))(mktri(c)),
    lambda c: (lambda t: T.Triangle2D.tri_contains(t.a(), t.b(), t.c(), tri_pt(c, t)))(mktri(c)),
    lambda c: (lambda t: T.Triangle2D.tri_contains(t.a(), t.b(), t.c(), tri_pt(c, t)))(mktri(c)),
    lambda c: T.Triangle2D(c.seg(), c.vec()), lambda c: mktri(c).assign(c.seg(), c.vec()),
    lambda c: mktri(c).assign(c.vec(), c.vec(), c.vec()),
    lambda c: api.mutate(c, 'TV'),
]


# ---------------------------------------------------------------- C17

def tri_of(e):
    return verts(e.recv) if e.recv is not None else tuple(vp(v) for v in e.args)


def orient(ar):
    return 'ccw' if ar > 0 else 'cw'


@contract('C17', 'Triangle2D', 'centroid', 'tri_centroid')
def _(e):
    p = tri_of(e)
    need(isinstance(e.ret, V) and e.ret.ok, lambda: f'centroid is {e.ret!r}')
    t = F(1e-12) * (1 + X.mag(*p))
    close(e.ret.x, (p[0][0] + p[1][0] + p[2][0]) / 3, t, 'x')
    close(e.ret.y, (p[0][1] + p[1][1] + p[2][1]) / 3, t, 'y')
    return f'{sgn(X.area2(*p))}'


@contract('C17', 'Triangle2D', 'circumcenter', 'tri_circumcenter')
def _(e):
    p = tri_of(e)
    dom = tri_domain(*p)
    if dom is None:
        return None
    need(isinstance(e.ret, V), lambda: f'circumcentre is {e.ret!r}')
    if dom == 'collinear':
        need(not e.ret.ok, 'collinear vertices gave a circumcentre')
        return dom
    ctr, tol, ar = circumcentre(*p)
    need(e.ret.ok, 'circumcentre is invalid')
    close(e.ret.x, ctr[0], tol, 'x')
    close(e.ret.y, ctr[1], tol, 'y')
    return orient(ar)


@contract('C17', 'Triangle2D', 'orthocenter', 'tri_orthocenter')
def _(e):
    p = tri_of(e)
    dom = tri_domain(*p)
    if dom is None:
        return None
    need(isinstance(e.ret, V), lambda: f'orthocentre is {e.ret!r}')
    if dom == 'collinear':
        need(not e.ret.ok, 'collinear vertices gave an orthocentre')
        return dom
    ctr, tol, ar = circumcentre(*p)
    h = tuple(p[0][i] + p[1][i] + p[2][i] - 2 * ctr[i] for i in (0, 1))
    need(e.ret.ok, 'orthocentre is invalid')
    close(e.ret.x, h[0], 4 * tol, 'x')
    close(e.ret.y, h[1], 4 * tol, 'y')
    return orient(ar)


@contract('C17', 'Triangle2D', 'incenter', 'tri_incenter')
def _(e):
    p = tri_of(e)
    if tri_domain(*p) != 'proper':
        return None
    a, b, c = X.dist(p[1], p[2]), X.dist(p[2], p[0]), X.dist(p[0], p[1])
    per = a + b + c
    cosC = (a * a + b * b - c * c) / (2 * a * b)
    half = math.sqrt(max(0.0, (1 + cosC) / 2))
    if half < 1e-4:
        return None
    need(isinstance(e.ret, V) and e.ret.ok, lambda: f'incentre is {e.ret!r}')
    m = float(X.mag(*p))
    tol = 1e-9 * (1 + m) + 1e-12 * (per + m) / half
    for i, g in ((0, e.ret.x), (1, e.ret.y)):
        close(g, sum(w * float(v[i]) for w, v in zip((a, b, c), p)) / per, tol, 'xy'[i])
    return orient(X.area2(*p)) + (' obtuse' if cosC < 0 else '')


def obj(name):
    return lambda c: getattr(mktri(c), name)()


C17_OPS = [obj(n) for n in ('centroid', 'circumcenter', 'orthocenter', 'incenter')] * 2 + \
    [st3('tri_' + n) for n in ('centroid', 'circumcenter', 'orthocenter', 'incenter')] * 2 + \
    [lambda c: api.mutate(c, 'TV')]


# ---------------------------------------------------------------- C18

def line_hits(pts, l, cm, exact):
    """boundary points where the line meets the polygon pts (convex): list of (point, tol), or None"""
    a, b, c = l
    n = X.sqrt(a * a + b * b)
    if n < 1e-4:
        return None
    sg = []
    for p in pts:
        r = a * p[0] + b * p[1] + c
        d = float(abs(r)) / n
        if r == 0 and exact:
            sg.append(0)
        elif d > 1e-4 and d > 1e-12 * float(cm) / n:
            sg.append(1 if r > 0 else -1)
        else:
            return None
    if sg.count(0) > 1:
        return None
    hits = []
    k = len(pts)
    for i in range(k):
        p, q = pts[i], pts[(i + 1) % k]
        s, t = sg[i], sg[(i + 1) % k]
        if s == 0:
            hits.append((p, F(1e-9) * (1 + X.mag(p)), F(1e-12) * (1 + X.mag(p)) + F(64 * EPS) * cm / F(n)))
        if s * t < 0:
            se, m = seg_line(S(p[0], p[1], q[0], q[1]))
            kind, x, tol = meet2(se, m, l, cm)
            if kind != 'point':
                return None
            hits.append((x, max(tol) + F(1e-9), max(tol)))
    if sg.count(0):
        # the vertex must come out accurate enough to be recognised from both sides
        m = float(X.mag(*pts))
        if float(cm) * EPS * 64 > 1e-9 or m > 5000:
            return None
    for h, t, _ in hits:
        if t > F(1e-5):
            return None
    for i in range(len(hits)):
        for j in range(i):
            if max(abs(hits[i][0][x] - hits[j][0][x]) for x in (0, 1)) < F(1e-4):
                return None
    return hits


def hits_on(e_arg, pts):
    """expected hits on line, ray or segment: ([(x,y,tol)], label) or None"""
    o = e_arg
    if isinstance(o, L):
        l, cm = fl(o), abs(F(o.c))
        ex = is_exact(*pts) and exactish(o.a, o.b) and exactish(o.c, bits=20, mag=1 << 24)
        h = line_hits(pts, l, cm, ex)
        return None if h is None else (h, 'line', len(h))
    if isinstance(o, R):
        org = X.P(o.x, o.y)
        co, si = cs(F(o.deg))
        a, b = F(-si), F(co)
        ex = is_exact(*pts, org) and o.deg == 0
        h = line_hits(pts, (a, b, -a * org[0] - b * org[1]), 2 * X.mag(org), ex)
        if h is None:
            return None
        out = []
        for p, t, raw in h:
            u = (p[0] - org[0]) * F(co) + (p[1] - org[1]) * F(si)
            if abs(u) < F(1e-4) or abs(u) < 200 * t:
                return None
            if u > 0:
                out.append((p, t, raw))
        return out, 'ray', len(h)
    l, cm = seg_line(o)
    sa, sb = ends(o)
    h = line_hits(pts, l, cm, is_exact(*pts, sa, sb))
    if h is None:
        return None
    out = []
    for p, t, raw in h:
        st = [box_state(p[i], sa[i], sb[i], 4 * raw) for i in (0, 1)]
        if False in st:
            continue
        if None in st:
            return None
        out.append((p, t, raw))
    return out, 'segment', len(h)


def match_hits(got, hits, what):
    left = list(hits)
    for g in got:
        need(isinstance(g, V) and g.ok and finite(g.x, g.y), lambda: f'{what}: {g!r} is not a valid point')
        hit = [h for h in left if abs(F(g.x) - h[0][0]) <= h[1] + F(1e-9) and abs(F(g.y) - h[0][1]) <= h[1] + F(1e-9)]
        need(hit, lambda: f'{what}: ({g.x!r}, {g.y!r}) is not one of the crossings '
                          f'{[(float(h[0][0]), float(h[0][1])) for h in hits]}, or is repeated')
        left.remove(hit[0])
    need(not left, lambda: f'{what}: the crossing ({float(left[0][0][0])!r}, {float(left[0][0][1])!r}) is missing')


@contract('C18', 'Triangle2D', 'intersection')
def _(e):
    pts = verts(e.recv)
    o = e.args[0]
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    if abs(X.area2(*pts)) < F(1e-4):
        return None
    r = hits_on(o, pts)
    if r is None:
        return None
    hits, lab, total = r
    need(isinstance(e.ret, tuple) and len(e.ret) >= 1 and isinstance(e.ret[0], int), lambda: f'result is {e.ret!r}')
    n = e.ret[0]
    need(n == len(hits), lambda: f'{n} crossings reported, there are {len(hits)}: '
                                 f'{[(float(h[0][0]), float(h[0][1])) for h in hits]}')
    match_hits(e.ret[1:1 + n], hits, f'triangle and {lab}')
    v = sum(1 for h in hits if h[0] in pts)
    return f'{lab} {n} of {total}' + (f' vertex={v}' if v else '')


def cutter(c, pts):
    """line, ray or segment aimed at a shape with the given vertices (Vector2D)"""
    d = c.d
    n = len(pts)

    def pt():
        k = d.i(0, 4)
        i = d.i(0, n - 1)
        a, b = pts[i], pts[(i + 1) % n]
        if k == 0:
            return a
        if k == 1:
            return c.vec()
        if k == 2:
            u = d.pick((0.5, 0.25, 0.75, -0.5, 1.5))
            return T.Vector2D(a.x() + u * (b.x() - a.x()), a.y() + u * (b.y() - a.y()))
        w = [d.val(lambda q: q.uniform(-0.4, 1), -1, 1) for _ in pts]
        s = sum(w) or 1
        if abs(s) < 0.2:
            s = 1
        return T.Vector2D(sum(v.x() * u for v, u in zip(pts, w)) / s, sum(v.y() * u for v, u in zip(pts, w)) / s)
    k = d.i(0, 9)
    p, q = pt(), pt()
    if k == 9:
        h = d.pick((3e-4, 1e-3, 5e-3, 0.02))
        t = d.pick((0.0, 0.25, 0.5, 1.0))
        dx, dy = d.pick(((h, 0), (0, h), (h, h), (-h, h), (h, -h / 2)))
        return T.Segment2D(p.x() - t * dx, p.y() - t * dy, p.x() + (1 - t) * dx, p.y() + (1 - t) * dy)
    if p.dist(q) < 0.1:
        q = T.Vector2D(p.x() + d.pick((1, 0, -2)), p.y() + d.pick((1, 2)))
    if k == 0:
        return T.Line2D(p, c.ang())
    if k <= 2:
        return T.Line2D(p, q)
    if k == 3:
        return T.Line2D(0, d.pick((1, 2)), -p.y()) if d.chance(.5) else T.Line2D(1, 0, -p.x())
    if k <= 5:
        return T.Ray2D(p, q) if d.chance(.5) else T.Ray2D(p, T.AngleDeg(d.pick((0, 90, 180, -90, d.deg(1e6)))))
    u, v = d.pick((0, -1, -0.5, 0.25)), d.pick((1, 2, 0.5, 1.5))
    return T.Segment2D(p.x() + u * (q.x() - p.x()), p.y() + u * (q.y() - p.y()),
                       p.x() + v * (q.x() - p.x()), p.y() + v * (q.y() - p.y()))


def tri_cut(c):
    t = mktri(c)
    return t.intersection(cutter(c, [t.a(), t.b(), t.c()]))


C18_OPS = [tri_cut] * 6 + [lambda c: mktri(c).intersection(c.line()), lambda c: mktri(c).intersection(c.seg()),
                           lambda c: mktri(c).intersection(c.ray()), lambda c: api.mutate(c, 'TV')]

OPS = {'C16': C16_OPS, 'C17': C17_OPS, 'C18': C18_OPS}
