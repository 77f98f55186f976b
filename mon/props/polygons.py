"""C19 C20 C21: polygons."""
import math

from ..core import *
from .. import target as T
from .. import api
from .. import exact as X
from .lines import vp
from .segments import is_exact, ext


def pv(p):
    return [X.P(*v) for v in p.pts]


def bdist2(pts, p):
    n = len(pts)
    if n == 1:
        return X.n2(X.sub(p, pts[0]))
    m = n if n > 2 else 1
    return min(X.seg_dist2(pts[i], pts[(i + 1) % n], p) for i in range(m))


def shape(pts):
    n = len(pts)
    if n < 3:
        return f'{n} vertices'
    turns = {sgn(X.area2(pts[i - 1], pts[i], pts[(i + 1) % n])) for i in range(n)}
    k = 'convexish' if not {1, -1} <= turns else 'concave'
    return k + (' repeated' if len(set(pts)) < n else ' collinear' if 0 in turns else '')


# ---------------------------------------------------------------- C19

def locate(pts, p):
    """(inside, boundary), or None when too close to the boundary for doubles"""
    if is_exact(*pts, p) or p in pts:
        if p in pts:
            return False, True
        return X.in_polygon(pts, p)
    s = float(X.mag(*pts, p))
    if X.sqrt(bdist2(pts, p)) < 1e-9 * (1 + s):
        return None
    return X.in_polygon(pts, p)


def level(pts, p):
    """how vertices relate to the horizontal through p: the hard cases of the crossing rule"""
    n = len(pts)
    on = [i for i in range(n) if pts[i][1] == p[1] and pts[i][0] > p[0]]
    if not on:
        return ''
    if any(pts[(i + 1) % n][1] == p[1] for i in on):
        return ' edge level'
    return ' vertex level'


@contract('C19', 'Polygon2D', 'contains')
def _(e):
    pts = pv(e.recv)
    p = vp(e.args[0])
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    if not pts:
        need(not e.ret, 'an empty polygon contains a point')
        return 'empty'
    r = locate(pts, p)
    if r is None:
        return None
    allow = e.args[1] if len(e.args) > 1 else e.kw.get('allow_on_segment', True)
    inside, edge = r
    want = inside or (edge and bool(allow))
    need(bool(e.ret) == want, lambda: f'expected {want} ({"boundary" if edge else "inside" if inside else "outside"})')
    return shape(pts) + (' boundary' if edge else ' inside' if inside else ' outside') + \
        (f' allow={bool(allow)}' if edge else level(pts, p))


@contract('C19', 'Polygon2D', 'dist')
def _(e):
    pts = pv(e.recv)
    p = vp(e.args[0])
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    if not pts:
        return None
    plane = e.args[1] if len(e.args) > 1 else e.kw.get('check_as_plane', True)
    d = X.sqrt(bdist2(pts, p))
    m = float(X.mag(*pts, p))
    n = len(pts)
    sh = [X.dist(pts[i], pts[(i + 1) % n]) for i in range(n)]
    sh = min([v for v in sh if v] or [1.0])
    tol = 1e-11 * (1 + m) + 16 * EPS * m * float(ext(*pts, p)) / sh
    if plane and n > 1:
        r = locate(pts, p)
        if r is None:
            need(finite(e.ret) and 0 <= e.ret <= d + tol, lambda: f'distance {e.ret!r} at the boundary')
            return 'near boundary'
        if r[0] or r[1]:
            need(e.ret == 0, lambda: f'distance of a contained point is {e.ret!r}')
            return shape(pts) + ' contained'
    close(e.ret, d, tol, 'distance')
    return shape(pts) + (' plane' if plane else ' outline')


def poly_pt(c, po):
    d = c.d
    vs = po.vertices()
    n = len(vs)
    if not n:
        return c.vec()
    k = d.i(0, 7)
    i = d.i(0, n - 1)
    a, b = vs[i], vs[(i + 1) % n]
    if k == 0:
        return c.vec()
    if k == 1:
        return a
    if k == 2:
        u = d.pick((0.5, 0.25, 0.75, 1.5, -0.5))
        return T.Vector2D(a.x() + u * (b.x() - a.x()), a.y() + u * (b.y() - a.y()))
    if k == 3:      # on the level of a vertex
        return T.Vector2D(vs[d.i(0, n - 1)].x() + d.pick((0, 0.5, -0.5, 1, -1, -2, -0.25)), a.y())
    if k == 4:
        q = vs[d.i(0, n - 1)]
        return T.Vector2D((a.x() + q.x()) / 2, (a.y() + q.y()) / 2)
    if k == 5:
        xs, ys = [v.x() for v in vs], [v.y() for v in vs]
        return T.Vector2D(d.val(lambda r: r.uniform(min(xs), max(xs))), d.val(lambda r: r.uniform(min(ys), max(ys))))
    if k == 6:
        w = d.pick((1e-3, -1e-3, 1e-5, -1e-6, 0.1, -0.5, 1))
        return T.Vector2D((a.x() + b.x()) / 2 - w * (b.y() - a.y()), (a.y() + b.y()) / 2 + w * (b.x() - a.x()))
    return T.Vector2D(vs[d.i(0, n - 1)].x(), vs[d.i(0, n - 1)].y())


def p_contains(c):
    po = c.poly()
    p = poly_pt(c, po)
    k = c.d.i(0, 3)
    if k <= 1:
        return po.contains(p)
    if k == 2:
        return po.contains(p, c.d.chance(.3))
    return po.contains(p, allow_on_segment=c.d.chance(.3))


def p_dist(c):
    po = c.poly()
    p = poly_pt(c, po)
    k = c.d.i(0, 3)
    if k <= 1:
        return po.dist(p)
    if k == 2:
        return po.dist(p, c.d.chance(.3))
    return po.dist(p, check_as_plane=c.d.chance(.3))


C19_OPS = [p_contains] * 6 + [p_dist] * 3 + [lambda c: api.mutate(c, 'PV'),
                                             lambda c: T.Polygon2D([]).contains(c.vec())]


# ---------------------------------------------------------------- C20

@contract('C20', 'Polygon2D', 'double_signed_area', 'area', 'is_counter_clockwise', 'is_clockwise')
def _(e):
    pts = pv(e.recv)
    n = e.name.split('.')[1]
    need(e.after == e.recv, 'the polygon changed')
    ar = X.poly_area2(pts) if len(pts) >= 3 else F(0)
    tol = F(8 * EPS) * (len(pts) + 1) * len(pts) * X.mag(*pts) ** 2 if pts else F(0)
    ex = len(pts) < 3 or is_exact(*pts)
    k = shape(pts) + f' {sgn(ar)}'
    if n == 'double_signed_area':
        close(e.ret, ar, F(0) if ex else tol, 'doubled signed area')
    elif n == 'area':
        close(e.ret, abs(ar) / 2, F(0) if ex else tol, 'area')
    else:
        if not ex and abs(ar) <= tol:
            return None
        want = ar > 0 if 'counter' in n else ar < 0
        need(bool(e.ret) == want, lambda: f'expected {want}: doubled area {float(ar)!r}')
    return k


@contract('C20', 'Polygon2D', 'get_bounding_box', 'bounding_box_center')
def _(e):
    pts = pv(e.recv)
    need(e.after == e.recv, 'the polygon changed')
    if not pts:
        lo = hi = (F(0), F(0))
    else:
        lo = tuple(min(p[i] for p in pts) for i in (0, 1))
        hi = tuple(max(p[i] for p in pts) for i in (0, 1))
    t = F(1e-12) * (1 + max(abs(v) for v in lo + hi))
    if is_exact(*pts):
        t = F(0)
    if e.name.endswith('center'):
        need(isinstance(e.ret, V), lambda: f'centre is {e.ret!r}')
        close(e.ret.x, (lo[0] + hi[0]) / 2, t, 'x')
        close(e.ret.y, (lo[1] + hi[1]) / 2, t, 'y')
    else:
        q = e.ret
        need(isinstance(q, Q), lambda: f'box is {q!r}')
        close(q.left, lo[0], t, 'left')
        close(q.top, lo[1], t, 'top')
        close(q.left + q.length, hi[0], t, 'right')
        close(q.top + q.width, hi[1], t, 'bottom')
    return shape(pts)


@contract('C20', 'Polygon2D', '__init__', 'assign', 'add_vertex', 'clear', 'vertices')
def _(e):
    n = e.name.split('.')[1]
    if n == 'vertices':
        need(e.after == e.recv and tuple((v.x, v.y) for v in e.ret) == e.recv.pts, 'vertices differ')
        return f'{len(e.ret)}'
    if n == 'clear':
        w = ((0, 0),)
    elif n == 'add_vertex':
        w = e.recv.pts + ((e.args[0].x, e.args[0].y),)
    else:
        a = e.args[0] if e.args and not isinstance(e.args[0], V) else e.args
        w = tuple((v.x, v.y) for v in a)
        if n == 'assign' and not w:
            return None
        if not e.args:
            w = ((0, 0),)
    need(e.after.pts == w, lambda: f'vertices are {e.after.pts}, expected {w}')
    if n == 'assign':
        need(e.raw_ret is e.obj, 'assign does not return the polygon')
    return f'{len(w)}'


def p_q(name):
    return lambda c: getattr(c.poly(), name)()


def p_own(c):
    """assigned from, and extended by, its own vertices"""
    p = c.poly()
    own = p.vertices_()
    k = c.d.i(0, 4)
    if not own:
        return
    if k == 0:
        p.assign(own)
    elif k == 1:
        p.assign(list(reversed(own)))
    elif k == 2:
        p.assign(own[1:] + own[:1])
    elif k == 3:
        p.assign([c.d.pick(own) for _ in range(c.d.i(1, len(own)))])
    elif len(own) < 12:
        p.add_vertex(c.d.pick(own))


C20_OPS = [p_own, p_own] + [p_q(n) for n in ('double_signed_area', 'area', 'is_counter_clockwise', 'is_clockwise',
                            'get_bounding_box', 'bounding_box_center', 'vertices')] + \
    [p_q('get_bounding_box'), p_q('double_signed_area'), p_q('area'), p_q('bounding_box_center')] + \
    [lambda c: api.mutate(c, 'PV')] * 5 + \
    [lambda c: c.poly().add_vertex(c.vec()), lambda c: c.poly().clear(), lambda c: T.Polygon2D(),
     lambda c: T.Polygon2D([]).get_bounding_box(), lambda c: T.Polygon2D([]).area()]


# ---------------------------------------------------------------- C21

class Skip(Exception):
    pass


def clip_stage(pts, axis, side, below, cut, strict):
    """one half plane: keep coordinate <= side (below) or >= side; crossings are taken at the value
    `cut` of that coordinate.  pts are (point, is_input).  Raises Skip near ties."""
    out = []
    ins = []
    for p, orig in pts:
        d = p[axis] - side
        if strict and abs(d) < F(1e-3) and not (d == 0 and orig):
            raise Skip
        ins.append(d <= 0 if below else d >= 0)
    n = len(pts)
    crossed = False
    for i in range(n):
        (p, po), (q, qo) = pts[i], pts[(i + 1) % n]
        if ins[i] != ins[(i + 1) % n]:
            if strict and abs(q[axis] - p[axis]) < F(1e-4):
                raise Skip
            crossed = True
            t = (cut - p[axis]) / (q[axis] - p[axis])
            out.append((X.lerp(p, q, t), False))
        if ins[(i + 1) % n]:
            out.append((q, qo))
    return out, crossed


def clip(pts, r, known, strict=True):
    """Sutherland-Hodgman in rationals.  known=True reproduces the recorded finding (the crossings
    of the bottom side are taken on the top line)"""
    cur = [(p, True) for p in pts]
    cur, _ = clip_stage(cur, 0, r[2], True, r[2], strict)
    cur, crossed = clip_stage(cur, 1, r[3], True, r[1] if known else r[3], strict)
    cur, _ = clip_stage(cur, 0, r[0], False, r[0], strict)
    cur, _ = clip_stage(cur, 1, r[1], False, r[1], strict)
    return [p for p, _ in cur], crossed


def near_tie(pts, r, res, m):
    """vertices next to the sides: the same facts, up to a band of that width"""
    if m > 1000 or any(p[1] > r[3] - F(1e-2) for p in pts):
        return None                     # the bottom side is the recorded finding's
    tol = F(4e-6)
    for p in res:
        need(r[0] - tol <= p[0] <= r[2] + tol and r[1] - tol <= p[1] <= r[3] + tol,
             lambda: f'({float(p[0])!r}, {float(p[1])!r}) is outside the rectangle')
    for p in pts:
        if r[0] <= p[0] <= r[2] and r[1] <= p[1] <= r[3]:
            need(any(abs(p[0] - g[0]) <= tol and abs(p[1] - g[1]) <= tol for g in res),
                 lambda: f'the vertex ({float(p[0])!r}, {float(p[1])!r}) inside the rectangle is lost')
    if not simple(pts):
        return 'near a side, not simple'
    good, _ = clip(pts, r, False, False)
    need(abs(X.poly_area2(res) - X.poly_area2(good)) <= F(1e-4) * (1 + m) * (1 + len(pts)),
         lambda: f'doubled area {float(X.poly_area2(res))!r}, the common region has {float(X.poly_area2(good))!r}')
    return 'near a side'


def cyc_close(a, b, tol):
    n = len(a)
    if n != len(b):
        return False
    if not n:
        return True
    for s in range(n):
        if all(abs(F(a[i][0]) - b[(i + s) % n][0]) <= tol and abs(F(a[i][1]) - b[(i + s) % n][1]) <= tol for i in range(n)):
            return True
    return False


def simple(pts):
    n = len(pts)
    if n < 3 or len(set(pts)) < n:
        return False
    fs = [(float(p[0]), float(p[1])) for p in pts]
    box = [(min(u[0], v[0]), max(u[0], v[0]), min(u[1], v[1]), max(u[1], v[1])) for u, v in zip(fs, fs[1:] + fs[:1])]
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        p0, p1, p2, p3 = box[i]
        for j in range(i + 1, n):
            q0, q1, q2, q3 = box[j]
            if p1 < q0 or q1 < p0 or p3 < q2 or q3 < p2:
                continue
            c, d = pts[j], pts[(j + 1) % n]
            if (i + 1) % n == j:
                if X.on_seg(a, b, d) or X.on_seg(c, d, a):
                    return False
            elif (j + 1) % n == i:
                if X.on_seg(a, b, c) or X.on_seg(c, d, b):
                    return False
            elif X.segs_meet(a, b, c, d):
                return False
    return True


FINDING21 = 'Polygon2D.get_rectangle_clipped_polygon: a polygon crossing the bottom side is cut along the top line'


@contract('C21', 'Polygon2D', 'get_rectangle_clipped_polygon')
def _(e):
    pts = pv(e.recv)
    q = e.args[0]
    need(e.after == e.recv and e.args_after == e.args, 'the original polygon or the rectangle changed')
    need(isinstance(e.ret, P), lambda: f'result is {e.ret!r}')
    need(e.raw_ret is not e.obj, 'the clipped polygon is the original')
    if not pts:
        return None
    r = (F(q.left), F(q.top), F(q.left + q.length), F(q.top + q.width))
    if r[2] - r[0] < F(1e-2) or r[3] - r[1] < F(1e-2):
        return None
    res = [X.P(*p) for p in e.ret.pts]
    m = max(X.mag(*pts), max(abs(v) for v in r))
    tol = F(1e-9) * (1 + m)
    if not is_exact(*pts) and not all(abs(p[i] - r[i + j]) > F(1e-3) for p in pts for i in (0, 1) for j in (0, 2)):
        return near_tie(pts, r, res, m)
    try:
        good, crossed = clip(pts, r, False)
    except Skip:
        return near_tie(pts, r, res, m)
    if crossed:
        # the recorded finding: accept exactly what it does, or the right answer
        try:
            bad, _ = clip(pts, r, True)
        except Skip:
            return None
        longest = max([X.dist(pts[i], pts[(i + 1) % len(pts)]) for i in range(len(pts))])
        if ('C21', FINDING21) in FINDINGS and cyc_close(res, bad, tol * (1 + F(longest) ** 2)) \
                and not cyc_close(res, good, tol):
            MON.known[FINDING21] += 1
            return 'recorded finding'
    for p in res:
        need(r[0] - tol <= p[0] <= r[2] + tol and r[1] - tol <= p[1] <= r[3] + tol,
             lambda: f'({float(p[0])!r}, {float(p[1])!r}) is outside the rectangle')
    inside = [p for p in pts if r[0] <= p[0] <= r[2] and r[1] <= p[1] <= r[3]]
    for p in inside:
        need(any(abs(p[0] - g[0]) <= tol and abs(p[1] - g[1]) <= tol for g in res),
             lambda: f'the vertex ({float(p[0])!r}, {float(p[1])!r}) inside the rectangle is lost')
    if len(inside) == len(pts):
        need(cyc_close([tuple(p) for p in e.ret.pts], pts, F(0)), 'a polygon inside the rectangle came back with other vertices')
        return 'inside ' + shape(pts)
    if any(all(p[0] < r[0] for p in pts) or all(p[0] > r[2] for p in pts) or
           all(p[1] < r[1] for p in pts) or all(p[1] > r[3] for p in pts) for _ in (0,)):
        need(not res, 'a polygon beyond one side of the rectangle did not come back empty')
        return 'disjoint'
    if not simple(pts):
        return 'not simple'
    need(abs(X.poly_area2(res) - X.poly_area2(good)) <= 8 * tol * (1 + m) * (1 + len(pts)),
         lambda: f'doubled area {float(X.poly_area2(res))!r}, the common region has {float(X.poly_area2(good))!r}')
    return f'partial {len(good)} ' + shape(pts)


def clip_rect(c, po):
    d = c.d
    vs = po.vertices()
    if not vs or d.chance(.2):
        return c.rect()
    xs, ys = [v.x() for v in vs], [v.y() for v in vs]
    x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
    w, h = max(x1 - x0, 0.5), max(y1 - y0, 0.5)

    def side(lo, sz):
        u = d.pick((-0.5, 0.25, 0.5, 0.75, -0.25, 0, d.val(lambda r: r.uniform(-0.3, 0.9), -1, 1)))
        v = d.pick((0.5, 1.5, 2, 0.25, d.val(lambda r: r.uniform(0.1, 1.5), 0.1, 2)))
        return lo + u * sz, max(v * sz, 0.02)
    x, l = side(x0, w)
    y, wd = side(y0, h)
    if d.chance(.6):        # bottom side clear of the polygon
        wd = (y1 - y) + d.pick((0.5, 1, 10, 0.125))
        if wd < 0.02:
            wd = 1
    return T.Rect2D(x, y, l, wd)


def p_clip(c):
    po = c.poly()
    r = clip_rect(c, po)
    return po.get_rectangle_clipped_polygon(r)


def p_clip_free(c):
    """the clipped polygon shares nothing with the original"""
    po = c.poly()
    r = clip_rect(c, po)
    before, rb = snap(po), snap(r)
    out = po.get_rectangle_clipped_polygon(r)
    ob = snap(out)
    for v in out.vertices_():
        v.assign(12345.5, -54321.25)
    MON.judge('Polygon2D clip independence', 'result edited', snap(po) == before and snap(r) == rb,
              lambda: f'editing the clipped polygon changed the original {before}')
    out2 = po.get_rectangle_clipped_polygon(r)
    for v in po.vertices_():
        v.assign(777.5, 888.25)
    po.add_vertex(T.Vector2D(1, 2))
    MON.judge('Polygon2D clip independence', 'original edited', snap(out2) == ob,
              lambda: f'editing the original changed the clipped polygon {ob} -> {snap(out2)}')
    po.assign([T.Vector2D(*p) for p in before.pts] or [T.Vector2D()])


def p_clip_near(c):
    """an edge along a side of the rectangle up to rounding or a little more, crossing it"""
    d = c.d
    po = c.poly()
    vs = po.vertices_()
    if len(vs) < 3:
        return
    k = d.i(0, len(vs) - 1)
    p, q = vs[k], vs[(k + 1) % len(vs)]
    u = d.pick((1e-15, 1e-13, 1e-10, 1e-8, 1e-7, 4e-7, 9e-7, 2e-6, 1e-4))
    w = d.pick((u, -u, 0, u / 4))
    side = d.i(0, 2)
    x0, x1 = min(v.x() for v in vs), max(v.x() for v in vs)
    y0, y1 = min(v.y() for v in vs), max(v.y() for v in vs)
    pad = d.pick((1, 3, 0.5, -0.25))
    bottom = y1 + d.pick((1, 5, 0.125))
    if side == 2:
        s = p.y()
        p.assign(p.x(), s + u)
        q.assign(q.x(), s - w)
        box = (x0 - pad, s, x1 + pad, max(bottom, s + 1))
    else:
        s = p.x()
        p.assign(s + u, p.y())
        q.assign(s - w, q.y())
        box = (x0 - pad, y0 - pad, s, bottom) if side == 0 else (s, y0 - pad, x1 + pad, bottom)
    if box[2] - box[0] < 0.02 or box[3] - box[1] < 0.02:
        return
    po.get_rectangle_clipped_polygon(T.Rect2D(T.Vector2D(box[0], box[1]), T.Vector2D(box[2], box[3])))


REQUIRED['C21'] = ['Polygon2D clip independence']
C21_OPS = [p_clip] * 6 + [p_clip_near, p_clip_free, lambda c: api.mutate(c, 'P')]

OPS = {'C19': C19_OPS, 'C20': C20_OPS, 'C21': C21_OPS}
