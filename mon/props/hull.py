"""C22: convex hulls."""
from collections import Counter

from ..core import *
from .. import target as T
from .. import exact as X
from .segments import is_exact


def hull_of(pts):
    """strict hull (extreme points only), counterclockwise; exact"""
    ps = sorted(set(pts))
    if len(ps) < 3:
        return ps

    def half(seq):
        h = []
        for p in seq:
            while len(h) > 1 and X.area2(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h
    lo, up = half(ps), half(reversed(ps))
    return lo[:-1] + up[:-1]


def domain(pts):
    """'exact' / 'float' when orientation of every triple is decidable by doubles (and by the
    library's 1e-6 tolerance), else None"""
    u = sorted(set(pts))
    if all(v.denominator == 1 and abs(v) < 10 ** 6 for p in u for v in p):
        return 'exact'           # whole numbers: no orientation is in doubt
    if len(u) > 30:
        return None
    ex = is_exact(*u)
    n = len(u)
    lim = F(1e-5)
    if not ex:
        lim = max(lim, F(64 * EPS) * X.mag(*u) ** 2)
    for i in range(n):
        for j in range(i):
            if X.n2(X.sub(u[i], u[j])) < F(1e-6):
                return None
            for k in range(j):
                ar = abs(X.area2(u[i], u[j], u[k]))
                if ar < lim and not (ex and ar == 0):
                    return None
    return 'exact' if ex else 'float'


def kind(pts, ext):
    k = f'{len(ext)} extreme of {min(len(pts), 9)}'
    if len(set(pts)) < len(pts):
        k += ' duplicates'
    return k


@contract('C22', 'ConvexHull', 'compute', 'compute_wrapping_method', 'compute_graham_scan')
def _(e):
    if e.name.endswith('compute') and e.raw_args and e.raw_args[0] is T.MethodType.DIRECT_METHOD:
        return None
    b, a = e.recv, e.after
    need(Counter(a.inputs) == Counter(b.inputs),
         lambda: f'the input points were {b.inputs} and are {a.inputs} after computing')
    how = e.name.split('.')[1] if not e.args else str(e.raw_args[0]).split('.')[1]
    if len(b.inputs) < 3:
        need(a.vertices == () and a.edges == (), 'fewer than three points gave a hull')
        return f'{how} {len(b.inputs)} points'
    vs = a.vertices
    need(set(vs) <= set(b.inputs), 'a vertex is not an input point')
    pts = [X.P(*p) for p in b.inputs]
    dom = domain(pts)
    if dom is None:
        return None
    ext = hull_of(pts)
    if len(ext) < 3:
        return f'{how} degenerate'
    hv = [X.P(*p) for p in vs]
    need(set(ext) <= set(hv), lambda: f'the extreme points {[tuple(map(float, p)) for p in ext if p not in hv]} '
                                      f'are not among the vertices')
    n = len(hv)
    need(len(set(hv)) == n, 'a vertex is repeated')
    turns = {sgn(X.area2(hv[i - 1], hv[i], hv[(i + 1) % n])) for i in range(n)} - {0}
    need(len(turns) == 1, 'the vertices are not in convex order')
    need(turns == {1}, 'the vertices are not in counter clockwise order')
    need(abs(X.poly_area2(hv)) == X.poly_area2(ext), 'the vertices do not go round the hull once')
    ed = [((s.ox, s.oy), (s.tx, s.ty)) for s in a.edges]
    sides = Counter((vs[i], vs[(i + 1) % n]) for i in range(n))
    got = Counter(x for x in ed if x[0] != x[1])
    need(got == sides, lambda: f'edges {ed} are not the sides of {vs}, from each vertex to the next')
    return f'{how} {dom} {kind(pts, ext)}' + (' again' if b.vertices else '')


@contract('C22', 'ConvexHull', '__init__', 'add_point', 'add_points', 'clear', 'clear_results',
          'input_points', 'vertices', 'edges', 'to_polygon')
def _(e):
    n = e.name.split('.')[1]
    b, a = e.recv, e.after

    def pts(x):
        return tuple((v.x, v.y) for v in x)
    if n == '__init__':
        need(a == H(pts(e.args[0]), (), ()), lambda: f'a new hull is {a}')
        return f'{len(a.inputs)}'
    if n in ('add_point', 'add_points'):
        more = pts(e.args if n == 'add_point' else e.args[0])
        need(Counter(a.inputs) == Counter(b.inputs + more), 'input points after adding')
        return 'after result' if b.vertices else 'before result'
    if n == 'clear':
        need(a == H((), (), ()), lambda: f'after clearing {a}')
        return 'after result' if b.vertices else 'before result'
    if n == 'clear_results':
        need(a == H(b.inputs, (), ()), lambda: f'after clearing the result {a}')
        return 'after result' if b.vertices else 'before result'
    need(a == b, 'the hull changed')
    if n == 'edges':
        need(e.ret == b.edges, 'edges')
        return f'{len(b.edges) > 0}'
    if n == 'to_polygon':
        if not b.vertices:
            return None
        need(isinstance(e.ret, P) and e.ret.pts == b.vertices, lambda: f'the polygon is {e.ret}')
        return f'{len(b.vertices)}'
    need(pts(e.ret) == getattr(b, 'inputs' if n == 'input_points' else n), n)
    return f'{len(e.ret) > 0}'


def hull_pts(c):
    d = c.d
    k = d.i(0, 6)
    n = d.count(0, 12) if d.chance(.85) else d.count(12, 24)
    if k == 0:
        out = [d.xy() for _ in range(n)]
    elif k == 1:      # small grid: many collinear and duplicate points
        s = d.pick((1, 1, 2, 3))
        ox, oy = d.pick((0, 0, 10, -7)), d.pick((0, 0, -20, 5))
        out = [(ox + d.i(-s, s), oy + d.i(-s, s)) for _ in range(n)]
    elif k == 2:      # points on a few lines
        out = []
        p, q = (d.i(-5, 5), d.i(-5, 5)), (d.i(-3, 3), d.i(-3, 3))
        for _ in range(n):
            u = d.i(-4, 4)
            out.append((p[0] + u * q[0], p[1] + u * q[1]) if d.chance(.7) else (d.i(-9, 9), d.i(-9, 9)))
    elif k == 3:      # on a circle: everything extreme
        out = []
        for _ in range(n):
            a = d.i(0, 143) * math.tau / 144
            r = d.pick((10, 10, 10, 3))
            if n > 24:
                out.append((round(1000 * r * math.cos(a)), round(1000 * r * math.sin(a))))
            else:
                out.append((round(r * math.cos(a), 3), round(r * math.sin(a), 3)))
    elif k == 4:      # Pythagorean lattice circle
        T5 = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
        out = [d.pick(T5) if d.chance(.8) else (d.i(-3, 3), d.i(-3, 3)) for _ in range(n)]
    elif k == 5:
        out = [(d.val(lambda r: r.uniform(-50, 50)), d.val(lambda r: r.uniform(-34, 34))) for _ in range(n)]
    else:             # rectangle border
        out = []
        for _ in range(n):
            out.append((d.pick((0, 4)), d.i(0, 3)) if d.chance(.5) else (d.i(0, 4), d.pick((0, 3))))
    if d.chance(.2) and out:
        out.append(out[d.i(0, len(out) - 1)])
    return [T.Vector2D(*p) for p in out]


METH = ('WRAPPING_METHOD', 'GRAHAN_SCAN')


def do_compute(c, h):
    k = c.d.i(0, 4)
    if k == 0:
        return h.compute()
    if k == 1:
        return h.compute_wrapping_method()
    if k == 2:
        return h.compute_graham_scan()
    return h.compute(getattr(T.MethodType, c.d.pick(METH)))


def a_hull(c):
    return c._get('H', lambda: T.ConvexHull(hull_pts(c)))


def h_compute(c):
    h = a_hull(c)
    do_compute(c, h)
    if c.d.chance(.4):
        h.to_polygon()


def h_both(c):
    """the two methods describe the same region"""
    ps = hull_pts(c)
    pts = [X.P(v.x(), v.y()) for v in ps]
    if len(pts) < 3 or domain(pts) is None or len(hull_of(pts)) < 3:
        return
    hs = []
    for m in METH:
        h = T.ConvexHull([v.copy() for v in ps])
        h.compute(getattr(T.MethodType, m))
        hs.append(h.to_polygon().area())
    MON.judge('ConvexHull methods agree', f'{len(ps)} points', abs(hs[0] - hs[1]) <= 1e-9 * (1 + abs(hs[0])),
              lambda: f'areas {hs} for {pts}', key=tuple((v.x(), v.y()) for v in ps))


def h_order(c):
    """the result does not depend on the order of the points"""
    ps = hull_pts(c)
    pts = [X.P(v.x(), v.y()) for v in ps]
    if len(pts) < 3 or domain(pts) is None or len(hull_of(pts)) < 3:
        return
    m = getattr(T.MethodType, c.d.pick(METH))
    k = c.d.i(0, len(ps) - 1)
    alt = ps[k:] + ps[:k]
    if c.d.chance(.5):
        alt.reverse()
    out = []
    for q in (ps, alt):
        h = T.ConvexHull(q)
        h.compute(m)
        out.append(frozenset((v.x(), v.y()) for v in h.vertices()))
    MON.judge('ConvexHull order', m.name, out[0] == out[1], lambda: f'{out} for {ps}',
              key=tuple((v.x(), v.y()) for v in ps))


def h_edit(c):
    """the inputs change in place between two computations"""
    h = a_hull(c)
    do_compute(c, h)
    ps = h.input_points_()
    if not ps:
        return
    k = c.d.i(0, len(ps) - 1)
    p = T.Vector2D(c.d.i(-12, 12), c.d.i(-12, 12))
    how = c.d.i(0, 3)
    if how == 0:
        ps[k] = p
    elif how == 1:
        ps[k].assign(p.x(), p.y())
    elif how == 2:
        del ps[k]
    else:
        ps.insert(k, p)
    do_compute(c, h)


C22_OPS = [h_compute] * 8 + [h_edit, h_edit, h_both, h_order] + [
    lambda c: a_hull(c).add_point(c.vec()),
    lambda c: a_hull(c).add_point(T.Vector2D(c.d.i(-12, 12), c.d.i(-12, 12))),
    lambda c: a_hull(c).add_points(hull_pts(c)),
    lambda c: a_hull(c).clear(), lambda c: a_hull(c).clear_results(),
    lambda c: a_hull(c).input_points(), lambda c: a_hull(c).vertices(), lambda c: a_hull(c).edges(),
    lambda c: a_hull(c).to_polygon()]

REQUIRED['C22'] = ['ConvexHull methods agree', 'ConvexHull order']
OPS = {'C22': C22_OPS}
