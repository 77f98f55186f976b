"""C31 C32 C33: agreement between construction forms, between shapes, and under symmetries.

The oracles here are relations between several observed executions of the real code (different
routes to the same answer).  Whether an execution is inside the claimed domain and away from the
tolerance bands is asked of the contracts of the other properties."""
import math
from collections import Counter

from ..core import *
from ..core import CONTRACTS, Event
from .. import target as T
from .. import api, exact as X
from .semantics import norm, outcome, age, sane, eqv, describe
from . import (angles, vectors, lines, segments, circles, triangles, polygons, hull, rects, sectors,  # noqa: F401
               matrices)

VV = T.Vector2D
OWNER = {c: n for n, c in T.CLASSES.items()}
_BY = {}


def judges(prop, owner, name):
    k = (prop, owner, name)
    if k not in _BY:
        _BY[k] = [f for o, n, f in CONTRACTS.get(prop, []) if o == owner and n == name]
        assert _BY[k], k
    return _BY[k]


def ask(prop, o, name, *args):
    """call, and say whether the contract of that call judges it: (result snapshot, judged)"""
    static = isinstance(o, str)
    owner = o if static else OWNER[type(o)]
    e = Event()
    e.name = f'{owner}.{name}'
    e.obj = None if static else o
    e.raw_args = args
    e.recv = None if static else snap(o)
    e.args = tuple(snap(a) for a in args)
    e.kw = {}
    e.exc = None
    r = getattr(api.owner(o) if static else o, name)(*args)
    e.raw_ret = r
    e.ret = snap(r)
    e.after = None if static else snap(o)
    e.args_after = tuple(snap(a) for a in args)
    for f in judges(prop, owner, name):
        try:
            if f(e) is None:
                return e.ret, False
        except Exception:
            return e.ret, True         # wrong or unusable: judged, the relation is still examined
    return e.ret, True


# ---------------------------------------------------------------- C31

def flat(s):
    if isinstance(s, tuple):
        return [x for v in s for x in flat(v)]
    return [s]


def near(a, b, tol):
    if isinstance(a, A) and isinstance(b, A):
        d = abs(a.deg - b.deg) % 360
        return min(d, 360 - d) <= tol
    fa, fb = flat(a), flat(b)
    if type(a) is not type(b) or len(fa) != len(fb):
        return False
    for x, y in zip(fa, fb):
        if isnum(x) and isnum(y):
            if not abs(x - y) <= tol:
                return False
        elif x != y:
            return False
    return True


def nears(a, b, tol):
    """like near, with the angle fields of rays and sectors on the circle"""
    if isinstance(a, R) and isinstance(b, R):
        return near(a[:2], b[:2], tol) and near(A(a.deg), A(b.deg), 1e-6)
    if isinstance(a, K) and isinstance(b, K):
        return near(a[:4], b[:4], tol) and near(A(a.start), A(b.start), 1e-6) and near(A(a.end), A(b.end), 1e-6)
    return near(a, b, tol)


def alike(a, b):
    """results of the same query on objects with identical values"""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isbool(a) and not isbool(b):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-7 * (1 + abs(a))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def identical(a, b):
    """equal values, and zeros of the same sign (the direction of (-1, -0.0) is another name for that of (-1, 0.0))"""
    return a == b and all(math.copysign(1, x) == math.copysign(1, y) for x, y in zip(flat(a), flat(b))
                          if isnum(x) and isnum(y) and x == 0)


PLAIN = {k: [e.split(' ') for e in v.split(';') if not e.startswith(('__repr', '__floordiv'))] for k, v in api.QUERIES.items()}


def agree(c, k, what, forms, tol=0.0):
    """forms: [(name, object)]; the first is the reference"""
    d = c.d
    ref = forms[0][1]
    s0 = snap(ref)
    if not sane(s0):
        return
    qs = [d.pick(PLAIN[k]) for _ in range(2)]
    args = []
    for q in qs:
        args.append([api.arg(c, x, lambda x: api.make(c, x)) for x in (q[1] if len(q) > 1 else '')])
    for name, o in forms[1:]:
        s = snap(o)
        MON.judge('forms agree', f'{k} {what} {name}', type(o) is type(ref) and nears(s0, s, tol),
                  lambda: f'{what}: {forms[0][0]} gives {s0}, {name} gives {s}', key=(what, name, s0))
        if not identical(s, s0):
            continue
        for q, a in zip(qs, args):
            x, y = outcome(getattr(ref, q[0]), *a), outcome(getattr(o, q[0]), *a)
            MON.judge('forms answer alike', f'{k} {what} {name}', alike(x, y),
                      lambda: f'{what} {s0}: {describe(q[0], None, a)} answers {x} when built by {forms[0][0]}, '
                              f'{y} when built by {name}', key=(what, name, q[0], s0, repr(a)))


def old(c, k):
    """an object with a past, to be assigned over"""
    c.pool.clear()
    o = api.make(c, k)
    c.pool.clear()
    d = c.d
    for _ in range(d.i(0, 3)):
        if d.chance(.5):
            q = d.pick(PLAIN[k])
            outcome(getattr(o, q[0]), *[api.arg(c, x, lambda x: api.make(c, x)) for x in (q[1] if len(q) > 1 else '')])
        try:
            age(c, o, k)
        except Exception:
            break
    c.pool.clear()
    return o


def did(o, f):
    """apply a mutator and give the object back"""
    f(o)
    return o


def mag(*v):
    return max([abs(x) for x in v] + [1])


def f_angle(c):
    a = c.d.deg(1e6)
    o1, o2, o3 = old(c, 'A'), old(c, 'A'), old(c, 'A')
    agree(c, 'A', 'angle', [('number', T.AngleDeg(a)), ('angle', T.AngleDeg(T.AngleDeg(a))), ('af=', T.AngleDeg(af=a)),
                            ('copy', T.AngleDeg(a).copy()), ('set_degree', did(o1, lambda o: o.set_degree(a))),
                            ('set_angle', did(o2, lambda o: o.set_angle(T.AngleDeg(a)))),
                            ('added', T.AngleDeg() + a), ('normalize_angle', T.AngleDeg(T.AngleDeg.normalize_angle(a)))],
          1e-9 * (1 + abs(a)))


def f_vector(c):
    x, y = c.d.xy()
    o = [old(c, 'V') for _ in range(5)]
    for v in o:
        v.validate()
    agree(c, 'V', 'vector', [('x, y', VV(x, y)), ('x=, y=', VV(x=x, y=y)), ('y=, x=', VV(y=y, x=x)),
                             ('vector', VV(VV(x, y))), ('copy', VV(x, y).copy()), ('get_copy', VV(x, y).get_copy()),
                             ('assign', did(o[0], lambda v: v.assign(x, y))),
                             ('set_x and set_y', did(o[1], lambda v: (v.set_x(x), v.set_y(y)))),
                             ('set_x_y', did(o[2], lambda v: v.set_x_y(x, y))),
                             ('set_vector', did(o[3], lambda v: v.set_vector(VV(x, y))))])
    agree(c, 'V', 'origin', [('0, 0', VV(0, 0)), ('nothing', VV())])


def f_polar(c):
    r, a = c.d.pos_num(1e4), c.d.deg(1e6)
    if c.d.chance(.25):
        r = -r
    g = T.AngleDeg(a)
    o = [old(c, 'V') for _ in range(2)]
    for v in o:
        v.validate()
    agree(c, 'V', 'polar vector', [('r=, a= number', VV(r=r, a=a)), ('r=, a= angle', VV(r=r, a=g)), ('a=, r=', VV(a=a, r=r)),
                                   ('from_polar number', VV.from_polar(r, a)), ('from_polar angle', VV.from_polar(r, g)),
                                   ('polar2vector number', VV.polar2vector(r, a)), ('polar2vector angle', VV.polar2vector(r, g)),
                                   ('set_polar number', did(o[0], lambda v: v.set_polar(r, a))),
                                   ('set_polar angle', did(o[1], lambda v: v.set_polar(r, g))),
                                   ('rotated', VV(r, 0).rotated_vector(a)), ('trigonometry', VV(r * g.cos(), r * g.sin())),
                                   ('set_dir', did(VV(0, r), lambda v: v.set_dir(g)) if r > 0 else
                                    did(VV(0, r), lambda v: v.set_dir(g + 180))),
                                   ('matrix', T.Matrix2D.make_rotation(g).transform(VV(r, 0)))],
          1e-9 * (1 + abs(r)) * (1 + abs(a) / 1000))


def f_line(c):
    p, q = c.nvec(), c.nvec()
    if p.dist(q) < 1e-6:
        q = VV(p.x() + 1, p.y())
    l = T.Line2D(p, q)
    agree(c, 'L', 'line through points', [('p, q', l), ('p1=, p2=', T.Line2D(p1=p, p2=q)), ('p2=, p1=', T.Line2D(p2=q, p1=p)),
                                          ('line', T.Line2D(l)), ('l=', T.Line2D(l=l)), ('copy', l.copy()),
                                          ('coefficients', T.Line2D(l.a(), l.b(), l.c())),
                                          ('a=, b=, c=', T.Line2D(a=l.a(), b=l.b(), c=l.c())),
                                          ('segment', T.Segment2D(p, q).line())], 1e-9 * mag(*snap(l)))
    a = c.d.deg(1e6)
    g = T.AngleDeg(a)
    agree(c, 'L', 'line with direction', [('point, number', T.Line2D(p, a)), ('point, angle', T.Line2D(p, g)),
                                          ('p=, a= number', T.Line2D(p=p, a=a)), ('p=, a= angle', T.Line2D(p=p, a=g)),
                                          ('line', T.Line2D(T.Line2D(p, g)))],
          1e-9 * mag(p.x(), p.y()) * (1 + abs(a) / 1000))


def f_segment(c):
    (x, y), (u, v) = c.d.xy(), c.d.xy()
    o = [old(c, 'S') for _ in range(4)]
    p, q = VV(x, y), VV(u, v)
    agree(c, 'S', 'segment', [('numbers', T.Segment2D(x, y, u, v)), ('points', T.Segment2D(p, q)), ('copy', T.Segment2D(p, q).copy()),
                              ('assign numbers', did(o[0], lambda s: s.assign(x, y, u, v))),
                              ('assign points', did(o[1], lambda s: s.assign(p, q))),
                              ('reversed twice', T.Segment2D(p, q).reversed_segment().reversed_segment())])
    agree(c, 'S', 'no segment', [('nothing', T.Segment2D()), ('zeros', T.Segment2D(0, 0, 0, 0)), ('assign', did(o[2], lambda s: s.assign()))])
    r, a = c.d.pos_num(1e4), c.d.deg(1e6)
    if c.d.chance(.3):
        r = -r
    agree(c, 'S', 'segment with direction', [('point, length, number', T.Segment2D(p, r, a)), ('point, length, angle', T.Segment2D(p, r, T.AngleDeg(a))),
                                             ('assign', did(o[3], lambda s: s.assign(p, r, a))),
                                             ('points', T.Segment2D(p, p + VV.from_polar(r, a)))],
          1e-9 * mag(x, y, r) * (1 + abs(a) / 1000))


def f_ray(c):
    p, a = c.nvec(), c.d.deg(1e6)
    agree(c, 'R', 'ray with direction', [('number', T.Ray2D(p, a)), ('angle', T.Ray2D(p, T.AngleDeg(a))), ('copy', T.Ray2D(p, a).copy())], 0)
    q = c.nvec()
    if p.dist(q) > 1e-6:
        agree(c, 'R', 'ray through a point', [('point', T.Ray2D(p, q)), ('its direction', T.Ray2D(p, (q - p).th())),
                                              ('segment direction', T.Ray2D(p, T.Segment2D(p, q).direction())),
                                              ('copy', T.Ray2D(p, q).copy())], 1e-9)


def f_circle(c):
    p, r = c.nvec(), c.d.num(-1e4, 1e4)
    o = old(c, 'C')
    agree(c, 'C', 'circle', [('new', T.Circle2D(p, r)), ('assign', did(o, lambda k: k.assign(p, r))),
                             ('its parts', T.Circle2D(T.Circle2D(p, r).center(), T.Circle2D(p, r).radius()))])
    agree(c, 'C', 'point circle', [('point', T.Circle2D(p)), ('radius 0', T.Circle2D(p, 0))])
    agree(c, 'C', 'no circle', [('nothing', T.Circle2D()), ('zeros', T.Circle2D(VV(0, 0), 0))])


def f_triangle(c):
    p, q, r = c.nvec(), c.nvec(), c.nvec()
    o = [old(c, 'T') for _ in range(2)]
    agree(c, 'T', 'triangle', [('points', T.Triangle2D(p, q, r)), ('segment, point', T.Triangle2D(T.Segment2D(p, q), r)),
                               ('assign points', did(o[0], lambda t: t.assign(p, q, r))),
                               ('assign segment', did(o[1], lambda t: t.assign(T.Segment2D(p, q), r)))])
    t = T.Triangle2D(p, q, r)
    n = mag(p.x(), p.y(), q.x(), q.y(), r.x(), r.y())
    for m, st in (('signed_area', 'signed_area_st'), ('double_signed_area', 'double_signed_area_st'), ('ccw', 'tri_ccw'),
                  ('centroid', 'tri_centroid'), ('incenter', 'tri_incenter'), ('circumcenter', 'tri_circumcenter'),
                  ('orthocenter', 'tri_orthocenter')):
        if abs(t.signed_area()) < 1e-3 * n or n > 1000:
            break
        x, y = outcome(getattr(t, m)), outcome(getattr(T.Triangle2D, st), p, q, r)
        MON.judge('object and static form agree', m, alike(x, y), lambda: f'{m} of {snap(t)} is {x}, the static form gives {y}',
                  key=(m, snap(t)))


def f_rect(c):
    d = c.d
    (x, y), l, w = d.xy(), d.num(-1e4, 1e4), d.num(-1e4, 1e4)
    p, z = VV(x, y), T.Size2D(l, w)
    o = [old(c, 'Q') for _ in range(6)]
    RR = T.Rect2D
    forms = [('numbers', RR(x, y, l, w)), ('point, numbers', RR(p, l, w)), ('point, size', RR(p, z)),
             ('rect', RR(RR(x, y, l, w))), ('assign numbers', did(o[0], lambda q: q.assign(x, y, l, w))),
             ('assign point', did(o[1], lambda q: q.assign(p, l, w))), ('assign size', did(o[2], lambda q: q.assign(p, z))),
             ('assign rect', did(o[3], lambda q: q.assign(RR(x, y, l, w)))),
             ('set_size', did(RR(x, y, 1, 1), lambda q: q.set_size(l, w))), ('set_size size', did(RR(x, y, 1, 1), lambda q: q.set_size(z))),
             ('moved', did(o[4], lambda q: (q.set_size(z), q.move_top_left(p))))]
    agree(c, 'Q', 'rectangle', forms)
    agree(c, 'Q', 'rectangle by centre', [('numbers', RR.from_center(x, y, l, w)), ('point', RR.from_center(p, l, w))])
    al, aw = abs(l), abs(w)
    b = VV(x + al, y + aw)
    tol = 1e-12 * mag(x, y, l, w)
    agree(c, 'Q', 'rectangle by corners', [('numbers', RR(x, y, al, aw)), ('corners', RR(p, b)), ('corners turned', RR(b, p)),
                                           ('other corners', RR(VV(b.x(), y), VV(x, b.y()))),
                                           ('assign corners', did(o[5], lambda q: q.assign(p, b))),
                                           ('assign corners turned', did(old(c, 'Q'), lambda q: q.assign(b, p))),
                                           ('from_center', RR.from_center(x + al / 2, y + aw / 2, al, aw)),
                                           ('from_center point', RR.from_center(VV(x + al / 2, y + aw / 2), al, aw)),
                                           ('move_center', did(RR(0, 0, al, aw), lambda q: q.move_center(VV(x + al / 2, y + aw / 2)))),
                                           ('move_bottom_right', did(RR(0, 0, al, aw), lambda q: q.move_bottom_right(b)))], tol)


def f_size(c):
    l, w = c.d.num(), c.d.num()
    o = [old(c, 'Z') for _ in range(2)]
    agree(c, 'Z', 'size', [('numbers', T.Size2D(l, w)), ('assign', did(o[0], lambda z: z.assign(l, w))),
                           ('set', did(o[1], lambda z: (z.set_length(l), z.set_width(w)))), ('signs', T.Size2D(-l, abs(w)))])


def f_sector(c):
    d = c.d
    p, a, b, s, e = c.nvec(), d.pos_num(1e3, True), d.pos_num(1e3, True), d.deg(1e6), d.deg(1e6)
    o = [old(c, 'K') for _ in range(2)]
    agree(c, 'K', 'sector', [('numbers', T.Sector2D(p, a, b, s, e)), ('angles', T.Sector2D(p, a, b, T.AngleDeg(s), T.AngleDeg(e))),
                             ('mixed', T.Sector2D(p, a, b, s, T.AngleDeg(e))),
                             ('assign', did(o[0], lambda k: k.assign(p, a, b, s, e))),
                             ('assign angles', did(o[1], lambda k: k.assign(p, a, b, T.AngleDeg(s), T.AngleDeg(e))))])


def f_matrix(c):
    d = c.d
    v = [d.num(-100, 100) for _ in range(6)]
    MM = T.Matrix2D
    o = [old(c, 'M') for _ in range(5)]
    agree(c, 'M', 'matrix', [('numbers', MM(*v)), ('assign', did(o[0], lambda m: m.assign(*v))), ('times identity', MM(*v) * MM()),
                             ('identity times', MM() * MM(*v))], 0)
    agree(c, 'M', 'identity', [('nothing', MM()), ('reset', did(o[1], lambda m: m.reset())), ('numbers', MM(1, 0, 0, 1, 0, 0))])
    x, y = d.num(-100, 100), d.num(-100, 100)
    agree(c, 'M', 'translation', [('make', MM.make_translation(x, y)), ('numbers', MM(1, 0, 0, 1, x, y)), ('translate', did(MM(), lambda m: m.translate(x, y))),
                                  ('assign', did(o[2], lambda m: m.assign(1, 0, 0, 1, x, y)))])
    agree(c, 'M', 'scaling', [('make', MM.make_scaling(x, y)), ('numbers', MM(x, 0, 0, y, 0, 0)), ('scale', did(MM(), lambda m: m.scale(x, y)))])
    g = T.AngleDeg(d.deg(1e6))
    agree(c, 'M', 'rotation', [('make', MM.make_rotation(g)), ('numbers', MM(g.cos(), -g.sin(), g.sin(), g.cos(), 0, 0)),
                               ('rotate', did(did(o[3], lambda m: m.reset()), lambda m: m.rotate(g)))], 1e-12)
    m, p = MM(*v), c.nvec()
    for n, r in (('transform numbers', m.transform(p.x(), p.y())), ('product', m * p)):
        MON.judge('forms agree', f'M {n}', near(snap(m.transform(p)), snap(r), 1e-9 * mag(p.x(), p.y()) * 300),
                  lambda: f'{snap(m)} on {snap(p)}: transform gives {snap(m.transform(p))}, {n} gives {snap(r)}', key=(n, snap(m), snap(p)))


def f_polygon(c):
    pts = c.simple_pts() if c.d.chance(.6) else c.pts(1, 6)
    vs = [VV(*p) for p in pts]
    o = [old(c, 'P') for _ in range(2)]
    forms = [('list', T.Polygon2D(list(vs))), ('assign', did(o[0], lambda p: p.assign(list(vs)))),
             ('its vertices', T.Polygon2D(T.Polygon2D(list(vs)).vertices())),
             ('one by one', did(T.Polygon2D([]), lambda p: [p.add_vertex(v) for v in vs])),
             ('started by assigning', did(o[1], lambda p: (p.assign(vs[:1]), [p.add_vertex(v) for v in vs[1:]])))]
    if len(vs) > 1:
        forms.append(('separate', T.Polygon2D(*vs)))
    agree(c, 'P', 'polygon', forms)
    agree(c, 'P', 'no polygon', [('nothing', T.Polygon2D()), ('cleared', did(old(c, 'P'), lambda p: p.clear()))])


def f_hull(c):
    pts = [VV(*c.d.xy()) for _ in range(c.d.count(3, 8, 30))]
    m = c.d.pick((T.MethodType.WRAPPING_METHOD, T.MethodType.GRAHAN_SCAN))
    one = T.ConvexHull(list(pts))
    two = T.ConvexHull([])
    used = T.ConvexHull([VV(*c.d.xy()) for _ in range(4)])
    used.compute(m)
    used.clear()
    for h in (two, used):
        k = c.d.i(0, len(pts))
        h.add_points(list(pts[:k]))
        for p in pts[k:]:
            h.add_point(p)
    for h in (one, two, used):
        h.compute(m)
    if c.d.chance(.5):
        one.clear_results()
        one.compute(m)
    xp = [X.P(p.x(), p.y()) for p in pts]
    if hull.domain(xp) is None or len(hull.hull_of(xp)) < 3:
        return
    raw = [(p.x(), p.y()) for p in pts]
    for n, h in (('added', two), ('cleared and added', used)):
        MON.judge('forms agree', f'H {n}', Counter(snap(h).inputs) == Counter(raw) and extreme(one, raw) == extreme(h, raw) and
                  math.isclose(one.to_polygon().area(), h.to_polygon().area(), rel_tol=1e-9),
                  lambda: f'hull of {[snap(p) for p in pts]} is {snap(one)[1:]} from a list, {snap(h)[1:]} when {n}', key=(n, snap(one)))


def quarter(v):
    return v * 4 == int(v * 4) and abs(v) <= 1e6


def f_number(c):
    """operations taking an angle: object and plain number have the same effect"""
    d = c.d
    a, b, x = d.deg(1e6), d.deg(1e6), d.deg(1e6)
    if d.chance(.7):
        a, b, x = (round(v * 4) / 4 for v in (a, b, x))
    ex = quarter(a) and quarter(b) and quarter(x)
    o = T.AngleDeg(x)
    n = d.i(0, 8)
    if n <= 3 and ex:
        q = ('is_left_of', 'is_right_of', 'is_left_equal_of', 'is_right_equal_of')[n]
        f, g = getattr(o, q)(a), getattr(o, q)(T.AngleDeg(a))
    elif n == 4 and ex:
        q = 'is_within'
        f, g = o.is_within(a, b), o.is_within(T.AngleDeg(a), T.AngleDeg(b))
        h = o.is_within(T.AngleDeg(a), b)
        g = g if f != g else h
    elif n == 5:
        q = '+'
        f, g = o + a, o + T.AngleDeg(a)
    elif n == 6:
        q = '-'
        f, g = o - a, o - T.AngleDeg(a)
    elif n == 7:
        q = 'bisect'
        if not ex or (a - b) % 180 == 0:
            return
        f, g = T.AngleDeg.bisect(a, b), T.AngleDeg.bisect(T.AngleDeg(a), T.AngleDeg(b))
    elif n == 8:
        q = d.pick(('rotate', 'set_dir', 'rotated_vector'))
        v, w = VV(*d.xy()), None
        w = VV(v)
        if q == 'rotated_vector':
            f, g = v.rotated_vector(a), v.rotated_vector(T.AngleDeg(a))
        else:
            getattr(v, q)(a)
            getattr(w, q)(T.AngleDeg(a))
            f, g = v, w
    else:
        return
    s, t = snap(f), snap(g)
    ok = bool(s) == bool(t) if isbool(s) or isbool(t) else \
        near(s, t, 1e-9 * (1 + abs(a)) * (mag(*s[:2]) if isinstance(s, V) else 1))
    MON.judge('angles and numbers agree', q, ok, lambda: f'{q} on {x}: number {a} {b} gives {s}, angle objects {t}', key=(q, a, b, x, s))


def f_own(c):
    """assigning an object from its own parts, reached by reference, gives what copies of those parts give"""
    d = c.d
    k = d.pick('SSTTKKPPQC')
    o = old(c, k)
    if not sane(snap(o)):
        return
    VC = lambda v: VV(v.x(), v.y())
    if k == 'S':
        parts = (o.origin_(), o.terminal_())
        got = [d.pick(parts), d.pick(parts)]
        want = T.Segment2D(*[VC(v) for v in got])
    elif k == 'T':
        parts = (o.a_(), o.b_(), o.c_())
        got = [d.pick(parts) for _ in range(3)]
        want = T.Triangle2D(*[VC(v) for v in got])
    elif k == 'C':
        got = [o.center_(), d.pos_num(100)]
        want = T.Circle2D(VC(got[0]), got[1])
    elif k == 'K':
        parts = (o.angle_left_start_(), o.angle_right_end_())
        got = [o.center_(), o.radius_min(), o.radius_max() + d.i(0, 1), d.pick(parts), d.pick(parts)]
        want = T.Sector2D(VC(got[0]), got[1], got[2], *[T.AngleDeg(x.degree()) for x in got[3:]])
    elif k == 'P':
        own = o.vertices_()
        if not own:
            return
        pts = own if d.chance(.2) else list(reversed(own)) if d.chance(.3) else own[1:] + own[:1] if d.chance(.4) else \
            [d.pick(own) for _ in range(d.i(1, len(own) + 1))]
        want = T.Polygon2D([VC(v) for v in pts])
        got = [pts]
    else:
        j = d.i(0, 5)
        far = VV(*d.xy())
        z = o.size_()
        got = ([o.top_left_(), far], [far, o.top_left_()], [o.top_left_(), z], [far, z], [o.top_left_(), z.width(), z.length()], [o])[j]
        cp = lambda v: VC(v) if isinstance(v, VV) else T.Size2D(v.length(), v.width()) if isinstance(v, T.Size2D) else \
            T.Rect2D(v.left(), v.top(), v.size().length(), v.size().width()) if isinstance(v, T.Rect2D) else v
        want = T.Rect2D(*[cp(v) for v in got])
    was, ws = snap(o), snap(want)
    o.assign(*got)
    MON.judge('assigned from its own parts', k, eqv(snap(o), ws),
              lambda: f'{was} assigned from its own parts is {snap(o)}, from copies of them {ws}', key=(was, ws))


def f_own_edit(c):
    """edits given the object itself, or a part of it reached by reference, do what copies of it do"""
    d = c.d
    k = d.pick('QQQQVVAAMM')
    o = old(c, k)
    was = snap(o)
    if not sane(was):
        return
    VC = lambda v: VV(v.x(), v.y())
    if k == 'Q':
        twin = T.Rect2D(o.left(), o.top(), o.size().length(), o.size().width())
        n = d.pick(('move_center', 'move_top_left', 'move_bottom_right', 'set_top_left', 'set_bottom_right', 'set_size'))
        own = o.size_() if n == 'set_size' else o.top_left_()
        cp = T.Size2D(own.length(), own.width()) if n == 'set_size' else VC(own)
    elif k == 'V':
        twin, own, cp = VC(o), o, VC(o)
        n = d.pick(('add', 'sub', 'set_vector', '__iadd__', '__isub__'))
    elif k == 'A':
        twin, own, cp = T.AngleDeg(o.degree()), o, T.AngleDeg(o.degree())
        n = d.pick(('set_angle', '__iadd__', '__isub__'))
    else:
        if mag(*was) > 1e50:
            return
        twin, own, cp = (T.Matrix2D(*was) for _ in range(3))
        o = own
        n = '__imul__'
    before = snap(twin), snap(cp)
    if before[0] != snap(o) or (k in 'VAM' and before[1] != snap(o)):
        return
    getattr(o, n)(own)
    getattr(twin, n)(cp)
    MON.judge('edited by its own parts', f'{k}.{n}', eqv(snap(o), snap(twin)),
              lambda: f'{was}: {n} of its own part gives {snap(o)}, of a copy of that part {snap(twin)}', key=(n, was))


C31_OPS = [f_own_edit, f_own, f_own, f_angle, f_vector, f_polar, f_line, f_segment, f_ray, f_circle, f_triangle, f_rect, f_rect, f_size, f_sector, f_matrix,
           f_polygon, f_hull, f_number, f_number, f_number]
REQUIRED['C31'] = ['edited by its own parts', 'assigned from its own parts', 'forms agree', 'forms answer alike', 'angles and numbers agree', 'object and static form agree']


# ---------------------------------------------------------------- exact plane data for C32, C33

def gpt(d, pts):
    """a dyadic point, often in special position to earlier ones"""
    k = d.i(0, 12)
    if not pts or k <= 4:
        w = d.pick((4, 4, 10, 30))
        q = d.pick((1, 1, 2))
        p = (d.i(-w, w) / q, d.i(-w, w) / q)
    else:
        a, b = d.pick(pts), d.pick(pts)
        if k == 5:
            p = (a[0], b[1])
        elif k == 6:
            t = d.pick((0.5, 0.25, 2, -1, 0.75, 1.5))
            p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        elif k == 7:
            t = d.pick((1, -1, 0.5, -0.5))
            p = (a[0] - t * (b[1] - a[1]), a[1] + t * (b[0] - a[0]))
        elif k == 8:
            p = (a[0], d.i(-8, 8))
        elif k == 9:
            p = (d.i(-8, 8), a[1])
        elif k == 10:
            e = d.pick(pts)
            p = (a[0] + b[0] - e[0], a[1] + b[1] - e[1])
        elif k == 11:
            p = d.pick(((-a[0], -a[1]), (-a[0], a[1]), (a[0], -a[1]), (a[1], a[0])))
        else:
            p = (a[0] + d.pick((0.25, -0.25, 1, 0.5)), a[1] + d.pick((0, 0.25, -1, 0.5)))
    p = tuple(float(v) if abs(v) <= 200 and v * 64 == int(v * 64) else float(round(v) % 97) for v in p)
    pts.append(p)
    return p


def gpts(d, n, near=()):
    pts = list(near)
    m = len(pts)
    for _ in range(n):
        gpt(d, pts)
    return pts[m:]


def gpoly(d, lo=3, hi=8):
    pts = list(dict.fromkeys(gpts(d, d.count(lo, hi, 30))))
    if d.chance(.7) and len(pts) > 2:
        cx, cy = sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)
        pts.sort(key=lambda p: (math.atan2(p[1] - cy, p[0] - cx), p))
        if d.chance(.5):
            pts.reverse()
    return pts


def vec(p):
    return VV(p[0], p[1])


def rel(label, bucket, ok, msg, key):
    MON.judge(label, bucket, ok, msg, key=key)


# ---------------------------------------------------------------- C32

def r_tri_poly(c):
    d = c.d
    a, b, e = gpts(d, 3)
    p = gpt(d, [a, b, e])
    t, po = T.Triangle2D(vec(a), vec(b), vec(e)), T.Polygon2D([vec(a), vec(b), vec(e)])
    key = (a, b, e, p)
    say = f'triangle {a} {b} {e}'
    rel('triangle and polygon: area', 'area', math.isclose(t.area(), po.area(), rel_tol=1e-9, abs_tol=1e-9),
        lambda: f'{say}: area {t.area()} as a triangle, {po.area()} as a polygon', key)
    rel('triangle and polygon: area', 'double', math.isclose(t.double_signed_area(), po.double_signed_area(), rel_tol=1e-9, abs_tol=1e-9),
        lambda: f'{say}: double signed area {t.double_signed_area()} as a triangle, {po.double_signed_area()} as a polygon', key)
    if t.area() < 1e-3:
        return
    rel('triangle and polygon: orientation', f'{t.ccw()}', bool(t.ccw()) == bool(po.is_counter_clockwise()),
        lambda: f'{say}: ccw {t.ccw()}, as a polygon {po.is_counter_clockwise()}', key)
    x, j = ask('C16', t, 'contains', vec(p))
    y, k = ask('C19', po, 'contains', vec(p))
    if j and k:
        rel('triangle and polygon: containment', f'{bool(x)}', bool(x) == bool(y),
            lambda: f'{say} contains {p}: {x}, as a polygon: {y}', key)
        z = po.dist(vec(p))
        rel('distance and containment', f'polygon {bool(x)}', (z == 0) == bool(x) if x else z > 0,
            lambda: f'{say}: distance of {p} is {z} although contained is {x}', key)
        o = po.dist(vec(p), False)
        s = min(T.Segment2D(vec(u), vec(v)).dist(vec(p)) for u, v in ((a, b), (b, e), (e, a)))
        rel('polygon and its sides: distance', f'{bool(x)}', math.isclose(o, s, rel_tol=1e-9, abs_tol=1e-9),
            lambda: f'{say}: outline distance of {p} is {o}, the nearest side is {s} away', key)
        if not x:
            rel('polygon and its sides: distance', 'plane', math.isclose(z, s, rel_tol=1e-9, abs_tol=1e-9),
                lambda: f'{say}: distance of {p} is {z}, the nearest side is {s} away', key)
    # cut into three at p
    parts = sum(T.Triangle2D.signed_area_st(vec(u), vec(v), vec(p)) for u, v in ((a, b), (b, e), (e, a)))
    rel('areas add up', 'fan', math.isclose(parts, t.signed_area(), rel_tol=1e-9, abs_tol=1e-7),
        lambda: f'{say}: signed area {t.signed_area()}, the parts at {p} sum to {parts}', key)
    box, tri = po.get_bounding_box(), [vec(a), vec(b), vec(e)]
    rel('bounding box holds the shape', 'triangle', all(box.contains_almost(v, 1e-9) for v in tri) and
        box.area() >= t.area() * (2 - 1e-9), lambda: f'{say}: bounding box {snap(box)}', key)
    # sub-triangle cut by a cevian
    m = vec(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
    h = T.Triangle2D(vec(a), m, vec(e)).area() + T.Triangle2D(m, vec(b), vec(e)).area()
    rel('areas add up', 'median', math.isclose(h, t.area(), rel_tol=1e-9, abs_tol=1e-7), lambda: f'{say}: {t.area()} but halves sum to {h}', key)


def corners_of(q):
    return [q.top_left(), q.top_right(), q.bottom_right(), q.bottom_left()]


def a_rect(d, pts):
    p = gpt(d, pts)
    l, w = d.pick((1, 2, 3, 4, 6, 0.5, 8)), d.pick((1, 2, 3, 4, 6, 0.5, 8))
    pts += [(p[0] + l, p[1]), (p[0], p[1] + w), (p[0] + l, p[1] + w)]
    return T.Rect2D(p[0], p[1], l, w)


def r_rect_poly(c):
    d = c.d
    pts = []
    q = a_rect(d, pts)
    p = gpt(d, pts)
    cs = corners_of(q)
    po = T.Polygon2D(cs)
    key = (snap(q), p)
    say = f'rectangle {snap(q)}'
    rel('rectangle and polygon: area', 'area', math.isclose(q.area(), po.area(), rel_tol=1e-9), lambda: f'{say}: area {q.area()}, as a polygon {po.area()}', key)
    rel('rectangle and polygon: box', 'box', near(snap(po.get_bounding_box()), snap(q), 1e-9) and
        near(snap(po.bounding_box_center()), snap(q.center()), 1e-9),
        lambda: f'{say}: bounding box of its corners {snap(po.get_bounding_box())}, centre {snap(po.bounding_box_center())} / {snap(q.center())}', key)
    x, j = ask('C24', q, 'contains', vec(p))
    y, k = ask('C19', po, 'contains', vec(p))
    t1, t2 = T.Triangle2D(*cs[:3]), T.Triangle2D(cs[0], cs[2], cs[3])
    if j and k:
        rel('rectangle and polygon: containment', f'{bool(x)}', bool(x) == bool(y), lambda: f'{say} contains {p}: {x}, as a polygon: {y}', key)
        u, j1 = ask('C16', t1, 'contains', vec(p))
        v, j2 = ask('C16', t2, 'contains', vec(p))
        if j1 and j2:
            rel('a region is the union of its parts', f'{bool(u)}{bool(v)}', bool(x) == (bool(u) or bool(v)),
                lambda: f'{say} contains {p}: {x}, its two triangles: {u}, {v}', key)
    rel('areas add up', 'diagonal', math.isclose(t1.area() + t2.area(), q.area(), rel_tol=1e-9),
        lambda: f'{say}: area {q.area()}, its triangles {t1.area()} and {t2.area()}', key)
    o = po.dist(vec(p), False)
    s = min(T.Segment2D(cs[i], cs[(i + 1) % 4]).dist(vec(p)) for i in range(4))
    rel('polygon and its sides: distance', 'rectangle', math.isclose(o, s, rel_tol=1e-9, abs_tol=1e-9),
        lambda: f'{say}: outline distance of {p} is {o}, nearest side {s}', key)
    s = min(e.dist(vec(p)) for e in (q.left_edge(), q.right_edge(), q.top_edge(), q.bottom_edge()))
    rel('polygon and its sides: distance', 'edge lines', math.isclose(o, s, rel_tol=1e-9, abs_tol=1e-9) if x else s <= o + 1e-9,
        lambda: f'{say}: outline distance of {p} is {o}, nearest edge line {s}', key)


def r_rect_cut(c):
    """crossings of a line with a rectangle are on its outline, and the two halves find them too"""
    d = c.d
    pts = []
    q = a_rect(d, pts)
    p, r = gpts(d, 2, pts)
    if p == r:
        return
    cut = d.pick('LRS')
    o = {'L': T.Line2D, 'R': T.Ray2D, 'S': T.Segment2D}[cut](vec(p), vec(r))
    got, j = ask('C24', q, 'intersection', o)
    if not j:
        return
    cs = corners_of(q)
    po = T.Polygon2D(cs)
    key = (snap(q), snap(o))
    for g in got:
        rel('crossings lie on the outline', f'rect {cut}', po.dist(VV(g.x, g.y), False) < 1e-6 and q.contains_almost(VV(g.x, g.y), 1e-6),
            lambda: f'{snap(q)} and {snap(o)}: {g} is not on the rectangle', key)
        if cut == 'S':
            rel('crossings lie on the cutter', f'rect {cut}', o.dist(VV(g.x, g.y)) < 1e-6, lambda: f'{g} is not on {snap(o)}', key)
        else:
            rel('crossings lie on the cutter', f'rect {cut}', (o if cut == 'L' else o.line()).dist(VV(g.x, g.y)) < 1e-6,
                lambda: f'{g} is not on {snap(o)}', key)
    want = []
    for i in range(2):
        t = T.Triangle2D(cs[0], cs[1 + i], cs[2 + i])
        h, jj = ask('C18', t, 'intersection', o)
        if not jj:
            return
        want += [v for v in h[1:1 + h[0]]]
    a, b = snap(cs[0]), snap(cs[2])
    out = []
    for v in want:      # crossings with the diagonal are not on the outline
        if po.dist(VV(v.x, v.y), False) < 1e-6 and not any(abs(v.x - w.x) + abs(v.y - w.y) < 1e-6 for w in out):
            out.append(v)
    if any(abs(v.x - w.x) + abs(v.y - w.y) < 1e-5 for v in out for w in (a, b)):
        return
    rel('rectangle and triangles: crossings', f'{cut} {len(got)}', same_points(got, out, 1e-6),
        lambda: f'{snap(q)} and {snap(o)}: crossings {got}, its two triangles find {out}', key)


def same_points(a, b, tol):
    b = list(b)
    for p in a:
        h = [q for q in b if abs(p.x - q.x) <= tol and abs(p.y - q.y) <= tol]
        if not h:
            return False
        b.remove(h[0])
    return not b


def r_rects(c):
    d = c.d
    pts = []
    q1, q2 = a_rect(d, pts), a_rect(d, pts)
    p = gpt(d, pts)
    i, u = q1.intersected(q2), q1.united(q2)
    x, y = q1.contains(vec(p)), q2.contains(vec(p))
    key = (snap(q1), snap(q2), p)
    b1, b2 = rects.box(snap(q1)), rects.box(snap(q2))
    w, h = min(b1[2], b2[2]) - max(b1[0], b2[0]), min(b1[3], b2[3]) - max(b1[1], b2[1])
    if w > 0 and h > 0:
        rel('common part of two rectangles', f'{bool(x)}{bool(y)}', bool(i.contains(vec(p))) == (bool(x) and bool(y)),
            lambda: f'{snap(q1)} and {snap(q2)}: {p} in both is {x and y}, in their common part {i.contains(vec(p))}', key)
        rel('common part of two rectangles', 'area', i.area() <= min(q1.area(), q2.area()) + 1e-9, lambda: f'area of the common part {i.area()}', key)
        a, b, e = i.area(), q1.area(), q2.area()
        rel('areas add up', 'rectangles', u.area() >= b + e - a - 1e-9, lambda: f'{snap(q1)} {snap(q2)}: union {u.area()}, parts {b} + {e} - {a}', key)
    if x or y:
        rel('common part of two rectangles', 'united', bool(u.contains(vec(p))), lambda: f'{p} is in {snap(q1)} or {snap(q2)} but not in {snap(u)}', key)
    k = T.Polygon2D(corners_of(q1) + corners_of(q2)).get_bounding_box()
    rel('united rectangle and bounding box', 'box', near(snap(k), snap(u), 1e-9), lambda: f'{snap(q1)} {snap(q2)}: united {snap(u)}, bounding box {snap(k)}', key)


def r_clip_parts(c):
    """a polygon cut by a vertical line: the parts add up (rectangles reaching beyond top and bottom)"""
    d = c.d
    pts = gpoly(d)
    if len(pts) < 3:
        return
    fp = [X.P(*p) for p in pts]
    if not polygons.simple(fp) or X.poly_area2(fp) == 0 or 'convexish' not in polygons.shape(fp):
        return
    po = T.Polygon2D([vec(p) for p in pts])
    x = d.i(-20, 20) / 2
    if any(abs(p[0] - x) < 1e-3 for p in pts):
        x += 1 / 8
    lo, hi = -500, 500
    parts = []
    for q in (T.Rect2D(lo, lo, x - lo, 1000), T.Rect2D(x, lo, hi - x, 1000)):
        parts.append(po.get_rectangle_clipped_polygon(q))
    s = sum(p.area() for p in parts)
    rel('areas add up', f'clip {sum(len(p.vertices()) > 0 for p in parts)}', math.isclose(s, po.area(), rel_tol=1e-9, abs_tol=1e-6),
        lambda: f'polygon {pts} of area {po.area()} cut at x={x}: parts {[p.area() for p in parts]}', (tuple(pts), x))
    rel('areas add up', 'orientation kept', all(len(p.vertices()) < 3 or p.area() < 1e-9 or p.is_clockwise() == po.is_clockwise() for p in parts),
        lambda: f'{pts}: a part has the other orientation', (tuple(pts), x))


def r_seg_poly(c):
    d = c.d
    a, b, p = gpts(d, 3)
    if a == b:
        return
    s, po = T.Segment2D(vec(a), vec(b)), T.Polygon2D([vec(a), vec(b)])
    key = (a, b, p)
    u, v = s.dist(vec(p)), po.dist(vec(p), False)
    rel('segment and two-vertex polygon', 'outline', math.isclose(u, v, rel_tol=1e-9, abs_tol=1e-9), lambda: f'{a} {b}: distance of {p} is {u} / {v}', key)
    w = po.dist(vec(p))
    rel('segment and two-vertex polygon', 'plane', math.isclose(u, w, rel_tol=1e-9, abs_tol=1e-9), lambda: f'{a} {b}: distance of {p} is {u} / {w}', key)
    n = s.nearest_point(vec(p))
    rel('nearest point and distance', 'segment', math.isclose(n.dist(vec(p)), u, rel_tol=1e-9, abs_tol=1e-9) and s.dist(n) < 1e-6,
        lambda: f'{a} {b}: distance of {p} is {u}, nearest point {snap(n)}', key)
    l = T.Line2D(vec(a), vec(b))
    ld = l.dist(vec(p))
    rel('line and segment: distance', 'bound', ld <= u + 1e-9, lambda: f'{a} {b}: line distance {ld} exceeds segment distance {u}', key)
    pr = l.projection(vec(p))
    t = ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1]))
    n2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
    if 0 <= t <= n2:
        rel('line and segment: distance', 'foot', math.isclose(ld, u, rel_tol=1e-9, abs_tol=1e-9) and near(snap(pr), snap(n), 1e-6),
            lambda: f'{a} {b}: foot of {p} is inside, line distance {ld} / {u}, projection {snap(pr)} / {snap(n)}', key)
    else:
        e = a if t < 0 else b
        rel('line and segment: distance', 'end', math.isclose(u, vec(e).dist(vec(p)), rel_tol=1e-9, abs_tol=1e-9),
            lambda: f'{a} {b}: distance of {p} is {u}, its nearer end is {vec(e).dist(vec(p))} away', key)
    f = s.farthest_dist(vec(p))
    rel('nearest point and distance', 'farthest', math.isclose(f, max(vec(a).dist(vec(p)), vec(b).dist(vec(p))), rel_tol=1e-9, abs_tol=1e-9) and f >= u - 1e-9,
        lambda: f'{a} {b}: farthest distance of {p} is {f}', key)
    on = t * (n2 - t) >= 0 and (b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0])
    x, y = s.on_segment(vec(p)), s.on_segment_weakly(vec(p))
    rel('distance and containment', f'segment {on}', bool(x) == on and (not on or bool(y)) and (u == 0 or u < 1e-9 if on else u > 1e-9),
        lambda: f'{a} {b}: {p} on it {x}, weakly {y}, distance {u}', key)


def r_segs(c):
    d = c.d
    a, b, e, f = gpts(d, 4)
    s, t = T.Segment2D(vec(a), vec(b)), T.Segment2D(vec(e), vec(f))
    key = (a, b, e, f)
    x, j = ask('C09', s, 'exist_intersection', t)
    if not j:
        return
    dd = s.dist(t)
    rel('distance and crossing', f'{bool(x)}', (dd < 1e-9) == bool(x), lambda: f'{a}-{b} and {e}-{f}: crossing {x}, distance {dd}', key)
    if a == b or e == f:
        return
    z = min(s.dist(vec(e)), s.dist(vec(f)), t.dist(vec(a)), t.dist(vec(b)))
    if not x:
        rel('distance and crossing', 'ends', math.isclose(dd, z, rel_tol=1e-9, abs_tol=1e-9), lambda: f'{a}-{b} and {e}-{f}: distance {dd}, from the ends {z}', key)
    i, k = ask('C10', s, 'intersection', t)
    if k and isinstance(i, V) and i.ok:
        g = VV(i.x, i.y)
        rel('crossings lie on the cutter', 'segments', s.dist(g) < 1e-6 and t.dist(g) < 1e-6 and bool(x), lambda: f'{a}-{b} and {e}-{f}: {i} is not on both, crossing {x}', key)
        l = s.line().intersection(t.line())
        rel('segment, ray and line: crossing', 'segments', l.is_valid() and near(snap(l), i, 1e-6), lambda: f'{a}-{b} and {e}-{f}: {i}, their lines {snap(l)}', key)
        m = s.intersection(t.line())
        rel('segment, ray and line: crossing', 'segment and line', m is not None and near(snap(m), i, 1e-6), lambda: f'{a}-{b} and {e}-{f}: {i}, with the line {snap(m)}', key)
        r = T.Ray2D(vec(a), vec(b))
        if g.dist(vec(a)) > 1e-2 and g.dist(vec(e)) > 1e-2:
            h = r.intersection(t.line())
            rel('segment, ray and line: crossing', 'ray and line', h.is_valid() and near(snap(h), i, 1e-5), lambda: f'{a}-{b} and {e}-{f}: {i}, as a ray {snap(h)}', key)
            h = r.intersection(T.Ray2D(vec(e), vec(f)))
            rel('segment, ray and line: crossing', 'rays', h.is_valid() and near(snap(h), i, 1e-5), lambda: f'{a}-{b} and {e}-{f}: {i}, as rays {snap(h)}', key)
    if k and not (isinstance(i, V) and i.ok):
        if not s.line().is_parallel(t.line()):
            l = s.line().intersection(t.line())
            if l.is_valid() and min(l.dist(vec(z)) for z in (a, b, e, f)) > 1e-6:
                o = max(s.dist(l), t.dist(l))
                rel('segment, ray and line: crossing', 'apart', o > 1e-9, lambda: f'{a}-{b} and {e}-{f} do not cross, but their lines do at {snap(l)} on both', key)


def r_circle(c):
    d = c.d
    pts = []
    o = gpt(d, pts)
    r = d.pick((1, 2, 3, 5, 2.5, 0.5, 13))
    pts += [(o[0] + r, o[1]), (o[0], o[1] - r), (o[0] + 0.6 * r, o[1] + 0.8 * r)] if r != 13 else [(o[0] + 5, o[1] + 12)]
    pts = [p for p in pts if all(v * 64 == int(v * 64) for v in p)]
    a, b, p = gpts(d, 3, pts)
    k = T.Circle2D(vec(o), r)
    key = (o, r, a, b, p)
    x, j = ask('C15', k, 'contains', vec(p))
    dd = vec(o).dist(vec(p))
    if j and abs(dd - r) > 1e-4:
        rel('circle and distance', f'{bool(x)}', bool(x) == (dd < r), lambda: f'{snap(k)}: {p} at distance {dd}, contained {x}', key)
    ann = T.Sector2D(vec(o), 0, r, -180, 180)
    if a == b:
        return
    l, s, y = T.Line2D(vec(a), vec(b)), T.Segment2D(vec(a), vec(b)), T.Ray2D(vec(a), vec(b))
    gl, j1 = ask('C13', k, 'intersection', l)
    gs, j2 = ask('C13', k, 'intersection', s)
    gr, j3 = ask('C13', k, 'intersection', y)
    ld = l.dist(vec(o))
    if j1:
        if abs(ld - r) > 1e-3:
            rel('circle and line: distance', f'{len(gl)}', len(gl) == (2 if ld < r else 0), lambda: f'{snap(k)} and {snap(l)}: {len(gl)} points at distance {ld}', key)
        for g in gl:
            q = VV(g.x, g.y)
            rel('crossings lie on the outline', 'circle', abs(q.dist(vec(o)) - r) < 1e-4 and l.dist(q) < 1e-4, lambda: f'{snap(k)} and {snap(l)}: {g}', key)
    if j1 and j2 and j3 and min(abs(vec(v).dist(vec(o)) - r) for v in (a, b)) > 1e-3:
        rel('segment, ray and line: crossing', f'circle {len(gs)}{len(gr)}{len(gl)}',
            within(gs, gr) and within(gr, gl), lambda: f'{snap(k)} {a} {b}: segment {gs}, ray {gr}, line {gl}', key)
        on = [g for g in gl if s.dist(VV(g.x, g.y)) < 1e-7]
        rel('segment, ray and line: crossing', 'circle and segment', same_points(on, gs, 1e-4), lambda: f'{snap(k)} {a} {b}: line points on the segment {on}, segment points {gs}', key)
    if j2 and abs(vec(a).dist(vec(o)) - r) > 1e-3 and abs(vec(b).dist(vec(o)) - r) > 1e-3:
        n = sum(bool(k.contains(v)) for v in (vec(a), vec(b)))
        if n == 1:
            rel('circle and line: distance', 'one end inside', len(gs) == 1, lambda: f'{snap(k)}: segment {a} {b} with one end inside has {gs}', key)
        if n == 2:
            rel('circle and line: distance', 'both ends inside', len(gs) == 0, lambda: f'{snap(k)}: segment {a} {b} inside has {gs}', key)


def within(a, b):
    b = list(b)
    for p in a:
        h = [q for q in b if abs(p.x - q.x) <= 1e-4 and abs(p.y - q.y) <= 1e-4]
        if not h:
            return False
        b.remove(h[0])
    return True


def r_sector(c):
    d = c.d
    o = gpt(d, [])
    a, b = sorted((d.pick((0, 1, 2, 0.5)), d.pick((3, 4, 5, 2.5))))
    s, m, e = d.i(-12, 12) * 15, d.i(1, 20), d.i(1, 3)
    w1, w2 = m * 15, e * 10
    if w1 + w2 >= 360:
        return
    # sweeping from start to end: one sector cut in two
    sg = 1 if T.Sector2D(VV(0, 0), 0, 1, 0, 90).contains(VV(0.5, 0.5)) else -1
    whole = T.Sector2D(vec(o), a, b, s, s + sg * (w1 + w2))
    p1, p2 = T.Sector2D(vec(o), a, b, s, s + sg * w1), T.Sector2D(vec(o), a, b, s + sg * w1, s + sg * (w1 + w2))
    rest = T.Sector2D(vec(o), a, b, s + sg * (w1 + w2), s)
    key = (o, a, b, s, w1, w2)
    say = f'{snap(whole)}'
    tot = T.Circle2D(vec(o), b).area() - T.Circle2D(vec(o), a).area()
    rel('areas add up', 'sector', math.isclose(whole.area(), p1.area() + p2.area(), rel_tol=1e-6, abs_tol=1e-6),
        lambda: f'{say}: area {whole.area()}, parts {p1.area()} and {p2.area()}', key)
    rel('areas add up', 'annulus', math.isclose(tot, p1.area() + p2.area() + rest.area(), rel_tol=1e-6, abs_tol=1e-6),
        lambda: f'{say}: the three sectors have {p1.area()}, {p2.area()}, {rest.area()}, the annulus {tot}', key)
    for n, f in (('min', T.Sector2D.get_circumference_min), ('max', T.Sector2D.get_circumference_max)):
        rel('areas add up', f'arc {n}', math.isclose(f(whole), f(p1) + f(p2), rel_tol=1e-6, abs_tol=1e-6), lambda: f'{say}: {n} arc {f(whole)}, parts {f(p1)}, {f(p2)}', key)
    r, t = d.pick((0.25, 0.75, 1.5, 2.25, 3.5, 4.5, 6)), s + d.i(-35, 35) * 5 + 2.5
    p = vec(o) + VV.from_polar(r, t)
    if abs(r - a) < 1e-3 or abs(r - b) < 1e-3:
        return
    q = [bool(k.contains(p)) for k in (whole, p1, p2, rest)]
    rel('a region is the union of its parts', f'sector {q}', q[0] == (q[1] or q[2]) and q.count(True) - q[0] <= 1,
        lambda: f'{say}: {snap(p)} in whole, parts, rest: {q}', key)
    inr = bool(T.Circle2D(vec(o), b).contains(p)) and not (a > 0 and bool(T.Circle2D(vec(o), a).contains(p)))
    rel('a region is the union of its parts', f'annulus {inr}', inr == (q[1] or q[2] or q[3]), lambda: f'{say}: {snap(p)} in the annulus {inr}, in the sectors {q}', key)


def r_hull(c):
    d = c.d
    pts = gpts(d, d.count(3, 8, 30))
    ext = hull.hull_of([X.P(*p) for p in pts])
    if len(ext) < 3:
        return
    h = T.ConvexHull([vec(p) for p in pts])
    h.compute(d.pick((T.MethodType.WRAPPING_METHOD, T.MethodType.GRAHAN_SCAN)))
    po = h.to_polygon()
    key = tuple(pts)
    out = [p for p in pts if not po.contains(vec(p))]
    rel('hull and polygon', 'contains its points', not out, lambda: f'hull {snap(po)} of {pts} does not contain {out}', key)
    n = len(ext)
    fan = sum(abs(T.Triangle2D.signed_area_st(vec(tuple(map(float, ext[0]))), vec(tuple(map(float, ext[i]))), vec(tuple(map(float, ext[i + 1]))))) for i in range(1, n - 1))
    rel('hull and polygon', f'area {n}', math.isclose(po.area(), fan, rel_tol=1e-9, abs_tol=1e-9), lambda: f'hull {snap(po)} of {pts}: area {po.area()}, triangles {fan}', key)
    es = h.edges()
    per = sum(e.length() for e in es)
    want = sum(vec(tuple(map(float, ext[i]))).dist(vec(tuple(map(float, ext[(i + 1) % n])))) for i in range(n))
    rel('hull and polygon', 'perimeter', math.isclose(per, want, rel_tol=1e-9, abs_tol=1e-9), lambda: f'hull of {pts}: edges sum to {per}, perimeter {want}', key)
    p = gpt(d, list(pts))
    if n == 3:
        t = T.Triangle2D(*[vec(tuple(map(float, q))) for q in ext])
        x, j = ask('C16', t, 'contains', vec(p))
        if j:
            rel('hull and polygon', 'triangle', bool(x) == bool(po.contains(vec(p))), lambda: f'hull {snap(po)}: contains {p} {po.contains(vec(p))}, as a triangle {x}', key)
    # a point of the hull does not change it, a point outside does
    g = T.ConvexHull([vec(q) for q in pts + [p]])
    g.compute()
    inside = bool(po.contains(vec(p)))
    grown = g.to_polygon().area() > po.area() + 1e-9
    rel('hull and polygon', f'grows {grown}', grown != inside, lambda: f'hull of {pts}: {p} inside {inside}, but the area goes from {po.area()} to {g.to_polygon().area()}', key)


def r_circum(c):
    d = c.d
    a, b, e = gpts(d, 3)
    if abs(X.area2(X.P(*a), X.P(*b), X.P(*e))) < 1:
        return
    k = T.Circle2D.circum_circle(vec(a), vec(b), vec(e))
    t = T.Triangle2D(vec(a), vec(b), vec(e))
    key = (a, b, e)
    m = 1e-6 * (1 + k.radius()) * (1 + k.radius())
    rel('circumcircle and triangle', 'centre', near(snap(k.center()), snap(t.circumcenter()), m), lambda: f'{a} {b} {e}: circumcircle {snap(k)}, circumcentre {snap(t.circumcenter())}', key)
    rel('circumcircle and triangle', 'radius', all(abs(k.center().dist(vec(p)) - k.radius()) < m for p in (a, b, e)), lambda: f'{a} {b} {e}: circumcircle {snap(k)}', key)
    l1, l2 = T.Line2D.perpendicular_bisector(vec(a), vec(b)), T.Segment2D(vec(b), vec(e)).perpendicular_bisector()
    x = l1.intersection(l2)
    rel('circumcircle and triangle', 'bisectors', x.is_valid() and near(snap(x), snap(k.center()), m), lambda: f'{a} {b} {e}: bisectors meet at {snap(x)}, circumcircle {snap(k)}', key)
    p = gpt(d, [a, b, e])
    z = k.center().dist(vec(p)) - k.radius()
    if abs(z) > max(m, 1e-3):
        y = T.Circle2D.circum_circle_contains(vec(p), vec(a), vec(b), vec(e))
        rel('circumcircle and triangle', f'contains {z < 0}', bool(y) == (z < 0) == bool(k.contains(vec(p))), lambda: f'{a} {b} {e}: {p} in the circumcircle {y}, distance {z}', key)
    g, o, h = t.centroid(), t.circumcenter(), t.orthocenter()
    hm = 30 * m
    rel('circumcircle and triangle', 'Euler line', near(snap(g * 3), snap(h + o * 2), hm), lambda: f'{a} {b} {e}: centroid {snap(g)}, circumcentre {snap(o)}, orthocentre {snap(h)}', key)
    i = t.incenter()
    ds = [T.Segment2D(vec(p), vec(q)).line().dist(i) for p, q in ((a, b), (b, e), (e, a))]
    rel('incentre and sides', 'distance', max(ds) - min(ds) < 1e-6 * (1 + max(ds)) and bool(t.contains(i)), lambda: f'{a} {b} {e}: incentre {snap(i)} at {ds} from the sides', key)


def r_two_circles(c):
    d = c.d
    pts = []
    o = gpt(d, pts)
    p = gpt(d, pts)
    r, s = d.pick((1, 2, 3, 5, 0.5)), d.pick((1, 2, 3, 4, 2.5))
    k, q = T.Circle2D(vec(o), r), T.Circle2D(vec(p), s)
    g, j = ask('C14', k, 'intersection', q)
    h, i = ask('C14', q, 'intersection', k)
    if not (j and i):
        return
    dd = vec(o).dist(vec(p))
    key = (o, p, r, s)
    if min(abs(dd - r - s), abs(dd - abs(r - s))) > 1e-3:
        rel('two circles: distance', f'{len(g)}', len(g) == (2 if abs(r - s) < dd < r + s else 0), lambda: f'{snap(k)} {snap(q)}: {g} at distance {dd}', key)
    rel('two circles: order', f'{len(g)}', same_points(g, h, 1e-4), lambda: f'{snap(k)} {snap(q)}: {g} / {h}', key)
    if len(g) == 2 and abs(g[0].x - g[1].x) + abs(g[0].y - g[1].y) > 1e-2:
        l = T.Line2D(VV(g[0].x, g[0].y), VV(g[1].x, g[1].y))
        e, jj = ask('C13', k, 'intersection', l)
        if jj:
            rel('two circles: common chord', '2', same_points(e, g, 1e-3), lambda: f'{snap(k)} {snap(q)}: {g}, chord gives {e}', key)


def r_matrix(c):
    d = c.d
    p, q = vec(gpt(d, [])), vec(gpt(d, []))
    a = T.AngleDeg(d.deg(1e4))
    r1, r2 = T.Matrix2D.make_rotation(a).transform(p), p.rotated_vector(a)
    key = (snap(p), snap(q), snap(a))
    rel('matrix and vector', 'rotation', near(snap(r1), snap(r2), 1e-9 * 200), lambda: f'{snap(p)} by {snap(a)}: matrix {snap(r1)}, vector {snap(r2)}', key)
    t = T.Matrix2D.make_translation(q.x(), q.y()).transform(p)
    rel('matrix and vector', 'translation', near(snap(t), snap(p + q), 1e-9), lambda: f'{snap(p)} + {snap(q)}: matrix {snap(t)}', key)
    s = T.Matrix2D.make_scaling(3, 3).transform(p)
    rel('matrix and vector', 'scaling', near(snap(s), snap(p * 3), 1e-9), lambda: f'{snap(p)} * 3: matrix {snap(s)}', key)
    if p.r() > 1e-6:
        rel('matrix and vector', 'direction', near(snap(r1.th()), snap(p.th() + a), 1e-6), lambda: f'{snap(p)} by {snap(a)}: direction {snap(r1.th())}', key)


C32_OPS = [r_tri_poly] * 3 + [r_rect_poly] * 3 + [r_rect_cut] * 3 + [r_rects, r_clip_parts, r_seg_poly, r_seg_poly, r_segs, r_segs, r_segs, r_circle, r_circle,
                                                                     r_sector, r_hull, r_circum, r_two_circles, r_matrix]
REQUIRED['C32'] = ['triangle and polygon: area', 'triangle and polygon: orientation', 'triangle and polygon: containment', 'distance and containment',
                   'polygon and its sides: distance', 'areas add up', 'bounding box holds the shape', 'rectangle and polygon: area', 'rectangle and polygon: box',
                   'rectangle and polygon: containment', 'a region is the union of its parts', 'crossings lie on the outline', 'crossings lie on the cutter',
                   'rectangle and triangles: crossings', 'common part of two rectangles', 'united rectangle and bounding box', 'segment and two-vertex polygon',
                   'nearest point and distance', 'line and segment: distance', 'distance and crossing', 'segment, ray and line: crossing', 'circle and distance',
                   'circle and line: distance', 'hull and polygon', 'circumcircle and triangle', 'incentre and sides', 'two circles: distance', 'two circles: order',
                   'two circles: common chord', 'matrix and vector']


# ---------------------------------------------------------------- C33

class Sym:
    """flip y, turn by quarters, scale by a power of two, translate: exact on the data used"""

    def __init__(self, d):
        self.flip = d.i(0, 1)
        self.k = d.i(0, 3)
        self.s = d.pick((1, 1, 1, 1, 2, 4, 0.5, 8, 0.25, 64, 512))
        self.tx = d.pick((0, 0, 1, -7, 40, -100, 500, 2000, -30000)) * 1.0
        self.ty = d.pick((0, 0, 3, -5, 64, -33, 700, -2500, 20000)) * 1.0

    def lin(self, p):
        x, y = p
        if self.flip:
            y = -y
        for _ in range(self.k):
            x, y = -y, x
        return (x * self.s, y * self.s)

    def pt(self, p):
        x, y = self.lin(p)
        return (x + self.tx + 0.0, y + self.ty + 0.0)

    def deg(self, a):
        return (-a if self.flip else a) + 90 * self.k

    def name(self):
        return ('flip ' if self.flip else '') + (f'turn {self.k} ' if self.k else '') + (f'x{self.s} ' if self.s != 1 else '') + \
            ('moved' if self.tx or self.ty else '')


def seg(p, q):
    return T.Segment2D(vec(p), vec(q))


def shapes(kind, pts, lens, degs, flip):
    """object of a kind from exact data; consumes from the front of the lists"""
    def p():
        return vec(pts.pop(0))
    if kind == 'V':
        return p()
    if kind == 'L':
        return T.Line2D(p(), p())
    if kind == 'S':
        return T.Segment2D(p(), p())
    if kind == 'R':
        return T.Ray2D(p(), p())
    if kind == 'C':
        return T.Circle2D(p(), lens.pop(0))
    if kind == 'T':
        return T.Triangle2D(p(), p(), p())
    if kind == 'Q':
        return T.Rect2D(p(), p())
    if kind == 'K':
        a, b = lens.pop(0), lens.pop(0)
        s, e = degs.pop(0), degs.pop(0)
        if flip:
            s, e = e, s
        return T.Sector2D(p(), min(a, b), max(a, b), s, e)
    if kind == 'P':
        vs = [vec(x) for x in pts]
        del pts[:]
        return T.Polygon2D(vs)
    raise KeyError(kind)


NPTS = dict(V=1, L=2, S=2, R=2, C=1, T=3, Q=2, K=1)

# (property whose contract tells the domain, receiver kind, name, argument kinds, what the result is)
#   b boolean, f boolean flipped by reflection, v point or none, m set of points, 0 1 2 number and its dimension,
#   t triangle style list, q rectangle, s signed area (flipped by reflection), -: not judged by a contract
QS = [('C09', 'S', 'exist_intersection', 'S', 'b'), ('C09', 'S', 'exist_intersection', 'L', 'b'),
      ('C09', 'S', 'exist_intersection_except_endpoint', 'S', 'b'), ('C09', 'S', 'intersects_except_endpoint', 'S', 'b'),
      ('C10', 'S', 'intersection', 'S', 'v'), ('C10', 'S', 'intersection', 'L', 'v'),
      ('C11', 'S', 'nearest_point', 'V', 'v'), ('C11', 'S', 'dist', 'V', '1'), ('C11', 'S', 'dist', 'S', '1'),
      ('C11', 'S', 'farthest_dist', 'V', '1'), ('C11', 'S', 'on_segment', 'V', 'b'), ('C11', 'S', 'on_segment_weakly', 'V', 'b'),
      ('C10', 'S', 'contains', 'V', 'b'), ('C11', 'S', 'length', '', '1'), ('C11', 'S', 'projection', 'V', 'v'),
      ('C08', 'L', 'dist', 'V', '1'), ('C08', 'L', 'dist2', 'V', '2'), ('C08', 'L', 'projection', 'V', 'v'), ('C08', 'L', 'intersection', 'L', 'v'),
      ('C08', 'L', 'is_parallel', 'L', 'b'),
      ('C12', 'R', 'intersection', 'L', 'v'), ('C12', 'R', 'intersection', 'R', 'v'), ('C12', 'R', 'in_right_dir', 'V', 'b'),
      ('C13', 'C', 'intersection', 'L', 'm'), ('C13', 'C', 'intersection', 'R', 'm'), ('C13', 'C', 'intersection', 'S', 'm'),
      ('C14', 'C', 'intersection', 'C', 'm'), ('C15', 'C', 'contains', 'V', 'b'), ('C15', 'C', 'area', '', '2'),
      ('C16', 'T', 'area', '', '2'), ('C16', 'T', 'signed_area', '', 's'), ('C16', 'T', 'ccw', '', 'f'), ('C16', 'T', 'contains', 'V', 'b'),
      ('C16', 'T', 'is_valid', '', 'b'),
      ('C17', 'T', 'centroid', '', 'v'), ('C17', 'T', 'incenter', '', 'v'), ('C17', 'T', 'circumcenter', '', 'v'), ('C17', 'T', 'orthocenter', '', 'v'),
      ('C18', 'T', 'intersection', 'L', 't'), ('C18', 'T', 'intersection', 'R', 't'), ('C18', 'T', 'intersection', 'S', 't'),
      ('C24', 'Q', 'contains', 'V', 'b'), ('C24', 'Q', 'intersection', 'L', 'm'), ('C24', 'Q', 'intersection', 'R', 'm'),
      ('C24', 'Q', 'intersection', 'S', 'm'), ('C24', 'Q', 'intersected', 'Q', 'q'), ('C24', 'Q', 'united', 'Q', 'q'),
      ('C23', 'Q', 'area', '', '2'), ('C23', 'Q', 'center', '', 'v'),
      ('C25', 'K', 'contains', 'V', 'b'), ('C25', 'K', 'area', '', '2'),
      ('C19', 'P', 'contains', 'V', 'b'), ('C19', 'P', 'dist', 'V', '1'), ('C20', 'P', 'area', '', '2'), ('C20', 'P', 'double_signed_area', '', 's'),
      ('C20', 'P', 'is_counter_clockwise', '', 'f'), ('C20', 'P', 'get_bounding_box', '', 'q'), ('C20', 'P', 'bounding_box_center', '', 'v')]


def other_order(d, kind, pts):
    if kind in 'SL':
        return pts[::-1], 'ends'
    if kind == 'T':
        o = d.pick([[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]])
        return [pts[i] for i in o], f'vertices {"" if o in ([1, 2, 0], [2, 0, 1]) else "odd"}'
    if kind == 'Q':
        (a, b), (e, f) = pts
        return d.pick([[(e, f), (a, b)], [(a, f), (e, b)], [(e, b), (a, f)]]), 'corners'
    if kind == 'P':
        k = d.i(0, max(0, len(pts) - 1))
        q = pts[k:] + pts[:k]
        if d.chance(.5):
            return q[::-1], 'vertices odd'
        return q, 'vertices '
    return pts, ''


def as_ok(v):
    return isinstance(v, V) and v.ok and finite(v.x, v.y)


def compare(kind, r0, r1, g, odd):
    """does r1 equal the image of r0"""
    s = g.s
    m = 1e-5 * s * 3 + 1e-8 * mag(g.tx, g.ty)
    if kind == 'b':
        return bool(r0) == bool(r1)
    if kind == 'f':
        return (bool(r0) == bool(r1)) == (not (g.flip ^ odd))
    if kind == '1':
        return math.isclose(r1, r0 * s, rel_tol=1e-7, abs_tol=m)
    if kind == '2':
        return math.isclose(r1, r0 * s * s, rel_tol=1e-7, abs_tol=m * s)
    if kind == 's':
        sg = -1 if g.flip ^ odd else 1
        return math.isclose(r1, sg * r0 * s * s, rel_tol=1e-7, abs_tol=m * s)
    if kind == 'v':
        if not as_ok(r0) or not as_ok(r1):
            return as_ok(r0) == as_ok(r1)
        x, y = g.pt((r0.x, r0.y))
        t = m + 1e-6 * mag(x, y)
        return abs(x - r1.x) <= t and abs(y - r1.y) <= t
    if kind in 'mt':
        if kind == 't':
            r0, r1 = r0[1:1 + r0[0]], r1[1:1 + r1[0]]
        if len(r0) != len(r1):
            return False
        im = [V(*g.pt((p.x, p.y)), True) for p in r0]
        return same_points(im, r1, m + 1e-4 * max(1, s))
    if kind == 'q':
        a = g.pt((r0.left, r0.top))
        b = g.pt((r0.left + r0.length, r0.top + r0.width))
        if r0.length == 0 and r0.width == 0 and r1.length == 0 and r1.width == 0:
            return True
        want = (min(a[0], b[0]), min(a[1], b[1]), abs(a[0] - b[0]), abs(a[1] - b[1]))
        return all(abs(u - v) <= m for u, v in zip(want, r1))
    raise KeyError(kind)


class Same:
    flip = 0
    s = 1
    tx = ty = 0.0

    @staticmethod
    def pt(p):
        return p


def data(d, rk, ak):
    """exact operands of a query: list of (kind, points, lens, degs)"""
    out, seen = [], []
    for k in rk + ak:
        if k == 'P':
            pts = gpoly(d)
            seen += pts
        else:
            n = len(seen)
            for _ in range(NPTS[k]):
                gpt(d, seen)
            pts = seen[n:]
        lens, degs = [], []
        if k == 'C':
            lens = [d.pick((1, 2, 3, 5, 2.5, 0.5))]
            seen.append((pts[0][0] + lens[0], pts[0][1]))
        if k == 'K':
            lens = [d.pick((0, 1, 2, 0.5)), d.pick((3, 4, 5, 2.5, 1))]
            degs = [d.i(-24, 24) * 15, d.i(-24, 24) * 15]
        if k in 'LR' and pts[0] == pts[1]:
            pts = [pts[0], (pts[0][0] + 1, pts[0][1] + d.i(-1, 1))]
        out.append((k, list(pts), lens, degs))
    return out


def build(ops, g=None):
    objs = []
    for k, pts, lens, degs in ops:
        if g is not None:
            pts = [g.pt(p) for p in pts]
            lens = [x * g.s for x in lens]
            degs = [g.deg(a) for a in degs]
        objs.append(shapes(k, list(pts), list(lens), list(degs), g is not None and g.flip))
    return objs


def y_query(c):
    d = c.d
    prop, rk, name, ak, kind = d.pick(QS)
    ops = data(d, rk, ak)
    g = Sym(d)
    o = build(ops)
    r0, j0 = ask(prop, o[0], name, *o[1:])
    if not j0:
        return
    lab = f'{rk}.{name} {ak}'
    h = build(ops, g)
    r1, j1 = ask(prop, h[0], name, *h[1:])
    key = (lab, repr(ops))
    if kind == 'f' and (len(ops[0][1]) < 3 or X.poly_area2([X.P(*p) for p in ops[0][1]]) == 0):
        return
    if name == 'in_right_dir' or (rk in 'QC' and kind == 'm'):
        if not robust(ops, g):
            j1 = False
    if j1:
        MON.judge('symmetry', f'{lab} {g.name()}', compare(kind, r0, r1, g, False),
                  lambda: f'{lab} on {[snap(x) for x in o]} gives {r0}; {g.name()} ({g.tx}, {g.ty}): {[snap(x) for x in h]} gives {r1}', key=key)
    # the same operands in another order
    odd = False
    alt = []
    how = ''
    for i, (k, pts, lens, degs) in enumerate(ops):
        p2, w = other_order(d, k, pts) if d.chance(.7) else (pts, '')
        if i == 0 and w.endswith('odd'):
            odd = True
        alt.append((k, p2, lens, degs))
        how += w
    if len(ops) == 2 and ops[0][0] == ops[1][0] and d.chance(.6):
        alt.reverse()
        how += ' swapped'
    if not how:
        return
    q = build(alt)
    r2, j2 = ask(prop, q[0], name, *q[1:])
    if j2 and not (rk in 'QC' and kind == 'm' and not robust(ops, g)):
        MON.judge('reordering', f'{lab} {how}', compare(kind, r0, r2, Same, odd),
                  lambda: f'{lab} on {[snap(x) for x in o]} gives {r0}; {how}: {[snap(x) for x in q]} gives {r2}', key=key)


def robust(ops, g):
    """rectangle corners only touched by a line, and ends on the circle: left out"""
    if ops[0][0] == 'C' and ops[1][0] in 'RS':
        o, r = ops[0][1][0], ops[0][2][0]
        return all(abs(math.dist(o, p) - r) > 1e-3 for p in ops[1][1][:1 if ops[1][0] == 'R' else 2])
    if ops[0][0] != 'Q':
        return True
    (a, b), cut = ops[0][1], ops[1][1]
    p, q = cut
    for x in (a[0], b[0]):
        for y in (a[1], b[1]):
            if abs((q[0] - p[0]) * (y - p[1]) - (q[1] - p[1]) * (x - p[0])) < 1e-6:
                return False
    return True


def y_static(c):
    d = c.d
    k = d.i(0, 3)
    g = Sym(d)
    pts = gpts(d, 4)
    a, b, e, p = [X.P(*x) for x in pts]
    im = [g.pt(x) for x in pts]
    o = d.pick([[0, 1, 2], [1, 0, 2], [2, 1, 0], [1, 2, 0]])
    alt = [pts[i] for i in o] + [pts[3]]
    if k == 0:
        if abs(X.area2(a, b, e)) < 1:
            return
        r = [T.Circle2D.circum_circle(*[vec(x) for x in q[:3]]) for q in (pts, im, alt)]
        n = 1e-6 * (1 + r[0].radius()) ** 2
        x = g.pt((r[0].center().x(), r[0].center().y()))
        MON.judge('symmetry', f'circum_circle {g.name()}', near(C(*x, r[0].radius() * g.s), snap(r[1]), n * g.s + 1e-8 * mag(g.tx, g.ty)),
                  lambda: f'{pts}: {snap(r[0])}; {im}: {snap(r[1])}', key=('circum', repr(pts)))
        MON.judge('reordering', f'circum_circle {o}', near(snap(r[0]), snap(r[2]), n), lambda: f'{pts}: {snap(r[0])}; {alt}: {snap(r[2])}', key=('circum', repr(pts)))
    elif k == 1:
        res = [ask('C15', 'Circle2D', 'circum_circle_contains', vec(q[3]), *[vec(x) for x in q[:3]]) for q in (pts, im, alt)]
        if res[0][1] and res[1][1]:
            MON.judge('symmetry', f'circum_circle_contains {g.name()}', bool(res[0][0]) == bool(res[1][0]), lambda: f'{pts}: {res[0]}; {im}: {res[1]}', key=('cc', repr(pts)))
        if res[0][1] and res[2][1]:
            MON.judge('reordering', 'circum_circle_contains', bool(res[0][0]) == bool(res[2][0]), lambda: f'{pts}: {res[0]}; {alt}: {res[2]}', key=('cc', repr(pts)))
    elif k == 2:
        res = [ask('C16', 'Triangle2D', 'tri_contains', *[vec(x) for x in q]) for q in (pts, im, alt)]
        if res[0][1] and res[1][1]:
            MON.judge('symmetry', f'tri_contains {g.name()}', bool(res[0][0]) == bool(res[1][0]), lambda: f'{pts}: {res[0]}; {im}: {res[1]}', key=('tc', repr(pts)))
        if res[0][1] and res[2][1]:
            MON.judge('reordering', 'tri_contains', bool(res[0][0]) == bool(res[2][0]), lambda: f'{pts}: {res[0]}; {alt}: {res[2]}', key=('tc', repr(pts)))
    else:
        n = d.pick(('tri_centroid', 'tri_incenter', 'tri_circumcenter', 'tri_orthocenter'))
        res = [ask('C17', 'Triangle2D', n, *[vec(x) for x in q[:3]]) for q in (pts, im, alt)]
        if res[0][1] and res[1][1]:
            MON.judge('symmetry', f'{n} {g.name()}', compare('v', res[0][0], res[1][0], g, 0), lambda: f'{n} {pts}: {res[0]}; {im}: {res[1]}', key=(n, repr(pts)))
        if res[0][1] and res[2][1]:
            MON.judge('reordering', n, compare('v', res[0][0], res[2][0], Same, 0), lambda: f'{n} {pts}: {res[0]}; {alt}: {res[2]}', key=(n, repr(pts)))


def extreme(h, pts):
    """vertices of the result that are extreme points of the input"""
    ext = set(hull.hull_of([X.P(*p) for p in pts]))
    return Counter((v.x(), v.y()) for v in h.vertices() if X.P(v.x(), v.y()) in ext)


def y_hull(c):
    d = c.d
    pts = gpts(d, d.count(3, 9, 30))
    if len(hull.hull_of([X.P(*p) for p in pts])) < 3:
        return
    g = Sym(d)
    m = d.pick((T.MethodType.WRAPPING_METHOD, T.MethodType.GRAHAN_SCAN))
    order = list(range(len(pts)))
    for i in range(len(order) - 1, 0, -1):
        j = d.i(0, i)
        order[i], order[j] = order[j], order[i]
    im, alt = [g.pt(p) for p in pts], [pts[i] for i in order]
    hs = []
    for q in (pts, im, alt):
        h = T.ConvexHull([vec(p) for p in q])
        h.compute(m)
        hs.append(h)
    e0 = extreme(hs[0], pts)
    e1, e2 = extreme(hs[1], im), extreme(hs[2], alt)
    MON.judge('symmetry', f'hull {m.name} {g.name()}', Counter({g.pt(p): n for p, n in e0.items()}) == e1 and
              math.isclose(hs[0].to_polygon().area() * g.s ** 2, hs[1].to_polygon().area(), rel_tol=1e-9),
              lambda: f'{m.name} hull of {pts}: {snap(hs[0])[1]}; of {im}: {snap(hs[1])[1]}', key=('hull', repr(pts)))
    MON.judge('reordering', f'hull {m.name}', e0 == e2 and math.isclose(hs[0].to_polygon().area(), hs[2].to_polygon().area(), rel_tol=1e-9),
              lambda: f'{m.name} hull of {pts}: {snap(hs[0])[1]}; of {alt}: {snap(hs[2])[1]}', key=('hull', repr(pts)))


def y_line(c):
    """coefficients up to a factor describe the same line"""
    d = c.d
    p, q, r, s, v = gpts(d, 5)
    if p == q or r == s:
        return
    l, n = T.Line2D(vec(p), vec(q)), T.Line2D(vec(r), vec(s))
    f = d.pick((2, -1, 0.5, -4, 3))
    k = T.Line2D(l.a() * f, l.b() * f, l.c() * f)
    key = (p, q, r, s, v, f)
    MON.judge('reordering', 'line factor dist', math.isclose(l.dist(vec(v)), k.dist(vec(v)), rel_tol=1e-9, abs_tol=1e-9), lambda: f'{snap(l)} x {f}: distance of {v} {l.dist(vec(v))} / {k.dist(vec(v))}', key=key)
    MON.judge('reordering', 'line factor projection', near(snap(l.projection(vec(v))), snap(k.projection(vec(v))), 1e-6), lambda: f'{snap(l)} x {f}: projection of {v}', key=key)
    MON.judge('reordering', 'line factor equal', (l == k) is True and bool(l.is_parallel(k)), lambda: f'{snap(l)} x {f}: equal {l == k}, parallel {l.is_parallel(k)}', key=key)
    a, b, e = l.intersection(n), k.intersection(n), n.intersection(k)
    if abs(X.cross(X.sub(X.P(*q), X.P(*p)), X.sub(X.P(*s), X.P(*r)))) > F(1e-3):
        MON.judge('reordering', 'line factor intersection', near(snap(a), snap(b), 1e-6) and near(snap(a), snap(e), 1e-6),
                  lambda: f'{snap(l)} x {f} with {snap(n)}: {snap(a)}, {snap(b)}, {snap(e)}', key=key)


def y_bisector(c):
    """the bisector of two points moves with them and does not depend on their order"""
    d = c.d
    p, q, v = gpts(d, 3)
    if p == q:
        return
    g = Sym(d)
    B = T.Line2D.perpendicular_bisector
    ls = [B(vec(p), vec(q)), B(vec(g.pt(p)), vec(g.pt(q))), B(vec(q), vec(p)), T.Segment2D(vec(p), vec(q)).perpendicular_bisector()]
    ds = [l.dist(vec(x)) for l, x in zip(ls, (v, g.pt(v), v, v))]
    MON.judge('symmetry', f'perpendicular_bisector {g.name()}', math.isclose(ds[0] * g.s, ds[1], rel_tol=1e-7, abs_tol=1e-7 * mag(g.s, g.tx, g.ty)),
              lambda: f'bisector of {p} {q}, distance of {v}: {ds[0]}; image {ds[1]} under {g.name()}', key=('bis', p, q, v))
    MON.judge('reordering', 'perpendicular_bisector', all(math.isclose(ds[0], x, rel_tol=1e-9, abs_tol=1e-9) for x in ds[2:]),
              lambda: f'bisector of {p} {q}, distance of {v}: {ds}', key=('bis', p, q, v))


C33_OPS = [y_query] * 14 + [y_bisector] + [y_static] * 2 + [y_hull] + [y_line]
REQUIRED['C33'] = ['symmetry', 'reordering']

OPS = {'C31': C31_OPS, 'C32': C32_OPS, 'C33': C33_OPS}
