"""C13 C14 C15: circles."""
import math

from ..core import *
from .. import target as T
from .. import api
from .. import exact as X
from .angles import cs
from .lines import fl, vp
from .segments import ends, seg_line, box_state, line_for, ray_pt, is_exact


def match(got, required, optional, tol, what):
    """got: tuple of V; every required point once, everything else optional, no duplicates"""
    need(isinstance(got, tuple) and all(isinstance(v, V) for v in got), lambda: f'{what}: result is {got!r}')
    left = list(required)
    opt = list(optional)
    for g in got:
        need(g.ok and finite(g.x, g.y), lambda: f'{what}: {g!r} is not a valid point')

        def d(p):
            return max(abs(g.x - p[0]), abs(g.y - p[1]))
        hit = [p for p in left if d(p) <= tol]
        if hit:
            left.remove(min(hit, key=d))
            continue
        hit = [p for p in opt if d(p) <= tol]
        need(hit, lambda: f'{what}: ({g.x!r}, {g.y!r}) is not one of the common points '
                          f'{[tuple(map(float, p)) for p in required + optional]} (allowed {tol:.3g}), or is duplicated')
        opt.remove(min(hit, key=d))
    need(not left, lambda: f'{what}: the common point {tuple(map(float, left[0]))} is missing')


def cline(c, line, cm):
    """Common points of circle and line (a, b, c exact; cm = magnitude of c before cancellation).
    returns kind ('none' 'two' 'one' 'band'), points, tolerance, h2"""
    a, b, cc = line
    cx, cy, r = F(c.x), F(c.y), F(c.r)
    n2 = a * a + b * b
    if max(abs(a), abs(b)) < F(2e-6):
        return None
    if F(0.9e-6) < abs(a) < F(1.1e-6):
        return None
    res = a * cx + b * cy + cc
    d2 = res * res / n2
    h2 = r * r - d2
    n = X.sqrt(n2)
    scale = float(max(abs(cx), abs(cy), r))
    tilt = 0.0
    if abs(a) >= F(1e-6):
        g = float((cm / abs(a)) + abs(cx))
        q = float(abs(b / a))
        big = g * g + float(cy * cy + r * r)
    else:
        g = float(cm / abs(b) + abs(cy))
        q = 0.0
        tilt = float(abs(a / b)) * (float(abs(cx)) + float(r) + 1)
        big = float(cx * cx + r * r) + g * g
    err = 64 * EPS * big + 2 * tilt * (float(r) + X.sqrt(d2)) + tilt * tilt
    fx, fy = float(cx - a * res / n2), float(cy - b * res / n2)
    A1 = 1 + q * q
    h2f = float(h2)
    band = 2e-6 + 2 * err
    if h2f > band:
        h = math.sqrt(h2f)
        tol = 1e-9 * (1 + scale) + 64 * EPS * (q * scale + g) + err / (2 * h) + tilt
        if tol > 1e-3:
            return None
        ux, uy = float(-b) / n, float(a) / n
        return 'two', [(fx + h * ux, fy + h * uy), (fx - h * ux, fy - h * uy)], tol, h2f
    if h2f < -band:
        return 'none', [], 0.0, h2f
    if abs(h2f) + err < 1e-7 / A1:
        return 'one', [(fx, fy)], 1e-8 * (1 + scale) + math.sqrt(abs(h2f) + err) + 64 * EPS * (q * scale + g) + tilt, h2f
    return None


def slope(line):
    return 'horizontal' if abs(line[0]) < F(1e-6) else 'vertical' if line[1] == 0 else 'oblique'


# ---------------------------------------------------------------- C13

def judge_line(e, c, o):
    l = fl(o)
    r = cline(c, l, abs(l[2]))
    if r is None:
        return None
    kind, pts, tol, _ = r
    match(e.ret, pts, [], tol, 'circle and line')
    return f'line {kind} {slope(l)}'


def judge_ray(e, c, o):
    org = X.P(o.x, o.y)
    co, si = cs(F(o.deg))
    a, b = F(-si), F(co)
    l = (a, b, -a * org[0] - b * org[1])
    r = cline(c, l, 2 * X.mag(org))
    if r is None:
        return None
    kind, pts, tol, _ = r
    req, opt, out = [], [], 0
    for p in pts:
        t = (p[0] - o.x) * co + (p[1] - o.y) * si
        if abs(t) < 1e-4 or abs(t) < 200 * tol:
            opt.append(p)
        elif t > 0:
            req.append(p)
        else:
            out += 1
    match(e.ret, req, opt, tol, 'circle and ray')
    return f'ray {kind} {slope(l)} ahead={len(req)} behind={out}' + (' at origin' if opt else '')


def judge_seg(e, c, o):
    l, m = seg_line(o)
    a, b = ends(o)
    if X.dist(a, b) < 1e-5:
        return None
    r = cline(c, l, m)
    if r is None:
        return None
    kind, pts, tol, _ = r
    req, opt, out = [], [], 0
    for p in pts:
        st = [box_state(F(p[i]), a[i], b[i], F(tol)) for i in (0, 1)]
        if False in st:
            out += 1
        elif None in st:
            opt.append(p)
        else:
            req.append(p)
    match(e.ret, req, opt, tol, 'circle and segment')
    return f'segment {kind} {slope(l)} on={len(req)} off={out}'


@contract('C13', 'Circle2D', 'intersection', 'intersection_with_line', 'intersection_with_ray',
          'intersection_with_segment')
def _(e):
    o = e.args[0]
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    if isinstance(o, L):
        return judge_line(e, e.recv, o)
    if isinstance(o, R):
        return judge_ray(e, e.recv, o)
    if isinstance(o, S):
        return judge_seg(e, e.recv, o)
    return None


@contract('C13', 'circle_2d', 'quadratic_f')
def _(e):
    a, b, c = (F(v) for v in e.args)
    if abs(a) < F(1e-3):
        return None
    d = b * b - 4 * a * c
    err = F(8 * EPS) * (b * b + abs(4 * a * c))
    need(isinstance(e.ret, tuple) and all(finite(v) for v in e.ret), lambda: f'roots are {e.ret!r}')
    if d < -F(2e-6) - err:
        need(len(e.ret) == 0, 'roots of an equation without real roots')
        return 'none'
    if abs(d) + err < F(0.5e-6):
        need(len(e.ret) >= 1, 'the double root is missing')
        w = float(-b / (2 * a))
        for g in e.ret:
            close(g, w, 1e-9 * (1 + abs(w)) + 1e-3 / float(abs(2 * a)), 'double root')
        return 'double'
    if d < F(2e-6) + err:
        return None
    s = X.sqrt(d)
    need(len(e.ret) == 2, lambda: f'{len(e.ret)} roots instead of 2')
    fb, fa = float(b), float(a)
    w = sorted(((-fb - s) / (2 * fa), (-fb + s) / (2 * fa)))
    tol = (8 * EPS * (abs(fb) + s) + float(err) / s) / abs(fa) + 1e-12 * (1 + max(map(abs, w)))
    for g, x in zip(sorted(e.ret), w):
        close(g, x, tol, 'root')
    return 'two'


def circ_line(c, k):
    """a line aimed at the circle k: cutting, tangent, missing, axis parallel"""
    d = c.d
    x, y, r = snap(k)
    i = d.i(0, 7)
    if i == 0:
        return c.line()
    u = d.pick((0, 1, -1, 0.5, 2, -0.25, 1.0, 1.5, d.val(lambda q: q.uniform(-1.2, 1.2), -2, 2)))
    if i <= 2:
        s = d.pick((1, -1, 2, 5, 0.5))
        return T.Line2D(0, s, -s * (y + u * r)) if i == 1 else T.Line2D(s, 0, -s * (x + u * r))
    th = d.deg(1e6)
    p = T.Vector2D(x + u * r * math.cos(math.radians(th)), y + u * r * math.sin(math.radians(th)))
    if i <= 4:
        return T.Line2D(p, T.AngleDeg(th + 90))
    if i == 5:
        return T.Line2D(p, c.ang())
    if i == 6:      # 3-4-5 tangents stay rational
        s = d.pick((1, -1))
        return T.Line2D(3, 4 * s, -(3 * x + 4 * s * y) + 5 * r * d.pick((1, -1, 0.5, 2)))
    q = c.vec()
    return T.Line2D(p, q) if p.dist(q) > 1e-4 else T.Line2D(p, c.ang())


def circ_ray(c, k):
    d = c.d
    x, y, r = snap(k)
    i = d.i(0, 4)
    if i == 0:
        return c.ray()
    th = math.radians(d.deg(1e6))
    u = d.pick((0, 0.5, 1, 1.5, 2, 3, d.val(lambda q: q.uniform(0, 3), 0, 3)))
    p = T.Vector2D(x + u * r * math.cos(th), y + u * r * math.sin(th))
    if i <= 2:
        tgt = T.Vector2D(x + d.pick((0, r, -r, r / 2)), y + d.pick((0, r, -r, 0)))
        if tgt.dist(p) > 1e-3:
            return T.Ray2D(p, tgt)
    return T.Ray2D(p, c.ang())


def circ_seg(c, k):
    d = c.d
    x, y, r = snap(k)
    i = d.i(0, 4)
    if i == 0:
        return c.seg()

    def pt():
        th = math.radians(d.pick((0, 90, 180, 270, d.deg(1e6))))
        u = d.pick((0, 0.5, 1, 1.5, 2, d.val(lambda q: q.uniform(0, 2.5), 0, 3)))
        return T.Vector2D(x + u * r * math.cos(th), y + u * r * math.sin(th))
    if i == 1:
        return T.Segment2D(x - d.pick((0, 1, 2)) * r, y, x + d.pick((0, 1, 2, 0.5)) * r, y)
    if i == 2:
        return T.Segment2D(x, y - d.pick((0, 1, 2)) * r, x, y + d.pick((0, 1, 2, 0.5)) * r)
    return T.Segment2D(pt(), pt())


def aim(gen, *names):
    def f(c):
        k = c.circle()
        return getattr(k, c.d.pick(names))(gen(c, k))
    return f


def quad(c):
    d = c.d
    a = d.pick((1, -1, 2, 0.5, 1.0, d.num(-100, 100)))
    if abs(a) < 1e-3:
        a = 1
    k = d.i(0, 2)
    if k == 0:
        r1, r2 = d.num(-100, 100), d.num(-100, 100)
        b, cc = -a * (r1 + r2), a * r1 * r2
    elif k == 1:
        r1 = d.num(-100, 100)
        b, cc = -2 * a * r1, a * r1 * r1
    else:
        b, cc = d.num(-1000, 1000), d.num(-1000, 1000)
    return T.circle_2d.quadratic_f(a, b, cc)


C13_OPS = [aim(circ_line, 'intersection', 'intersection_with_line')] * 4 + \
    [aim(circ_ray, 'intersection', 'intersection_with_ray')] * 4 + \
    [aim(circ_seg, 'intersection', 'intersection_with_segment')] * 4 + \
    [quad, lambda c: api.mutate(c, 'CVS')]


# ---------------------------------------------------------------- C14

def circ_circ(e, c1, c2, ret):
    p1, p2 = X.P(c1.x, c1.y), X.P(c2.x, c2.y)
    r1, r2 = F(c1.r), F(c2.r)
    rel = X.sub(p2, p1)
    d2 = X.n2(rel)
    if d2 == 0:
        match(ret, [], [], 0, 'concentric circles')
        return 'concentric' + (' equal' if r1 == r2 else '')
    d = X.sqrt(d2)
    m = float(max(X.mag(p1, p2), r1, r2))
    tau = 1e-9 * (1 + m)
    if d > float(r1 + r2) + tau:
        match(ret, [], [], 0, 'separate circles')
        return 'separate'
    if d < float(abs(r1 - r2)) - tau:
        match(ret, [], [], 0, 'nested circles')
        return 'nested'
    a, b = -2 * rel[0], -2 * rel[1]
    cc = X.n2(p2) - r2 * r2 - X.n2(p1) + r1 * r1
    cm = X.n2(p2) + r2 * r2 + X.n2(p1) + r1 * r1
    delta = 8 * EPS * float(cm) / (2 * d)
    tangent = d2 in ((r1 + r2) ** 2, (r1 - r2) ** 2)
    if tangent and not (is_exact(p1, p2) and F(d) * F(d) == d2):
        return None
    if not tangent and (abs(d - float(r1 + r2)) < tau or abs(d - float(abs(r1 - r2))) < tau):
        return None
    r = cline(c1, (a, b, cc), abs(cc) if is_exact(p1, p2) and exactish(c1.r, c2.r) else cm)
    if r is None:
        return None
    kind, pts, tol, h2 = r
    if kind == 'none':
        return None
    if kind == 'two':
        dd = abs(float((d2 + r1 * r1 - r2 * r2))) / (2 * d)
        tol += delta * (1 + dd / math.sqrt(h2))
        if tol > 1e-3:
            return None
    match(ret, pts, [], tol, 'circles')
    k = 'tangent ' if tangent else 'cross '
    return k + ('external' if d2 > max(r1, r2) ** 2 else 'internal') + (' same x' if rel[0] == 0 else ' same y' if rel[1] == 0 else '')


@contract('C14', 'Circle2D', 'intersection', 'intersection_with_circle')
def _(e):
    o = e.args[0]
    if not isinstance(o, C):
        return None
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    return circ_circ(e, e.recv, o, e.ret)


def rel_circle(c, k):
    d = c.d
    x, y, r = snap(k)
    i = d.i(0, 8)
    if i == 0:
        return c.circle()
    if i == 1:
        return T.Circle2D(T.Vector2D(x, y), d.pick((r, r / 2, r * 2, d.pos_num(1e3))))
    r2 = d.pick((r, 2 * r, r / 2, 0.25 * r, d.pos_num(1e3)))
    if i <= 5:      # exact tangency along rational directions
        ux, uy = d.pick(((1, 0), (-1, 0), (0, 1), (0, -1), (0.6, 0.8), (-0.8, 0.6)))
        dist = d.pick((r + r2, abs(r - r2), r + r2, (r + r2) * 0.75, (r + r2) * 1.5, abs(r - r2) * 0.5, (r + r2) / 2))
        return T.Circle2D(T.Vector2D(x + ux * dist, y + uy * dist), r2)
    th = math.radians(d.deg(1e6))
    dist = d.val(lambda q: q.uniform(0, 1.3), 0, 2) * (r + r2)
    return T.Circle2D(T.Vector2D(x + dist * math.cos(th), y + dist * math.sin(th)), r2)


def cc(c):
    k = c.circle()
    o = k if c.d.chance(0.05) else rel_circle(c, k)
    if c.d.chance(.2):
        c.pool['C'].append(o)
    if c.d.chance(.5):
        k, o = o, k
    return getattr(k, c.d.pick(('intersection', 'intersection_with_circle')))(o)


def cc_sym(c):
    k = c.circle()
    o = rel_circle(c, k)
    p, q = k.intersection(o), o.intersection(k)
    s1, s2 = snap(k), snap(o)
    if circ_circ(None, s1, s2, snap(p)) is None or circ_circ(None, s2, s1, snap(q)) is None:
        return
    MON.judge('Circle2D order of circles', str(len(p)), len(p) == len(q), lambda: f'{k} {o}: {p} but {q}')


REQUIRED['C14'] = ['Circle2D order of circles']
C14_OPS = [cc] * 6 + [cc_sym] * 2 + [lambda c: api.mutate(c, 'CV')]


# ---------------------------------------------------------------- C15

@contract('C15', 'Circle2D', '__init__', 'assign')
def _(e):
    p = e.args[0] if e.args else e.kw.get('center', V(0, 0, True))
    r = e.args[1] if len(e.args) > 1 else e.kw.get('radius', 0)
    need(e.after.x == p.x and e.after.y == p.y, 'centre differs')
    need(e.after.r == max(r, 0), lambda: f'radius {e.after.r!r} for {r!r}')
    return 'negative' if r < 0 else 'zero' if r == 0 else 'positive'


@contract('C15', 'Circle2D', 'center', 'radius')
def _(e):
    if e.name.endswith('radius'):
        need(e.ret == e.recv.r, 'radius differs')
    else:
        need(e.ret == V(e.recv.x, e.recv.y, True), 'centre differs')
    return 'ok'


@contract('C15', 'Circle2D', 'area')
def _(e):
    w = math.pi * e.recv.r ** 2
    close(e.ret, w, 1e-12 * w, 'area')
    return 'zero' if not e.recv.r else 'positive'


@contract('C15', 'Circle2D', 'contains')
def _(e):
    p, k = vp(e.args[0]), X.P(e.recv.x, e.recv.y)
    r2 = F(e.recv.r) ** 2
    d2 = X.n2(X.sub(p, k))
    if not (is_exact(p, k) and exactish(e.recv.r)):
        m = X.mag(p, k)
        if abs(d2 - r2) <= F(1e-13) * (r2 + d2) + F(8 * EPS) * m * F(X.sqrt(d2)):
            return None
    want = d2 < r2
    need(bool(e.ret) == want, lambda: f'expected {want}: distance {X.sqrt(d2)!r}')
    return 'on circle' if d2 == r2 else 'inside' if want else 'outside'


def circumcentre(a, b, c):
    """exact circumcentre, float allowance, doubled area"""
    ar = X.area2(a, b, c)
    if ar == 0:
        return None, 0, ar
    ab, ac = X.sub(b, a), X.sub(c, a)
    l1, l2 = X.n2(ab), X.n2(ac)
    k = 1 / (2 * ar)
    ctr = (a[0] + k * (l1 * ac[1] - l2 * ab[1]), a[1] + k * (ab[0] * l2 - ac[0] * l1))
    m = float(X.mag(a, b, c))
    L_ = X.sqrt(l1) + X.sqrt(l2) + X.dist(b, c)
    tol = 1e-10 * (1 + m) + 64 * EPS * (m * m + m * L_ + L_ * L_) * L_ / float(abs(ar)) + \
        64 * EPS * L_ * L_ / float(abs(ar)) * X.dist(ctr, a)
    return ctr, tol, ar


def tri_domain(a, b, c):
    """'collinear', 'proper' or None"""
    for p, q in ((a, b), (b, c), (c, a)):
        d = X.sub(p, q)
        if max(abs(d[0]), abs(d[1])) < F(1e-3):
            return None
    ar = abs(X.area2(a, b, c))
    if ar == 0 and is_exact(a, b, c):
        return 'collinear'
    return 'proper' if ar > F(1e-5) + F(64 * EPS) * X.mag(a, b, c) ** 2 else None


@contract('C15', 'Circle2D', 'circum_circle')
def _(e):
    a, b, c = (vp(v) for v in e.args)
    dom = tri_domain(a, b, c)
    if dom is None:
        return None
    need(isinstance(e.ret, C), lambda: f'result is {e.ret!r}')
    if dom == 'collinear':
        need(e.ret == C(0, 0, 0), 'collinear points gave a circle')
        return dom
    ctr, tol, ar = circumcentre(a, b, c)
    close(e.ret.x, ctr[0], tol, 'centre x')
    close(e.ret.y, ctr[1], tol, 'centre y')
    for p in (a, b, c):
        close(math.hypot(e.ret.x - float(p[0]), e.ret.y - float(p[1])), e.ret.r, 4 * tol, 'distance of a vertex from the centre')
    return 'ccw' if ar > 0 else 'cw'


@contract('C15', 'Circle2D', 'circum_circle_contains')
def _(e):
    p, a, b, c = (vp(v) for v in e.args)
    ar = X.area2(a, b, c)
    if ar == 0 and is_exact(a, b, c):
        need(not e.ret, 'collinear points contain a point')
        return 'collinear'
    m = float(X.mag(a, b, c))
    L_ = X.dist(a, b) + X.dist(b, c) + X.dist(a, c)
    if abs(ar) <= F(1e-9) + F(64 * EPS) * F(m) * F(L_):
        return None
    ctr, _, _ = circumcentre(a, b, c)
    R2, D2 = X.n2(X.sub(a, ctr)), X.n2(X.sub(p, ctr))
    diff = float(R2 - D2)
    # the difference is linear in the centre, whose error comes from the squared lengths over the area
    off = 64 * EPS * (L_ * L_ * (m + X.sqrt(R2)) / float(abs(ar)) + m + X.sqrt(R2))
    err = 2 * X.dist(p, a) * off + 1e-11 + 64 * EPS * float(R2 + D2)
    if abs(diff) <= err:
        return None
    want = diff > 0
    need(bool(e.ret) == want, lambda: f'expected {want}: squared radius {float(R2)!r}, squared distance {float(D2)!r}')
    return ('ccw ' if ar > 0 else 'cw ') + str(want)


def circ_pt(c, k):
    d = c.d
    x, y, r = snap(k)
    if d.chance(.3):
        return c.vec()
    u = d.pick((0, 0.5, 1, 1.5, 0.999, 1.001, 0.999999, 1.000001))
    ux, uy = d.pick(((1, 0), (-1, 0), (0, 1), (0, -1), (0.6, 0.8), (0.8, -0.6), (math.cos(1), math.sin(1))))
    return T.Vector2D(x + u * r * ux, y + u * r * uy)


def tri_pts(c):
    d = c.d
    a, b = c.vec(), c.vec()
    if d.chance(.25):
        u = d.pick((0.5, 2, -1, 3, 0.25, 1.5))
        return a, b, T.Vector2D(a.x() + u * (b.x() - a.x()), a.y() + u * (b.y() - a.y()))
    if d.chance(.15):       # small triangles, long thin ones, nearly right ones
        s = d.pick((1e-3, 1e-4, 0.01, 100, 1e-2))
        x, y = d.xy() if d.chance(.5) else (0, 0)
        pt = [T.Vector2D(x + s * i, y + s * j) for i, j in (d.pick(((0, 0), (-1, 0))), (d.i(1, 3), d.i(-1, 1)), (d.i(-1, 3), d.i(1, 4)))]
        k = d.i(0, 2)
        return pt[k:] + pt[:k]
    return a, b, c.vec()


def ccc(c):
    a, b, q = tri_pts(c)
    k = c.d.i(0, 3)
    if k == 0:
        p = T.Vector2D((a.x() + b.x() + q.x()) / 3, (a.y() + b.y() + q.y()) / 3)
    elif k == 1:
        p = T.Vector2D((a.x() + b.x()) / 2, (a.y() + b.y()) / 2)
    elif k == 2:
        p = T.Vector2D(a.x() + b.x() - q.x(), a.y() + b.y() - q.y())
    else:
        p = c.vec()
    return T.Circle2D.circum_circle_contains(p, a, b, q)


C15_OPS = [
    lambda c: (T.Circle2D(c.vec(), c.d.num()), T.Circle2D(), T.Circle2D(c.vec()), T.Circle2D(radius=2)),
    lambda c: c.circle().assign(c.vec(), c.d.num(-1e4, 1e4)),
    lambda c: (lambda k: (k.center(), k.radius(), k.area()))(c.circle()),
    lambda c: (lambda k: k.contains(circ_pt(c, k)))(c.circle()),
    lambda c: (lambda k: k.contains(circ_pt(c, k)))(c.circle()),
    lambda c: (lambda k: k.contains(circ_pt(c, k)))(c.circle()),
    lambda c: T.Circle2D.circum_circle(*tri_pts(c)), lambda c: T.Circle2D.circum_circle(*tri_pts(c)),
    ccc, ccc, ccc, lambda c: api.mutate(c, 'CV'),
]

OPS = {'C13': C13_OPS, 'C14': C14_OPS, 'C15': C15_OPS}
