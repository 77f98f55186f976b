"""C23 C24: rectangles and sizes."""
import math

from ..core import *
from .. import target as T
from .. import api
from .. import exact as X
from .angles import cs
from .lines import fl, vp
from .segments import ends, is_exact, seg_line, meet2, box_state
from .triangles import cutter


def tolq(*v):
    return F(1e-13) * (1 + max(abs(F(x)) for x in v))


def same(q, want, what='rectangle', tol=None):
    need(isinstance(q, Q), lambda: f'{what} is {q!r}')
    for n, g, w in zip(q._fields, q, want):
        close(g, w, tolq(*want) if tol is None else tol, f'{what}: {n}')


def norm_q(left, top, length, width):
    return (F(left), F(top), abs(F(length)), abs(F(width)))


def box(q):
    return (F(q.left), F(q.top), F(q.left) + F(q.length), F(q.top) + F(q.width))


def of_args(a):
    """the box described by constructor/assign arguments"""
    if len(a) == 4:
        return norm_q(*a), 'numbers'
    if len(a) == 3:
        return norm_q(a[0].x, a[0].y, a[1], a[2]), 'corner+sizes'
    if len(a) == 2 and isinstance(a[1], V):
        p, q = vp(a[0]), vp(a[1])
        s = ('>' if q[0] >= p[0] else '<') + ('>' if q[1] >= p[1] else '<')
        return (min(p[0], q[0]), min(p[1], q[1]), abs(q[0] - p[0]), abs(q[1] - p[1])), 'corners ' + s
    if len(a) == 2:
        return norm_q(a[0].x, a[0].y, a[1].length, a[1].width), 'corner+size'
    return tuple(F(v) for v in a[0]), 'rect'


def szk(q):
    return ('proper' if q.length > 0 and q.width > 0 else 'flat' if q.length > 0 or q.width > 0 else 'empty')


# ---------------------------------------------------------------- C23

@contract('C23', 'Rect2D', '__init__', 'assign')
def _(e):
    want, k = of_args(e.args)
    same(e.after, want)
    need(e.args_after == e.args, 'an argument changed')
    if e.name.endswith('assign'):
        need(e.raw_ret is e.obj, 'assign does not return the rectangle')
        k += ' over ' + szk(e.recv)
    return k + (' negative size' if len(e.args) > 2 and min(e.args[-2:]) < 0 else '')


@contract('C23', 'Rect2D', 'from_center')
def _(e):
    a = e.args
    if len(a) == 3:
        a = (a[0].x, a[0].y, a[1], a[2])
    l, w = abs(F(a[2])), abs(F(a[3]))
    same(e.ret, (F(a[0]) - l / 2, F(a[1]) - w / 2, l, w), tol=tolq(*a))
    return f'{len(e.args)} args' + (' negative size' if a[2] < 0 or a[3] < 0 else '')


MOVES = {'move_left': (0, 0), 'move_min_x': (0, 0), 'move_right': (0, 1), 'move_max_x': (0, 1),
         'move_top': (1, 0), 'move_min_y': (1, 0), 'move_bottom': (1, 1), 'move_max_y': (1, 1)}


@contract('C23', 'Rect2D', *MOVES)
def _(e):
    ax, far = MOVES[e.name.split('.')[1]]
    q, g = e.recv, e.args[0]
    want = [F(v) for v in q]
    want[ax] = F(g) - (want[2 + ax] if far else 0)
    same(e.after, want, tol=tolq(g, *q))
    need(e.after[2:] == q[2:] and e.after[1 - ax] == q[1 - ax], 'size or the other coordinate changed')
    return szk(q)


@contract('C23', 'Rect2D', 'move_center', 'move_top_left', 'move_bottom_right')
def _(e):
    q, p = e.recv, vp(e.args[0])
    n = e.name.split('.')[1]
    f = {'move_center': F(1, 2), 'move_top_left': F(0), 'move_bottom_right': F(1)}[n]
    l, w = F(q.length), F(q.width)
    same(e.after, (p[0] - f * l, p[1] - f * w, l, w), tol=tolq(*p, *q))
    need(e.after[2:] == q[2:], 'the size changed')
    need(e.args_after == e.args, 'an argument changed')
    return szk(q)


SETS = {'set_left': (0, 0), 'set_min_x': (0, 0), 'set_right': (0, 1), 'set_max_x': (0, 1),
        'set_top': (1, 0), 'set_min_y': (1, 0), 'set_bottom': (1, 1), 'set_max_y': (1, 1)}


def set_side(want, ax, far, g):
    lo, hi = want[ax], want[ax] + want[2 + ax]
    keep = lo if far else hi
    want[ax], want[2 + ax] = min(keep, g), abs(keep - g)
    return keep > g if far else keep < g


@contract('C23', 'Rect2D', *SETS)
def _(e):
    ax, far = SETS[e.name.split('.')[1]]
    q, g = e.recv, F(e.args[0])
    want = [F(v) for v in q]
    sw = set_side(want, ax, far, g)
    same(e.after, want, tol=tolq(g, *q))
    need(e.after[1 - ax] == q[1 - ax] and e.after[3 - ax] == q[3 - ax], 'the other axis changed')
    return szk(q) + (' swap' if sw else '')


@contract('C23', 'Rect2D', 'set_top_left', 'set_bottom_right')
def _(e):
    far = e.name.endswith('right')
    p = vp(e.args[0]) if len(e.args) == 1 else X.P(*e.args)
    q = e.recv
    want = [F(v) for v in q]
    sw = [set_side(want, ax, far, p[ax]) for ax in (0, 1)]
    same(e.after, want, tol=tolq(*p, *q))
    need(e.raw_ret is e.obj, 'does not return the rectangle')
    return szk(q) + f' swap={sum(sw)} {len(e.args)} args'


@contract('C23', 'Rect2D', 'set_length', 'set_width', 'set_size')
def _(e):
    q = e.recv
    n = e.name.split('.')[1]
    want = [F(v) for v in q]
    if n != 'set_width':
        a = e.args[0]
        want[2] = abs(F(a.length if isinstance(a, Z) else a))
    if n != 'set_length':
        a = e.args[-1]
        want[3] = abs(F(a.width if isinstance(a, Z) else a))
    same(e.after, want, tol=F(0))
    return szk(q) + f' {len(e.args)}'


@contract('C23', 'Rect2D', 'left', 'right', 'top', 'bottom', 'min_x', 'max_x', 'min_y', 'max_y')
def _(e):
    n = e.name.split('.')[1]
    q = e.recv
    need(e.after == q, 'the rectangle changed')
    b = box(q)
    i = {'left': 0, 'min_x': 0, 'top': 1, 'min_y': 1, 'right': 2, 'max_x': 2, 'bottom': 3, 'max_y': 3}[n]
    close(e.ret, b[i], tolq(*q) if i > 1 else F(0), n)
    return szk(q)


@contract('C23', 'Rect2D', 'center', 'top_left', 'top_right', 'bottom_left', 'bottom_right')
def _(e):
    n = e.name.split('.')[1]
    q = e.recv
    need(e.after == q, 'the rectangle changed')
    b = box(q)
    if n == 'center':
        w = ((b[0] + b[2]) / 2, (b[1] + b[3]) / 2)
    else:
        w = (b[2] if 'right' in n else b[0], b[3] if 'bottom' in n else b[1])
    need(isinstance(e.ret, V) and e.ret.ok, lambda: f'{n} is {e.ret!r}')
    close(e.ret.x, w[0], tolq(*q), f'{n} x')
    close(e.ret.y, w[1], tolq(*q), f'{n} y')
    return szk(q)


@contract('C23', 'Rect2D', 'left_edge', 'right_edge', 'top_edge', 'bottom_edge')
def _(e):
    n = e.name.split('.')[1].split('_')[0]
    q = e.recv
    need(e.after == q, 'the rectangle changed')
    b = box(q)
    if n in ('left', 'right'):
        x = b[0] if n == 'left' else b[2]
        p, r = (x, b[1]), (x, b[3])
    else:
        y = b[1] if n == 'top' else b[3]
        p, r = (b[0], y), (b[2], y)
    d = X.dist(p, r)
    if d < 1e-3:
        return None
    need(isinstance(e.ret, L), lambda: f'edge is {e.ret!r}')
    a, bb, c = fl(e.ret)
    nn = X.sqrt(a * a + bb * bb)
    need(nn > 0, 'edge is not a line')
    m = float(X.mag(p, r))
    tol = 1e-11 * (1 + m) + 32 * EPS * m * m / d
    for pt in (p, r):
        need(abs(float(a * pt[0] + bb * pt[1] + c)) / nn <= tol,
             lambda: f'the {n} edge {e.ret} does not contain the corner ({float(pt[0])}, {float(pt[1])})')
    return szk(q)


@contract('C23', 'Rect2D', 'area', 'is_valid', 'size')
def _(e):
    n = e.name.split('.')[1]
    q = e.recv
    need(e.after == q, 'the rectangle changed')
    if n == 'area':
        ar = F(q.length) * F(q.width)
        close(e.ret, ar, F(4 * EPS) * ar, 'area')
    elif n == 'is_valid':
        need(bool(e.ret) == (q.length > 0 and q.width > 0), lambda: f'valid={e.ret} for {q}')
    else:
        need(isinstance(e.ret, Z) and e.ret == (q.length, q.width), lambda: f'size is {e.ret!r}')
    return szk(q)


@contract('C23', 'Size2D', '__init__', 'assign', 'set_length', 'set_width')
def _(e):
    n = e.name.split('.')[1]
    if n in ('__init__', 'assign'):
        a = list(e.args) + [e.kw.get('width', 0.0)] if len(e.args) == 1 else list(e.args)
        if not a:
            a = [e.kw.get('length', 0.0), e.kw.get('width', 0.0)]
        w = (abs(a[0]), abs(a[1]))
    elif n == 'set_length':
        w = (abs(e.args[0]), e.recv.width)
    else:
        w = (e.recv.length, abs(e.args[0]))
    need(tuple(e.after) == w, lambda: f'size is {e.after}, expected {w}')
    return 'negative' if any(isnum(a) and a < 0 for a in e.args) else 'plain'


@contract('C23', 'Size2D', 'length', 'width', 'diagonal', 'is_valid')
def _(e):
    z = e.recv
    n = e.name.split('.')[1]
    need(e.after == z, 'the size changed')
    if n == 'diagonal':
        close(e.ret, X.norm((F(z.length), F(z.width))), 1e-12 * (z.length + z.width), 'diagonal')
    elif n == 'is_valid':
        need(bool(e.ret) == (z.length > 0 and z.width > 0), 'validity')
    else:
        need(e.ret == getattr(z, n), n)
    return szk(z)


def sgn(d):
    v = d.pos_num(1e4, True)
    return -v if d.chance(.15) else v


def mkrect(c):
    d = c.d
    k = d.i(0, 9)
    if k == 0:
        r = T.Rect2D(d.num(), d.num(), d.num(), d.num())
    elif k == 1:
        r = T.Rect2D(c.vec(), d.num(), d.num())
    elif k == 2:
        r = T.Rect2D(c.vec(), c.size())
    elif k == 3:
        r = T.Rect2D.from_center(c.vec(), sgn(d), sgn(d))
    elif k == 4:
        r = T.Rect2D.from_center(d.num(), d.num(), sgn(d), sgn(d))
    elif k == 5:
        r = T.Rect2D(c.rect())
    elif k <= 7:
        r = T.Rect2D(c.vec(), c.vec())
    else:
        return c.rect()
    c.pool.setdefault('Q', []).append(r)
    return r


ACC = ('left', 'right', 'top', 'bottom', 'min_x', 'max_x', 'min_y', 'max_y', 'center', 'top_left',
       'top_right', 'bottom_left', 'bottom_right', 'left_edge', 'right_edge', 'top_edge',
       'bottom_edge', 'area', 'is_valid', 'size')


def r_acc(c):
    r = mkrect(c)
    for _ in range(3):
        getattr(r, c.d.pick(ACC))()


def r_edit(c):
    r = mkrect(c)
    for _ in range(c.d.i(1, 3)):
        c.d.pick(api.MUT['Q'])(c, r)
        if abs(r.left()) > 1e6 or abs(r.top()) > 1e6 or r.size().length() > 1e6 or r.size().width() > 1e6:
            r.assign(1, 2, 3, 4)
    getattr(r, c.d.pick(ACC))()


def z_ops(c):
    z = c.size()
    k = c.d.i(0, 6)
    if k == 0:
        z.assign(c.d.num(), c.d.num())
    elif k == 1:
        z.set_length(c.d.num())
    elif k == 2:
        z.set_width(c.d.num())
    else:
        getattr(z, ('length', 'width', 'diagonal', 'is_valid')[k - 3])()


def z_new(c):
    k = c.d.i(0, 3)
    if k == 0:
        return T.Size2D()
    if k == 1:
        return T.Size2D(c.d.num())
    return T.Size2D(c.d.num(), c.d.num())


C23_OPS = [r_edit] * 6 + [r_acc] * 5 + [z_ops, z_new, mkrect, mkrect, lambda c: api.mutate(c, 'QVZ')]


# ---------------------------------------------------------------- C24

def inbox(q, p, thr=0):
    """True/False, or None within rounding of a side"""
    res = True
    for ax in (0, 1):
        lo = F(q[ax]) - thr
        hi = F(q[ax]) + F(q[2 + ax]) + thr
        v = p[ax]
        ex = exactish(q[ax], q[2 + ax], float(v), float(thr)) and F(float(v)) == v
        tol = F(0) if ex else F(8 * EPS) * (abs(lo) + abs(hi) + abs(v))
        if thr == 0 and v == F(q[ax]):
            continue                     # the left and top sides are stored as given
        if v < lo - tol or v > hi + tol:
            return False
        if tol and (v <= lo + tol or v >= hi - tol):
            res = None
    return res


def where(q, p):
    b = box(q)
    on = (p[0] in (b[0], b[2])) + (p[1] in (b[1], b[3]))
    return ('', ' side', ' corner')[on]


@contract('C24', 'Rect2D', 'contains')
def _(e):
    p = vp(e.args[0])
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    w = inbox(e.recv, p)
    if w is None:
        return None
    need(bool(e.ret) == w, lambda: f'expected {w}')
    return f'{w} {szk(e.recv)}' + where(e.recv, p)


@contract('C24', 'Rect2D', 'contains_almost')
def _(e):
    p = vp(e.args[0])
    need(e.after == e.recv and e.args_after == e.args, 'an operand changed')
    thr = F(e.args[1])
    if thr < 0:
        return None
    w = inbox(e.recv, p, thr)
    if w is None:
        return None
    need(bool(e.ret) == w, lambda: f'expected {w}')
    st = inbox(e.recv, p)
    return f'{w} plain={st} thr={thr > 0}'


def corners(q):
    b = box(q)
    return [(b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0], b[3])]


def rect_hits(q, l, cm, exact):
    """(hits, optional) where the line meets the boundary; None when undecided"""
    a, b, c = l
    n = X.sqrt(a * a + b * b)
    if n < 1e-4:
        return None
    pts = corners(q)
    sg = []
    rough = False
    slack = 16 * EPS * float(cm + sum(X.mag(p) for p in pts) * (abs(a) + abs(b))) / n      # through a corner but for rounding
    for p in pts:
        r = a * p[0] + b * p[1] + c
        d = float(abs(r)) / n
        if r == 0 and exact:
            sg.append(0)
        elif d > 1e-4 and d > 1e-12 * float(cm) / n:
            sg.append(1 if r > 0 else -1)
        elif d <= slack and slack < 2e-10:
            sg.append(0)
            rough = True
        else:
            return None
    z = [i for i in range(4) if sg[i] == 0]
    if len(z) > 2 or (len(z) == 2 and (z[1] - z[0]) % 2):
        return None
    if rough and slack * n > 1e-7 * float(min(abs(a), abs(b))):
        return None
    req, opt = [], []
    for i in range(4):
        p, r = pts[i], pts[(i + 1) % 4]
        s, t = sg[i], sg[(i + 1) % 4]
        if s == 0:
            h = (p, F(1e-9) * (1 + X.mag(p)), F(1e-12) * (1 + X.mag(p)) + F(64 * EPS) * cm / F(n))
            if rough:       # seen on one of the two sides, magnified by the angle with it
                f = F(n) / max(abs(a), abs(b))
                h = (p, h[1] + 4 * F(slack) * f, h[2] + 4 * F(slack) * f)
            touch = sg[i - 1] * t > 0
            (opt if touch else req).append(h)
        if s * t < 0:
            se, m = seg_line(S(p[0], p[1], r[0], r[1]))
            kind, x, tol = meet2(se, m, l, cm)
            if kind != 'point':
                return None
            req.append((x, max(tol) + F(1e-9), max(tol)))
    hs = req + opt
    for h in hs:
        if h[1] > F(1e-5):
            return None
    for i in range(len(hs)):
        for j in range(i):
            if max(abs(hs[i][0][x] - hs[j][0][x]) for x in (0, 1)) < F(1e-4):
                return None
    return req, opt


def rect_exact(q):
    return exactish(q.left, q.top, q.length, q.width, bits=8, mag=2048)


def rect_on(o, q):
    pts = corners(q)
    rx = rect_exact(q)
    if isinstance(o, L):
        l, cm = fl(o), abs(F(o.c))
        r = rect_hits(q, l, cm, rx and exactish(o.a, o.b) and exactish(o.c, bits=20, mag=1 << 24))
        return None if r is None else (*r, 'line', len(r[0]))
    if isinstance(o, R):
        org = X.P(o.x, o.y)
        co, si = cs(F(o.deg))
        a, b = F(-si), F(co)
        r = rect_hits(q, (a, b, -a * org[0] - b * org[1]), 2 * X.mag(org), rx and is_exact(org) and o.deg == 0)
        if r is None:
            return None
        outs = []
        for hs in r:
            out = []
            for p, t, raw in hs:
                u = (p[0] - org[0]) * F(co) + (p[1] - org[1]) * F(si)
                if abs(u) < F(1e-4) or abs(u) < 200 * t:
                    return None
                if u > 0:
                    out.append((p, t, raw))
            outs.append(out)
        return outs[0], outs[1], 'ray', len(r[0])
    l, cm = seg_line(o)
    sa, sb = ends(o)
    r = rect_hits(q, l, cm, rx and is_exact(sa, sb))
    if r is None:
        return None
    outs = []
    for hs in r:
        out = []
        for p, t, raw in hs:
            st = [box_state(p[i], sa[i], sb[i], 4 * raw) for i in (0, 1)]
            if False in st:
                continue
            if None in st:
                return None
            out.append((p, t, raw))
        outs.append(out)
    return outs[0], outs[1], 'segment', len(r[0])


@contract('C24', 'Rect2D', 'intersection')
def _(e):
    q, o = e.recv, e.args[0]
    need(e.after == q and e.args_after == e.args, 'an operand changed')
    if q.length < 1e-3 or q.width < 1e-3:
        return None
    r = rect_on(o, q)
    if r is None:
        return None
    req, opt, lab, total = r
    need(isinstance(e.ret, tuple) and all(isinstance(v, V) and v.ok for v in e.ret), lambda: f'result is {e.ret!r}')
    left, lopt = list(req), list(opt)
    for g in e.ret:
        def near(h):
            return abs(F(g.x) - h[0][0]) <= h[1] + F(1e-9) and abs(F(g.y) - h[0][1]) <= h[1] + F(1e-9)
        hit = [h for h in left if near(h)]
        if hit:
            left.remove(hit[0])
            continue
        hit = [h for h in lopt if near(h)]
        need(hit, lambda: f'({g.x!r}, {g.y!r}) is not one of the crossings of the {lab}: '
                          f'{[(float(h[0][0]), float(h[0][1])) for h in req]}, or is repeated')
        lopt.remove(hit[0])
    need(not left, lambda: f'the crossing ({float(left[0][0][0])!r}, {float(left[0][0][1])!r}) of the {lab} is missing')
    cn = sum(1 for h in req if h[0] in corners(q))
    return f'{lab} {len(req)} of {total}' + (f' corner={cn}' if cn else '') + (' touch' if opt else '')


@contract('C24', 'Rect2D', 'intersected', 'united')
def _(e):
    a, b = e.recv, e.args[0]
    need(e.after == a and e.args_after == e.args, 'an operand changed')
    need(isinstance(e.ret, Q) and e.raw_ret is not e.obj and e.raw_ret is not e.raw_args[0],
         'the result is not a new rectangle')
    if szk(a) != 'proper' or szk(b) != 'proper':
        need(e.ret.length == 0 and e.ret.width == 0, lambda: f'an empty operand gave {e.ret}')
        return 'empty operand'
    p, q = box(a), box(b)
    t = tolq(*a, *b) * 4
    if e.name.endswith('united'):
        lo, hi = (min(p[0], q[0]), min(p[1], q[1])), (max(p[2], q[2]), max(p[3], q[3]))
        k = 'united'
    else:
        lo, hi = (max(p[0], q[0]), max(p[1], q[1])), (min(p[2], q[2]), min(p[3], q[3]))
        dx, dy = hi[0] - lo[0], hi[1] - lo[1]
        if dx <= -t or dy <= -t or (dx <= 0 or dy <= 0) and exactish(*a, *b):
            need(e.ret.length == 0 and e.ret.width == 0, lambda: f'disjoint rectangles gave {e.ret}')
            return 'disjoint' if dx < 0 or dy < 0 else 'touching'
        if dx <= t or dy <= t:
            return None
        k = 'overlap'
    same(e.ret, (lo[0], lo[1], hi[0] - lo[0], hi[1] - lo[1]), tol=t)
    rel = ('=' if p == q else '<' if p[0] >= q[0] and p[1] >= q[1] and p[2] <= q[2] and p[3] <= q[3] else
           '>' if q[0] >= p[0] and q[1] >= p[1] and q[2] <= p[2] and q[3] <= p[3] else '')
    return k + ' ' + rel


def rect_pt(c, r):
    d = c.d
    k = d.i(0, 4)
    if k == 0:
        return c.vec()

    def co(lo, hi):
        j = d.i(0, 8)
        w = hi - lo
        if j <= 1:
            return lo
        if j <= 3:
            return hi
        if j == 4:
            return d.pick((math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf)))
        if j == 5:
            return d.pick((lo, hi)) + d.pick((1e-6, -1e-6, 1e-9, -1e-9, 0.5, -0.5, 1e-3))
        return lo + w * d.pick((0.5, 0.25, -0.5, 1.5, d.val(lambda q: q.uniform(-.5, 1.5), -2, 2)))
    return T.Vector2D(co(r.left(), r.right()), co(r.top(), r.bottom()))


def prect(c):
    """a proper rectangle, mostly"""
    d = c.d
    if d.chance(.3):
        return c.rect()
    x, y = d.xy()
    r = T.Rect2D(x, y, d.pos_num(1e4) + 0.01 if d.chance(.3) else d.pick((1, 2, 3, 4, 7, 0.5, 10)),
                 d.pos_num(1e4) + 0.01 if d.chance(.3) else d.pick((1, 2, 3, 4, 7, 0.5, 10)))
    c.pool.setdefault('Q', []).append(r)
    return r


def r_cont(c):
    r = prect(c)
    return r.contains(rect_pt(c, r))


def r_almost(c):
    r = prect(c)
    p = rect_pt(c, r)
    t = c.d.pick((0, 0.5, 1, 0.01, 1e-6, 2, c.d.pos_num(100)))
    if c.d.chance(.4):
        p = T.Vector2D(p.x() + c.d.pick((t, -t, 0)), p.y() + c.d.pick((t, -t, 0)))
    return r.contains_almost(p, t)


def r_cut(c):
    r = prect(c)
    return r.intersection(cutter(c, [r.top_left(), r.top_right(), r.bottom_right(), r.bottom_left()]))


def r_pair(c):
    a = prect(c)
    d = c.d
    if d.chance(.3):
        b = prect(c)
    else:
        def iv(lo, hi):
            w = hi - lo
            u = d.pick((0, 0.5, -0.5, 0.25, 1, -1, 1.5, -2))
            v = d.pick((1, 0.5, 0.25, 2, 3))
            return lo + u * w, v * w
        x, l = iv(a.left(), a.right())
        y, w = iv(a.top(), a.bottom())
        b = T.Rect2D(x, y, l, w)
    return (a.intersected if d.chance(.5) else a.united)(b)


C24_OPS = [r_cont] * 3 + [r_almost] * 2 + [r_cut] * 6 + [r_pair] * 4 + \
    [lambda c: prect(c).intersection(c.line()), lambda c: prect(c).intersection(c.seg()),
     lambda c: prect(c).intersection(c.ray()), lambda c: api.mutate(c, 'QVZ')]

OPS = {'C23': C23_OPS, 'C24': C24_OPS}
