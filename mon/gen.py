"""Workload generation: recorded draws, input families, related points, live object pools."""
import ast
import json
import math
import os
import random

from . import target as T

HERE = os.path.dirname(os.path.abspath(__file__))
LIM = 1e5          # coordinate magnitude claimed by the properties


# ------------------------------------------------------------------ constants of the tree

def harvest():
    """numeric literals of the current tree (per file list), used only as input values"""
    out = set()
    for f in sorted(os.listdir(T.PKG)):
        if not f.endswith('.py'):
            continue
        try:
            tree = ast.parse(open(os.path.join(T.PKG, f), encoding='utf-8').read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) \
                    and not isinstance(n.value, bool):
                v = float(n.value)
                if math.isfinite(v):
                    out.add(abs(v))
    return sorted(out)


def constants():
    base_file = os.path.join(HERE, 'baseline_constants.json')
    try:
        base = set(json.load(open(base_file)))
    except OSError:
        base = set()
    now = harvest()
    return now, [v for v in now if v not in base]


CONST, NEWCONST = constants()
NEWCOUNT = [int(v) for v in NEWCONST if v == int(v) and 2 <= v <= 300]


def derived(c, r):
    """a value around a harvested constant"""
    k = r.randrange(10)
    if k < 3:
        v = c
    elif k == 3:
        v = c + r.choice((1.0, -1.0, 0.5, -0.5))
    elif k == 4:
        v = c * r.choice((0.5, 2.0, 1.5, 3.0, 10.0, 0.1))
    elif k == 5:
        v = c * (1 + r.uniform(-0.2, 0.2))
    elif k == 6:
        v = math.nextafter(c, r.choice((-math.inf, math.inf)))
    elif k == 7:
        v = math.sqrt(c)
    elif k == 8:
        v = c + r.uniform(0, 3) * max(1.0, c)
    else:
        v = c * r.random()
    return v if r.random() < 0.5 else -v


def a_const(r, lim=LIM):
    for _ in range(4):
        c = r.choice(NEWCONST) if NEWCONST and r.random() < 0.6 else r.choice(CONST)
        v = derived(c, r)
        if abs(v) <= lim:
            return v
    return 1.0


SMALL = (1e-9, 1e-8, 1e-7, 5e-7, 9e-7, 1.1e-6, 2e-6, 1e-5, 1e-4, 1e-3, 1e-2)

FAMILIES = ('grid', 'grid', 'grid', 'bigrid', 'dyad', 'cm', 'soccer', 'soccer', 'unit',
            'wide', 'mixed', 'mixed', 'const', 'far', 'axis', 'milli')


class Draw:
    """A source of values that records what it handed out, and can play it back."""

    def __init__(self, rng, values=None):
        self.r = rng
        self.replay = values
        self.pos = 0
        self.vals = []
        self.fam = rng.choice(FAMILIES)
        self.p_const = rng.choice((0.0, 0.0, 0.03, 0.15)) if not NEWCONST else \
            rng.choice((0.0, 0.05, 0.15, 0.3))
        self.p_rel = rng.choice((0.1, 0.4, 0.7))
        self.nums = []
        self.points = []
        self.angs = []
        off = rng.choice((0, 0, 0, 1, 1, 2))
        self.offx = off and rng.choice((10.0, -30.0, 100.0, 1000.0, -0.5, 52.5, -34.0))
        self.offy = off and rng.choice((10.0, -30.0, 100.0, 1000.0, -0.5, 52.5, -34.0))
        if off == 1 and rng.random() < 0.5:
            self.offx = 0
        self.scale = rng.choice((1, 1, 1, 1, 1, 2, 0.5, 8, 64, 0.125))

    # -- recording
    def _next(self, kind, gen):
        if self.replay is not None and self.pos < len(self.replay):
            v = self.replay[self.pos]
            self.pos += 1
            if kind == 'i' and not isinstance(v, int):
                try:
                    v = int(v)
                except (ValueError, OverflowError):
                    v = 0
            elif kind == 'n' and isinstance(v, float) and not math.isfinite(v):
                v = 0.0
        else:
            self.replay = None
            v = gen()
        return v

    def i(self, lo, hi):
        v = self._next('i', lambda: self.r.randint(lo, hi))
        if not lo <= v <= hi:
            v = lo + (v - lo) % (hi - lo + 1)
        self.vals.append(v)
        return v

    def count(self, lo, hi, big=48):
        """how many: mostly lo..hi, now and then many, or around a whole number that is new in the tree"""
        def g(r):
            k = r.random()
            if k < 0.15 and NEWCOUNT:
                return r.choice(NEWCOUNT) + r.randint(-1, 3)
            return r.randint(hi, max(hi, big)) if k > 0.985 else r.randint(lo, hi)
        v = self._next('i', lambda: g(self.r))
        v = min(max(v, lo), 400)
        self.vals.append(v)
        return v

    def pick(self, seq):
        return seq[self.i(0, len(seq) - 1)]

    def chance(self, p):
        v = self._next('i', lambda: int(self.r.random() < p))
        v = 1 if v else 0
        self.vals.append(v)
        return bool(v)

    def val(self, gen, lo=-LIM, hi=LIM):
        """a number produced by gen(rng), clamped on replay"""
        v = self._next('n', lambda: gen(self.r))
        if -1e-12 < v < 1e-12:      # no subnormal or rounding-residue inputs
            v = 0 if isinstance(v, int) else 0.0 if v else v
        if not lo <= v <= hi:
            v = min(max(v, lo), hi)
        self.vals.append(v)
        return v

    # -- numbers
    def _num(self, r):
        k = r.random()
        if k < self.p_const:
            return a_const(r)
        if self.nums and k < self.p_const + 0.12:
            v = r.choice(self.nums)
            j = r.randrange(6)
            return (v, v, -v, v + 1, v - 1, v * 2)[j] if abs(v) < LIM / 4 else v
        return self._fam(r, self.fam)

    def _fam(self, r, f):
        if f == 'grid':
            return r.randint(-3, 3)
        if f == 'bigrid':
            return r.randint(-40, 40)
        if f == 'dyad':
            return r.randint(-64, 64) / 8
        if f == 'cm':
            return round(r.uniform(-60, 60), r.choice((1, 2)))
        if f == 'soccer':
            return r.uniform(-60, 60)
        if f == 'unit':
            return r.uniform(-1, 1)
        if f == 'wide':
            return r.choice((-1, 1)) * 10 ** r.uniform(-2, 4.5)
        if f == 'far':
            return r.uniform(-1, 1) * 10 ** r.choice((2, 3, 4))
        if f == 'milli':
            return r.uniform(-1, 1) * 10 ** r.choice((-3, -2, -1))
        if f == 'axis':
            return r.choice((0, 0, 0, 0.0, -0.0)) if r.random() < 0.5 else r.choice((r.randint(-5, 5), r.uniform(-10, 10)))
        if f == 'const':
            return a_const(r)
        return self._fam(r, r.choice(('grid', 'bigrid', 'dyad', 'cm', 'soccer', 'wide', 'axis')))

    def num(self, lo=-LIM, hi=LIM):
        v = self.val(self._num, lo, hi)
        self.nums.append(v)
        return v

    def pos_num(self, hi=LIM, zero=False):
        def g(r):
            v = abs(self._num(r))
            if v == 0 and not zero:
                v = 1
            return v
        return self.val(g, 0 if zero else 1e-6, hi)

    # -- points
    def _point(self, r):
        pts = self.points
        if pts and r.random() < self.p_rel:
            k = r.randrange(16)
            p = r.choice(pts)
            q = r.choice(pts)
            if k == 0:
                return p
            if k == 1:
                return (p[0], self._num(r))
            if k == 2:
                return (self._num(r), p[1])
            if k == 3:
                return (p[0], q[1])
            if k in (4, 5, 6):
                t = r.choice((-1, -0.5, 0.25, 0.5, 0.75, 1.5, 2, 3, r.uniform(-2, 3), r.random()))
                return (p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]))
            if k == 7:
                t = r.choice((1, -1, 0.5, 2, -0.25, r.uniform(-2, 2)))
                return (p[0] - t * (q[1] - p[1]), p[1] + t * (q[0] - p[0]))
            if k == 8:
                return (p[1], p[0])
            if k == 9:
                return (-p[0], p[1]) if r.random() < 0.5 else (p[0], -p[1])
            if k == 10:
                d = r.choice(SMALL) if r.random() < 0.7 else abs(a_const(r, 10))
                d *= r.choice((1, -1, 0.3, -2))
                j = r.randrange(3)
                return (p[0] + d * (j != 1), p[1] + d * (j != 0))
            if k == 11:
                o = r.choice(pts)
                return (p[0] + q[0] - o[0], p[1] + q[1] - o[1])
            if k == 12:
                return (p[0] + r.choice((1, -1, 0.5, 2, 0)), p[1] + r.choice((1, -1, 0.5, 2, 0)))
            if k == 13:
                # perpendicular foot region: combine along and across
                t, u = r.choice((0, 0.5, 1, r.uniform(-1, 2))), r.choice((0, 1, -1, r.uniform(-1, 1)))
                dx, dy = q[0] - p[0], q[1] - p[1]
                return (p[0] + t * dx - u * dy, p[1] + t * dy + u * dx)
            if k == 14:
                d = math.dist(p, q) or 1
                a = math.radians(r.choice((0, 30, 45, 60, 90, 120, 135, 180, 270, r.uniform(0, 360))))
                return (p[0] + d * math.cos(a), p[1] + d * math.sin(a))
            c = a_const(r, 1000)
            a = math.radians(r.choice((0, 90, 180, 270, r.uniform(0, 360))))
            return (p[0] + c * math.cos(a), p[1] + c * math.sin(a))
        return (self._num(r) * self.scale + self.offx, self._num(r) * self.scale + self.offy)

    def xy(self):
        box = []

        def gx(r):
            p = self._point(r)
            p = tuple(v if abs(v) <= LIM else math.copysign(LIM, v) for v in p)
            box.append(p)
            return p[0]
        x = self.val(gx)
        y = self.val(lambda r: box[0][1] if box else self._num(r))
        self.points.append((x, y))
        if len(self.points) > 12:
            del self.points[0]
        return (x, y)

    # -- angles in degrees
    def _deg(self, r):
        k = r.randrange(14)
        if self.angs and k < 4:
            b = r.choice(self.angs)
            return b + r.choice((0, 180, -180, 90, -90, 360, -360, 1, -1, 1e-7, -1e-7, 45,
                                 r.uniform(-180, 180), r.uniform(-1, 1)))
        if k < 7:
            b = r.randint(-24, 24) * 15
            if r.random() < 0.12:
                b += r.choice((1, -1)) * r.random() * 10.0 ** -r.randint(1, 8)
            return b
        if k == 7:
            return r.choice((180, -180, 180.0, -180.0, 179.999, -179.999, 0, -0.0, 360, -360,
                             179.9999999, -179.9999999, 540, -540, 720, 1e-7, -1e-7, 90, -90))
        if k == 8:
            return r.randint(-180, 180)
        if k == 9:
            return r.randint(-1000, 1000) / 4
        if k == 10 and r.random() < 0.5:
            return r.uniform(-1, 1) * 10 ** r.randint(2, 9)
        if k == 11:
            return a_const(r, 1e9)
        return r.uniform(-180, 180) if r.random() < 0.7 else r.uniform(-400, 400)

    def deg(self, lim=1e9):
        v = self.val(self._deg, -lim, lim)
        self.angs.append(v)
        return v


# ------------------------------------------------------------------ mutation of recorded draws

def mutate(vals, rng, other=None):
    v = list(vals)
    if not v:
        return v
    for _ in range(rng.choice((1, 1, 1, 2, 3, 5))):
        i = rng.randrange(len(v))
        k = rng.randrange(13)
        if k == 0:
            j = rng.randrange(len(v))
            v[i] = v[j]
        elif k == 1:
            v[i] = -v[i]
        elif k == 2:
            v[i] = 0
        elif k == 3 and isinstance(v[i], float):
            v[i] = math.nextafter(v[i], rng.choice((-math.inf, math.inf)))
        elif k == 4:
            v[i] = v[i] + rng.choice((1, -1, 0.5, -0.5, 2)) if isinstance(v[i], float) \
                else v[i] + rng.choice((1, -1, 2, -2))
        elif k == 5:
            v[i] = a_const(rng)
        elif k == 6:
            j = rng.randrange(len(v))
            v[i], v[j] = v[j], v[i]
        elif k == 7:
            v[i] = v[i] + rng.choice((1, -1)) * rng.choice(SMALL)
        elif k == 8:
            v[i] = v[i] * rng.choice((2, 0.5, 10, 0.1, 1.01))
        elif k == 9:
            del v[i:]
            if not v:
                return v
        elif k == 10 and other:
            j = rng.randrange(len(other))
            v = v[:i] + other[j:]
            if not v:
                return v
        elif k == 11:
            v[i] = round(v[i]) if isinstance(v[i], float) and abs(v[i]) < 1e15 else v[i]
        else:
            v[i] = rng.randint(0, 9)
    return v


# ------------------------------------------------------------------ live objects

class Ctx:
    """One episode: draws plus the pool of live objects built so far (they are kept, mutated
    and queried again, so histories matter)."""

    def __init__(self, draw):
        self.d = draw
        self.pool = {}
        self.p_reuse = draw.r.choice((0.15, 0.5))
        self.log = []

    def _get(self, kind, make, reuse=True):
        pool = self.pool.setdefault(kind, [])
        if reuse and pool and self.d.chance(self.p_reuse):
            return self.d.pick(pool)
        o = make()
        pool.append(o)
        if len(pool) > 6:
            del pool[0]
        return o

    # numbers / angles
    def num(self, *a):
        return self.d.num(*a)

    def ang(self):
        """an angle argument: object or plain number"""
        v = self.d.deg()
        return T.AngleDeg(v) if self.d.chance(0.6) else v

    def angle(self, reuse=True):
        return self._get('A', lambda: T.AngleDeg(self.d.deg()), reuse)

    # shapes
    def vec(self, reuse=True):
        return self._get('V', lambda: T.Vector2D(*self.d.xy()), reuse)

    def nvec(self):
        return T.Vector2D(*self.d.xy())

    def seg(self, reuse=True):
        def mk():
            d = self.d
            k = d.i(0, 7)
            if k == 0:
                p = self.vec()
                return T.Segment2D(p, p)
            if k == 1:
                return T.Segment2D(self.nvec(), d.pos_num(1e4), d.deg())
            if k == 2:
                return T.Segment2D(*d.xy(), *d.xy())
            return T.Segment2D(self.vec(), self.vec())
        return self._get('S', mk, reuse)

    def line(self, reuse=True):
        def mk():
            d = self.d
            k = d.i(0, 7)
            if k == 0:
                a, b, c = d.num(), d.num(), d.num()
                if abs(a) + abs(b) < 1e-3:
                    a = 1.0
                return T.Line2D(a, b, c)
            if k <= 2:
                return T.Line2D(self.vec(), self.ang())
            p, q = self.vec(), self.vec()
            if p.dist(q) < 1e-6:
                q = T.Vector2D(p.x() + 1, p.y())
            return T.Line2D(p, q)
        return self._get('L', mk, reuse)

    def ray(self, reuse=True):
        def mk():
            if self.d.chance(0.5):
                return T.Ray2D(self.vec(), self.ang())
            p, q = self.vec(), self.vec()
            if p.dist(q) < 1e-4:
                q = T.Vector2D(p.x() + 1, p.y())
            return T.Ray2D(p, q)
        return self._get('R', mk, reuse)

    def circle(self, reuse=True):
        def mk():
            c = self.vec()
            k = self.d.i(0, 4)
            if k == 0 and self.d.points:
                q = self.d.pick(self.d.points)
                return T.Circle2D(c, math.hypot(c.x() - q[0], c.y() - q[1]))
            return T.Circle2D(c, self.d.pos_num(1e4))
        return self._get('C', mk, reuse)

    def tri(self, reuse=True):
        return self._get('T', lambda: T.Triangle2D(self.vec(), self.vec(), self.vec())
                         if self.d.chance(0.8) else T.Triangle2D(self.seg(), self.vec()), reuse)

    def size(self):
        return self._get('Z', lambda: T.Size2D(self.d.num(), self.d.num()))

    def rect(self, reuse=True):
        def mk():
            d = self.d
            k = d.i(0, 5)
            if k == 0:
                return T.Rect2D(d.num(), d.num(), d.num(), d.num())
            if k == 1:
                return T.Rect2D(self.vec(), d.pos_num(1e4), d.pos_num(1e4))
            if k == 2:
                return T.Rect2D(self.vec(), self.size())
            if k == 3:
                return T.Rect2D.from_center(self.vec(), d.pos_num(1e4), d.pos_num(1e4))
            return T.Rect2D(self.vec(), self.vec())
        return self._get('Q', mk, reuse)

    def sector(self):
        def mk():
            d = self.d
            a, b = d.pos_num(1e3, True), d.pos_num(1e3, True)
            if b < a and d.chance(0.9):
                a, b = b, a
            return T.Sector2D(self.vec(), a, b, self.ang(), self.ang())
        return self._get('K', mk)

    def matrix(self):
        def mk():
            d = self.d
            k = d.i(0, 4)
            if k == 0:
                return T.Matrix2D()
            if k == 1:
                return T.Matrix2D.make_rotation(T.AngleDeg(d.deg(1e6)))
            if k == 2:
                return T.Matrix2D.make_translation(d.num(-1e3, 1e3), d.num(-1e3, 1e3))
            if k == 3:
                return T.Matrix2D.make_scaling(d.num(-100, 100), d.num(-100, 100))
            return T.Matrix2D(*[d.num(-100, 100) for _ in range(6)])
        return self._get('M', mk)

    def pts(self, lo, hi):
        return [self.d.xy() for _ in range(self.d.count(lo, hi))]

    def simple_pts(self, lo=3, hi=10):
        """vertices of a simple polygon: sorted by angle around an interior point"""
        n = self.d.count(lo, hi)
        raw = [self.d.xy() for _ in range(n)]
        raw = list(dict.fromkeys(raw))
        cx = sum(p[0] for p in raw) / len(raw)
        cy = sum(p[1] for p in raw) / len(raw)
        raw.sort(key=lambda p: (math.atan2(p[1] - cy, p[0] - cx), p))
        if self.d.chance(0.5):
            raw.reverse()
        return raw

    def poly(self, reuse=True):
        def mk():
            k = self.d.i(0, 9)
            if k <= 3:
                pts = self.pts(3, 9)
            elif k == 4:
                pts = self.pts(1, 2)
            elif k == 5:
                pts = comb_polygon(self.d)
            else:
                pts = self.simple_pts()
            vs = [T.Vector2D(*p) for p in pts]
            return T.Polygon2D(vs) if self.d.chance(0.7) else T.Polygon2D(*vs)
        return self._get('P', mk, reuse)


def comb_polygon(d):
    """rectilinear / zig-zag polygons: many vertices on the same levels"""
    n = d.i(2, 5)
    w = d.pick((1, 2, 0.5))
    pts = []
    x = d.i(-4, 2)
    base = d.i(-3, 1)
    for k in range(n):
        h = d.i(0, 3)
        pts.append((x, base + h))
        if d.chance(0.6):
            x += w
            pts.append((x, base + h))
        x += d.pick((0, w))
    x += w
    pts.append((x, base - d.i(0, 2)))
    pts.append((pts[0][0], base - d.i(0, 2)))
    if d.chance(0.3):
        pts = [(y, x) for x, y in pts]
    if d.chance(0.3):
        k = d.i(0, len(pts) - 1)
        pts = pts[k:] + pts[:k]
    for p in pts:
        d.points.append(p)
    return pts
