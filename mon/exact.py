"""Exact (rational) plane geometry used by the oracles."""
import math
from fractions import Fraction as F


def P(x, y):
    return (F(x), F(y))


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def area2(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def n2(a):
    return a[0] * a[0] + a[1] * a[1]


def sqrt(q):
    """square root of a non-negative rational, accurate in relative terms"""
    if q <= 0:
        return 0.0
    f = float(q)
    if f > 1e-290:
        return math.sqrt(f)
    return math.sqrt(float(q * (10 ** 300))) * 1e-150


def norm(a):
    return sqrt(n2(a))


def dist(a, b):
    return norm(sub(a, b))


def lerp(a, b, t):
    return (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)


def nearest_on_seg(a, b, p):
    d = sub(b, a)
    l2 = n2(d)
    if l2 == 0:
        return a
    t = dot(sub(p, a), d) / l2
    t = 0 if t < 0 else 1 if t > 1 else t
    return lerp(a, b, t)


def seg_dist2(a, b, p):
    return n2(sub(p, nearest_on_seg(a, b, p)))


def on_seg(a, b, p):
    return area2(a, b, p) == 0 and dot(sub(p, a), sub(p, b)) <= 0


def segs_meet(a, b, c, d):
    """do the closed segments share a point"""
    s1, s2 = area2(a, b, c), area2(a, b, d)
    s3, s4 = area2(c, d, a), area2(c, d, b)
    if ((s1 > 0) != (s2 > 0)) and s1 and s2 and ((s3 > 0) != (s4 > 0)) and s3 and s4:
        return True
    return on_seg(a, b, c) or on_seg(a, b, d) or on_seg(c, d, a) or on_seg(c, d, b)


def segs_cross(a, b, c, d):
    """do they cross at a single point interior to both"""
    s1, s2 = area2(a, b, c), area2(a, b, d)
    s3, s4 = area2(c, d, a), area2(c, d, b)
    return s1 * s2 < 0 and s3 * s4 < 0


def mag(*pts):
    return max(max(abs(p[0]), abs(p[1])) for p in pts)


def in_polygon(pts, p):
    """(inside by even-odd, on boundary)"""
    n = len(pts)
    inside = False
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        if on_seg(a, b, p):
            return False, True
        if (a[1] > p[1]) != (b[1] > p[1]):
            t = (p[1] - a[1]) / (b[1] - a[1])
            if a[0] + t * (b[0] - a[0]) > p[0]:
                inside = not inside
    return inside, False


def poly_area2(pts):
    n = len(pts)
    return sum(cross(pts[i], pts[(i + 1) % n]) for i in range(n))
