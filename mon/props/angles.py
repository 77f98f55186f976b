"""C01 C02 C03: angles."""
import math
import operator

from ..core import *
from .. import target as T
from ..gen import a_const

HALF = F(180)
FULL = F(360)


def degval(s):
    return F(s.deg) if isinstance(s, A) else F(s)


def circ(x):
    """distance of x from the nearest multiple of 360"""
    m = x % 360
    return min(m, 360 - m)


def atol(E, extra=0):
    return F(1e-9) + F(4 * EPS) * abs(E) + F(extra)


def check_deg(got, E, kept=False, extra=0, what='degree'):
    need(finite(got), lambda: f'{what} is {got!r}')
    need(-180 <= got <= 180, lambda: f'{what} {got!r} is outside [-180, 180]')
    # beyond 1e15 the spacing of floats makes the relative allowance meaningless: the remainder of
    # the number that was given is exactly representable there, so it is the expected value
    tol = F(1e-9) if kept and abs(E) > 10 ** 15 else atol(E, extra)
    need(circ(F(got) - E) <= tol,
         lambda: f'{what} {got!r} is not congruent to {float(E)!r} modulo 360')
    if kept and abs(E) <= 180:
        need(abs(F(got) - E) <= tol, lambda: f'{what} {float(E)!r} was in range but became {got!r}')


def cls(E):
    a = abs(E)
    k = 'in' if a < 180 else 'seam180' if a == 180 else 'one-turn' if a < 360 else \
        '360' if a == 360 else 'far' if a < 10 ** 15 else 'huge'
    return k + ('+' if E > 0 else '-' if E < 0 else '0')


# ---------------------------------------------------------------- C01

def stored(o, what):
    """the value behind the by-reference accessor is normalised too"""
    v = o.degree_()
    need(finite(v) and -180 <= v <= 180, lambda: f'{what}: degree_ is {v!r}')
    close(v, F(o.degree()), 1e-12, what + ': degree_')


@contract('C01', 'AngleDeg', '__init__')
def _(e):
    if e.args:
        E = degval(e.args[0])
    elif 'af' in e.kw:
        E = degval(e.kw['af'])
    else:
        E = F(0)
    check_deg(e.after.deg, E, kept=True)
    need(type(e.obj).__name__ == 'AngleDeg', 'not an angle')
    stored(e.obj, 'new angle')
    return cls(E)


@contract('C01', 'AngleDeg', 'set_degree')
def _(e):
    E = degval(e.args[0])
    check_deg(e.after.deg, E, kept=True)
    stored(e.obj, 'angle')
    return cls(E)


@contract('C01', 'AngleDeg', 'set_angle')
def _(e):
    close(e.after.deg, F(e.args[0].deg), 1e-12, 'degree')
    stored(e.obj, 'angle')
    return cls(F(e.args[0].deg))


@contract('C01', 'AngleDeg', 'copy')
def _(e):
    need(isinstance(e.ret, A), 'copy is not an angle')
    need(e.raw_ret is not e.obj, 'copy is the same object')
    close(e.ret.deg, F(e.recv.deg), 1e-12, 'degree of the copy')
    return cls(F(e.recv.deg))


@contract('C01', 'AngleDeg', 'degree', 'degree_', '__float__')
def _(e):
    need(finite(e.ret) and -180 <= e.ret <= 180, lambda: f'{e.ret!r} outside [-180, 180]')
    close(e.ret, F(e.recv.deg), 1e-12, 'degree')
    return cls(F(e.recv.deg))


def arith(op):
    def f(e):
        a = F(e.recv.deg)
        b = degval(e.args[0])
        if op == '/' and b == 0:
            return None
        E = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
        if abs(E) > 10 ** 12:
            return None
        inplace = e.name.split('.')[1].startswith('__i')
        if inplace:
            need(e.raw_ret is e.obj, 'in-place operator did not return the receiver')
            got = e.after.deg
        else:
            need(isinstance(e.ret, A), lambda: f'result is {e.ret!r}')
            need(e.raw_ret is not e.obj, 'result is the receiver')
            need(e.after == e.recv, 'operand changed')
            got = e.ret.deg
        stored(e.raw_ret, 'result')
        check_deg(got, E, kept=abs(abs(E) - 180) > atol(E), extra=F(4 * EPS) * (abs(a) + abs(b)))
        return ('angle ' if isinstance(e.args[0], A) else 'number ') + cls(E)
    return f


contract('C01', 'AngleDeg', '__add__', '__iadd__')(arith('+'))
contract('C01', 'AngleDeg', '__sub__', '__isub__')(arith('-'))
contract('C01', 'AngleDeg', '__mul__', '__imul__')(arith('*'))
contract('C01', 'AngleDeg', '__itruediv__')(arith('/'))


@contract('C01', 'AngleDeg', '__floordiv__')
def _(e):
    a, b = F(e.recv.deg), F(e.args[0])
    if b == 0 or abs(a / b) > 10 ** 12:
        return None
    need(isinstance(e.ret, A), lambda: f'result is {e.ret!r}')
    need(e.raw_ret is not e.obj and e.after == e.recv, 'operand changed')
    need(-180 <= e.ret.deg <= 180, lambda: f'degree {e.ret.deg!r} is outside [-180, 180]')
    q = a / b                      # named floor division, computed as division: either is accepted
    need(any(circ(F(e.ret.deg) - x) <= atol(q) for x in (q, F(math.floor(q)))),
         lambda: f'{e.ret.deg!r} is neither {float(q)!r} nor its floor')
    return cls(q)


@contract('C01', 'AngleDeg', '__neg__')
def _(e):
    need(isinstance(e.ret, A) and e.after == e.recv, 'negation')
    check_deg(e.ret.deg, -F(e.recv.deg))
    stored(e.raw_ret, 'result')
    return cls(F(e.recv.deg))


@contract('C01', 'AngleDeg', 'reverse')
def _(e):
    check_deg(e.after.deg, F(e.recv.deg) + 180)
    stored(e.obj, 'angle')
    return cls(F(e.recv.deg))


@contract('C01', 'AngleDeg', 'reverse_angle')
def _(e):
    need(isinstance(e.ret, A) and e.after == e.recv, 'reverse_angle changed its receiver')
    check_deg(e.ret.deg, F(e.recv.deg) + 180)
    stored(e.raw_ret, 'result')
    return cls(F(e.recv.deg))


@contract('C01', 'AngleDeg', 'abs')
def _(e):
    close(e.ret, abs(F(e.recv.deg)), 1e-12, 'absolute degree')
    return cls(F(e.recv.deg))


@contract('C01', 'AngleDeg', 'radian')
def _(e):
    close(e.ret, e.recv.deg * math.pi / 180, 1e-12, 'radian')
    return cls(F(e.recv.deg))


@contract('C01', 'AngleDeg', 'get_normalized')
def _(e):
    close(e.ret, (F(e.recv.deg) + 180) / 360, 1e-12, 'normalised value')
    return cls(F(e.recv.deg))


@contract('C01', 'AngleDeg', 'normalize_angle')
def _(e):
    E = F(e.args[0])
    check_deg(e.ret, E, kept=True)
    return cls(E)


def big(c):
    """numbers of any size: up to the end of the float range, and whole turns plus a little"""
    def g(r):
        k = r.randrange(4)
        s = r.choice((1, -1))
        if k == 0:
            return s * r.random() * 10.0 ** r.uniform(9, 300)
        if k == 1:
            return s * 360.0 * 2.0 ** r.randint(1, 900)
        if k == 2:
            return s * (360 * r.randint(1, 10 ** r.randint(1, 12)) + r.choice((0, 180, -180, 90, r.uniform(-360, 360))))
        return s * float(r.randint(1, 2 ** 62))
    return c.d.val(g, -1e308, 1e308)


def c01_ops():
    return [
        lambda c: c.angle(False),
        lambda c: T.AngleDeg(af=c.d.deg()),
        lambda c: T.AngleDeg(big(c)),
        lambda c: c.angle().set_degree(big(c)),
        lambda c: T.AngleDeg.normalize_angle(big(c)),
        lambda c: T.AngleDeg(c.angle()),
        lambda c: T.AngleDeg(),
        lambda c: c.angle().set_degree(c.d.deg()),
        lambda c: c.angle().set_angle(c.angle()),
        lambda c: c.angle().copy(),
        lambda c: (c.angle().degree(), c.angle().degree_(), float(c.angle())),
        lambda c: c.angle() + c.ang(),
        lambda c: c.angle() - c.ang(),
        lambda c: c.angle() * c.d.num(-1000, 1000),
        lambda c: -c.angle(),
        lambda c: operator.iadd(c.angle(), c.ang()),
        lambda c: operator.isub(c.angle(), c.ang()),
        lambda c: operator.imul(c.angle(), c.d.num(-1000, 1000)),
        lambda c: operator.itruediv(c.angle(), c.d.pick((1, -1)) * (c.d.pos_num(1000) + 0.001)),
        lambda c: c.angle() // (c.d.pick((1, -1)) * (c.d.pos_num(1e5) + 0.001)),
        lambda c: c.angle().reverse(),
        lambda c: c.angle().reverse_angle(),
        lambda c: (c.angle().abs(), c.angle().radian(), c.angle().get_normalized()),
        lambda c: T.AngleDeg.normalize_angle(c.d.deg()),
    ]


# ---------------------------------------------------------------- C02

def exact_deg(*xs):
    return all(x * 1024 == int(x * 1024) and abs(x) < 2 ** 21 for x in xs)


@contract('C02', 'AngleDeg', 'is_left_of', 'is_right_of', 'is_left_equal_of', 'is_right_equal_of')
def _(e):
    a, b = F(e.recv.deg), degval(e.args[0])
    n = e.name
    diff = (b - a) % 360 if 'left' in n else (a - b) % 360
    orig = e.raw_args[0]
    tol = F(1e-9) + F(4 * EPS) * abs(b)
    edge = min(diff, 360 - diff, abs(diff - 180))
    if edge <= tol and not (exact_deg(a, b) and edge == 0):
        return None
    want = 0 < diff < 180 or ('equal' in n and diff == 0)
    need(bool(e.ret) == want, lambda: f'expected {want}: from {float(a)} to {float(b)} the turn is {float(diff)}')
    k = 'same' if diff == 0 else 'opposite' if diff == 180 else 'yes' if want else 'no'
    seam = ' seam' if abs(a - b) > 180 else ''
    return k + seam


@contract('C02', 'AngleDeg', 'is_within')
def _(e):
    x, l, r = F(e.recv.deg), degval(e.args[0]), degval(e.args[1])
    sweep = (r - l) % 360
    off = (x - l) % 360
    tol = F(1e-9) + F(4 * EPS) * (abs(l) + abs(r))
    edges = (min(off, 360 - off), abs(off - sweep), min(sweep, 360 - sweep))
    if min(edges) <= tol and not exact_deg(x, l, r):
        return None
    want = off <= sweep
    need(bool(e.ret) == want, lambda: f'expected {want}: {float(x)} in the sweep of {float(sweep)} from {float(l)}')
    k = 'start' if off == 0 else 'end' if off == sweep else 'in' if want else 'out'
    s = '0' if sweep == 0 else '<180' if sweep < 180 else '180' if sweep == 180 else '>180'
    seam = 'seam' if (l + 180) % 360 + sweep > 360 else ''
    return f'{k} sweep{s} {seam}'


@contract('C02', 'AngleDeg', 'bisect')
def _(e):
    l, r = degval(e.args[0]), degval(e.args[1])
    sweep = (l - r) % 360
    tol = F(1e-7)
    if abs(l) > 10 ** 7 or abs(r) > 10 ** 7:
        return None
    need(isinstance(e.ret, A), 'bisect does not return an angle')
    need(-180 <= e.ret.deg <= 180, 'bisect outside the range')
    E = r + sweep / 2
    if min(sweep, 360 - sweep, abs(sweep - 180)) <= tol:    # equal or opposite: either bisector
        d = F(e.ret.deg) - E
        need(min(circ(d), circ(d + 180)) <= F(1e-6), lambda: f'{e.ret.deg!r} does not bisect, expected '
                                                             f'{float(E % 360)!r} or the opposite')
        return 'opposite' if abs(sweep - 180) <= tol else 'equal'
    need(circ(F(e.ret.deg) - E) <= F(1e-8), lambda: f'bisector {e.ret.deg!r}, expected {float(E % 360)!r} mod 360')
    return ('acute' if sweep < 180 else 'reflex') + (' seam' if abs(l - r) > 180 else '')


def c02_ops():
    def rel(c):
        return c.angle(), (c.angle() if c.d.chance(0.5) else c.ang())

    def within(c):
        l, r = c.ang(), c.ang()
        return c.angle().is_within(l, r)
    return [
        lambda c: (lambda p: p[0].is_left_of(p[1]))(rel(c)),
        lambda c: (lambda p: p[0].is_right_of(p[1]))(rel(c)),
        lambda c: (lambda p: p[0].is_left_equal_of(p[1]))(rel(c)),
        lambda c: (lambda p: p[0].is_right_equal_of(p[1]))(rel(c)),
        within, within, within,
        lambda c: c.angle().is_within(c.angle(), c.angle()),
        lambda c: T.AngleDeg.bisect(c.ang(), c.ang()),
        lambda c: T.AngleDeg.bisect(c.angle(), c.angle()),
        lambda c: c.angle().set_degree(c.d.deg()),
        lambda c: c.angle().reverse(),
    ]


# ---------------------------------------------------------------- C03

EXACT = {0: (1, 0), 30: (math.sqrt(3) / 2, .5), 45: (math.sqrt(.5), math.sqrt(.5)),
         60: (.5, math.sqrt(3) / 2), 90: (0, 1)}


def cs(deg):
    """cosine and sine of an exact degree value: reduced to the first octants exactly"""
    m = F(deg) % 360
    q, rem = divmod(m, 90)
    c, s = math.cos(float(rem) * math.pi / 180), math.sin(float(rem) * math.pi / 180)
    if rem.denominator == 1 and int(rem) in EXACT:
        c, s = EXACT[int(rem)]
    for _ in range(int(q)):
        c, s = -s, c
    return c, s


def trig(e, deg):
    if abs(deg) > 1e7:
        return None
    c, s = cs(deg)
    tol = 1e-12 + abs(float(deg)) * 1e-16
    n = e.name.split('.')[1]
    if n.startswith('cos'):
        close(e.ret, c, tol, 'cosine')
    elif n.startswith('sin'):
        close(e.ret, s, tol, 'sine')
    else:
        if abs(c) < 1e-10:
            return None
        t = s / c
        close(e.ret, t, (1 + t * t) * 4 * tol, 'tangent')
    m = F(deg) % 360
    return f'q{int(m // 90)}' + (' axis' if m % 90 == 0 else '') + (' far' if abs(deg) > 360 else '')


@contract('C03', 'AngleDeg', 'cos', 'sin', 'tan')
def _(e):
    return trig(e, F(e.recv.deg))


@contract('C03', 'AngleDeg', 'cos_deg', 'sin_deg', 'tan_deg')
def _(e):
    return trig(e, F(e.args[0]))


@contract('C03', 'AngleDeg', 'acos_deg', 'asin_deg', 'atan_deg')
def _(e):
    v = e.args[0]
    n = e.name
    if 'acos' in n:
        want = 0.0 if v >= 1 else 180.0 if v <= -1 else math.degrees(math.acos(v))
        close(e.ret, want, 1e-9, 'arc cosine')
    elif 'asin' in n:
        want = 90.0 if v >= 1 else -90.0 if v <= -1 else math.degrees(math.asin(v))
        close(e.ret, want, 1e-9, 'arc sine')
    else:
        close(e.ret, math.degrees(math.atan(v)), 1e-9, 'arc tangent')
    return 'clamp' if abs(v) > 1 else 'one' if abs(v) == 1 else 'pos' if v > 0 else 'neg' if v < 0 else 'zero'


@contract('C03', 'AngleDeg', 'atan2_deg')
def _(e):
    y, x = e.args
    m = max(abs(x), abs(y))
    if 0.9e-6 < m < 1.1e-6:
        return None
    need(finite(e.ret) and -180 <= e.ret <= 180, lambda: f'{e.ret!r} outside [-180, 180]')
    if m < 1e-6:
        close(e.ret, 0.0, 1e-12, 'direction of a null vector')
        return 'null'
    c, s = cs(e.ret)
    h = math.hypot(x, y)
    # the returned direction must point along (x, y)
    need(abs(c * y - s * x) <= 1e-11 * h and c * x + s * y > 0,
         lambda: f'direction {e.ret!r} does not point to ({x!r}, {y!r})')
    return f'{sgn(x)}{sgn(y)}'


@contract('C03', 'AngleDeg', 'rad2deg', 'deg2rad')
def _(e):
    v = e.args[0]
    k = 180 / math.pi if 'rad2' in e.name else math.pi / 180
    close(e.ret, v * k, 1e-12 * (1 + abs(v * k)), 'converted value')
    return 'pos' if v > 0 else 'neg' if v < 0 else 'zero'


def c03_ops():
    def ratio(c):
        d = c.d
        k = d.i(0, 4)
        if k == 0:
            return d.pick((1, -1, 0, 1.0, -1.0, 1.0000000000000002, -1.0000000000000002, 0.5, -0.5,
                           0.9999999999999999, -0.9999999999999999, 2, -2, 1.1, 10.0, -1e6))
        if k == 1:
            return d.num()
        return d.val(lambda r: r.uniform(-1, 1))

    def dirs(c):
        d = c.d
        return d.num(), d.num()
    return [
        lambda c: (lambda a: (a.cos(), a.sin(), a.tan()))(c.angle()),
        lambda c: (lambda x: (T.AngleDeg.cos_deg(x), T.AngleDeg.sin_deg(x), T.AngleDeg.tan_deg(x)))(c.d.deg(1e6)),
        lambda c: T.AngleDeg.acos_deg(ratio(c)),
        lambda c: T.AngleDeg.asin_deg(ratio(c)),
        lambda c: T.AngleDeg.atan_deg(c.d.num() if c.d.chance(.5) else ratio(c)),
        lambda c: T.AngleDeg.atan_deg(c.d.val(lambda r: r.choice((1, -1)) * 10.0 ** r.uniform(-9, 15), -1e15, 1e15)),
        lambda c: T.AngleDeg.atan2_deg(*dirs(c)),
        lambda c: T.AngleDeg.atan2_deg(*c.d.xy()),
        lambda c: T.AngleDeg.atan2_deg(c.d.num(), 0),
        lambda c: T.AngleDeg.atan2_deg(0, c.d.num()),
        lambda c: (T.AngleDeg.rad2deg(c.d.num()), T.AngleDeg.deg2rad(c.d.deg(1e6))),
        lambda c: c.angle().set_degree(c.d.deg()),
    ]


OPS = {'C01': c01_ops(), 'C02': c02_ops(), 'C03': c03_ops()}
