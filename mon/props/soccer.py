"""C27 C28: soccer mathematics."""
import math

from ..core import *
from .. import target as T
from .. import exact as X
from .angles import cs, degval
from ..gen import a_const

SM = T.soccer_math
SEPS = 1e-10


def argsof(e, names, defaults=()):
    d = dict(zip(names, e.args))
    d.update(e.kw)
    for n, v in zip(names[len(names) - len(defaults):], defaults):
        d.setdefault(n, v)
    return [d[n] for n in names]


def rel(got, want, r, what, floor=1e-300):
    close(got, float(want), r * abs(float(want)) + floor, what)


# ---------------------------------------------------------------- C27

def steps(decay, n):
    """sum of the first n powers of decay, exactly as n single steps"""
    tot, v = 0.0, 1.0
    parts = []
    for _ in range(n):
        parts.append(v)
        v *= decay
    return math.fsum(parts)


def dk(decay, n):
    return ('n0' if n == 0 else 'n1' if n == 1 else 'n<10' if n < 10 else 'n>=10') + \
        (' slow' if decay > 0.9 else ' fast' if decay < 0.1 else '')


def dtol(decay):
    return 1e-12 / (1 - decay)


@contract('C27', 'soccer_math', 'inertia_n_step_travel', 'inertia_n_step_point', 'inertia_n_step_distance')
def _(e):
    n = e.name.split('.')[1]
    if n == 'inertia_n_step_point':
        pos, v, k, dec = argsof(e, ('initial_pos', 'initial_vel', 'n_step', 'decay'))
    elif n == 'inertia_n_step_travel':
        v, k, dec = argsof(e, ('initial_vel', 'n_step', 'decay'))
        pos = V(0, 0, True)
    else:
        v, k, dec = argsof(e, ('initial_speed', 'n_step', 'decay'))
    if not (0 < dec <= 0.999999 and k >= 0 and isinstance(k, int)):
        return None
    s = steps(dec, k)
    t = 1e-12 + dtol(dec)
    if n.endswith('distance'):
        close(e.ret, v * s, t * abs(v) * (1 + s), 'distance')
    else:
        need(isinstance(e.ret, V) and e.ret.ok, lambda: f'{n} is {e.ret!r}')
        close(e.ret.x, pos.x + v.x * s, t * (abs(v.x) * (1 + s) + abs(pos.x)), 'x')
        close(e.ret.y, pos.y + v.y * s, t * (abs(v.y) * (1 + s) + abs(pos.y)), 'y')
        need(e.args_after == e.args, 'an argument changed')
    return dk(dec, k)


@contract('C27', 'soccer_math', 'inertia_final_travel', 'inertia_final_point', 'inertia_final_distance')
def _(e):
    n = e.name.split('.')[1]
    if n == 'inertia_final_point':
        pos, v, dec = argsof(e, ('initial_pos', 'initial_vel', 'decay'))
    elif n == 'inertia_final_travel':
        v, dec = argsof(e, ('initial_vel', 'decay'))
        pos = V(0, 0, True)
    else:
        v, dec = argsof(e, ('initial_speed', 'decay'))
    if not 0 < dec <= 0.999999:
        return None
    s = float(1 / (1 - F(dec)))
    t = 1e-12
    if n.endswith('distance'):
        close(e.ret, v * s, t * abs(v) * s, 'distance')
    else:
        need(isinstance(e.ret, V) and e.ret.ok, lambda: f'{n} is {e.ret!r}')
        close(e.ret.x, pos.x + v.x * s, t * (abs(v.x) * s + abs(pos.x)), 'x')
        close(e.ret.y, pos.y + v.y * s, t * (abs(v.y) * s + abs(pos.y)), 'y')
        need(e.args_after == e.args, 'an argument changed')
    return dk(dec, 99)


@contract('C27', 'soccer_math', 'calc_length_geom_series')
def _(e):
    a, s, r = argsof(e, ('first_term', 'sum_all', 'ratio'))
    for v in (a, r):
        if SEPS / 2 < v < 1e-7:
            return None
    if 0 < s < 1e-7 and s > SEPS / 2 or abs(r - 1) < 1e-6 and r > 0:
        return None
    if a <= 0 or s < 0 or r <= 0:
        need(e.ret == -1, lambda: f'expected -1, got {e.ret!r}')
        return 'no series'
    if a <= SEPS or r <= SEPS:
        return None
    if s <= SEPS:
        need(e.ret == 0, lambda: f'expected 0 terms, got {e.ret!r}')
        return 'zero sum'
    tmp = 1 + F(s) * (F(r) - 1) / F(a)
    if tmp <= 0:
        if tmp > -F(1e-12) * (1 + F(s) / F(a)):
            return None
        need(e.ret == -1, lambda: f'the sum is unreachable but {e.ret!r} was returned')
        return 'unreachable'
    if tmp < F(1e-4) or (r < 1 and F(s) / F(a) > 1000):
        return None
    w = math.log1p(float(tmp - 1)) / math.log(r)
    tol = 1e-9 + 64 * EPS * (1 + s / a) / float(tmp) / abs(math.log(r)) + 1e-12 * abs(w)
    close(e.ret, w, tol, 'number of terms')
    return ('growing' if r > 1 else 'shrinking') + (' <1' if w < 1 else ' many' if w > 10 else '')


@contract('C27', 'soccer_math', 'calc_first_term_geom_series')
def _(e):
    s, r, n = argsof(e, ('sums', 'ratio', 'length'))
    if not (isinstance(n, int) and 1 <= n <= 200 and 0 < r < 3 and abs(r - 1) >= 1e-6):
        return None
    t = steps(r, n)
    close(e.ret, s / t, (1e-12 + 1e-12 / abs(r - 1)) * abs(s / t), 'first term')
    return ('growing' if r > 1 else 'shrinking') + (' 1' if n == 1 else '')


@contract('C27', 'soccer_math', 'kick_rate')
def _(e):
    d, a, k, b, p, m = argsof(e, ('dist', 'dir_diff', 'kick_rate_power', 'ball_size', 'player_size', 'kickable_margin'))
    if m < 1e-3:
        return None
    w = F(k) * (1 - F(1, 4) * abs(F(a)) / 180 - F(1, 4) * (F(d) - F(b) - F(p)) / F(m))
    big = abs(k) * (1 + abs(a) / 180 + (abs(d) + abs(b) + abs(p)) / m)
    close(e.ret, w, F(1e-12) * F(big), 'kick rate')
    return f'dir{sgn(a)}' + ('' if abs(a) <= 180 else ' big')


@contract('C27', 'soccer_math', 'dir_rate')
def _(e):
    a, b, s = argsof(e, ('rel_dash_dir', 'back_dash_rate', 'side_dash_rate'))
    if abs(a) > 180:
        return None
    x = abs(F(a))
    b, s = F(b), F(s)
    w = b - (b - s) * (1 - (x - 90) / 90) if x > 90 else s + (1 - s) * (1 - x / 90)
    close(e.ret, w, F(1e-12) * (1 + abs(b) + abs(s)), 'dash rate')
    return f'dir{sgn(a)}' + (' back' if x > 90 else ' side' if x == 90 else '')


@contract('C27', 'soccer_math', 'effective_turn')
def _(e):
    t, v, i = argsof(e, ('turn_moment', 'speed', 'inertia_moment'))
    if v < 0 or i < 0:
        return None
    rel(e.ret, F(t) / (1 + F(i) * F(v)), 1e-12, 'effective turn')
    return f'{sgn(t)} {v > 0} {i > 0}'


@contract('C27', 'soccer_math', 'final_speed')
def _(e):
    p, r, f, d = argsof(e, ('dash_power', 'player_dash_power_rate', 'effort', 'decay'))
    if not 0 <= d <= 0.999:
        return None
    rel(e.ret, abs(F(p)) * F(r) * F(f) / (1 - F(d)), 1e-12, 'final speed')
    return f'{sgn(p)}'


@contract('C27', 'soccer_math', 'can_over_speed_max')
def _(e):
    p, r, f, d, m = argsof(e, ('dash_power', 'dash_power_rate', 'effort', 'decay', 'speed_max'))
    if not 0 <= d <= 0.999:
        return None
    a, b = abs(F(p)) * F(r) * F(f), F(m) * (1 - F(d))
    if abs(a - b) <= F(1e-13) * (abs(a) + abs(b)):
        return None
    need(bool(e.ret) == (a > b), lambda: f'expected {a > b}')
    return f'{sgn(p)} {a > b}'


@contract('C27', 'soccer_math', 'wind_effect')
def _(e):
    sp, w, f, d, ww, wr, err = argsof(e, ('speed', 'weight', 'wind_force', 'wind_dir', 'wind_weight', 'wind_rand', 'wind_error'))
    if abs(w) * abs(ww) < 1e-6:
        return None
    c, s = cs(degval(d))
    k = sp * f / (w * ww)
    t = 1e-11 * abs(k) + 1e-15
    need(isinstance(e.ret, V) and e.ret.ok, lambda: f'wind is {e.ret!r}')
    close(e.ret.x, k * c, t, 'x')
    close(e.ret.y, k * s, t, 'y')
    if err is not None and e.args_after is not None and len(e.args) == 7:
        g = e.args_after[6]
        close(g.x, k * c * wr, t * abs(wr) + 1e-15, 'wind error x')
        close(g.y, k * s * wr, t * abs(wr) + 1e-15, 'wind error y')
        need(e.raw_ret is not e.raw_args[6], 'the effect is the error vector')
    return ('angle' if isinstance(d, A) else 'number') + (' no error vector' if err is None else '')


def u(c, lo, hi, *special):
    d = c.d
    if special and d.chance(.3):
        return d.pick(special)

    def g(r):
        if r.random() < .1:
            v = abs(a_const(r))
            if lo <= v <= hi:
                return v
        v = r.uniform(lo, hi)
        if hi - lo > 8 and r.random() < .2:         # round numbers, as whole numbers too
            w = round(v * 2) / 2 if r.random() < .5 else round(v)
            if lo <= w <= hi:
                return w
        return v
    return d.val(g, lo, hi)


def decay(c):
    return u(c, 0.001, 0.999, 0.94, 0.4, 0.5, 0.9, 0.25, 0.999, 0.01)


def ratio(v):
    """a ratio of one is not a geometric series for the helpers"""
    return 0.94 if abs(v - 1) < 1e-6 else v


NEAR = (0.9995, 1.0005, 0.99999, 1.00001, 0.998, 0.999998, 1.003)


def wide(c):
    """a decay for the contracts, which also judge decays next to one"""
    return c.d.pick((0.9995, 0.99999, 0.9999, 0.999998, 1e-5)) if c.d.chance(.1) else decay(c)


def nstep(c):
    return c.d.pick((0, 1, 2, 3)) if c.d.chance(.4) else c.d.i(0, 120)


C27_OPS = [
    lambda c: SM.inertia_n_step_travel(c.vec(), nstep(c), wide(c)),
    lambda c: SM.inertia_n_step_point(c.vec(), c.vec(), nstep(c), wide(c)),
    lambda c: SM.inertia_n_step_distance(c.d.num(), nstep(c), wide(c)),
    lambda c: SM.inertia_final_travel(c.vec(), wide(c)),
    lambda c: SM.inertia_final_point(c.vec(), c.vec(), wide(c)),
    lambda c: SM.inertia_final_distance(c.d.num(), wide(c)),
    lambda c: SM.calc_length_geom_series(u(c, 0, 10, 1, 0, -1, 2.7, 3), u(c, 0, 60, 0, -1, 1, 1e-11, 30), ratio(u(c, 0, 2, 0.94, 0.5, 0, -1, 1.1, *NEAR))),
    lambda c: SM.calc_length_geom_series(u(c, 0.5, 3), u(c, 0, 40), u(c, 0.5, 0.998, 0.94, 0.9995, 0.99999)),
    lambda c: SM.calc_length_geom_series(c.d.num(), c.d.num(), ratio(c.d.num())),
    lambda c: SM.calc_first_term_geom_series(c.d.num(), ratio(u(c, 0.01, 2, 0.94, 0.5, *NEAR)), c.d.count(1, 100, 150)),
    lambda c: SM.kick_rate(u(c, 0, 2, 0.385, 0.985), u(c, -180, 180, 0, 90, -90, 180, -180), u(c, 0, 1, 0.027), u(c, 0, 1, 0.085),
                           u(c, 0, 1, 0.3), u(c, 0.01, 2, 0.7, 0.6)),
    lambda c: SM.dir_rate(u(c, -180, 180, 0, 90, -90, 180, -180, 90.5, 89.5, -91, 45), u(c, 0, 2, 0.6, 0.7, 1), u(c, 0, 2, 0.4, 0.25, 1)),
    lambda c: SM.effective_turn(u(c, -180, 180, 0, 180), u(c, 0, 3, 0, 1), u(c, 0, 10, 5, 0)),
    lambda c: SM.final_speed(u(c, -100, 100, 100, -100, 0), u(c, 0, 1, 0.006), u(c, 0, 1, 1, 0.6), wide(c)),
    lambda c: SM.can_over_speed_max(u(c, -100, 100, 100, -100, 0), u(c, 0, 0.02, 0.006), u(c, 0, 1, 1, 0.6), decay(c), u(c, 0, 2, 1.05)),
    lambda c: SM.wind_effect(u(c, 0, 3), u(c, 0.1, 100, 1), u(c, 0, 10, 10), c.ang(), u(c, 1, 1e4, 10000), u(c, 0, 1), c.nvec()),
    lambda c: SM.wind_effect(u(c, 0, 3), u(c, 0.1, 100, 1), u(c, 0, 10, 10), c.ang(), u(c, 1, 1e4, 10000), u(c, 0, 1), None),
]


def limits(c):
    """n steps approach the final values monotonically, and one step more adds one decayed step"""
    dec = decay(c)
    v, p = c.vec(), c.vec()
    n = c.d.count(0, 60, 150)
    a = SM.inertia_n_step_point(p, v, n, dec)
    b = SM.inertia_n_step_point(p, v, n + 1, dec)
    g = dec ** n
    big = abs(p.x()) + abs(p.y()) + (abs(v.x()) + abs(v.y())) / (1 - dec)
    tol = 1e-10 * (1 + big) / (1 - dec)
    MON.judge('inertia step recurrence', dk(dec, n),
              abs(b.x() - a.x() - v.x() * g) <= tol and abs(b.y() - a.y() - v.y() * g) <= tol,
              lambda: f'from {snap(p)} with {snap(v)}, decay {dec}: step {n} {snap(a)}, step {n + 1} {snap(b)}',
              key=(snap(p), snap(v), dec, n))
    f = SM.inertia_final_point(p, v, dec)
    q = SM.inertia_n_step_point(p, v, 40000, dec)
    MON.judge('inertia limit', dk(dec, 99), abs(f.x() - q.x()) <= tol and abs(f.y() - q.y()) <= tol,
              lambda: f'final {snap(f)}, after 40000 steps {snap(q)}', key=(snap(p), snap(v), dec))


def series(c):
    """the series helpers invert the step sum"""
    r = u(c, 0.3, 0.998, 0.94)
    a = u(c, 0.1, 5)
    n = c.d.count(1, 40, 100)
    s = SM.inertia_n_step_distance(a, n, r)
    if 1 - s * (1 - r) / a < 1e-3:
        return
    k = SM.calc_length_geom_series(a, s, r)
    MON.judge('series length inverts travel', dk(r, n), abs(k - n) <= 1e-6,
              lambda: f'{n} steps from {a} with {r} travel {s}, the length helper says {k}', key=(r, a, n))
    b = SM.calc_first_term_geom_series(s, r, n)
    MON.judge('series first term inverts travel', dk(r, n), abs(b - a) <= 1e-9 * a,
              lambda: f'{n} steps from {a} with {r} travel {s}, the first term helper says {b}', key=(r, a, n))


def mirror(c):
    x = u(c, 0, 180, 90, 180, 45, 91)
    b, s = u(c, 0, 2), u(c, 0, 2)
    p, q = SM.dir_rate(x, b, s), SM.dir_rate(-x, b, s)
    MON.judge('dash rate symmetric', 'dir', p == q, lambda: f'dir_rate({x})={p}, dir_rate({-x})={q}', key=(x, b, s))
    a = [u(c, 0, 2), u(c, 0, 1), u(c, 0, 1), u(c, 0, 1), u(c, 0.1, 2)]
    p, q = SM.kick_rate(a[0], x, *a[1:]), SM.kick_rate(a[0], -x, *a[1:])
    MON.judge('kick rate symmetric', 'dir', p == q, lambda: f'{p} {q} at {x} {a}', key=(x, *a))


C27_OPS += [limits, series, mirror]
REQUIRED['C27'] = ['inertia step recurrence', 'inertia limit', 'series length inverts travel',
                   'series first term inverts travel', 'dash rate symmetric', 'kick rate symmetric']


# ---------------------------------------------------------------- C28

def rnd(x):
    """nearest integer, ties away from zero"""
    f = abs(x)
    n = int(f)
    if f - n >= F(1, 2):
        n += 1
    return n if x >= 0 else -n


@contract('C28', 'soccer_math', 'r_int')
def _(e):
    x = F(argsof(e, ('floating_point',))[0])
    if abs(x) > 1 << 40:
        return None
    w = rnd(x)
    need(isnum(e.ret) and e.ret == w, lambda: f'expected {w}')
    fr = abs(x) - int(abs(x))
    return ('int' if fr == 0 else 'tie' if fr == F(1, 2) else 'up' if fr > F(1, 2) else 'down') + f' {sgn(x)}'


def tie_near(v, q):
    """is v/q within rounding of a half integer (and not exactly computed)"""
    r = F(v) / F(q)
    fr = abs(r) - int(abs(r))
    return abs(fr - F(1, 2)) <= F(1e-9) + F(4 * EPS) * abs(r) and not F(v / q) == r


@contract('C28', 'soccer_math', 'quantize')
def _(e):
    v, q = argsof(e, ('value', 'qstep'))
    if q <= 0 or abs(v / q) > 1e12:
        return None
    n = rnd(F(v) / F(q))
    if tie_near(v, q):
        need(abs(abs(F(e.ret)) - abs(n * F(q))) <= F(q) * (1 + F(1e-6)) + F(4 * EPS) * abs(F(v)), 'off by more than a step')
        return None
    close(e.ret, n * F(q), F(4 * EPS) * abs(n * F(q)), 'quantised value')
    return f'{sgn(v)} ' + ('zero' if n == 0 else 'one' if abs(n) == 1 else 'many')


def qdist(d, q):
    """server rule; None near a tie"""
    l = math.log(d + SEPS)
    x = l / q
    if abs(abs(x) % 1 - 0.5) < 1e-7:
        return None
    y = math.exp(rnd(F(x)) * q) / 0.1
    if abs(y % 1 - 0.5) < 1e-7:
        return None
    return rnd(F(y)) * 0.1


@contract('C28', 'soccer_math', 'quantize_dist')
def _(e):
    d, q = argsof(e, ('unq_dist', 'qstep'))
    if d < 0 or q <= 1e-3 or d > 1e5:
        return None
    w = qdist(d, q)
    if w is None:
        return None
    close(e.ret, w, 1e-9 * (1 + abs(w)), 'quantised distance')
    return 'zero' if d == 0 else 'tiny' if d < 0.1 else 'near' if d < 5 else 'far'


@contract('C28', 'soccer_math', 'unquantize_min', 'unquantize_max')
def _(e):
    v, q = argsof(e, ('dist', 'qstep'))
    if q <= 0 or abs(v / q) > 1e12 or tie_near(v, q):
        return None
    s = F(-1, 2) if e.name.endswith('min') else F(1, 2)
    n = rnd(F(v) / F(q))
    w = (n + s) * F(q)
    close(e.ret, w, F(8 * EPS) * abs(w), 'bound')
    return f'{sgn(v)}'


@contract('C28', 'soccer_math', 'unquantize_error')
def _(e):
    d, q = argsof(e, ('see_dist', 'qstep'))
    if d < 0.1 - 1e-9 or d > 1e4 or q <= 1e-3 or q > 2:
        return None
    if tie_near(d, 0.1):
        return None
    n = rnd(F(d) / F(0.1))

    def side(s):
        l = math.log(float((n + s) * F(0.1)))
        x = l / q
        if abs(abs(x) % 1 - 0.5) < 1e-7:
            return None
        return math.exp(float((rnd(F(x)) + s) * F(q))) - SEPS
    lo, hi = side(F(-1, 2)), side(F(1, 2))
    if lo is None or hi is None:
        return None
    close(e.ret, abs(hi - lo), 1e-9 * (1 + abs(hi)), 'error width')
    return 'near' if d < 1 else 'mid' if d < 20 else 'far'


@contract('C28', 'soccer_math', 'bound', 'min_max')
def _(e):
    n = e.name.split('.')[1]
    lo, x, hi = argsof(e, ('num_0', 'num_1', 'num_2') if n == 'bound' else ('low', 'number', 'high'))
    if lo > hi:
        return None
    w = lo if x < lo else hi if x > hi else x
    need(e.ret == w, lambda: f'expected {w!r}')
    return ('below' if x < lo else 'above' if x > hi else 'limit' if x in (lo, hi) else 'between') + (' empty' if lo == hi else '')


@contract('C28', 'soccer_math', 'f_range')
def _(e):
    a, b, s = argsof(e, ('start', 'stop', 'step'), (None, None))
    k = f'{sum(v is not None for v in (a, b, s))} args'
    if b is None:
        a, b = 0, a
    if s is None:
        s = 1
    if s == 0:
        return None
    a0, b0, s0 = F(a), F(b), F(s)
    cnt = (b0 - a0) / s0
    if cnt > 4000:
        return None
    want = max(0, math.ceil(cnt))
    ex = exactish(a, b, s)
    got = e.ret
    m = max(abs(a0), abs(b0), abs(s0))
    drift = F(EPS) * m * (want + 1) * 2
    if not ex and want and abs(cnt - round(cnt)) * abs(s0) <= drift:
        need(abs(len(got) - want) <= 1, lambda: f'{len(got)} values, expected about {want}')
        return None
    need(len(got) == want, lambda: f'{len(got)} values, expected {want}')
    for i, g in enumerate(got):
        close(g, a0 + i * s0, F(0) if ex else drift, f'value {i}')
    return k + (' up' if s > 0 else ' down') + (' empty' if want == 0 else ' one' if want == 1 else '') + (' exact' if ex else '')


def qstep(c):
    return u(c, 0.01, 1, 0.1, 0.01, 0.5, 1, 0.25, 0.05, 2)


def qval(c):
    d = c.d
    if d.chance(.5):
        return d.i(-80, 80) / d.pick((2, 4, 8, 1))
    return d.num()


def far(c):
    """values beyond the pitch, halves among them"""
    v = u(c, 1e3, 1e9)
    v = c.d.pick((v, round(v) + 0.5, round(v), round(v * 8) / 8))
    return -v if c.d.chance(.5) else v


def fr(c):
    d = c.d
    k = d.i(0, 5)
    f = SM.f_range
    if k == 0:
        return f(d.pick((0, 1, 5, -3, 2.5, u(c, 0, 50))))
    if k == 1:
        return f(qval(c) / 4, qval(c) / 4)
    a = qval(c) / 8 if d.chance(.5) else u(c, -20, 20)
    n = d.count(0, 30, 300) - 3
    s = d.pick((1, -1, 0.5, -0.25, 0.1, -0.1, 2, u(c, 0.01, 2), -u(c, 0.01, 2)))
    b = a + n * s + d.pick((0, 0, 0.3, -0.3)) * s
    if abs(a) > 1e5 or abs(b) > 1e5:
        a, b = 0, 3
    if k == 5:
        return f(a, stop=b, step=s)
    return f(a, b, s)


def roundtrip(c):
    """values that quantise to v lie between the inverse bounds of v"""
    q = qstep(c)
    x = qval(c)
    if abs(x / q) > 1e9 or tie_near(x, q):
        return
    v = SM.quantize(x, q)
    lo, hi = SM.unquantize_min(v, q), SM.unquantize_max(v, q)
    t = 1e-9 * (1 + abs(x))
    MON.judge('quantisation bounds enclose', f'{sgn(x)}', lo - t <= x <= hi + t and abs(hi - lo - q) <= t,
              lambda: f'{x} quantises to {v} by {q}, bounds {lo} {hi}', key=(x, q))


C28_OPS = [
    lambda c: SM.r_int(qval(c)), lambda c: SM.r_int(qval(c)),
    lambda c: SM.r_int(c.d.pick((0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0, -0.0, 0.49999999999999994, 0.9999999, -0.9999999, 3, -7, 1e9 + 0.5))),
    lambda c: SM.quantize(qval(c), qstep(c)), lambda c: SM.quantize(qval(c), qstep(c)),
    lambda c: SM.quantize_dist(u(c, 0, 130, 0, 0.1, 1, 0.05, 10), qstep(c)),
    lambda c: SM.quantize_dist(u(c, 0, 130, 0, 0.1, 1, 0.05, 10), 0.1),
    lambda c: SM.quantize_dist(u(c, 0, 9e4), u(c, 0.002, 10)),
    lambda c: SM.unquantize_error(u(c, 0.1, 9e3), u(c, 0.002, 2)),
    lambda c: SM.unquantize_min(qval(c), qstep(c)), lambda c: SM.unquantize_max(qval(c), qstep(c)),
    lambda c: SM.unquantize_error(u(c, 0.1, 120, 0.1, 0.2, 1, 10, 2.7), u(c, 0.01, 0.5, 0.1, 0.01)),
    lambda c: SM.unquantize_error(c.d.i(1, 1200) / 10, c.d.pick((0.1, 0.01))),
    lambda c: SM.bound(qval(c), qval(c), qval(c)), lambda c: SM.min_max(qval(c), qval(c), qval(c)),
    lambda c: (lambda a, b, x: SM.bound(min(a, b), x, max(a, b)))(qval(c), qval(c), qval(c)),
    lambda c: (lambda a, b, x: SM.min_max(min(a, b), c.d.pick((x, a, b)), max(a, b)))(qval(c), qval(c), qval(c)),
    lambda c: SM.r_int(far(c)), lambda c: SM.quantize(far(c), qstep(c)),
    lambda c: c.d.pick((SM.unquantize_min, SM.unquantize_max))(far(c), qstep(c)),
    lambda c: SM.bound(*sorted((far(c), qval(c), far(c)))), lambda c: SM.min_max(-abs(far(c)), far(c), abs(far(c))),
    fr, fr, fr, roundtrip,
]
REQUIRED['C28'] = ['quantisation bounds enclose']
OPS = {'C27': C27_OPS, 'C28': C28_OPS}
