"""C29 C30: value semantics, and freedom from hidden state."""
import gc
import json
import math
import os
import random
import subprocess
import sys
import threading
import time

from ..core import *
from .. import target as T
from .. import api, gen

SHAPES = tuple(T.CLASSES.values())


def eqv(a, b):
    """equality of snapshots, NaN equal to itself"""
    return a == b or repr(a) == repr(b)


def sane(s):
    """may this object be an operand of further geometry"""
    if isinstance(s, V) and not s.ok:
        return False
    for v in s if isinstance(s, tuple) else (s,):
        if isinstance(v, tuple):
            if not sane(v):
                return False
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            if not math.isfinite(v) or abs(v) > 1e6:
                return False
    return True


# ---------------------------------------------------------------- C29

class World:
    """the live objects of a history and what they looked like after the last step"""

    def __init__(self, c):
        self.c = c
        self.objs = []          # (object, kind)
        self.last = {}          # id -> snapshot

    def add(self, o):
        k = api.KIND_OF.get(type(o))
        if k is None or any(o is x for x, _ in self.objs):
            return
        self.objs.append((o, k))
        self.last[id(o)] = snap(o)
        if len(self.objs) > 18:
            x, _ = self.objs.pop(0)
            del self.last[id(x)]

    def live(self, o):
        return any(o is x for x, _ in self.objs)

    def get(self, k):
        c = self.c
        have = [o for o, kk in self.objs if kk == k and sane(self.last[id(o)])]
        if have and c.d.chance(.75):
            return c.d.pick(have)
        c.pool.clear()
        o = api.make(c, k)
        c.pool.clear()
        self.add(o)
        return o

    def check(self, what, allowed, bucket):
        for o, k in self.objs:
            now = snap(o)
            was = self.last[id(o)]
            if not eqv(was, now):
                if not any(o is a for a in allowed):
                    MON.judge('only the receiver changes', bucket, False,
                              lambda: f'{what} changed another live {type(o).__name__} from {was} to {now}')
                self.last[id(o)] = now
        MON.judge('only the receiver changes', bucket, True, '', key=(what, len(self.objs)))


def outcomes(r):
    if isinstance(r, SHAPES):
        return [r]
    if isinstance(r, (list, tuple)):
        return [x for y in r for x in outcomes(y)]
    return []


def describe(n, recv, args):
    def sh(a):
        return repr(snap(a))
    return f'{n}({", ".join([sh(a) for a in ([recv] if recv is not None else []) + list(args)])})'


def world(c):
    w = getattr(c, 'world', None)
    if w is None:
        w = c.world = World(c)
    return w


QUIET = (TypeError, ValueError, ArithmeticError, AttributeError, Exception)


def spoil(c, o):
    """change every number an object holds, through its mutators and by-reference accessors"""
    d = c.d
    if isinstance(o, T.Vector2D):
        o.assign(d.num(-1e3, 1e3), d.num(-1e3, 1e3))
    elif isinstance(o, T.AngleDeg):
        o.set_degree(d.deg(1e6))
    elif isinstance(o, T.Size2D):
        o.assign(d.pos_num(100), d.pos_num(100))
    for n in REFS.get(api.KIND_OF.get(type(o)), ()):
        v = getattr(o, n)()
        for x in v if isinstance(v, list) else (v,):
            spoil(c, x)


def w_query(c):
    """a query, static or constructor on live objects: nothing may change, the result is new"""
    w = world(c)
    kind, own, name, sig = c.d.pick(api.TABLE)
    recv = w.get(own) if kind == 'method' else None
    args = [api.arg(c, k, w.get) for k in sig]
    what = describe(f'{own}.{name}' if name else f'new {own}', recv, args)
    bucket = f'{kind} {own}.{name} {sig}'
    if kind == 'method':
        f = getattr(recv, name)
    elif kind == 'static':
        f = getattr(api.owner(own), name)
    else:
        f = api.KIND[own]
    try:
        r = f(*args)
        if hasattr(r, '__next__'):
            r = [x for x, _ in zip(r, range(200))]
    except QUIET:
        w.check(what + ' (raised)', [], 'raised ' + bucket)
        return
    w.check(what, [], bucket)
    if own == 'T' and name == 'intersection':      # [count, point, point]: only the counted ones are results
        r = list(r)[:1 + r[0]]
    new = outcomes(r)
    for o in new:
        MON.judge('results are new objects', bucket, not w.live(o),
                  lambda: f'{what} returned an object that was already there: {snap(o)}', key=what)
    for i, o in enumerate(new):
        MON.judge('results are new objects', bucket, not any(o is p for p in new[:i]),
                  lambda: f'{what} returned the same object twice: {snap(o)}', key=what)
    for a in args:                 # a list handed in belongs to the caller
        if isinstance(a, list):
            a.clear()
    if new and c.d.chance(.4):     # so does every object handed out
        for o in new:
            spoil(c, o)
        w.check(what + ' then editing its results', [o for o in new if w.live(o)], 'edited ' + bucket)
    for o in new:
        w.add(o)
    if isinstance(r, list):        # a list handed out belongs to the caller
        r[:] = [T.Segment2D(1, 2, 3, 4) if r and isinstance(r[0], T.Segment2D) else T.Vector2D(1, 2)]
    w.check(what + ' then emptying lists passed in and out', [], 'lists ' + bucket)


def w_mutate(c):
    """a documented mutator: only the receiver may change"""
    w = world(c)
    if not w.objs:
        w.get(c.d.pick('AVSCTZQKMP'))
    have = [(o, k) for o, k in w.objs if k in api.MUT]
    if not have:
        return
    o, k = c.d.pick(have)
    # operands of the mutator come from the world too
    c.pool = {kk: [x for x, xk in w.objs if xk == kk and sane(w.last[id(x)])] for kk in 'AVSLRCTQZKMP'}
    n = c.d.i(0, len(api.MUT[k]) - 1)
    before = w.last[id(o)]
    try:
        api.MUT[k][n](c, o)
    except QUIET:
        pass
    for kk in c.pool:
        for x in c.pool[kk]:
            w.add(x)
    c.pool = {}
    w.check(f'mutator {n} of {k} on {before}', [o], f'mutator {k}{n}')
    tame(o, w)


def tame(o, w):
    if not sane(w.last.get(id(o), ())) and isinstance(o, T.Vector2D):
        o.assign(1.5, -2.5)
        w.check('assign', [o], 'mutator tame')


def w_flag(c):
    w = world(c)
    o = w.get('V')
    was = w.last.get(id(o), snap(o))
    (o.invalidate if c.d.chance(.7) else o.validate)()
    w.check(f'(in)validate {was}', [o], 'mutator flag')


def w_out(c):
    """the two documented output parameters"""
    w = world(c)
    if c.d.chance(.5):
        m, v = w.get('M'), w.get('V')
        was = snap(v)
        r = m.transform_vec(v)
        w.check(f'transform_vec({snap(m)}, {was})', [v], 'output transform_vec')
        MON.judge('results are new objects', 'transform_vec returns its argument', r is v, 'another vector came back', key=was)
        tame(v, w)
    else:
        v = w.get('V')
        was = snap(v)
        r = T.soccer_math.wind_effect(1.5, 2.0, 3.0, c.d.deg(1e6), 4.0, 0.5, v)
        w.check(f'wind_effect(..., {was})', [v], 'output wind_effect')
        for x in outcomes(r):
            MON.judge('results are new objects', 'wind_effect', not w.live(x), 'the effect is the error vector', key=was)
            w.add(x)


REFS = {'S': ['origin_', 'terminal_'], 'C': ['center_'], 'T': ['a_', 'b_', 'c_'], 'Q': ['top_left_', 'size_'],
        'K': ['center_', 'angle_left_start_', 'angle_right_end_'], 'R': ['origin_', 'dir_'], 'P': ['vertices_']}


def w_ref(c):
    """a change through a by-reference accessor reaches its owner only"""
    w = world(c)
    k = c.d.pick('SCTQKRP')
    o = w.get(k)
    n = c.d.pick(REFS[k])
    was = snap(o)
    v = getattr(o, n)()
    if isinstance(v, list):
        if not v:
            return
        v = c.d.pick(v)
    if isinstance(v, T.Vector2D):
        new = (c.d.num(), c.d.num())
        v.assign(*new)
    elif isinstance(v, T.Size2D):
        v.assign(c.d.pos_num(100), c.d.pos_num(100))
    else:
        v.set_degree(c.d.deg(1e6))
    w.check(f'editing {type(o).__name__}.{n} of {was}', [o], f'reference {k}.{n}')


def w_hull(c):
    """hulls: computing changes neither points nor the caller's lists; the polygon is independent"""
    w = world(c)
    n = c.d.count(3, 8)
    pts = [w.get('V') for _ in range(n)]
    given = list(pts)
    h = T.ConvexHull(given)
    m = c.d.pick((T.MethodType.WRAPPING_METHOD, T.MethodType.GRAHAN_SCAN))
    try:
        h.compute(m)
    except QUIET:
        w.check('hull compute (raised)', [], 'hull raised')
        return
    w.check(f'ConvexHull.compute({m.name}) of {[snap(p) for p in pts]}', [], 'hull compute')
    MON.judge('hull lists', 'caller list kept', len(given) == n and all(a is b for a, b in zip(given, pts)),
              'computing changed the list of points it was given', key=n)
    before = snap(h)
    for g in (h.vertices, h.edges, h.input_points):
        r = g()
        r.clear()
        r.append(T.Segment2D(1, 2, 3, 4) if g == h.edges else T.Vector2D(1, 2))
    given.clear()
    MON.judge('hull lists', 'returned lists are copies', eqv(snap(h), before),
              lambda: f'emptying returned or given lists changed the hull {before} to {snap(h)}', key=before)
    if before.vertices:
        po = h.to_polygon()
        w.check('ConvexHull.to_polygon', [], 'hull polygon')
        for v in po.vertices_():
            v.assign(1e3, -1e3)
        po.add_vertex(T.Vector2D(5, 5))
        w.check('editing the polygon of a hull', [], 'hull polygon edited')
        MON.judge('hull lists', 'polygon is independent', eqv(snap(h), before),
                  lambda: f'editing the hull polygon changed the hull {before} to {snap(h)}', key=before)
        eb = [snap(s) for s in h.edges()]
        for p in pts:
            pass
        w.add(po)
        for s in h.edges():
            s.origin_().assign(7.5, 7.5)
        w.check('editing the edges of a hull', [], 'hull edges edited')


def w_hull_life(c):
    """the lists a hull hands out stay as they were while it gathers points, computes and is cleared, and editing them leaves it alone"""
    w = world(c)
    d = c.d
    given = [w.get('V') for _ in range(d.i(0, 4))]
    src = list(given)
    h = T.ConvexHull(src)
    held = []
    trail = f'{len(given)} points'
    for _ in range(d.i(2, 6)):
        for n in ('input_points', 'vertices', 'edges'):
            r = getattr(h, n)()
            held.append((n, trail, r, list(r)))
        was = snap(h)
        if d.chance(.3):
            for n in ('input_points', 'vertices', 'edges'):
                r = getattr(h, n)()
                r.append(T.Segment2D(1, 2, 3, 4) if n == 'edges' else T.Vector2D(1, 2))
                r.reverse()
            src.append(T.Vector2D(3, 4))
            src.reverse()
            MON.judge('hull lists', 'edited at every stage', eqv(snap(h), was),
                      lambda: f'editing the lists given and returned changed a hull after {trail} from {was} to {snap(h)}', key=was)
            if not eqv(snap(h), was):
                return
        k = d.i(0, 9)
        if k < 3:
            h.add_point(w.get('V'))
            trail += ', add_point'
        elif k < 5:
            more = [w.get('V') for _ in range(d.i(0, 3))]
            src = more
            h.add_points(more)
            trail += f', add_points of {len(more)}'
        elif k < 8:
            m = d.pick((T.MethodType.WRAPPING_METHOD, T.MethodType.GRAHAN_SCAN))
            trail += f', compute {m.name}'
            try:
                h.compute(m)
            except QUIET:
                return
        elif k == 8:
            h.clear_results()
            trail += ', clear_results'
        else:
            h.clear()
            trail += ', clear'
        for n, t, r, copy in held:
            MON.judge('hull lists', 'held across later calls', len(r) == len(copy) and all(a is b for a, b in zip(r, copy)),
                      lambda: f'the {n} list taken after {t} had {len(copy)} elements and has {len(r)} others after {trail}',
                      key=(n, len(copy), trail))
    w.check(f'a hull through {trail}', [], 'hull life')


def w_poly(c):
    """polygons of any number of vertices: what they are built from and what they hand out is independent of them"""
    w = world(c)
    d = c.d
    given = [T.Vector2D(*d.xy()) for _ in range(d.count(3, 9))]
    k = d.i(0, 3)
    if k == 0:
        po = T.Polygon2D(given)
    elif k == 1:
        po = T.Polygon2D(*given)
    else:
        po = T.Polygon2D()
        if k == 2:
            po.assign(given)
        else:
            for v in given:
                po.add_vertex(v)
    was = snap(po)

    def same(bucket):
        MON.judge('polygon vertices', bucket, eqv(snap(po), was),
                  lambda: f'{bucket}: a polygon of {len(was.pts)} vertices changed from {was} to {snap(po)}', key=(bucket, was))
    for v in given:
        spoil(c, v)
    given.clear()
    same('editing the points it was built from')
    got = po.vertices()
    for v in got:
        spoil(c, v)
    got.clear()
    same('editing the vertices it returned')
    other = T.Polygon2D(po.vertices_()) if d.chance(.5) else T.Polygon2D()
    if not other.vertices_():
        other.assign(po.vertices_())
    for v in other.vertices_():
        spoil(c, v)
    other.add_vertex(T.Vector2D(1, 2))
    same('editing a polygon built from its vertices')
    box = po.get_bounding_box()
    spoil(c, box)
    spoil(c, po.bounding_box_center())
    q = w.get('Q')
    spoil(c, po.get_rectangle_clipped_polygon(q))
    same('editing its bounding box and the polygon clipped from it')
    w.check(f'editing around a polygon {was}', [], 'polygon')


C29_OPS = [w_query] * 12 + [w_mutate] * 6 + [w_ref] * 3 + [w_flag, w_out, w_hull, w_hull_life, w_poly]
REQUIRED['C29'] = ['only the receiver changes', 'results are new objects', 'hull lists', 'polygon vertices']


# ---------------------------------------------------------------- C30

def norm(x):
    """comparable form of a result: numbers by value"""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return 'nan' if x != x else float(x) + 0.0 if abs(x) < 1e300 else repr(x)
    if isinstance(x, tuple):
        return [type(x).__name__] + [norm(v) for v in x]
    return repr(x)


def outcome(f, *args):
    try:
        r = f(*args)
        if hasattr(r, '__next__'):
            r = [x for x, _ in zip(r, range(200))]
        return norm(snap(r))
    except Exception as ex:
        return ['raised', type(ex).__name__]


def t_hull(c):
    pts = [T.Vector2D(*c.d.xy()) for _ in range(c.d.i(3, 10))]
    h = T.ConvexHull(pts)
    h.compute(c.d.pick((T.MethodType.WRAPPING_METHOD, T.MethodType.GRAHAN_SCAN)))
    return [h.vertices(), h.edges(), h.to_polygon()]


def t_edit(k):
    def f(c):
        o = api.make(c, k)
        for _ in range(c.d.i(1, 3)):
            c.d.pick(api.MUT[k])(c, o)
        return o
    return f


CALLS = [e for e in api.TABLE if e[2] not in ('__repr__', '__hash__')] + \
    [('free', 'hull', t_hull, '')] * 6 + [('free', 'edit ' + k, t_edit(k), '') for k in api.MUT]


class Tweaked(gen.Draw):
    """draws of a seed with one of the numbers changed a little"""

    def __init__(self, rng, at, kind):
        super().__init__(rng)
        self.at, self.kind, self.n = at, kind, 0

    def val(self, g, lo=-gen.LIM, hi=gen.LIM):
        v = super().val(g, lo, hi)
        self.n += 1
        if self.n == self.at and isinstance(self.kind, float):
            v = min(max(v + self.kind, lo), hi)
            self.vals[-1] = v
        elif self.n == self.at:
            v = (v, -v, v + 1, v + 1e-7, v + 1e-4, v * 2, v + 0.001, 0.5 - v,
                 v + 0.004, v - 0.004, v + 0.04, v + 0.4, v * 1.0005, v + 1e-9)[self.kind]
            v = min(max(v, lo), hi)
            self.vals[-1] = v
        return v


def prepare(spec):
    """builds the operands of a call; the returned function makes it"""
    op, seed, at, kind = spec
    c = gen.Ctx(Tweaked(random.Random(seed), at, kind))
    how, own, name, sig = CALLS[op]
    if how == 'free':
        return lambda: outcome(name, c)
    try:
        recv = api.make(c, own) if how == 'method' else None
        args = [api.arg(c, k, lambda k: api.make(c, k)) for k in sig]
    except Exception as ex:
        bad = ['operands', type(ex).__name__]
        return lambda: bad
    f = getattr(recv, name) if how == 'method' else getattr(api.owner(own), name) if how == 'static' else api.KIND[own]
    return lambda: [outcome(f, *args), norm(snap([recv] + args))]


def run_call(spec):
    return prepare(spec)()


def call_name(spec):
    how, own, name, sig = CALLS[spec[0]]
    return f'{own}.{name if isinstance(name, str) else ""}({sig})'


def operands(spec):
    """for messages"""
    c = gen.Ctx(Tweaked(random.Random(spec[1]), spec[2], spec[3]))
    how, own, name, sig = CALLS[spec[0]]
    try:
        if how == 'free':
            name(c)
            return f'{own} drawn {c.d.vals}'
        recv = api.make(c, own) if how == 'method' else None
        return describe(call_name(spec), recv, [api.arg(c, k, lambda k: api.make(c, k)) for k in sig])
    except Exception as ex:
        return f'{call_name(spec)} {ex}'


def draws(spec):
    """how many numbers the operands of a call take"""
    c = gen.Ctx(Tweaked(random.Random(spec[1]), 0, 0))
    how, own, name, sig = CALLS[spec[0]]
    try:
        if how == 'free':
            name(c)
        else:
            if how == 'method':
                api.make(c, own)
            for k in sig:
                api.arg(c, k, lambda k: api.make(c, k))
    except Exception:
        pass
    return max(c.d.n, 1)


def fresh(specs, step=1):
    """every call (or every few, in order) in a process of its own, forked from one in which nothing ran yet"""
    out = []
    for i in range(0, len(specs), step):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                data = json.dumps([run_call(s) for s in specs[i:i + step]]).encode()
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        out += json.loads(data)
    return out


def jn(x):
    return json.loads(json.dumps(x))


class Baton:
    """runs threads one at a time, handing over at seeded points between lines of the library"""
    TOOL = 4

    def __init__(self, n, rng, p, fine=False):
        self.fine = fine
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.who = {}
        self.rng, self.p = rng, p
        self.switches = []

    def line(self, code, line):
        if not code.co_filename.startswith(T.PKG):
            return sys.monitoring.DISABLE
        me = self.who.get(threading.get_ident())
        if me is None or len(self.alive) < 2 or self.rng.random() >= self.p:
            return None
        other = self.rng.choice([i for i in self.alive if i != me])
        if len(self.switches) < 200000:
            self.switches.append((me, line))
        self.sem[other].release()
        self.sem[me].acquire()
        return None

    def done(self, me):
        self.alive.discard(me)
        if self.alive:
            self.sem[self.rng.choice(sorted(self.alive))].release()

    def run(self, jobs):
        res = [None] * len(jobs)

        def body(i):
            self.who[threading.get_ident()] = i
            self.sem[i].acquire()
            try:
                res[i] = [jn(s() if callable(s) else run_call(s)) for s in jobs[i]]
            finally:
                self.done(i)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'baton')
        ev = m.events.INSTRUCTION if self.fine else m.events.LINE
        m.register_callback(self.TOOL, ev, self.line)
        m.set_events(self.TOOL, ev)
        try:
            for t in ts:
                t.start()
            self.sem[0].release()
            for t in ts:
                t.join(60)
        finally:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, ev, None)
            m.free_tool_id(self.TOOL)
        return res


# ---- state that calls could share: watched, never judged by itself

PRIM = (int, float, complex, str, bytes, bool, type(None))


def state_print(limit=4000):
    """fingerprint of everything reachable from the modules of the library: globals, class attributes, defaults,
    closures, attributes and caches of functions"""
    out = []
    seen = set()
    lib = tuple(n for n in sys.modules if n == 'pyrusgeom' or n.startswith('pyrusgeom.'))

    def walk(x, depth):
        if len(out) > limit:
            return
        if isinstance(x, PRIM):
            out.append(x if x == x else 'nan')
            return
        i = id(x)
        out.append(i)
        if i in seen or depth > 6:
            return
        seen.add(i)
        if isinstance(x, type):
            if x.__module__.split('.')[0] == 'pyrusgeom':
                for k, v in list(vars(x).items()):
                    if k not in ('__dict__', '__weakref__', '__doc__', '__module__'):
                        out.append(k)
                        walk(v, depth + 1)
            return
        if isinstance(x, (staticmethod, classmethod)):
            walk(x.__func__, depth)
            return
        if isinstance(x, property):
            walk(x.fget, depth)
            return
        if hasattr(x, 'cache_info') and hasattr(x, '__wrapped__'):
            try:
                out.append(tuple(x.cache_info()))
            except Exception:
                pass
            return
        if hasattr(x, '__code__') and hasattr(x, '__defaults__'):
            if (getattr(x, '__module__', '') or '').split('.')[0] != 'pyrusgeom':
                return
            walk(x.__defaults__, depth + 1)
            walk(x.__kwdefaults__, depth + 1)
            if x.__dict__:
                walk(x.__dict__, depth + 1)
            for c in x.__closure__ or ():
                try:
                    walk(c.cell_contents, depth + 1)
                except ValueError:
                    out.append('empty')
            return
        if isinstance(x, dict):
            for k, v in list(x.items()):
                walk(k, depth + 1)
                walk(v, depth + 1)
            return
        if isinstance(x, (list, tuple, set, frozenset)) or type(x).__name__ in ('deque', 'OrderedDict', 'defaultdict'):
            for v in list(x):
                walk(v, depth + 1)
            return
        if type(x).__module__.split('.')[0] == 'pyrusgeom':
            walk(getattr(x, '__dict__', None), depth + 1)
            for n in getattr(type(x), '__slots__', ()):
                walk(getattr(x, n, None), depth + 1)
    for n in lib:
        m = sys.modules.get(n)
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            out.append(k)
            walk(v, 0)
    out.append(hash(random.getstate()))
    return hash(tuple(out))


def touches(spec):
    """does the call change shared state, even for a while (looked at between the lines of the library)"""
    f = prepare(spec)
    state = dict(base=state_print(), hit=False, n=0)

    def line(code, ln):
        if not code.co_filename.startswith(T.PKG):
            return sys.monitoring.DISABLE
        if state['hit'] or state['n'] > 60:
            return None
        state['n'] += 1
        if state_print() != state['base']:
            state['hit'] = True
        return None
    m = sys.monitoring
    m.use_tool_id(Baton.TOOL, 'shared')
    m.register_callback(Baton.TOOL, m.events.LINE, line)
    m.set_events(Baton.TOOL, m.events.LINE)
    try:
        f()
    finally:
        m.set_events(Baton.TOOL, 0)
        m.register_callback(Baton.TOOL, m.events.LINE, None)
        m.free_tool_id(Baton.TOOL)
    return state['hit'] or state_print() != state['base']


class Zygote:
    """a process forked before anything ran, which answers every call in a fresh child of its own"""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                with os.fdopen(r1) as i, os.fdopen(w2, 'w') as o:
                    for ln in i:
                        o.write(json.dumps(fresh(*json.loads(ln))) + '\n')
                        o.flush()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = os.fdopen(w1, 'w'), os.fdopen(r2)

    def ask(self, specs, step=1):
        self.w.write(json.dumps([specs, step]) + '\n')
        self.w.flush()
        return json.loads(self.r.readline())

    def close(self):
        self.w.close()
        self.r.close()
        os.waitpid(self.pid, 0)


def directed(worker, nworkers, seed, tier, deadline, out, info, zyg, rng):
    """every operation against itself: histories of nearly equal operands and interleavings inside the call;
    operations seen to touch shared state get many more of both"""
    def bad(label, spec, want, got):
        out['violations'].append(dict(kind='custom', label=label, spec=spec, message=(
            f'{label}: {operands(spec)} gave {want} in a fresh process and {got} here')))
        return False

    def variants(op, tag, k):
        r = []
        for j in range(k):
            b = f'{seed}:{worker}:dir:{op}:{tag}:{j}'
            r.append((op, b, 0, 0))
            n = draws(r[-1])
            for _ in range(2):
                r.append((op, b, rng.randint(1, n), rng.randrange(14)))
        return r

    def ans(r):
        return r[0] if isinstance(r, list) and len(r) == 2 and isinstance(r[1], list) else r

    def squeeze(op, tag, k):
        """two operands with different answers, brought closer and closer, asked one after the other in a new process"""
        for j in range(k):
            b = f'{seed}:{worker}:sq:{op}:{tag}:{j}'
            at = rng.randint(1, draws((op, b, 0, 0)))
            lo, hi = 0.0, rng.choice((1, -1)) * rng.choice((1.0, 0.3, 10.0))
            a, c = (op, b, at, lo), (op, b, at, hi)
            fa, fc = zyg.ask([a, c])
            for _ in range(26):
                if ans(fa) == ans(fc):
                    break
                for x, y, fx, fy in ((a, c, fa, fc), (c, a, fc, fa)):
                    gx, gy = zyg.ask([x, y], 2)
                    if gx != fx or gy != fy:
                        return bad('squeezed operands', y, fy, f'(after {operands(x)}) {gy}')
                    MON.judge('squeezed operands', call_name(x), True, '', key=(x, y))
                m = (op, b, at, (a[3] + c[3]) / 2)
                fm = zyg.ask([m])[0]
                if ans(fm) == ans(fa):
                    a, fa = m, fm
                else:
                    c, fc = m, fm
        return True

    def history(specs, base, label='near operands'):
        order = list(range(len(specs)))
        for rev in (False, True):
            for i in order[::-1] if rev else order:
                g = jn(run_call(specs[i]))
                if g != base[i]:
                    return bad(label, specs[i], base[i], g)
                MON.judge(label, call_name(specs[i]), True, '', key=(label, specs[i], rev))
        return True

    def weave(specs, base, rounds, label='interleaved within calls'):
        for r in range(rounds):
            k = rng.choice((2, 2, 3))
            pick = [rng.sample(range(len(specs)), min(3, len(specs))) for _ in range(k)]
            jobs = [[prepare(specs[i]) for i in p] for p in pick]
            b = Baton(k, random.Random(f'{seed}:{worker}:w:{r}:{specs[0]}'), rng.choice((0.1, 0.3, 0.6)), fine=rng.random() < .3)
            res = b.run(jobs)
            info['interleavings'] += 1
            info['switches'] += len(b.switches)
            info['seen'].add(hash(tuple(b.switches)))
            for p, g in zip(pick, res):
                if g is None:
                    return bad(label, specs[p[0]], 'an answer', 'a thread that did not finish')
                for i, x in zip(p, g):
                    if x != base[i]:
                        return bad(label, specs[i], base[i], x)
                    MON.judge(label, call_name(specs[i]), True, '', key=(label, specs[i], r))
        return True
    mine = [op for op in range(len(CALLS)) if op % nworkers == worker]
    hot = []
    k, rounds = (2, 3) if tier == 'quick' else (6, 20)
    for op in mine:
        specs = variants(op, 'a', k)
        if any([touches(s) for s in specs[:2]]):
            hot.append(op)
        base = zyg.ask(specs)
        if not history(specs, base) or not weave(specs, base, rounds):
            return False
        if time.time() > deadline:
            break
    info['shared_state'] = sorted({call_name((op,)) for op in hot})
    rng.shuffle(hot)
    end = min(deadline, time.time() + (25 if tier == 'quick' else 300))
    for lap in range(3 if tier == 'quick' else 20):
        pool = []
        for op in hot:
            if time.time() > end:
                break
            specs = variants(op, f'h{lap}', 40)
            base = zyg.ask(specs)
            pool += list(zip(specs, base))[:20]
            if not history(specs, base, 'near operands (shared state)') or not squeeze(op, lap, 6):
                return False
            if not weave(specs, base, 30, 'interleaved within calls (shared state)'):
                return False
        rng.shuffle(pool)
        if pool and not history([a for a, _ in pool], [b for _, b in pool], 'mixed operations (shared state)'):
            return False
        if time.time() > end:
            break
    return True


def free_threads(jobs):
    """threads at the mercy of the interpreter's own switching, made frantic"""
    res = [None] * len(jobs)

    def body(i):
        res[i] = [jn(run_call(s)) for s in jobs[i]]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    return res


def noise(rng):
    """calls that fail, and objects thrown away"""
    k = rng.randrange(8)
    try:
        if k == 0:
            T.Vector2D('a', None)
        elif k == 1:
            T.Segment2D(1, 2, 3, 4, 5)
        elif k == 2:
            T.Rect2D(1)
        elif k == 3:
            T.Line2D(T.Vector2D(1, 1), T.Vector2D(1, 1)).get_x(0)
        elif k == 4:
            T.Vector2D(1, 2) / 0
        elif k == 5:
            h = T.ConvexHull([T.Vector2D(rng.random(), rng.random()) for _ in range(5)] + [None])
            h.compute(T.MethodType.GRAHAN_SCAN)
        elif k == 6:
            T.Polygon2D([T.Vector2D(0, 0), T.Vector2D(1, 0), T.Vector2D(0, 1)]).contains(None)
        else:
            T.Circle2D(T.Vector2D(0, 0), 1).intersection('x')
    except Exception:
        pass
    if rng.random() < .01:
        gc.collect()


def c30_custom(worker, nworkers, seed, tier, deadline, out, cov):
    info = dict(calls=0, interleavings=0, switches=0, processes=0, seen=set())
    zyg = Zygote()
    try:
        c30_orders(worker, seed, tier, deadline, out, info)
        if not out['violations']:
            directed(worker, nworkers, seed, tier, deadline, out, info, zyg, random.Random(f'{seed}:C30d:{worker}'))
    finally:
        zyg.close()
    info['distinct_interleavings'] = len(info.pop('seen'))
    return info


def c30_orders(worker, seed, tier, deadline, out, info):
    rng = random.Random(f'{seed}:C30:{worker}')
    groups = 1 if tier == 'quick' else 6
    specs = []
    for g in range(groups):
        for op in range(len(CALLS)):
            if tier == 'quick' and (op + worker) % 2:
                continue
            s = f'{seed}:{worker}:{g}:{op}:{rng.random()}'
            specs.append((op, s, 0, 0))
            for _ in range(rng.choice((1, 2, 3))):
                specs.append((op, s, rng.randrange(1, 9), rng.randrange(8)))
            specs.append((op, s + 'x', 0, 0))
    base = fresh(specs)

    def compare(label, order, got):
        for i, g in zip(order, got):
            s = specs[i]
            if g != base[i]:
                out['violations'].append(dict(kind='custom', label=label, spec=s, message=(
                    f'{label}: {operands(s)} gave {base[i]} in a fresh process and {g} here')))
                return False
            MON.judge(label, call_name(s), True, '', key=(label, s))
        return True

    def plain(order, rep=1, noisy=False):
        r = []
        for i in order:
            for _ in range(rep):
                if noisy:
                    noise(rng)
                g = jn(run_call(specs[i]))
            r.append(g)
        return r
    n = len(specs)
    fwd = list(range(n))
    info['calls'] = n
    with open(os.devnull, 'w') as dn:
        for label, order, kw in (('in sequence', fwd, {}), ('repeated', fwd, dict(rep=3)),
                                 ('reversed', fwd[::-1], {}), ('after failures', rng.sample(fwd, n), dict(noisy=True)),
                                 ('shuffled', rng.sample(fwd, n), {})):
            if not compare(label, order, plain(order, **kw)):
                return
        # controlled interleavings: neighbours in the list exercise the same operation
        for r in range(14 if tier == 'quick' else 150):
            if time.time() > deadline:
                break
            k = rng.choice((2, 2, 3))
            start = rng.randrange(n)
            idx = [(start + j) % n for j in range(k * rng.choice((4, 8, 12)))]
            jobs = [idx[j::k] for j in range(k)]
            b = Baton(k, random.Random(f'{seed}:{worker}:{r}'), rng.choice((0.02, 0.1, 0.3, 0.6)))
            res = b.run([[specs[i] for i in j] for j in jobs])
            info['interleavings'] += 1
            info['switches'] += len(b.switches)
            info['seen'].add(hash(tuple(b.switches)))
            for j, g in zip(jobs, res):
                if g is None:
                    out['violations'].append(dict(kind='custom', label='interleaved', message='a thread did not finish: ' +
                                                  str([operands(specs[i]) for i in j])[:800]))
                    return
                if not compare('interleaved', j, g):
                    return
        for r in range(2 if tier == 'quick' else 12):
            if time.time() > deadline:
                break
            jobs = [rng.sample(fwd, min(n, 150)) for _ in range(4)]
            res = free_threads([[specs[i] for i in j] for j in jobs])
            for j, g in zip(jobs, res):
                if g is None or not compare('free threads', j, g):
                    return
        for r in range(1 if tier == 'quick' else 6):
            if time.time() > deadline:
                break
            order = rng.sample(fwd, n)
            env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 4000000)))
            p = subprocess.run([sys.executable, '-c', CHILD, os.path.dirname(os.path.dirname(os.path.dirname(
                os.path.abspath(__file__))))], input=json.dumps([specs[i] for i in order]).encode(),
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=120)
            info['processes'] += 1
            if not compare('another process', order, json.loads(p.stdout)):
                return
    return


CHILD = """
import sys, json
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
out, sys.stdout = sys.stdout, sys.stderr
from mon.props import semantics as s
json.dump([s.run_call(x) for x in json.load(sys.stdin)], out)
"""


def rebuild(s):
    """a fresh object with the same observable state"""
    if isinstance(s, A):
        return T.AngleDeg(s.deg)
    if isinstance(s, V):
        v = T.Vector2D(s.x, s.y)
        if not s.ok:
            v.invalidate()
        return v
    if isinstance(s, L):
        return T.Line2D(*s)
    if isinstance(s, S):
        return T.Segment2D(*s)
    if isinstance(s, R):
        return T.Ray2D(T.Vector2D(s.x, s.y), T.AngleDeg(s.deg))
    if isinstance(s, C):
        return T.Circle2D(T.Vector2D(s.x, s.y), s.r)
    if isinstance(s, TR):
        return T.Triangle2D(T.Vector2D(s.ax, s.ay), T.Vector2D(s.bx, s.by), T.Vector2D(s.cx, s.cy))
    if isinstance(s, Q):
        return T.Rect2D(*s)
    if isinstance(s, Z):
        return T.Size2D(*s)
    if isinstance(s, K):
        return T.Sector2D(T.Vector2D(s.x, s.y), s.rmin, s.rmax, T.AngleDeg(s.start), T.AngleDeg(s.end))
    if isinstance(s, M):
        return T.Matrix2D(*s)
    if isinstance(s, P):
        return T.Polygon2D([T.Vector2D(*p) for p in s.pts])
    if isinstance(s, H):
        return T.ConvexHull([T.Vector2D(*p) for p in s.inputs])
    return s


METHODS = [e for e in CALLS if e[0] == 'method' and e[2] != '__floordiv__']
BY_KIND = {k: [e for e in METHODS if e[1] == k] for k in api.QUERIES}


def age(c, o, k):
    """edit a live object by any documented route"""
    d = c.d
    if k in REFS and d.chance(.35):
        v = getattr(o, d.pick(REFS[k]))()
        if isinstance(v, list):
            j = d.i(0, 3)
            if j == 0 and v:
                d.pick(v).assign(*d.xy())
            elif j == 1:
                v.append(T.Vector2D(*d.xy()))
            elif j == 2 and len(v) > 1:
                v.reverse()
            elif v:
                v[d.i(0, len(v) - 1)] = T.Vector2D(*d.xy())
        elif isinstance(v, T.Vector2D):
            d.pick(api.MUT['V'])(c, v)
            api.small(v)
        elif isinstance(v, T.Size2D):
            d.pick(api.MUT['Z'])(c, v)
        else:
            d.pick(api.MUT['A'])(c, v)
        return 'reference'
    if k in api.MUT:
        d.pick(api.MUT[k])(c, o)
        if k == 'V':
            api.small(o)
        return 'mutator'
    return 'plain'


def h_history(c):
    """after any edits, a query answers as on a fresh object with the same values"""
    d = c.d
    k = d.pick('AVLSRCTQZKMPSTQPCKM')
    o = api.make(c, k)
    other = {kk: api.make(c, kk) for kk in set(x for e in BY_KIND[k] for x in e[3] if x in api.KIND)}
    route = 'new'
    for _ in range(d.i(1, 4)):
        e = d.pick(BY_KIND[k])           # warm whatever could be remembered
        args = [api.arg(c, x, lambda x: other.get(x) or api.make(c, x)) for x in e[3]]
        outcome(getattr(o, e[2]), *args)
        if d.chance(.85):
            try:
                route = age(c, o, k)
            except Exception:
                return
        if other and d.chance(.4):
            kk = d.pick(sorted(other))
            try:
                age(c, other[kk], kk)
            except Exception:
                return
        s = snap(o)
        if not sane(s) or any(not sane(snap(x)) for x in other.values()):
            return
        e = e if d.chance(.6) else d.pick(BY_KIND[k])
        if d.chance(.5) or e[3] == '':
            args = [api.arg(c, x, lambda x: other.get(x) or api.make(c, x)) for x in e[3]]
        elif len(args) != len(e[3]):
            continue
        if any(isinstance(a, list) for a in args):
            continue
        if e[3] and not all(type(a) in api.KIND_OF or isnum(a) or isbool(a) for a in args):
            continue
        fo, fa = rebuild(s), [rebuild(snap(a)) for a in args]
        if not eqv(snap(fo), s) or any(not eqv(snap(x), snap(a)) for x, a in zip(fa, args)):
            continue
        if not arg_ok(e[3], args):
            continue
        got = outcome(getattr(o, e[2]), *args)
        want = outcome(getattr(fo, e[2]), *fa)
        MON.judge('current values decide', f'{k}.{e[2]} {e[3]} {route}', eqv(got, want),
                  lambda: f'{describe(k + "." + e[2], fo, fa)}: the object with a history answers {got}, a fresh one {want}',
                  key=(k, e[2], s, tuple(snap(a) for a in args)))


def arg_ok(sig, args):
    for x, a in zip(sig, args):
        if x in api.KIND and type(a) is not api.KIND[x]:
            return False
        if x in 'npud' and not isnum(a):
            return False
    return True


def h_hull(c):
    """a hull used before computes like a new one"""
    d = c.d
    h = T.ConvexHull([T.Vector2D(*d.xy()) for _ in range(d.i(0, 6))])
    for _ in range(d.i(1, 4)):
        k = d.i(0, 4)
        if k == 0:
            h.add_point(T.Vector2D(*d.xy()))
        elif k == 1:
            h.add_points([T.Vector2D(*d.xy()) for _ in range(d.i(0, 3))])
        elif k == 2:
            h.clear()
        elif k == 3 and h.input_points_():
            d.pick(h.input_points_()).assign(*d.xy())
        else:
            h.clear_results()
        m = d.pick((T.MethodType.WRAPPING_METHOD, T.MethodType.GRAHAN_SCAN))
        f = rebuild(snap(h))
        got, want = outcome(h.compute, m), outcome(f.compute, m)
        MON.judge('current values decide', f'hull {m.name} {k}', eqv(got, want) and eqv(snap(h), snap(f)),
                  lambda: f'{m.name}: hull with a history {snap(h)}, fresh one {snap(f)}', key=snap(f))


def shapes(a):
    return [x for y in a for x in outcomes(y)]


def h_result(c):
    """a result belongs to the caller: whatever is done to it, the same question has the same answer"""
    d = c.d
    kind, own, name, sig = e = d.pick(CALLS)
    if kind == 'free':
        return
    if d.chance(.3):                     # operands that meet, coincide or line up
        c.pool = {'V': [T.Vector2D(*d.xy())]}
        p = c.pool['V'][0]
        k = d.num(-5, 5)
        c.pool['V'] += [T.Vector2D(p.x() + k, p.y() + k), T.Vector2D(p.x() + 2 * k, p.y() + 2 * k)]
    try:
        recv = api.make(c, own) if kind == 'method' else None
        args = [api.arg(c, k, (lambda k: d.pick(c.pool[k]) if c.pool.get(k) and d.chance(.6) else api.make(c, k))) for k in sig]
    except Exception:
        return
    finally:
        c.pool.clear()
    before = snap([recv] + args)

    def again():
        ops = [rebuild(x) if not isinstance(x, list) else [rebuild(y) for y in x] for x in map(snap, [recv] + args)]
        f = (getattr(ops[0], name) if kind == 'method' else getattr(api.owner(own), name) if kind == 'static'
             else api.KIND[own])
        try:
            r = f(*ops[1:])
            if hasattr(r, '__next__'):
                r = [x for x, _ in zip(r, range(200))]
        except Exception as ex:
            return None, ['raised', type(ex).__name__], ops
        return r, norm(snap(r)), ops
    r, first, ops = again()
    if not eqv(snap(ops), before):
        return
    mine = [id(x) for x in shapes(ops)]
    got = outcomes(r)
    if not got:
        return
    for o in got:
        k = api.KIND_OF.get(type(o))
        if k is None or id(o) in mine:
            continue
        for _ in range(d.i(1, 2)):
            try:
                age(c, o, k)
            except Exception:
                break
    if isinstance(r, list) and d.chance(.5):
        r.reverse()
        r.append(T.Segment2D(1, 2, 3, 4) if r and isinstance(r[0], T.Segment2D) else T.Vector2D(1, 2))
    _, second, _ = again()
    MON.judge('results are the caller\'s own', f'{kind} {own}.{name} {sig}', eqv(first, second),
              lambda: f'{describe(own + "." + name, recv, args)} gave {first}; after that result was edited the same call gives {second}',
              key=(own, name, repr(before)))


REQUIRED['C30'] = ['in sequence', 'repeated', 'reversed', 'after failures', 'shuffled', 'interleaved', 'free threads',
                   'another process', 'near operands', 'interleaved within calls', 'current values decide', 'results are the caller\'s own']
CUSTOM = {'C30': c30_custom}
OPS = {'C29': C29_OPS, 'C30': [h_history] * 6 + [h_result] * 5 + [h_hull]}
MAX_OPS = {'C29': 30}
