"""Monitor engine: snapshots, call hooks (contracts at the API boundary), verdict collection.

A contract is attached, from this harness, to a public method of the real class.  Every call
made by a workload (not the calls the library makes to itself) becomes an Event holding value
snapshots of receiver, arguments and result before and after; the contract is the oracle over
that event.  It returns
    a string  - judged and held; the string names the case class (bucket) it fell in
    None      - not judged (outside the domain, or within a tolerance band)
or raises Violation.
"""
import math
import os
import sys
import types
from collections import Counter, namedtuple
from fractions import Fraction

from . import target as T

F = Fraction

A = namedtuple('A', 'deg')
V = namedtuple('V', 'x y ok')
L = namedtuple('L', 'a b c')
S = namedtuple('S', 'ox oy tx ty')
R = namedtuple('R', 'x y deg')
C = namedtuple('C', 'x y r')
TR = namedtuple('TR', 'ax ay bx by cx cy')
Q = namedtuple('Q', 'left top length width')
Z = namedtuple('Z', 'length width')
K = namedtuple('K', 'x y rmin rmax start end')
M = namedtuple('M', 'm11 m12 m21 m22 dx dy')
P = namedtuple('P', 'pts')
H = namedtuple('H', 'inputs vertices edges')
O = namedtuple('O', 'what')


class Violation(Exception):
    pass


class Hang(BaseException):
    """raised by the CPU watchdog inside an operation that does not come back"""


def _xy(v):
    return (v.x(), v.y())


_SNAP = {
    T.AngleDeg: lambda o: A(o.degree()),
    T.Vector2D: lambda o: V(o.x(), o.y(), o.is_valid()),
    T.Line2D: lambda o: L(o.a(), o.b(), o.c()),
    T.Segment2D: lambda o: S(*_xy(o.origin()), *_xy(o.terminal())),
    T.Ray2D: lambda o: R(*_xy(o.origin()), o.dir().degree()),
    T.Circle2D: lambda o: C(*_xy(o.center()), o.radius()),
    T.Triangle2D: lambda o: TR(*_xy(o.a()), *_xy(o.b()), *_xy(o.c())),
    T.Rect2D: lambda o: Q(o.left(), o.top(), o.size().length(), o.size().width()),
    T.Size2D: lambda o: Z(o.length(), o.width()),
    T.Sector2D: lambda o: K(*_xy(o.center()), o.radius_min(), o.radius_max(),
                            o.angle_left_start().degree(), o.angle_right_end().degree()),
    T.Matrix2D: lambda o: M(o.m11(), o.m12(), o.m21(), o.m22(), o.dxtf(), o.dytf()),
    T.Polygon2D: lambda o: P(tuple(_xy(v) for v in o.vertices())),
    T.ConvexHull: lambda o: H(tuple(_xy(v) for v in o.input_points()),
                              tuple(_xy(v) for v in o.vertices()),
                              tuple(snap(s) for s in o.edges())),
}


def snap(o):
    """value snapshot of an object through its public accessors"""
    f = _SNAP.get(type(o))
    if f is not None:
        return f(o)
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    for k in type(o).__mro__[1:]:
        if k in _SNAP:
            return _SNAP[k](o)
    if isinstance(o, (list, tuple)):
        return tuple(snap(i) for i in o)
    return O(type(o).__name__)


class Event:
    __slots__ = ('name', 'recv', 'args', 'kw', 'ret', 'exc', 'after', 'args_after',
                 'obj', 'raw_args', 'raw_ret')

    def brief(self):
        def sh(v):
            return repr(v)
        s = f'{self.name}('
        if self.recv is not None:
            s += f'self={sh(self.recv)}; '
        s += ', '.join([sh(a) for a in self.args] + [f'{k}={sh(v)}' for k, v in self.kw.items()])
        s += ')'
        if self.exc is not None:
            s += f' raised {type(self.exc).__name__}: {self.exc}'
        else:
            s += f' -> {sh(self.ret)}'
            if self.after is not None and self.after != self.recv:
                s += f', self becomes {sh(self.after)}'
        return s


CONTRACTS = {}      # property -> list of (owner, name, fn)
SCENARIOS = {}      # property -> list of (weight, fn)
REQUIRED = {}       # property -> extra labels that must have been judged


def _findings():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    out = set()
    try:
        for line in open(path, encoding='utf-8'):
            if line.startswith('finding: property='):
                out.add(tuple(line[len('finding: property='):].strip().split(' ', 1)))
    except OSError:
        pass
    return out


FINDINGS = _findings()      # (property, text) recorded as known, never written at run time


def contract(prop, owner, *names):
    def deco(fn):
        for n in names:
            CONTRACTS.setdefault(prop, []).append((owner, n, fn))
        return fn
    return deco


def scenario(prop, weight=1):
    def deco(fn):
        SCENARIOS.setdefault(prop, []).append((weight, fn))
        return fn
    return deco


class Monitor:
    """state of the running monitors"""

    def __init__(self):
        self.prop = None
        self.depth = 0
        self.active = False
        self.stop_on_violation = True
        self.events = Counter()       # label -> calls observed
        self.judged = Counter()       # label -> events decided by the oracle
        self.buckets = Counter()      # (label, bucket) -> n
        self.seen = set()             # hashes of judged distinct events
        self.new_bucket = False
        self.violations = []
        self.calls = []               # (name, receiver, arguments, hook) of this history
        self.known = Counter()
        self.samples = {}
        self.trivial = 0

    def record(self, label, bucket, key, brief=None):
        self.judged[label] += 1
        kb = (label, bucket)
        n = self.buckets[kb]
        self.buckets[kb] = n + 1
        if n == 0:
            self.new_bucket = True
            self.samples[kb] = brief() if brief else None
        if len(self.seen) < 400000:
            self.seen.add(hash((label, key)))

    def violate(self, label, msg):
        self.violations.append((label, msg))
        if self.stop_on_violation:
            raise Violation(f'{label}: {msg}')

    def judge(self, label, bucket, ok, msg, key=None):
        """relational check made by a scenario over several observed calls"""
        self.events[label] += 1
        if not ok:
            m = msg() if callable(msg) else msg
            self.violate(label, m)
            return False
        self.record(label, bucket, key if key is not None else self.events[label],
                    (lambda: str(key)[:300]))
        return True


MON = Monitor()
_GEN = types.GeneratorType
GEN_CAP = 5000


def _wrap(fn, label, contracts, is_method, is_init):
    mon = MON
    short = label.split('.')[1]

    def hook(*args, **kw):
        if mon.depth or not mon.active:
            return fn(*args, **kw)
        mon.depth = 1
        try:
            e = Event()
            e.name = label
            e.raw_args = args[1:] if is_method else args
            e.obj = args[0] if is_method else None
            e.recv = snap(args[0]) if is_method and not is_init else None
            e.args = tuple(snap(a) for a in e.raw_args)
            e.kw = {k: snap(v) for k, v in kw.items()} if kw else {}
            e.exc = None
            e.ret = e.raw_ret = e.after = None
            ret = None
            try:
                ret = fn(*args, **kw)
                if type(ret) is _GEN:
                    out = []
                    for v in ret:
                        out.append(v)
                        if len(out) > GEN_CAP:
                            break
                    ret = out
            except Violation:
                raise
            except Exception as ex:   # the code under test raised
                e.exc = ex
            mon.events[label] += 1
            if e.exc is None:
                if not kw and not is_init and len(mon.calls) < 40:
                    mon.calls.append((short, e.obj, e.raw_args, hook))
                e.raw_ret = ret
                e.ret = snap(ret)
                e.after = snap(args[0]) if is_method else None
                e.args_after = tuple(snap(a) for a in e.raw_args)
            for c in contracts:
                if e.exc is not None:
                    if mon.stop_on_violation:
                        mon.violate(label, e.brief())
                    continue
                try:
                    b = c(e)
                except Violation as v:
                    mon.violations.append((label, f'{v} :: {e.brief()}'))
                    if mon.stop_on_violation:
                        raise Violation(f'{label}: {v} :: {e.brief()}') from None
                    continue
                except (ArithmeticError, TypeError, ValueError, AttributeError, IndexError) as ex:
                    if _ret_is_odd(e):
                        mon.violations.append((label, f'result is not a usable value ({ex!r}) :: {e.brief()}'))
                        if mon.stop_on_violation:
                            raise Violation(f'{label}: unusable result :: {e.brief()}') from None
                        continue
                    raise
                if b is not None:
                    mon.record(label, b, (e.recv, e.args, tuple(e.kw.items())), e.brief)
        finally:
            mon.depth = 0
        if e.exc is not None:
            raise e.exc
        return ret
    hook.__name__ = getattr(fn, '__name__', label)
    return hook


def _bad(v):
    if v is None or isinstance(v, (O, str)):
        return True
    if isinstance(v, float):
        return not math.isfinite(v)
    if isinstance(v, tuple):
        return any(_bad(i) for i in v)
    return False


def _ret_is_odd(e):
    """the oracle choked: is that because the observed values are None/NaN/foreign objects?"""
    return _bad(e.ret) or (e.after is not None and _bad(e.after))


def install(prop):
    """attach the contracts of one property to the real classes"""
    todo = {}
    for owner, name, fn in CONTRACTS.get(prop, []):
        todo.setdefault((owner, name), []).append(fn)
    for (owner, name), fns in todo.items():
        label = f'{owner}.{name}'
        if owner in T.CLASSES:
            cls = T.CLASSES[owner]
            raw = None
            for k in cls.__mro__:
                if name in k.__dict__:
                    raw = k.__dict__[name]
                    break
            if raw is None or raw is object.__dict__.get(name):
                raise SystemExit(f'no {label} in the code under test')
            if isinstance(raw, staticmethod):
                setattr(cls, name, staticmethod(_wrap(raw.__func__, label, fns, False, False)))
            elif isinstance(raw, classmethod):
                setattr(cls, name, staticmethod(_wrap(raw.__get__(None, cls), label, fns, False, False)))
            else:
                setattr(cls, name, _wrap(raw, label, fns, True, name == '__init__'))
        else:
            mod = T.MODULES[owner]
            setattr(mod, name, _wrap(getattr(mod, name), label, fns, False, False))
    # a __hash__ defined next to __eq__ survives setattr; nothing else to restore
    MON.prop = prop
    return sorted(f'{o}.{n}' for o, n in todo)


# ---------------------------------------------------------------- judging helpers

def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def finite(*vs):
    for v in vs:
        if not (isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v)):
            return False
    return True


def close(got, want, tol, what='value'):
    if not finite(got):
        raise Violation(f'{what} is {got!r}, expected {float(want)!r}')
    d = abs(F(got) - F(want)) if not isinstance(want, float) else abs(got - want)
    if not d <= tol:
        raise Violation(f'{what} is {got!r}, expected {float(want)!r} (off by {float(d):.3g}, allowed {float(tol):.3g})')


def exactish(*vs, bits=10, mag=4096):
    """values for which sums and pair products of differences are exact in doubles"""
    sc = 1 << bits
    for v in vs:
        if isinstance(v, int):
            if -mag <= v <= mag:
                continue
            return False
        w = v * sc
        if not (-mag <= v <= mag) or w != int(w):
            return False
    return True


def isbool(v):
    return v is True or v is False


def sgn(x):
    return (x > 0) - (x < 0)


EPS = 2.220446049250313e-16
