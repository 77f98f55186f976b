"""Tables of the public API as workload operations: queries (must not change anything) and
mutators (may change their receiver only)."""
import operator

from . import target as T
from .core import snap


def _xyarg(c):
    return c.d.num()


def _ang(c):
    """an angle operand: a live angle, a new one or a number"""
    return c.angle() if c.d.chance(.6) else c.ang()


MUT = {
    'A': [lambda c, o: o.set_degree(c.d.deg()),
          lambda c, o: o.set_angle(c.angle()),
          lambda c, o: o.reverse(),
          lambda c, o: operator.iadd(o, _ang(c)),
          lambda c, o: operator.isub(o, _ang(c)),
          lambda c, o: operator.imul(o, c.d.num(-100, 100)),
          lambda c, o: operator.itruediv(o, c.d.pos_num(100))],
    'V': [lambda c, o: o.assign(c.d.num(), c.d.num()),
          lambda c, o: o.set_x(c.d.num()),
          lambda c, o: o.set_y(c.d.num()),
          lambda c, o: o.set_x_y(*c.d.xy()),
          lambda c, o: o.set_vector(c.vec()),
          lambda c, o: o.set_polar(c.d.num(-1e4, 1e4), _ang(c)),
          lambda c, o: o.add(c.vec()),
          lambda c, o: o.add(c.d.num(), c.d.num()),
          lambda c, o: o.sub(c.vec()),
          lambda c, o: o.sub(c.d.num(), c.d.num()),
          lambda c, o: o.add_x(c.d.num()),
          lambda c, o: o.add_y(c.d.num()),
          lambda c, o: o.sub_x(c.d.num()),
          lambda c, o: o.sub_y(c.d.num()),
          lambda c, o: o.scale(c.d.num(-4, 4)),
          lambda c, o: o.reverse(),
          lambda c, o: o.set_length(c.d.num(-1e4, 1e4)),
          lambda c, o: o.normalize(),
          lambda c, o: o.rotate(_ang(c)),
          lambda c, o: o.set_dir(_ang(c)),
          lambda c, o: operator.iadd(o, c.vec()),
          lambda c, o: operator.isub(o, c.vec()),
          lambda c, o: operator.imul(o, c.d.num(-4, 4)),
          lambda c, o: operator.itruediv(o, c.d.pos_num(1e3) + 0.01)],
    'S': [lambda c, o: o.assign(c.vec(), c.vec()),
          lambda c, o: o.assign(*c.d.xy(), *c.d.xy()),
          lambda c, o: o.assign(c.vec(), c.d.num(-1e4, 1e4), c.d.deg()),
          lambda c, o: o.assign(),
          lambda c, o: o.swap(),
          lambda c, o: o.reverse()],
    'C': [lambda c, o: o.assign(c.vec(), c.d.pos_num(1e4))],
    'T': [lambda c, o: o.assign(c.vec(), c.vec(), c.vec()),
          lambda c, o: o.assign(c.seg(), c.vec())],
    'Z': [lambda c, o: o.assign(c.d.num(), c.d.num()),
          lambda c, o: o.set_length(c.d.num()),
          lambda c, o: o.set_width(c.d.num())],
    'Q': [lambda c, o: o.assign(c.d.num(), c.d.num(), c.d.num(), c.d.num()),
          lambda c, o: o.assign(c.vec(), c.d.num(), c.d.num()),
          lambda c, o: o.assign(c.vec(), c.vec()),
          lambda c, o: o.assign(c.vec(), c.size()),
          lambda c, o: o.assign(c.rect()),
          lambda c, o: o.move_center(c.vec()),
          lambda c, o: o.move_top_left(c.vec()),
          lambda c, o: o.move_bottom_right(c.vec()),
          lambda c, o: o.move_left(c.d.num()),
          lambda c, o: o.move_right(c.d.num()),
          lambda c, o: o.move_top(c.d.num()),
          lambda c, o: o.move_bottom(c.d.num()),
          lambda c, o: o.move_min_x(c.d.num()),
          lambda c, o: o.move_max_x(c.d.num()),
          lambda c, o: o.move_min_y(c.d.num()),
          lambda c, o: o.move_max_y(c.d.num()),
          lambda c, o: o.set_top_left(c.vec()),
          lambda c, o: o.set_top_left(*c.d.xy()),
          lambda c, o: o.set_bottom_right(c.vec()),
          lambda c, o: o.set_bottom_right(*c.d.xy()),
          lambda c, o: o.set_left(c.d.num()),
          lambda c, o: o.set_right(c.d.num()),
          lambda c, o: o.set_top(c.d.num()),
          lambda c, o: o.set_bottom(c.d.num()),
          lambda c, o: o.set_min_x(c.d.num()),
          lambda c, o: o.set_max_x(c.d.num()),
          lambda c, o: o.set_min_y(c.d.num()),
          lambda c, o: o.set_max_y(c.d.num()),
          lambda c, o: o.set_length(c.d.num()),
          lambda c, o: o.set_width(c.d.num()),
          lambda c, o: o.set_size(c.d.num(), c.d.num()),
          lambda c, o: o.set_size(c.size())],
    'K': [lambda c, o: o.assign(c.vec(), c.d.pos_num(100, True), c.d.pos_num(1e3), _ang(c), _ang(c))],
    'M': [lambda c, o: o.reset(),
          lambda c, o: o.assign(*[c.d.num(-100, 100) for _ in range(6)]),
          lambda c, o: o.translate(c.d.num(-1e3, 1e3), c.d.num(-1e3, 1e3)),
          lambda c, o: o.scale(c.d.num(-4, 4), c.d.num(-4, 4)),
          lambda c, o: o.rotate(c.angle()),
          lambda c, o: operator.imul(o, c.matrix())],
    'P': [lambda c, o: o.clear(),
          lambda c, o: o.assign([c.nvec() for _ in range(c.d.i(1, 7))]),
          lambda c, o: o.assign([T.Vector2D(*p) for p in c.simple_pts()]),
          lambda c, o: o.add_vertex(c.vec())],
}

# validity flag mutators, kept apart: an invalid vector is not an operand of the geometry
MUT_FLAG = [lambda c, o: o.validate(), lambda c, o: o.invalidate()]

# by-reference accessors and what may be done through them
REFS = {
    'S': ['origin_', 'terminal_'], 'C': ['center_'], 'T': ['a_', 'b_', 'c_'],
    'Q': ['top_left_'], 'K': ['center_'], 'R': ['origin_'],
}


def small(o):
    """keeps a mutated vector inside the claimed magnitude"""
    if abs(o.x()) > 1e5 or abs(o.y()) > 1e5 or o.x() != o.x() or o.y() != o.y():
        o.assign(1.0, 2.0)


def mutate(c, kinds):
    """change one live object of the given kinds, possibly through a reference accessor"""
    d = c.d
    live = [k for k in kinds if c.pool.get(k)]
    if not live:
        return
    k = d.pick(live)
    o = d.pick(c.pool[k])
    if k in REFS and d.chance(0.25):
        v = getattr(o, d.pick(REFS[k]))()
        d.pick(MUT['V'])(c, v)
        small(v)
        return
    if k == 'Q' and d.chance(0.1):
        d.pick(MUT['Z'])(c, o.size_())
        return
    if k == 'P' and d.chance(0.2):
        vs = o.vertices_()
        if vs:
            v = d.pick(vs)
            d.pick(MUT['V'])(c, v)
            small(v)
        return
    if k not in MUT:
        return
    d.pick(MUT[k])(c, o)
    if k == 'V':
        small(o)


def mutate_one(c, o):
    """change this object in one of the ways its class offers; False if there is none"""
    d = c.d
    k = KIND_OF.get(type(o))
    if k is None or k not in MUT:
        return False
    if k in REFS and d.chance(0.25):
        v = getattr(o, d.pick(REFS[k]))()
        d.pick(MUT['V'])(c, v)
        small(v)
    elif k == 'P' and d.chance(0.5):
        vs = o.vertices_()
        if not vs:
            return False
        v = d.pick(vs)
        d.pick(MUT['V'])(c, v)
        small(v)
    elif k == 'V':
        d.pick(MUT['V'])(c, o)
        small(o)
    else:
        d.pick(MUT[k])(c, o)
    return True


def _mild(v):
    if isinstance(v, tuple):
        return all(_mild(i) for i in v)
    return not isinstance(v, (int, float)) or abs(v) <= 1e5


def again(c, log):
    """an earlier call of this history once more, with the same objects, after one of them changed"""
    d = c.d
    call = d.pick(log)
    live = [o for o in ((call[1],) if call[1] is not None else ()) + tuple(call[2]) if KIND_OF.get(type(o)) in MUT]
    if not live or not mutate_one(c, d.pick(live)):
        return
    if not all(_mild(snap(o)) for o in live):
        return
    if call[1] is not None:
        getattr(call[1], call[0])(*call[2])
    else:
        call[3](*call[2])


# ------------------------------------------------------------------ queries
# receiver kind -> "name argkinds"; argument kinds: one letter per operand
#   A angle object, a angle object or number, n number, p positive number, u number in [-1,1],
#   i small positive integer, b bool, V L S R C T Q Z K M P shapes, X line/ray/segment,
#   Y line/ray/segment/circle, v plain list of vectors

QUERIES = {
    'A': 'degree;degree_;is_within aa;abs;radian;copy;reverse_angle;get_normalized;is_left_of a;is_right_of a;'
         'is_left_equal_of a;is_right_equal_of a;__add__ a;__sub__ a;__mul__ n;__floordiv__ p;__repr__;__float__;'
         '__neg__;__eq__ A;cos;sin;tan',
    'V': 'x;y;get_x;get_y;copy;get_copy;is_valid;r2;r;length;length2;th;dir;abs;abs_x;abs_y;dist2 V;dist V;'
         'reverse_vector;set_length_vector n;normalize_vector;inner_product V;outer_product V;equals V;equals_weakly V;'
         'rotated_vector a;__hash__;__eq__ V;__add__ V;__sub__ V;__truediv__ p;__mul__ n;__repr__',
    'L': 'a;b;c;get_x n;get_y n;copy;dist V;dist2 V;is_parallel L;intersection L;perpendicular V;projection V;__eq__ L;__repr__',
    'S': 'is_valid;origin;terminal;line;length;direction;copy;reversed_segment;perpendicular_bisector;contains V;__eq__ S;'
         'equals_weakly S;projection V;intersection S;intersection L;intersection Sb;exist_intersection S;exist_intersection L;'
         'check_intersects_on_line V;exist_intersection_except_endpoint S;intersects_except_endpoint S;nearest_point V;'
         'dist V;dist S;farthest_dist V;on_segment V;on_segment_weakly V;__repr__',
    'R': 'origin;dir;copy;line;in_right_dir V;in_right_dir Vp;intersection L;intersection R;__eq__ R;__repr__',
    'C': 'area;contains V;center;radius;intersection Y;intersection_with_line L;intersection_with_ray R;'
         'intersection_with_segment S;intersection_with_circle C;__repr__',
    'T': 'is_valid;a;b;c;area;signed_area;double_signed_area;ccw;contains V;centroid;incenter;circumcenter;orthocenter;'
         'intersection X;__repr__',
    'Q': 'is_valid;area;contains V;contains_almost Vp;left;right;top;bottom;min_x;max_x;min_y;max_y;size;center;top_left;'
         'top_right;bottom_left;bottom_right;left_edge;right_edge;top_edge;bottom_edge;intersection X;intersected Q;united Q;__repr__',
    'Z': 'length;width;diagonal;is_valid;__eq__ Z;__repr__',
    'K': 'center;radius_min;radius_max;angle_left_start;angle_right_end;area;contains V;get_circumference_min;'
         'get_circumference_max;__eq__ K;__repr__',
    'M': 'm11;m12;m21;m22;dxtf;dytf;det;invertible;inverted;transform V;transform nn;__mul__ M;__mul__ V;__eq__ M;__repr__',
    'P': 'vertices;get_bounding_box;contains V;contains Vb;bounding_box_center;dist V;dist Vb;area;double_signed_area;'
         'is_counter_clockwise;is_clockwise;get_rectangle_clipped_polygon Q;__repr__',
}

STATICS = {
    'AngleDeg': 'rad2deg n;deg2rad n;cos_deg n;sin_deg n;tan_deg n;acos_deg u;asin_deg u;atan_deg n;atan2_deg nn;bisect aa;normalize_angle n',
    'Vector2D': 'invalid;from_polar na;polar2vector na;inner_product_static VV;outer_product_static VV',
    'Line2D': 'line_intersection LL;angle_bisector VAA;perpendicular_bisector VV',
    'Circle2D': 'circum_circle VVV;circum_circle_contains VVVV',
    'Triangle2D': 'double_signed_area_st VVV;signed_area_st VVV;tri_ccw VVV;tri_centroid VVV;tri_incenter VVV;'
                  'tri_circumcenter VVV;tri_orthocenter VVV;tri_contains VVVV',
    'Rect2D': 'from_center nnpp;from_center Vpp',
    'Matrix2D': 'make_translation nn;make_scaling nn;make_rotation A',
    'soccer_math': 'kick_rate pnpppp;dir_rate ndd;effective_turn npp;final_speed nppd;can_over_speed_max nppdp;'
                   'inertia_n_step_travel Vid;inertia_n_step_point VVid;inertia_n_step_distance nid;inertia_final_travel Vd;'
                   'inertia_final_point VVd;inertia_final_distance nd;r_int n;calc_length_geom_series ppd;'
                   'calc_first_term_geom_series ndi;bound nnn;min_max nnn;quantize nd;quantize_dist pd;unquantize_min nd;'
                   'unquantize_max nd;unquantize_error pd;f_range ii',
    'circle_2d': 'quadratic_f nnn',
}

CTORS = {
    'A': ['', 'a', 'A'], 'V': ['', 'nn', 'V'], 'L': ['nnn', 'VV', 'Va', 'L'], 'S': ['', 'nnnn', 'VV', 'Vpn'],
    'R': ['Va', 'VV'], 'C': ['', 'V', 'Vp'], 'T': ['', 'VVV', 'SV'], 'Q': ['nnnn', 'Vnn', 'VZ', 'VV', 'Q'],
    'Z': ['', 'n', 'nn'], 'K': ['Vppaa'], 'M': ['', 'nnnnnn'], 'P': ['', 'v', 'VVV', 'VVVV'],
}

KIND = {'A': T.AngleDeg, 'V': T.Vector2D, 'L': T.Line2D, 'S': T.Segment2D, 'R': T.Ray2D, 'C': T.Circle2D,
        'T': T.Triangle2D, 'Q': T.Rect2D, 'Z': T.Size2D, 'K': T.Sector2D, 'M': T.Matrix2D, 'P': T.Polygon2D}
KIND_OF = {v: k for k, v in KIND.items()}


def _table():
    out = []
    for k, s in QUERIES.items():
        for e in s.split(';'):
            n, _, a = e.partition(' ')
            out.append(('method', k, n, a))
    for o, s in STATICS.items():
        for e in s.split(';'):
            n, _, a = e.partition(' ')
            out.append(('static', o, n, a))
    for k, sigs in CTORS.items():
        for a in sigs:
            out.append(('ctor', k, '', a))
    return out


TABLE = _table()


def make(c, k):
    """a fresh operand of a kind"""
    d = c.d
    if k == 'A':
        return T.AngleDeg(d.deg(1e7))
    if k == 'V':
        return T.Vector2D(*d.xy())
    return {'L': c.line, 'S': c.seg, 'R': c.ray, 'C': c.circle, 'T': c.tri, 'Q': c.rect, 'Z': c.size,
            'K': c.sector, 'M': c.matrix, 'P': c.poly}[k]()


def arg(c, k, get):
    d = c.d
    if k == 'n':
        return d.num()
    if k == 'p':
        return d.pos_num(1e4)
    if k == 'u':
        return d.val(lambda r: r.uniform(-1, 1), -1, 1)
    if k == 'd':
        return d.val(lambda r: r.choice((0.94, 0.4, 0.5, 0.1, r.uniform(0.01, 0.99))), 0.01, 0.99)
    if k == 'i':
        return d.i(1, 12)
    if k == 'b':
        return d.chance(.5)
    if k == 'a':
        return get('A') if d.chance(.6) else d.deg(1e7)
    if k == 'X':
        return get(d.pick('LRS'))
    if k == 'Y':
        return get(d.pick('LRSC'))
    if k == 'v':
        return [get('V') for _ in range(d.i(0, 6))]
    return get(k)


def owner(o):
    return T.CLASSES.get(o) or T.MODULES[o]
