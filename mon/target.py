"""Imports the code under test from the working tree of /repo (never a copy)."""
import os
import sys

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
SRC = os.path.join(REPO, 'src')
PKG = os.path.join(SRC, 'pyrusgeom')
sys.dont_write_bytecode = True
sys.path.insert(0, SRC)

from pyrusgeom import (angle_deg, vector_2d, line_2d, segment_2d, ray_2d, circle_2d,  # noqa: E402
                       triangle_2d, polygon_2d, convex_hull, rect_2d, size_2d, sector_2d,
                       matrix_2d, region_2d, soccer_math, math_values, geom_2d)

for _m in list(sys.modules.values()):
    _f = getattr(_m, '__file__', None)
    if getattr(_m, '__name__', '').split('.')[0] == 'pyrusgeom' and _f:
        if not os.path.realpath(_f).startswith(PKG):
            raise SystemExit(f'{_m.__name__} was imported from {_f}, not from {PKG}')

AngleDeg = angle_deg.AngleDeg
Vector2D = vector_2d.Vector2D
Line2D = line_2d.Line2D
Segment2D = segment_2d.Segment2D
Ray2D = ray_2d.Ray2D
Circle2D = circle_2d.Circle2D
Triangle2D = triangle_2d.Triangle2D
Polygon2D = polygon_2d.Polygon2D
ConvexHull = convex_hull.ConvexHull
MethodType = convex_hull.MethodType
Rect2D = rect_2d.Rect2D
Size2D = size_2d.Size2D
Sector2D = sector_2d.Sector2D
Matrix2D = matrix_2d.Matrix2D

CLASSES = dict(AngleDeg=AngleDeg, Vector2D=Vector2D, Line2D=Line2D, Segment2D=Segment2D,
               Ray2D=Ray2D, Circle2D=Circle2D, Triangle2D=Triangle2D, Polygon2D=Polygon2D,
               ConvexHull=ConvexHull, Rect2D=Rect2D, Size2D=Size2D, Sector2D=Sector2D,
               Matrix2D=Matrix2D)
MODULES = dict(soccer_math=soccer_math, circle_2d=circle_2d, convex_hull=convex_hull)
