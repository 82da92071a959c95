"""Shared pieces of the specifications: builders for every kind of value, public observers, spec functions."""
from pyvc import seq
from pyvc.spec import lemma          # noqa: F401


# ------------------------------------------------------------------ builders
def a_name(v, n, p=0.12):
    """concrete runs: now and then a name for a point"""
    return None if v.symbolic else v.special(n + '.name', ['a', 'p q', 'é.b', 'default'], p)


def mk_point(v, n, kinds=('Point', 'PointRelative', 'PointCalc'), named=0.12):
    """A point of any kind with symbolic parameters, and its expected coordinates"""
    g = v.m.geom
    kind = v.choice('kind_' + n, kinds) if len(kinds) > 1 else kinds[0]
    x, y = v.reals('%s.x %s.y' % (n, n))
    if kind == 'Point':
        return g.Point(x, y, a_name(v, n, named)), (x, y)
    dx, dy = v.reals('%s.dx %s.dy' % (n, n))
    rel = g.PointRelative(dx, dy, g.Point(x, y), a_name(v, n, named))
    if kind == 'PointRelative':
        return rel, (x + dx, y + dy)
    s = v.real(n + '.scale')
    return g.PointCalc(rel, s, a_name(v, n + '.calc', named)), (x + s * dx, y + s * dy)


def mk_vector(v, n, kinds=('Vector', 'VectorRelative')):
    g = v.m.geom
    kind = v.choice('kind_' + n, kinds) if len(kinds) > 1 else kinds[0]
    x, y = v.reals('%s.x %s.y' % (n, n))
    if kind == 'Vector':
        return g.Vector(x, y), (x, y)
    if not v.symbolic and v.special(n + '.same', [True], 0.12):
        p = g.Point(x, y)
        return g.VectorRelative(p, p), (0, 0)
    a, b = v.reals('%s.bx %s.by' % (n, n))
    return g.VectorRelative(g.Point(x, y), g.Point(a, b)), (x - a, y - b)


def pt(v, n):
    x, y = v.reals('%s.x %s.y' % (n, n))
    return v.m.geom.Point(x, y)


def vec(v, n):
    x, y = v.reals('%s.x %s.y' % (n, n))
    return v.m.geom.Vector(x, y)


def mk_bbox(v, n, area=None):
    """A box with xl<=xh, yl<=yh (strict when area is True)"""
    x, y = v.reals('%s.x %s.y' % (n, n))
    kw = dict(pos=True) if area else dict(nonneg=True)
    w, h = v.real(n + '.w', **kw), v.real(n + '.h', **kw)
    return v.m.geom.BBox(x, y, x + w, y + h), (x, y, x + w, y + h)


_SIMPLE = [(1, 0, 0, 0, 1, 0), (1.0, 0.0, 0.0, 0.0, 1.0, 0.0), (1, 0, 7, 0, 1, -3), (2, 0, 0, 0, 2, 0), (1, 0, 0, 0, -1, 0),
           (2.5, 0, 1, 0, 0.5, 2), (-1, 0, 0, 0, -1, 0), (3, 0, 0.5, 0, 3, 0)]
SPECIAL_MAPS = {'simple': _SIMPLE,
                'general': _SIMPLE + [(0, -1, 0, 1, 0, 0), (0, 1, 5, -1, 0, 2), (0, 1, 0, 1, 0, 0), (1, 2, 0, 0, 1, 0),
                                      (1, 0, 0, 0.5, 1, 0), (0.6, -0.8, 0, 0.8, 0.6, 0), (1.2, -1.6, 4, 1.6, 1.2, -4)]}

SINGULAR = [(2, 0, 1, 0, 0, 4), (0, 0, 3, 0, 0, 4)]


def mk_xform(v, n, invertible=False, kind='general'):
    """Transform with symbolic entries -> (Transform, six entries)"""
    T = v.m.transform.Transform
    if not v.symbolic:
        e = v.special(n + '.special', SPECIAL_MAPS[kind] + ([] if invertible else SINGULAR))
        if e is not None:
            return T(e), e
    if kind == 'general':
        e = v.reals(' '.join('%s.%s' % (n, c) for c in 'abcdef'))
        if invertible:
            v.assume(e[0] * e[4] - e[1] * e[3] != 0)
            v.generic(abs(e[0] * e[4] - e[1] * e[3]) > 1e-3)
        return T(tuple(e)), tuple(e)
    if kind == 'simple':
        a, c, e, f = v.reals(' '.join('%s.%s' % (n, k) for k in 'acef'))
        if invertible:
            v.assume(a != 0)
            v.assume(e != 0)
            v.generic(abs(a * e) > 1e-3)
        return T((a, 0, c, 0, e, f)), (a, 0, c, 0, e, f)
    raise KeyError(kind)


def apply6(m, x, y):
    a, b, c, d, e, f = m
    return a * x + b * y + c, d * x + e * y + f


def compose6(o, i):
    """o after i"""
    a, b, c, d, e, f = o
    A, B, C, D, E, F = i
    return (a * A + b * D, a * B + b * E, a * C + b * F + c,
            d * A + e * D, d * B + e * E, d * C + e * F + f)


# ------------------------------------------------------------------ observers (public attributes only)
def obs(o):
    t = type(o).__name__
    if t == 'Point':
        return (t, o.name) + tuple(o.xy())
    if t == 'PointRelative':
        return (t, o.name, o.dx, o.dy, obs(o.base)) + tuple(o.xy())
    if t == 'PointCalc':
        return (t, o.name, o.scale, obs(o.base)) + tuple(o.xy())
    if t in ('Vector', 'VectorRelative'):
        return (t,) + tuple(o.xy())
    if t == 'BBox':
        return (t, o.xl, o.yl, o.xh, o.yh)
    if t == 'Line':
        return (t, obs(o.origin), obs(o.direction))
    if t in ('Transform',):
        return (t,) + tuple(o.as_6tuple())
    if t == 'ControlPoint':
        return (t, obs(o.c), obs(o.dl), obs(o.dr), o.kind)
    if isinstance(o, seq.SymSeq):
        return seq.comp(o, lambda xs: [obs(x) for x in xs], 'list', ('obs', 0, 0))
    if isinstance(o, (list, tuple)):
        return tuple(obs(x) for x in o)
    if isinstance(o, dict):
        return tuple((k, obs(x)) for k, x in o.items())
    if t == 'PenBrush':
        return (t, obs(o.pen), obs(o.brush))
    if t == 'Pen':
        return (t, o.brush.color, o.width)
    if t == 'Brush':
        return (t, o.color)
    if t == 'ElemCurve':
        return (t, o.name, obs(o.penbrush), bool(o.closed), obs(o.control_points), obs(o.xform))
    if t in ('ElemRectangle', 'ElemEllipse', 'ElemRectangleRounded'):
        return (t, o.name, obs(o.penbrush), bool(o.closed), obs(o.p1), obs(o.p2), obs(o.xform)) + (
            (o.radius,) if t == 'ElemRectangleRounded' else ())
    if t == 'Group':
        return (t, o.name, obs(o.penbrush), bool(o.closed), bool(o.hidden), obs(o.xform),
                tuple((k, obs(x)) for k, x in o.elems.items()), tuple((k, obs(x)) for k, x in o.points.items()))
    if t == 'ElemWithHoles':
        return (t, o.name, obs(o.penbrush), bool(o.closed), obs(o.xform), obs(o.outside), obs(o.inside))
    return o


def unchanged(v, label, before, obj):
    v.eq(label + ' (unchanged)', before, obs(obj))


def xy_eq(v, label, o, want):
    v.eq(label, tuple(o.xy()), tuple(want))
