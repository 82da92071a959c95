from common import *
import math


# =============================================================== C01
@lemma('C01', 'BasePoint.__sub__ Point.xy PointRelative.xy PointCalc.xy BasePoint.mid BasePoint.__add__ BasePoint.__neg__')
def point_point(v):
    g = v.m.geom
    p, (px, py) = mk_point(v, 'p')
    q, (qx, qy) = mk_point(v, 'q')
    b = obs((p, q))
    d = p - q
    v.check_type('P-P', d, g.Vector)
    xy_eq(v, 'P-P', d, (px - qx, py - qy))
    m = p.mid(q)
    v.check_type('mid', m, g.Point)
    xy_eq(v, 'mid', m, ((px + qx) / 2, (py + qy) / 2))
    n = -p
    v.check_type('-P', n, g.Point)
    xy_eq(v, '-P', n, (-px, -py))
    v.raises('P+P', TypeError, lambda: p + q)
    unchanged(v, 'points', b, (p, q))
    xy_eq(v, 'P-P itself', p - p, (0, 0))
    xy_eq(v, 'mid of itself', p.mid(p), (px, py))
    for nm, r in (('mid', m), ('-P', n), ('P-P', d), ('mid of itself', p.mid(p)), ('P+0', p + g.Vector(0, 0)), ('P-0', q - g.Vector(0, 0)),
                  ('0+P', g.Vector(0, 0) + p)):
        r.setxy(91, 92)
        unchanged(v, 'operands of ' + nm, b, (p, q))


@lemma('C01', 'Vector.__add__ BasePoint.__add__ BasePoint.add_vector BasePoint.__sub__ Vector.__sub__ BasePoint.sub_vector')
def point_vector(v):
    g = v.m.geom
    p, (px, py) = mk_point(v, 'p')
    w, (wx, wy) = mk_vector(v, 'w')
    b = obs((p, w))
    for nm, r, sg in (('P+V', p + w, 1), ('V+P', w + p, 1), ('P-V', p - w, -1)):
        v.check_type(nm, r, g.Point)
        xy_eq(v, nm, r, (px + sg * wx, py + sg * wy))
    v.raises('V-P', TypeError, lambda: w - p)
    n = v.real('n')
    v.raises('P*n', TypeError, lambda: p * n)
    v.raises('n*P', TypeError, lambda: n * p)
    q = p
    q += w
    v.check_type('P += V', q, g.Point)
    xy_eq(v, 'P += V', q, (px + wx, py + wy))
    q -= w
    q -= w
    v.check_type('P -= V', q, g.Point)
    xy_eq(v, 'P -= V', q, (px - wx, py - wy))
    unchanged(v, 'operands', b, (p, w))


@lemma('C01', 'Vector.__add__ Vector.__sub__ Vector.sub_vector Vector.__neg__ Vector.dot Vector.cross VectorRelative.xy')
def vector_vector(v):
    g = v.m.geom
    a, (ax, ay) = mk_vector(v, 'a')
    c, (cx, cy) = mk_vector(v, 'c')
    b = obs((a, c))
    for nm, r, want in (('V+V', a + c, (ax + cx, ay + cy)), ('V-V', a - c, (ax - cx, ay - cy)), ('-V', -a, (-ax, -ay))):
        v.check_type(nm, r, g.Vector)
        xy_eq(v, nm, r, want)
    v.eq('dot', a.dot(c), ax * cx + ay * cy)
    v.eq('cross', a.cross(c), ax * cy - ay * cx)
    q = a
    q += c
    v.check_type('V += V', q, g.Vector)
    xy_eq(v, 'V += V', q, (ax + cx, ay + cy))
    q -= c
    q -= c
    v.check_type('V -= V', q, g.Vector)
    xy_eq(v, 'V -= V', q, (ax - cx, ay - cy))
    unchanged(v, 'vectors', b, (a, c))
    xy_eq(v, 'V + itself', a + a, (2 * ax, 2 * ay))
    xy_eq(v, 'V - itself', a - a, (0, 0))
    unchanged(v, 'vectors', b, (a, c))
    # results are new vectors: changing one later changes no operand
    for nm, r in (('V+V', a + c), ('V-V', a - c), ('-V', -a), ('+=', q), ('V+0', a + g.Vector(0, 0)), ('V-0', c - g.Vector(0, 0)),
                  ('V*1', a * 1), ('1*V', 1 * c), ('V/1', a / 1)):
        r.setxy(91, 92)
        unchanged(v, 'operands of ' + nm, b, (a, c))


@lemma('C01', 'Vector.__mul__ Vector.__rmul__ Vector.__truediv__')
def vector_scalar(v):
    g = v.m.geom
    a, (ax, ay) = mk_vector(v, 'a')
    n = v.real('n')
    b = obs(a)
    for nm, r in (('V*n', a * n), ('n*V', n * a)):
        v.check_type(nm, r, g.Vector)
        xy_eq(v, nm, r, (ax * n, ay * n))
    q = a
    q *= n
    v.check_type('V *= n', q, g.Vector)
    xy_eq(v, 'V *= n', q, (ax * n, ay * n))
    unchanged(v, 'vector', b, a)
    q = a
    q /= 2
    v.check_type('V /= 2', q, g.Vector)
    xy_eq(v, 'V /= 2', q, (ax / 2, ay / 2))
    try:
        q = a / n
    except ZeroDivisionError:
        v.check('V/n raises only for n == 0', n == 0)
    else:
        v.check('V/0 must raise', n != 0)
        v.check_type('V/n', q, g.Vector)
        xy_eq(v, 'V/n * n', q * n, (ax, ay))
    unchanged(v, 'vector', b, a)


# =============================================================== C02
@lemma('C02', 'Vector.length Vector.unit')
def vector_unit(v):
    g = v.m.geom
    a, (x, y) = mk_vector(v, 'a')
    v.generic(x == 0 and y == 0 or abs(x) + abs(y) > 1e-3)
    b = obs(a)
    ln = a.length()
    v.le('length >= 0', 0, ln)
    v.eq('length^2', ln * ln, x * x + y * y)
    try:
        u = a.unit()
    except ZeroDivisionError:
        v.check('unit raises only for the zero vector', v.and_(x == 0, y == 0))
    else:
        v.check('unit of the zero vector must raise', v.or_(x != 0, y != 0))
        v.check_type('unit', u, g.Vector)
        ux, uy = u.xy()
        v.eq('unit length', ux * ux + uy * uy, 1)
        v.eq('unit parallel', ux * y - uy * x, 0)
        v.eq('unit * length = vector', (ux * ln, uy * ln), (x, y))
    unchanged(v, 'vector', b, a)


@lemma('C02', 'Vector.length Vector.unit Vector.normal Vector.angle Vector.__bool__')
def vector_of_any_size(v):
    """scaling a vector by a power of two scales its length and keeps unit, angle and truth value"""
    g = v.m.geom
    x, y = v.reals('x y')
    v.generic(abs(x) + abs(y) > 1e-3)
    v.assume(v.or_(x != 0, y != 0))
    k = 2 ** v.choice('k', [20, 100, -20, -40, -60, -100])
    a, big = g.Vector(x * k, y * k), g.Vector(x, y)
    v.num_eq('length', a.length() / k, big.length())
    v.eq('unit', a.unit().xy(), big.unit().xy())
    if not v.symbolic:          # vector_angle specifies the angle for all vectors
        v.num_eq('angle', a.angle(), big.angle())
    v.check('true', bool(a))
    n, m = a.normal().xy(), big.normal().xy()
    v.eq('normal', (n[0] / k, n[1] / k), m)


@lemma('C02', 'Vector.normal')
def vector_normal(v):
    g = v.m.geom
    a, (x, y) = mk_vector(v, 'a')
    b = obs(a)
    n = a.normal()
    v.check_type('normal', n, g.Vector)
    xy_eq(v, 'normal is 90 degrees clockwise', n, (y, -x))
    v.eq('normal has same length', n.length(), a.length())
    unchanged(v, 'vector', b, a)


@lemma('C02', 'Vector.rotate')
def vector_rotate(v):
    g = v.m.geom
    a, (x, y) = mk_vector(v, 'a')
    d, e = v.reals('d e')
    b = obs(a)
    r = a.rotate(d)
    v.check_type('rotate', r, g.Vector)
    c, s = v.cosd(d), v.sind(d)
    xy_eq(v, 'rotate ccw', r, (c * x - s * y, s * x + c * y))
    v.eq('rotation keeps length', r.x * r.x + r.y * r.y, x * x + y * y)
    xy_eq(v, 'rotations add', r.rotate(e), a.rotate(d + e).xy())
    xy_eq(v, 'rotate 90', a.rotate(90), (-y, x))
    unchanged(v, 'vector', b, a)


@lemma('C02', 'Vector.angle')
def vector_angle(v):
    a, (x, y) = mk_vector(v, 'a')
    if not v.symbolic:
        axis = v.choice('axis', ['', '', 'x', 'y'])
        if axis:
            a = v.m.geom.Vector(x, 0) if axis == 'x' else v.m.geom.Vector(0, y)
            x, y = a.xy()
    v.generic(x == 0 and y == 0 or abs(x) + abs(y) > 1e-3)
    ang = a.angle()
    v.le('angle <= 180', ang, 180)
    v.lt('angle > -180', -180, ang)
    if not v.symbolic and not (y == 0 and math.copysign(1, y) < 0):
        v.check('angle is never exactly -180', ang > -180)
    ln = a.length()
    v.eq('angle: x = length*cos', ln * v.cosd(ang), x)
    v.eq('angle: y = length*sin', ln * v.sind(ang), y)


@lemma('C02', 'Vector.__bool__ VectorRelative.__bool__')
def vector_bool(v):
    a, (x, y) = mk_vector(v, 'a')
    if a:
        v.check('true vector has a non-zero coordinate', v.or_(x != 0, y != 0))
    else:
        v.check('false vector is zero', v.and_(x == 0, y == 0))


@lemma('C02', 'Vector.close BasePoint.close')
def close_(v):
    which = v.choice('which', ['vector', 'point'])
    a, (ax, ay) = (mk_vector if which == 'vector' else mk_point)(v, 'a')
    b, (bx, by) = (mk_vector if which == 'vector' else mk_point)(v, 'b')
    d = v.real('d', nonneg=True)
    dx, dy = ax - bx, ay - by
    v.generic(abs(dx * dx + dy * dy - d * d) > 1e-9)
    r = a.close(b, d)
    near = dx * dx + dy * dy < d * d
    v.check('close iff distance < d', v.iff(r, near))


@lemma('C02', 'Vector.close BasePoint.close', fuzz=40)
def close_default(v):
    which = v.choice('which', ['vector', 'point'])
    g = v.m.geom
    x, y = v.reals('x y')
    k = v.integer('k', 1, 50)
    a, b = (g.Vector, g.Vector) if which == 'vector' else (g.Point, g.Point)
    p = a(x, y)
    v.check('close to itself', p.close(b(x, y)))
    v.check('not close at distance >= 1', v.not_(p.close(b(x + k, y))))


# =============================================================== C03
def _track(v, p, want, nm):
    g = v.m.geom
    xy_eq(v, nm + ' xy', p, want)
    v.eq(nm + ' x', p.x, want[0])
    v.eq(nm + ' y', p.y, want[1])
    v.eq(nm + ' iter', tuple(p), want)


def _fixed(v, p, cls, want, nm):
    f = p.fixed()
    v.check_type(nm + ' fixed', f, cls)
    xy_eq(v, nm + ' fixed', f, want)
    return f


def _move(v, base, i, n='base'):
    """an arbitrary move of an absolute point; returns its new coordinates"""
    g = v.m.geom
    x, y = v.reals('m%d.x m%d.y' % (i, i))
    how = v.choice('how%d' % i, ['set', 'setxy', 'restore'])
    if how == 'set':
        base.set(g.Point(x, y))
    elif how == 'setxy':
        base.setxy(x, y)
    else:
        base.restore(g.Point(x, y))
    return x, y


def _edit(v, q, i):
    """an arbitrary change of a point of any kind; returns its new coordinates"""
    if hasattr(q, 'setxy'):
        return _move(v, q, i)
    x, y, a, b = v.reals('e%d.x e%d.y e%d.a e%d.b' % (i, i, i, i))
    how = v.choice('edit%d' % i, ['own', 'base'])
    rel = q.base if hasattr(q, 'scale') else q
    if how == 'own' and hasattr(q, 'scale'):
        q.scale = a
    elif how == 'own':
        q.dx, q.dy = a, b
    else:
        rel.base.setxy(x, y)
    (bx, by), k = rel.base.xy(), getattr(q, 'scale', 1)
    return bx + k * rel.dx, by + k * rel.dy


@lemma('C03', 'PointRelative.xy PointCalc.xy BasePoint.x BasePoint.y BasePoint.v BasePoint.fixed BasePoint.__iter__ Point.set Point.setxy Point.restore')
def relative_points_track(v):
    """An arbitrary state is reached by one arbitrary move (any earlier history ends in arbitrary coordinates)"""
    g = v.m.geom
    bx, by, dx, dy, s = v.reals('bx by dx dy s')
    nm = v.choice('names', [None, '', 'n'])      # names need not be unique
    base = g.Point(bx, by, nm)
    rel = g.PointRelative(dx, dy, base, nm)
    calc = g.PointCalc(rel, s, nm)
    rel2 = g.PointRelative(s, dx, rel, nm)
    calc2 = g.PointCalc(rel2, dy, nm)
    fr = fc = fr2 = None
    for i in range(2):
        wr, wc, wr2 = (bx + dx, by + dy), (bx + s * dx, by + s * dy), (bx + dx + s, by + dy + dx)
        wc2 = (bx + dx + dy * s, by + dy + dy * dx)
        _track(v, rel, wr, 'relative')
        _track(v, calc, wc, 'calc')
        _track(v, rel2, wr2, 'relative to relative')
        _track(v, calc2, wc2, 'calc of relative to relative')
        for p, w in ((rel, wr), (calc, wc), (rel2, wr2)):
            q = p.v
            v.check_type('P.v', q, g.Vector)
            xy_eq(v, 'P.v', q, w)
        if i == 0:
            f = [(_fixed(v, p, g.Point, w, 'point'), w) for p, w in ((rel, wr), (calc, wc), (rel2, wr2), (base, (bx, by)))]
            what = v.choice('what', ['base', 'offset', 'scale', 'both', 'rebase'])
            if what in ('base', 'both'):
                bx, by = _move(v, base, 0)
            if what in ('offset', 'both'):
                dx, dy = v.reals('ndx ndy')
                rel.dx, rel.dy, rel2.dy = dx, dy, dx
            if what == 'scale':
                s, = v.reals('ns')
                calc.scale = s
                rel2.dx = s
                calc2.scale = dy
            if what == 'rebase':
                bx, by = v.reals('nbx nby')
                rel.base = base = g.Point(bx, by)
            if what == 'offset':
                calc2.scale = dy
            if what == 'both':
                calc2.scale = dy
    for p, w in f:
        xy_eq(v, 'fixed is not moved', p, w)


@lemma('C03', 'PointRelative.xy PointCalc.xy')
def relative_points_reassigned(v):
    """offsets, scale and base are themselves mutable"""
    g = v.m.geom
    bx, by, dx, dy, s = v.reals('bx by dx dy s')
    rel = g.PointRelative(1, 2, g.Point(3, 4))
    calc = g.PointCalc(rel, 5)
    rel.xy(), calc.xy(), rel.x, calc.y
    rel.dx = dx
    rel.dy = dy
    calc.scale = s
    rel.base = g.Point(bx, by)
    xy_eq(v, 'relative after edits', rel, (bx + dx, by + dy))
    xy_eq(v, 'calc after edits', calc, (bx + s * dx, by + s * dy))
    v.eq('x y', (rel.x, rel.y, calc.x, calc.y), (bx + dx, by + dy, bx + s * dx, by + s * dy))


@lemma('C03', 'PointRelative.xy PointCalc.xy PointRelative.fixed PointRelative.copy', bound='chains of at most 8 relative points', budget=40)
def chains_of_relative_points(v):
    """a point relative to a point relative to ... follows the absolute one, and every offset on the way counts"""
    g = v.m.geom
    n = v.choice('depth', range(9))
    x, y = v.reals('x y')
    root = p = g.Point(x, y)
    links = []
    sx, sy = x, y
    for i in range(n):
        dx, dy = v.reals('dx%d dy%d' % (i, i))
        k = v.choice('calc', [None, 2]) if i == 3 else None
        q = g.PointRelative(dx, dy, p)
        sx, sy = sx + dx, sy + dy
        if k:           # a scaled point half way down
            q, sx, sy = g.PointCalc(q, k), sx + (k - 1) * dx, sy + (k - 1) * dy
        else:
            links.append((q, dx, dy))
        p = q
    _track(v, p, (sx, sy), 'chain')
    f = _fixed(v, p, g.Point, (sx, sy), 'chain')
    a, b = v.reals('a b')
    root.setxy(x + a, y + b)
    _track(v, p, (sx + a, sy + b), 'the root moved')
    if links:
        q, dx, dy = v.choice('link', links)
        q.dx = dx + b
        _track(v, p, (sx + a + b, sy + b), 'a link changed')
    xy_eq(v, 'fixed is not moved', f, (sx, sy))


@lemma('C03', 'PointRelative.xy', bound='chains of 10 to 40 relative points, seeded', sym=False, fuzz=20)
def long_chains_of_relative_points(v):
    g = v.m.geom
    root = p = g.Point(*v.reals('x y'))
    dx, dy = v.reals('dx dy')
    n = v.choice('depth', [10, 11, 17, 40])
    for i in range(n):
        p = g.PointRelative(dx, i * dy, p)
    x, y = v.reals('X Y')
    for q in (g.Point(1, 2), g.Point(x, y)):
        root.set(q)
        _track(v, p, (q.x + n * dx, q.y + dy * n * (n - 1) / 2), 'long chain')


@lemma('C03', 'VectorRelative.xy VectorRelative.x VectorRelative.y VectorRelative.__iter__ Vector.p Vector.fixed VectorRelative.__bool__')
def relative_vector_tracks(v):
    g = v.m.geom
    p = pt(v, 'p')
    q, (qx, qy) = mk_point(v, 'q')
    px, py = p.xy()
    p.name = q.name = v.choice('names', [None, '', 'n'])     # names need not be unique
    w = g.VectorRelative(p, q)
    want = (px - qx, py - qy)
    _track(v, w, want, 'relative vector')
    f = _fixed(v, w, g.Vector, want, 'relative vector')
    x, y = px, py
    for i in range(2):
        if v.flag('move the first %d' % i):
            x, y = _move(v, p, i)
        else:
            qx, qy = _edit(v, q, i)
        _track(v, w, (x - qx, y - qy), 'moved relative vector')
    r = w.p
    v.check_type('V.p', r, g.Point)
    xy_eq(v, 'V.p', r, (x - qx, y - qy))
    v.eq('length', w.length() * w.length(), (x - qx) * (x - qx) + (y - qy) * (y - qy))
    xy_eq(v, 'fixed is not moved', f, want)


@lemma('C03', 'VectorRelative.xy VectorRelative.x VectorRelative.y VectorRelative.__iter__ VectorRelative.__bool__')
def dependent_points(v):
    """vectors between points of which one depends on the other (or is the other)"""
    g = v.m.geom
    p = pt(v, 'p')
    dx, dy, s = v.reals('dx dy s')
    rel = g.PointRelative(dx, dy, p)
    calc = g.PointCalc(rel, s)
    kinds = [('itself', p, p, (0, 0)), ('to its base', p, rel, (-dx, -dy)), ('from its base', rel, p, (dx, dy)),
             ('calculated', calc, p, (s * dx, s * dy)), ('calculated from relative', rel, calc, (dx - s * dx, dy - s * dy)),
             ('relative to itself', rel, rel, (0, 0)), ('calculated to itself', calc, calc, (0, 0))]
    nm, a, b, want = v.choice('which', kinds)
    w = g.VectorRelative(a, b)
    for i in range(3):
        _track(v, w, want, nm)
        if a is b:
            v.check('false', not w)
        _move(v, p, i % 2)


@lemma('C03', 'Vector.p Vector.x Vector.y Vector.fixed Vector.set Vector.setxy Point.v')
def plain_accessors(v):
    g = v.m.geom
    x, y, a, b = v.reals('x y a b')
    w = g.Vector(x, y)
    _track(v, w, (x, y), 'vector')
    xy_eq(v, 'V.p', w.p, (x, y))
    v.check_type('V.p', w.p, g.Point)
    f = w.fixed()
    if v.flag('setxy'):
        w.setxy(a, b)
    else:
        w.set(g.Vector(a, b))
    _track(v, w, (a, b), 'vector after set')
    xy_eq(v, 'V.p after set', w.p, (a, b))
    xy_eq(v, 'fixed', f, (x, y))
    p = g.Point(x, y)
    _track(v, p, (x, y), 'point')
    _move(v, p, 1)
    mx, my = p.xy()
    v.eq('x y v', (p.x, p.y) + tuple(p.v.xy()), (mx, my, mx, my))


@lemma('C03', 'PointRelative.fromxy')
def relative_fromxy(v):
    g = v.m.geom
    x, y = v.reals('x y')
    base, (bx, by) = mk_point(v, 'b')
    b = obs(base)
    p = g.PointRelative.fromxy(x, y, base)
    v.check_type('fromxy', p, g.PointRelative)
    xy_eq(v, 'fromxy is at (x, y)', p, (x, y))
    v.same('base', p.base, base)
    unchanged(v, 'base', b, base)


@lemma('C03', 'BasePoint.fixed')
def fixed_name(v):
    p, w = mk_point(v, 'p')
    v.eq('name of the fixed point', p.fixed().name, 'fixed_' + p.name if p.name else None)


# =============================================================== C05
@lemma('C05', 'BBox.__init__ BBox.p1 BBox.p2 BBox.pll BBox.plh BBox.phl BBox.phh BBox.center BBox.width BBox.height BBox.area BBox.size BBox.as_tuple BBox.__iter__ BBox.__getitem__ BBox.is_none BBox.is_empty')
def bbox_construct(v):
    g = v.m.geom
    x1, y1, x2, y2 = v.reals('x1 y1 x2 y2')
    how = v.choice('how', ['four', 'tuple', 'points'])
    if how == 'four':
        b = g.BBox(x1, y1, x2, y2)
    elif how == 'tuple':
        b = g.BBox((x1, y1, x2, y2))
    else:
        p, q = g.Point(x1, y1), g.PointRelative(x2, y2, g.Point(0, 0))
        b = g.BBox(p, q)
        v.eq('points unchanged', (p.xy(), q.xy()), ((x1, y1), (x2, y2)))
    t = (v.min(x1, x2), v.min(y1, y2), v.max(x1, x2), v.max(y1, y2))
    v.eq('extreme coordinates', (b.xl, b.yl, b.xh, b.yh), t)
    v.le('xl <= xh', b.xl, b.xh)
    v.le('yl <= yh', b.yl, b.yh)
    xl, yl, xh, yh = b.xl, b.yl, b.xh, b.yh
    v.eq('as_tuple', b.as_tuple(), (xl, yl, xh, yh))
    v.eq('iter', tuple(b), (xl, yl, xh, yh))
    v.eq('index', (b[0], b[1], b[2], b[3]), (xl, yl, xh, yh))
    for nm, w in (('p1', (xl, yl)), ('p2', (xh, yh)), ('pll', (xl, yl)), ('plh', (xl, yh)), ('phl', (xh, yl)),
                  ('phh', (xh, yh)), ('center', ((xl + xh) / 2, (yl + yh) / 2))):
        p = getattr(b, nm)
        v.check_type(nm, p, g.Point)
        xy_eq(v, nm, p, w)
    v.eq('width height', (b.width, b.height), (xh - xl, yh - yl))
    v.eq('size', b.size(), (xh - xl, yh - yl))
    v.eq('area', b.area(), (xh - xl) * (yh - yl))
    v.check('is_none', not b.is_none)
    v.check('is_empty iff zero area', v.iff(b.is_empty, v.or_(x1 == x2, y1 == y2)))


@lemma('C05', 'BBox.__setitem__ BBox.sort')
def bbox_items(v):
    b, t = mk_bbox(v, 'b')
    i = v.choice('i', [0, 1, 2, 3])
    z = v.real('z')
    b[i] = z
    w = list(t)
    w[i] = z
    v.eq('item assignment', tuple(b.as_tuple()), tuple(w))
    b.sort()
    v.eq('sort', b.as_tuple(), (v.min(w[0], w[2]), v.min(w[1], w[3]), v.max(w[0], w[2]), v.max(w[1], w[3])))


def union(v, s, t):
    return v.min(s[0], t[0]), v.min(s[1], t[1]), v.max(s[2], t[2]), v.max(s[3], t[3])


@lemma('C05', 'BBox.__add__')
def bbox_union(v):
    a, s = mk_bbox(v, 'a')
    b, t = mk_bbox(v, 'b')
    c, u = mk_bbox(v, 'c')
    r = a + b
    # upper bound, and least: every coordinate is attained
    for x in (a, b):
        v.check('encloses', v.and_(r.xl <= x.xl, r.yl <= x.yl, r.xh >= x.xh, r.yh >= x.yh))
    v.check('smallest', v.and_(v.or_(r.xl == s[0], r.xl == t[0]), v.or_(r.yl == s[1], r.yl == t[1]),
                               v.or_(r.xh == s[2], r.xh == t[2]), v.or_(r.yh == s[3], r.yh == t[3])))
    v.eq('commutative', (b + a).as_tuple(), r.as_tuple())
    v.eq('associative', ((a + b) + c).as_tuple(), (a + (b + c)).as_tuple())
    twice = a + a
    v.eq('idempotent', twice.as_tuple(), s)
    twice.xh = twice.xh + 1
    v.eq('operands', (a.as_tuple(), b.as_tuple(), c.as_tuple()), (s, t, u))
    r.xl = r.xl - 1
    v.eq('result is fresh', (a.as_tuple(), b.as_tuple()), (s, t))


@lemma('C05', 'BBox.__add__ BBox.is_none BBox.is_empty BBox.size BBox.area BBox.copy')
def bbox_none(v):
    g = v.m.geom
    a, s = mk_bbox(v, 'a')
    n = g.BBox(None)
    for nm, r in (('a+none', a + n), ('none+a', n + a)):
        v.eq(nm, r.as_tuple(), s)
        v.check(nm + ' is a new box', r is not a)
        r.xh = r.xh + 1
        v.eq(nm + ' is fresh', a.as_tuple(), s)
    v.check('none+none', (n + g.BBox(None)).is_none)
    v.check('none', n.is_none and n.is_empty and n.size() == (0, 0) and n.area() == 0 and n.width == 0 and n.height == 0)
    for k in ('p1', 'p2', 'pll', 'plh', 'phl', 'phh', 'center'):
        v.raises('none.' + k, ValueError, lambda: getattr(n, k))
    v.check('copy of none', n.copy().is_none and n.copy() == n)
    v.eq('none unchanged', n.as_tuple(), (None,) * 4)


@lemma('C05', 'BBox.grow')
def bbox_grow(v):
    g = v.m.geom
    p, (x, y) = mk_point(v, 'p')
    if v.flag('from none'):
        a = g.BBox(None)
        a.grow(p)
        v.eq('grow from none', a.as_tuple(), (x, y, x, y))
    else:
        a, s = mk_bbox(v, 'a')
        a.grow(p)
        v.eq('grow', a.as_tuple(), union(v, s, (x, y, x, y)))
    xy_eq(v, 'point', p, (x, y))


@lemma('C05', 'BBox.expand')
def bbox_expand(v):
    a, s = mk_bbox(v, 'a')
    dx = v.real('dx')
    xl, yl, xh, yh = s
    if v.flag('both'):
        dy = v.real('dy')
        r = a.expand(dx, dy)
    else:
        dy = dx
        r = a.expand(dx)
    ex = v.max(dx, -(xh - xl) / 2)
    ey = v.max(dy, -(yh - yl) / 2)
    v.eq('expand', r.as_tuple(), (xl - ex, yl - ey, xh + ex, yh + ey))
    v.eq('same center', r.center.xy(), ((xl + xh) / 2, (yl + yh) / 2))
    v.le('never past zero size', 0, r.width)
    v.le('never past zero size', 0, r.height)
    v.eq('operand', a.as_tuple(), s)
    r.xl = r.xl - 1
    v.eq('result is fresh', a.as_tuple(), s)


@lemma('C05', 'BBox.transformed Transform.transform_pts')
def bbox_transformed(v):
    a, s = mk_bbox(v, 'a')
    m, e = mk_xform(v, 'm')
    xl, yl, xh, yh = s
    cs = [apply6(e, x, y) for x, y in ((xl, yl), (xl, yh), (xh, yl), (xh, yh))]
    r = a.transformed(m)
    v.eq('transformed', r.as_tuple(), (v.min(*[c[0] for c in cs]), v.min(*[c[1] for c in cs]),
                                       v.max(*[c[0] for c in cs]), v.max(*[c[1] for c in cs])))
    v.eq('operand', a.as_tuple(), s)
    v.eq('transform unchanged', m.as_6tuple(), e)


# =============================================================== C06
def inter(v, s, t):
    return v.max(s[0], t[0]), v.max(s[1], t[1]), v.min(s[2], t[2]), v.min(s[3], t[3])


@lemma('C06', 'BBox.intersection')
def bbox_intersection(v):
    a, s = mk_bbox(v, 'a')
    b, t = mk_bbox(v, 'b')
    r = a.intersection(b)
    q = b.intersection(a)
    i = inter(v, s, t)
    disjoint = v.or_(i[0] > i[2], i[1] > i[3])
    same = a.intersection(a)
    v.eq('with itself', same.as_tuple(), s)
    for k in (r, q, same):
        before = k.as_tuple() if not k.is_none else None
        xl = k.xl
        k.xl = 1234
        v.eq('a new box', (a.as_tuple(), b.as_tuple()), (s, t))
        k.xl = xl
    if r.is_none:
        v.check('none only when disjoint', disjoint)
        v.check('symmetric', q.is_none)
    else:
        v.check('disjoint boxes give none', v.not_(disjoint))
        v.eq('intersection', r.as_tuple(), i)
        v.eq('symmetric', q.as_tuple(), r.as_tuple())
    v.eq('operands', (a.as_tuple(), b.as_tuple()), (s, t))


@lemma('C06', 'BBox.contains BBox.intersection')
def bbox_contains(v):
    a, s = mk_bbox(v, 'a')
    b, t = mk_bbox(v, 'b')
    inside = v.and_(s[0] <= t[0], s[1] <= t[1], t[2] <= s[2], t[3] <= s[3])
    if a.contains(b):
        v.check('contains only when within', inside)
        v.eq('intersection is b', a.intersection(b).as_tuple(), t)
    else:
        v.check('within means contains', v.not_(inside))
    v.check('contains itself', a.contains(a))
    v.eq('operands', (a.as_tuple(), b.as_tuple()), (s, t))


@lemma('C06', 'BBox.contains_pt BBox.touches_pt')
def bbox_points(v):
    a, (xl, yl, xh, yh) = mk_bbox(v, 'a')
    p, (x, y) = mk_point(v, 'p')
    v.check('contains_pt is strict interior', v.iff(a.contains_pt(p), v.and_(xl < x, x < xh, yl < y, y < yh)))
    edges = v.or_(v.and_(v.or_(x == xl, x == xh), yl < y, y < yh), v.and_(v.or_(y == yl, y == yh), xl < x, x < xh))
    v.check('touches_pt is the open edges', v.iff(a.touches_pt(p), edges))


@lemma('C06', 'BBox.overlaps BBox.intersection')
def bbox_overlaps(v):
    a, s = mk_bbox(v, 'a', area=True)
    b, t = mk_bbox(v, 'b', area=True)
    i = inter(v, s, t)
    over = v.and_(i[0] < i[2], i[1] < i[3])
    r = a.overlaps(b)
    if r:
        v.check('overlap has non-zero area', over)
        v.lt('intersection area', 0, a.intersection(b).area())
    else:
        v.check('no overlap', v.not_(over))
        v.eq('intersection area', a.intersection(b).area(), 0)


@lemma('C06', 'BBox.overlaps BBox.touches BBox.touches_side')
def bbox_symmetry(v):
    a, s = mk_bbox(v, 'a')
    b, t = mk_bbox(v, 'b')
    k = v.choice('k', ['overlaps', 'touches', 'touches_side'])
    v.check(k + ' symmetric', v.iff(getattr(a, k)(b), getattr(b, k)(a)))
    v.eq('operands', (a.as_tuple(), b.as_tuple()), (s, t))


@lemma('C06', 'BBox.touches BBox.touches_side BBox.intersection')
def bbox_touches(v):
    a, s = mk_bbox(v, 'a', area=True)
    b, t = mk_bbox(v, 'b', area=True)
    i = inter(v, s, t)
    w, h = i[2] - i[0], i[3] - i[1]
    none = v.or_(w < 0, h < 0)
    touch = v.and_(v.not_(none), v.or_(w == 0, h == 0))
    side = v.and_(v.not_(none), v.or_(w == 0, h == 0), v.or_(w > 0, h > 0))
    if a.touches(b):
        v.check('touches: intersection has zero area', touch)
        v.eq('area', a.intersection(b).area(), 0)
        v.check('not none', not a.intersection(b).is_none)
    else:
        v.check('touching boxes touch', v.not_(touch))
    v.check('touches_side: an edge segment', v.iff(a.touches_side(b), side))


@lemma('C06', 'BBox.intersection BBox.contains BBox.overlaps BBox.touches BBox.touches_side BBox.contains_pt BBox.touches_pt')
def bbox_none_predicates(v):
    g = v.m.geom
    a, s = mk_bbox(v, 'a')
    if v.flag('both none'):
        a = g.BBox(None)
    n = g.BBox(None)
    p, _ = mk_point(v, 'p')
    v.check('intersection with none', a.intersection(n).is_none and n.intersection(a).is_none)
    for k in ('contains', 'overlaps'):
        v.raises('none.' + k, ValueError, lambda: getattr(n, k)(a))
        v.raises(k + '(none)', ValueError, lambda: getattr(a, k)(n))
    for k in ('touches', 'touches_side'):
        v.check('none.' + k, getattr(n, k)(a) is False and getattr(a, k)(n) is False)
    v.check('none point predicates', n.contains_pt(p) is False and n.touches_pt(p) is False)


# =============================================================== C07
def mk_line(v, n, nonzero=True):
    g = v.m.geom
    p = pt(v, n)
    d = vec(v, n + '.d')
    if nonzero:
        v.assume(v.or_(d.x != 0, d.y != 0))
        v.generic(abs(d.x) + abs(d.y) > 1e-2)
    return g.Line(p, d)


@lemma('C07', 'Line.__init__ Line.p1 Line.p2 Line.midpoint Line.from_pts Line.__add__ Line.__sub__ Line.segment_bbox')
def line_basics(v):
    g = v.m.geom
    p, (px, py) = mk_point(v, 'p')
    q, (qx, qy) = mk_point(v, 'q')
    w, (wx, wy) = mk_vector(v, 'w')
    l = g.Line.from_pts(p, q) if v.flag('from_pts') else g.Line(p, q)
    v.check_type('line', l, g.Line)
    for nm, o, want in (('origin', l.origin, (px, py)), ('direction', l.direction, (qx - px, qy - py)),
                        ('p1', l.p1, (px, py)), ('p2', l.p2, (qx, qy)),
                        ('midpoint', l.midpoint, ((px + qx) / 2, (py + qy) / 2))):
        xy_eq(v, nm, o, want)
    b = obs(l)
    for nm, r, sg in (('L+V', l + w, 1), ('L-V', l - w, -1)):
        v.check_type(nm, r, g.Line)
        xy_eq(v, nm + ' origin', r.origin, (px + sg * wx, py + sg * wy))
        xy_eq(v, nm + ' direction', r.direction, (qx - px, qy - py))
    s = l.segment_bbox()
    v.eq('segment_bbox', s.as_tuple(), (v.min(px, qx), v.min(py, qy), v.max(px, qx), v.max(py, qy)))
    unchanged(v, 'line', b, l)


@lemma('C07', 'Line.closest')
def line_closest(v):
    l = mk_line(v, 'l')
    p, (x, y) = mk_point(v, 'p')
    b = obs((l, p))
    c = l.closest(p)
    (ox, oy), (dx, dy) = l.origin.xy(), l.direction.xy()
    cx, cy = c.xy()
    v.eq('on the line', (cx - ox) * dy - (cy - oy) * dx, 0)
    v.eq('foot of the perpendicular', (x - cx) * dx + (y - cy) * dy, 0)
    unchanged(v, 'line', b, (l, p))


@lemma('C07', 'Line.closest Line.intersection Line.parallel Line.p1 Line.p2 Line.midpoint Line.segment_bbox')
def line_changed(v):
    """a line asked again after its origin or direction was changed answers for what it is now"""
    g = v.m.geom
    l = g.Line(g.Point(*v.reals('ox oy')), g.Vector(*v.reals('dx dy')))
    v.assume(v.or_(l.direction.x != 0, l.direction.y != 0))
    v.generic(abs(l.direction.x) + abs(l.direction.y) > 1e-2)
    o = g.Line(g.Point(1, 2), g.Vector(1, 3))
    (nx, ny), (x, y) = v.reals('nx ny'), v.reals('x y')
    v.assume(v.or_(nx != 0, ny != 0))
    v.generic(abs(nx) + abs(ny) > 1e-2)
    P = g.Point(x, y)

    def ask():
        l.closest(P), l.p1, l.p2, l.midpoint, l.segment_bbox(), l.parallel(o), l == o
        try:
            l.intersection(o), l.segment_intersection(o)
        except g.ParallelLineError:
            pass
    if not v.symbolic or v.flag('asked before'):
        v.choice('ask', [ask, lambda: l.closest(P), lambda: l.midpoint])()
    how = v.choice('change', ['direction', 'set direction', 'origin', 'set origin', 'both'])
    if how in ('direction', 'both'):
        l.direction.setxy(nx, ny)
    if how == 'set direction':
        l.direction = g.Vector(nx, ny)
    if how in ('origin', 'both'):
        l.origin.setxy(ny, x)
    if how == 'set origin':
        l.origin = g.Point(ny, x)
    (ox, oy), (dx, dy) = l.origin.xy(), l.direction.xy()
    if 'direction' in how or how == 'both':
        v.eq('new direction', (dx, dy), (nx, ny))
    else:
        v.eq('new origin', (ox, oy), (ny, x))
    cx, cy = l.closest(P).xy()
    v.eq('closest on the line', (cx - ox) * dy - (cy - oy) * dx, 0)
    v.eq('foot of the perpendicular', (x - cx) * dx + (y - cy) * dy, 0)
    xy_eq(v, 'p1', l.p1, (ox, oy))
    xy_eq(v, 'p2', l.p2, (ox + dx, oy + dy))
    xy_eq(v, 'midpoint', l.midpoint, (ox + dx / 2, oy + dy / 2))
    v.eq('segment_bbox', l.segment_bbox().as_tuple(),
         (v.min(ox, ox + dx), v.min(oy, oy + dy), v.max(ox, ox + dx), v.max(oy, oy + dy)))
    if not v.symbolic:
        cr = dx * 3 - dy
        v.assume(abs(cr) > 1e-2)
        q = l.intersection(o)
        v.eq('crossing on both lines', ((q.x - ox) * dy - (q.y - oy) * dx, (q.x - 1) * 3 - (q.y - 2)), (0, 0))


@lemma('C07', 'Line.intersection Line.parallel')
def line_intersection(v):
    g = v.m.geom
    a, b = mk_line(v, 'a', False), mk_line(v, 'b', False)
    before = obs((a, b))
    cr = a.direction.x * b.direction.y - a.direction.y * b.direction.x
    v.generic(cr == 0 or abs(cr) > 1e-2)
    v.check('parallel', v.iff(a.parallel(b), cr == 0))
    try:
        p = a.intersection(b)
    except g.ParallelLineError:
        v.check('ParallelLineError only for parallel lines', cr == 0)
    else:
        v.check('parallel lines must raise', cr != 0)
        for l in (a, b):
            v.eq('on both lines', (p.x - l.origin.x) * l.direction.y - (p.y - l.origin.y) * l.direction.x, 0)
    unchanged(v, 'lines', before, (a, b))


@lemma('C07', 'Line.segment_intersection Line.segment_bbox BBox.overlaps', budget=60)
def line_segments_cross(v):
    """segments that cross in their interiors: a and b built from the crossing point"""
    g = v.m.geom
    x, y = v.reals('x y')
    s, t = v.real('s', lo=0, hi=1), v.real('t', lo=0, hi=1)
    dx, dy, ex, ey = v.reals('dx dy ex ey')
    for k in (s, t):
        v.assume(k > 0)
        v.assume(k < 1)
    cr = dx * ey - dy * ex
    v.assume(cr != 0)
    v.generic(abs(cr) > 1e-2)
    a = g.Line(g.Point(x - s * dx, y - s * dy), g.Vector(dx, dy))
    b = g.Line(g.Point(x - t * ex, y - t * ey), g.Vector(ex, ey))
    # bounding boxes of non-zero area (an axis-parallel segment has a box of zero area)
    for k in (dx, dy, ex, ey):
        v.assume(k != 0)
        v.generic(abs(k) > 1e-2)
    before = obs((a, b))
    r = a.segment_intersection(b)
    v.check('crossing found', r is not None)
    if r is not None:
        p, ts, to = r
        xy_eq(v, 'crossing point', p, (x, y))
        v.eq('parameters', (ts, to), (s, t))
    unchanged(v, 'lines', before, (a, b))


@lemma('C07', 'Line.segment_intersection Line.segment_bbox BBox.overlaps', budget=60)
def line_segments_same_start(v):
    """segments of different directions that start at the same point, going to the same side of it"""
    g = v.m.geom
    x, y = v.reals('x y')
    sx, sy = v.choice('sx', [1, -1]), v.choice('sy', [1, -1])
    dx, dy, ex, ey = [s * v.real(n, pos=True) for s, n in ((sx, 'dx'), (sy, 'dy'), (sx, 'ex'), (sy, 'ey'))]
    cr = dx * ey - dy * ex
    v.assume(cr != 0)
    v.generic(abs(cr) > 1e-2)
    o = g.Point(x, y)
    a = g.Line(o, g.Vector(dx, dy))
    b = g.Line(o if v.flag('same object') else g.Point(x, y), g.Vector(ex, ey))
    before = obs((a, b))
    r = a.segment_intersection(b)
    v.check('crossing found', r is not None)
    if r is not None:
        xy_eq(v, 'crossing point', r[0], (x, y))
        v.eq('parameters', tuple(r[1:]), (0, 0))
    unchanged(v, 'lines', before, (a, b))


@lemma('C07', 'Line.segment_intersection', budget=60)
def line_segments_result(v):
    """whatever is returned is right"""
    g = v.m.geom
    a, b = mk_line(v, 'a', False), mk_line(v, 'b', False)
    cr = a.direction.x * b.direction.y - a.direction.y * b.direction.x
    v.assume(cr != 0)
    v.generic(abs(cr) > 1e-2)
    before = obs((a, b))
    r = a.segment_intersection(b)
    if r is not None:
        p, ts, to = r
        for l, t in ((a, ts), (b, to)):
            v.le('parameter >= 0', 0, t)
            v.le('parameter <= 1', t, 1)
            xy_eq(v, 'point is origin + t*direction', p, (l.origin.x + t * l.direction.x, l.origin.y + t * l.direction.y))
    unchanged(v, 'lines', before, (a, b))
