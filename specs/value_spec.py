"""C04: copies and equality of value objects; C08: polygon area; C24: pens, brushes and colours."""
from common import *
from model_spec import FILLED


# =============================================================== C04
def mk_value(v, kind, n='a'):
    """-> (object, list of (mutator name, function(obj)))"""
    g, B, T = v.m.geom, v.m.bezier, v.m.transform
    if kind == 'Point':
        o = g.Point(*v.reals(n + '.x ' + n + '.y'))
    elif kind == 'PointRelative':
        o = g.PointRelative(*v.reals(n + '.dx ' + n + '.dy'), g.Point(*v.reals(n + '.bx ' + n + '.by')))
    elif kind == 'PointCalc':
        o = g.PointCalc(g.PointRelative(*v.reals(n + '.dx ' + n + '.dy'), g.Point(*v.reals(n + '.bx ' + n + '.by'))),
                        v.real(n + '.s'))
    elif kind == 'Vector':
        o = g.Vector(*v.reals(n + '.x ' + n + '.y'))
    elif kind == 'VectorRelative':
        o = g.VectorRelative(g.Point(*v.reals(n + '.x ' + n + '.y')), g.Point(*v.reals(n + '.bx ' + n + '.by')))
    elif kind == 'BBox':
        o = mk_bbox(v, n)[0]
    elif kind == 'ControlPoint':
        o = B.ControlPoint(g.Point(*v.reals(n + '.x ' + n + '.y')), g.Vector(*v.reals(n + '.lx ' + n + '.ly')),
                           g.Vector(*v.reals(n + '.rx ' + n + '.ry')), v.choice(n + '.kind', ['smooth', 'sharp']))
    elif kind == 'Matrix':
        o = T.Matrix([v.reals(' '.join('%s.m%d%d' % (n, i, j) for j in range(3))) for i in range(3)])
    elif kind == 'Transform':
        o = mk_xform(v, n)[0]
    return o


def mutators(v, kind):
    g, B, T = v.m.geom, v.m.bezier, v.m.transform
    x, y = v.reals('new.x new.y')
    P, V = g.Point(x, y), g.Vector(x, y)
    if kind == 'Point':
        return [lambda o: o.setxy(x, y), lambda o: o.set(P), lambda o: o.restore(P)]
    if kind in ('PointRelative',):
        return [lambda o: setattr(o, 'dx', x), lambda o: setattr(o, 'dy', y), lambda o: setattr(o, 'base', P)]
    if kind == 'PointCalc':
        return [lambda o: setattr(o, 'scale', x), lambda o: setattr(o, 'base', g.PointRelative(x, y, P))]
    if kind == 'Vector':
        return [lambda o: o.setxy(x, y), lambda o: o.set(V)]
    if kind == 'VectorRelative':
        return []
    if kind == 'BBox':
        return [lambda o: o.grow(P), lambda o: o.__setitem__(0, x), lambda o: o.__setitem__(3, y),
                lambda o: (setattr(o, 'xh', x), o.sort())]
    if kind == 'ControlPoint':
        q = B.ControlPoint(P, V, g.Vector(y, x), 'very-smooth')
        return [lambda o: o.c.setxy(x, y), lambda o: o.dl.setxy(x, y), lambda o: o.dr.setxy(x, y),
                lambda o: setattr(o, 'kind', 'very-smooth'), lambda o: o.restore(q)]
    if kind == 'Matrix':
        m = T.Matrix([[x, y, 1], [0, x, y], [0, 0, 1]])
        return [lambda o: o.pre_dot_eq(m.ndmat), lambda o: o.post_dot_eq(m.ndmat),
                lambda o: o.ndmat.__setitem__((0, 2), x)]
    if kind == 'Transform':
        t = T.Transform((x, y, 1, y, 2, x))
        return [lambda o: o.translate(x, y), lambda o: o.scale(x, y), lambda o: o.rotate(90), lambda o: o.compose(t),
                lambda o: o.compose_outer(t), lambda o: o.set_matrix(t), lambda o: o.reset(),
                lambda o: (o.push(), o.rotate_ccw(90))]


VALUE_KINDS = ['Point', 'PointRelative', 'PointCalc', 'Vector', 'VectorRelative', 'BBox', 'ControlPoint', 'Matrix',
               'Transform']


def vobs(o):
    return ('Matrix',) + tuple(o.as_tuple3x3()) if type(o).__name__ == 'Matrix' else obs(o)


@lemma('C04', 'Point.copy PointRelative.copy PointCalc.copy Vector.copy VectorRelative.copy BBox.copy ControlPoint.copy '
       'Matrix.copy Transform.copy Point.setxy Vector.setxy BBox.grow BBox.sort ControlPoint.restore', budget=60)
def copies_are_independent(v):
    kind = v.choice('kind', VALUE_KINDS)
    a = mk_value(v, kind)
    b = a.copy()
    v.check('copy is a new object', b is not a)
    v.check('copy is equal', a == b)
    v.check('equal to the copy', b == a)
    v.eq('copy has the same components', vobs(b), vobs(a))
    muts = mutators(v, kind) or [lambda o: None]
    mut = muts[v.choice('mutator', list(range(len(muts))))]
    before = vobs(a)
    if v.flag('mutate the copy'):
        mut(b)
        v.eq('original (unchanged)', before, vobs(a))
    else:
        mut(a)
        v.eq('copy (unchanged)', before, vobs(b))


@lemma('C04', 'BBox.copy BBox.__eq__')
def empty_box_copy(v):
    g = v.m.geom
    a = g.BBox(None)
    b = a.copy()
    v.check('a new, equal, empty box', b is not a and type(b) is g.BBox and a == b and b == g.BBox(None))
    w = v.reals('xl yl xh yh')
    one, other = (a, b) if v.flag('change the original') else (b, a)
    one.xl, one.yl, one.xh, one.yh = w
    v.check('the other stays empty', (other.xl, other.yl, other.xh, other.yh) == (None,) * 4)
    v.check('no longer equal', not a == b)


def _edit_point(v, p, kind):
    """change an operand through its own fields (not through a shared base)"""
    x, y = v.reals('ex ey')
    if kind == 'Point':
        p.setxy(x, y)
    elif kind == 'PointRelative':
        p.dx = x
        p.dy = y
    else:
        p.scale = x


@lemma('C04', 'VectorRelative.copy ControlPoint.copy PointRelative.copy PointCalc.copy')
def relative_parts_copy(v):
    """copies of objects built from points of any kind do not follow edits of those points' own fields, nor back"""
    g, B = v.m.geom, v.m.bezier
    whole = v.choice('whole', ['VectorRelative', 'ControlPoint'])
    part = v.choice('part', ['first', 'second'] if whole == 'VectorRelative' else ['c', 'dl', 'dr'])
    kinds = ('Point', 'PointRelative', 'PointCalc')
    kind = v.choice('kind', kinds)
    p, _ = mk_point(v, 'p', (kind,), named=0)
    other = pt(v, 'o')
    if whole == 'VectorRelative':
        o = g.VectorRelative(p, other) if part == 'first' else g.VectorRelative(other, p)
        where = lambda k: tuple(k.xy())
    else:
        if part == 'c':
            o = B.ControlPoint(p, vec(v, 'l'), vec(v, 'r'))
        else:
            w = g.VectorRelative(p, other)
            o = B.ControlPoint(pt(v, 'c'), *((w, vec(v, 'r')) if part == 'dl' else (vec(v, 'l'), w)))
        where = lambda k: tuple(k.c.xy()) + tuple(k.dl.xy()) + tuple(k.dr.xy())
    k = o.copy()
    v.check('equal', o == k)
    want = where(o)
    v.eq('same place', where(k), want)
    _edit_point(v, p, kind)
    v.eq('the copy does not follow', where(k), want)


@lemma('C04', 'Point.set Point.setxy Point.restore Vector.set Vector.setxy')
def setters(v):
    g = v.m.geom
    if v.flag('vector'):
        a, (b, want) = g.Vector(*v.reals('x y')), mk_vector(v, 'b')
        ops = ['set', 'setxy']
    else:
        a, (b, want) = g.Point(*v.reals('x y'), 'nm'), mk_point(v, 'b')
        ops = ['set', 'setxy', 'restore']
    before = obs(b)
    op = v.choice('op', ops)
    getattr(a, op)(*(want if op == 'setxy' else (b,)))
    xy_eq(v, op, a, want)
    v.eq('x, y', (a.x, a.y), want)
    unchanged(v, 'source', before, b)
    if not hasattr(a, 'dot'):
        v.eq('name kept', a.name, 'nm')


@lemma('C04', 'ControlPoint.restore')
def restore_control_point(v):
    g, B = v.m.geom, v.m.bezier
    a, b = mk_value(v, 'ControlPoint', 'a'), mk_value(v, 'ControlPoint', 'b')
    before = obs(b)
    a.restore(b)
    v.check('equal to the source', a == b)
    unchanged(v, 'source', before, b)
    x, y = v.reals('x y')
    part = v.choice('part', ['c', 'dl', 'dr'])
    getattr(a, part).setxy(x, y)
    unchanged(v, 'source after a change', before, b)
    a2 = mk_value(v, 'ControlPoint', 'd')
    a2.restore(b)
    w = obs(a2)
    getattr(b, part).setxy(x, y)
    v.eq('restored object does not follow the source', obs(a2), w)


def components(o):
    t = type(o).__name__
    if t == 'Point':
        return (o.name,) + tuple(o.xy())
    if t == 'PointRelative':
        return (o.name, o.dx, o.dy) + components(o.base)
    if t == 'PointCalc':
        return (o.name, o.scale) + components(o.base)
    if t == 'Vector':
        return tuple(o.xy())
    if t == 'VectorRelative':
        return (None,) + tuple(o.xy())
    if t == 'BBox':
        return tuple(o)
    if t == 'ControlPoint':
        return components(o.c) + components(o.dl) + components(o.dr) + (o.kind,)
    if t == 'Matrix':
        return sum(map(tuple, o.as_tuple3x3()), ())
    return tuple(o.as_6tuple())


@lemma('C04', 'Point.__eq__ PointRelative.__eq__ PointCalc.__eq__ Vector.__eq__ VectorRelative.__eq__ BBox.__eq__ '
       'ControlPoint.__eq__ Matrix.__eq__ Transform.__eq__', budget=60)
def equality_is_componentwise(v):
    kind = v.choice('kind', VALUE_KINDS)
    a = mk_value(v, kind)
    b = a.copy()
    ca = components(a)
    # change one component of the copy to an arbitrary value
    x = v.real('x')
    which = v.choice('component', list(range(9)))
    if kind in ('Point', 'Vector'):
        p = list(a.xy())
        p[which % 2] = x
        b.setxy(*p)
    elif kind == 'PointRelative':
        g = v.m.geom
        q = [a.dx, a.dy] + list(a.base.xy())
        q[which % 4] = x
        b = g.PointRelative(q[0], q[1], g.Point(q[2], q[3]))
    elif kind == 'PointCalc':
        g = v.m.geom
        q = [a.base.dx, a.base.dy] + list(a.base.base.xy()) + [a.scale]
        q[which % 5] = x
        b = g.PointCalc(g.PointRelative(q[0], q[1], g.Point(q[2], q[3])), q[4])
    elif kind == 'VectorRelative':
        g = v.m.geom
        q = v.reals('r0 r1 r2 r3')
        a = g.VectorRelative(g.Point(q[0], q[1]), g.Point(q[2], q[3]))
        ca = tuple(q)
        q = list(q)
        q[which % 4] = x
        b = g.VectorRelative(g.Point(q[0], q[1]), g.Point(q[2], q[3]))
        relative = tuple(q)
    elif kind == 'BBox':
        b[which % 4] = x
    elif kind == 'ControlPoint':
        o = (b.c, b.dl, b.dr)[which % 3]
        p = list(o.xy())
        p[which // 3 % 2] = x
        o.setxy(*p)
    elif kind == 'Matrix':
        b.ndmat[which // 3, which % 3] = x
    else:
        e = list(a.as_6tuple())
        e[which % 6] = x
        b = v.m.transform.Transform(tuple(e))
    cb = components(b) if kind != 'VectorRelative' else relative
    if not v.symbolic and v.flag('force equal'):
        b, cb = a.copy(), ca
    want = v.and_(*[p == q for p, q in zip(ca, cb)])
    r = a == b
    v.check('equal exactly when all components are', v.iff(r, want))
    v.check('symmetric', v.iff(b == a, want))
    v.check('!= is the negation', v.iff(a != b, v.not_(want)))


@lemma('C04', 'Point.__eq__ BasePoint.__eq__ PointRelative.__eq__ PointCalc.__eq__ ControlPoint.__eq__')
def equality_of_names_and_kinds(v):
    g, B = v.m.geom, v.m.bezier
    x, y = v.reals('x y')
    n1, n2 = v.choice('name 1', [None, 'a', 'b']), v.choice('name 2', [None, 'a', 'b'])
    P = g.Point
    base = g.PointRelative(x, y, P(1, 2))
    for mk in (lambda n: P(x, y, n), lambda n: g.PointRelative(x, y, P(1, 2), n), lambda n: g.PointCalc(base, x, n),
               lambda n: g.PointRelative(x, y, P(1, 2, n))):
        v.check('names compared', (mk(n1) == mk(n2)) == (n1 == n2))
    k1, k2 = v.choice('kind 1', ['smooth', 'very-smooth', 'sharp']), v.choice('kind 2', ['smooth', 'very-smooth', 'sharp'])
    mk = lambda k: B.ControlPoint(P(x, y), g.Vector(y, x), g.Vector(x, x), k)
    v.check('kinds compared', (mk(k1) == mk(k2)) == (k1 == k2))


@lemma('C04', 'Point.__eq__ Vector.__eq__ BBox.__eq__ ControlPoint.__eq__ Matrix.__eq__ Transform.__eq__ Line.__eq__')
def different_types_differ(v):
    g, B, T = v.m.geom, v.m.bezier, v.m.transform
    x, y = v.reals('x y')
    vals = [g.Point(x, y), g.PointRelative(x, y, g.Point(0, 0)), g.PointCalc(g.PointRelative(x, y, g.Point(0, 0)), 1),
            g.Vector(x, y), g.VectorRelative(g.Point(x, y), g.Point(0, 0)), g.BBox(x, y, x, y),
            B.ControlPoint(g.Point(x, y), g.Vector(x, y), g.Vector(x, y)), T.Matrix(((x, y, x), (y, x, y), (0, 0, 1))),
            T.Transform((x, y, x, y, x, y)), g.Line(g.Point(x, y), g.Vector(x, y)), (x, y), None, 1]
    i, j = v.choice('i', list(range(10))), v.choice('j', list(range(13)))
    if i != j:
        v.check('%s is not %s' % (type(vals[i]).__name__, type(vals[j]).__name__), not (vals[i] == vals[j]))
        v.check('different', vals[i] != vals[j])


@lemma('C04', 'Point.round Vector.round ControlPoint.round BBox.__round__', bound='seeded random values', sym=False, fuzz=250)
def round_to_enough_digits(v):
    """every component rounded, and a new object whatever the digits"""
    g, B = v.m.geom, v.m.bezier
    kind = v.choice('kind', ['Point', 'Vector', 'ControlPoint', 'BBox'])
    a = mk_value(v, kind)
    n = v.choice('digits', [25, 25, 12, 3, 1, 0, -1, -3])
    whole = obs(a)
    b = round(a, n) if kind == 'BBox' or kind != 'ControlPoint' and v.flag('builtin') else a.round(n)
    v.check('same kind', type(a) is type(b))
    v.eq('original as it was', obs(a), whole)
    nums = lambda o: [o.xl, o.yl, o.xh, o.yh] if kind == 'BBox' else list(o.c.xy() + o.dl.xy() + o.dr.xy()) if kind == 'ControlPoint' else list(o.xy())
    v.check('every component rounded', nums(b) == [round(q, n) for q in nums(a)])
    if n == 25:
        v.check('equal', a == b)
        v.eq('absolute', obs(b), whole)
    x, y, orig = b, a, nums(b)
    if v.flag('change the original'):
        x, y, orig = a, b, nums(a)
    whole = obs(y)
    v.choice('mutator', mutators(v, kind))(x)
    v.eq('the other one as it was', obs(y), whole)


# =============================================================== C08
@lemma('C08', 'polygon_area', bound='up to 5 vertices')
def shoelace(v):
    g = v.m.geom
    n = v.choice('n', [2, 3, 4, 5])
    pts = [mk_point(v, 'p%d' % i, ('Point',) if i else ('Point', 'PointRelative', 'PointCalc')) for i in range(n)]
    P = [p for p, _ in pts]
    C = [c for _, c in pts]
    before = obs(P)

    def area(c):
        return sum(c[i][0] * c[(i + 1) % len(c)][1] - c[i][1] * c[(i + 1) % len(c)][0] for i in range(len(c))) / 2
    A = g.polygon_area(P)
    v.eq('shoelace', A, area(C))
    k = v.choice('start', list(range(n)))
    v.eq('starting vertex', g.polygon_area(P[k:] + P[:k]), A)
    v.eq('reversed', g.polygon_area(P[::-1]), -A)
    dx, dy = v.reals('dx dy')
    v.eq('translated', g.polygon_area([p + g.Vector(dx, dy) for p in P]), A)
    a, b, c, d = v.reals('a b c d')
    v.eq('linear map', g.polygon_area([g.Point(a * x + b * y, c * x + d * y) for x, y in C]), (a * d - b * c) * A)
    unchanged(v, 'points', before, P)
    v.check('list', len(P) == n)


@lemma('C08', 'polygon_area', bound='2 to 60 vertices, seeded random', sym=False, fuzz=60)
def shoelace_long(v):
    g = v.m.geom
    n = v.choice('n', [2, 3, 7, 12, 13, 30, 60])
    C = [tuple(v.reals('x%d y%d' % (i, i))) for i in range(n)]
    want = sum(C[i][0] * C[(i + 1) % n][1] - C[i][1] * C[(i + 1) % n][0] for i in range(n)) / 2
    v.eq('shoelace', g.polygon_area([g.Point(*p) for p in C]), want)
    v.eq('reversed', g.polygon_area([g.Point(*p) for p in C[::-1]]), -want)


@lemma('C08', 'polygon_area', budget=40)
def shoelace_any_length(v):
    """any number of vertices; the other clauses follow from the definition by re-indexing the sum"""
    g = v.m.geom
    S = v.seq('p', lambda v, n: mk_point(v, n, ('Point',)), minlen=2)
    before = obs(S.list)
    A = g.polygon_area(S.list)

    def term(i):
        (x, y), (p, q) = S.at(i), S.cyc(i + 1)
        return x * q - y * p
    v.num_eq('shoelace', 2 * A, v.sum(S.n, term))
    unchanged(v, 'points', before, S.list)


@lemma('C08', 'polygon_area')
def orientation(v):
    """a counterclockwise triangle has positive area"""
    g = v.m.geom
    ax, ay, bx, by, cx, cy = v.reals('ax ay bx by cx cy')
    ccw = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
    P = [g.Point(ax, ay), g.Point(bx, by), g.Point(cx, cy)]
    A = g.polygon_area(P)
    v.check('sign', v.iff(A > 0, ccw > 0))
    v.check('zero', v.iff(A == 0, ccw == 0))


# =============================================================== C24
COLORS = [None, 'red', '', (1, 2, 3), (0, 0, 0, 0), 7]


@lemma('C24', 'PenBrush.__init__ PenBrush.filled PenBrush.stroked PenBrush.fill_color PenBrush.stroke_color Pen.__init__ Brush.__init__')
def penbrush_construction(v):
    C = v.m.colors
    w = v.real('w')
    pk = v.choice('pen', ['none', 'pen', 'pen of brush', 'colour', 'colour tuple', 'rgba', 'pair', 'zero', 'pair zero', 'pen zero'])
    bk = v.choice('brush', ['none', 'default', 'brush', 'colour', 'pair colour', 'rgba', 'zero', 'empty', 'transparent', 'brush zero'])
    pen_obj = C.Pen('green', w)
    shared = C.Brush('blue')
    pen = {'none': None, 'pen': pen_obj, 'pen of brush': C.Pen(shared, w), 'colour': 'red', 'colour tuple': (1, 2, 3),
           'rgba': (1, 2, 3, 4), 'pair': ('cyan', w), 'zero': 0, 'pair zero': (0, w), 'pen zero': C.Pen(0, w)}[pk]
    brush = {'none': None, 'default': None, 'brush': shared, 'colour': 'pink', 'pair colour': (5, 6), 'rgba': (0, 0, 0, 0),
             'zero': 0, 'empty': '', 'transparent': C.TRANSPARENT, 'brush zero': C.Brush(0)}[bk]
    p = C.PenBrush(pen) if bk == 'default' else C.PenBrush(pen, brush)
    if pk == 'none':
        v.check('no pen', p.pen is None)
    else:
        v.check_type('pen', p.pen, C.Pen)
        col = {'pen': 'green', 'pen of brush': 'blue', 'pair': 'cyan', 'pair zero': 0, 'pen zero': 0}.get(pk, pen)
        v.check('pen colour', p.pen.brush.color == col)
        v.check_type('brush of the pen', p.pen.brush, C.Brush)
        v.eq('pen width', p.pen.width, w if pk in ('pen', 'pair', 'pen of brush', 'pair zero', 'pen zero') else 0)
        v.check('stroke colour', p.stroke_color == col)
    if bk in ('none', 'default'):
        v.check('no brush', p.brush is None)
    else:
        v.check_type('brush', p.brush, C.Brush)
        col = {'brush': 'blue', 'brush zero': 0}.get(bk, brush)
        v.check('brush colour', p.brush.color == col)
        v.check('fill colour', p.fill_color == col)
    v.check('stroked', p.stroked is (pk != 'none'))
    v.check('filled', p.filled is (bk not in ('none', 'default')))
    if pk == 'none':
        v.check('stroke colour None', p.stroke_color is None)
        m, e = mk_xform(v, 'm')
        v.check('stroke width None', p.stroke_width(m) is None)
    if bk in ('none', 'default'):
        v.check('fill colour None', p.fill_color is None)


@lemma('C24', 'PenBrush.stroke_width Transformer.transform_width Transform.transform_width')
def stroke_width(v):
    C = v.m.colors
    w = v.real('w')
    m, e = mk_xform(v, 'm')
    p = C.PenBrush(('red', w), v.choice('brush', [None, 'blue']))
    r = p.stroke_width(m)
    if w > 0:
        v.eq('own width', r, w)
    else:
        v.eq('scaled width', r, -w * (v.hypot(e[0], e[3]) + v.hypot(e[1], e[4])) / 2)
    v.eq('matrix', m.as_6tuple(), e)
    v.eq('pen', p.pen.width, w)
    sx, sy = v.reals('sx sy')
    m.scale(sx, sy)                             # the same transform, changed
    r = p.stroke_width(m)
    if w > 0:
        v.eq('own width still', r, w)
    else:
        v.eq('width under the changed transform', r, -w * (v.hypot(e[0] * sx, e[3] * sy) + v.hypot(e[1] * sx, e[4] * sy)) / 2)


@lemma('C24', 'Pen.__eq__ Brush.__eq__ PenBrush.__eq__')
def pen_equality(v):
    C = v.m.colors
    cols = ['red', 'blue', (1, 2, 3), None]
    w, x = v.reals('w x')
    a, b = v.choice('colour 1', cols), v.choice('colour 2', cols)
    v.check('brushes', (C.Brush(a) == C.Brush(b)) == (a == b))
    same = v.and_(a == b, w == x)
    v.check('pens', v.iff(C.Pen(a, w) == C.Pen(b, x), same))
    c, d = v.choice('brush 1', [None, 'red', 'pink']), v.choice('brush 2', [None, 'red', 'pink'])
    v.check('penbrushes', v.iff(C.PenBrush((a, w), c) == C.PenBrush((b, x), d), v.and_(same, c == d)))
    v.check('pen present', not (C.PenBrush(None, c) == C.PenBrush((a, w), c)))
    v.check('types', not (C.Brush(a) == C.Pen(a)) and not (C.PenBrush(None) == None) and not (C.Pen(a) == C.PenBrush(a)))


@lemma('C24', 'PenBrush.replace Pen.replace')
def replace(v):
    C = v.m.colors
    w, x = v.reals('w x')
    p = C.PenBrush(v.choice('pen', [None, ('red', w)]), v.choice('brush', [None, 'blue', 'red']))
    pen0, brush0 = p.pen, p.brush
    pen = C.Pen(v.choice('new pen', ['green', 'red']), x)
    brush = C.Brush(v.choice('new brush', ['pink', 'red']))
    what = v.choice('what', ['nothing', 'pen', 'width', 'brush', 'pen brush', 'width brush', 'both'])
    if what == 'both':
        v.raises('pen and width', ValueError, p.replace, pen=pen, width=x)
        q = p.replace()
    else:
        kw = {'pen': pen, 'width': x, 'brush': brush}
        q = p.replace(**{k: kw[k] for k in what.split() if k in kw})
    v.check('new value', q is not p and type(q) is C.PenBrush)
    if 'pen' in what:
        v.check('the given pen', q.pen == pen)
    elif 'width' in what and pen0 is not None:
        v.check('colour kept', q.pen.brush.color == 'red')
        v.eq('given width', q.pen.width, x)
    elif pen0 is None:
        v.check('still no pen', q.pen is None)
    else:
        v.check('pen kept', q.pen == C.Pen('red', w))
    if 'brush' in what:
        v.check('the given brush', q.brush == brush)
    else:
        v.check('brush kept', q.brush == brush0)
    v.check('original unchanged', p.pen is pen0 and p.brush is brush0)
    if pen0 is not None:
        v.eq('pen unchanged', (pen0.width, pen0.brush.color), (w, 'red'))
    # Pen.replace
    b = C.Pen('red', w)
    r = b.replace(brush=C.Brush('cyan')) if v.flag('pen brush') else b.replace()
    v.eq('width kept', r.width, w)
    r2 = b.replace(width=x)
    v.eq('width given', r2.width, x)
    v.check('colours', r2.brush.color == 'red' and r.brush.color in ('red', 'cyan'))
    v.check('pen itself', b.brush.color == 'red' and r is not b)
    v.eq('pen itself', b.width, w)


KINDS5 = ['edge', 'filled', 'clear', 'edge_filled', 'edge_clear']


@lemma('C24', 'PensByShape.__init__ PensByShape.__getitem__ PensByShape.keys PensByShape.replace_width ColorsByShape.__getitem__ ColorsByShape.keys Colors.__init__ Colors.filled')
def by_shape_lookup(v):
    C = v.m.colors
    k = v.choice('kind', KINDS5)
    v.check('keys', list(C.PensByShape.keys()) == KINDS5 and list(C.ColorsByShape.keys()) == KINDS5)
    given = {n: C.PenBrush(('c_' + n, 3), None) for n in KINDS5 if v.choice('given ' + n, [True, False])} \
        if v.flag('some') else {}
    if not v.symbolic:
        for n in given:
            q = v.special('pen ' + n, FILLED, 0.5)
            given[n] = C.PenBrush(*q) if q else given[n]
    P = C.PensByShape(**given)
    if k in given:
        v.same('given pen', P[k], given[k])
    else:
        v.check('default pen', P[k] == C.PenBrush(C.Pen('black', 1), None))
    x = v.real('x')
    before = obs(P[k])
    R = P.replace_width(x)
    if P[k].pen:
        v.eq('new width', R[k].pen.width, x)
        v.check('same colour', R[k].pen.brush.color == P[k].pen.brush.color)
    else:
        v.check('no pen', R[k].pen is None)
    v.check('same fill', R[k].brush == P[k].brush)
    unchanged(v, 'old pen', before, P[k])
    cs = {n: C.Colors('o_' + n, 'f_' + n) for n in KINDS5}
    S = C.ColorsByShape(**cs)
    v.same('colours', S[k], cs[k])
    bad = v.choice('bad', ['', 'edges', 'make', 'keys', '__class__', 'Edge', None, 0])
    v.raises('unknown pen kind', ValueError, lambda: P[bad])
    v.raises('unknown colour kind', ValueError, lambda: S[bad])


@lemma('C24', 'PensByShape.make ColorsByShape.make Colors.__init__ Colors.filled')
def by_shape_make(v):
    C = v.m.colors
    w = v.real('w')
    draft = v.flag('draft')
    k = v.choice('kind', KINDS5)
    if v.flag('defaults'):
        P, S = C.PensByShape.make(draft), C.ColorsByShape.make(draft)
        color, fill, transp, w = 'white', (0, 0, 0, 0), (0, 0, 0, 0), 0
    else:
        color, fill, transp = 'red', 'green', (9, 9, 9, 0)
        if not v.symbolic:
            color, fill, transp = v.special('colours', [('red', (0, 0, 0, 0), (0, 0, 0, 0)), ('red', 'red', 'red'), (0, 0, 0), ((1, 2, 3), 'red', (0, 0, 0, 0)),
                                                        ('red', (1, 2, 3, 0), (0, 0, 0, 0)), ((0, 0, 0, 0), 'red', 'red')], 0.5) or (color, fill, transp)
        P = C.PensByShape.make(draft, color, fill, transp, w)
        S = C.ColorsByShape.make(draft, color, fill, transp)
    p, c = P[k], S[k]
    pen, brush = dict(edge=(color, None), filled=(None, color), clear=(None, transp), edge_filled=(color, fill),
                      edge_clear=(color, transp))[k] if not draft else (color, None)
    if pen is None:
        v.check('no pen', p.pen is None)
    else:
        v.check('pen colour', p.pen.brush.color == pen)
        v.eq('pen width', p.pen.width, 0 if draft else w)
    if brush is None:
        v.check('no brush', p.brush is None)
    else:
        v.check('brush colour', p.brush.color == brush)
    v.check('outline', c.outline == pen and c.fill == brush)
    if brush != 0:
        v.check('filled colours', c.filled is (brush is not None))
    nc = C.Colors(C.NOCOLOR, C.NOCOLOR)
    v.check('no colour', nc.outline is None and nc.fill is None and not nc.filled)
