"""C18 transform of elements."""
from common import *
from bezier_spec import mk_cp, cp_pts


# ------------------------------------------------------------------ builders
def ctx(v, matrix=None, steps=None, **kw):
    """a drawing context on a small image"""
    from PIL import Image
    dc = v.m.drawing.DrawingContext(Image.new('RGBA', (2, 2)), matrix, **kw)
    if steps:
        dc.points_per_curve = steps
    return dc


def mk_lin(v, n, kinds=('general', 'axis', 'swap', 'identity'), zeros=(None, 0, 1, 2, 3)):
    """an invertible transform, its entries well away from the rounding threshold or exactly zero"""
    T = v.m.transform.Transform
    k = v.choice(n + ' kind', list(kinds)) if len(kinds) > 1 else kinds[0]
    if k == 'identity':
        return T(), (1, 0, 0, 0, 1, 0), k
    c, f = v.reals('%s.c %s.f' % (n, n))
    if k == 'general':
        a, b, d, e = v.reals(' '.join('%s.%s' % (n, q) for q in 'abde'))
        z = v.choice(n + ' zero', list(zeros))
        a, b, d, e = [0 if i == z else x for i, x in enumerate((a, b, d, e))]
        det = a * e - b * d
    else:
        # signs enumerated, magnitudes symbolic
        p, q = [v.choice('%s.sign%d' % (n, i), [1, -1]) * v.real('%s.m%d' % (n, i), pos=True) for i in (0, 1)]
        a, b, d, e = (p, 0, 0, q) if k == 'axis' else (0, p, q, 0)
        det = p * q
    if k != 'general':
        v.assume(v.and_(*[v.abs(x) >= 1e-16 for x in (a, b, d, e) if not (isinstance(x, int) and x == 0)]))
        v.generic(all(abs(x) > 0.05 for x in (a, b, d, e) if x != 0 or isinstance(x, float)))
    v.assume(det != 0)
    v.generic(abs(det) > 0.05)
    t = (a, b, c, d, e, f)
    return T(t), t, k


def no_rounding(v, t):
    """entries of a product: exactly zero or at least the rounding threshold (1e-16) away from it"""
    for x in t[:2] + t[3:5]:
        if isinstance(x, int) and x == 0:
            continue
        if v.symbolic:
            v.assume(v.abs(x) >= 1e-16)
        else:
            v.generic(x == 0 or abs(x) > 1e-3)


def few_steps(v):
    """symbolic runs draw 2 instead of 20 steps per curve: bez_path is under its own contract (C16) for every count"""
    if v.symbolic and hasattr(v.m.model, 'bez_path'):
        M, B = v.m.model, v.m.bezier
        M.bez_path = lambda t, cps, closed, steps=20: B.bez_path(t, cps, closed, steps=2)


UNFILLED = [('black',), ('black', None), (None, None), (('blue', 0),), (('red', -0.12345),), (((1, 2, 3), 2.5),), ((9, 8, 7, 255), None),
            (0,), (('#123456', 1),), (('é', 40),)]
FILLED = UNFILLED + [('red', 'red'), (None, 'red'), ((0, 0, 0, 0), (0, 0, 0, 0)), ('blue', (0, 0, 0, 0)), (('red', -2.5), (1, 2, 3)), (('blue', 1), 0),
                     (0, 0), (None, (0, 0, 0, 0)), (('blue', 3), 'blue')]


def pen(v, fill=True):
    """a pen that closed elements (fill) or all elements may have"""
    C = v.m.colors
    if not v.symbolic:
        v.pens = getattr(v, 'pens', 0) + 1
        p = v.special('pen#%d' % v.pens, FILLED if fill else UNFILLED, 0.4)
        if p is not None:
            return C.PenBrush(*p)
    return C.PenBrush(('blue', 3), 'red') if fill else C.PenBrush(('blue', 3))


def mk_el(v, n, kind, xf=None, k=2, closed=True, fill=None, corner='any'):
    """an element of the given kind with symbolic geometry"""
    M, g = v.m.model, v.m.geom
    fill = closed if fill is None else fill
    if kind == 'curve':
        cps = [mk_cp(v, '%s%d' % (n, i), ('smooth', 'sharp', 'very-smooth')[i % 3])[0] for i in range(k)]
        return M.ElemCurve(n, pen(v, fill), cps, closed, xf)
    p1 = pt(v, n + '.p1')
    if corner == 'any':
        p2 = pt(v, n + '.p2')
    else:
        sx, sy = [v.choice('%s.s%s' % (n, a), [1, -1]) for a in 'xy'] if corner == 'signs' else (1, 1)
        p2 = p1 + g.Vector(sx * v.real(n + '.w', nonneg=True), sy * v.real(n + '.h', nonneg=True))
    if kind == 'rect':
        return M.ElemRectangle(n, pen(v, fill), p1, p2, xform=xf)
    if kind == 'ellipse':
        return M.ElemEllipse(n, pen(v, fill), p1, p2, xform=xf)
    r = v.real(n + '.r', nonneg=True)
    return M.ElemRectangleRounded(n, pen(v, fill), p1, p2, r, xform=xf)


def pts_of(paths):
    return [p.points.tolist() for p in paths]


def same_drawing(v, label, got, want, ordered=True):
    v.check(label + ': number of paths', len(got) == len(want))
    for a, b in zip(got, want):
        v.eq(label + ': pen', obs(a.penbrush), obs(b.penbrush))
        v.check(label + ': closed', bool(a.closed) == bool(b.closed))
        if ordered:
            v.eq(label + ': points', a.points.tolist(), b.points.tolist())
        else:
            v.same_set(label + ': points', a.points.tolist(), b.points.tolist())


def check_transform(v, e, m, mt, D, Dt, steps=2, ordered=True, cls=None):
    """drawing e.transform(m) is drawing e under D after m; e and m unchanged"""
    T = v.m.transform.Transform
    few_steps(v)
    before = obs(e)
    t = e.transform(m)
    v.check_type('kind', t, cls or type(e))
    v.check('a new element', t is not e)
    v.check('name', t.name == e.name)
    v.eq('pen', obs(t.penbrush), obs(e.penbrush))
    v.check('closed', bool(t.closed) == bool(e.closed))
    unchanged(v, 'element', before, e)
    v.eq('matrix', m.as_6tuple(), mt)
    v.raises('nothing left pushed', v.m.transform.EmptyStackError, m.pop)
    got = t.paths(ctx(v, T(Dt), steps))
    want = e.paths(ctx(v, T(compose6(Dt, mt)), steps))
    same_drawing(v, 'outline', got, want, ordered)
    return t


# =============================================================== C18
@lemma('C18', 'ElemCurve.transform ElemCurve.paths Elem.draw_space ElemCurve.control_points_transformed',
       bound='1 to 3 control points, 2 steps per curve', budget=60)
def curve_transform(v):
    D, Dt = mk_xform(v, 'D')
    m, mt = mk_xform(v, 'm', invertible=True)
    X, Xt = mk_xform(v, 'X')
    closed = v.flag('closed')
    e = mk_el(v, 'e', 'curve', X, v.choice('points', [1, 2, 3]), closed)
    t = check_transform(v, e, m, mt, D, Dt)
    full = compose6(compose6(mt, Xt), (1, 0, 0, 0, 1, 0))
    for a, b in zip(t.control_points, e.control_points):
        v.eq('control points', cp_pts(a.transform(t.xform)), tuple(apply6(full, *q) for q in cp_pts(b)))
        v.check('kind', a.kind == b.kind)


@lemma('C18', 'ElemCurve.transform ElemCurve.paths', budget=60)
def curve_transform_any_length(v):
    """symbolic number of control points: every control point is mapped by m after the own transform, and the outline drawn
    under any outer matrix is that of the original under the product"""
    T, M = v.m.transform.Transform, v.m.model
    few_steps(v)
    D, Dt = mk_xform(v, 'D')
    m, mt = mk_xform(v, 'm', invertible=True)
    X, Xt = mk_xform(v, 'X')
    kind = v.choice('kind', ['smooth', 'sharp', 'very-smooth'])
    closed = v.flag('closed')

    def mk(v, n):
        cp, c = mk_cp(v, n, kind)
        return cp, (cp, c, obs(cp))
    S = v.seq('cps', mk, 1)
    e = M.ElemCurve('e', pen(v, closed), S.list, closed, X)
    t = e.transform(m)
    v.check_type('kind', t, M.ElemCurve)
    v.check('a new element', t is not e)
    v.check('name', t.name == e.name)
    v.eq('pen', obs(t.penbrush), obs(e.penbrush))
    v.check('closed', bool(t.closed) == closed)

    def each(i, q):
        cp, c, before = S.at(i)
        full = compose6(mt, Xt)
        v.eq('control point', cp_pts(q.transform(t.xform)), tuple(apply6(full, *p) for p in c))
        v.check('kind', q.kind == cp.kind)
        unchanged(v, 'original control point', before, cp)
    v.each('control points', t.control_points, S.n, each)
    v.eq('own transform', e.xform.as_6tuple(), Xt)
    v.eq('matrix', m.as_6tuple(), mt)
    v.raises('nothing left pushed', v.m.transform.EmptyStackError, m.pop)
    got = t.paths(ctx(v, T(Dt), 2))
    want = e.paths(ctx(v, T(compose6(Dt, mt)), 2))
    same_drawing(v, 'outline', got, want)


BOXF = 'ElemP1P2.transform ElemP1P2.transform_pts ElemRectangle.paths ElemEllipse.paths Transform.simplify'


@lemma('C18', BOXF, budget=60)
def rect_transform_general(v):
    """rectangles, product of m and the own transform not axis-parallel, any outer matrix"""
    D, Dt = mk_xform(v, 'D')
    m, mt, mk = mk_lin(v, 'm', ('general', 'axis'))
    X, Xt, xk = mk_lin(v, 'X', ('general', 'swap', 'identity'))
    v.assume('general' in (mk, xk))
    no_rounding(v, compose6(mt, Xt))
    e = mk_el(v, 'e', 'rect', X)
    check_transform(v, e, m, mt, D, Dt, ordered=False)


@lemma('C18', BOXF, budget=60)
def ellipse_transform_general(v):
    m, mt, mk = mk_lin(v, 'm', ('general', 'identity'))
    X, Xt, xk = mk_lin(v, 'X', ('general', 'identity', 'axis'))
    v.assume((mk == 'general') != (xk == 'general') or not v.symbolic)
    no_rounding(v, compose6(mt, Xt))
    e = mk_el(v, 'e', 'ellipse', X, corner='signs')
    check_transform(v, e, m, mt, None, (1, 0, 0, 0, 1, 0), ordered=False)


@lemma('C18', BOXF, budget=90)
def box_transform_axis(v):
    """axis-parallel products: scaling, reflection, quarter turns"""
    kind = v.choice('elem', ['rect', 'ellipse'])
    D, Dt = mk_xform(v, 'D', kind='general' if kind == 'rect' else 'simple')
    m, mt, mk = mk_lin(v, 'm', ('axis', 'swap', 'identity'))
    X, Xt, xk = mk_lin(v, 'X', ('axis', 'swap', 'identity'))
    if kind == 'ellipse':
        v.assume(not v.symbolic or 'identity' in (mk, xk))
    no_rounding(v, compose6(mt, Xt))
    e = mk_el(v, 'e', kind, X, corner='any' if kind == 'rect' else 'up')
    check_transform(v, e, m, mt, D, Dt, ordered=False)


@lemma('C18', 'ElemRectangleRounded.transform ElemP1P2.transform_pts ElemRectangleRounded.paths make_rounded_rect_cps', budget=120)
def rounded_transform(v):
    m, mt, mk = mk_lin(v, 'm', ('general',), (None, 0, 3))
    X, Xt, xk = mk_lin(v, 'X', ('axis', 'identity'))
    p = compose6(mt, Xt)
    no_rounding(v, p)
    # axes that stay on axes: rounded_transform_uniform
    v.generic((p[0] or p[4]) and (p[1] or p[3]))
    e = mk_el(v, 'e', 'rounded', X, corner='up' if xk == 'axis' else 'signs')
    check_transform(v, e, m, mt, None, (1, 0, 0, 0, 1, 0), ordered=False)


@lemma('C18', 'ElemRectangleRounded.transform', budget=120, fuzz=600)
def rounded_transform_uniform(v):
    """axis-parallel with the same scale in both directions"""
    T = v.m.transform.Transform
    s, c, f = v.real('s', pos=True), *v.reals('c f')
    v.assume(s >= 1e-16)
    v.generic(s > 1e-2)
    sx, sy = v.choice('sx', [1, -1]), v.choice('sy', [1, -1])
    mt = (0, s * sx, c, s * sy, 0, f) if v.flag('swap') else (s * sx, 0, c, 0, s * sy, f)
    xt = v.choice('own', [(1, 0, 0, 0, 1, 0), (0, -1, 0, 1, 0, 0)])
    e = mk_el(v, 'e', 'rounded', T(xt), corner='signs' if xt[0] else 'up')
    check_transform(v, e, T(mt), mt, None, (1, 0, 0, 0, 1, 0), ordered=False)


@lemma('C18', 'Group.transform Group.paths', bound='two members, one of them a group', budget=60)
def group_transform(v):
    T, M, C = v.m.transform.Transform, v.m.model, v.m.colors
    D, Dt = mk_xform(v, 'D', kind='simple')
    m, mt = mk_xform(v, 'm', invertible=True)
    X, Xt = mk_xform(v, 'X')
    Y, Yt = mk_xform(v, 'Y', kind='simple')
    hid = v.choice('hidden', ['none', 'outer', 'inner'])
    inner = M.Group('inner', C.PenBrush('black'), hid == 'inner', Y, [mk_el(v, 'c', 'curve', None, 1)])
    outer = M.Group('outer', C.PenBrush('black'), hid == 'outer', X, [inner] if v.flag('alone') else [mk_el(v, 'r', 'rect'), inner])
    if v.flag('named point'):
        outer.add_pt('p', pt(v, 'gp'))
    t = check_transform(v, outer, m, mt, D, Dt)
    v.check('hidden', bool(t.hidden) == bool(outer.hidden))
    v.check('members', list(t.elems) == list(outer.elems) and list(t.points) == list(outer.points))
    t.xform.translate(1, 1)
    v.eq('own transform not shared', outer.xform.as_6tuple(), Xt)


@lemma('C18', 'ElemWithHoles.transform ElemWithHoles.paths', bound='one hole', budget=60)
def holes_transform(v):
    M = v.m.model
    D, Dt = mk_xform(v, 'D', kind='simple')
    m, mt = mk_xform(v, 'm', invertible=True)
    X, Xt = mk_xform(v, 'X')
    Y, Yt = mk_xform(v, 'Y', kind='simple')
    out = mk_el(v, 'o', v.choice('outside', ['curve', 'rect']), Y, 1)
    ins = [mk_el(v, 'i', 'rect')]
    fill = v.flag('fill')
    closed = fill or v.flag('closed')
    e = M.ElemWithHoles('e', pen(v, fill), out, ins, closed, X)
    t = check_transform(v, e, m, mt, D, Dt)
    v.check('closedness kept', (e.closed, t.closed) == (closed, closed))
    t.xform.translate(1, 1)
    t.outside.xform.translate(1, 1)
    t.inside[0].p1.setxy(77, 78)
    v.eq('own transform not shared', e.xform.as_6tuple(), Xt)
    v.eq('outside not shared', out.xform.as_6tuple(), Yt)
    v.check('holes not shared', ins[0].p1 is not t.inside[0].p1)
