"""C19 bounding boxes, C20 copies, C21 traversal, C22 group names."""
import numpy as np
from common import *
from bezier_spec import mk_cp, cp_pts, bern, seg
from model_spec import ctx, few_steps, mk_el, pen, same_drawing, pts_of

ID = (1, 0, 0, 0, 1, 0)
KINDS = ('curve', 'rect', 'ellipse', 'rounded')


def signed_xform(v, n, kinds=('general', 'axis')):
    """an affine map whose four linear entries have an enumerated sign and any magnitude"""
    T = v.m.transform.Transform
    a, b, d, e = [v.choice('%s.sign %s' % (n, k), [1, -1]) * v.real('%s.%s' % (n, k), nonneg=True) for k in 'abde']
    c, f = v.reals('%s.c %s.f' % (n, n))
    t = (a, b, c, d, e, f)
    return T(t), t


def inside(v, label, p, box, strict=False):
    xl, yl, xh, yh = box
    v.le(label + ': left', xl, p[0])
    v.le(label + ': right', p[0], xh)
    v.le(label + ': below', yl, p[1])
    v.le(label + ': above', p[1], yh)


def box4(b):
    return b.xl, b.yl, b.xh, b.yh


# =============================================================== C19
@lemma('C19', 'Elem.bbox Elem.center', budget=60)
def box_of_mapped_box(v):
    """bbox encloses the image, under the own transform, of every point of the internal box, and no smaller box does"""
    M, g = v.m.model, v.m.geom
    X, Xt = signed_xform(v, 'X')
    bi, (xl, yl, xh, yh) = mk_bbox(v, 'b')

    class E(M.ElemRectangle):
        def bbox_int(self):
            return bi
    e = E('e', pen(v), g.Point(0, 0), g.Point(1, 1), xform=X)
    before = obs(bi)
    b = e.bbox()
    s, u = v.real('s', lo=0, hi=1), v.real('u', lo=0, hi=1)
    w, h = xh - xl, yh - yl
    c = [apply6(Xt, x, y) for x in (xl, xh) for y in (yl, yh)]
    v.eq('smallest box of the four mapped corners', box4(b), (
        v.min(*[p[0] for p in c]), v.min(*[p[1] for p in c]), v.max(*[p[0] for p in c]), v.max(*[p[1] for p in c])))
    # point of the box, by bilinear coordinates
    a1, b1, c1, d1, e1, f1 = Xt
    q = apply6(Xt, xl + s * w, yl + u * h)
    if v.symbolic:
        for k in (a1, d1):
            for z in (s, 1 - s):
                v.lemma('aux', v.or_(v.and_(k >= 0, k * w * z >= 0), v.and_(k <= 0, k * w * z <= 0)))
        for k in (b1, e1):
            for z in (u, 1 - u):
                v.lemma('aux', v.or_(v.and_(k >= 0, k * h * z >= 0), v.and_(k <= 0, k * h * z <= 0)))
    inside(v, 'image of any inner point', q, box4(b))
    xy_eq(v, 'center', e.center(), ((b.xl + b.xh) / 2, (b.yl + b.yh) / 2))
    unchanged(v, 'internal box', before, bi)
    v.eq('own transform', e.xform.as_6tuple(), Xt)


@lemma('C19', 'ElemCurve.bbox_int ControlPoint.bbox', bound='1 to 3 control points', budget=60)
def curve_hull(v):
    """the curve between consecutive control points stays in the internal box (for every parameter)"""
    k = v.choice('points', [1, 2, 3])
    cps = [mk_cp(v, 'p%d' % i) for i in range(k)]
    M = v.m.model
    e = M.ElemCurve('e', pen(v), [c for c, _ in cps], True)
    before = obs(e)
    b = box4(e.bbox_int())
    allp = [p for _, c in cps for p in c]
    want = (v.min(*[p[0] for p in allp]), v.min(*[p[1] for p in allp]), v.max(*[p[0] for p in allp]), v.max(*[p[1] for p in allp]))
    v.eq('box of all points and handles', b, want)
    hull_lemma(v, seg(cps[0][1], cps[-1][1]), b)
    unchanged(v, 'element', before, e)


def hull_lemma(v, ps, b):
    """a Bezier curve whose four points lie in the box lies in the box"""
    t = v.real('t', lo=0, hi=1)
    for p in ps:
        inside(v, 'control polygon', p, b)
    if v.symbolic:
        s = 1 - t
        w = (s * s * s, 3 * s * s * t, 3 * s * t * t, t * t * t)
        ws = [v.real('w%d' % i, nonneg=True) for i in range(4)]     # ghost weights
        v.lemma('weights', v.and_(*[x >= 0 for x in w]))
        v.assume(v.and_(*[x == y for x, y in zip(ws, w)]))
        for ax in (0, 1):
            lo, hi = b[ax], b[ax + 2]
            for i in range(4):
                v.lemma('aux', ws[i] * (ps[i][ax] - lo) >= 0)
                v.lemma('aux', ws[i] * (hi - ps[i][ax]) >= 0)
            v.le('curve: low', 0, sum(ws[i] * (ps[i][ax] - lo) for i in range(4)))
            v.le('curve: high', 0, sum(ws[i] * (hi - ps[i][ax]) for i in range(4)))
            v.eq('the same', bern(ps, t)[ax] - lo, sum(w[i] * (ps[i][ax] - lo) for i in range(4)))
            v.eq('the same', hi - bern(ps, t)[ax], sum(w[i] * (hi - ps[i][ax]) for i in range(4)))
    else:
        inside(v, 'curve', bern(ps, t), b)


@lemma('C19', 'ElemP1P2.bbox_int ElemRectangle.make_control_points ElemEllipse.make_control_points '
       'ElemRectangleRounded.make_control_points make_rounded_rect_cps make_ellipse_cps', budget=60)
def box_hull(v):
    """every control point and handle of a box shape lies in its internal box, which is the box of its two corners"""
    kind = v.choice('kind', ['rect', 'ellipse', 'rounded'])
    e = mk_el(v, 'e', kind, corner='signs')
    before = obs(e)
    (x1, y1), (x2, y2) = e.p1.xy(), e.p2.xy()
    b = box4(e.bbox_int())
    v.eq('box of the two corners', b, (v.min(x1, x2), v.min(y1, y2), v.max(x1, x2), v.max(y1, y2)))
    cps = e.make_control_points()
    for cp in cps:
        for p in cp_pts(cp):
            inside(v, 'control polygon', p, b)
    xs = [cp.c.xy() for cp in cps]
    if kind != 'rounded':
        v.same_set('tight: x', [(p[0], 0) for p in xs if kind == 'rect'] or [(x, 0) for x in (b[0], b[2])],
                   [(b[0], 0), (b[2], 0)])
    unchanged(v, 'element', before, e)


@lemma('C19', 'Elem.bbox ElemRectangle.paths ElemEllipse.paths', budget=60)
def tight(v):
    """without rotation or skew the outline of a rectangle or an ellipse touches each side of its box"""
    T = v.m.transform.Transform
    kind = v.choice('kind', ['rect', 'ellipse'])
    a, e_ = [v.choice('sign %s' % k, [1, -1]) * v.real(k, nonneg=True) for k in 'ae']
    c, f = v.reals('c f')
    t = (0, a, c, e_, 0, f) if v.flag('swap') else (a, 0, c, 0, e_, f)
    e = mk_el(v, 'e', kind, T(t), corner='signs')
    few_steps(v)
    pts = e.paths(ctx(v, None, 2))[0].points.tolist()
    b = e.bbox()
    for i, ax in ((0, 0), (1, 1), (2, 0), (3, 1)):
        fn = v.min if i < 2 else v.max
        v.num_eq('side %d is reached' % i, fn(*[p[ax] for p in pts]), box4(b)[i])


@lemma('C19', 'Elem.bbox ElemCurve.paths ElemRectangle.paths ElemEllipse.paths ElemRectangleRounded.paths Group.paths '
       'ElemWithHoles.paths Group.bbox_int ElemWithHoles.bbox_int', bound='nested trees, seeded', sym=False, fuzz=1500)
def drawn_points_inside(v):
    T, M, C = v.m.transform.Transform, v.m.model, v.m.colors

    def tree(n, depth):
        k = v.choice(n + '?', list(KINDS) + (['group', 'holes'] if depth else []))
        X = mk_xform(v, n + 'X', kind=v.choice(n + 'xk', ['general', 'simple']))[0] if v.flag(n + 'own') else None
        if k == 'group':
            return M.Group(n, C.PenBrush('black'), False, X,
                           [tree('%s%d' % (n, i), depth - 1) for i in range(v.choice(n + 'members', [1, 2]))])
        if k == 'holes':
            out = tree(n + 'o', 0)
            bb = out.bbox()
            h = M.ElemRectangle(n + 'h', pen(v), bb.center, bb.center)
            return M.ElemWithHoles(n, pen(v, v.flag(n + 'fill')), out, [h] if v.flag(n + 'hole') else [], True, X)
        return mk_el(v, n, k, X, v.choice(n + 'k', [1, 2, 3]), True)
    e = tree('e', 2)
    before = obs(e)
    b = e.bbox()
    for p in e.paths(ctx(v)):
        for q in p.points.tolist():
            inside(v, 'outline', q, box4(b))
    xy_eq(v, 'center', e.center(), b.center.xy())
    unchanged(v, 'element', before, e)


@lemma('C19', 'Group.bbox_int Elem.bbox', bound='0 to 3 members', budget=60)
def group_box(v):
    """the union of the boxes of the members, whatever they are, then mapped"""
    T, M, C, g = v.m.transform.Transform, v.m.model, v.m.colors, v.m.geom
    n = v.choice('members', [0, 1, 2, 3])
    boxes = [mk_bbox(v, 'b%d' % i) for i in range(n)]

    class E(M.ElemRectangle):
        def bbox(self):
            return self.box
    es = []
    for i, (b, _) in enumerate(boxes):
        e = E('e%d' % i, pen(v), g.Point(0, 0), g.Point(1, 1))
        e.box = b
        if v.flag('inner group %d' % i):
            # a group around it, visible or not, has the same box
            e = M.Group('e%d' % i, C.PenBrush('black'), v.flag('hidden %d' % i), elems=[e])
        es.append(e)
    grp = M.Group('g', C.PenBrush('black'), False, None, es)
    if not n:
        v.raises('empty group', Exception, grp.bbox)
        return
    cs = [c for _, c in boxes]
    v.eq('smallest box enclosing the boxes of the members', box4(grp.bbox()), (
        v.min(*[c[0] for c in cs]), v.min(*[c[1] for c in cs]), v.max(*[c[2] for c in cs]), v.max(*[c[3] for c in cs])))


@lemma('C19', 'Group.bbox_int Elem.bbox', bound='two members', budget=60)
def group_box_mapped(v):
    """members mapped by their own and the group transform"""
    M, C = v.m.model, v.m.colors
    X, Xt = signed_xform(v, 'X')
    e = mk_el(v, 'e', 'rect', None, corner='up')
    f = mk_el(v, 'f', 'rect', None, corner='up')
    grp = M.Group('g', C.PenBrush('black'), False, X, [e, f])
    be, bf = box4(e.bbox()), box4(f.bbox())
    u = [v.min(be[0], bf[0]), v.min(be[1], bf[1]), v.max(be[2], bf[2]), v.max(be[3], bf[3])]
    c = [apply6(Xt, x, y) for x in (u[0], u[2]) for y in (u[1], u[3])]
    v.eq('box of the mapped corners', box4(grp.bbox()), (
        v.min(*[p[0] for p in c]), v.min(*[p[1] for p in c]), v.max(*[p[0] for p in c]), v.max(*[p[1] for p in c])))


@lemma('C19', 'ElemWithHoles.bbox_int Elem.bbox', budget=60)
def holes_box(v):
    """the box of the outside under its own transform, then the element's"""
    M = v.m.model
    X, Xt = signed_xform(v, 'X')
    Y, Yt = mk_xform(v, 'Y', kind='simple')
    out = mk_el(v, 'o', 'rect', Y, corner='up')
    e = M.ElemWithHoles('e', pen(v), out, [], True, X)
    bo = box4(out.bbox())
    c = [apply6(Xt, x, y) for x in (bo[0], bo[2]) for y in (bo[1], bo[3])]
    v.eq('box of the mapped corners', box4(e.bbox()), (
        v.min(*[p[0] for p in c]), v.min(*[p[1] for p in c]), v.max(*[p[0] for p in c]), v.max(*[p[1] for p in c])))


# =============================================================== C20
def edits(v, e, depth=2):
    """change everything that can be changed in place"""
    M, g = v.m.model, v.m.geom
    n = type(e).__name__
    e.name = 'edited'
    e.penbrush = v.m.colors.PenBrush('green', 'red' if e.closed and n not in ('ElemCurve', 'Group', 'ElemWithHoles') and not e.penbrush.filled else None)
    e.xform.translate(3, 4)
    e.xform.scale(2, 5)
    if n in ('ElemCurve', 'Group', 'ElemWithHoles'):
        e.closed = not e.closed
    if n == 'ElemCurve':
        for i, cp in enumerate(e.control_points):
            cp.c.setxy(91 + i, 92)
            cp.dl.set(g.Vector(93, 94 + i))
            cp.dr.set(g.Vector(95, 96 + i))
            cp.kind = 'sharp' if cp.kind != 'sharp' else 'smooth'
        e.control_points.reverse()
    elif n == 'Group':
        e.hidden = not e.hidden
        for k in list(e.elems)[:1]:
            del e.elems[k]
        e.add('more', M.ElemRectangle('more', pen(v), g.Point(0, 0), g.Point(1, 1)))
        e.add_pt('morept', g.Point(0, 0))
    elif n == 'ElemWithHoles':
        edits(v, e.outside)
        for h in e.inside:
            edits(v, h)
        e.inside.append(e.inside[0])
    else:
        e.p1.setxy(81, 82)
        e.p2.restore(g.Point(83, 84))
        if n == 'ElemRectangleRounded':
            e.radius = 85


def empty(e):
    """take out all members"""
    for part in ('elems', 'points', 'inside'):
        if hasattr(getattr(e, part, None), 'clear'):
            getattr(e, part).clear()


def mk_any(v, n, kind, own=True, closed=None):
    X = mk_xform(v, n + 'X')[0] if own else None
    if kind in KINDS:
        return mk_el(v, n, kind, X, v.choice(n + 'k', [0, 1, 2]) if kind == 'curve' else 2,
                     closed or v.flag(n + 'closed') if kind == 'curve' else True)
    M, C = v.m.model, v.m.colors
    if kind == 'holes':
        return M.ElemWithHoles(n, pen(v), mk_any(v, n + 'o', v.choice(n + 'okind', ['curve', 'rounded']), closed=True),
                               [mk_any(v, n + 'i', 'ellipse', False)], True, X)
    es = [mk_el(v, 'r', 'rect'), M.Group('sub', C.PenBrush('blue'))][:v.choice(n + 'members', [0, 1, 2])]
    cl = v.flag(n + 'closed')
    g = M.Group(n, C.PenBrush('black', 'red' if cl else None), v.flag(n + 'hidden'), X, es, None, cl)
    if v.flag(n + 'pts'):
        g.add_pt('p', pt(v, n + 'gp'))
    return g


def snapshot(o):
    """what a copy has to keep: for a group its members by identity, otherwise everything"""
    if type(o).__name__ == 'Group':
        return (o.name, obs(o.penbrush), bool(o.closed), bool(o.hidden), obs(o.xform),
                tuple((k, id(x)) for k, x in o.elems.items()), tuple((k, id(x)) for k, x in o.points.items()))
    return obs(o)


ALLK = ('curve', 'rect', 'ellipse', 'rounded', 'group', 'holes')
COPYF = ('ElemCurve.copy ElemCurve.fixed ElemCurve.restore ElemP1P2.copy ElemP1P2.restore ElemRectangleRounded.copy '
         'ElemRectangleRounded.restore Group.copy Group.restore ElemWithHoles.copy ElemWithHoles.restore Elem.restore')


@lemma('C20', COPYF, bound='curves of 0 to 2 points, groups of 0 to 2 members, one hole', budget=60)
def copies(v):
    kind = v.choice('kind', ALLK)
    e = mk_any(v, 'e', kind)
    before = snapshot(e)
    c = e.copy()
    v.check_type('kind', c, type(e))
    v.check('a new element', c is not e)
    v.check('equal', c == e)
    v.eq('same components', snapshot(c), before)
    v.eq('original unchanged by copy', snapshot(e), before)
    how = v.choice('then', ['edit original', 'edit copy'])
    a, b = (e, c) if how == 'edit original' else (c, e)
    edits(v, a)
    v.eq('the other one is unchanged', snapshot(b), before)
    a.restore(b)
    v.eq('restored', snapshot(a), before)
    v.check('restored: equal', a == b)
    v.eq('source of the restore unchanged', snapshot(b), before)
    edits(v, a)
    v.eq('restore does not alias (edit the restored one)', snapshot(b), before)
    if v.flag('emptied first'):
        empty(a)
    a.restore(b)
    v.eq('restored again', snapshot(a), before)
    a.restore(b)
    v.eq('restored twice', snapshot(a), before)
    edits(v, b)
    v.eq('restore does not alias (edit the source)', snapshot(a), before)
    ab = snapshot(b)
    edits(v, a)
    v.eq('restore does not alias (edit the restored one again)', snapshot(b), ab)


@lemma('C20', 'ElemCurve.copy ElemCurve.fixed ControlPoint.fixed', budget=20)
def curve_copy_any_length(v):
    M = v.m.model
    X, Xt = mk_xform(v, 'X')
    kind = v.choice('kind', ['smooth', 'sharp', 'very-smooth'])

    def mk(v, n):
        cp, c = mk_cp(v, n, kind)
        return cp, (cp, obs(cp))
    S = v.seq('cps', mk)
    e = M.ElemCurve('e', pen(v), [] if v.symbolic else S.list, True, X)
    if v.symbolic:
        e.control_points = S.list
    c = e.copy()
    v.eq('own transform', c.xform.as_6tuple(), Xt)
    v.check('own transform not shared', c.xform is not e.xform)

    def each(i, q):
        cp, before = S.at(i)
        v.eq('control point', obs(q), before)
        v.check('not shared', q is not cp)
        cp.c.setxy(1, 2)
        cp.dl.set(v.m.geom.Vector(3, 4))
        cp.dr.set(v.m.geom.Vector(5, 6))
        v.eq('independent', obs(q), before)
        q.c.setxy(7, 8)
        v.eq('independent (other way)', tuple(cp.c.xy()), (1, 2))
    v.each('control points', c.control_points, S.n, each)


@lemma('C20', 'ElemCurve.restore ControlPoint.restore', budget=30)
def curve_restore_any_length(v):
    """restoring a curve from one with as many points gives it those points, sharing none"""
    M = v.m.model
    X, Xt = mk_xform(v, 'X')
    kinds = v.choice('kinds', [('smooth', 'sharp'), ('very-smooth', 'very-smooth')])

    def mk(v, n):
        a, _ = mk_cp(v, n + '.a', kinds[0])
        b, _ = mk_cp(v, n + '.b', kinds[1])
        return (a, b), (a, b, obs(b))
    S = v.seq('cps', mk, twins=False)
    As, Bs = v.map(lambda x: x[0], S.list), v.map(lambda x: x[1], S.list)
    e = M.ElemCurve('e', pen(v), [] if v.symbolic else As, True)
    f = M.ElemCurve('f', pen(v, False), [] if v.symbolic else Bs, False, X)
    if v.symbolic:
        e.control_points, f.control_points = As, Bs
    e.restore(f)
    v.check('name and closed', e.name == 'f' and e.closed is False)
    v.eq('own transform', e.xform.as_6tuple(), Xt)
    v.check('own transform not shared', e.xform is not f.xform)

    def each(i, q):
        a, b, before = S.at(i)
        v.eq('control point', obs(q), before)
        v.eq('the other is unchanged', obs(b), before)
        v.check('not shared', q is not b)
        b.c.setxy(1, 2)
        b.dl.set(v.m.geom.Vector(3, 4))
        b.dr.set(v.m.geom.Vector(5, 6))
        v.eq('independent', obs(q), before)
        q.c.setxy(7, 8)
        v.eq('independent (other way)', tuple(b.c.xy()), (1, 2))
    v.each('control points', e.control_points, S.n, each)


@lemma('C20', 'ElemCurve.restore', budget=20)
def curve_restore_refused_any_length(v):
    """restoring from a curve of any other length is refused"""
    M = v.m.model
    S = v.seq('own', lambda v, n: mk_cp(v, n, 'smooth'))
    R = v.seq('other', lambda v, n: mk_cp(v, n, 'smooth'))
    v.assume(S.n != R.n)
    e, f = M.ElemCurve('e', pen(v), [], True), M.ElemCurve('f', pen(v), [], True)
    e.control_points, f.control_points = S.list, R.list
    v.raises('refused', Exception, e.restore, f)


@lemma('C20', 'ElemCurve.restore', bound='up to 3 control points')
def restore_refuses_other_length(v):
    """restoring from a curve with another number of points is refused"""
    G = v.m.geom
    n, k = v.choice('n', [0, 1, 2]), v.choice('k', [0, 1, 2, 3])
    v.assume(n != k)
    e = mk_el(v, 'e', 'curve', None, n)
    f = mk_el(v, 'f', 'curve', None, k)
    v.raises('refused', Exception, e.restore, f)


# =============================================================== C21
class Boom(Exception):
    pass


def raising(v, where):
    """an element whose drawing and traversal raise, as a member"""
    M, g = v.m.model, v.m.geom

    class R(M.ElemRectangle):
        def paths(self, dc):
            dc.matrix.push().scale(2, 2)
            dc.matrix.pop()
            raise Boom()

        def control_paths(self, dc):
            raise Boom()

        def transform(self, matrix):
            raise Boom()

        def iter_elems(self, root='unknown', matrix=None):
            raise Boom()
            yield
    R.__name__ = 'ElemRectangle'
    return R('boom', pen(v), g.Point(0, 0), g.Point(1, 1))


@lemma('C21', 'ElemCurve.paths ElemCurve.control_paths ElemP1P2.control_paths ElemRectangle.paths ElemRectangle.control_paths '
       'ElemEllipse.paths ElemRectangleRounded.paths Group.paths Group.control_paths ElemWithHoles.paths '
       'ElemWithHoles.control_paths Elem.draw_space Group.iter_elems Group.iter_elems_transformed ElemWithHoles.iter_elems '
       'ElemWithHoles.iter_elems_transformed Elem.iter_elems ElemCurve.transform ElemP1P2.transform Group.transform '
       'ElemWithHoles.transform', budget=90)
def matrix_left_as_found(v):
    """... for any starting matrix, with a state pushed before, whatever is called"""
    T, M, C = v.m.transform.Transform, v.m.model, v.m.colors
    kind = v.choice('kind', ALLK)
    few_steps(v)
    op = v.choice('op', ['paths', 'control_paths', 'transform', 'iter', 'iter_t'])
    m0, t0 = mk_xform(v, 'below')
    D, Dt = mk_xform(v, 'D', invertible=True)
    X = mk_xform(v, 'X', kind='simple', invertible=True)[0] if v.flag('own') else None
    boom = kind in ('group', 'holes') and v.flag('raising member')
    if kind in KINDS:
        e = mk_el(v, 'e', kind, X, 1, corner='up')
    elif kind == 'group':
        e = M.Group('e', C.PenBrush('black'), v.flag('hidden'), X, [mk_el(v, 'a', 'rect'), mk_el(v, 'b', 'curve', None, 1)])
        if boom:
            e.add('boom', raising(v, op))
    else:
        e = M.ElemWithHoles('e', pen(v), mk_el(v, 'a', 'rect'), [mk_el(v, 'b', 'rect')], True, X)
        if boom:
            e.inside.append(raising(v, op))
    before = obs(e)
    m = T(t0)
    m.push()
    m.set_matrix(D)
    dc = ctx(v, m, 2)
    dc.matrix = m
    raised = False
    try:
        if op == 'paths':
            e.paths(dc)
        elif op == 'control_paths':
            e.control_paths(dc)
        elif op == 'transform':
            e.transform(m)
        elif op == 'iter':
            list(e.iter_elems('root', m))
        elif kind in ('group', 'holes'):
            list(e.iter_elems_transformed('root', m))
    except Boom:
        raised = True
    except np.linalg.LinAlgError:
        raised = None
        v.check('singular only in transform', op in ('transform', 'iter_t'))
    if boom and op != 'transform' and not (kind == 'group' and e.hidden and op in ('paths', 'control_paths')):
        v.check('the exception is propagated', raised is not False)
    else:
        v.check('nothing raised', raised is not True)
    v.check('same matrix object', dc.matrix is m)
    v.eq('map', m.as_6tuple(), Dt)
    m.pop()
    v.eq('pushed state', m.as_6tuple(), t0)
    v.raises('no other pushed state', v.m.transform.EmptyStackError, m.pop)
    unchanged(v, 'element', before, e)


@lemma('C21', 'Group.iter_elems ElemWithHoles.iter_elems Elem.iter_elems', bound='nesting to depth 3, up to 3 members', budget=60)
def leaves(v):
    T, M, C = v.m.transform.Transform, v.m.model, v.m.colors
    D, Dt = mk_xform(v, 'D', kind='simple')
    want = []

    def build(n, depth, path, acc, free):
        X = mk_xform(v, n + 'X', kind='simple') if v.flag(n + 'own') else (None, ID)
        full = compose6(acc, X[1])
        k = v.choice(n + 'holds', ['leaf+group', 'group+leaf', 'holes', 'none']) if free else 'two leaves'
        nm = n
        if not v.symbolic and depth < 2:
            nm = v.choice(n + ' name', [n, n, n, ''])
        here = path + nm
        g = M.Group(nm, C.PenBrush('black'), v.flag(n + 'hidden') if free else False, X[0])

        def leaf(m, kind='rect'):
            e = mk_el(v, m, kind, None, 1)
            g.add(m, e)
            want.append((here + '.' + m, e, full))

        def sub():
            if depth:
                s = build('s' + n, depth - 1, here + '.', full, depth > 1)
                nm = s.name
                g.add('s' + n, s)
                s.name = nm
        if k == 'leaf+group':
            leaf('z' + n)
            sub()
            leaf('a' + n, 'curve')
        elif k == 'group+leaf':
            sub()
            leaf('b' + n)
        elif k == 'two leaves':
            leaf('y' + n)
            leaf('x' + n)
        elif k == 'holes':
            Y = mk_xform(v, n + 'Y', kind='simple')
            # the parts' own transforms are not enclosing ones
            Z = mk_xform(v, n + 'Z', kind='simple')[0] if v.flag(n + 'parts own') else None
            o, i, j = [mk_el(v, q + n, 'rect', Z if q != 'j' else None) for q in 'oij']
            g.add('h' + n, M.ElemWithHoles('h' + n, pen(v), o, [i, j], True, Y[0]))
            f2 = compose6(full, Y[1])
            want.extend([(here + '.h' + n + '.outside.o' + n, o, f2), (here + '.h' + n + '.inside.i' + n, i, f2),
                         (here + '.h' + n + '.inside.j' + n, j, f2)])
        return g
    root = v.choice('root', [None, 'root'])
    top = build('t', 2, 'root.' if root else '', Dt, True)
    before = obs(top)
    given = v.flag('matrix given')
    if not given:
        v.assume(v.and_(*[a == b for a, b in zip(Dt, ID)]))
    got = []
    for tag, e, mat in top.iter_elems(root, D if given else None):
        got.append((tag, e, tuple(mat.as_6tuple())))
    v.check('each leaf once, in order', [id(g[1]) for g in got] == [id(w[1]) for w in want])
    v.check('dotted names', [g[0] for g in got] == [w[0] for w in want])
    for g, w in zip(got, want):
        v.eq('product of the enclosing transforms when yielded', g[2], w[2])
    if given:
        v.eq('matrix as found', D.as_6tuple(), Dt)
    unchanged(v, 'model', before, top)


@lemma('C21', 'Group.iter_elems Group.iter_elems_transformed ElemWithHoles.iter_elems ElemWithHoles.iter_elems_transformed',
       bound='two iterations at the same time, up to 2 members each', budget=60)
def iterations_interleaved(v):
    """iterations under way at the same time (of the same or of two groups) do not affect each other"""
    T, M, C = v.m.transform.Transform, v.m.model, v.m.colors
    X, Y = mk_xform(v, 'X', kind='simple', invertible=True), mk_xform(v, 'Y', kind='simple', invertible=True)

    def part(n, xf):
        es = [mk_el(v, 'a' + n, 'rect'), mk_el(v, 'b' + n, 'rect')]
        if v.choice('kind ' + n, ['group', 'holes']) == 'group':
            return M.Group(n, C.PenBrush('black'), False, xf, es), [n + '.' + e.name for e in es], es
        return M.ElemWithHoles(n, pen(v), es[0], es[1:], True, xf), [n + '.outside.' + es[0].name, n + '.inside.' + es[1].name], es
    (g, gn, ge), (h, hn, he) = part('g', X[0]), part('h', Y[0])
    if v.flag('same'):
        h, hn, he, Y = g, gn, ge, X
    before = obs((g, h))
    if v.flag('transformed'):
        its, want = [g.iter_elems_transformed(), h.iter_elems_transformed()], []
        for (_, xt), es in ((X, ge), (Y, he)):
            want.append([(xt, e) for e in es])
        for i in range(2):
            for it, names, w in zip(its, (gn, hn), want):
                t = next(it)
                v.check('name', t.name == names[i])
                xt, e = w[i]
                own = tuple(e.xform.as_6tuple())
                x, y = apply6(t.xform.as_6tuple(), *t.p1.xy()), apply6(compose6(xt, own), *e.p1.xy())
                v.eq('corner as drawn in its group', x, y)
    else:
        its = [g.iter_elems(), h.iter_elems()]
        for i in range(2):
            for it, names, es, xt in zip(its, (gn, hn), (ge, he), (X[1], Y[1])):
                tag, e, mat = next(it)
                v.check('name', tag == names[i])
                v.same('leaf', e, es[i])
                v.eq('product of the enclosing transforms when yielded', mat.as_6tuple(), xt)
    for it in its:
        v.raises('exhausted', StopIteration, lambda: next(it))
    unchanged(v, 'groups', before, (g, h))


@lemma('C21', 'Group.iter_elems_transformed ElemWithHoles.iter_elems_transformed', bound='up to 2 direct members', budget=60)
def members_transformed(v):
    T, M, C = v.m.transform.Transform, v.m.model, v.m.colors
    few_steps(v)
    D, Dt = mk_xform(v, 'D', kind='simple', invertible=True)
    X, Xt = mk_xform(v, 'X', kind='simple', invertible=True)
    if not v.flag('own'):
        v.assume(v.and_(*[a == b for a, b in zip(Xt, ID)]))
    es = [mk_el(v, 'b', 'curve', None, 1), mk_el(v, 'a', 'rect')]
    if v.flag('group'):
        if v.flag('a group among them'):
            es.append(M.Group('Sub', C.PenBrush('black'), v.flag('hidden sub'), None, [mk_el(v, 'c', 'rect')]))
        g = M.Group('g', C.PenBrush('black'), v.flag('hidden'), X, es)
        sub = ['', '', '']
    else:
        g = M.ElemWithHoles('g', pen(v), es[0], es[1:], True, X)
        sub = ['outside.', 'inside.']
    before = obs(g)
    root = v.choice('root', [None, 'r'])
    full = compose6(Dt, Xt)
    if v.symbolic:
        v.assume(v.and_(v.abs(full[0]) >= 1e-16, v.abs(full[4]) >= 1e-16))
    got = list(g.iter_elems_transformed(root, D))
    v.check('each direct member', len(got) == len(es))
    for t, e, s in zip(got, es, sub):
        v.check_type('kind', t, type(e))
        v.check('name', t.name == ('r.' if root else '') + 'g.' + s + e.name)
        want = e.paths(ctx(v, T(full), 2))
        same_drawing(v, 'outline', t.paths(ctx(v, T(), 2)), want, ordered=False)
    v.eq('matrix as found', D.as_6tuple(), Dt)
    unchanged(v, 'group', before, g)


@lemma('C21', 'Group.paths Group.control_paths', bound='one member', budget=20)
def hidden_groups(v):
    M, C = v.m.model, v.m.colors
    few_steps(v)
    X = mk_xform(v, 'X')[0]
    g = M.Group('g', C.PenBrush('black'), True, X, [mk_el(v, 'a', 'rect'), mk_el(v, 'b', 'curve', None, 1)])
    outer = M.Group('o', C.PenBrush('black'), False, None, [g])
    dc = ctx(v, None, 2)
    for e in (g, outer):
        v.check('no paths', list(e.paths(dc)) == [])
        v.check('no control paths', list(e.control_paths(dc)) == [])
    g.hidden = False
    v.check('shown again', len(outer.paths(dc)) == 2 and len(outer.control_paths(dc)) == 2)


@lemma('C21', 'Group.paths Group.control_paths ElemWithHoles.paths ElemWithHoles.control_paths', bound='two members', budget=40)
def paths_compose(v):
    """members are drawn, in order, under the product of the enclosing transforms, outermost first"""
    T, M, C = v.m.transform.Transform, v.m.model, v.m.colors
    D, Dt = mk_xform(v, 'D')
    X, Xt = mk_xform(v, 'X')
    Y, Yt = mk_xform(v, 'Y')
    es = [mk_el(v, 'b', 'curve', Y, 1), mk_el(v, 'a', 'rect')]
    hol = v.flag('holes')
    if hol:
        g = M.ElemWithHoles('g', pen(v, False), es[0], es[1:], True, X)
    else:
        g = M.Group('g', C.PenBrush('black'), False, X, es)
    full = compose6(Dt, Xt)
    want = [p for e in es for p in e.paths(ctx(v, T(full), 2))]
    got = g.paths(ctx(v, D, 2))
    v.eq('outlines', pts_of(got), pts_of(want))
    cw = [p for e in es for p in e.control_paths(ctx(v, T(full), 2))]
    cg = g.control_paths(ctx(v, T(Dt), 2))
    v.eq('control paths', [obs(p.points) for p in cg], [obs(p.points) for p in cw])
    # and those are the mapped points
    v.eq('rectangle corners', [p.xy() for p in cg[1].points], [apply6(full, *p.xy()) for p in es[1].points()])
    v.eq('curve points', [cp_pts(c) for c in cg[0].points],
         [tuple(apply6(compose6(full, Yt), *p) for p in cp_pts(c)) for c in es[0].control_points])
