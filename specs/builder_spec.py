"""C37 equality of elements, C38 GroupBuilder, C39 elements as curves, C40 offset curves, C41 parts and boxes."""
from common import *
from bezier_spec import mk_cp, cp_pts
from model_spec import ctx, few_steps, mk_el, pen, pts_of, same_drawing
from model2_spec import mk_any
from model3_spec import new_el, NAMES

KINDS = ('curve', 'rect', 'ellipse', 'rounded')


# =============================================================== C37
def twice(v, n, kind):
    """two equal, separately built elements: every draw is made once and used twice"""
    M, C, g, T = v.m.model, v.m.colors, v.m.geom, v.m.transform.Transform
    pens = [C.PenBrush(('blue', 3), 'red'), C.PenBrush(('blue', 3)), C.PenBrush('blue', 'red')]
    x = v.reals(' '.join('%s.x%d' % (n, i) for i in range(12)))
    closed = kind in ('rect', 'ellipse', 'rounded') or v.flag(n + ' closed')
    w = v.choice(n + ' pen', [0, 2] if closed else [1])
    r = v.real(n + '.r', nonneg=True)

    def make(y=None, **ch):
        y = y or x
        xf = T(tuple(y[:6]))
        if kind == 'curve':
            cp = g.Vector(y[8], y[9])
            cps = [v.m.bezier.ControlPoint(g.Point(y[6], y[7]), -cp, cp, ch.get('kind', 'smooth')),
                   v.m.bezier.ControlPoint(g.Point(y[10], y[11]), cp, cp, 'sharp')]
            return M.ElemCurve(ch.get('name', n), ch.get('pen', pens[w]), cps, ch.get('closed', closed), xf)
        if kind in ('rect', 'ellipse', 'rounded'):
            cls = {'rect': M.ElemRectangle, 'ellipse': M.ElemEllipse, 'rounded': M.ElemRectangleRounded}[ch.get('cls', kind)]
            a = (ch.get('r', r),) if cls is M.ElemRectangleRounded else ()
            return cls(ch.get('name', n), ch.get('pen', pens[w]), g.Point(y[6], y[7]), g.Point(y[8], y[9]), *a, xform=xf)
        sub = M.ElemRectangle('a', pens[1], g.Point(y[6], y[7]), g.Point(y[8], y[9]))
        sub2 = M.ElemRectangle(ch.get('member', 'b'), pens[1], g.Point(y[10], y[11]), g.Point(y[8], y[9]))
        if kind == 'group':
            e = M.Group(ch.get('name', n), ch.get('pen', pens[w]), ch.get('hidden', False), xf, [sub, sub2][:ch.get('k', 2)],
                        None, ch.get('closed', closed))
            for q in (ch.get('pt', 'p'), ch.get('pt2')):
                if q:
                    e.add_pt(q, g.Point(y[7], y[8]))
            return e
        return M.ElemWithHoles(ch.get('name', n), ch.get('pen', pens[w]), sub, [sub2] * ch.get('k', 1), ch.get('closed', closed), xf)
    return x, make, closed, pens, r


@lemma('C37', 'Elem.__eq__ ElemCurve.__eq__ ElemP1P2.__eq__ ElemRectangleRounded.__eq__ Group.__eq__ ElemWithHoles.__eq__', budget=60)
def equal_exactly_when_alike(v):
    kind = v.choice('what', KINDS + ('group', 'holes'))
    x, make, closed, pens, r = twice(v, 'e', kind)
    a = make()
    v.check('equal to itself', a == a and not (a != a))
    v.check('equal when built alike', make() == a)
    n = {'curve': 12, 'group': 12, 'holes': 12}.get(kind, 10)
    how = v.choice('difference', ['number', 'name', 'pen', 'more', 'type', 'exchanged'])
    if how == 'exchanged':                      # the same numbers in another order
        y = list(x)
        for i, j in v.choice('pairs', [[(6, 8), (7, 9)], [(6, 8)], [(7, 9)], [(6, 10), (7, 11)]] if n > 10 else [[(6, 8), (7, 9)], [(6, 8)], [(7, 9)]]):
            y[i], y[j] = y[j], y[i]
        v.check('equal exactly when the numbers are', v.iff(make(y) == a, v.and_(*[p == q for p, q in zip(x[:n], y)])))
        return
    if how == 'number':
        i = v.choice('i', list(range(n)))
        z = v.real('z')
        y = list(x)
        y[i] = z
        b = make(y)
        v.check('equal exactly when the numbers are', v.iff(b == a, z == x[i]))
        v.check('symmetric', v.iff(a == b, z == x[i]))
        return
    ch = {}
    if how == 'name':
        ch = {'name': v.choice('other name', ['other', '', 'E', 'e ', 'e.e', 'ee'])}
    elif how == 'pen':
        ch = {'pen': pens[0 if closed and v.flag('w') else 1]}
        v.assume(ch['pen'] != a.penbrush)
    elif how == 'more':
        if kind == 'rounded':
            z = v.real('rz')
            v.check('radius', v.iff(make(r=z) == a, z == r))
            return
        opts = {'curve': [{'kind': 'sharp'}], 'group': [{'hidden': True}, {'k': 1}, {'k': 0}, {'hidden': True, 'k': 0}, {'pt': 'q'}, {'pt2': 'q'}, {'pt2': 'a'}, {'pt': None}, {'member': 'c'}],
                'holes': [{'k': 2}, {'member': 'c'}]}.get(kind, [])
        if kind in ('curve', 'group', 'holes') and a.penbrush == pens[1]:
            opts = opts + [{'closed': not closed}]
        if not opts:
            return
        ch = v.choice('which', opts)
        if ch == {'hidden': True, 'k': 0}:
            a = make(k=0)
    else:
        other = v.m.model.Group('e', a.penbrush, False, a.xform.copy(), [], None, closed) if kind != 'group' else \
            v.m.model.ElemCurve('e', a.penbrush, [], closed, a.xform.copy())
        others = [other, None, 'e', 5]
        if kind in ('rect', 'ellipse', 'rounded'):
            others += [make(cls=k) for k in ('rect', 'ellipse', 'rounded') if k != kind]
        for o in others:
            v.check('never equal to something of another type', not (a == o) and a != o)
        return
    b = make(**ch)
    v.check('different %s' % sorted(ch), not (a == b) and not (b == a) and a != b)


@lemma('C37', 'ElemCurve.__eq__', bound='curves of 0 to 3 points', budget=30)
def curves_of_other_length(v):
    M, T = v.m.model, v.m.transform.Transform
    n, k = v.choice('n', [0, 1, 2, 3]), v.choice('k', [0, 1, 2, 3])
    cps = [mk_cp(v, 'c%d' % i, 'smooth')[0] for i in range(max(n, k))]
    p = pen(v, False)
    a, b = M.ElemCurve('e', p, cps[:n], True), M.ElemCurve('e', p, [c.copy() for c in cps[:k]], True)
    v.check('equal exactly when of the same length', (a == b) == (n == k))


@lemma('C37', 'ControlPath.__eq__ Mesh.__eq__ VectorField.__eq__')
def paths_and_meshes(v):
    M, g, F = v.m.model, v.m.geom, v.m.vec_field
    p, q = pt(v, 'p'), pt(v, 'q')
    z = v.real('z')
    a = M.ControlPath([p, q])
    v.check('alike', a == M.ControlPath([p.copy(), q.copy()]))
    v.check('a point differs', v.iff(a == M.ControlPath([g.Point(z, p.y), q]), z == p.x))
    v.check('length', not (a == M.ControlPath([p])))
    v.check('type', not (a == [p, q]))
    b, t = mk_bbox(v, 'b', area=True)
    w = v.real('w', pos=True)
    k = v.choice('steps', [2, 3])
    m = F.Mesh(b, k)
    v.check('mesh', m == F.Mesh(g.BBox(*t), k))
    v.check('steps', not (m == F.Mesh(b, k + 1)))
    v.check('box', not (m == F.Mesh(g.BBox(t[0], t[1], t[2] + w, t[3]), k)) and not (m == F.Mesh(g.BBox(t[0], t[1] - w, t[2], t[3]), k)))
    v.check('mesh is not its box', not (m == b) and not (m == None))     # noqa: E711


@lemma('C37', 'ControlPoint.close BasePoint.close Vector.close', budget=60)
def control_points_close(v):
    B, g = v.m.bezier, v.m.geom
    ks = ['smooth', 'sharp', 'very-smooth']
    a, ca = mk_cp(v, 'a', v.choice('ka', ks))
    which = v.choice('which', ['c', 'dl', 'dr', 'all'])
    dx, dy, d = v.real('dx'), v.real('dy'), v.real('d', pos=True)
    k2 = v.choice('kb', ks)
    u = g.Vector(dx, dy)
    b = B.ControlPoint(a.c + u if which in ('c', 'all') else a.c.copy(), a.dl + u if which in ('dl', 'all') else a.dl.copy(),
                       a.dr + u if which in ('dr', 'all') else a.dr.copy(), k2)
    near = dx * dx + dy * dy < d * d
    v.generic(abs(dx * dx + dy * dy - d * d) > 1e-6)
    v.check('close exactly when every part is', v.iff(a.close(b, d), v.and_(a.kind == k2, near)))
    v.check('symmetric', v.iff(b.close(a, d), v.and_(a.kind == k2, near)))
    v.check('close to itself by default', a.close(a))
    v.check('not close to a point a unit away', not a.close(B.ControlPoint(a.c + g.Vector(1, 0), a.dl, a.dr, a.kind)))


# =============================================================== C38
SHAPES = ('edge', 'filled', 'clear', 'edge_filled', 'edge_clear')


def mk_pens(v):
    C = v.m.colors
    return C.PensByShape(edge=C.PenBrush(('red', 1)), filled=C.PenBrush(None, 'blue'), clear=C.PenBrush(None, (0, 0, 0, 0)),
                         edge_filled=C.PenBrush(('green', 2), 'yellow'), edge_clear=C.PenBrush(('white', 3), (0, 0, 0, 0)))


@lemma('C38', 'GroupBuilder.__init__ GroupBuilder.elem_any GroupBuilder.rect GroupBuilder.rrect GroupBuilder.ellipse GroupBuilder.curve '
       'GroupBuilder.add Group.add', budget=60)
def build_element(v):
    M, C, g = v.m.model, v.m.colors, v.m.geom
    pens = mk_pens(v)
    given = M.Group('given', C.PenBrush('black')) if v.flag('group given') else None
    default = v.choice('default kind', [None, 'filled', 'edge'])
    kw = {} if default is None else {'shape_kind': default}
    gb = M.GroupBuilder('gb', pens, group=given, **kw) if given is not None else M.GroupBuilder('gb', pens, **kw)
    if given is not None:
        v.same('builds into the given group', gb.the_group, given)
    else:
        v.check('its own group', type(gb.the_group) is M.Group and gb.the_group.name == 'gb' and not gb.the_group.hidden
                and not gb.the_group.elems)
    k = v.choice('kind', KINDS)
    sk = v.choice('shape', [None, 'own pen'] + list(SHAPES))
    own = C.PenBrush(('pink', 7), 'red' if v.flag('own pen filled') else None)
    arg = own if sk == 'own pen' else sk
    want = own if sk == 'own pen' else pens[sk or default or 'edge']
    p1, p2 = pt(v, 'p1'), pt(v, 'p2')
    b1, b2 = obs(p1), obs(p2)
    closed = True
    args = () if sk is None and v.flag('left out') else (arg,)
    if k == 'curve':
        cps = [mk_cp(v, 'c%d' % i, 'smooth')[0] for i in range(2)]
        how = v.choice('closed', [None, True, False])
        closed = want.filled if how is None else how
        kw = {} if how is None else {'closed': how}
        if want.filled and not closed:
            # an open curve has no filled pen: refused, or at least not closed against the caller's word
            try:
                e = gb.curve('n', cps, *args, **kw)
            except (AssertionError, ValueError):
                return v.check('nothing added', not gb.the_group.elems)
        else:
            e = gb.curve('n', cps, *args, **kw)
        v.check_type('curve', e, M.ElemCurve)
        v.eq('control points', obs(e.control_points), obs(cps))
    elif k == 'rounded':
        r = v.real('r', nonneg=True)
        e = gb.rrect('n', p1, p2, r, *args)
        v.check_type('rounded rectangle', e, M.ElemRectangleRounded)
        v.eq('radius', e.radius, r)
    else:
        e = (gb.rect if k == 'rect' else gb.ellipse)('n', p1, p2, *args)
        v.check_type(k, e, M.ElemRectangle if k == 'rect' else M.ElemEllipse)
    if k != 'curve':
        v.eq('corners', (e.p1.xy(), e.p2.xy()), (p1.xy(), p2.xy()))
    v.eq('pen', obs(e.penbrush), obs(want))
    v.check('closed', bool(e.closed) == bool(closed))
    v.check('name', e.name == 'n')
    v.eq('no own transform', e.xform.as_6tuple(), (1, 0, 0, 0, 1, 0))
    v.check('stored in the group', gb.the_group.elems == {'n': e} and gb.the_group.elems['n'] is e)
    v.same('found again', gb.lookup('n'), e)
    v.eq('arguments', (obs(p1), obs(p2)), (b1, b2))


@lemma('C38', 'GroupBuilder.elem_any GroupBuilder.__init__ PensByShape.__getitem__')
def refused(v):
    M = v.m.model
    gb = M.GroupBuilder('gb', mk_pens(v))
    p, q = pt(v, 'p'), pt(v, 'q')
    v.raises('unknown shape kind', ValueError, gb.rect, 'n', p, q, v.choice('unknown', ['nonesuch', 'EDGE', 'Filled', ' edge', 'edge_', 'edge-filled', 'fill', 'filled_edge']))
    v.check('nothing added', not gb.the_group.elems)
    for x in (None, 'red', {}, v.m.colors.PenBrush('red')):
        v.raises('pens must be given by shape', TypeError, M.GroupBuilder, 'gb', x)


@lemma('C38', 'GroupBuilder.group GroupBuilder.point GroupBuilder.add_pt GroupBuilder.lookup_pt GroupBuilder.lookup GroupBuilder.add', budget=40)
def sub_builders(v):
    M, C, g = v.m.model, v.m.colors, v.m.geom
    pens, other = mk_pens(v), C.PensByShape(edge=C.PenBrush(('cyan', 9)), filled=C.PenBrush(None, 'cyan'))
    gb = M.GroupBuilder('gb', pens, v.choice('default', ['filled', 'edge']))
    mine, kind = v.flag('own pens'), v.choice('own kind', [None, 'filled', 'edge', 'clear'])
    sub = gb.group('sub', other if mine else None, kind)
    v.check_type('a builder', sub, M.GroupBuilder)
    v.same('its group is a member', gb.lookup('sub'), sub.the_group)
    v.check('nothing else', list(gb.the_group.elems) == ['sub'])
    p, q = pt(v, 'p'), pt(v, 'q')
    e = sub.rect('r', p, q)
    v.eq('pens are inherited', obs(e.penbrush), obs((other if mine else pens)[kind or gb.default_shape_kind]))
    v.same('dotted lookup', gb.lookup('sub.r'), e)
    x, y = v.reals('x y')
    a = gb.point('a', x, y)
    v.check_type('point', a, g.Point)
    v.eq('position', a.xy(), (x, y))
    v.check('named', a.name == 'a')
    v.same('found', gb.lookup_pt('a'), a)
    if v.flag('named before'):
        p.name = 'old'
    b = gb.add_pt('b', p)
    v.same('given point', b, p)
    v.same('found', gb.lookup_pt('b'), p)
    v.check('named', p.name == 'b')
    v.raises('points of the parent only', KeyError, sub.lookup_pt, 'a')
    try:                        # a name is given once: refused, or at least the point stored first is as it was
        gb.point('a', x + 1, y)
    except (AssertionError, ValueError, KeyError):
        pass
    v.eq('the first point is not moved', a.xy(), (x, y))
    o = gb.point('o', 0, 0)
    v.check('another point', o is not a and o is not p and o.name == 'o' and a.name == 'a' and o.xy() == (0, 0))
    if v.flag('hidden'):
        gb.hide()
    late = gb.group('late')
    v.check('no points of its own yet', not late.the_group.points and not late.the_group.elems)
    late.point('a', y, x)
    v.eq('points of the parent', (gb.lookup_pt('a').xy() != (y, x) or v.symbolic or x == y) and a.xy(), (x, y))
    again = gb.group('late')
    v.check('a second one of that name', again.the_group is not late.the_group and len(gb.the_group.elems) == 3 and
            any(x is again.the_group for x in gb.the_group.elems.values()) and gb.lookup('late') is late.the_group)
    gb.the_group.elems.pop(again.the_group.name)
    gb.the_group.elems.pop('late')
    f = new_el(v, 'rect', 'was')
    gb.add('f', f)
    v.check('added', gb.lookup('f') is f and f.name == 'f' and list(gb.the_group.elems) == ['sub', 'f'])


@lemma('C38', 'GroupBuilder.rotate_about_center Elem.transform Transform.rotate_about', budget=60)
def turned_about_center(v):
    """the copy added is the element rotated about the center of its box"""
    M, C, g, T = v.m.model, v.m.colors, v.m.geom, v.m.transform.Transform
    few_steps(v)
    gb = M.GroupBuilder('gb', mk_pens(v))
    k = v.choice('kind', KINDS + ('group',))
    deg = v.choice('angle', [0, 30, 90, 180, -45, 400]) if k not in ('curve', 'group') else v.real('deg')
    N = 'e' if v.symbolic else v.choice('name', ['e', 'e_r', 'a_r_b', 'r', 'e_rx'])
    if k == 'group':
        cl = v.flag('closed')
        e = M.Group('e', pen(v, cl), v.flag('hidden'), None, [mk_el(v, 'a', 'curve', None, 1, corner='up')], None, cl)
    else:
        e = mk_el(v, 'e', k, None, 1, closed=k != 'curve' or v.flag('closed'), corner='up')
    e.name = N
    gb.add(N, e)
    extra, show = v.choice('extra', [None, '', 'x']), v.flag('show')
    before = obs(e)
    b = e.bbox()
    cx, cy = (b.xl + b.xh) / 2, (b.yl + b.yh) / 2
    kw = {} if extra is None else {'extra': extra}
    if show:
        kw['show'] = True
    r = gb.rotate_about_center(e, deg, **kw)
    extra = extra or ''
    v.check('added under its new name', gb.lookup(N + '_r' + extra) is r and r.name == N + '_r' + extra)
    v.check('members', list(gb.the_group.elems) == [N, N + '_r' + extra] + [N + '_c' + extra] * show)
    unchanged(v, 'element', before, e)
    v.check_type('kind', r, type(e))
    v.eq('pen', obs(r.penbrush), obs(e.penbrush))
    c, s = v.cosd(deg), v.sind(deg)
    m = (c, s, cx - c * cx - s * cy, -s, c, cy + s * cx - c * cy)
    v.check('closedness', bool(r.closed) == bool(e.closed))
    if k == 'group':
        v.check('visibility and members', bool(r.hidden) == bool(e.hidden) and list(r.elems) == list(e.elems))
    if k not in ('curve', 'group') or not v.symbolic:
        same_drawing(v, 'outline', r.paths(ctx(v, T(), 2)), e.paths(ctx(v, T(m), 2)), ordered=False)
    if k == 'curve':
        v.eq('control points', [cp_pts(q) for q in r.control_points], [tuple(apply6(m, *p) for p in cp_pts(q)) for q in e.control_points])
        v.eq('own transform', r.xform.as_6tuple(), (1, 0, 0, 0, 1, 0))
    if show:
        mark = gb.lookup(N + '_c' + extra)
        v.check_type('marker', mark, M.ElemEllipse)
        v.eq('marker box', mark.bbox().as_tuple(), (cx - 1, cy - 1, cx + 1, cy + 1))
        v.eq('marker pen', obs(mark.penbrush), obs(e.penbrush))
        v.check('marker is closed', mark.closed)


@lemma('C38', 'GroupBuilder.draw GroupBuilder.hide GroupBuilder.iter_elems GroupBuilder.iter_elems_transformed GroupBuilder.replace GroupBuilder.dump', budget=40)
def delegates(v):
    M, T = v.m.model, v.m.transform.Transform
    gb = M.GroupBuilder('gb', mk_pens(v), 'edge_filled')
    p, q = pt(v, 'p'), pt(v, 'q')
    e = gb.rect('e', p, q)
    sub = gb.group('sub')
    f = sub.ellipse('f', q, p)
    D, Dt = mk_xform(v, 'D', kind='simple', invertible=True)

    def it(o, how, *a):
        return [(t, id(x), tuple(m.as_6tuple())) for t, x, m in getattr(o, how)(*a)]
    root = v.choice('root', [None, 'r'])
    v.eq('iteration', it(gb, 'iter_elems', root, D), it(gb.the_group, 'iter_elems', root, D))
    v.check('leaves', [x[1] for x in it(gb, 'iter_elems')] == [id(e), id(f)])
    v.eq('transformed', [obs(x) for x in gb.iter_elems_transformed(root, D)], [obs(x) for x in gb.the_group.iter_elems_transformed(root, D)])
    if not v.symbolic:
        v.check('dump', gb.dump().output() == gb.the_group.dump().output())
        dc = M.DumpContext()
        v.same('dump into the given context', gb.dump(dc), dc)
        v.check('dump into the given context', dc.output() == gb.the_group.dump().output())

    class Draw:
        def __init__(self):
            self.log = []

        def polygon(self, *a, **k):
            self.log.append('polygon')

        def line(self, *a, **k):
            self.log.append('line')

    def drawn():
        few_steps(v)
        dc = ctx(v, T(), 2)
        dc.draw = Draw()
        gb.draw(dc)
        return dc.draw.log
    v.check('drawn', drawn() == ['polygon', 'line'] * 2)
    g = new_el(v, 'rect', 'g')
    v.assume(v.or_(p.x != 0, p.y != 0))
    v.check('replaced', gb.replace(e, g) == 1)
    v.check('members', sorted(gb.the_group.elems) == ['g', 'sub'] and gb.lookup('g') is g)
    gb.hide()
    v.check('a hidden builder draws nothing', drawn() == [])


# =============================================================== C39
def curves_of(v, e, acc):
    """the curves an element stands for, mapped: list of (name, pen, closed, control points)"""
    t = type(e).__name__
    full = compose6(acc, e.xform.as_6tuple())
    if t == 'Group':
        return [c for x in e.elems.values() for c in curves_of(v, x, full)]
    if t == 'ElemWithHoles':
        return [c for x in [e.outside] + e.inside for c in curves_of(v, x, full)]
    cps = e.control_points if t == 'ElemCurve' else e.make_control_points()
    return [(e.name, obs(e.penbrush), bool(e.closed), [(cp.kind,) + tuple(apply6(full, *p) for p in cp_pts(cp)) for cp in cps])]


def check_curves(v, e, want):
    M = v.m.model
    before = obs(e)
    got = e.as_curves()
    v.check('one curve for every leaf, in order', len(got) == len(want))
    for c, (n, p, cl, cps) in zip(got, want):
        v.check_type('curve', c, M.ElemCurve)
        v.check('name', c.name == n)
        v.eq('pen', obs(c.penbrush), p)
        v.check('closed', bool(c.closed) == cl)
        v.eq('own transform', c.xform.as_6tuple(), (1, 0, 0, 0, 1, 0))
        v.eq('control points', [(q.kind,) + cp_pts(q) for q in c.control_points], [tuple(w) for w in cps])
    unchanged(v, 'element', before, e)
    # the curves are new: changing them changes no element
    for c in e.as_curves():
        spoil(v, c)
    unchanged(v, 'element after edits of the curves', before, e)
    return got


def spoil(v, c):
    """change everything in a curve that can be changed in place"""
    g = v.m.geom
    for cp in c.control_points:
        cp.c.setxy(91, 92)
        cp.dl.setxy(93, 94)
        cp.dr.set(g.Vector(95, 96))
        cp.kind = 'sharp' if cp.kind != 'sharp' else 'smooth'
    c.control_points.reverse()
    c.control_points.append(v.m.bezier.ControlPoint(g.Point(0, 0), g.Vector(0, 0), g.Vector(0, 0)))
    c.xform.translate(1, 2)
    c.penbrush = None
    c.closed = not c.closed


@lemma('C39', 'Elem.as_curves ElemCurve.as_digi_points ElemP1P2.as_digi_points ElemCurve.paths ElemEllipse.paths', budget=60)
def leaf_as_curve(v):
    T = v.m.transform.Transform
    few_steps(v)
    k = v.choice('kind', KINDS)
    X, Xt = mk_xform(v, 'X')
    closed = k != 'curve' or v.flag('closed')
    e = mk_el(v, 'e', k, X, 2, closed, corner='up')
    got = check_curves(v, e, curves_of(v, e, (1, 0, 0, 0, 1, 0)))
    if k == 'rect':
        ps = [e.p1.xy(), (e.p1.x, e.p2.y), e.p2.xy(), (e.p2.x, e.p1.y)]
        cs = [cp_pts(q) for q in got[0].control_points]
        v.same_set('corners', [c[1] if False else q.c.xy() for q in got[0].control_points], [apply6(Xt, *p) for p in ps])
        v.check('four corners', len(cs) == 4)
        for q in got[0].control_points:
            v.eq('straight sides', (q.dl.xy(), q.dr.xy()), ((0, 0), (0, 0)))
    elif k in ('curve', 'ellipse'):
        same_drawing(v, 'outline', got[0].paths(ctx(v, T(), 2 if v.symbolic else 20)), e.paths(ctx(v, T(), 2 if v.symbolic else 20)))


@lemma('C39', 'ElemCurve.as_digi_points Elem.as_curves', budget=60)
def curve_as_curve_any_length(v):
    M = v.m.model
    X, Xt = mk_xform(v, 'X')
    if v.flag('no own transform'):
        X, Xt = None, (1, 0, 0, 0, 1, 0)
    kind = v.choice('kind', ['smooth', 'sharp', 'very-smooth'])
    closed = v.flag('closed')

    def mk(v, n):
        cp, c = mk_cp(v, n, kind)
        return cp, (cp, c, obs(cp))
    S = v.seq('cps', mk, 1)
    e = M.ElemCurve('e', pen(v, closed), S.list, closed, X)
    got = e.as_curves()
    v.check('one curve', len(got) == 1)
    c, = got
    v.check('another element', c is not e)
    v.check('closed', bool(c.closed) == closed)
    v.eq('own transform', c.xform.as_6tuple(), (1, 0, 0, 0, 1, 0))

    def each(i, q):
        cp, w, before = S.at(i)
        v.eq('control point', cp_pts(q), tuple(apply6(Xt, *p) for p in w))
        v.check('kind', q.kind == kind)
        unchanged(v, 'original control point', before, cp)
        q.c.setxy(91, 92)
        q.dl.setxy(93, 94)
        q.dr.setxy(95, 96)
        unchanged(v, 'original control point, the new one edited', before, cp)
    v.each('control points', c.control_points, S.n, each)


@lemma('C39', 'Group.as_curves ElemWithHoles.as_curves Elem.as_curves ElemCurve.transform', bound='two members, nested twice', budget=60)
def nested_as_curves(v):
    M, C = v.m.model, v.m.colors
    X, Y, Z = [mk_xform(v, n)[0] for n in 'XYZ']
    holes = v.flag('holes')
    es = [mk_el(v, 'b', 'curve', Z, 1, holes or v.flag('closed')), mk_el(v, 'a', v.choice('second', ['rect', 'ellipse']), None)]
    if v.flag('twins'):                         # parts that are equal are still different parts
        es.insert(1, es[0].copy())
    if holes:
        inner = M.ElemWithHoles('h', pen(v), es[0], es[1:], True, Y)
    else:
        inner = M.Group('g', C.PenBrush('black'), v.flag('hidden'), Y, dict(zip('abc', es)))
    top = M.Group('t', C.PenBrush('black'), False, X, [inner, mk_el(v, 'z', 'rect')] if v.flag('after') else [mk_el(v, 'z', 'rect'), inner])
    which = v.choice('of', ['top', 'inner'])
    e = top if which == 'top' else inner
    check_curves(v, e, curves_of(v, e, (1, 0, 0, 0, 1, 0)))
    v.raises('no single list of points', ValueError, e.as_digi_points)


# =============================================================== C40
def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


@lemma('C40', 'ElemCurve.offset_pt', budget=60)
def offset_point(v):
    g, E = v.m.geom, v.m.model.ElemCurve
    p, (px, py) = mk_point(v, 'p')
    ax, ay, bx, by, d = v.reals('ax ay bx by d')
    dl, dr = g.Vector(ax, ay), g.Vector(bx, by)
    case = v.choice('case', ['zero left', 'zero right', 'straight', 'hairpin', 'angled'])
    if case == 'zero left':
        dl = g.Vector(0, 0)
    elif case == 'zero right':
        dr = g.Vector(0, 0)
    else:
        v.assume(v.or_(ax != 0, ay != 0))
        v.generic(abs(ax) + abs(ay) > 1e-2)
        if case in ('straight', 'hairpin'):
            k = v.real('k', pos=True)
            k = -k if case == 'straight' else k
            v.generic(abs(k) > 1e-2)
            dr = g.Vector(k * ax, k * ay)
            bx, by = k * ax, k * ay
        else:
            v.assume(v.or_(bx != 0, by != 0))
            v.generic(abs(bx) + abs(by) > 1e-2)
    before = obs(p), obs(dl), obs(dr)
    q = E.offset_pt(dl, p, dr, d)
    v.eq('arguments', (obs(p), obs(dl), obs(dr)), before)
    ux, uy = q.x - px, q.y - py
    if case.startswith('zero'):
        v.eq('left where it is', (ux, uy), (0, 0))
        return
    la, lb = v.hypot(ax, ay), v.hypot(bx, by)
    if case in ('straight', 'hairpin'):
        v.eq('moved sideways by the offset', (ux * la, uy * la), (d * ay, -d * ax))
        return
    s = cross((ax, ay), (bx, by)) / (la * lb)
    v.assume(v.abs(s) >= 1e-10)
    v.generic(abs(s) > 1e-3)
    # the unlimited move goes along the bisector, to distance d from both lines
    wx, wy = ax / la + bx / lb, ay / la + by / lb
    w = v.hypot(wx, wy)
    k = d * w / -s
    lim = E.OFFSET_PT_LIMIT
    v.generic(abs(abs(k) - lim) > 1e-3)
    if v.abs(k) <= lim:
        v.eq('distance d from the line to the left', cross((ux, uy), (ax, ay)), d * la)
        v.eq('distance d from the line to the right', cross((bx, by), (ux, uy)), d * lb)
    else:
        v.eq('limited length', ux * ux + uy * uy, lim * lim)
        v.eq('along the bisector', cross((ux, uy), (wx, wy)), 0)
        v.check('on the side of the offset', v.iff(ux * wx + uy * wy > 0, k > 0))


@lemma('C40', 'ElemCurve.offset polygon_area ControlPoint.reversed', bound='1 to 3 control points', budget=60)
def offset_curve(v):
    """every point of the control polygon, taken counterclockwise, moves as offset_pt moves it between its neighbours"""
    M, E = v.m.model, v.m.model.ElemCurve
    n = v.choice('n', [1, 2, 3]) if not v.symbolic else v.choice('n', [1, 2])
    closed = v.flag('closed')
    ks = ['smooth', 'sharp', 'very-smooth']
    cps = [mk_cp(v, 'c%d' % i, ks[i]) for i in range(n)]
    X, Xt = mk_xform(v, 'X') if not v.symbolic and v.flag('own') else (None, (1, 0, 0, 0, 1, 0))
    e = E('e', pen(v, closed), [c for c, _ in cps], closed, X)
    d = v.real('d')
    before = obs(e)
    real = E.offset_pt

    class Sub(E):
        @classmethod
        def offset_pt(cls, dl, p, dr, off):
            # the contract of offset_pt: a point depending on its arguments only
            return v.m.geom.Point(*[v.app(k, dl.x, dl.y, p.x, p.y, dr.x, dr.y, off) for k in ('ox', 'oy')])
    if v.symbolic:
        e.__class__ = Sub
        OP = Sub.offset_pt
    else:
        OP = real
    r = e.offset(d)
    e.__class__ = E
    v.check_type('a curve', r, E)
    v.check('name', r.name == 'e_o')
    v.eq('pen', obs(r.penbrush), obs(e.penbrush))
    v.check('closed', bool(r.closed) == closed)
    v.eq('no own transform', r.xform.as_6tuple(), (1, 0, 0, 0, 1, 0))
    unchanged(v, 'curve', before, e)
    pts = [tuple(apply6(Xt, *q) for q in c) for _, c in cps]        # (c, l, r)
    kinds = ks[:n]
    P = [q for c, l, rr in pts for q in (l, c, rr)]
    area = sum(cross(P[i], P[(i + 1) % len(P)]) for i in range(len(P)))
    v.generic(abs(area) > 1e-3)
    if area < 0:
        pts, kinds = [(c, rr, l) for c, l, rr in reversed(pts)], kinds[::-1]
    g = v.m.geom

    def moved(a, b, c):
        return OP(g.Vector(a[0] - b[0], a[1] - b[1]), g.Point(*b), g.Vector(c[0] - b[0], c[1] - b[1]), d).xy()
    v.check('count', len(r.control_points) == n)
    for i, q in enumerate(r.control_points):
        c, l, rr = pts[i]
        v.check('kind', q.kind == kinds[i])
        v.eq('control point', q.c.xy(), moved(l, c, rr))
        v.eq('left handle', q.l.xy(), moved(pts[i - 1][2], l, c))
        v.eq('right handle', q.r.xy(), moved(c, rr, pts[(i + 1) % n][1]))


@lemma('C40', 'ElemCurve.offset polygon_area ControlPoint.reversed', budget=60)
def offset_curve_any_length(v):
    E, g = v.m.model.ElemCurve, v.m.geom
    closed = v.flag('closed')
    kind = v.choice('kind', ['smooth', 'sharp', 'very-smooth'])

    def mk(v, n):
        cp, c = mk_cp(v, n, kind)
        return cp, (cp, c, obs(cp))
    S = v.seq('cps', mk, 2)         # one control point: offset_curve
    d = v.real('d')

    class Sub(E):
        @classmethod
        def offset_pt(cls, dl, p, dr, off):
            return v.m.geom.Point(*[v.app(k, dl.x, dl.y, p.x, p.y, dr.x, dr.y, off) for k in ('ox', 'oy')])
    e = E('e', pen(v, closed), S.list, closed)

    def at(i):
        c, l, rr = S.cyc(i)[1]
        return l, c, rr

    def term(i):
        l, c, rr = at(i)
        return cross(l, c) + cross(c, rr) + cross(rr, at(i + 1)[0])
    area = v.sum(S.n, term)
    v.generic(abs(area) > 1e-3)

    OP = Sub.offset_pt if v.symbolic else E.offset_pt
    if v.symbolic:
        e.__class__ = Sub
    r = e.offset(d)
    e.__class__ = E
    v.check_type('a curve', r, E)
    v.check('name', r.name == 'e_o')
    v.eq('pen', obs(r.penbrush), obs(e.penbrush))
    v.check('closed', bool(r.closed) == closed)

    flip = bool(area < 0)

    def moved(a, b, c):
        return OP(g.Vector(a[0] - b[0], a[1] - b[1]), g.Point(*b), g.Vector(c[0] - b[0], c[1] - b[1]), d).xy()

    def each(i, q):
        if flip:
            k = S.n - 1 - i
            (l, c, rr), prev, nxt = at(k)[::-1], at(k + 1)[::-1], at(k - 1)[::-1]
        else:
            k = i
            (l, c, rr), prev, nxt = at(i), at(i - 1), at(i + 1)
        v.check('kind', q.kind == kind)
        v.eq('control point', q.c.xy(), moved(l, c, rr))
        v.eq('left handle', q.l.xy(), moved(prev[2], l, c))
        v.eq('right handle', q.r.xy(), moved(c, rr, nxt[0]))
        unchanged(v, 'curve', S.at(k)[2], S.at(k)[0])
    v.each('control points', r.control_points, S.n, each)


# =============================================================== C41
@lemma('C41', 'ElemWithHoles.__init__ ElemWithHoles.lookup', bound='up to 3 holes', budget=40)
def holed_parts(v):
    M, C = v.m.model, v.m.colors
    n = v.choice('n', [0, 1, 2, 3])
    names = v.choice('names', [['i', 'j', 'k'], ['outside', 'inside', 'o'], ['', 'i', 'j']])[:n]
    out = new_el(v, v.choice('outer', ['rect', 'curve']), 'o')
    ins = [new_el(v, 'rect', k) for k in names]
    if v.flag('other pens'):
        out.penbrush = C.PenBrush(('red', 3), 'blue')
        for e, q in zip(ins, (C.PenBrush('red'), C.PenBrush(None, 'blue'), C.PenBrush(('pink', 1), 'green'))):
            e.penbrush = q
    P = C.PenBrush(v.choice('line', [('pink', 2), None]), v.choice('brush', ['green', None]))
    h = M.ElemWithHoles('h', P, out, ins, True)
    v.check('every part gets the pen', all(e.penbrush == P for e in [out] + ins))
    v.same('outside', h.outside, out)
    v.check('inside, in order', [id(e) for e in h.inside] == [id(e) for e in ins])
    v.same('found', h.lookup('outside.o'), out)
    for e in ins:
        v.same('found', h.lookup('inside.' + e.name), e)
    miss = v.choice('missing', ['outside', 'inside', 'outside.x', 'inside.x', 'o', 'i', 'outside.i', 'x.o', 'inside.i.x', '', 'inside.x.i', 'outside.x.o', 'inside..i',
                                'outside.o.', 'outside..o', 'inside.inside.i'])
    if not (miss.startswith('inside.') and miss[7:] in names or miss == 'inside' and '' in names):
        v.raises('missing', KeyError, h.lookup, miss)


@lemma('C41', 'ElemP1P2.bbox_int_update ElemP1P2.bbox_int BBox.p1 BBox.p2')
def box_assigned(v):
    k = v.choice('kind', ['rect', 'ellipse', 'rounded'])
    X, Xt = mk_xform(v, 'X')
    e = mk_el(v, 'e', k, X if v.flag('own') else None)
    b, t = mk_bbox(v, 'b')
    before = obs(e)
    e.bbox_int_update(b)
    v.eq('the box is the one given', e.bbox_int().as_tuple(), t)
    b2 = obs(b)
    v.eq('corners', (e.p1.xy(), e.p2.xy()), (t[:2], t[2:]))
    x, y = v.reals('x y')
    e.p1.setxy(x, y)
    v.eq('the box given is unchanged', b.as_tuple(), t)
    after = obs(e)
    v.eq('nothing else changed', after[:4] + after[6:], before[:4] + before[6:])


@lemma('C41', 'ElemP1P2.__init__')
def corners_are_fixed(v):
    """a rectangle built from any kind of point keeps its corners when the points it was built from move"""
    M, g = v.m.model, v.m.geom
    k = v.choice('kind', ['rect', 'ellipse', 'rounded'])
    p, pc = mk_point(v, 'p')
    q, qc = mk_point(v, 'q')
    a = (v.real('r', nonneg=True),) if k == 'rounded' else ()
    e = {'rect': M.ElemRectangle, 'ellipse': M.ElemEllipse, 'rounded': M.ElemRectangleRounded}[k]('e', pen(v), p, q, *a)
    x, y = v.reals('x y')
    for o in (p, q):
        if type(o) is g.PointCalc:
            o = o.base
        if type(o) is g.PointRelative:
            o = o.base
        o.setxy(x, y)
    v.eq('corners', (e.p1.xy(), e.p2.xy()), (pc, qc))
    v.check('absolute', type(e.p1) is g.Point and type(e.p2) is g.Point)
    e.p1.setxy(y, x)
    v.eq('and the other way round', q.xy() if type(q) is g.Point else (x, y), (x, y))


@lemma('C41', 'ElemCurve.bbox_int_update Group.bbox_int_update ElemWithHoles.bbox_int_update')
def boxes_that_cannot_be_assigned(v):
    k = v.choice('kind', ['curve', 'group', 'holes'])
    e = mk_any(v, 'e', k, False)
    before = obs(e)
    b, t = mk_bbox(v, 'b')
    v.raises('refused', ValueError, e.bbox_int_update, b)
    unchanged(v, 'element', before, e)
