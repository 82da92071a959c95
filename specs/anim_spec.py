"""C25 animated points, C26 morphs, C27 time shaping, C34 frame production."""
from common import *
from bezier_spec import mk_cp, cp_pts
from fake_pil import Im, fake_pil


# =============================================================== C25
def mk_anim(v, n, point, kinds=('linear', 'linear-func', 'sin', 'circle', 'generic')):
    """-> (animation, spec(t, start, target) , target point or None)"""
    A, g = v.m.anim, v.m.geom
    kind = v.choice('kind ' + n, list(kinds))
    target, tc = mk_point(v, n + '.target')
    if kind == 'linear':
        def spec(t, o):
            tx, ty = t if isinstance(t, tuple) else (t, t)
            return (1 - tx) * o[0] + tx * tc[0], (1 - ty) * o[1] + ty * tc[1]
        return A.AnimationLinear(point, target), spec, target
    if kind == 'linear-func':
        pair = v.flag(n + '.pair')

        def func(t):
            if isinstance(t, tuple):                # a function of its own for pairs
                return (v.app('px', *t), v.app('py', *t)) if pair else v.app('p', *t)
            return (v.app('fx', t), v.app('fy', t)) if pair else v.app('f', t)

        def spec(t, o):
            r = func(t)
            tx, ty = r if pair else (r, r)
            return (1 - tx) * o[0] + tx * tc[0], (1 - ty) * o[1] + ty * tc[1]
        return A.AnimationLinearFunc(point, target, func), spec, target
    if kind == 'sin':
        if v.flag(n + '.defaults'):
            fr, off = 1, 0
            a = A.AnimationSinusoidal(point, target)
        else:
            fr, off = v.real(n + '.freq'), v.real(n + '.off')
            a = A.AnimationSinusoidal(point, target, frequency=fr, offset=off)

        def spec(t, o):
            w = (1 - v.cosr(v.tau * fr * t + off * v.deg)) / 2
            return (1 - w) * o[0] + w * tc[0], (1 - w) * o[1] + w * tc[1]
        return a, spec, target
    if kind == 'circle':
        r, fr = v.real(n + '.r'), v.real(n + '.freq')
        if v.flag(n + '.defaults'):
            off = 0
            a = A.AnimationCircular(point, r, fr)
        else:
            off = v.real(n + '.off')
            a = A.AnimationCircular(point, r, fr, off)

        def spec(t, o):
            th = v.tau * fr * t + off
            return o[0] + r * v.sinr(th), o[1] + r * v.cosr(th)
        return a, spec, target

    seen = []

    def gfunc(t, orig, p):
        seen.append((t, orig.xy(), p))
        return v.app('gx', t, orig.x), v.app('gy', t, orig.y)
    a = A.AnimationGeneric(point, gfunc)
    a_seen[id(a)] = seen
    return a, (lambda t, o: (v.app('gx', t, o[0]), v.app('gy', t, o[1]))), target


a_seen = {}


@lemma('C25', 'AnimationLinear.update AnimationLinearFunc.update AnimationSinusoidal.update AnimationCircular.update '
       'AnimationGeneric.update Animation.__init__', budget=60)
def update_is_history_free(v):
    g = v.m.geom
    x0, y0 = v.reals('x0 y0')
    p = g.Point(x0, y0, 'moving')
    a, spec, target = mk_anim(v, 'a', p)
    tb = obs(target)
    # any state the previous updates may have left the point in, and any number of updates
    hx, hy = v.reals('hx hy')
    before = v.choice('history', ['none', 'moved', 'updated'])
    if before == 'moved':
        p.setxy(hx, hy)
    elif before == 'updated':
        a.update(v.real('t0'))
    t = v.real('t')
    if isinstance(a, v.m.anim.AnimationLinear):             # a time for each axis
        how = v.choice('time', ['number', 'pair', 'equal pair'])
        t = (t, v.real('ty')) if how == 'pair' else (t, t) if how == 'equal pair' else t
    a.update(t)
    xy_eq(v, 'position', p, spec(t, (x0, y0)))
    v.check('same point object', p.name == 'moving' and type(p) is g.Point)
    unchanged(v, 'target', tb, target)
    a.update(t)
    xy_eq(v, 'again', p, spec(t, (x0, y0)))
    p.setxy(hy, hx)
    a.update(t)
    xy_eq(v, 'again after a move from outside', p, spec(t, (x0, y0)))


@lemma('C25', 'AnimationLinear.update')
def linear_per_axis(v):
    g, A = v.m.geom, v.m.anim
    x0, y0, tx, ty = v.reals('x0 y0 tx ty')
    p = g.Point(x0, y0)
    target, tc = mk_point(v, 'target')
    a = A.AnimationLinear(p, target)
    a.update((tx, ty))
    xy_eq(v, 'per axis', p, ((1 - tx) * x0 + tx * tc[0], (1 - ty) * y0 + ty * tc[1]))
    a.update(0)
    xy_eq(v, 'start at 0', p, (x0, y0))
    a.update(1)
    xy_eq(v, 'target at 1', p, tc)


@lemma('C25', 'AnimationLinear.update AnimationSinusoidal.update Animation.__init__')
def start_is_taken_at_construction(v):
    """later moves of the point do not change the start; a moving target is followed"""
    g, A = v.m.geom, v.m.anim
    x0, y0, x1, y1, t = v.reals('x0 y0 x1 y1 t')
    p = g.Point(x0, y0)
    target, tc = mk_point(v, 'target', ('Point',))
    k = v.choice('kind', ['AnimationLinear', 'AnimationSinusoidal'])
    a = getattr(A, k)(p, target)
    p.setxy(x1, y1)
    target.setxy(y1, x1)
    a.update(t)
    w = t if k == 'AnimationLinear' else (1 - v.cosr(v.tau * t)) / 2
    xy_eq(v, 'from the start to the current target', p, ((1 - w) * x0 + w * y1, (1 - w) * y0 + w * x1))


@lemma('C25', 'AnimationHolder.update AnimationHolder.add AnimationGeneric.__init__ AnimationGeneric.update', bound='up to 3 animations')
def holder(v):
    g, A = v.m.geom, v.m.anim
    h = A.AnimationHolder()
    k = v.choice('n', [0, 1, 2, 3])
    log = []

    def mk(i):
        def f(t, orig, p):
            log.append((i, t, orig, p))
            return v.app('gx%d' % i, t), v.app('gy%d' % i, t)
        return f
    pts = [g.Point(*v.reals('x%d y%d' % (i, i))) for i in range(k)]
    starts = [p.xy() for p in pts]
    for i, p in enumerate(pts):
        h.add(A.AnimationGeneric(p, mk(i)))
    for n in range(2):
        t = v.real('t%d' % n)
        del log[:]
        h.update(t)
        v.check('each exactly once, in order', [e[0] for e in log] == list(range(k)))
        for i, lt, orig, p in log:
            v.eq('same t', lt, t)
            v.eq('start', orig.xy(), starts[i])
            v.same('the point', p, pts[i])
        for i, p in enumerate(pts):
            xy_eq(v, 'moved', p, (v.app('gx%d' % i, t), v.app('gy%d' % i, t)))


@lemma('C25', 'AnimationHolder.update AnimationLinear.update AnimationLinearFunc.update', budget=30)
def holder_any_size(v):
    """every animation held is updated to the time given, whatever updates came before"""
    g, A = v.m.geom, v.m.anim
    func = v.flag('time function')

    def mk(v, n):
        p, s, t = g.Point(*v.reals(n + '.x ' + n + '.y')), v.reals(n + '.sx ' + n + '.sy'), v.reals(n + '.tx ' + n + '.ty')
        p.setxy(*s)
        a = A.AnimationLinearFunc(p, g.Point(*t), lambda x: x * x) if func else A.AnimationLinear(p, g.Point(*t))
        return a, (p, s, t)
    S = v.seq('animations', mk, twins=False)
    h = A.AnimationHolder()
    h.animations = S.list
    pair = not func and v.flag('pairs of times')
    for k in range(v.choice('updates', [1, 2])):
        t = tuple(v.reals('tx%d ty%d' % (k, k))) if pair else v.real('t%d' % k)
        h.update(t)
    if v.flag('the same time again'):
        h.update(t)
    wx, wy = t if pair else (t * t, t * t) if func else (t, t)

    def each(i):
        p, s, e = S.at(i)
        xy_eq(v, 'moved to the time given', p, (s[0] + wx * (e[0] - s[0]), s[1] + wy * (e[1] - s[1])))
    v.check_each(S, each)


@lemma('C25', 'AnimationGeneric.__init__ AnimationLinear.__init__ AnimationSinusoidal.__init__ AnimationCircular.__init__')
def only_points_animate(v):
    g, A = v.m.geom, v.m.anim
    x, y = v.reals('x y')
    bad = v.choice('bad', ['rel', 'vec'])
    o = g.PointRelative(x, y, g.Point(0, 0)) if bad == 'rel' else g.Vector(x, y)
    t = g.Point(y, x)
    v.raises('generic', ValueError, A.AnimationGeneric, o, lambda t, o, p: (0, 0))
    v.raises('linear', ValueError, A.AnimationLinear, o, t)
    v.raises('sin', ValueError, A.AnimationSinusoidal, o, t)
    v.raises('circular', ValueError, A.AnimationCircular, o, x, y)


# =============================================================== C26
def mk_curve(v, n, k, name=None, closed=True, pen=('blue', 2), xform=None, kinds=False, like=None):
    M, C = v.m.model, v.m.colors
    cps = [mk_cp(v, '%s%d' % (n, i), ('smooth', 'sharp', 'very-smooth')[i % 3] if kinds else 'smooth')[0] for i in range(k)]
    if not v.symbolic:
        for i, q in enumerate(cps):
            q.kind = v.special('%s%d.kind' % (n, i), ['sharp', 'very-smooth', 'smooth']) or q.kind
        if like and v.special(n + '.like', [True], 0.25):
            i = v.integer(n + '.same', 0, k - 1)    # a point in the same place
            cps[i] = like.control_points[i].copy()
    return M.ElemCurve(name or n, C.PenBrush(pen), cps, closed, xform)


def blend(a, b, w):
    return tuple((1 - w) * p + w * q for p, q in zip(a, b))


def raw_cps(c):
    return [tuple(cp.c.xy()) + tuple(cp.dl.xy()) + tuple(cp.dr.xy()) for cp in c.control_points]


@lemma('C26', 'Morph.__init__ Morph.update Morph.restore Morph.validate ElemCurve.fixed Group.replace', bound='1 to 3 control points', budget=40)
def morph(v):
    M, C, A = v.m.model, v.m.colors, v.m.anim
    k = v.choice('points', [1, 2, 3])
    xf, xe = mk_xform(v, 'own')
    src = mk_curve(v, 'src', k, xform=xf, kinds=True)
    tgt = src if v.flag('into itself') else mk_curve(v, 'tgt', k, kinds=True, like=src)
    other = mk_curve(v, 'oth', 1, name='other')
    nested = v.flag('nested')
    inner = M.Group('inner', C.PenBrush('black'), elems=[src, other])
    model = M.Group('outer', C.PenBrush('black'), elems=[inner]) if nested else inner
    sb, tb, ob = obs(src), obs(tgt), obs(other)
    hidden = [False]
    m = A.Morph(model, src, tgt, lambda t: None if hidden[0] else v.app('f', t), force=v.flag('force'))
    v.check('member replaced', inner.lookup('src') is not src and inner.lookup('other') is other)
    cur = inner.lookup('src')
    v.check('members', sorted(inner.elems) == ['other', 'src'])
    v.check('number of points', len(cur.control_points) == k)
    v.eq('starts as the source', obs(cur.penbrush) + (cur.closed, cur.name), obs(src.penbrush) + (src.closed, src.name))
    v.eq('own transform', cur.xform.as_6tuple(), xe)
    for step in range(2):
        t = v.real('t%d' % step)
        hidden[0] = v.flag('hidden%d' % step)
        m.update(t)
        if hidden[0]:
            v.eq('off-screen', raw_cps(cur), [(1e6, 1e6, 0, 0, 0, 0)] * k)
        else:
            w = v.app('f', t)
            v.eq('blend', raw_cps(cur), [blend(a, b, w) for a, b in zip(raw_cps(src), raw_cps(tgt))])
        v.check('kinds', [c.kind for c in cur.control_points] == [c.kind for c in src.control_points])
    unchanged(v, 'source', sb, src)
    unchanged(v, 'target', tb, tgt)
    unchanged(v, 'other member', ob, other)
    v.same('still in the model', inner.lookup('src'), cur)
    m.restore()
    v.same('source is back', inner.lookup('src'), src)
    v.check('members after restore', sorted(inner.elems) == ['other', 'src'] and inner.lookup('other') is other)
    unchanged(v, 'source after restore', sb, src)


def mk_pairs(v, n, parts=2):
    """control points of several curves of one (any) length"""
    def mk(v, n):
        cps = tuple(mk_cp(v, '%s.%s' % (n, 'stuw'[q]), 'sharp' if q else 'smooth') for q in range(parts))
        if not v.symbolic:
            if v.special(n + '.same', [True], 0.15):            # the point is in the same place in all of them
                cps = tuple((cps[0][0].copy(), cps[0][1]) for _ in cps)
            k = v.special(n + '.kind', ['sharp', 'very-smooth'])
            if k:
                cps[0][0].kind = k
        return tuple(cp for cp, _ in cps), tuple((cp, c, obs(cp)) for cp, c in cps)
    return v.seq(n, mk, minlen=1)


def raw_cp(cp):
    return tuple(cp.c.xy()) + tuple(cp.dl.xy()) + tuple(cp.dr.xy())


@lemma('C26', 'Morph.__init__ Morph.update Morph.restore Morph.validate ElemCurve.fixed Group.replace', budget=60)
def morph_any_length(v):
    """curves of any number of control points"""
    M, C, A = v.m.model, v.m.colors, v.m.anim
    xf, xe = mk_xform(v, 'own')
    S = mk_pairs(v, 'cps')
    src = M.ElemCurve('src', C.PenBrush(('blue', 2)), v.map(lambda p: p[0], S.list), True, xf)
    tgt = M.ElemCurve('tgt', C.PenBrush(('blue', 2)), v.map(lambda p: p[1], S.list), True)
    other = mk_curve(v, 'oth', 1, name='other')
    model = M.Group('g', C.PenBrush('black'), elems=[src, other])
    ob = obs(other)
    hidden = [False]
    m = A.Morph(model, src, tgt, lambda t: None if hidden[0] else v.app('f', t), force=v.flag('force'))
    v.check('member replaced', model.lookup('src') is not src and model.lookup('other') is other)
    cur = model.lookup('src')
    v.check('members', sorted(model.elems) == ['other', 'src'])
    v.eq('starts as the source', obs(cur.penbrush) + (cur.closed, cur.name), obs(src.penbrush) + (src.closed, src.name))
    v.eq('own transform', cur.xform.as_6tuple(), xe)
    for step in range(v.choice('updates', [1, 2])):
        t = v.real('t%d' % step)
        hidden[0] = v.flag('hidden%d' % step)
        m.update(t)

        def check(i, cp):
            (s, _, sb), (g, _, gb) = S.at(i)
            if hidden[0]:
                v.eq('off-screen', raw_cp(cp), (1e6, 1e6, 0, 0, 0, 0))
            else:
                v.eq('blend', raw_cp(cp), blend(raw_cp(s), raw_cp(g), v.app('f', t)))
            v.check('kinds', cp.kind == s.kind)
            v.check('own points', cp is not s and cp is not g and cp.c is not s.c and cp.dl is not s.dl and cp.dr is not s.dr)
        v.each('control points', cur.control_points, S.n, check)

    def same(i):
        (s, _, sb), (g, _, gb) = S.at(i)
        unchanged(v, 'source', sb, s)
        unchanged(v, 'target', gb, g)
    v.check_each(S, same)
    v.each('points of the source', src.control_points, S.n, lambda i, cp: v.check('same', cp is S.at(i)[0][0]))
    v.each('points of the target', tgt.control_points, S.n, lambda i, cp: v.check('same', cp is S.at(i)[1][0]))
    unchanged(v, 'other member', ob, other)
    v.same('still in the model', model.lookup('src'), cur)
    m.restore()
    v.same('source is back', model.lookup('src'), src)
    v.check('members after restore', sorted(model.elems) == ['other', 'src'] and model.lookup('other') is other)


@lemma('C26', 'Morph.__init__')
def morph_source_missing(v):
    M, C, A = v.m.model, v.m.colors, v.m.anim
    src, tgt = mk_curve(v, 'src', 1), mk_curve(v, 'tgt', 1)
    other = mk_curve(v, 'oth', 1)
    model = M.Group('g', C.PenBrush('black'), elems=[other])
    cls = v.choice('class', ['Morph', 'MorphMultiStep'])
    before = obs(model)
    if cls == 'Morph':
        v.raises('not in the model', A.MorphError, A.Morph, model, src, tgt, lambda t: t)
    else:
        v.raises('not in the model', A.MorphError, A.MorphMultiStep, model, src, [(1.0, tgt)], lambda t: t)
    unchanged(v, 'model', before, model)
    tgt2 = mk_curve(v, 'tgt', 2)
    if cls == 'Morph':
        v.raises('different lengths without force', A.MorphError, A.Morph, model, other, tgt2, lambda t: t, force=False)


@lemma('C26', 'Morph.__init__ ElemCurve.add_one bez_split', bound='1 to 3 control points', budget=40)
def morph_equalises(v):
    """with force, curves of different length get the common (larger) number of points"""
    M, C, A = v.m.model, v.m.colors, v.m.anim
    a, b = v.choice('lengths', [(1, 2), (2, 1), (2, 3), (3, 2)])
    src, tgt = mk_curve(v, 'src', a), mk_curve(v, 'tgt', b)
    model = M.Group('g', C.PenBrush('black'), elems=[src])
    m = A.Morph(model, src, tgt, lambda t: v.app('f', t))
    cur = model.lookup('src')
    v.check('common length', len(cur.control_points) == max(a, b) == len(src.control_points) == len(tgt.control_points))
    s, g = raw_cps(src), raw_cps(tgt)
    t = v.real('t')
    m.update(t)
    w = v.app('f', t)
    v.eq('blend', raw_cps(cur), [blend(p, q, w) for p, q in zip(s, g)])
    v.eq('source', raw_cps(src), s)
    v.eq('target', raw_cps(tgt), g)


@lemma('C26', 'MorphMultiStep.__init__ MorphMultiStep.update MorphMultiStep.restore', bound='1 to 2 control points, 1 to 3 targets', budget=60)
def multi_step(v):
    M, C, A = v.m.model, v.m.colors, v.m.anim
    k = v.choice('points', [1, 2])
    n = v.choice('targets', [1, 2, 3])
    src = mk_curve(v, 'src', k)
    curves = [mk_curve(v, 'tgt%d' % i, k, like=src) for i in range(n)]
    steps = [0]
    for i in range(n):
        d = v.real('d%d' % i, pos=True)
        v.generic(d > 0.05)
        steps.append(steps[-1] + d)
    other = mk_curve(v, 'oth', 1, name='other')
    model = M.Group('g', C.PenBrush('black'), elems=[other, src])
    sb, tb = obs(src), obs(curves)
    hidden = [False]
    m = A.MorphMultiStep(model, src, list(zip(steps[1:], curves)), lambda t: None if hidden[0] else v.app('f', t), force=False)
    cur = model.lookup('src')
    v.check('member replaced', cur is not src and model.lookup('other') is other)
    allc = [raw_cps(src)] + [raw_cps(c) for c in curves]
    for rep in range(1 if n > 1 else 2):
        t = v.real('t%d' % rep)
        if rep == 0 and v.flag('moved before'):
            cur.control_points[0].c.setxy(*v.reals('hx hy'))
        hidden[0] = v.flag('hidden%d' % rep)
        m.update(t)
        if hidden[0]:
            v.eq('off-screen', raw_cps(cur), [(1e6, 1e6, 0, 0, 0, 0)] * k)
            continue
        f = v.app('f', t)
        got = raw_cps(cur)
        if f < 0:
            v.eq('before the first step', got, allc[0])
        elif f >= steps[-1]:
            v.eq('after the last step', got, allc[-1])
        else:
            for i in range(n):
                if f < steps[i + 1]:
                    w = (f - steps[i]) / (steps[i + 1] - steps[i])
                    v.eq('between steps', got, [blend(a, b, w) for a, b in zip(allc[i], allc[i + 1])])
                    break
    unchanged(v, 'source', sb, src)
    unchanged(v, 'targets', tb, curves)
    m.restore()
    v.same('source is back', model.lookup('src'), src)
    v.check('other member', model.lookup('other') is other and len(model.elems) == 2)
    unchanged(v, 'source after restore', sb, src)


@lemma('C26', 'MorphMultiStep.__init__ MorphMultiStep.update MorphMultiStep.restore', bound='1 to 3 targets (any number of control points)', budget=60)
def multi_step_any_length(v):
    M, C, A = v.m.model, v.m.colors, v.m.anim
    n = v.choice('targets', [1, 2, 3])
    S = mk_pairs(v, 'cps', n + 1)
    pb = C.PenBrush(('blue', 2))
    src, *curves = [M.ElemCurve('c%d' % q, pb, v.map(lambda p, q=q: p[q], S.list), True) for q in range(n + 1)]
    steps = [0]
    for i in range(n):
        d = v.real('d%d' % i, pos=True)
        v.generic(d > 0.05)
        steps.append(steps[-1] + d)
    other = mk_curve(v, 'oth', 1, name='other')
    model = M.Group('g', C.PenBrush('black'), elems=[other, src])
    hidden = v.flag('hidden')
    m = A.MorphMultiStep(model, src, list(zip(steps[1:], curves)), lambda t: None if hidden else v.app('f', t), force=False)
    cur = model.lookup('c0')
    v.check('member replaced', cur is not src and model.lookup('other') is other)
    t = v.real('t')
    m.update(t)
    f = v.app('f', t)

    def check(i, cp):
        all_ = [raw_cp(q[0]) for q in S.at(i)]
        got = raw_cp(cp)
        v.check('own points', all(cp is not q[0] and cp.c is not q[0].c for q in S.at(i)))
        if hidden:
            v.eq('off-screen', got, (1e6, 1e6, 0, 0, 0, 0))
        elif f < 0:
            v.eq('before the first step', got, all_[0])
        elif f >= steps[-1]:
            v.eq('after the last step', got, all_[-1])
        else:
            for j in range(n):
                if f < steps[j + 1]:
                    w = (f - steps[j]) / (steps[j + 1] - steps[j])
                    v.eq('between steps', got, blend(all_[j], all_[j + 1], w))
                    break
    v.each('control points', cur.control_points, S.n, check)

    def same(i):
        for cp, c, before in S.at(i):
            unchanged(v, 'source and targets', before, cp)
    v.check_each(S, same)
    m.restore()
    v.same('source is back', model.lookup('c0'), src)
    v.check('other member', model.lookup('other') is other and len(model.elems) == 2)


@lemma('C26', 'MorphMultiStep.__init__ MorphMultiStep.update MorphMultiStep.restore', budget=60)
def multi_step_any_number(v):
    """any number of targets with increasing times"""
    M, C, A = v.m.model, v.m.colors, v.m.anim
    k = 1 if v.symbolic else v.choice('points', [1, 2])
    src = mk_curve(v, 'src', k)

    def mk(v, n, t):
        c = mk_curve(v, n, k)
        return (t, c), (c, raw_cps(c), obs(c))
    T = v.timeline('tgt', mk, after=0)
    other = mk_curve(v, 'oth', 1, name='other')
    model = M.Group('g', C.PenBrush('black'), elems=[other, src])
    sb, first = obs(src), raw_cps(src)
    hidden = v.flag('hidden')
    where = 'any' if hidden else v.choice('where', ['before', 'first', 'between', 'after'])
    i = v.integer('i', lo=0, hi=None if v.symbolic else T.n - 1)
    v.assume(i < T.n)
    z = v.real('z')
    w = None
    if where == 'before':
        f = z if v.symbolic else -abs(z) - 0.125
        v.assume(f < 0)
    elif where == 'first':
        f = z if v.symbolic else T.t(0) * (abs(z) % 1)
        v.assume(f >= 0)
        v.assume(f < T.t(0))
        w = f / T.t(0)
    elif where == 'between':
        v.assume(i < T.n - 1)
        a, b = T.t(i), T.t(i + 1)
        f = z if v.symbolic else a + (b - a) * (abs(z) % 1)
        v.assume(f >= a)
        v.assume(f < b)
        w = (f - a) / (b - a)
    else:
        f = z if v.symbolic else T.t(T.n - 1) + abs(z)
        v.assume(f >= T.t(T.n - 1))
    m = A.MorphMultiStep(model, src, T.list, lambda t: None if hidden else f, force=False)
    cur = model.lookup('src')
    v.check('member replaced', cur is not src and model.lookup('other') is other)
    m.update(v.real('t'))
    got = raw_cps(cur)
    if hidden:
        v.eq('off-screen', got, [(1e6, 1e6, 0, 0, 0, 0)] * k)
    elif where == 'before':
        v.eq('before the first step', got, first)
    elif where == 'first':
        v.eq('towards the first target', got, [blend(p, q, w) for p, q in zip(first, T.at(0)[1])])
    elif where == 'between':
        v.eq('between steps', got, [blend(p, q, w) for p, q in zip(T.at(i)[1], T.at(i + 1)[1])])
    else:
        v.eq('after the last step', got, T.at(T.n - 1)[1])
    unchanged(v, 'source', sb, src)
    c, _, before = T.at(i)
    unchanged(v, 'targets', before, c)
    m.restore()
    v.same('source is back', model.lookup('src'), src)
    v.check('other member', model.lookup('other') is other and len(model.elems) == 2)
    unchanged(v, 'source after restore', sb, src)


@lemma('C26', 'MorphMultiStep.__init__ MorphMultiStep.update', bound='2 targets of 1 control point', budget=40)
def two_steps_at_one_time(v):
    """a second step at the time of another one: the curve jumps there and is blended as usual everywhere else"""
    M, C, A = v.m.model, v.m.colors, v.m.anim
    src, b, c = [mk_curve(v, n, 1) for n in ('src', 'b', 'c')]
    model = M.Group('g', C.PenBrush('black'), elems=[src])
    s = v.real('s', pos=True)
    v.generic(s > 0.05)
    late = v.flag('late')
    m = A.MorphMultiStep(model, src, [(s, b), (s, c)] if late else [(0, b), (s, c)], lambda t: t, force=False)
    cur = model.lookup('src')
    p, q, r = map(raw_cps, (src, b, c))
    m.update(s / 2)
    v.eq('halfway', raw_cps(cur), [blend(x, y, 0.5) for x, y in zip(*((p, q) if late else (q, r)))])
    m.update(s if late else 0)
    got = raw_cps(cur)
    two = (q, r) if late else (p, q)
    if not v.symbolic:
        v.check('one of the two', any(all(abs(x - y) < 1e-6 for x, y in zip(got[0], w[0])) for w in two))
    m.update(s + 1)
    v.eq('after', raw_cps(cur), r)
    m.update(-1)
    v.eq('before', raw_cps(cur), p)


@lemma('C26', 'MorphMultiStep.__init__ MorphMultiStep.update', bound='seeded random curves', sym=False, fuzz=80)
def multi_step_aligned(v):
    """with force every step is rotated to start near its lower left corner; the blend is still between the steps"""
    M, C, A = v.m.model, v.m.colors, v.m.anim
    ks = [v.choice('k%d' % i, [1, 2, 3, 4]) for i in range(3)]
    src = mk_curve(v, 'src', ks[0])
    cs = [mk_curve(v, 't%d' % i, ks[i]) for i in (1, 2)]
    model = M.Group('g', C.PenBrush('black'), elems=[src])
    sb = obs(src)
    if v.choice('targets', [1, 2, 2]) == 1:
        m = A.MorphMultiStep(model, src, [(1.0, cs[1])], lambda t: t)
        v.check('common length', len(model.lookup('src').control_points) == max(ks[0], ks[2]) == len(cs[1].control_points))
        m.update(1.0)
        v.eq('at the step', raw_cps(model.lookup('src')), raw_cps(cs[1]))
        unchanged(v, 'source', sb, src)
        m.restore()
        v.same('source is back', model.lookup('src'), src)
        unchanged(v, 'source', sb, src)
        return
    m = A.MorphMultiStep(model, src, [(0.5, cs[0]), (1.0, cs[1])], lambda t: t)
    unchanged(v, 'source', sb, src)
    cur = model.lookup('src')
    v.check('common length', len(cur.control_points) == max(ks) == len(cs[0].control_points) == len(cs[1].control_points))
    a, b = raw_cps(cs[0]), raw_cps(cs[1])
    m.update(0.5)
    v.eq('at a step', raw_cps(cur), a)
    m.update(1.0)
    v.eq('at the last step', raw_cps(cur), b)
    m.update(0.75)
    v.eq('halfway', raw_cps(cur), [blend(p, q, 0.5) for p, q in zip(a, b)])
    m.update(7)
    v.eq('after', raw_cps(cur), b)
    for c in cs:
        bb = c.bbox()
        d = [(bb.p1 - cp.c).length() for cp in c.control_points]
        v.check('first point is the one nearest the lower left', d[0] <= min(d) + 1e-9)


# =============================================================== C27
@lemma('C27', 'Animation.interpolate', bound='1 to 4 points', budget=40)
def interpolate(v):
    A = v.m.anim.Animation
    v.trust('numpy.interp is piecewise linear interpolation, constant outside')
    n = v.choice('n', [1, 2, 3, 4])
    ts = [v.real('t0')]
    for i in range(1, n):
        d = v.real('d%d' % i, pos=True)
        v.generic(d > 1e-3)
        ts.append(ts[-1] + d)
    vs = [v.real('v%d' % i) for i in range(n)]
    lst = list(zip(ts, vs))
    f = A.interpolate(lst)

    def spec(x):
        r = vs[-1]
        for i in range(n - 2, -1, -1):
            r = v.ite(x < ts[i + 1], vs[i] + (vs[i + 1] - vs[i]) * ((x - ts[i]) / (ts[i + 1] - ts[i])), r)
        return v.ite(x < ts[0], vs[0], r)
    x, y = v.reals('x y')
    if v.flag('pair'):
        v.eq('per axis', f((x, y)), (spec(x), spec(y)))
    else:
        v.eq('value', f(x), spec(x))
        v.eq('other value', f(y), spec(y))
        v.eq('value again', f(x), spec(x))
    for i in range(n):
        v.eq('through the points', f(ts[i]), vs[i])
    v.eq('input list', lst, list(zip(ts, vs)))


@lemma('C27', 'Animation.interpolate', budget=40)
def interpolate_any_number(v):
    """any number of points with increasing times"""
    v.trust('numpy.interp is piecewise linear interpolation, constant outside')

    def mk(v, n, t):
        y = v.real(n + '.y')
        return (t, y), y
    T = v.timeline('p', mk)
    f = v.m.anim.Animation.interpolate(T.list)
    x = v.real('x')
    i = v.integer('i', lo=0, hi=None if v.symbolic else T.n - 1)
    v.assume(i < T.n)
    where = v.choice('where', ['at', 'before', 'between', 'after'])
    pair = (not v.symbolic or where in ('before', 'after')) and v.flag('pair')

    def at(t):
        if pair:
            r = f((t, t))
            v.check('a pair', isinstance(r, tuple) and len(r) == 2)
            v.num_eq('each axis', r[0], r[1])
            return r[1]
        return f(t)
    if where == 'at':
        v.num_eq('through the points', at(T.t(i)), T.at(i))
    elif where == 'before':
        x = x if v.symbolic else T.t(0) - 0.125 - abs(x)
        v.assume(x < T.t(0))
        v.num_eq('before', at(x), T.at(0))
    elif where == 'after':
        x = x if v.symbolic else T.t(T.n - 1) + abs(x)
        v.assume(x >= T.t(T.n - 1))
        v.num_eq('after', at(x), T.at(T.n - 1))
    else:
        v.assume(i < T.n - 1)
        a, b = T.t(i), T.t(i + 1)
        if not v.symbolic:
            x = a + (b - a) * (abs(x) % 1)
        v.assume(x >= a)
        v.assume(x < b)
        v.num_eq('between', at(x), T.at(i) + (T.at(i + 1) - T.at(i)) * ((x - a) / (b - a)))


@lemma('C27', 'Animation.ramp_up Animation.ramp_down Animation.interpolate', budget=40)
def ramps(v):
    A = v.m.anim.Animation
    up = v.flag('up')
    if v.flag('defaults'):
        s, e = 0.25, 0.75
        f = (A.ramp_up if up else A.ramp_down)()
    else:
        s = v.real('s', lo=0, hi=1)
        e = v.real('e', lo=0, hi=1)
        v.assume(s < e)
        v.generic(e - s > 1e-3)
        f = (A.ramp_up if up else A.ramp_down)(s, e)
    t = v.real('t')
    r = v.ite(t <= s, 0, v.ite(t >= e, 1, (t - s) / (e - s)))
    v.eq('ramp', f(t), r if up else 1 - r)
    u = v.real('u')
    q = v.ite(u <= s, 0, v.ite(u >= e, 1, (u - s) / (e - s)))
    v.eq('pair', f((t, u)), (r, q) if up else (1 - r, 1 - q))


@lemma('C27', 'Animation.periodic Animation.sin Animation.cos Animation.sin_cos')
def periodic(v):
    A = v.m.anim.Animation
    kind = v.choice('kind', ['sin', 'cos', 'sin_cos', 'periodic'])
    if v.flag('defaults'):
        fr, off, sc, sh = 1, 0, 1, 0
        args = ()
    else:
        fr, off, sc, sh = args = v.reals('fr off sc sh')
    f = getattr(A, kind)(*args) if kind != 'periodic' else A.periodic(lambda a: v.app('trig', a), *args)
    for n in range(2):
        t = v.real('t%d' % n)
        a = v.tau * fr * t + off * v.deg
        if kind == 'sin_cos':
            v.eq(kind, f(t), (v.sinr(a) * sc + sh, v.cosr(a) * sc + sh))
        else:
            w = dict(sin=v.sinr, cos=v.cosr, periodic=lambda a: v.app('trig', a))[kind](a)
            v.eq(kind, f(t), w * sc + sh)


@lemma('C27', 'Animation.identity Animation.identity_xy Animation.xy Animation.hide_if')
def combinators(v):
    A = v.m.anim.Animation
    t, u, th = v.reals('t u th')
    v.eq('identity', A.identity()(t), t)
    v.eq('identity of a pair', A.identity()((t, u)), (t, u))
    v.eq('identity_xy', A.identity_xy()(t), (t, t))
    v.eq('identity_xy of a pair', A.identity_xy()((t, u)), (t, u))
    f = A.xy(lambda t: v.app('fx', t), lambda t: v.app('fy', t))
    v.eq('xy', f(t), (v.app('fx', t), v.app('fy', t)))
    v.eq('xy again', f(u), (v.app('fx', u), v.app('fy', u)))
    v.eq('xy defaults', A.xy()(t), (t, t))
    f = lambda t: v.app('fx', t)
    v.eq('xy of one function', A.xy(f, f)(t), (v.app('fx', t), v.app('fx', t)))
    if v.flag('default threshold'):
        h, th = A.hide_if(lambda t: v.app('f', t)), 0
    else:
        h = A.hide_if(lambda t: v.app('f', t), th)
    for a in (t, u):
        r, w = h(a), v.app('f', a)
        if r is None:
            v.check('hidden below the threshold', w < th)
        else:
            v.check('shown from the threshold on', w >= th)
            v.eq('value', r, w)


# =============================================================== C34
class FakeImg:
    def __init__(self, bb, size=(100, 100)):
        self.bb = bb
        self.size = size

    def getbbox(self):
        return self.bb


@lemma('C34', 'SimpleAnimation.animate SimpleAnimation.next_step SimpleAnimation.finish_step StepContext.__exit__ StepContext.__enter__ Transform.canvas_fit Transform.scale_bbox',
       bound='0 < steps <= 4', budget=40)
def simple_animation(v):
    S, g = v.m.anim_simple, v.m.geom
    n = v.choice('steps', [1, 2, 3, 4])
    b, t = mk_bbox(v, 'box', area=True)
    v.generic(t[2] - t[0] > 1e-2)
    v.generic(t[3] - t[1] > 1e-2)
    lo, hi = v.reals('lo hi')
    v.assume(lo != hi)
    w, h = v.choice('size', [(8, 6), (5, 5)])
    calls = []

    def draw(dc, tt):
        calls.append((tt, dc.matrix.as_6tuple(), dc, len(sa.images)))
        if spoils:
            dc.matrix.translate(1, 2).scale(3, 2)
            dc.matrix.push()
    spoils = v.flag('drawing changes its matrix')
    sa = S.SimpleAnimation(draw, image_size=(w, h), draw_bbox=t, steps=n, t_low=lo, t_high=hi)
    sa.animate()
    v.check('one call per frame', len(calls) == n + 1)
    v.check('one image per frame', len(sa.images) == n + 1)
    sx, sy = v.real('px'), v.real('py')
    for i, (tt, e, dc, had) in enumerate(calls):
        v.eq('time', tt, lo + i * (hi - lo) / n)
        kx, ky = w / (t[2] - t[0]), h / (t[3] - t[1])
        v.eq('lower left', apply6(e, t[0], t[1]), (0, h))
        v.eq('upper right', apply6(e, t[2], t[3]), (w, 0))
        v.eq('map', apply6(e, sx, sy), ((sx - t[0]) * kx, h - (sy - t[1]) * ky))
        v.check('image appended after its call', had == i)
        v.check('own context', all(dc is not c[2] for c in calls[:i]))
    v.check('image size', all(im.size == (w, h) for im in sa.images))
    v.check('distinct images', len(set(map(id, sa.images))) == n + 1)


@lemma('C34', 'SimpleAnimation.animate SimpleAnimation.next_step SimpleAnimation.finish_step DrawingContext.__init__ DrawingContext.image '
       'DrawingContext.line', budget=60)
def simple_animation_any_steps(v):
    """any number of steps, any image size: frame i is the background, under what is drawn at time i"""
    S = v.m.anim_simple
    n = v.integer('steps', 1)
    if not v.symbolic:
        v.assume(n <= 2000)
    b, t = mk_bbox(v, 'box', area=True)
    v.generic(t[2] - t[0] > 1e-2)
    v.generic(t[3] - t[1] > 1e-2)
    lo, hi = v.reals('lo hi')
    v.assume(lo != hi)
    w, h = v.integer('w', 1, 40), v.integer('h', 1, 40)

    def draw(dc, tt):
        dc.line(tt, 1, 2, tt, color='red', width=3)
    with fake_pil():
        sa = S.SimpleAnimation(draw, image_size=(w, h), draw_bbox=t, steps=n, t_low=lo, t_high=hi)
        sa.animate()

        def f(i, im):
            under, over = im.content[1], im.content[2]
            v.check('layer over background', im.content[0] == 'over' and not im.ops and under[0][0] == 'new' and len(under) == 1)
            v.check('what was drawn', len(over) == 2 and len(over[1]) == 1 and over[1][0][0] == 'line' and over[1][0][2:] == ('red', 3))
            kx, ky = w / (t[2] - t[0]), h / (t[3] - t[1])
            tt = lo + i * (hi - lo) / n
            v.eq('drawn at its time, under the map of the box to the image', over[1][0][1],
                 ((tt - t[0]) * kx, h - (1 - t[1]) * ky, (2 - t[0]) * kx, h - (tt - t[1]) * ky))
            v.eq('size', im.size, (w, h))
        v.each('frames', sa.images, n + 1, f)


@lemma('C34', 'SimpleAnimation.animate', bound='defaults and long runs, seeded', sym=False, fuzz=6)
def simple_animation_long(v):
    S = v.m.anim_simple
    n = v.choice('steps', [17, 40])
    calls = []
    sa = S.SimpleAnimation(lambda dc, t: calls.append(t), image_size=(3, 3), steps=n)
    sa.animate()
    v.eq('times', calls, [i / n for i in range(n + 1)])
    v.check('images', len(sa.images) == n + 1)


@lemma('C34', 'Builder.build_all Builder.build_one AnimationHolder.update', bound='1 to 4 steps', budget=40)
def builder(v):
    A, M, C, T = v.m.anim, v.m.model, v.m.colors, v.m.transform
    n = v.choice('steps', [1, 2, 3, 4])
    log = []

    class Rec:
        def update(self, t):
            log.append(('update', t))

    class Model:
        def draw(self, dc):
            log.append(('draw', dc))
    from PIL import Image
    base = Image.new('RGBA', (4, 3), 'white')
    h = A.AnimationHolder()
    h.add(Rec())
    h.add(Rec())
    m, e = mk_xform(v, 'm')
    draft = v.flag('draft')
    b = A.Builder(base, m, Model(), h, draft=draft)
    out = b.build_all(n)
    v.check('one image per step', len(out) == n and len(b.images) == n and all(x is y for x, y in zip(out, b.images)))
    v.check('order', [k for k, _ in log] == ['update', 'update', 'draw'] * n)
    for i in range(n):
        for k in (0, 1):
            v.eq('time', log[3 * i + k][1], v_frac(v, i, n))
        dc = log[3 * i + 2][1]
        v.eq('matrix', dc.matrix.as_6tuple(), e)
        v.check('production mode', dc.prod is (not draft))
    v.check('sizes', all(im.size == (4, 3) for im in out))
    log.clear()
    k = v.choice('again', [1, 2]) if n == 2 else 1
    b.build_all(k)                      # everything is drawn anew
    v.check('rebuilt', len(b.images) == k and all(x is not y for x in b.images for y in out))
    v.check('order again', [k for k, _ in log] == ['update', 'update', 'draw'] * k)
    for i in range(k):
        v.eq('time again', log[3 * i][1], v_frac(v, i, k))


@lemma('C34', 'Builder.build_all Builder.build_one AnimationHolder.update DrawingContext.__init__ DrawingContext.image DrawingContext.line', budget=60)
def builder_any_steps(v):
    """any number of steps: image i is the base under the model as it is after updating the animations to i/steps"""
    A, T = v.m.anim, v.m.transform
    n = v.integer('steps', 1)
    if not v.symbolic:
        v.assume(n <= 2000)

    class Rec:
        def update(self, t):
            self.t = t
    rec, rec2 = Rec(), Rec()
    rec.t, rec2.t = v.reals('before before2')
    v.varies(rec, 't')
    v.varies(rec2, 't')

    class Model:
        def draw(self, dc):
            dc.line(rec.t, 0, 7, rec2.t, color='red' if dc.prod else 'blue', width=3)
    h = A.AnimationHolder()
    h.add(rec)
    h.add(rec2)
    m, e = mk_xform(v, 'm')
    draft = v.flag('draft')
    with fake_pil():
        base = Im('RGBA', (4, 3), ('base',))
        b = A.Builder(base, m, Model(), h, draft=draft)
        old = b.images
        out = b.build_all(n)
        v.check('kept', b.images is out)

        def f(i, im):
            v.check('model over base', im.content[0] == 'over' and not im.ops and im.content[1] == (('base',),))
            over = im.content[2]
            v.check('drawn once', len(over) == 2 and len(over[1]) == 1 and
                    over[1][0][2:] == ('blue' if draft else 'red', 3))
            t = i / n
            v.eq('after the updates', over[1][0][1], apply6(e, t, 0) + apply6(e, 7, t))
        v.each('images', out, n, f)
        v.check('base unchanged', not base.ops and base.content == ('base',))


def v_frac(v, i, n):
    from fractions import Fraction
    return Fraction(i, n) if v.symbolic else i / n


@lemma('C34', 'Builder.max_bbox bbox_max', bound='1 to 4 images')
def max_bbox(v):
    A = v.m.anim
    n = v.choice('images', [1, 2, 3, 4])
    bbs = [mk_bbox(v, 'b%d' % i)[1] for i in range(n)]
    ims = [FakeImg(bb, v.choice('size%d' % i, [(100, 100), (60, 200)])) for i, bb in enumerate(bbs)]
    b = A.Builder(None, None, None)
    if v.flag('own images'):
        b.images = ims
        r = b.max_bbox()
    else:
        r = b.max_bbox(ims)
    v.eq('union', tuple(r), (v.min(*[x[0] for x in bbs]), v.min(*[x[1] for x in bbs]), v.max(*[x[2] for x in bbs]),
                             v.max(*[x[3] for x in bbs])))


@lemma('C34', 'Builder.max_bbox bbox_max', budget=40)
def max_bbox_any_number(v):
    """the union of the boxes of any number of images"""
    A = v.m.anim
    if v.symbolic:
        L = v.reals('Lxl Lyl Lxh Lyh')

    def mk(v, n):
        b, c = mk_bbox(v, n + '.b')
        if v.symbolic:
            v.assume(v.and_(L[0] <= c[0], L[1] <= c[1], c[2] <= L[2], c[3] <= L[3]))
        return FakeImg(c), c
    S = v.seq('images', mk, 1)
    if v.symbolic:
        w = v.integer('w', 0, S.n - 1)

        def contains(b):
            c = S.at(w)
            return v.and_(b[0] <= c[0], b[1] <= c[1], c[2] <= b[2], c[3] <= b[3])

        def within(b):
            return v.and_(L[0] <= b[0], L[1] <= b[1], b[2] <= L[2], b[3] <= L[3])
        v.carried(tuple, lambda v, n: tuple(v.reals(' '.join(n.replace(' ', '_') + '.' + c for c in ('xl', 'yl', 'xh', 'yh')))),
                  lambda i, b: [within(b), contains(b) if w < i else True])
    b = A.Builder(None, None, None)
    if v.flag('own images'):
        b.images = S.list
        r = b.max_bbox()
    else:
        r = b.max_bbox(S.list)
    if v.symbolic:
        v.check('contains every box', contains(tuple(r)))
        v.check('lies in every box that contains them all', within(tuple(r)))
    else:
        cs = [S.at(i) for i in range(S.n)]
        v.eq('union', tuple(r), tuple(f(*[c[i] for c in cs]) for i, f in enumerate((v.min, v.min, v.max, v.max))))


@lemma('C34', 'bbox_max')
def bbox_max(v):
    D = v.m.drawing
    (b, s), (c, t) = mk_bbox(v, 'b'), mk_bbox(v, 'c')
    v.eq('union', tuple(D.bbox_max(s, t)), (v.min(s[0], t[0]), v.min(s[1], t[1]), v.max(s[2], t[2]), v.max(s[3], t[3])))
