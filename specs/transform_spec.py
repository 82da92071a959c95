from common import *

BUILDERS = ['translate', 'scale', 'rotate', 'rotate_ccw', 'rotate_about', 'compose', 'compose_outer', 'compose_matrix',
            'compose_outer_matrix', 'compose_self', 'compose_outer_self', 'set_matrix', 'reset', 'scale_bbox',
            'scale_bbox_aspect']


def rot(v, deg, ccw):
    c, s = v.cosd(deg), v.sind(deg)
    return (c, -s, 0, s, c, 0) if ccw else (c, s, 0, -s, c, 0)


def run_builder(v, op, m, cur, n='op'):
    """apply one builder operation; returns (result, expected six numbers, argument, its observation)"""
    T, g = v.m.transform.Transform, v.m.geom
    arg = None
    if op == 'translate':
        x, y = v.reals('%s.x %s.y' % (n, n))
        r, want = m.translate(x, y), compose6((1, 0, x, 0, 1, y), cur)
    elif op == 'scale':
        x, y = v.reals('%s.x %s.y' % (n, n))
        r, want = m.scale(x, y), compose6((x, 0, 0, 0, y, 0), cur)
    elif op in ('rotate', 'rotate_ccw'):
        d = v.real(n + '.deg')
        r, want = getattr(m, op)(d), compose6(rot(v, d, op == 'rotate_ccw'), cur)
    elif op == 'rotate_about':
        d, x, y = v.reals('%s.deg %s.x %s.y' % (n, n, n))
        arg = g.Point(x, y)
        before = obs(arg)
        r = m.rotate_about(d, arg)
        want = compose6((1, 0, x, 0, 1, y), compose6(rot(v, d, False), compose6((1, 0, -x, 0, 1, -y), cur)))
        return r, want, arg, before
    elif op in ('compose', 'compose_outer', 'set_matrix'):
        arg, e = mk_xform(v, n)
        before = obs(arg)
        r = getattr(m, op)(arg)
        want = e if op == 'set_matrix' else compose6(cur, e) if op == 'compose' else compose6(e, cur)
        return r, want, arg, before
    elif op in ('compose_matrix', 'compose_outer_matrix'):
        e = tuple(v.reals(' '.join('%s.%s' % (n, c) for c in 'abcdef')))
        arg = v.m.transform.Matrix((e[:3], e[3:], (0, 0, 1)))
        r = getattr(m, op[:-7])(arg)
        want = compose6(cur, e) if op == 'compose_matrix' else compose6(e, cur)
        v.eq('matrix argument unchanged', tuple(arg.as_tuple3x3()), (e[:3], e[3:], (0, 0, 1)))
        return r, want, None, None
    elif op in ('compose_self', 'compose_outer_self'):
        r = getattr(m, op[:-5])(m)
        want = compose6(cur, cur)
    elif op == 'reset':
        r, want = m.reset(), (1, 0, 0, 0, 1, 0)
    elif op in ('scale_bbox', 'scale_bbox_aspect'):
        s, (sx, sy, sX, sY) = mk_bbox(v, n + '.s', area=True)
        t, (tx, ty, tX, tY) = mk_bbox(v, n + '.t')
        v.generic(sX - sx > 1e-2)
        v.generic(sY - sy > 1e-2)
        kx, ky = (tX - tx) / (sX - sx), (tY - ty) / (sY - sy)
        if op == 'scale_bbox':
            r = m.scale_bbox(s, t)
            want = compose6((kx, 0, tx - kx * sx, 0, ky, ty - ky * sy), cur)
        else:
            r = m.scale_bbox(s, t, keep_aspect=True)
            k = v.min(kx, ky)
            want = compose6((k, 0, (tx + tX) / 2 - k * (sx + sX) / 2, 0, k, (ty + tY) / 2 - k * (sy + sY) / 2), cur)
        v.eq('boxes unchanged', s.as_tuple() + t.as_tuple(), (sx, sy, sX, sY, tx, ty, tX, tY))
    else:
        raise KeyError(op)
    return r, want, arg, None


# =============================================================== C09
@lemma('C09', 'Transform.__init__ Transform.as_6tuple Transform.transform Transform.identity Transform.reset Matrix.__init__')
def affine_map(v):
    T = v.m.transform.Transform
    m, e = mk_xform(v, 'm')
    x, y = v.reals('x y')
    v.eq('six numbers', m.as_6tuple(), e)
    v.eq('affine map', m.transform(x, y), apply6(e, x, y))
    for i in (T(), T.identity(), m.reset()):
        v.eq('identity', i.as_6tuple(), (1, 0, 0, 0, 1, 0))
        v.eq('identity map', i.transform(x, y), (x, y))
    v.same('reset returns itself', m.reset(), m)


@lemma('C09', ' '.join('Transform.' + b for b in ('translate scale rotate rotate_ccw rotate_about compose compose_outer '
       'set_matrix scale_bbox translate_mat scale_mat rotate_mat rotate_mat_ccw').split()) + ' Matrix.pre_dot_eq Matrix.post_dot_eq Matrix.copy')
def builder_ops(v):
    m, e = mk_xform(v, 'm')
    op = v.choice('op', [b for b in BUILDERS if not b.startswith('scale_bbox')])
    if v.flag('inverse used before'):
        v.assume(e[0] * e[4] - e[1] * e[3] != 0)
        v.generic(abs(e[0] * e[4] - e[1] * e[3]) > 1e-6)
        m.untransform(0, 0)
    r, want, arg, before = run_builder(v, op, m, e)
    v.eq(op + ' composes', m.as_6tuple(), want)
    x, y = v.reals('x y')
    v.eq(op + ' maps', m.transform(x, y), apply6(want, x, y))
    if op != 'set_matrix':
        v.same(op + ' returns the transform', r, m)
    if arg is not None:
        unchanged(v, op + ' argument', before, arg)


@lemma('C09', 'Transform.rotate Transform.rotate_ccw Transform.rotate_about')
def rotation_direction(v):
    T, g = v.m.transform.Transform, v.m.geom
    d, x, y, px, py = v.reals('d x y px py')
    v.eq('rotate(90)', T().rotate(90).transform(-1, 0), (0, 1))
    v.eq('rotate_ccw(90)', T().rotate_ccw(90).transform(1, 0), (0, 1))
    v.eq('opposite turns', T().rotate(d).rotate_ccw(d).transform(x, y), (x, y))
    c = g.Point(x, y)
    m = T().rotate_about(d, c)
    v.eq('center is fixed', m.transform(x, y), (x, y))
    tx, ty = T().rotate(d).transform(px, py)
    v.eq('turns like rotate', m.transform(x + px, y + py), (x + tx, y + ty))
    v.eq('center unchanged', c.xy(), (x, y))


@lemma('C09', 'Transform.compose Transform.compose_outer')
def composition_is_detached(v):
    """the argument may change afterwards without effect, and vice versa"""
    T = v.m.transform.Transform
    m, e = mk_xform(v, 'm')
    k, f = mk_xform(v, 'k')
    fresh = v.choice('receiver', ['any', 'new', 'reset'])
    if fresh != 'any':
        m = T() if fresh == 'new' else m.reset()
        e = (1, 0, 0, 0, 1, 0)
    if v.flag('new argument'):
        k, f = T(), (1, 0, 0, 0, 1, 0)
    op = v.choice('op', ['compose', 'compose_outer', 'set_matrix'])
    getattr(m, op)(k)
    want = m.as_6tuple()
    v.eq('result', want, f if op == 'set_matrix' else compose6(e, f) if op == 'compose' else compose6(f, e))
    a, b = v.reals('a b')
    k.translate(a, b)
    k.scale(b, a)
    k.compose(T((1, 2, 3, 4, 5, 6)))
    k.compose_outer(T((2, 0, 0, 0, 1, 7)))
    v.eq('receiver is detached', m.as_6tuple(), want)
    kk = k.as_6tuple()
    m.translate(b, a).scale(a, a)
    m.compose(T((1, 2, 3, 4, 5, 6)))
    m.compose_outer(T((2, 0, 0, 0, 1, 7)))
    v.eq('argument is detached', k.as_6tuple(), kk)


# =============================================================== C10
def _det(e):
    return e[0] * e[4] - e[1] * e[3]


def _check_inverse(v, m, e, x, y, nm):
    d = _det(e)
    g = v.m.geom
    v.generic(abs(d) > 1e-4 or d == 0)
    if v.symbolic and not (d == 0) or not v.symbolic and d != 0:
        px, py = apply6(e, x, y)
        if not v.symbolic:
            big = max(abs(k) for k in e) + abs(px) + abs(py)
            v.generic(big * big < 1e8 * abs(d))
        v.eq(nm + ' untransform', m.untransform(px, py), (x, y))
        p = m.untransform_pt(g.Point(px, py))
        v.check_type(nm + ' untransform_pt', p, g.Point)
        v.eq(nm + ' untransform_pt', p.xy(), (x, y))
        v.eq(nm + ' untransform_pts', m.untransform_pts([(px, py), (e[2], e[5])]), [(x, y), (0, 0)])
        iv = m.inverse
        a, b, c, dd, ee, f = e
        rows = [(a, b, c), (dd, ee, f), (0, 0, 1)]
        prod = [[sum(iv[i][k] * rows[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        v.eq(nm + ' inverse matrix', prod, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
        v.eq(nm + ' asking changes nothing', m.as_6tuple(), e)
        return True
    return False


HISTORY = ['none', 'inverse', 'push', 'push+inverse', 'push+op+pop', 'copy', 'set_matrix', 'with', 'error']


def _history(v, m, e, n='h'):
    """bring m (map e) into one of the representation states: cached inverse or not, pushed states"""
    T = v.m.transform.Transform
    h = v.choice('history', HISTORY)
    if h in ('inverse', 'push+inverse', 'push+op+pop', 'copy', 'with', 'error'):
        v.assume(_det(e) != 0)
        v.generic(abs(_det(e)) > 1e-6)
    if h == 'inverse':
        m.untransform(1, 2)
    elif h == 'push':
        m.push()
    elif h == 'push+inverse':
        m.untransform(1, 2)
        m.push()
        m.untransform(3, 4)
    elif h == 'push+op+pop':
        m.untransform(1, 2)
        m.push()
        m.scale(2, 3).untransform(1, 2)
        m.pop()
    elif h == 'copy':
        m.untransform(1, 2)
        k = m
        m = m.copy()
        k.scale(5, 7).untransform(1, 1)
    elif h == 'set_matrix':
        k = T((2, 0, 1, 0, 3, 4))
        k.untransform(1, 1)
        k.set_matrix(m)
        m.scale(2, 2)
        m = k
    elif h == 'with':
        m.untransform(1, 2)
        with m.push().translate(3, 4):
            m.untransform(1, 2)
    elif h == 'error':                          # a block left by an exception
        try:
            with m.push().translate(3, 4):
                m.untransform(1, 2)
                raise KeyError('x')
        except KeyError:
            pass
    return m


@lemma('C10', 'Transform.inverse Transform.untransform Transform.untransform_pt Transform.untransform_pts', budget=60)
def inverse_of_state(v):
    m, e = mk_xform(v, 'm')
    x, y = v.reals('x y')
    m = _history(v, m, e)
    v.eq('history keeps the map', m.as_6tuple(), e)
    _check_inverse(v, m, e, x, y, 'state')


@lemma('C10', 'Transform.inverse Matrix.inverse Transform.untransform Transform.untransform_pts Transform.untransform_pt')
def inverse_at_any_scale(v):
    """a map in tiny or huge units is inverted like the same map in ordinary units"""
    T = v.m.transform.Transform
    e = tuple(v.reals('a b c d e f'))
    x, y = v.reals('x y')
    v.assume(_det(e) != 0)
    v.generic(abs(_det(e)) > 1e-2)
    k = 2 ** v.choice('k', [-40, -24, 24, 40])
    m = T(tuple(u * k for u in e))
    px, py = apply6(e, x, y)
    v.generic(max(abs(u) for u in e) ** 2 + px * px + py * py < 1e8 * abs(_det(e)))
    v.eq('untransform', m.untransform(px * k, py * k), (x, y))
    v.eq('untransform_pt', m.untransform_pt(v.m.geom.Point(px * k, py * k)).xy(), (x, y))
    v.eq('untransform_pts', m.untransform_pts([(px * k, py * k)]), [(x, y)])


@lemma('C10', 'Transform.inverse ' + ' '.join('Transform.' + b for b in (
    'translate scale rotate rotate_ccw rotate_about compose compose_outer set_matrix reset').split()), budget=120)
def inverse_after_op(v):
    """from every representation state, after every operation, the inverse is that of the current map"""
    m, e = mk_xform(v, 'm')
    m = _history(v, m, e)
    op = v.choice('op', [b for b in BUILDERS if not b.startswith('scale_bbox')])
    run_builder(v, op, m, e)
    now = m.as_6tuple()
    x, y = v.reals('x y')
    if v.symbolic:
        v.assume(_det(now) != 0)
    else:
        v.generic(abs(_det(now)) > 1e-4)
    _check_inverse(v, m, now, x, y, op)


@lemma('C10', 'Transform.pop Transform.push Transform.inverse', budget=60)
def inverse_after_pop(v):
    """pop after arbitrary operations"""
    T = v.m.transform.Transform
    m, e = mk_xform(v, 'm')
    v.assume(_det(e) != 0)
    v.generic(abs(_det(e)) > 1e-4)
    if v.flag('cached before push'):
        m.untransform(1, 1)
    m.push()
    k, f = mk_xform(v, 'k')
    m.set_matrix(k)
    if v.flag('cached before pop'):
        v.assume(_det(f) != 0)
        v.generic(abs(_det(f)) > 1e-4)
        m.untransform(1, 1)
    m.pop()
    x, y = v.reals('x y')
    v.eq('pop restores', m.as_6tuple(), e)
    _check_inverse(v, m, e, x, y, 'pop')


@lemma('C10', 'Transform.inverse Matrix.inverse')
def inverse_singular(v):
    import numpy as np
    m, e = mk_xform(v, 'm')
    if v.symbolic:
        v.assume(_det(e) == 0)
    else:
        e = (e[0], e[1], e[2], 0.0, 0.0, e[5])
        m = v.m.transform.Transform(e)
    for nm in ('untransform', 'inverse', 'untransform_pts', 'untransform_pt'):
        def f():
            if nm == 'untransform':
                m.untransform(1, 2)
            elif nm == 'inverse':
                m.inverse
            elif nm == 'untransform_pts':
                m.untransform_pts([(1, 2)])
            else:
                m.untransform_pt(v.m.geom.Point(1, 2))
        v.raises('singular ' + nm, np.linalg.LinAlgError, f)
    v.eq('map unchanged', m.as_6tuple(), e)


@lemma('C10', 'Matrix.inverse')
def matrix_inverse(v):
    e = tuple(v.reals('a b c d e f'))
    v.assume(_det(e) != 0)
    v.generic(abs(_det(e)) > 1e-2)
    M = v.m.transform.Matrix((e[:3], e[3:], (0, 0, 1)))
    iv = M.inverse().ndmat
    rows = [e[:3], e[3:], (0, 0, 1)]
    prod = [[sum(iv[i][k] * rows[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    v.eq('inverse matrix', prod, [[1, 0, 0], [0, 1, 0], [0, 0, 1]])
    v.eq('unchanged', M.as_tuple3x3(), tuple(tuple(r) for r in rows))


# =============================================================== C11
OPS11 = [b for b in BUILDERS if not b.startswith('scale_bbox')] + ['inverse', 'push+pop', 'with', 'copy']


def _op11(v, op, m, cur, n):
    if op == 'inverse':
        v.assume(_det(cur) != 0)
        v.generic(abs(_det(cur)) > 1e-6)
        m.untransform(1, 1)
        return cur
    if op == 'push+pop':
        m.push()
        m.scale(2, 3)
        m.pop()
        return cur
    if op == 'with':
        with m.push().rotate(30):
            m.translate(1, 1)
        return cur
    if op == 'copy':
        k = m.copy()
        k.scale(2, 2).push()
        k.pop()
        return cur
    return run_builder(v, op, m, cur, n)[1]


@lemma('C11', 'Transform.push Transform.pop Transform.set_matrix Matrix.copy ' + ' '.join('Transform.' + b for b in (
    'translate scale rotate rotate_ccw rotate_about compose compose_outer reset').split()), budget=60)
def push_ops_pop(v):
    """stack [m0, m1], arbitrary current map m2, any one operation: pop, pop give m1, m0 (induction over operations)"""
    T, E = v.m.transform.Transform, v.m.transform.EmptyStackError
    m, e0 = mk_xform(v, 'm0')
    k1, e1 = mk_xform(v, 'm1')
    k2, e2 = mk_xform(v, 'm2')
    if v.flag('cached'):
        v.assume(_det(e0) != 0)
        v.generic(abs(_det(e0)) > 1e-6)
        m.untransform(1, 1)
    v.same('push returns the transform', m.push(), m)
    v.eq('push keeps the map', m.as_6tuple(), e0)
    m.set_matrix(k1)
    m.push()
    m.set_matrix(k2)
    op = v.choice('op', OPS11)
    want = _op11(v, op, m, e2, 'op')
    v.eq('current map', m.as_6tuple(), want)
    m.pop()
    v.eq('first pop', m.as_6tuple(), e1)
    m.pop()
    v.eq('second pop', m.as_6tuple(), e0)
    v.raises('pop of the empty stack', E, m.pop)
    v.eq('failed pop keeps the map', m.as_6tuple(), e0)


@lemma('C11', 'Transform.push Transform.pop', budget=40)
def push_inplace_ops(v):
    """operations straight after push (no set_matrix in between)"""
    m, e = mk_xform(v, 'm')
    m.push()
    op = v.choice('op', OPS11)
    _op11(v, op, m, e, 'op')
    x, y = v.reals('x y')
    m.translate(x, y)
    m.pop()
    v.eq('pop', m.as_6tuple(), e)
    x, y = v.reals('p q')
    v.eq('maps', m.transform(x, y), apply6(e, x, y))


@lemma('C11', 'Transform.__enter__ Transform.__exit__ Transform.push')
def with_block(v):
    T, E = v.m.transform.Transform, v.m.transform.EmptyStackError
    m, e = mk_xform(v, 'm')
    x, y = v.reals('x y')

    class Boom(Exception):
        pass
    with m.push().translate(x, y) as k:
        v.same('as', k, m)
        v.eq('inside', m.as_6tuple(), compose6((1, 0, x, 0, 1, y), e))
    v.eq('left normally', m.as_6tuple(), e)

    def body():
        with m.push().scale(x, y):
            with m.push().rotate(x):
                raise Boom()
    v.raises('exception is propagated', Boom, body)
    v.eq('left by an exception', m.as_6tuple(), e)
    v.raises('stack is empty again', E, m.pop)

    def enter():
        with m:
            pass
    v.raises('with without push', E, enter)
    v.eq('unchanged', m.as_6tuple(), e)


@lemma('C11', 'Transform.copy Transform.set_matrix Transform.push Transform.pop', budget=40)
def copies_isolated(v):
    T, E = v.m.transform.Transform, v.m.transform.EmptyStackError
    m, e = mk_xform(v, 'm')
    if v.flag('pushed'):
        m.push()
        pushed = True
    else:
        pushed = False
    how = v.choice('how', ['copy', 'set_matrix'])
    if how == 'copy':
        k = m.copy()
        v.check_type('copy', k, T)
        v.check('copy is equal', k == m)
    else:
        k = T()
        k.set_matrix(m)
    v.eq('same map', k.as_6tuple(), e)
    v.raises('no pushed states', E, k.pop)
    op = v.choice('op', ['scale', 'compose', 'compose_outer', 'push', 'rotate_about', 'reset', 'compose the other',
                         'reset and compose the other'])
    a, b = (k, m) if v.flag('mutate the copy') else (m, k)
    if op == 'push':
        a.push()
        a.scale(2, 2)
    elif 'other' in op:
        if op != 'compose the other':
            a.reset()
        getattr(a, v.choice('which', ['compose', 'compose_outer']))(b)
        a.translate(1, 2).scale(2, 3).compose(T((1, 2, 3, 4, 5, 6)))
    else:
        run_builder(v, op, a, e)
    v.eq('other unaffected', b.as_6tuple(), e)
    if pushed and b is m:
        b.pop()
        v.eq('pushed state of the original', m.as_6tuple(), e)
    else:
        v.raises('no pushed states of the other', E, k.pop) if a is not k else None


# =============================================================== C12
def _mk_decomposable(v):
    T = v.m.transform.Transform
    vals = []
    for n in 'abde':
        if v.flag(n + ' zero'):
            vals.append(0)
        else:
            x = v.real(n, nonzero=True)
            v.assume(v.abs(x) >= 1e-16)
            vals.append(x)
    a, b, d, e = vals
    c, f = v.reals('c f')
    return T((a, b, c, d, e, f)), (a, b, c, d, e, f)


@lemma('C12', 'Transform.is_simple Transform.simplify near_zero')
def simplify_exact(v):
    T = v.m.transform.Transform
    m, e = _mk_decomposable(v)
    a, b, c, d, ee, f = e
    simple = v.or_(v.and_(b == 0, d == 0), v.and_(a == 0, ee == 0))
    s = m.is_simple()
    v.check('is_simple', v.iff(v.and_(s, True), simple))
    r = m.simplify()
    v.check('pair', len(r) == 2)
    outer, inner = r
    v.check_type('outer', outer, T)
    v.check_type('inner', inner, T)
    o, i = outer.as_6tuple(), inner.as_6tuple()
    v.eq('composition', compose6(o, i), e)
    x, y = v.reals('x y')
    v.eq('composition maps', outer.transform(*inner.transform(x, y)), m.transform(x, y))
    if simple:
        v.eq('simple: inner identity', i, (1, 0, 0, 0, 1, 0))
    else:
        v.eq('outer is a translation', (o[0], o[1], o[3], o[4]), (1, 0, 0, 1))
        v.eq('inner has no translation', (i[2], i[5]), (0, 0))
    v.eq('unchanged', m.as_6tuple(), e)
    outer.translate(1, 1)
    inner.scale(2, 2)
    v.eq('detached', m.as_6tuple(), e)


# =============================================================== C14
@lemma('C14', 'Transform.scale_bbox Transform.translate Transform.scale')
def scale_bbox_exact(v):
    m, e = mk_xform(v, 'm')
    if v.flag('inverse used before'):
        v.assume(_det(e) != 0)
        v.generic(abs(_det(e)) > 1e-6)
        m.untransform(0, 0)
    op = v.choice('op', ['scale_bbox', 'scale_bbox_aspect'])
    r, want, _, _ = run_builder(v, op, m, e)
    v.same('returns the transform', r, m)
    v.eq(op, m.as_6tuple(), want)


@lemma('C14', 'Transform.scale_bbox')
def scale_bbox_corners(v):
    T, g = v.m.transform.Transform, v.m.geom
    s, (sx, sy, sX, sY) = mk_bbox(v, 's', area=True)
    t, (tx, ty, tX, tY) = mk_bbox(v, 't')
    v.generic(sX - sx > 1e-2)
    v.generic(sY - sy > 1e-2)
    m = T().scale_bbox(s, t)
    v.eq('lower left', m.transform(sx, sy), (tx, ty))
    v.eq('upper right', m.transform(sX, sY), (tX, tY))
    k = T().scale_bbox(s, t, keep_aspect=True)
    x0, y0 = k.transform(sx, sy)
    x1, y1 = k.transform(sX, sY)
    z = k.as_6tuple()
    v.eq('uniform', (z[0], z[1], z[3]), (z[4], 0, 0))
    for a, b in ((tx, x0), (ty, y0), (x1, tX), (y1, tY)):
        v.le('fits', a, b)
    v.check('largest', v.or_(x1 - x0 == tX - tx, y1 - y0 == tY - ty) if v.symbolic else
            min(abs(x1 - x0 - tX + tx), abs(y1 - y0 - tY + ty)) < 1e-6 * (1 + abs(tX) + abs(tY) + abs(tx) + abs(ty)))
    v.eq('centered', (x0 + x1, y0 + y1), (tx + tX, ty + tY))


@lemma('C14', 'Transform.canvas_fit')
def canvas_fit(v):
    T, g = v.m.transform.Transform, v.m.geom
    w, h, z, ox, oy, x, y = v.reals('w h z ox oy x y')
    size = (w, h)
    how = v.choice('how', ['all', 'zoom', 'size', 'point'])
    if how == 'all':
        m = T.canvas_fit(size, z, (ox, oy))
    elif how == 'point':
        m = T.canvas_fit(size, zoom=z, zero_zero=g.Point(ox, oy))
    elif how == 'zoom':
        m, ox, oy = T.canvas_fit(size, zoom=z), 0, 0
    else:
        m, z, ox, oy = T.canvas_fit(size), 1, 0, 0
    v.check_type('canvas_fit', m, T)
    v.eq('canvas map', m.transform(x, y), (z * x + ox, h - (z * y + oy)))
