"""Long histories, deep nesting and many members: seeded runs of the real code far beyond the sizes of the proofs
that are bounded.  Everything here is labelled bounded and never counted as proved."""
from common import *
from transform_spec import run_builder, BUILDERS, _check_inverse, _det
from model_spec import ctx, mk_el, pen, pts_of
from model2_spec import obs, inside
from model3_spec import NAMES, do_add, consistent, new_el, walk, roundtrip
from anim_spec import mk_anim, mk_curve
from field_spec import mk_field, node, smooth_ref

STEPS = [b for b in BUILDERS if not b.startswith('scale_bbox') and b not in ('compose_self', 'compose_outer_self')]


def calm(v, m, keep):
    """keep the numbers of a long run in range"""
    e = m.as_6tuple()
    if not 1e-2 < abs(_det(e)) < 1e3 or max(map(abs, e)) > 1e3:
        m.set_matrix(v.m.transform.Transform(keep))
        return keep
    return e


@lemma('C11', 'Transform.push Transform.pop Transform.copy Transform.__enter__ Transform.__exit__',
       bound='histories of 300 operations, nesting up to 150, seeded', sym=False, fuzz=25)
def deep_history(v):
    T, E = v.m.transform.Transform, v.m.transform.EmptyStackError
    m = T()
    cur, stack = m.as_6tuple(), []
    up = v.choice('more pushes', [2, 3, 6])
    copies = []
    for i in range(300):
        op = v.choice('op%d' % i, ['push'] * up + ['pop', 'pop', 'copy', 'inverse', 'op', 'op', 'failed with'])
        if op == 'push':
            if len(stack) < 150:
                m.push()
                stack.append(cur)
        elif op == 'pop':
            if stack:
                m.pop()
                cur = stack.pop()
            else:
                v.raises('empty', E, m.pop)
        elif op == 'copy':
            k = m.copy()
            v.raises('a copy has no pushed states', E, k.pop)
            copies.append((k, cur))
        elif op == 'inverse':
            if abs(_det(cur)) > 1e-6:
                m.untransform(1, 1)
        elif op == 'failed with':
            try:
                with m.push().translate(3, 4):
                    raise KeyError()
            except KeyError:
                pass
        else:
            run_builder(v, v.choice('b%d' % i, STEPS), m, cur, 'b%d' % i)
            cur = calm(v, m, (1, 0, 0, 0, 2, i))
        v.check('same map', m.as_6tuple() == cur)
    while stack:
        m.pop()
        v.check('exact state at the push', m.as_6tuple() == stack.pop())
    v.raises('empty at the end', E, m.pop)
    for k, c in copies:
        v.check('copies keep their map', k.as_6tuple() == c)


@lemma('C10', 'Transform.inverse Transform.untransform', bound='histories of 120 operations, seeded', sym=False, fuzz=25)
def long_inverse_history(v):
    m = v.m.transform.Transform()
    depth = 0
    others = []
    for i in range(120):
        op = v.choice('op%d' % i, ['push', 'pop', 'op', 'op', 'op', 'copy', 'switch'])
        if op == 'push':
            m.push()
            depth += 1
        elif op == 'pop' and depth:
            m.pop()
            depth -= 1
        elif op == 'copy' and not depth:
            others.append(m.copy())
        elif op == 'switch' and others and not depth:
            others.append(m)
            m = others.pop(v.integer('which%d' % i, 0, len(others) - 2))
        else:
            run_builder(v, v.choice('b%d' % i, STEPS), m, m.as_6tuple(), 'b%d' % i)
            calm(v, m, (2, 1, i, 0, 1, -i))
        e = m.as_6tuple()
        if abs(_det(e)) > 1e-2 and max(map(abs, e)) < 1e3:
            x, y = 3, -2
            v.eq('untransform after step %d' % i, m.untransform(*m.transform(x, y)), (x, y))


@lemma('C09', ' '.join('Transform.' + b for b in 'translate scale rotate rotate_ccw rotate_about compose compose_outer'.split()),
       bound='chains of 40 operations, seeded', sym=False, fuzz=40)
def long_chain(v):
    m = v.m.transform.Transform()
    cur = m.as_6tuple()
    for i in range(40):
        op = v.choice('b%d' % i, STEPS)
        r, want, arg, before = run_builder(v, op, m, cur, 'b%d' % i)
        v.eq('step', m.as_6tuple(), want)
        if op != 'set_matrix':
            v.same('returns itself', r, m)
        if arg is not None:
            unchanged(v, 'argument', before, arg)
        cur = calm(v, m, (1, 2, 0, -1, 0, i))


@lemma('C13', 'Transformer.transform_pts', bound='lists of up to 5000 points, seeded', sym=False, fuzz=12)
def big_batches(v):
    m = v.m.transform.Transform((2, 1, 3, -1, 0.5, 4))
    if v.flag('field'):
        m = mk_field(v, 'f', 3)[0]
    n = v.choice('n', [50, 257, 1025, 5000])
    xys = [((i * 7 % 31) / 4 - 3, (i * 5 % 23) / 4 - 2) for i in range(n)]
    g = v.m.geom
    pts = v.flag('points')
    src = [g.Point(*p) for p in xys] if pts else list(xys)
    res = m.transform_pts(src)
    v.check('count', len(res) == n)
    flat = m.transform_pts(src, flatten=True)
    v.check('flattened count', len(flat) == 2 * n)
    for i in list(range(0, n, max(1, n // 40))) + [n - 1]:
        w = m.transform(*xys[i])
        v.eq('same order', res[i].xy() if pts else tuple(res[i]), w)
        v.eq('flattened', tuple(flat[2 * i:2 * i + 2]), w)


def pile(v, n, depth, width, acc, want, path):
    """a deep group; want collects (dotted name, leaf, product of the enclosing transforms)"""
    M = v.m.model
    X, Xt = None, (1, 0, 0, 0, 1, 0)
    if v.flag(n + 'own'):
        Xt = (v.choice(n + 'a', [1, 2, -1, 0.5]), 0, v.integer(n + 'c', -3, 3), 0, v.choice(n + 'e', [1, -2, 0.5, 3]), v.integer(n + 'f', -3, 3))
        X = v.m.transform.Transform(Xt)
    full = compose6(acc, Xt)
    if max(map(abs, full)) > 1e4:
        X, full = None, acc
    g = M.Group(n, v.m.colors.PenBrush('black'), False, X)
    at = v.integer(n + 'at', 0, width - 1)
    for i in range(width):
        if i == at and depth:
            s = pile(v, 'g%d' % depth, depth - 1, width, full, want, path + n + '.')
            g.add(s.name, s)
        else:
            k = 'e%d' % i
            e = new_el(v, 'rect', k)
            g.add(k, e)
            want.append((path + n + '.' + k, e, full))
    return g


@lemma('C21', 'Group.iter_elems Group.paths Group.iter_elems_transformed', bound='nesting to depth 12, 15 members, seeded', sym=False, fuzz=20)
def deep_groups(v):
    T = v.m.transform.Transform
    D, Dt = mk_xform(v, 'D', kind='simple', invertible=True)
    want = []
    depth = v.choice('depth', [3, 7, 12])
    top = pile(v, 'top', depth, v.choice('width', [1, 4, 15]), Dt, want, '')
    got = [(t, e, tuple(m.as_6tuple())) for t, e, m in top.iter_elems(None, D)]
    v.check('leaves in order', [(t, id(e)) for t, e, _ in got] == [(t, id(e)) for t, e, _ in want])
    for g, w in zip(got, want):
        v.eq('product of transforms', g[2], w[2])
    v.eq('matrix as found', D.as_6tuple(), Dt)
    dc = ctx(v, D, 2)
    ps = top.paths(dc)
    v.check('one path each', len(ps) == len(want))
    for p, w in zip(ps, want):
        v.eq('corner', tuple(p.points[0]), apply6(w[2], *w[1].p1.xy()))
    v.eq('matrix as found', dc.matrix.as_6tuple(), Dt)
    v.raises('no pushed state left', v.m.transform.EmptyStackError, D.pop)
    got = list(top.iter_elems_transformed(None, D))
    v.check('direct members', len(got) == len(top.elems))


@lemma('C19', 'Group.bbox_int Elem.bbox ElemCurve.bbox_int', bound='nesting to depth 8, 8 members, curves of 30 points, seeded', sym=False, fuzz=20)
def deep_boxes(v):
    want = []
    top = pile(v, 'top', v.choice('depth', [2, 5, 8]), v.choice('width', [2, 8]), (1, 0, 0, 0, 1, 0), want, '')
    k = v.choice('points', [4, 30])
    c = mk_el(v, 'c', 'curve', None, k)
    top.add('c', c)
    bb = top.bbox()
    T = v.m.transform.Transform
    for p in top.paths(ctx(v, T(), 20)):
        for x, y in p.points:
            v.le('left', bb.xl, x)
            v.le('bottom', bb.yl, y)
            v.le('right', x, bb.xh)
            v.le('top', y, bb.yh)
    v.eq('center', top.center().xy(), bb.center.xy())


@lemma('C22', 'Group.add Group.replace Group.lookup', bound='sequences of 60 operations, seeded', sym=False, fuzz=25)
def long_group_history(v):
    M, C = v.m.model, v.m.colors
    g = M.Group('g', C.PenBrush('black'))
    dup = v.choice('one name only', [None, 'a', 'x.a', ''])
    for i in range(60):
        op = v.choice('op%d' % i, ['add'] * 4 + ['replace'])
        if op == 'add' or not g.elems:
            if dup is not None:
                e = new_el(v, 'rect', 'was')
                before = dict(g.elems)
                g.add(dup, e, True)
                v.check('others kept', len(g.elems) == len(before) + 1 and all(g.elems.get(k) is x for k, x in before.items()))
                consistent(v, g)
            else:
                do_add(v, g, 'a%d' % i)
        else:
            k = v.choice('k%d' % i, sorted(g.elems))
            old = g.elems[k]
            others = {n: e for n, e in g.elems.items() if not (e == old)}
            if type(old).__name__ == 'Group':
                continue
            new = new_el(v, 'rect', k)
            new.penbrush = C.PenBrush(('red', i + 2))
            same = [e for e in g.elems.values() if e == old]
            v.check('count', g.replace(old, new) == len(same))
            v.check('others kept', all(g.elems[n] is e for n, e in others.items()) and len(g.elems) == len(others) + len(same))
            consistent(v, g)
    for k, e in g.elems.items():
        v.check('lookup', g.lookup(k) is e)


@lemma('C22', 'Group.lookup', bound='nesting to depth 12, seeded', sym=False, fuzz=15)
def deep_lookup(v):
    want = []
    top = pile(v, 'top', 12, v.choice('width', [2, 5]), (1, 0, 0, 0, 1, 0), want, '')
    for t, e, _ in want:
        v.check('member at its path', top.lookup(t.partition('.')[2]) is e)
    v.raises('missing', KeyError, top.lookup, want[-1][0].partition('.')[2][:-1] + 'zz')


@lemma('C23', 'Group.dump ElemCurve.dump DumpContext.set_var DumpContext.output', bound='nesting to depth 6, 12 members, 40 pens and transforms, seeded', sym=False, fuzz=12)
def big_dumps(v):
    M, C, g = v.m.model, v.m.colors, v.m.geom
    want = []
    top = pile(v, 'top', v.choice('depth', [1, 3, 6]), v.choice('width', [3, 12]), (1, 0, 0, 0, 1, 0), want, '')
    names = ['black', 'red', 'white', 'blue', (1, 2, 3, 255), (1, 2, 3, 254)]
    for i, (_, e, _) in enumerate(want):
        w = v.integer('w%d' % i, 1, 12)
        e.penbrush = C.PenBrush((names[w % 6], w), names[v.integer('f%d' % i, 0, 5)] if v.flag('filled%d' % i) else None)
        if v.flag('own%d' % i):
            e.xform.translate(i % 7 + 1, w)
        elif v.flag('map%d' % i):
            e.xform = mk_xform(v, 'map%d' % i, kind=v.choice('map kind%d' % i, ['simple', 'general']))[0]
    for i in range(v.choice('curves', [0, 3])):
        top.add('k%d' % i, mk_el(v, 'k%d' % i, 'curve', None, 12))
    roundtrip(v, top, v.flag('use vars'))


@lemma('C20', 'Group.copy Group.restore ElemCurve.copy ElemCurve.restore', bound='nesting to depth 6, seeded', sym=False, fuzz=12)
def deep_copies(v):
    want = []
    top = pile(v, 'top', v.choice('depth', [1, 6]), 4, (1, 0, 0, 0, 1, 0), want, '')
    c = mk_el(v, 'c', 'curve', None, 25)
    top.add('c', c)
    before = obs(c)
    k = c.copy()
    v.check('equal', k == c)
    i = v.integer('i', 0, 24)
    x, y = v.reals('x y')
    a, b = (k, c) if v.flag('edit the copy') else (c, k)
    a.control_points[i].c.setxy(x, y)
    a.control_points[-1 - i].dl.setxy(y, x)
    v.eq('the other is unchanged', obs(b), before)
    if a is c:
        c.restore(k)
        v.eq('restored', obs(c), before)
        c.control_points[i].c.setxy(x + 1, y)
        v.eq('without aliasing', obs(k), before)
    gb = obs(top)
    snap = top.copy()
    for n in list(top.elems)[::2]:
        del top.elems[n]
    top.hidden = not top.hidden
    top.xform.scale(2, 2)
    top.restore(snap)
    v.eq('membership restored', obs(top), gb)


@lemma('C25', 'AnimationHolder.update', bound='60 updates, 10 animations, seeded', sym=False, fuzz=25)
def long_updates(v):
    g, A = v.m.geom, v.m.anim
    h = A.AnimationHolder()
    items = []
    for i in range(v.choice('n', [2, 10])):
        x, y = v.reals('x%d y%d' % (i, i))
        p = g.Point(x, y)
        a, spec, target = mk_anim(v, 'a%d' % i, p)
        h.add(a)
        items.append((p, spec, (x, y)))
    for k in range(60):
        t = v.real('t%d' % k)
        v.generic(abs(t) < 1e3)
        h.update(t)
        if k % 7 == 0:
            for p, spec, o in items:
                xy_eq(v, 'position', p, spec(t, o))


@lemma('C27', 'Animation.interpolate', bound='up to 40 points, seeded', sym=False, fuzz=60)
def long_interpolation(v):
    A = v.m.anim.Animation
    n = v.choice('n', [2, 5, 12, 40])
    ts, vs = [v.real('t0')], [v.real('v0')]
    for i in range(1, n):
        ts.append(ts[-1] + v.choice('d%d' % i, [0.25, 0.5, 1, 3]))
        vs.append(v.real('v%d' % i))


    f = A.interpolate(list(zip(ts, vs)))
    for k in range(6):
        i = v.integer('i%d' % k, -1, n - 1)
        s = v.choice('s%d' % k, [0, 0.25, 0.5, 0.75])
        if i < 0:
            t, w = ts[0] - s, vs[0]
        elif i == n - 1:
            t, w = ts[-1] + s, vs[-1]
        else:
            t, w = ts[i] + s * (ts[i + 1] - ts[i]), vs[i] + s * (vs[i + 1] - vs[i])
        v.eq('piecewise linear', f(t), w)
        v.eq('per axis', f((t, ts[0])), (w, vs[0]))


@lemma('C28', 'Mesh.__init__ VectorField.lookup VectorField.transform VectorField.smoothed VectorField.normalized VectorField.scaled',
       bound='meshes of 4 to 25 steps, seeded', sym=False, fuzz=20)
def big_fields(v):
    import math
    F = v.m.vec_field
    k = v.choice('k', [4, 9, 21, 25])
    b, t = mk_bbox(v, 'b', area=True)
    v.generic(t[2] - t[0] > 1e-2 and t[3] - t[1] > 1e-2)
    mesh = F.Mesh(b, k)
    q = v.integer('q', 1, 50)
    vx = [[((i * 13 + j * 7 + q) % 17 - 8) / 4 for j in range(k)] for i in range(k)]
    vy = [[((i * 5 + j * 11 + q) % 19 - 9) / 4 for j in range(k)] for i in range(k)]
    import numpy as np
    f = F.VectorField(mesh, np.array(vx), np.array(vy))
    for n in range(12):
        i, j = v.integer('i%d' % n, 0, k - 1), v.integer('j%d' % n, 0, k - 1)
        x, y = node(v, t, k, i, j)
        v.eq('lookup at a node', f.lookup(x, y), (vx[i][j], vy[i][j]))
        v.eq('transform at a node', f.transform(x, y), (x + vx[i][j], y + vy[i][j]))
    r = f.scaled(3, -2)
    v.eq('scaled', (r.vx.tolist(), r.vy.tolist()), ([[3 * e for e in w] for w in vx], [[-2 * e for e in w] for w in vy]))
    big = max(math.hypot(vx[i][j], vy[i][j]) for i in range(k) for j in range(k))
    r = f.normalized()
    v.eq('normalized', [[e * big for e in w] for w in r.vx.tolist()], vx)
    sx, sy = smooth_ref(v, vx, k), smooth_ref(v, vy, k)
    big = max(math.hypot(sx[i][j], sy[i][j]) for i in range(k) for j in range(k))
    r = f.smoothed()
    v.eq('smoothed', ([[e * big for e in w] for w in r.vx.tolist()], [[e * big for e in w] for w in r.vy.tolist()]), (sx, sy))
    v.check('original', f.vx.tolist() == vx and f.vy.tolist() == vy)


@lemma('C33', 'ElemWithHoles.paths Elem.draw', bound='up to 12 holes, seeded', sym=False, fuzz=15)
def many_holes(v):
    M, T = v.m.model, v.m.transform.Transform
    n = v.choice('n', [3, 5, 12])
    g = v.m.geom
    out = new_el(v, 'rect', 'o')
    ins = [M.ElemRectangle('i%d' % i, pen(v), g.Point(i, 1), g.Point(i + 0.5, 2)) for i in range(n)]
    e = M.ElemWithHoles('h', v.m.colors.PenBrush('black', 'red'), out, ins, True)
    dc = ctx(v, T(), 2)
    ps = e.paths(dc)
    v.check('one fill and one stroke for each', len(ps) == n + 2)
    edges = [p.paths(dc)[0] for p in [out] + ins]
    for p, q in zip(ps[1:], edges):
        v.eq('stroke', [tuple(a) for a in p.points], [tuple(a) for a in q.points])
    fill = [tuple(a) for a in ps[0].points]
    for q in edges:
        for a in q.points:
            v.check('every corner is on the fill path', tuple(a) in fill)


@lemma('C34', 'Builder.build_all', bound='up to 60 steps, seeded', sym=False, fuzz=5)
def long_builds(v):
    from PIL import Image
    A = v.m.anim
    ts = []

    class Rec:
        def update(self, t):
            ts.append(t)

    class Model:
        def draw(self, dc):
            ts.append('draw')
    h = A.AnimationHolder()
    h.add(Rec())
    n = v.choice('n', [7, 25, 60, 101])
    b = A.Builder(Image.new('RGBA', (2, 2)), v.m.transform.Transform(), Model(), h)
    b.build_all(n)
    v.check('images', len(b.images) == n and len({id(i) for i in b.images}) == n)
    v.check('order', ts[1::2] == ['draw'] * n)
    v.eq('times', ts[::2], [i / n for i in range(n)])
    old, k = b.images, v.choice('again', [1, 3, n])
    ts.clear()
    b.build_all(k)
    v.check('images of the second build', len(b.images) == k and not {id(i) for i in b.images} & {id(i) for i in old})
    v.eq('times of the second build', ts, [x for i in range(k) for x in (i / k, 'draw')])
