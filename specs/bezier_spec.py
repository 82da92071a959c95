from common import *

KINDS = ['smooth', 'very-smooth', 'sharp']


def mk_cp(v, n, kind='smooth', rel=False):
    """control point with symbolic parts -> (cp, (c, l, r) coordinates)"""
    g, B = v.m.geom, v.m.bezier
    cx, cy, lx, ly, rx, ry = v.reals(' '.join(n + k for k in ('.cx', '.cy', '.lx', '.ly', '.rx', '.ry')))
    if rel:
        c = g.PointRelative(cx, cy, g.Point(1, 2))
        cx, cy = cx + 1, cy + 2
    else:
        c = g.Point(cx, cy)
    if not v.symbolic and v.special(n + '.one handle', [True], 0.08):       # both handles the same object
        d = g.Vector(lx, ly)
        return B.ControlPoint(c, d, d, kind), ((cx, cy), (cx + lx, cy + ly), (cx + lx, cy + ly))
    if not v.symbolic and v.special(n + '.straight', [True], 0.08):         # opposite handles
        return B.ControlPoint(c, g.Vector(lx, ly), g.Vector(-lx, -ly), kind), ((cx, cy), (cx + lx, cy + ly), (cx - lx, cy - ly))
    return B.ControlPoint(c, g.Vector(lx, ly), g.Vector(rx, ry), kind), ((cx, cy), (cx + lx, cy + ly), (cx + rx, cy + ry))


def bern(ps, t):
    """the cubic Bernstein polynomial"""
    s = 1 - t
    w = (s * s * s, 3 * s * s * t, 3 * s * t * t, t * t * t)
    return tuple(sum(w[i] * ps[i][k] for i in range(4)) for k in (0, 1))


def seg(p, q):
    """the four points of the segment from control point p to q (tuples c, l, r)"""
    return p[0], p[2], q[1], q[0]


def cp_pts(cp):
    (cx, cy), (lx, ly), (rx, ry) = cp.c.xy(), cp.dl.xy(), cp.dr.xy()
    return (cx, cy), (cx + lx, cy + ly), (cx + rx, cy + ry)


# =============================================================== C15
@lemma('C15', 'bez_split ControlPoint.l ControlPoint.r')
def split_keeps_curve(v):
    B = v.m.bezier
    rel = v.flag('relative center')
    p, P = mk_cp(v, 'p', rel=rel)
    q, Q = mk_cp(v, 'q')
    t, s = v.real('t', lo=0, hi=1), v.real('s', lo=0, hi=1)
    before = obs((p, q))
    if v.flag('default t'):
        out = B.bez_split(p, q)
        t = 0.5
    else:
        out = B.bez_split(p, q, t)
    v.check('three control points', len(out) == 3 and all(type(c) is B.ControlPoint for c in out))
    L, M, R = map(cp_pts, out)
    orig = seg(P, Q)
    v.eq('first half', bern(seg(L, M), s), bern(orig, t * s))
    v.eq('second half', bern(seg(M, R), s), bern(orig, t + (1 - t) * s))
    v.eq('outer handles', (tuple(out[0].dl.xy()), tuple(out[2].dr.xy())), (tuple(p.dl.xy()), tuple(q.dr.xy())))
    v.eq('end points', (tuple(out[0].c.xy()), tuple(out[2].c.xy())), (P[0], Q[0]))
    unchanged(v, 'inputs', before, (p, q))
    v.check('new control points', all(c is not d for c in out for d in (p, q)) and out[0] is not out[1] is not out[2])
    for c in out:               # the results are the caller's to change
        c.kind = 'round'
    unchanged(v, 'inputs after changing the results', before, (p, q))


# =============================================================== C16
@lemma('C16', 'bez', bound='1 to 8 steps')
def bez_samples(v):
    g, B = v.m.geom, v.m.bezier
    n = v.choice('n', [1, 2, 3, 5, 8])
    ps = [tuple(v.reals('x%d y%d' % (i, i))) for i in range(4)]
    pts = ps
    if v.flag('as points'):
        pts = [g.Point(*p) for p in ps]
    keep = list(pts)
    xy = B.bez(pts, steps=n, as_xy=True)
    v.check('n+1 points', len(xy) == n + 1)
    for i, p in enumerate(xy):
        from fractions import Fraction
        t = Fraction(i, n) if v.symbolic else i / n
        v.eq('Bernstein polynomial', tuple(p), bern(ps, t))
    if not v.symbolic:
        v.check('ends exactly', tuple(xy[0]) == ps[0] and tuple(xy[-1]) == ps[3])
    v.eq('ends', (tuple(xy[0]), tuple(xy[-1])), (ps[0], ps[3]))
    v.eq('flattened', list(B.bez(pts, steps=n)), [c for p in xy for c in p])
    v.check('input unchanged', all(a is b for a, b in zip(pts, keep)))


def ratio(v, i, n):
    from fractions import Fraction
    if v.symbolic:
        return Fraction(i, n) if isinstance(i, int) and isinstance(n, int) else i / n
    return i / n


@lemma('C16', 'bez', budget=40)
def bez_samples_any_steps(v):
    g, B = v.m.geom, v.m.bezier
    n = v.integer('n', lo=1)
    ps = [tuple(v.reals('x%d y%d' % (i, i))) for i in range(4)]
    pts = [g.Point(*p) for p in ps] if v.flag('as points') else list(ps)
    keep = list(pts)
    v.each('samples', B.bez(pts, steps=n, as_xy=True), n + 1, lambda i, p: v.eq(
        'Bernstein polynomial', tuple(p), bern(ps, ratio(v, i, n))))

    def flat(i, c):
        q, r = v.divmod(i, 2)
        v.num_eq('flattened', c, bern(ps, ratio(v, q, n))[r])
    v.each('flat', B.bez(pts, steps=n), 2 * n + 2, flat)
    v.check('input unchanged', all(a is b for a, b in zip(pts, keep)))


def path_coord(v, S, e, closed, n):
    """coordinate g of the path of n steps per segment: (control points S, matrix e)"""
    def coord(g):
        k, r = v.divmod(g, 2)                   # sample k of the path
        if k == 0:
            return apply6(e, *S.at(0)[0])[r]
        i, t = v.divmod(k - 1, n)               # sample t+1 of segment i
        j = i + 1
        if closed and j == S.n:
            j = 0
        s = [apply6(e, *p) for p in seg(S.at(i), S.at(j))]
        return bern(s, ratio(v, t + 1, n))[r]
    return coord


@lemma('C16', 'bez_path bez Transformer.transform_pts', budget=60)
def path_samples_any_length(v):
    B = v.m.bezier
    n = v.choice('steps', [1, 2, 3])
    closed = v.flag('closed')
    S = v.seq('cps', mk_cp, minlen=1)
    m, e = mk_xform(v, 'm')
    before = obs(S.list)
    out = B.bez_path(m, S.list, closed, steps=n)
    segments = S.n if closed else S.n - 1
    coord = path_coord(v, S, e, closed, n)
    if segments == 0:
        v.check('a single point', list(out) == [])
    else:
        v.each('path', out, 2 * (n * segments + 1), lambda i, c: v.num_eq('coordinate', c, coord(i)))
    unchanged(v, 'control points', before, S.list)
    v.eq('matrix', m.as_6tuple(), e)


@lemma('C16', 'bez_path bez Transformer.transform_pts', budget=60)
def path_samples_any_length_any_steps(v):
    B = v.m.bezier
    n = v.integer('n', lo=1)
    closed = v.flag('closed')
    S = v.seq('cps', mk_cp, minlen=1)
    m, e = mk_xform(v, 'm')
    out = B.bez_path(m, S.list, closed, steps=n)
    segments = S.n if closed else S.n - 1
    coord = path_coord(v, S, e, closed, n)
    if segments == 0:
        v.check('a single point', list(out) == [])
    else:
        v.each('path', out, 2 * (n * segments + 1), lambda i, c: v.num_eq('coordinate', c, coord(i)))


@lemma('C16', 'bez_path bez Transformer.transform_pts', bound='0 to 3 control points, 1 to 3 steps', budget=40)
def path_samples(v):
    B = v.m.bezier
    k = v.choice('cps', [0, 1, 2, 3])
    n = v.choice('steps', [1, 2, 3])
    closed = v.flag('closed')
    m, e = mk_xform(v, 'm')
    cps = [mk_cp(v, 'p%d' % i) for i in range(k)]
    lst = [c for c, _ in cps]
    keep, before = list(lst), obs(lst)
    out = B.bez_path(m, lst, closed, steps=n)
    want = []
    pairs = [(i, i + 1) for i in range(k - 1)] + ([(k - 1, 0)] if closed and k else [])
    from fractions import Fraction
    for i, j in pairs:
        s = [apply6(e, *p) for p in seg(cps[i][1], cps[j][1])]
        for t in range(1 if want else 0, n + 1):
            want += bern(s, Fraction(t, n) if v.symbolic else t / n)
    v.eq('path', list(out), want)
    v.check('list unchanged', len(lst) == k and all(a is b for a, b in zip(lst, keep)))
    unchanged(v, 'control points', before, lst)
    v.eq('matrix', m.as_6tuple(), e)


@lemma('C16', 'bez_path')
def path_empty(v):
    m, e = mk_xform(v, 'm')
    v.check('no control points', list(v.m.bezier.bez_path(m, [], v.flag('closed'))) == [])


@lemma('C16', 'bez bez_path', bound='default step counts', sym=False, fuzz=60)
def default_steps(v):
    B = v.m.bezier
    ps = [tuple(v.reals('x%d y%d' % (i, i))) for i in range(4)]
    v.eq('bez default', B.bez(ps), B.bez(ps, 80))
    cps = [mk_cp(v, 'p%d' % i)[0] for i in range(3)]
    m, e = mk_xform(v, 'm')
    v.eq('bez_path default', B.bez_path(m, cps, True), B.bez_path(m, cps, True, steps=20))


# =============================================================== C17
@lemma('C17', 'ControlPoint.l ControlPoint.r ControlPoint.reversed ControlPoint.bbox ControlPoint.fixed ControlPoint.copy ControlPoint.round')
def cp_basics(v):
    g, B = v.m.geom, v.m.bezier
    kind = v.choice('kind', KINDS)
    p, (c, l, r) = mk_cp(v, 'p', kind, rel=v.flag('relative'))
    b = obs(p)
    for nm, o, w in (('l', p.l, l), ('r', p.r, r)):
        v.check_type(nm, o, g.Point)
        xy_eq(v, nm, o, w)
    q = p.reversed()
    v.check_type('reversed', q, B.ControlPoint)
    v.eq('reversed swaps the handles', cp_pts(q), (c, r, l))
    v.check('reversed keeps the kind', q.kind == kind)
    v.check('reversing twice', q.reversed() == p)
    bb = p.bbox()
    xs, ys = zip(c, l, r)
    v.eq('bbox', bb.as_tuple(), (v.min(*xs), v.min(*ys), v.max(*xs), v.max(*ys)))
    for nm in ('fixed', 'copy'):
        k = getattr(p, nm)()
        v.check_type(nm, k, B.ControlPoint)
        v.eq(nm, cp_pts(k), (c, l, r))
        v.check(nm + ' keeps the kind', k.kind == kind)
        v.check(nm + ' is new', k is not p and k.dl is not p.dl and k.dr is not p.dr and k.c is not p.c)
    unchanged(v, 'control point', b, p)


@lemma('C17', 'ControlPoint.restore ControlPoint.copy')
def cp_restore(v):
    p, _ = mk_cp(v, 'p', v.choice('old kind', KINDS), rel=v.flag('relative'))
    kind = v.choice('kind', KINDS)
    q, pts = mk_cp(v, 'q', kind)
    # the two may share parts beforehand (fields are assigned freely elsewhere)
    shared = v.choice('shared before', [None, 'c', 'dl', 'dr', 'dl is dr', 'dr is dl'])
    if shared == 'dl is dr':
        p.dl = q.dr
    elif shared == 'dr is dl':
        p.dr = q.dl
    elif shared:
        setattr(p, shared, getattr(q, shared))
    b = obs(q)
    p.restore(q)
    v.eq('restored', cp_pts(p), pts)
    v.check('kind', p.kind == kind and p == q)
    unchanged(v, 'the copy', b, q)
    v.check('not shared', p.c is not q.c and p.dl is not q.dl and p.dr is not q.dr)
    q.c.setxy(1, 2)
    q.dl.set(v.m.geom.Vector(3, 4))
    q.dr.set(v.m.geom.Vector(5, 6))
    v.eq('independent', cp_pts(p), pts)


@lemma('C17', 'ControlPoint.round Vector.round Point.round')
def cp_round(v):
    g, B = v.m.geom, v.m.bezier
    kind = v.choice('kind', KINDS)
    e = [v.integer(n) for n in ('cx', 'cy', 'lx', 'ly', 'rx', 'ry')]
    p = B.ControlPoint(g.Point(e[0], e[1]), g.Vector(e[2], e[3]), g.Vector(e[4], e[5]), kind)
    d = v.choice('digits', [0, 1, 3])
    r = p.round(d)
    v.eq('rounding whole numbers', tuple(r.c.xy()) + tuple(r.dl.xy()) + tuple(r.dr.xy()), tuple(e))
    v.check('round keeps the kind', r.kind == kind and type(r) is B.ControlPoint)
    v.check('equal', r == p)


@lemma('C17', 'ControlPoint.reverse_list ControlPoint.reversed', bound='lists of 0 to 3 control points')
def cp_reverse_list(v):
    B = v.m.bezier
    n = v.choice('n', [0, 1, 2, 3])
    cps = [mk_cp(v, 'p%d' % i, v.choice('k%d' % i, ['smooth', 'sharp'])) for i in range(n)]
    lst = [c for c, _ in cps]
    keep, b = list(lst), obs(lst)
    r = B.ControlPoint.reverse_list(lst)
    v.check('length', len(r) == n)
    for i, c in enumerate(r):
        pc, pl, pr = cps[n - 1 - i][1]
        v.eq('reversed', cp_pts(c), (pc, pr, pl))
        v.check('kind', c.kind == lst[n - 1 - i].kind)
    v.check('twice', list(B.ControlPoint.reverse_list(r)) == lst)
    v.check('list unchanged', len(lst) == n and all(x is y for x, y in zip(lst, keep)))
    unchanged(v, 'control points', b, lst)


@lemma('C17', 'ControlPoint.reverse_list ControlPoint.reversed', budget=40)
def cp_reverse_list_any_length(v):
    B = v.m.bezier
    S = v.seq('cps', lambda v, n: mk_cp(v, n, v.choice(n + '.kind', ['smooth', 'sharp'])))
    b = obs(S.list)
    r = B.ControlPoint.reverse_list(S.list)

    def el(i, c):
        pc, pl, pr = S.at(S.n - 1 - i)
        v.eq('reversed', cp_pts(c), (pc, pr, pl))
        v.check('kind', c.kind == S.list[S.n - 1 - i].kind)
    v.each('reversed', r, S.n, el)
    v.each('twice', B.ControlPoint.reverse_list(r), S.n, lambda i, c: v.check('twice', c == S.list[i]))
    unchanged(v, 'control points', b, S.list)


@lemma('C17', 'ControlPoint.transform Transformer.transform_pt')
def cp_transform_linear(v):
    B = v.m.bezier
    kind = v.choice('kind', KINDS)
    p, pts = mk_cp(v, 'p', kind, rel=v.flag('relative'))
    m, e = mk_xform(v, 'm')
    b = obs(p)
    q = p.transform(m)
    v.check_type('transform', q, B.ControlPoint)
    v.eq('c, l, r are mapped', cp_pts(q), tuple(apply6(e, *k) for k in pts))
    v.check('kind', q.kind == kind)
    unchanged(v, 'control point', b, p)
    v.eq('matrix', m.as_6tuple(), e)


def any_transformer(v):
    """a transformer computing an arbitrary (uninterpreted) function of the point"""
    class Any(v.m.transform.Transformer):
        LINEAR = False

        def transform_np_pts(self, np_pts):
            return [self.f(np_pts[0, i], np_pts[1, i]) for i in range(np_pts.shape[1])]

        def f(self, x, y):
            return v.app('fx', x, y), v.app('fy', x, y)
    return Any()


@lemma('C17', 'ControlPoint.transform Transformer.transform_pt Vector.unit Vector.length', budget=60)
def cp_transform_nonlinear(v):
    B = v.m.bezier
    kind = v.choice('kind', KINDS)
    p, (c, l, r) = mk_cp(v, 'p', kind)
    m = any_transformer(v)
    b = obs(p)
    q = p.transform(m)
    fc, fl, fr = m.f(*c), m.f(*l), m.f(*r)
    (ax, ay), (bx, by) = (fl[0] - fc[0], fl[1] - fc[1]), (fr[0] - fc[0], fr[1] - fc[1])
    for k in (ax, ay, bx, by, ax - bx, ay - by):
        v.generic(k == 0 or abs(k) > 1e-3)
    v.check_type('transform', q, B.ControlPoint)
    v.eq('center is mapped', tuple(q.c.xy()), fc)
    v.check('kind', q.kind == kind)
    (lx, ly), (rx, ry) = q.dl.xy(), q.dr.xy()
    if kind == 'sharp':
        v.eq('sharp keeps the mapped handles', (lx, ly, rx, ry), (ax, ay, bx, by))
    elif kind == 'very-smooth':
        v.eq('opposite equal handles', (lx, ly), (-rx, -ry))
        v.eq('mean of the mapped handles', (2 * rx, 2 * ry), (bx - ax, by - ay))
    else:
        v.eq('left length', lx * lx + ly * ly, ax * ax + ay * ay)
        v.eq('right length', rx * rx + ry * ry, bx * bx + by * by)
        v.eq('collinear', lx * ry - ly * rx, 0)
        v.le('opposite', lx * rx + ly * ry, 0)
        v.eq('along the mapped handles', rx * (by - ay) - ry * (bx - ax), 0)
    unchanged(v, 'control point', b, p)
