"""C29 path helpers, C30 arcs, circles, crosses."""
from common import *


def rot(v, deg, x, y):
    c, s = v.cosd(deg), v.sind(deg)
    return c * x - s * y, s * x + c * y


def mk_elem(v, n, kinds=('Point', 'PointRelative', 'PointCalc')):
    p, c = mk_point(v, n, kinds)
    return p, (p, obs(p), c)


# =============================================================== C29
@lemma('C29', 'path_rotate path_rotate_ccw path_translate path_to_xy', budget=40)
def paths_pointwise(v):
    """for lists of every length (symbolic length, arbitrary element)"""
    U, g, T = v.m.utils, v.m.geom, v.m.transform.Transform
    S = v.seq('path', mk_elem)
    what = v.choice('what', ['rotate', 'rotate_ccw', 'translate', 'to_xy'])
    as_pt = v.choice('as_pt', [None, False, True]) if what != 'to_xy' else None
    kw = {} if as_pt is None else dict(as_pt=as_pt)
    a, dx, dy = v.reals('angle dx dy')
    if what == 'rotate':
        out = U.path_rotate(S.list, a, **kw)
        want = lambda c: T().rotate(a).transform(*c)
        spec = lambda c: rot(v, -a, *c)
    elif what == 'rotate_ccw':
        out = U.path_rotate_ccw(S.list, a, **kw)
        want = lambda c: T().rotate_ccw(a).transform(*c)
        spec = lambda c: rot(v, a, *c)
    elif what == 'translate':
        d = (g.Point if v.flag('by point') else g.Vector)(dx, dy)
        db = obs(d)
        out = U.path_translate(S.list, d, **kw)
        unchanged(v, 'offset', db, d)
        want = spec = lambda c: (c[0] + dx, c[1] + dy)
    else:
        out = U.path_to_xy(S.list)
        want = spec = lambda c: c

    def each(i, e):
        p, before, c = S.at(i)
        if as_pt:
            v.check('a point', isinstance(e, g.BasePoint))
            v.check('a new point', e is not p)
            e = e.xy()
        else:
            v.check('a pair', isinstance(e, tuple) and len(e) == 2)
        v.eq('coordinates', tuple(e), spec(c))
        v.eq('like Transform', tuple(e), tuple(want(c)))
        unchanged(v, 'input', before, p)
    v.each('order and count', out, S.n, each)


@lemma('C29', 'path_from_xy path_to_xy', budget=20)
def xy_round_trip(v):
    U, g = v.m.utils, v.m.geom

    def mk(v, n):
        c = tuple(v.reals('%s.x %s.y' % (n, n)))
        return c, c
    S = v.seq('path', mk)
    pts = U.path_from_xy(S.list)

    def is_pt(i, p):
        v.check_type('kind', p, g.Point)
        xy_eq(v, 'coordinates', p, S.at(i))
    v.each('points', pts, S.n, is_pt)
    v.each('back', U.path_to_xy(pts), S.n, lambda i, e: v.eq('pair', e, S.at(i)))


@lemma('C29', 'path_rotate path_rotate_ccw path_translate path_to_xy path_from_xy', bound='lists of 0 to 3 points', budget=25)
def paths_small(v):
    """the same on concrete lists: order, and no influence between elements"""
    U, g = v.m.utils, v.m.geom
    k = v.choice('n', [0, 1, 2, 3])
    pts, cs = [], []
    for i in range(k):
        p, c = mk_point(v, 'p%d' % i, (('Point',), ('PointRelative',), ('PointCalc',))[i])
        pts.append(p)
        cs.append(c)
    if k > 1 and v.flag('repeated'):
        pts.append(pts[0])
        cs.append(cs[0])
    a, dx, dy, x_new, y_new = v.reals('angle dx dy x_new y_new')
    before = obs(pts)
    same = list(pts)
    for nm, fn, spec in (('rotate', lambda **kw: U.path_rotate(pts, a, **kw), lambda c: rot(v, -a, *c)),
                         ('rotate_ccw', lambda **kw: U.path_rotate_ccw(pts, a, **kw), lambda c: rot(v, a, *c)),
                         ('translate', lambda **kw: U.path_translate(pts, g.Vector(dx, dy), **kw), lambda c: (c[0] + dx, c[1] + dy))):
        v.eq(nm + ' pairs', fn(), [spec(c) for c in cs])
        v.eq(nm + ' points', [p.xy() for p in fn(as_pt=True)], [spec(c) for c in cs])
    xy = U.path_to_xy(pts)
    v.eq('pairs', xy, cs)
    back = U.path_from_xy(xy)
    v.eq('points', [p.xy() for p in back], cs)
    v.check('kind', all(type(p) is g.Point for p in back))
    unchanged(v, 'inputs', before, pts)
    # results share nothing with the inputs
    turns = v.choice('whole turns', [0, 1, -2])
    for nm, fn in (('rotate', lambda: U.path_rotate(pts, 360 * turns, as_pt=True)),
                   ('rotate_ccw', lambda: U.path_rotate_ccw(pts, 360 * turns, as_pt=True)),
                   ('translate', lambda: U.path_translate(pts, g.Vector(0, 0), as_pt=True))):
        out = fn()
        v.eq(nm + ' nothing', [p.xy() for p in out], cs)
        for i, p in enumerate(out):
            v.check_type('absolute', p, g.Point)
            p.set(g.Point(x_new, y_new))
            unchanged(v, 'inputs after ' + nm, before, pts)
    v.check('same list', len(same) == len(pts) and all(p is q for p, q in zip(same, pts)))


@lemma('C29', 'min_rotation')
def min_rotation(v):
    U = v.m.utils
    t, s = v.reals('target source')
    v.generic(abs(((t - s) % 360) - 180) > 1e-6)
    r = U.min_rotation(t, s)
    v.le('from -180', -180, r)
    v.lt('below 180', r, 180)
    k = v.integer('k')
    if v.symbolic:
        v.eq('congruent', (t - s - r) % 360, 0)
    else:
        d = (t - s - r) / 360
        v.num_eq('congruent', d, round(d))
    d = v.real('d', -179, 179)
    v.num_eq('small differences are returned as they are', U.min_rotation(s + d + 360 * k, s), d)
    v.num_eq('half a turn', U.min_rotation(180, 0), -180)


@lemma('C29', 'check_point_list', bound='lists of up to 3 elements')
def check_point_list(v):
    U, g = v.m.utils, v.m.geom
    k = v.choice('n', [0, 1, 2, 3])
    bad = v.choice('bad at', [None] + list(range(k)))
    lst = [mk_point(v, 'p%d' % i)[0] for i in range(k)]
    x, y = v.reals('x y')
    if bad is not None:
        lst[bad] = v.choice('what', [g.Vector(x, y), (x, y), x, None, 'p'])
        v.raises('not a point', ValueError, U.check_point_list, lst)
    else:
        v.check('accepted', U.check_point_list(lst) is None)


@lemma('C29', 'check_point_list', budget=40)
def check_point_list_any_length(v):
    U, g = v.m.utils, v.m.geom
    S, R = v.seq('before', mk_elem), v.seq('after', mk_elem)
    before = obs(S.list)
    if v.flag('bad'):
        x, y = v.reals('x y')
        bad = v.choice('what', [g.Vector(x, y), (x, y), x, None, 'p'])
        v.raises('not a point', ValueError, U.check_point_list, S.list + [bad] + R.list)
    else:
        v.check('accepted', U.check_point_list(S.list) is None)
        unchanged(v, 'list', before, S.list)


@lemma('C29', 'BasePoint.parse', bound='up to 4 arguments', budget=60)
def parse(v):
    """numbers, pairs and points in any order"""
    g = v.m.geom
    k = v.choice('n', [0, 1, 2, 3, 4])
    thr = v.flag('thruples')
    args, want, half, ok = [], [], None, True
    for i in range(k):
        kind = v.choice('a%d' % i, ['number', 'pair', 'point', 'bad', 'triple'][:5 if k < 4 else 3])
        x, y = v.reals('x%d y%d' % (i, i))
        if half is not None and kind != 'number':
            ok = False
        if kind == 'number':
            args.append(x)
            if half is None:
                half = x
            else:
                want.append((half, x))
                half = None
        elif kind == 'pair':
            args.append((x, y))
            want.append((x, y))
        elif kind == 'point':
            args.append(mk_point(v, 'p%d' % i)[0] if k < 3 else g.Point(x, y))
            want.append(args[-1])
        elif kind == 'triple':
            args.append((x, y, 'z'))
            want.append(args[-1])
            ok = ok and thr
        else:
            args.append(v.choice('bad%d' % i, ['a', None, (x,), ()]))
            ok = False
    if half is not None:
        ok = False
    seq = tuple(args) if v.flag('as tuple') else args
    if ok:
        out = g.BasePoint.parse(seq, allow_thruples=thr)
        v.check('count', len(out) == len(want))
        for a, b in zip(out, want):
            if isinstance(b, g.BasePoint):
                v.same('the point', a, b)
            else:
                v.eq('pair', tuple(a), b)
    else:
        v.raises('malformed', ValueError, g.BasePoint.parse, seq, allow_thruples=thr)


@lemma('C29', 'BasePoint.parse', budget=60)
def parse_any_length(v):
    """any number of numbers, pairs and points in any order, and what may follow them"""
    g = v.m.geom
    thr = v.flag('thruples')

    def mk(v, n):
        kind = v.choice(n + '.kind', ['numbers', 'pair', 'point'] + ['triple'] * thr)
        if kind == 'point':
            p = mk_point(v, n)[0]
            return [p], p
        x, y = v.reals('%s.x %s.y' % (n, n))
        if kind == 'numbers':
            return [x, y], (x, y)
        e = (x, y, 'z') if kind == 'triple' else (x, y)
        return [e], e
    S = v.seq('args', mk, chunks=True)
    x, y = v.reals('x y')
    end = v.choice('end', [None, 'half', 'half pair', 'half point', 'text', 'none', 'triple', 'single', 'empty'])
    R = v.seq('rest', mk, chunks=True) if end not in (None, 'half') else None
    args = S.list
    if end:
        args = args + {'half': [x], 'half pair': [x, (x, y)], 'half point': [x, g.Point(x, y)], 'text': ['a'], 'none': [None],
                       'triple': [(x, y, 'z', 't')[:3 + thr]], 'single': [(x,)], 'empty': [()]}[end]
        if R:
            args = args + R.list
        v.raises('malformed', ValueError, g.BasePoint.parse, args, allow_thruples=thr)
        return

    def el(i, a):
        b = S.at(i)
        if isinstance(b, g.BasePoint):
            v.same('the point', a, b)
        else:
            v.eq('pair', tuple(a), b)
    v.each('parsed', g.BasePoint.parse(args, allow_thruples=thr), S.n, el)


# =============================================================== C30
def mk_center(v):
    g = v.m.geom
    if v.flag('default center'):
        return {}, (0, 0)
    p, c = mk_point(v, 'c', ('Point', 'PointRelative'))
    return dict(c=p), c


def arc_angles(v, direction, sa, ea):
    """start angle and signed travel, in degrees, modulo 360"""
    if direction == 'none':
        return sa, ea - sa
    a, b = sa % 360, ea % 360
    if direction == 'ccw':
        return (a, b + 360 - a) if b < a else (a, b - a)
    return (a, b - (a + 360)) if a < b else (a, b - a)


@lemma('C30', 'arc', budget=60)
def arc_every_point(v):
    """any number of steps: point k of n is at angle start + k/n * travel, for every k (symbolic n and k)"""
    U = v.m.utils
    r, sa, ea = v.reals('r sa ea')
    kw, c = mk_center(v)
    direction = v.choice('direction', ['ccw', 'cw', 'none', None])
    d = direction or 'ccw'
    default = v.flag('default steps')
    if not v.symbolic and default:
        v.generic(abs(ea - sa) < 2000)
    # whole turns and angles that are a rounding error apart are excluded from the concrete runs
    v.generic(abs((ea - sa) % 360) > 1e-6 and abs((ea - sa) % 360 - 360) > 1e-6)
    if direction:
        kw['direction'] = direction
    a, travel = arc_angles(v, d, sa, ea)
    if default:
        out = U.arc(r, sa, ea, **kw)
    else:
        steps = v.integer('steps', 1)
        out = U.arc(r, sa, ea, steps=steps, **kw)
    if d == 'ccw':
        v.le('counterclockwise', 0, travel)
        v.lt('less than a turn', travel, 360)
    elif d == 'cw':
        v.le('clockwise', travel, 0)
        v.lt('less than a turn', -360, travel)
    if default:
        steps = (out.length() if v.symbolic and not isinstance(out, list) else len(out)) - 1
        v.le('at most one degree apart', v.abs(travel), steps)
        v.le('no more steps than degrees', steps, v.abs(travel) + 1)

    def each(k, p):
        # the code turns degrees into radians first and interpolates there
        ang = k / steps * ((a + travel) * v.deg - a * v.deg) + a * v.deg
        v.eq('on the circle at the evenly spaced angle', tuple(p), (c[0] + r * v.cosr(ang), c[1] + r * v.sinr(ang)))
        v.num_eq('distance', (p[0] - c[0]) * (p[0] - c[0]) + (p[1] - c[1]) * (p[1] - c[1]), r * r)
    v.each('points', out, steps + 1, each)


@lemma('C30', 'arc', budget=40)
def arc_ends_any_steps(v):
    U = v.m.utils
    r, sa, ea = v.reals('r sa ea')
    kw, c = mk_center(v)
    direction = v.choice('direction', ['ccw', 'cw', 'none'])
    steps = v.integer('steps', 1)
    out = U.arc(r, sa, ea, steps=steps, direction=direction, **kw)
    v.eq('starts at the start angle', tuple(out[0]), (c[0] + r * v.cosd(sa), c[1] + r * v.sind(sa)))
    v.eq('ends at the end angle', tuple(out[-1]), (c[0] + r * v.cosd(ea), c[1] + r * v.sind(ea)))


@lemma('C30', 'arc', bound='1, 2, 3, 5 or 8 steps', budget=40)
def arc_ends(v):
    U = v.m.utils
    r, sa, ea = v.reals('r sa ea')
    kw, c = mk_center(v)
    direction = v.choice('direction', ['ccw', 'cw', 'none'])
    steps = v.choice('steps', [1, 2, 3, 5, 8])
    out = U.arc(r, sa, ea, steps=steps, direction=direction, **kw)
    v.eq('count', len(out), steps + 1)
    v.eq('starts at the start angle', tuple(out[0]), (c[0] + r * v.cosd(sa), c[1] + r * v.sind(sa)))
    v.eq('ends at the end angle', tuple(out[-1]), (c[0] + r * v.cosd(ea), c[1] + r * v.sind(ea)))


@lemma('C30', 'circle')
def circle(v):
    U = v.m.utils
    r = v.real('r')
    kw, c = mk_center(v)
    out = U.circle(r, **kw)
    n = len(out) - 1
    v.check('at least a point per degree', n >= 360)
    for k, p in enumerate(out):
        v.eq('on the circle at the evenly spaced angle', tuple(p),
             (c[0] + r * v.cosr(v.tau * k / n), c[1] + r * v.sinr(v.tau * k / n)))
    v.eq('closed', tuple(out[0]), tuple(out[-1]))


@lemma('C30', 'arc2p', budget=60)
def arc2p(v):
    """centre at distance r from both points on the requested side, then the ccw arc about it from start to end"""
    U, g = v.m.utils, v.m.geom
    sx, sy, ex, ey = v.reals('sx sy ex ey')
    r = v.real('r', pos=True)
    d = v.hypot(ex - sx, ey - sy)
    v.generic(abs(d - 2 * r) > 1e-3 and d > 1e-2)
    side = v.choice('side', [None, 1, -1, 'real'])
    kw = {}
    sd = 1
    if side == 'real':
        sd = v.real('side', nonzero=True)
        v.generic(abs(sd) > 1e-3)
    elif side:
        sd = side
    if side:
        kw['side'] = sd
    steps = v.choice('steps', [None, 1, 4])
    if steps:
        kw['steps'] = steps
    if v.flag('too far'):
        v.assume(d > 2 * r)
        v.raises('too far apart', ValueError, U.arc2p, r, g.Point(sx, sy), g.Point(ex, ey), **kw)
        return
    if v.flag('coincide'):
        v.raises('coincide', ValueError, U.arc2p, r, g.Point(sx, sy), g.Point(sx, sy), **kw)
        return
    v.assume(d <= 2 * r)
    v.assume(d > 0)
    s, e = g.Point(sx, sy), g.Point(ex, ey)
    log = []
    if v.symbolic:
        # the arc itself is the function under contract above: here its arguments
        real = U.arc

        def arc(rr, a1, a2, *args, **kk):
            log.append((rr, a1, a2, args, kk))
            return [(0, 0)]
        U.arc = arc
        try:
            out = U.arc2p(r, s, e, **kw)
        finally:
            U.arc = real
    else:
        out = U.arc2p(r, s, e, **kw)
    v.eq('end first', tuple(out[0]), (ex, ey))
    v.eq('start third', tuple(out[2]), (sx, sy))
    cx, cy = out[1]
    v.num_eq('distance to start', (cx - sx) * (cx - sx) + (cy - sy) * (cy - sy), r * r)
    v.num_eq('distance to end', (cx - ex) * (cx - ex) + (cy - ey) * (cy - ey), r * r)
    # on the requested side: right of s->e for positive side
    cr = (ex - sx) * (cy - sy) - (ey - sy) * (cx - sx)
    v.le('side', sd * cr, 0)
    if v.symbolic:
        v.check('one arc', len(log) == 1)
        rr, a1, a2, args, kk = log[0]
        v.eq('radius', rr, r)
        names = dict(zip(('c', 'steps', 'direction'), args))
        names.update(kk)
        v.check('known arguments', set(names) <= {'c', 'steps', 'direction'})
        v.eq('centre', tuple(names['c'].xy()), (cx, cy))
        v.eq('steps', names.get('steps', -1), steps or -1)
        v.check('counterclockwise', names.get('direction', 'ccw') == 'ccw')
        v.eq('from the start', (r * v.cosd(a1) + cx, r * v.sind(a1) + cy), (sx, sy))
        v.eq('to the end', (r * v.cosd(a2) + cx, r * v.sind(a2) + cy), (ex, ey))
    else:
        arc = out[3:]
        v.eq('arc from the start', tuple(arc[0]), (sx, sy))
        v.eq('arc to the end', tuple(arc[-1]), (ex, ey))
        if steps:
            v.eq('steps', len(arc), steps + 1)
        tot = 0
        for p, q in zip(arc, arc[1:]):
            v.num_eq('on the circle', v.hypot(q[0] - cx, q[1] - cy), r)
            import math
            w = math.atan2((p[0] - cx) * (q[1] - cy) - (p[1] - cy) * (q[0] - cx),
                           (p[0] - cx) * (q[0] - cx) + (p[1] - cy) * (q[1] - cy))
            if steps != 1:
                tot += w
                v.le('counterclockwise', -1e-9, w) if len(arc) > 5 else None


@lemma('C30', 'arc2p')
def arc2p_half_circle(v):
    """points exactly 2r apart are allowed: the centre is their midpoint"""
    U, g = v.m.utils, v.m.geom
    r = v.real('r', pos=True)
    v.generic(r > 1e-6)
    dx, dy = v.choice('direction', [(2, 0), (-2, 0), (0, 2), (0, -2)])
    side = v.choice('side', [1, -1])
    out = U.arc2p(r, g.Point(0, 0), g.Point(dx * r, dy * r), steps=2, side=side)
    v.eq('end, centre, start', [tuple(p) for p in out[:3]], [(dx * r, dy * r), (dx * r / 2, dy * r / 2), (0, 0)])
    if not v.symbolic:          # the arc's angles are under contract in arc2p and arc_every_point
        v.eq('half circle', [tuple(p) for p in out[3:]], [(0, 0), (dx * r / 2 + dy * r / 2, dy * r / 2 - dx * r / 2), (dx * r, dy * r)])


@lemma('C30', 'cross plus')
def cross_and_plus(v):
    U = v.m.utils
    r = v.real('r')
    kw, c = mk_center(v)
    what = v.choice('what', ['cross', 'plus'])
    out = getattr(U, what)(r, **kw)
    s = r if what == 'plus' else r * v.sqrt(2) / 2
    vx, vy = ((s, 0), (0, s)) if what == 'plus' else ((s, s), (-s, s))
    want = [(c[0] - vx[0], c[1] - vx[1]), (c[0] + vx[0], c[1] + vx[1]), c, (c[0] - vy[0], c[1] - vy[1]), (c[0] + vy[0], c[1] + vy[1])]
    v.eq('arms', [tuple(p) for p in out], want)
    for i in (0, 1, 3, 4):
        p = out[i]
        v.num_eq('arm length', (p[0] - c[0]) * (p[0] - c[0]) + (p[1] - c[1]) * (p[1] - c[1]), r * r)
