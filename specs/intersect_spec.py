"""C35: crossings of curves, and splitting a curve that crosses itself.

The `bezier` package is replaced by its contract (assumed): Curve(nodes, 3).intersect(other) gives a 2 x n array of
the parameters (on the curve, on the other) of the crossings, shared end points included; evaluate_multi gives the
points of the curve at the parameters; intersect may give up with NotImplementedError."""
import contextlib
import io
import itertools
import math
import numpy as np
from common import *
from bezier_spec import KINDS, bern, cp_pts, mk_cp, seg

BEZ = 'bz_curve bez_intersect_new bez_split'
OPS = ('bez_self_intersect BziGraph.__init__ BziGraph.node BziGraph.any_node BziGraph.add_edge BziGraph.validate BziNode.__init__ '
       'BziNode.center BziNode.add_edge BziNode.any_edge BziEdge.__init__ BziEdge.remove BziEdge.unremove CpBool.__init__ '
       'ControlPoint.copy ' + BEZ)


@contextlib.contextmanager
def fake_bezier(v, oracle, places=None):
    """oracle(nodes, nodes) -> [(t, s)] for the crossings; places(nodes, t) -> the point of the curve at t"""
    class Curve:
        def __init__(self, nodes, degree, **kw):
            self.shape, self.degree = np.shape(nodes), degree
            self.nodes = [tuple(np.asarray(nodes)[k][i] for k in (0, 1)) for i in range(4)]

        def intersect(self, other, **kw):
            r = oracle(self.nodes, other.nodes)
            if v.symbolic and not isinstance(r, list):
                return v.array(r).T
            return np.array([[t for t, s in r], [s for t, s in r]], dtype=float) if r else np.zeros((2, 0))

        def evaluate_multi(self, ts):
            if v.symbolic and not isinstance(ts, (list, tuple, np.ndarray)):
                return v.array(v.map(lambda t: places(self.nodes, t), ts)).T
            ps = [places(self.nodes, t) for t in ts]
            r = np.empty((2, len(ps)), dtype=object if v.symbolic else float)
            for i, p in enumerate(ps):
                r[0, i], r[1, i] = p
            return r

        def evaluate(self, t):
            return self.evaluate_multi([t])
    B = v.m.bezier
    old = B.BzCurve
    names = [k for k, x in list(vars(B).items()) if x is old]
    for k in names:
        setattr(B, k, Curve)
    try:
        yield Curve
    finally:
        for k in names:
            setattr(B, k, old)


# ---------------------------------------------------------------- crossings of two segments
@lemma('C35', 'bez_intersect bez_intersect_new bz_curve', bound='at most three crossings', budget=30)
def crossings_reported(v):
    """each crossing once, with its point on curve A and both parameters; shared ends only when asked for"""
    B = v.m.bezier
    cps, cs = zip(*[mk_cp(v, n, 'sharp') for n in ('a1', 'a2', 'b1', 'b2')])
    before = obs(cps)
    A, O = seg(cs[0], cs[1]), seg(cs[2], cs[3])
    found = v.choice('crossings', [
        [], [(0.5, 0.25)], [(1.0, 0.0)], [(0.0, 1.0)], [(1.0, 0.0), (0.25, 0.75)], [(0.5, 0.5), (0.0, 1.0), (0.75, 0.25)],
        [(1.0, 1.0)], [(0.0, 0.0), (0.125, 0.5)], [(1.0, 0.5)], [(0.5, 0.0), (1.0, 0.0), (0.0, 1.0)], None])
    ends = v.flag('endpoints')
    asked = []

    def oracle(a, b):
        asked.append((a, b))
        if found is None:
            raise NotImplementedError('too many candidates')
        return found
    with fake_bezier(v, oracle, bern):
        kw = {'endpoints': True} if ends else {}
        how = v.choice('call', ['new', 'points', 'params'])
        r = B.bez_intersect_new(*cps, **kw) if how == 'new' else B.bez_intersect(*cps, as_points=how == 'points', **kw) \
            if how == 'points' else B.bez_intersect(*cps, **kw)
    want = [x for x in found or [] if ends or x not in ((1, 0), (0, 1))]
    v.check('asked once', len(asked) == 1)
    v.eq('segment A', asked[0][0], A)
    v.eq('segment B', asked[0][1], O)
    if how == 'params':
        ts = list(zip(*want))
        v.eq('parameters', [tuple(x) for x in r], ts)
    else:
        v.check('count', len(r) == len(want))
        for x, (t, s) in zip(r, want):
            if how == 'new':
                p, t2, s2 = x
                v.eq('parameters', (t2, s2), (t, s))
            else:
                p = x
            v.check_type('point', p, v.m.geom.Point)
            xy_eq(v, 'on curve A', p, bern(A, t))
    v.eq('control points unchanged', obs(cps), before)


@lemma('C35', 'bez_intersect bez_intersect_new bz_curve', budget=30)
def crossings_any_number(v):
    """any number of crossings inside the segments"""
    B = v.m.bezier
    cps, cs = zip(*[mk_cp(v, n, 'sharp') for n in ('a1', 'a2', 'b1', 'b2')])
    A, O = seg(cs[0], cs[1]), seg(cs[2], cs[3])

    def mk(v, n):
        t, s = v.reals(n + '.t ' + n + '.s') if v.symbolic else [v.choice(n + k, [0.125, 0.25, 0.5, 0.75, 0.9]) for k in 'ts']
        v.assume(v.and_(0 < t, t < 1, 0 < s, s < 1))
        return (t, s), (t, s)
    S = v.seq('crossings', mk)
    ends = v.flag('endpoints')
    with fake_bezier(v, lambda a, b: S.list, bern):
        r = B.bez_intersect_new(*cps, endpoints=ends)
        ps = B.bez_intersect(*cps, as_points=True, endpoints=ends)

    def each(i, x):
        p, t, s = x
        v.eq('parameters', (t, s), S.at(i))
        xy_eq(v, 'on curve A', p, bern(A, S.at(i)[0]))
    v.each('crossings', r, S.n, each)
    v.each('points', ps, S.n, lambda i, p: xy_eq(v, 'point on curve A', p, bern(A, S.at(i)[0])))


# ---------------------------------------------------------------- closed curves that cross themselves
def layout(n, k, most=2):
    """all ways for k crossings between different segments of n"""
    prs = list(itertools.combinations(range(n), 2))
    for ps in itertools.combinations_with_replacement(prs, k):
        slots = [[] for _ in range(n)]
        for q, (i, j) in enumerate(ps):
            slots[i].append((q, 0))
            slots[j].append((q, 1))
        if any(len(s) > most for s in slots):
            continue
        for orders in itertools.product(*[list(itertools.permutations(s)) for s in slots]):
            at = {x: p for o in orders for p, x in enumerate(o)}
            order = [(q, w) for i in range(n) for (q, w) in orders[i]]
            # drawn in the plane: between the two visits of a crossing there is an even number of visits
            pos = {}
            for z, (q, w) in enumerate(order):
                pos.setdefault(q, []).append(z)
            if all((b - a) % 2 == 1 for a, b in pos.values()):
                yield [(i, at[(q, 0)], j, at[(q, 1)]) for q, (i, j) in enumerate(ps)]


PARAM = [0.5, 0.75]


def bez_w(t):
    s = 1 - t
    return s ** 3, 3 * s * s * t, 3 * s * t * t, t ** 3


def closed_curve(v, n, cross, loops=()):
    """closed curve of n segments through the crossings asked for -> (control points, segments, crossings per segment, places)

    cross: (segment, nth crossing there, other segment, nth there); loops: segments that cross themselves"""
    place = [(10.0 * k + 5, float(k * k) - 3) for k in range(len(cross) + len(loops))]
    on = [[] for _ in range(n)]                # (t, crossing number)
    for k, (i, a, j, b) in enumerate(cross):
        on[i].append((PARAM[a], k))
        on[j].append((PARAM[b], k))
    for k, i in enumerate(loops):
        on[i] += [(0.25, len(cross) + k), (0.75, len(cross) + k)]
    ends = [(101.0 + i, v.real('y%d' % i)) for i in range(n)]
    segs = []
    for i in range(n):
        p0, p3 = ends[i], ends[(i + 1) % n]
        on[i].sort()
        free = v.reals(['p%dx p%dy q%dx q%dy' % (i, i, i, i), 'p%dx p%dy' % (i, i)][len(on[i])]) if len(on[i]) < 2 else []
        p1 = tuple(free[:2])
        if len(on[i]) == 0:
            p2 = tuple(free[2:])
        elif len(on[i]) == 1:
            t, k = on[i][0]
            w = bez_w(t)
            p2 = tuple((place[k][d] - w[0] * p0[d] - w[1] * p1[d] - w[3] * p3[d]) / w[2] for d in (0, 1))
        else:
            (t, k), (s, m) = on[i]
            w, u = bez_w(t), bez_w(s)
            det = w[1] * u[2] - w[2] * u[1]
            f = [place[k][d] - w[0] * p0[d] - w[3] * p3[d] for d in (0, 1)]
            h = [place[m][d] - u[0] * p0[d] - u[3] * p3[d] for d in (0, 1)]
            p1 = tuple((f[d] * u[2] - h[d] * w[2]) / det for d in (0, 1))
            p2 = tuple((h[d] * w[1] - f[d] * u[1]) / det for d in (0, 1))
        segs.append((p0, p1, p2, p3))
    g, B = v.m.geom, v.m.bezier
    cps, kind = [], v.choice('kind', [0, 1, 2])
    for i in range(n):
        c, l, r = ends[i], segs[i - 1][2], segs[i][1]
        cps.append(B.ControlPoint(g.Point(*c), g.Vector(l[0] - c[0], l[1] - c[1]), g.Vector(r[0] - c[0], r[1] - c[1]),
                                  KINDS[(kind + i) % 3]))
    return cps, segs, on, place


def part(ps, a, b):
    """the segment traced by ps between the parameters a and b (blossom)"""
    def blossom(x, y, z):
        q = list(ps)
        for t in (x, y, z):
            q = [tuple((1 - t) * q[i][d] + t * q[i + 1][d] for d in (0, 1)) for i in range(len(q) - 1)]
        return q[0]
    return blossom(a, a, a), blossom(a, a, b), blossom(a, b, b), blossom(b, b, b)


def tagger(n):
    def tag(p):
        x = p[0]
        return int(x) - 101 if isinstance(x, (int, float)) and not isinstance(x, bool) and x == int(x) and 101 <= x < 101 + n else None
    return tag


def crossing_oracle(n, on, place):
    tag = tagger(n)

    def which(nodes):
        a, b = tag(nodes[0]), tag(nodes[3])
        if a is not None and b is not None and b == (a + 1) % n:
            return a, 0.0, 1.0
        if a is not None and b is None:
            return a, 0.0, 0.5
        if b is not None and a is None:
            return (b - 1) % n, 0.5, 1.0
        raise AssertionError('not a segment of the curve or half of one')

    def oracle(a, b):
        (i, a0, a1), (j, b0, b1) = which(a), which(b)
        r = []
        for t, k in on[i]:
            for s, m in on[j]:
                if k == m and (i, t) != (j, s) and a0 < t < a1 and b0 < s < b1:
                    r.append(((t - a0) / (a1 - a0), (s - b0) / (b1 - b0)))
        if (i, a1) == (j, b0) or a1 == 1.0 and b0 == 0.0 and j == (i + 1) % n:
            r.append((1.0, 0.0))
        if (j, b1) == (i, a0) or b1 == 1.0 and a0 == 0.0 and i == (j + 1) % n:
            r.append((0.0, 1.0))
        return r

    def places(nodes, t):
        i, a0, a1 = which(nodes)
        for s, k in on[i]:
            if s == a0 + t * (a1 - a0):
                return place[k]
        return nodes[0] if t == 0 else nodes[3]
    return oracle, places


def pieces(segs, on, loops):
    """the segments between crossings (a segment that crosses itself is halved as well)"""
    r = []
    for i, s in enumerate(segs):
        cuts = [0.0] + sorted([t for t, k in on[i]] + ([0.5] if i in loops else [])) + [1.0]
        r += [part(s, a, b) for a, b in zip(cuts, cuts[1:])]
    return r


def alike(v, p, q):
    return all(v.alike(a, b) for a, b in zip(p, q))


def check_split(v, out, want, place):
    """the curves are made of the pieces between crossings, each used once; corners at crossings are sharp; no curve twice through a crossing"""
    want = list(want)
    for c in out:
        v.check('closed curve', len(c) >= 1 and all(isinstance(x, v.m.bezier.ControlPoint) for x in c))
        nodes = []
        for a, b in zip(c, c[1:] + c[:1]):
            A, Z = cp_pts(a), cp_pts(b)
            got = (A[0], A[2], Z[1], Z[0])
            v.check('a piece is left', bool(want))
            if not want:
                return
            best = max(want, key=lambda w: sum(alike(v, p, q) for p, q in zip(w, got)))
            want = [w for w in want if w is not best]
            v.eq('piece of the curve', got, best)
            k = [k for k, x in enumerate(place) if alike(v, x, A[0])]
            if k:
                nodes += k
                v.check('sharp at a crossing', a.kind == 'sharp')
        v.check('no crossing twice', len(set(nodes)) == len(nodes))
    v.check('every piece of the curve', not want)


def crossing_case(v, n, cross, loops=()):
    B = v.m.bezier
    cps, segs, on, place = closed_curve(v, n, cross, loops)
    for c in cps:
        v.generic(v.and_(*[v.abs(x) < 300 for p in cp_pts(c) for x in p]))
    before, ids = [obs(c) for c in cps], [id(c) for c in cps]
    oracle, places = crossing_oracle(n, on, place)
    with fake_bezier(v, oracle, places), contextlib.redirect_stdout(io.StringIO()):
        out = B.bez_self_intersect(cps)
    v.check('list not changed', [id(c) for c in cps] == ids)
    v.eq('control points not changed', [obs(c) for c in cps], before)
    if not place:
        v.check('no crossing: nothing', list(out) == [])
        return
    check_split(v, out, pieces(segs, on, loops), place)
    v.check('new control points', not {id(x) for c in out for x in c} & set(ids))


@lemma('C35', OPS, bound='curves of 1 to 4 segments with no crossing', budget=30)
def no_crossing(v):
    """no crossing: no curves, whatever the shape"""
    crossing_case(v, v.choice('n', [1, 2, 3, 4]), [])


@lemma('C35', OPS, bound='curves of 2 to 4 segments crossing themselves once or twice, all layouts', budget=60)
def split_at_crossings(v):
    """each piece between crossings is kept exactly once, whatever the shape of the segments"""
    n, k = v.choice('size', [(2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3), (5, 2)] + [(7, 1), (8, 1), (9, 1)] * (not v.symbolic))
    crossing_case(v, n, v.choice('layout %d %d' % (n, k), list(layout(n, k))))


@lemma('C35', OPS, bound='curves of 1 to 3 segments, one or two of which cross themselves', budget=60)
def split_at_loops(v):
    """segments that cross themselves"""
    n = v.choice('n', [1, 2, 3])
    loops = v.choice('loops %d' % n, [x for k in (1, 2) for x in itertools.combinations(range(n), k)])
    crossing_case(v, n, [], loops)


@lemma('C35', 'ElemCurve.self_intersect ElemCurve.control_points_transformed ElemCurve.__init__', bound='1 to 3 control points', budget=30)
def element_split(v):
    """the curves of an element: those of its outline under its own transform, with its pen and closedness, numbered"""
    M, B = v.m.model, v.m.bezier
    k = v.choice('points', [1, 2, 3])
    X, Xt = mk_xform(v, 'X')
    cps, cs = zip(*[mk_cp(v, 'p%d' % i, KINDS[i]) for i in range(k)])
    filled = v.flag('filled')
    P = v.m.colors.PenBrush('black', 'red' if filled else None)
    closed = filled or v.flag('closed')
    e = M.ElemCurve('e', P, list(cps), closed, X)
    before, asked = obs(e), []
    n = v.choice('curves', [0, 1, 3])
    found = [[mk_cp(v, 'r%d%d' % (i, j), 'sharp')[0] for j in range(1 + i)] for i in range(n)]

    def split(given, debug=False):
        asked.append([(c.kind, cp_pts(c)) for c in given])
        return found
    names = [(m, x) for m in (M, B) for x in list(vars(m)) if vars(m)[x] is B.bez_self_intersect and x != '__all__']
    old = B.bez_self_intersect
    for m, x in names:
        setattr(m, x, split)
    try:
        r = e.self_intersect()
    finally:
        for m, x in names:
            setattr(m, x, old)
    v.check('asked once', len(asked) == 1 and len(asked[0]) == k)
    for (kind, got), c, P3 in zip(asked[0], cps, cs):
        v.check('kind', kind == c.kind)
        v.eq('outline', got, tuple(apply6(Xt, *p) for p in P3))
    v.check('count', len(r) == n)
    for i, (c, f) in enumerate(zip(r, found)):
        v.check('curve', type(c) is M.ElemCurve and c.name == 'e_i%d' % i and c.penbrush is P and bool(c.closed) == bool(closed))
        v.eq('control points', [cp_pts(x) for x in c.control_points], [cp_pts(x) for x in f])
        v.eq('no own transform', c.xform.as_6tuple(), v.m.transform.Transform().as_6tuple())
    v.eq('element unchanged', obs(e), before)


@lemma('C35', 'bez_self_intersect bez_intersect_new', bound='polygons of 3 to 9 corners, seeded, with the real intersector', sym=False, fuzz=25)
def polygons(v):
    """straight segments: crossings computed here exactly"""
    B, g = v.m.bezier, v.m.geom
    n = v.choice('corners', [3, 4, 5, 6, 9])
    if n == 9:                  # most of the way round before the first crossing
        ps = [(int(500 + 400 * math.cos(0.7 * i)) + v.integer('x%d' % i, -9, 9), int(500 + 400 * math.sin(0.7 * i)) + v.integer('y%d' % i, -9, 9))
              for i in range(7)] + [(v.integer('x%d' % i, 0, 1000), v.integer('y%d' % i, 0, 1000)) for i in (7, 8)]
    else:
        ps = [(v.integer('x%d' % i, 0, 1000), v.integer('y%d' % i, 0, 1000)) for i in range(n)]
    ds = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(ps, ps[1:] + ps[:1])]
    cuts = [[] for _ in range(n)]
    k = 0
    for i, j in itertools.combinations(range(n), 2):
        den = ds[i][0] * ds[j][1] - ds[i][1] * ds[j][0]
        v.assume(den != 0)
        if j - i in (1, n - 1):
            continue
        wx, wy = ps[j][0] - ps[i][0], ps[j][1] - ps[i][1]
        t, s = (wx * ds[j][1] - wy * ds[j][0]) / den, (wx * ds[i][1] - wy * ds[i][0]) / den
        v.assume(min(abs(x - y) for x in (t, s) for y in (0, 1)) > 1e-3)
        if 0 < t < 1 and 0 < s < 1:
            cuts[i].append(t)
            cuts[j].append(s)
            k += 1
    v.assume(all(b - a > 1e-3 for c in cuts for a, b in zip(sorted(c), sorted(c)[1:])))
    cps = [B.ControlPoint(g.Point(*p), g.Vector(0, 0), g.Vector(0, 0)) for p in ps]
    with contextlib.redirect_stdout(io.StringIO()):
        out = B.bez_self_intersect(cps)
    if not k:
        v.check('no crossing: nothing', list(out) == [])
        return
    want = []
    for i in range(n):
        (x, y), (dx, dy) = ps[i], ds[i]
        # the parameter of a straight segment with zero handles is 3u^2 - 2u^3; only the places matter here
        at = [0] + sorted(cuts[i]) + [1]
        want += [((x + a * dx, y + a * dy), (x + b * dx, y + b * dy)) for a, b in zip(at, at[1:])]
    got = [(a.c.xy(), b.c.xy()) for c in out for a, b in zip(c, c[1:] + c[:1])]
    v.check('as many pieces', len(got) == len(want))
    left = list(got)
    for w in want:
        m = [x for x in left if max(abs(p - q) for a, b in zip(x, w) for p, q in zip(a, b)) < 1e-5]
        v.check('piece kept', bool(m))
        left.remove(m[0])
