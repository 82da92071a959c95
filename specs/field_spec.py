from common import *
import numpy as np


def arr(v, rows):
    return np.array(rows, dtype=object if v.symbolic else float)


def mk_field(v, n, nx=None):
    """a vector field on an nx by nx mesh over a box of non-zero area, with arbitrary node vectors"""
    F = v.m.vec_field
    k = nx or v.choice(n + '.steps', [2, 3])
    b, t = mk_bbox(v, n + '.box', area=True)
    v.generic(t[2] - t[0] > 1e-2)
    v.generic(t[3] - t[1] > 1e-2)
    mesh = F.Mesh(b, k)
    vx = [[v.real('%s.vx%d%d' % (n, i, j)) for j in range(k)] for i in range(k)]
    vy = [[v.real('%s.vy%d%d' % (n, i, j)) for j in range(k)] for i in range(k)]
    f = F.VectorField(mesh, arr(v, vx), arr(v, vy))
    return f, mesh, t, k, vx, vy


def node(v, t, k, i, j):
    return t[0] + (t[2] - t[0]) * i / (k - 1), t[1] + (t[3] - t[1]) * j / (k - 1)


# =============================================================== C13
ANY = ['affine', 'other', 'other3']


def mk_transformer(v, n='m', kinds=('affine', 'field', 'other', 'other3')):
    """any transformer: affine, a vector field, or another subclass of Transformer"""
    kind = v.choice('transformer', list(kinds))
    if kind == 'any field':
        from mesh_spec import any_field
        return any_field(v, n)[0], kind
    if kind == 'affine':
        return mk_xform(v, n)[0], kind
    if kind == 'field':
        return mk_field(v, n, 2)[0], kind
    a, b = v.reals(n + '.a ' + n + '.b')
    Base = v.m.transform.Transformer

    class Other(Base):
        LINEAR = False

        def transform_np_pts(self, np_pts):
            if seq.is_sym(np_pts):
                return seq.rowmap(np_pts.T.rows(), lambda r: (a * r[0] * r[1] + b, r[0] - r[1] * r[1]) + (
                    () if kind == 'other' else (1,)))
            out = []
            for i in range(np_pts.shape[1]):
                x, y = np_pts[0, i], np_pts[1, i]
                out.append((a * x * y + b, x - y * y) if kind == 'other' else (a * x * y + b, x - y * y, 1))
            return out
    return Other(), kind


LENS = [1, 2, 3]


@lemma('C13', 'Transformer.transform Transformer.transform_pt Transformer.transform_pts Transformer.points_to_np_points '
       'Transformer.xy_to_np_point Transform.transform_np_pts VectorField.transform_np_pts',
       bound='lists of 1 to 3 elements; fields on a 2x2 mesh', budget=60)
def batch_agrees(v):
    g = v.m.geom
    m, kind = mk_transformer(v)
    n = v.choice('n', LENS)
    shape = v.choice('elements', ['points', 'pairs', 'relative'])
    base = g.Point(0, 0)
    xy = [tuple(v.reals('x%d y%d' % (i, i))) for i in range(n)]
    pts = [g.Point(*p) if shape == 'points' else g.PointRelative(p[0], p[1], base) if shape == 'relative' else p for p in xy]
    keep = list(pts)
    want = [tuple(m.transform(*p)) for p in xy]
    for w in want:
        v.check('transform gives a pair', len(w) == 2)
    out = m.transform_pts(pts)
    v.check('a list of the same length', isinstance(out, list) and len(out) == n)
    for o, w in zip(out, want):
        if shape == 'pairs':
            v.check('pairs to pairs', type(o) is tuple and len(o) == 2)
            v.eq('same coordinates', o, w)
        else:
            v.check_type('points to points', o, g.Point)
            xy_eq(v, 'same coordinates', o, w)
    flat = m.transform_pts(pts, flatten=True)
    v.eq('flattened', list(flat), [c for w in want for c in w])
    v.check('list unchanged', len(pts) == n and all(a is b for a, b in zip(pts, keep)))
    v.eq('elements unchanged', [tuple(p.xy()) if shape != 'pairs' else p for p in pts], xy)


@lemma('C13', 'Transformer.transform Transformer.transform_pt Transformer.transform_pts Transformer.points_to_np_points '
       'Transform.transform_np_pts', budget=60)
def batch_any_length(v):
    any_batch(v, ANY)


@lemma('C13', 'Transformer.transform_pts VectorField.transform_np_pts', budget=60)
def batch_any_length_field(v):
    any_batch(v, ['any field'])


def any_batch(v, kinds):
    g = v.m.geom
    m, kind = mk_transformer(v, kinds=kinds)
    shape = v.choice('elements', ['points', 'pairs', 'relative'])
    base = g.Point(0, 0)

    def mk(v, n):
        p = tuple(v.reals(n + '.x ' + n + '.y'))
        return (g.Point(*p) if shape == 'points' else g.PointRelative(p[0], p[1], base) if shape == 'relative' else p), p
    S = v.seq('p', mk, minlen=1)
    before = obs(S.list)
    pos = obs(m)

    def el(i, o):
        w = tuple(m.transform(*S.at(i)))
        if shape == 'pairs':
            v.check('pairs to pairs', type(o) is tuple and len(o) == 2)
            v.eq('same coordinates', o, w)
        else:
            v.check_type('points to points', o, g.Point)
            xy_eq(v, 'same coordinates', o, w)
    v.each('list', m.transform_pts(S.list), S.n, el)

    def flat(i, c):
        q, r = v.divmod(i, 2)
        v.num_eq('flattened', c, tuple(m.transform(*S.at(q)))[r])
    v.each('flat', m.transform_pts(S.list, flatten=True), 2 * S.n, flat)
    unchanged(v, 'elements', before, S.list)
    if kind == 'affine':
        unchanged(v, 'transform', pos, m)


@lemma('C13', 'Transformer.transform_pt Transformer.transform Transform.transform_np_pts VectorField.transform_np_pts')
def single_point(v):
    single(v, ANY)


@lemma('C13', 'Transformer.transform_pt Transformer.transform VectorField.transform_np_pts')
def single_point_field(v):
    single(v, ['any field'])


def single(v, kinds):
    g = v.m.geom
    m, kind = mk_transformer(v, kinds=kinds)
    p, (x, y) = mk_point(v, 'p')
    b = obs(p)
    w = m.transform(x, y)
    r = m.transform_pt(p)
    v.check_type('transform_pt', r, g.Point)
    xy_eq(v, 'transform_pt', r, w)
    q = m.transform_pt(p, as_pt=False)
    v.check('as a pair', len(q) == 2 and not isinstance(q, g.BasePoint))
    v.eq('as a pair', tuple(q), tuple(w))
    unchanged(v, 'point', b, p)


@lemma('C13', 'Transform.transform_width Transform.scale_vals Transformer.transform_width')
def width(v):
    any_width(v, ANY)


@lemma('C13', 'Transformer.transform_width')
def width_field(v):
    any_width(v, ['any field'])


def any_width(v, kinds):
    m, kind = mk_transformer(v, kinds=kinds)
    w = v.real('w')
    r = m.transform_width(w)
    if kind == 'affine':
        a, b, c, d, e, f = m.as_6tuple()
        v.eq('mean of the column lengths', r, w * (v.hypot(a, d) + v.hypot(b, e)) / 2)
    else:
        k = w * v.sqrt(2) / 2
        ax, ay = m.transform(k, k)
        bx, by = m.transform(0, 0)
        v.eq('distance of the images', r, v.hypot(ax - bx, ay - by))


# =============================================================== C28
@lemma('C28', 'Mesh.__init__ Mesh.zeros', bound='meshes of 2 to 4 steps')
def mesh_nodes(v):
    b, t = mk_bbox(v, 'b', area=True)
    k = v.choice('steps', [2, 3, 4])
    m = v.m.vec_field.Mesh(b, k)
    v.check('node counts', len(m.coord_x) == k and len(m.coord_y) == k)
    for i in range(k):
        x, y = node(v, t, k, i, i)
        v.eq('x node', m.coord_x[i], x)
        v.eq('y node', m.coord_y[i], y)
    z = m.zeros()
    v.check('field shape', z.vx.shape == (k, k) and z.vy.shape == (k, k))
    v.eq('zero field', [float(e) if not v.symbolic else e for e in list(z.vx.ravel()) + list(z.vy.ravel())], [0] * (2 * k * k))
    v.eq('box', b.as_tuple(), t)


@lemma('C28', 'VectorField.lookup VectorField.interp_coords VectorField.transform_np_pts', bound='meshes of 2 and 3 steps')
def lookup_at_nodes(v):
    f, mesh, t, k, vx, vy = mk_field(v, 'f')
    i, j = v.choice('i', list(range(k))), v.choice('j', list(range(k)))
    x, y = node(v, t, k, i, j)
    v.trust('scipy RegularGridInterpolator(method=linear, fill_value=None) is the multilinear interpolant')
    v.eq('lookup at a node', f.lookup(x, y), (vx[i][j], vy[i][j]))
    v.eq('transform at a node', f.transform(x, y), (x + vx[i][j], y + vy[i][j]))
    v.eq('field unchanged', (f.vx.tolist(), f.vy.tolist()), (vx, vy))


@lemma('C28', 'VectorField.lookup VectorField.interp_coords VectorField.transform_np_pts', bound='meshes of 2 and 3 steps')
def lookup_bilinear(v):
    f, mesh, t, k, vx, vy = mk_field(v, 'f')
    i, j = v.choice('i', list(range(k - 1))), v.choice('j', list(range(k - 1)))
    s, u = v.real('s', lo=0, hi=1), v.real('u', lo=0, hi=1)
    v.assume(s < 1)
    v.assume(u < 1)
    x0, y0 = node(v, t, k, i, j)
    x1, y1 = node(v, t, k, i + 1, j + 1)
    x, y = x0 + s * (x1 - x0), y0 + u * (y1 - y0)

    def mix(w):
        return (1 - s) * (1 - u) * w[i][j] + s * (1 - u) * w[i + 1][j] + (1 - s) * u * w[i][j + 1] + s * u * w[i + 1][j + 1]
    v.eq('bilinear', f.lookup(x, y), (mix(vx), mix(vy)))
    v.eq('transform adds it', f.transform(x, y), (x + mix(vx), y + mix(vy)))


@lemma('C28', 'VectorField.transform_np_pts Mesh.zeros VectorField.__init__', bound='meshes of 2 to 3 steps')
def zero_field(v):
    b, t = mk_bbox(v, 'b', area=True)
    v.generic(t[2] - t[0] > 1e-2)
    v.generic(t[3] - t[1] > 1e-2)
    f = v.m.vec_field.Mesh(b, v.choice('steps', [2, 3])).zeros()
    x, y = v.reals('x y')
    v.eq('zero field is the identity', f.transform(x, y), (x, y))


@lemma('C28', 'VectorField.scaled', bound='a 2x2 mesh')
def scaled(v):
    f, mesh, t, k, vx, vy = mk_field(v, 'f', 2)
    sx = v.choice('s', [None, 1, 0, -1, 2])
    if sx is None:
        sx = v.real('sx')
    if v.flag('looked up before'):
        f.lookup(t[0], t[1])
    if v.flag('both'):
        sy = v.choice('t', [None, 1])
        if sy is None:
            sy = v.real('sy')
        r = f.scaled(sx, sy)
    else:
        sy = sx
        r = f.scaled(sx)
    v.check_type('scaled', r, v.m.vec_field.VectorField)
    v.eq('scaled', (r.vx.tolist(), r.vy.tolist()),
         ([[e * sx for e in row] for row in vx], [[e * sy for e in row] for row in vy]))
    v.check('same mesh', r.mesh == mesh)
    x, y = node(v, t, k, 1, 0)
    v.eq('lookup of the scaled field', r.lookup(x, y), (vx[1][0] * sx, vy[1][0] * sy))
    v.eq('original', (f.vx.tolist(), f.vy.tolist()), (vx, vy))
    v.eq('lookup of the original', f.lookup(x, y), (vx[1][0], vy[1][0]))
    a, b = (r, f) if v.flag('change the result') else (f, r)
    was = (b.vx.tolist(), b.vy.tolist())
    a.vx[0, 1] = 77
    a.vy[1, 1] = 78
    v.eq('detached', (b.vx.tolist(), b.vy.tolist()), was)


@lemma('C28', 'VectorField.normalized', bound='a 2x2 mesh')
def normalized(v):
    f, mesh, t, k, vx, vy = mk_field(v, 'f', 2)
    mags = [v.hypot(vx[i][j], vy[i][j]) for i in range(k) for j in range(k)]
    big = v.max(*mags)
    v.assume(big > 0)
    v.generic(big > 1e-2)
    r = f.normalized()
    v.eq('divided by the largest magnitude', [[e * big for e in row] for row in r.vx.tolist()], vx)
    v.eq('divided by the largest magnitude', [[e * big for e in row] for row in r.vy.tolist()], vy)
    v.check('same mesh', r.mesh == mesh)
    v.eq('original', (f.vx.tolist(), f.vy.tolist()), (vx, vy))
    r.vx[0, 0] = 77
    r.vy[0, 0] = 77
    v.eq('detached', (f.vx.tolist(), f.vy.tolist()), (vx, vy))


def smooth_ref(v, w, k):
    out = []
    for i in range(k):
        row = []
        for j in range(k):
            cells = [w[x][y] for x in range(max(0, i - 2), min(k, i + 2)) for y in range(max(0, j - 2), min(k, j + 2))]
            row.append((sum(cells) + 19 * w[i][j]) / (len(cells) + 19))
        out.append(row)
    return out


@lemma('C28', 'VectorField.smoothed VectorField.normalized', bound='meshes of 2 to 5 steps', budget=30)
def smoothed(v):
    k = v.choice('k', [2, 3, 5])
    f, mesh, t, k, vx, vy = mk_field(v, 'f', k)
    sx, sy = smooth_ref(v, vx, k), smooth_ref(v, vy, k)
    big = v.max(*[v.hypot(sx[i][j], sy[i][j]) for i in range(k) for j in range(k)])
    v.assume(big > 0)
    v.generic(big > 1e-2)
    r = f.smoothed()
    v.eq('window average, normalized', [[e * big for e in row] for row in r.vx.tolist()], sx)
    v.eq('window average, normalized', [[e * big for e in row] for row in r.vy.tolist()], sy)
    v.eq('original', (f.vx.tolist(), f.vy.tolist()), (vx, vy))
    r.vx[0, 0] = 77
    r.vy[0, 0] = 77
    v.eq('detached', (f.vx.tolist(), f.vy.tolist()), (vx, vy))


@lemma('C28', 'VectorField.copy Mesh.__init__', bound='a 2x2 mesh')
def field_copy(v):
    f, mesh, t, k, vx, vy = mk_field(v, 'f', 2)
    if v.flag('looked up before'):
        f.lookup(t[0], t[1])
    r = f.copy()
    v.check_type('copy', r, v.m.vec_field.VectorField)
    v.eq('same vectors', (r.vx.tolist(), r.vy.tolist()), (vx, vy))
    i, j = v.choice('i', [0, 1]), v.choice('j', [0, 1])
    z = v.real('z')
    a, b = (r, f) if v.flag('edit the copy') else (f, r)
    a.vx[i, j] = z
    a.vy[j, i] = z
    v.eq('independent', (b.vx.tolist(), b.vy.tolist()), (vx, vy))
    x, y = node(v, t, k, i, j)
    v.eq('lookup of the other', b.lookup(x, y), (vx[i][j], vy[i][j]))


# =============================================================== C04 (fields)
@lemma('C04', 'VectorField.copy VectorField.__eq__ Mesh.__eq__', bound='a 2x2 mesh')
def field_equality(v):
    F = v.m.vec_field
    f, mesh, t, k, vx, vy = mk_field(v, 'f', 2)
    v.check('copy is equal', f.copy() == f)
    v.check('field is not its mesh', not (f == mesh))
    z = v.real('z')
    i, j = v.choice('i', [0, 1]), v.choice('j', [0, 1])
    r = f.copy()
    which = v.choice('which', ['vx', 'vy'])
    getattr(r, which)[i, j] = z
    same = z == (vx if which == 'vx' else vy)[i][j]
    if r == f:
        v.check('equal fields', same)
    else:
        v.check('different fields', v.not_(same))
    b2 = t[2] + 1
    v.check('another mesh', not (F.VectorField(F.Mesh(v.m.geom.BBox(t[0], t[1], b2, t[3]), 2), f.vx, f.vy) == f))
    v.check('equal mesh', F.VectorField(F.Mesh(v.m.geom.BBox(*t), 2), f.vx, f.vy) == f)
    v.check('other step count', not (F.Mesh(v.m.geom.BBox(*t), 3) == mesh))
