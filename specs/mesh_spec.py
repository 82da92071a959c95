"""C28 and C13 for fields on meshes of any size"""
from common import *
from pyvc.sym import Unsupported


def steps(v):
    k = v.integer('steps', lo=2)
    if not v.symbolic:
        k = 2 + (k - 2) % 6
    return k


def any_mesh(v, n='f'):
    b, t = mk_bbox(v, n + '.box', area=True)
    v.generic(t[2] - t[0] > 1e-2)
    v.generic(t[3] - t[1] > 1e-2)
    k = steps(v)
    return v.m.vec_field.Mesh(b, k), t, k


def any_field(v, n='f'):
    """a vector field with arbitrary vectors on a mesh of any number of steps"""
    mesh, t, k = any_mesh(v, n)
    X, Y = v.grid(n + '.vx', k, k), v.grid(n + '.vy', k, k)
    return v.m.vec_field.VectorField(mesh, X.arr, Y.arr), mesh, t, k, X, Y


def xy_of(t, k, i, j):
    return t[0] + (t[2] - t[0]) * i / (k - 1), t[1] + (t[3] - t[1]) * j / (k - 1)


def same_grid(v, label, a, k, f):
    v.check(label + ': shape', tuple(a.shape) == (k, k))
    for i, j in v.cells(k, k):
        v.eq(label, a[i, j], f(i, j))


def pick(v, k, name):
    i, j = v.integer(name + '.i', lo=0, hi=None if v.symbolic else k - 1), v.integer(name + '.j', lo=0, hi=None if v.symbolic else k - 1)
    v.assume(i < k)
    v.assume(j < k)
    return i, j


@lemma('C28', 'Mesh.__init__ Mesh.zeros VectorField.__init__')
def any_mesh_nodes(v):
    b, t = mk_bbox(v, 'b', area=True)
    k = steps(v)
    m = v.m.vec_field.Mesh(b, k)
    v.num_eq('node counts', v.length(m.coord_x), k)
    v.num_eq('node counts', v.length(m.coord_y), k)
    for i, j in v.cells(k, k):
        x, y = xy_of(t, k, i, j)
        v.eq('x node', m.coord_x[i], x)
        v.eq('y node', m.coord_y[j], y)
    z = m.zeros()
    same_grid(v, 'zero field', z.vx, k, lambda i, j: 0)
    same_grid(v, 'zero field', z.vy, k, lambda i, j: 0)
    v.check('the mesh it is on', z.mesh is m)
    v.eq('box', b.as_tuple(), t)
    w = m.zeros()
    i, j = pick(v, k, 'at')
    z.vx[i, j] = 1
    z.vy[i, j] = 1
    same_grid(v, 'another field', w.vx, k, lambda i, j: 0)
    same_grid(v, 'another field', w.vy, k, lambda i, j: 0)


@lemma('C28', 'VectorField.lookup VectorField.interp_coords VectorField.transform_np_pts Transformer.transform')
def any_lookup_at_nodes(v):
    f, mesh, t, k, X, Y = any_field(v)
    i, j = pick(v, k, 'at')
    x, y = xy_of(t, k, i, j)
    if not v.symbolic:                  # whole numbers may come as integers
        x, y = (int(c) if c == int(c) and v.flag('int %d' % q) else c for q, c in enumerate((x, y)))
    v.trust('scipy RegularGridInterpolator(method=linear, fill_value=None) is the multilinear interpolant')
    v.eq('lookup at a node', f.lookup(x, y), (X.at(i, j), Y.at(i, j)))
    v.eq('transform at a node', f.transform(x, y), (x + X.at(i, j), y + Y.at(i, j)))
    same_grid(v, 'field unchanged', f.vx, k, X.at)
    same_grid(v, 'field unchanged', f.vy, k, Y.at)


@lemma('C28', 'VectorField.lookup VectorField.interp_coords VectorField.transform_np_pts Transformer.transform')
def any_lookup_between(v):
    f, mesh, t, k, X, Y = any_field(v)
    i, j = pick(v, k, 'at')
    v.assume(i < k - 1)
    v.assume(j < k - 1)
    s, u = v.real('s', lo=0, hi=1), v.real('u', lo=0, hi=1)
    v.assume(s < 1)
    v.assume(u < 1)
    x0, y0 = xy_of(t, k, i, j)
    x, y = x0 + s * (t[2] - t[0]) / (k - 1), y0 + u * (t[3] - t[1]) / (k - 1)

    def mix(w):
        return (1 - s) * (1 - u) * w(i, j) + s * (1 - u) * w(i + 1, j) + (1 - s) * u * w(i, j + 1) + s * u * w(i + 1, j + 1)
    v.trust('scipy RegularGridInterpolator(method=linear, fill_value=None) is the multilinear interpolant')
    v.eq('bilinear', f.lookup(x, y), (mix(X.at), mix(Y.at)))
    v.eq('transform adds it', f.transform(x, y), (x + mix(X.at), y + mix(Y.at)))


@lemma('C28', 'VectorField.transform_np_pts Mesh.zeros VectorField.__init__ Transformer.transform')
def any_zero_field(v):
    mesh, t, k = any_mesh(v)
    x, y = v.reals('x y')
    v.eq('zero field is the identity', mesh.zeros().transform(x, y), (x, y))
    v.eq('zero field looks up zero', mesh.zeros().lookup(x, y), (0, 0))


@lemma('C28', 'VectorField.scaled')
def any_scaled(v):
    f, mesh, t, k, X, Y = any_field(v)
    sx = v.choice('s', [None, 1, 0, -1, 2])
    if sx is None:
        sx = v.real('sx')
    if v.flag('looked up before'):
        f.lookup(t[0], t[1])
    if v.flag('both'):
        sy = v.choice('t', [None, 1, 0])
        if sy is None:
            sy = v.real('sy')
        r = f.scaled(sx, sy)
    else:
        sy = sx
        r = f.scaled(sx)
    v.check_type('scaled', r, v.m.vec_field.VectorField)
    v.check('same mesh', r.mesh is mesh or r.mesh == mesh)
    same_grid(v, 'scaled', r.vx, k, lambda i, j: X.at(i, j) * sx)
    same_grid(v, 'scaled', r.vy, k, lambda i, j: Y.at(i, j) * sy)
    same_grid(v, 'original', f.vx, k, X.at)
    same_grid(v, 'original', f.vy, k, Y.at)
    i, j = pick(v, k, 'at')
    x, y = xy_of(t, k, i, j)
    v.eq('lookup of the scaled field', r.lookup(x, y), (X.at(i, j) * sx, Y.at(i, j) * sy))
    v.eq('lookup of the original', f.lookup(x, y), (X.at(i, j), Y.at(i, j)))


@lemma('C28', 'VectorField.scaled VectorField.copy VectorField.normalized')
def any_detached(v):
    f, mesh, t, k, X, Y = any_field(v)
    how = v.choice('how', ['scaled', 'scaled by 1', 'copy', 'normalized'])
    if how == 'normalized':
        big = v.largest(k, k, lambda i, j: v.hypot(X.at(i, j), Y.at(i, j)))
        v.assume(big > 0)
        v.generic(big > 1e-2)
    r = f.scaled(v.real('s')) if how == 'scaled' else f.scaled(1) if how == 'scaled by 1' else getattr(f, how)()
    i, j = pick(v, k, 'at')
    z = v.real('z')
    x, y = xy_of(t, k, i, j)
    if v.flag('change the result') or how == 'normalized':
        r.vx[i, j] = z
        r.vy[i, j] = z
        same_grid(v, 'original', f.vx, k, X.at)
        same_grid(v, 'original', f.vy, k, Y.at)
        v.eq('lookup of the original', f.lookup(x, y), (X.at(i, j), Y.at(i, j)))
    else:
        w = [(r.vx[p, q], r.vy[p, q]) for p, q in v.cells(k, k)]
        f.vx[i, j] = z
        f.vy[i, j] = z
        for (p, q), (a, b) in zip(v.cells(k, k), w):
            v.eq('result', (r.vx[p, q], r.vy[p, q]), (a, b))


@lemma('C28', 'VectorField.copy VectorField.mesh')
def any_copy(v):
    f, mesh, t, k, X, Y = any_field(v)
    if v.flag('looked up before'):
        f.lookup(t[0], t[1])
    r = f.copy()
    v.check_type('copy', r, v.m.vec_field.VectorField)
    v.check('another field', r is not f)
    v.check('same mesh', r.mesh is mesh or r.mesh == mesh)
    same_grid(v, 'same vectors', r.vx, k, X.at)
    same_grid(v, 'same vectors', r.vy, k, Y.at)


@lemma('C28', 'VectorField.normalized')
def any_normalized(v):
    f, mesh, t, k, X, Y = any_field(v)
    big = v.largest(k, k, lambda i, j: v.hypot(X.at(i, j), Y.at(i, j)))
    v.assume(big > 0)
    v.generic(big > 1e-2)
    r = f.normalized()
    v.check_type('normalized', r, v.m.vec_field.VectorField)
    v.check('same mesh', r.mesh is mesh or r.mesh == mesh)
    same_grid(v, 'divided by the largest magnitude', r.vx, k, lambda i, j: X.at(i, j) / big)
    same_grid(v, 'divided by the largest magnitude', r.vy, k, lambda i, j: Y.at(i, j) / big)
    same_grid(v, 'original', f.vx, k, X.at)
    same_grid(v, 'original', f.vy, k, Y.at)


@lemma('C28', 'VectorField.normalized')
def any_largest_is_one(v):
    f, mesh, t, k, X, Y = any_field(v)
    big = v.largest(k, k, lambda i, j: v.hypot(X.at(i, j), Y.at(i, j)))
    v.assume(big > 0)
    v.generic(big > 1e-2)
    r = f.normalized()
    v.eq('largest magnitude', v.largest(k, k, lambda i, j: v.hypot(r.vx[i, j], r.vy[i, j])), 1)


def window(v, w, k, i, j):
    """the documented average: the cells from 2 before to 1 after in each direction, the centre counted 19 times more"""
    tot, n = 0, 0
    for x in [i - 2, i - 1, i, i + 1]:
        for y in [j - 2, j - 1, j, j + 1]:
            if x >= 0 and x < k and y >= 0 and y < k:
                tot, n = tot + w(x, y), n + 1
    return (tot + 19 * w(i, j)) / (n + 19)


@lemma('C28', 'VectorField.smoothed VectorField.normalized', budget=60)
def any_smoothed(v):
    F = v.m.vec_field.VectorField
    f, mesh, t, k, X, Y = any_field(v)
    if v.flag('looked up before'):
        f.lookup(t[0], t[1])
    if v.symbolic:
        # normalized by its contract, proved for every field by any_normalized
        asked, given = [], []

        def contract(self):
            asked.append(self)
            given.append(F(self.mesh, v.grid('n.vx', k, k).arr, v.grid('n.vy', k, k).arr))
            return given[-1]
        was = F.normalized
        F.normalized = contract
        try:
            r = f.smoothed()
        finally:
            F.normalized = was
        if len(asked) != 1 or r is not given[0]:
            raise Unsupported('smoothed does not return what normalized gives')
        s, big = asked[0], 1
        v.check_type('smoothed', s, F)
        v.check('shares no vectors', s.vx is not f.vx and s.vy is not f.vy and s.vx is not s.vy)
    else:
        s = r = f.smoothed()
        big = v.largest(k, k, lambda i, j: v.hypot(window(v, X.at, k, i, j), window(v, Y.at, k, i, j)))
        v.assume(big > 0)
        v.generic(big > 1e-2)
    v.check_type('smoothed', r, F)
    v.check('same mesh', s.mesh is mesh or s.mesh == mesh)
    same_grid(v, 'window average', s.vx, k, lambda i, j: window(v, X.at, k, i, j) / big)
    same_grid(v, 'window average', s.vy, k, lambda i, j: window(v, Y.at, k, i, j) / big)
    same_grid(v, 'original', f.vx, k, X.at)
    same_grid(v, 'original', f.vy, k, Y.at)


# =============================================================== C04 (fields)
@lemma('C04', 'VectorField.copy VectorField.__eq__ Mesh.__eq__')
def any_field_equality(v):
    F = v.m.vec_field
    f, mesh, t, k, X, Y = any_field(v)
    v.check('copy is equal', f.copy() == f)
    v.check('field is not its mesh', not (f == mesh))
    r = f.copy()
    i, j = pick(v, k, 'at')
    z = v.real('z')
    which = v.choice('which', ['vx', 'vy'])
    getattr(r, which)[i, j] = z
    same = z == (X if which == 'vx' else Y).at(i, j)
    if r == f:
        v.check('equal fields', same)
    else:
        v.check('different fields', v.not_(same))


@lemma('C04', 'VectorField.__eq__ Mesh.__eq__')
def any_mesh_equality(v):
    F, BBox = v.m.vec_field, v.m.geom.BBox
    f, mesh, t, k, X, Y = any_field(v)
    how = v.choice('other', ['same', 'box', 'steps'])
    b = BBox(t[0], t[1], t[2] + (1 if how == 'box' else 0), t[3])
    other = F.Mesh(b, k + 1 if how == 'steps' else k)
    if how == 'same':
        v.check('equal mesh', other == mesh)
        v.check('equal field', F.VectorField(other, f.vx, f.vy) == f)
    else:
        v.check('another mesh', not (other == mesh))
        v.check('field on another mesh', not (F.VectorField(other, f.vx, f.vy) == f))
