"""
Two-dimensional arrays with a symbolic number of rows and columns (vector fields on meshes of any size).

A Mat is a function of two indices plus the writes made since.  A write made by a loop nest that runs over all rows and
all columns, at exactly the cell of the current iteration, is kept as the value of that (arbitrary) cell; such an array
is then only known at that cell, and the nest must not have read any other cell of it.
"""
import numpy as np
from . import poly as P
from . import sym
from . import seq
from .sym import SymReal, Unsupported, wrap, to_poly, F
from .seq import num, key, path, sure

ROW, COL = wrap(P.var('any row', True, True)), wrap(P.var('any column', True, True))


class Mat:
    def __init__(self, rows, cols, base):
        self.shape = (rows, cols)
        self.base = base
        self.log = []
        self.reads = set()
        self.version = 0

    ndim = 2

    @property
    def size(self):
        return self.shape[0] * self.shape[1]

    def index(self, ij):
        if not (isinstance(ij, tuple) and len(ij) == 2):
            raise Unsupported('index %r of a matrix of symbolic size' % (ij,))
        out = []
        for x, n in zip(ij, self.shape):
            if isinstance(x, np.integer):
                x = int(x)
            if isinstance(x, bool) or not isinstance(x, (int, SymReal)):
                raise Unsupported('index %r of a matrix of symbolic size' % (x,))
            x = num(x)
            if key(x) in (ROW.p, COL.p):        # any index in range
                out.append(x)
                continue
            if not P.poly_is_int(to_poly(x)):
                raise IndexError('only integers are valid indices')
            if x < 0:
                x = num(x + n)
                if x < 0:
                    raise IndexError('index out of bounds')
            if not (x < n):
                raise IndexError('index out of bounds')
            out.append(x)
        return tuple(out)

    @staticmethod
    def look(log, base, i, j):
        for kind, a, b, x in reversed(log):
            same = key(a) == key(i) and key(b) == key(j)
            if kind == 'cell':
                if not same and not (sure(sym.eq0(to_poly(a) - to_poly(i))) and sure(sym.eq0(to_poly(b) - to_poly(j)))):
                    raise Unsupported('a cell away from the one the loops are at')
                return x
            if same or (num(a) == num(i) and num(b) == num(j)):
                return x
        return base(i, j)

    def at(self, i, j):
        """entry at indices known to be in range"""
        if path().active:
            self.reads.add((key(i), key(j)))
        return self.look(self.log, self.base, i, j)

    def frozen(self):
        if path().active:
            self.reads.add('all')
        log, base = list(self.log), self.base
        return lambda i, j: self.look(log, base, i, j)

    def __getitem__(self, ij):
        return self.at(*self.index(ij))

    def __setitem__(self, ij, x):
        i, j = self.index(ij)
        if to_poly(x) is None:
            raise Unsupported('%r in a matrix' % (x,))
        pt = path()
        if not pt.active:
            self.log.append(('write', i, j, x))
            self.version += 1
            instances(new_cell=(self.shape[0], self.shape[1], i, j))
            return
        n, m = self.shape
        ks = [key(a) for a in pt.active]
        fi = pt.foci.get((key(n), 0, ()))
        fj = pt.foci.get((key(m), 0, (ks[0],)))
        if fi is None or fj is None or not (ks == [key(i), key(j)] == [key(fi), key(fj)]):
            raise Unsupported('a loop writes to a cell that is not its own')
        if self.reads - {(ks[0], ks[1])}:
            raise Unsupported('a loop reads cells that it changes')
        self.log.append(('cell', i, j, x))

    def map(self, f, *others):
        fs = [self.frozen()]
        for o in others:
            if isinstance(o, Mat):
                for a, b in zip(o.shape, self.shape):
                    if not (a == b):
                        raise ValueError('operands could not be broadcast together')
                fs.append(o.frozen())
            elif sym.is_num(o):
                fs.append(lambda i, j, o=o: o)
            else:
                raise Unsupported('matrix of symbolic size with %r' % (type(o),))
        return Mat(self.shape[0], self.shape[1], lambda i, j: f(*[g(i, j) for g in fs]))

    def copy(self):
        return self.map(lambda x: x)

    def __mul__(self, o):
        return self.map(lambda x, y: x * y, o)

    def __rmul__(self, o):
        return self.map(lambda x, y: y * x, o)

    def __add__(self, o):
        return self.map(lambda x, y: x + y, o)

    def __radd__(self, o):
        return self.map(lambda x, y: y + x, o)

    def __sub__(self, o):
        return self.map(lambda x, y: x - y, o)

    def __rsub__(self, o):
        return self.map(lambda x, y: y - x, o)

    def __truediv__(self, o):
        return self.map(lambda x, y: x / y, o)

    def __neg__(self):
        return self.map(lambda x: -x)

    def __pow__(self, o):
        if o != 2:
            raise Unsupported('power of a matrix of symbolic size')
        return self.map(lambda x: x * x)

    def _no(self, *a, **k):
        raise Unsupported('operation on a matrix of symbolic size')

    __iter__ = __len__ = __bool__ = __float__ = __eq__ = __ne__ = __imul__ = __iadd__ = __isub__ = __itruediv__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __matmul__ = __array__ = tolist = ravel = flatten = _no
    __hash__ = object.__hash__

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        raise Unsupported('matrix.%s' % a)

    def max(self):
        return largest(self.shape[0], self.shape[1], self.frozen())

    def min(self):
        return -largest(self.shape[0], self.shape[1], (-self).frozen())


def has_mat(*xs):
    return any(isinstance(x, Mat) for x in xs)


# ------------------------------------------------------------------------------------------------ facts about all cells
def instances(new_fact=None, new_cell=None):
    pt = path()
    facts = pt.__dict__.setdefault('grid_facts', [])
    cells = pt.__dict__.setdefault('grid_cells', [])
    if new_fact is not None:
        facts.append(new_fact)
        todo = [(new_fact, c) for c in cells]
    else:
        if any(all(key(a) == key(b) for a, b in zip(c, new_cell)) for c in cells):
            return
        cells.append(new_cell)
        todo = [(f, new_cell) for f in facts]
    for (n, m, f), (cn, cm, i, j) in todo:
        if key(n) == key(cn) and key(m) == key(cm):
            seq.assume(f(i, j))


def cell(n, m):
    """an arbitrary row and column"""
    i = seq.focus(n)
    with seq.Nested(i):
        j = seq.focus(m)
    instances(new_cell=(n, m, i, j))
    return i, j


def witness(n, m):
    i, j = seq.fresh_index('row', 0, n), seq.fresh_index('column', 0, m)
    return i, j


def largest(n, m, f):
    """the largest of f(i, j): not below any of them and equal to one"""
    if not (n > 0) or not (m > 0):
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    pt = path()
    known = pt.__dict__.setdefault('grid_largest', {})
    before = pt.forks
    t = to_poly(f(ROW, COL))
    if pt.forks != before:
        raise Unsupported('largest entry with cases')
    k = (key(n), key(m), t)
    if k not in known:
        x = wrap(P.var(pt.fresh('largest'), False))
        known[k] = x
        i, j = witness(n, m)
        seq.assume(sym.eq0(to_poly(x) - to_poly(f(i, j))))
        instances(new_fact=(n, m, lambda i, j: f(i, j) <= x))
        instances(new_cell=(n, m, i, j))
    return known[k]


def equal(a, b):
    """np.array_equal"""
    if isinstance(a, seq.Rows) and isinstance(b, seq.Rows):
        if a is b:
            return True
        la, lb = getattr(a, 'lin', None), getattr(b, 'lin', None)
        if la is None or lb is None:
            raise Unsupported('array_equal of arrays of symbolic length')
        if not (la[2] == lb[2]):
            return False
        return bool(la[0] == lb[0] and la[1] == lb[1])
    if not (isinstance(a, Mat) and isinstance(b, Mat)):
        raise Unsupported('array_equal of a matrix of symbolic size')
    if not (a.shape[0] == b.shape[0] and a.shape[1] == b.shape[1]):
        return False
    n, m = a.shape
    f, g = a.frozen(), b.frozen()
    if a.base is b.base and not a.log and not b.log:
        return True
    if path().choose(2) == 0:
        instances(new_fact=(n, m, lambda i, j: f(i, j) == g(i, j)))
        return True
    i, j = witness(n, m)
    seq.assume(sym.f_not(sym.eq0(to_poly(f(i, j)) - to_poly(g(i, j)))))
    instances(new_cell=(n, m, i, j))
    return False


def linspace(lo, hi, n):
    if not (n > 1):
        raise Unsupported('linspace with fewer than two values')
    r = seq.Rows(seq.SymSeq([seq.Blk(n, lambda i: [lo + (hi - lo) * i / (n - 1)])]), None)
    r.lin = (lo, hi, n)
    return r


def meshgrid(x, y):
    if not (isinstance(x, seq.Rows) and isinstance(y, seq.Rows) and x.width is None and y.width is None):
        raise Unsupported('meshgrid')
    n, m = y.length(), x.length()
    return [Mat(n, m, lambda i, j: x.seq.at(j)), Mat(n, m, lambda i, j: y.seq.at(i))]


# ------------------------------------------------------------------------------------------------ interpolation
def floor(u):
    """the integer below u, or None when it has no closed form"""
    p = to_poly(u)
    q, r = {}, {}
    for m, c in p.d.items():
        whole = c == int(c) and all(e > 0 and P.ATOMS[a].is_int for a, e in m)
        (q if whole else r)[m] = c
    q, r = wrap(P.Poly(q)), wrap(P.Poly(r))
    if any(e < 0 or P.ATOMS[a].kind != 'var' for m in to_poly(r).d for a, e in m):
        return None
    for c in (0, -1, 1):
        if sure(sym.f_and(r >= c, r < c + 1)):
            return num(q + c)
    return None


def position(rows, x):
    """(index of the cell, offset in it) on an evenly spaced axis; outside of it the first or last cell"""
    lo, hi, n = rows.lin
    u = (x - lo) * (n - 1) / (hi - lo)
    c = floor(u)
    known = path().__dict__.setdefault('grid_position', {})
    k = tuple(key(e) for e in (lo, hi, n, x))
    if k in known:
        c = known[k]
    elif c is None:
        c = known[k] = wrap(P.var(path().fresh('cell'), True, True))
        seq.assume(c >= 0)
        seq.assume(c <= n - 2)
        seq.assume(sym.f_or(c <= 0, u >= c))
        seq.assume(sym.f_or(c >= n - 2, u < c + 1))
    elif c > n - 2:
        if sure(sym.eq0(to_poly(u) - to_poly(n - 1))):
            return num(c - 1), 1        # the last node, written as the caller wrote it
        c = num(n - 2)
    elif c < 0:
        c = 0
    return c, u - c


def interpolate(grid, values, x, y):
    i, s = position(grid[0], x)
    j, t = position(grid[1], y)

    def w(a, b):
        return values.at(num(i + a), num(j + b))
    tot = 0
    for a, p in ((0, 1 - s), (1, s)):
        for b, q in ((0, 1 - t), (1, t)):
            if not (sym.is_num(p) and not isinstance(p, SymReal) and p == 0 or not isinstance(q, SymReal) and q == 0):
                tot = tot + p * q * w(a, b)
    return tot


# ------------------------------------------------------------------------------------------------ for specifications
class Grid:
    """a matrix of arbitrary numbers: .arr for the code, .at(i, j) its entries as they were made"""
    def __init__(self, arr, at):
        self.arr, self.at = arr, at


def make(name, n, m):
    def f(i, j):
        return wrap(P.mk_app(name, [to_poly(i), to_poly(j)]))
    return Grid(Mat(n, m, f), f)
