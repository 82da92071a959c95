"""Exact replacements for the external functions the code calls (their contracts are part of the trusted base)."""
import builtins
import itertools
import math as _math
import types
from fractions import Fraction
import numpy as _np
from . import poly as P
from . import sym
from .sym import SymReal, F, wrap, to_poly, sym_sqrt, cmp0, decide, Unsupported, f_and, has_sym

# ------------------------------------------------------------------------------- math
math = types.ModuleType('math')
for _n in dir(_math):
    if not _n.startswith('__'):
        setattr(math, _n, getattr(_math, _n))

math.pi = wrap(P.K.scale(180))
math.tau = wrap(P.K.scale(360))


def _lift1(name, fn):
    real = getattr(_math, name)

    def f(x):
        if isinstance(x, SymReal):
            return fn(x)
        if isinstance(x, F):
            return fn(wrap(P.const(1 if x else 0)))
        return real(x)
    f.__name__ = name
    setattr(math, name, f)
    return f


m_sqrt0 = _lift1('sqrt', sym_sqrt)


def m_sqrt(x):
    # whole numbers: exact
    if isinstance(x, builtins.int) and x > 0:
        return wrap(P.sqrt(P.const(x)))
    return m_sqrt0(x)


math.sqrt = m_sqrt
m_cos = _lift1('cos', lambda x: wrap(P.cos_sin(x.p)[0]))
m_sin = _lift1('sin', lambda x: wrap(P.cos_sin(x.p)[1]))


def _tan(x):
    c, s = P.cos_sin(x.p)
    return wrap(s) / wrap(c)


_lift1('tan', _tan)
m_radians = _lift1('radians', lambda x: wrap(x.p * P.K))


def m_radians_exact(x):
    # whole degrees: exact multiples of pi/180 (no rounding)
    if sym.ctx.cur is not None and isinstance(x, (builtins.int, builtins.float)) and x == builtins.int(x):
        return wrap(P.K.scale(builtins.int(x)))
    return m_radians(x)


math.radians = m_radians_exact
_lift1('degrees', lambda x: wrap(x.p * P.inv(P.K)))
_lift1('fabs', lambda x: abs(x))
_lift1('floor', lambda x: x.__floor__())
_lift1('ceil', lambda x: x.__ceil__())
_lift1('trunc', lambda x: sym.sym_int(x))
_lift1('isnan', lambda x: False)
_lift1('isinf', lambda x: False)
_lift1('isfinite', lambda x: True)


def _unsup(name):
    real = getattr(_math, name)

    def f(*a):
        if has_sym(*a):
            raise Unsupported('math.%s' % name)
        return real(*a)
    setattr(math, name, f)


for _n in ('exp', 'log', 'acos', 'asin', 'atan', 'log2', 'log10', 'sinh', 'cosh', 'tanh', 'fmod', 'frexp'):
    _unsup(_n)


def m_hypot(*xs):
    if has_sym(*xs):
        s = P.ZERO
        for x in xs:
            p = to_poly(x)
            if p is None:
                raise TypeError('must be real number, not %s' % type(x).__name__)
            s = s + p * p
        P.note_nonneg(s)
        return wrap(P.sqrt(s))
    return _math.hypot(*xs)


math.hypot = m_hypot


def m_dist(p, q):
    return m_hypot(*[a - b for a, b in zip(p, q)])


math.dist = m_dist


def m_atan2(y, x):
    if has_sym(x, y):
        py, px = to_poly(y), to_poly(x)
        if decide(f_and(sym.eq0(py), sym.eq0(px))):
            return 0.0
        return wrap(P.mono(P.atom('atan2', (py, px))))
    return _math.atan2(y, x)


math.atan2 = m_atan2


def m_copysign(a, b):
    if has_sym(a, b):
        return abs(a) if b >= 0 else -abs(a)
    return _math.copysign(a, b)


math.copysign = m_copysign


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if has_sym(a, b):
        return abs(a - b) <= max_(rel_tol * max_(abs(a), abs(b)), abs_tol)
    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


math.isclose = m_isclose


def m_fsum(xs):
    xs = list(xs)
    if has_sym(*xs):
        return builtins.sum(xs)
    return _math.fsum(xs)


math.fsum = m_fsum


# ------------------------------------------------------------------------------- builtins
def _mm(kind):
    real = getattr(builtins, kind)

    def f(*args, key=None, **kw):
        if len(args) == 1 and seq.is_sym(args[0]):
            return seq.extreme(args[0], kind, key)
        xs = list(args[0]) if len(args) == 1 else list(args)
        if key is not None or not xs:
            if key is None:
                return real(xs, **kw)
            return real(xs, key=key, **kw)
        if any(isinstance(x, SymReal) for x in xs) and all(sym.is_num(x) for x in xs):
            inf = _math.inf if kind == 'min' else -_math.inf
            ys = [x for x in xs if not (sym.is_inf(x) and x == inf)]
            if any(sym.is_inf(x) for x in ys):
                return -inf
            ps = [to_poly(x) for x in ys]
            return wrap(P.mk_min(ps) if kind == 'min' else P.mk_max(ps))
        return real(xs)
    f.__name__ = kind
    return f


min_ = _mm('min')
max_ = _mm('max')


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, SymReal)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.float) or c is SymReal


class float_(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, str) and x.strip() in sym.TOKENS:
            return sym.TOKENS[x.strip()]
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or isinstance(x, SymReal) and P.poly_is_int(x.p)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.int)


class int_(builtins.int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymReal):
            return sym.sym_int(x)
        return builtins.int(x, *a)


def sum_(xs, start=0):
    if seq.is_sym(xs):
        return seq.sym_sum(xs, start)
    for x in xs:
        start = start + x
    return start


def _range(*a):
    if has_sym(*a):
        return seq.sym_range(*a)
    return builtins.range(*a)


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.range)


class range_(metaclass=_RangeMeta):
    def __new__(cls, *a):
        return _range(*a)


def len_(x):
    if isinstance(x, (seq.SymSeq, seq.Rows, seq.Sorted, seq.SymDict)) or isinstance(x, FakePath) and seq.is_sym(x.pts):
        return x.length()
    return builtins.len(x)


def _comp(it, f, kind, site):
    if type(it) in _NATIVE:
        return f(it)
    return seq.comp(it, f, kind, site)


_NATIVE = {builtins.list, builtins.tuple, builtins.dict, builtins.str, builtins.range, builtins.zip, builtins.enumerate}


def _for(it, site):
    if type(it) in _NATIVE:
        return seq.Plain(it)
    return seq.for_(it, site, loops.INFO[site])


def _zipstar(x):
    if seq.is_sym(x):
        return iter(seq.columns(x))
    return builtins.zip(*x)


def _flat(xs):
    if builtins.all(type(x) is builtins.list for x in xs):
        return [e for x in xs for e in x]
    return seq.flat(xs)


def sorted_(xs, *, key=None, reverse=False):
    if seq.is_sym(xs):
        return seq.Sorted(seq.as_seq(xs), key, reverse)
    return builtins.sorted(xs, key=key, reverse=reverse)


def any_(xs):
    if seq.is_sym(xs):
        return not seq.sym_all(xs, neg=True)
    return builtins.any(xs)


def all_(xs):
    if seq.is_sym(xs):
        return seq.sym_all(xs)
    return builtins.all(xs)


def _seqfn(name, fn):
    real = getattr(builtins, name)

    def f(*a, **k):
        if builtins.any(seq.is_sym(x) for x in a):
            return fn(*a, **k)
        return real(*a, **k)
    f.__name__ = name
    return f


from . import seq
from . import grid
from . import loops
BUILTINS = {'len': len_, '__pyvc_comp__': _comp, 'min': min_, 'max': max_, 'float': float_, 'int': int_, 'sum': sum_,
            'range': range_, '__pyvc_for__': _for, '__pyvc_zipstar__': _zipstar, '__pyvc_flat__': _flat,
            '__pyvc_list__': lambda x: seq.sym_list(x) if type(x) not in _NATIVE else builtins.list(x),
            '__pyvc_tuple__': lambda x: seq.sym_tuple(x) if type(x) not in _NATIVE else builtins.tuple(x),
            '__pyvc_dict__': seq.sym_dict, '__pyvc_join__': seq.join, '__pyvc_fmt__': seq.fmt,
            '__pyvc_extend__': seq.extend, '__pyvc_iadd__': seq.iadd,
            'iter': lambda *a: seq.iter_(*a) if len(a) == 1 else builtins.iter(*a), 'next': seq.next_,
            'sorted': sorted_, 'any': any_, 'all': all_, 'zip': _seqfn('zip', seq.sym_zip),
            'enumerate': _seqfn('enumerate', seq.sym_enumerate), 'reversed': _seqfn('reversed', seq.sym_reversed)}

# ------------------------------------------------------------------------------- numpy
np = types.ModuleType('numpy')
for _n in dir(_np):
    if not _n.startswith('__'):
        try:
            setattr(np, _n, getattr(_np, _n))
        except Exception:
            pass
np.pi = math.pi


def _contains_sym(x):
    if isinstance(x, SymReal):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return builtins.any(_contains_sym(e) for e in x)
    return False


def np_array(x, dtype=None, **kw):
    if isinstance(x, grid.Mat):
        return x.copy()
    if seq.is_sym(x):
        return seq.np_rows(x)
    if isinstance(x, (map, zip, types.GeneratorType)):
        return _np.array(x, dtype=dtype)
    if _contains_sym(x):
        return _np.array(x, dtype=object)
    return _np.array(x, dtype=dtype, **kw)


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, grid.Mat):
        return x
    if seq.is_sym(x):
        return seq.np_rows(x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return x
    if _contains_sym(x):
        return _np.array(x, dtype=object)
    return _np.asarray(x, dtype=dtype, **kw)


def np_dot(a, b, *r):
    if seq.is_sym(a) or seq.is_sym(b):
        return seq.np_dot(a, b)
    return _np.dot(a, b, *r)


np.dot = np.matmul = np_dot
np.array = np_array
np.asarray = np_asarray


def np_inv(a):
    a = _np.asarray(a)
    if a.dtype != object:
        return _np.linalg.inv(a)
    n = a.shape[0]
    if a.shape != (3, 3) and a.shape != (2, 2):
        raise Unsupported('linalg.inv of shape %s' % (a.shape,))
    if n == 2:
        (p, q), (r, s) = a
        det = p * s - q * r
        adj = [[s, -q], [-r, p]]
    else:
        (a1, a2, a3), (b1, b2, b3), (c1, c2, c3) = a
        adj = [[b2 * c3 - b3 * c2, a3 * c2 - a2 * c3, a2 * b3 - a3 * b2],
               [b3 * c1 - b1 * c3, a1 * c3 - a3 * c1, a3 * b1 - a1 * b3],
               [b1 * c2 - b2 * c1, a2 * c1 - a1 * c2, a1 * b2 - a2 * b1]]
        det = a1 * adj[0][0] + a2 * adj[1][0] + a3 * adj[2][0]
    if det == 0:
        raise _np.linalg.LinAlgError('Singular matrix')
    return _np.array([[e / det for e in row] for row in adj], dtype=object)


def np_det(a):
    a = _np.asarray(a)
    if a.dtype != object:
        return _np.linalg.det(a)
    if a.shape == (2, 2):
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    (a1, a2, a3), (b1, b2, b3), (c1, c2, c3) = a
    return a1 * (b2 * c3 - b3 * c2) - a2 * (b1 * c3 - b3 * c1) + a3 * (b1 * c2 - b2 * c1)


np.linalg = types.ModuleType('numpy.linalg')
for _n in dir(_np.linalg):
    if not _n.startswith('__'):
        setattr(np.linalg, _n, getattr(_np.linalg, _n))
np.linalg.inv = np_inv
np.linalg.det = np_det


def np_solve(a, b):
    a = _np.asarray(a)
    b = _np.asarray(b)
    if a.dtype != object and b.dtype != object:
        return _np.linalg.solve(a, b)
    return _np.dot(np_inv(np_array(a.tolist(), dtype=object) if a.dtype != object else a), b)


np.linalg.solve = np_solve


def _ufunc1(name, fn):
    real = getattr(_np, name)

    def f(x, *a, **k):
        if isinstance(x, SymReal):
            return fn(x)
        if isinstance(x, grid.Mat):
            return x.map(fn)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            out = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(x.shape):
                out[i] = fn(x[i])
            return out
        if isinstance(x, (list, tuple)) and _contains_sym(x):
            return f(_np.array(x, dtype=object))
        return real(x, *a, **k)
    f.__name__ = name
    setattr(np, name, f)


_ufunc1('sqrt', lambda x: math.sqrt(x))
_ufunc1('cos', lambda x: math.cos(x))
_ufunc1('sin', lambda x: math.sin(x))
_ufunc1('radians', lambda x: math.radians(x))
_ufunc1('deg2rad', lambda x: math.radians(x))
_ufunc1('degrees', lambda x: math.degrees(x))
_ufunc1('abs', lambda x: builtins.abs(x))
_ufunc1('absolute', lambda x: builtins.abs(x))
_ufunc1('square', lambda x: x * x)
_ufunc1('negative', lambda x: -x)


def _ufunc2(name, fn):
    real = getattr(_np, name)

    def f(x, y, *a, **k):
        if grid.has_mat(x, y):
            if a or k:
                raise Unsupported('%s with options' % name)
            return x.map(fn, y) if isinstance(x, grid.Mat) else y.map(lambda p, q: fn(q, p), x)
        return real(x, y, *a, **k)
    f.__name__ = name
    setattr(np, name, f)


_ufunc2('add', lambda x, y: x + y)
_ufunc2('subtract', lambda x, y: x - y)
_ufunc2('multiply', lambda x, y: x * y)
_ufunc2('divide', lambda x, y: x / y)
_ufunc2('true_divide', lambda x, y: x / y)


def np_hypot(x, y):
    if grid.has_mat(x, y):
        return x.map(m_hypot, y) if isinstance(x, grid.Mat) else y.map(m_hypot, x)
    if not (_contains_sym(x) or _contains_sym(y)):
        return _np.hypot(x, y)
    if isinstance(x, SymReal) or isinstance(y, SymReal):
        if not isinstance(x, _np.ndarray) and not isinstance(y, _np.ndarray):
            return m_hypot(x, y)
    x, y = _np.broadcast_arrays(_np.array(x, dtype=object), _np.array(y, dtype=object))
    out = _np.empty(x.shape, dtype=object)
    for i in _np.ndindex(x.shape):
        out[i] = m_hypot(x[i], y[i])
    return out


np.hypot = np_hypot


def _reduce(name, kind):
    real = getattr(_np, name)

    def f(x, *a, **k):
        if isinstance(x, grid.Mat):
            if a or k:
                raise Unsupported('%s with options' % name)
            return x.max() if name.endswith('max') else x.min()
        if _contains_sym(x) and not a and not k:
            return kind(list(_np.array(x, dtype=object).ravel()))
        return real(x, *a, **k)
    setattr(np, name, f)


for _n in ('amax', 'max'):
    _reduce(_n, lambda xs: max_(xs))
for _n in ('amin', 'min'):
    _reduce(_n, lambda xs: min_(xs))


def np_zeros(shape, *a, **k):
    """Symbolic fields may be written into later: an object array of exact zeros"""
    if isinstance(shape, (tuple, list)) and has_sym(*shape):
        if len(shape) != 2:
            raise Unsupported('zeros of symbolic size')
        return grid.Mat(shape[0], shape[1], lambda i, j: 0)
    if isinstance(shape, SymReal):
        raise Unsupported('zeros of symbolic size')
    out = _np.empty(shape, dtype=object)
    out[...] = 0
    return out


np.zeros = np_zeros


def np_zeros_like(a, *r, **k):
    if isinstance(a, grid.Mat):
        return grid.Mat(a.shape[0], a.shape[1], lambda i, j: 0)
    return np_zeros(_np.shape(a)) if _contains_sym(a) else _np.zeros_like(a, *r, **k)


np.zeros_like = np_zeros_like


def np_meshgrid(*xs, **k):
    if builtins.any(isinstance(x, seq.Rows) for x in xs):
        if k or len(xs) != 2:
            raise Unsupported('meshgrid with options')
        return grid.meshgrid(*xs)
    return _np.meshgrid(*xs, **k)


np.meshgrid = np_meshgrid


def np_linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    if not has_sym(a, b, num):
        return _np.linspace(a, b, num, endpoint=endpoint, dtype=dtype, **k)
    if isinstance(num, SymReal):
        if not endpoint or k:
            raise Unsupported('linspace with symbolic length')
        return grid.linspace(a, b, num)
    div = num - 1 if endpoint else num
    out = _np.empty(num, dtype=object)
    for i in builtins.range(num):
        out[i] = a + (b - a) * wrap(P.const(Fraction(i, div))) if div else a
    if endpoint and num > 1:
        out[num - 1] = b
    return out


np.linspace = np_linspace


def np_array_equal(a, b, **k):
    if isinstance(a, (seq.Rows, grid.Mat)) or isinstance(b, (seq.Rows, grid.Mat)):
        return grid.equal(a, b)
    if _contains_sym(a) or _contains_sym(b):
        a, b = _np.array(a, dtype=object), _np.array(b, dtype=object)
        if a.shape != b.shape:
            return False
        return builtins.all(builtins.bool(x == y) for x, y in zip(a.ravel(), b.ravel()))
    return _np.array_equal(a, b, **k)


np.array_equal = np_array_equal


def np_interp(x, xp, fp, **k):
    if isinstance(xp, seq.Rows) or isinstance(fp, seq.Rows):
        if k or not sym.is_num(x):
            raise Unsupported('interp with options')
        return seq.np_interp(x, xp, fp)
    if _contains_sym(x) or _contains_sym(xp) or _contains_sym(fp):
        xp, fp = list(xp), list(fp)
        if isinstance(x, _np.ndarray):
            return _np.array([np_interp(e, xp, fp) for e in x], dtype=object)
        if x <= xp[0]:
            if x < xp[0] or len(xp) == 1 or not (xp[1] == xp[0]):
                return fp[0]
        if x >= xp[-1]:
            return fp[-1]
        # numpy: largest j with xp[j] <= x
        j = 0
        for i in builtins.range(len(xp) - 1):
            if xp[i] <= x:
                j = i
            else:
                break
        return fp[j] + (fp[j + 1] - fp[j]) * ((x - xp[j]) / (xp[j + 1] - xp[j]))
    return _np.interp(x, xp, fp, **k)


np.interp = np_interp


def np_copy(a, *r, **k):
    if isinstance(a, grid.Mat):
        return a.copy()
    return _np.array(a, dtype=object) if _contains_sym(a) else _np.copy(a, *r, **k)


np.copy = np_copy


class _RGI:
    """Contract of scipy's RegularGridInterpolator(method=linear, fill_value=None): multilinear, extrapolating"""

    def __init__(self, coords, values, method='linear', bounds_error=True, fill_value=_np.nan):
        self.values = values
        if method != 'linear' or bounds_error or fill_value is not None:
            raise Unsupported('RegularGridInterpolator options')
        self.any_size = isinstance(values, grid.Mat)
        if self.any_size:
            self.grid = list(coords)
            for i, c in enumerate(self.grid):
                if getattr(c, 'lin', None) is None:
                    raise Unsupported('interpolation on an axis that is not evenly spaced')
                if not (c.lin[2] == values.shape[i]):
                    raise ValueError('points and values on dimension %d' % i)
                if not (c.lin[0] < c.lin[1]):
                    raise ValueError('The points in dimension %d must be strictly ascending' % i)
            return
        self.grid = [list(c) for c in coords]
        for i, c in enumerate(self.grid):
            if len(c) != _np.asarray(values).shape[i]:
                raise ValueError('There are %d points and %d values on dimension %d' % (
                    len(c), _np.asarray(values).shape[i], i))
            for a, b in zip(c, c[1:]):
                if not (a < b):
                    raise ValueError('The points in dimension %d must be strictly ascending' % i)
        # float arrays are not copied by the constructor
        self.values = _np.asarray(values)

    def _cell(self, c, x):
        j = 0
        for i in builtins.range(1, len(c) - 1):
            if x >= c[i]:
                j = i
            else:
                break
        return j, (x - c[j]) / (c[j + 1] - c[j])

    def __call__(self, pts):
        if seq.is_sym(pts):
            return seq.comp(pts, lambda xs: [self([tuple(x)])[0] for x in xs], 'list', ('interpolate', 0, 0))
        out = []
        for x, y in pts:
            if self.any_size:
                out.append(grid.interpolate(self.grid, self.values, x, y))
                continue
            i, s = self._cell(self.grid[0], x)
            j, t = self._cell(self.grid[1], y)
            w = self.values
            out.append((1 - s) * (1 - t) * w[i, j] + s * (1 - t) * w[i + 1, j]
                       + (1 - s) * t * w[i, j + 1] + s * t * w[i + 1, j + 1])
        r = _np.empty(len(out), dtype=object)
        for k, e in enumerate(out):
            r[k] = e
        return r


scipy_interpolate = types.ModuleType('scipy.interpolate')
scipy_interpolate.RegularGridInterpolator = _RGI
scipy = types.ModuleType('scipy')
scipy.interpolate = scipy_interpolate

# ------------------------------------------------------------------------------- PIL.ImagePath, matplotlib
class FakePath(seq.HasSeq):
    """ImagePath.Path: a list of (x, y) built from pairs or a flat list"""

    def __init__(self, data=()):
        if isinstance(data, FakePath):
            self.pts = seq.sym_list(data.pts)
            return
        if seq.is_sym(data):
            self.pts = seq.pairs(data)
            return
        data = list(data)
        if data and not isinstance(data[0], (tuple, list)):
            if len(data) % 2:
                raise ValueError('wrong number of coordinates')
            data = [(data[i], data[i + 1]) for i in builtins.range(0, len(data), 2)]
        for p in data:
            if len(p) != 2:
                raise ValueError('incorrect coordinate type')
        self.pts = [tuple(p) for p in data]

    def symseq(self):
        return self.pts if seq.is_sym(self.pts) else None

    def tolist(self, flat=0):
        if seq.is_sym(self.pts):
            return seq.sym_flatten(self.pts) if flat else self.pts.copy()
        if flat:
            return [c for p in self.pts for c in p]
        return list(self.pts)

    def length(self):
        return self.pts.length()

    def __len__(self):
        return len(self.pts)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return FakePath(self.pts[i])
        return self.pts[i]

    def __iter__(self):
        return iter(self.pts)

    def getbbox(self):
        xs = [p[0] for p in self.pts]
        ys = [p[1] for p in self.pts]
        return min_(xs), min_(ys), max_(xs), max_(ys)


_pil_cache = {}
ImagePath = types.ModuleType('PIL.ImagePath')
ImagePath.Path = FakePath


def pil(real, name, fromlist):
    if name == 'PIL':
        if 'PIL' not in _pil_cache:
            m = types.ModuleType('PIL')
            _pil_cache['PIL'] = m
        m = _pil_cache['PIL']
        for f in fromlist or ():
            setattr(m, f, ImagePath if f == 'ImagePath' else getattr(real, f))
        return m
    if name == 'PIL.ImagePath':
        return ImagePath
    return real


class _Anything(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return _Anything(self.__name__ + '.' + k)

    def __call__(self, *a, **k):
        raise Unsupported('call of %s' % self.__name__)


matplotlib = _Anything('matplotlib')
pyplot = _Anything('matplotlib.pyplot')
axes = _Anything('matplotlib.axes')
matplotlib.pyplot = pyplot
matplotlib.axes = axes

bisect = types.ModuleType('bisect')


def bisect_right(a, x, lo=0, hi=None, *, key=None):
    if seq.is_sym(a):
        return seq.sym_bisect(a, x, lo, hi, key, True)
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if x < (a[mid] if key is None else key(a[mid])):
            hi = mid
        else:
            lo = mid + 1
    return lo


def bisect_left(a, x, lo=0, hi=None, *, key=None):
    if seq.is_sym(a):
        return seq.sym_bisect(a, x, lo, hi, key, False)
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if (a[mid] if key is None else key(a[mid])) < x:
            lo = mid + 1
        else:
            hi = mid
    return lo


bisect.bisect = bisect.bisect_right = bisect_right
bisect.bisect_left = bisect_left

import x7.lib.iters as _iters
x7_iters = types.ModuleType('x7.lib.iters')
for _n in _iters.__all__:
    setattr(x7_iters, _n, getattr(_iters, _n))


def t_range(steps, t_start=0.0, t_end=1.0, closed=True, closed_start=True):
    if isinstance(steps, SymReal):
        return seq.sym_t_range(steps, t_start, t_end, closed, closed_start)
    if sym.ctx.cur is not None and isinstance(steps, builtins.int) and steps:
        # exact fractions
        t_len = t_end - t_start
        ks = builtins.range(0 if closed_start else 1, steps + 1 if closed else steps)
        return (wrap(P.const(Fraction(k, steps))) * t_len + t_start for k in ks)
    return _iters.t_range(steps, t_start, t_end, closed, closed_start)


x7_iters.t_range = t_range


def iter_rotate(data, elems=2, offset=0, cycle=True):
    if seq.is_sym(data):
        return seq.sym_iter_rotate(data, elems, offset, cycle)
    return _iters.iter_rotate(data, elems, offset, cycle)


def xy_flatten(it):
    if seq.is_sym(it) or isinstance(it, list) and builtins.any(seq.is_sym(x) for x in it):
        return seq.sym_flatten(it)
    return _iters.xy_flatten(it)


x7_iters.iter_rotate = iter_rotate
x7_iters.xy_flatten = xy_flatten

bezier_pkg = types.ModuleType('bezier')


class _BzCurve:
    def __init__(self, *a, **k):
        raise Unsupported('bezier.Curve')


bezier_pkg.Curve = _BzCurve

MODULES = {
    'math': math, 'numpy': np, 'scipy.interpolate': scipy_interpolate, 'scipy': scipy,
    'matplotlib': matplotlib, 'matplotlib.pyplot': pyplot, 'matplotlib.axes': axes,
    'bisect': bisect, 'x7.lib.iters': x7_iters, 'bezier': bezier_pkg,
}
