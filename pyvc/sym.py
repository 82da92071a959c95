"""Symbolic values handed to the real code: SymReal (numbers) and formulas (booleans)."""
import math
import numbers
from fractions import Fraction
from . import poly as P
from .poly import Poly


class Unsupported(BaseException):
    """The verifier cannot follow the code here (never an alarm by itself)"""


class ctx:
    """The active path (set by engine)"""
    cur = None


def decide(f):
    if f is True or f is False:
        return f
    if ctx.cur is None:
        raise Unsupported('symbolic truth value outside of a path: %s' % f)
    return ctx.cur.decide(f)


# ---------------------------------------------------------------- formulas
class F:
    __slots__ = ()

    def __bool__(self):
        return decide(self)

    def __and__(self, o):
        return f_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return f_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return f_not(self)

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return f_not(self)
        if isinstance(o, F):
            return f_or(f_and(self, o), f_and(f_not(self), f_not(o)))
        return NotImplemented

    def __ne__(self, o):
        r = F.__eq__(self, o)
        return r if r is NotImplemented else f_not(r)

    # arithmetic use of a truth value
    def _num(self):
        return 1 if decide(self) else 0

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __int__(self): return self._num()
    def __index__(self): return self._num()


class Cmp(F):
    __slots__ = ('op', 'p')

    def __init__(self, op, p):
        self.op = op
        self.p = p

    def polys(self):
        return (self.p,)

    def key(self):
        return (self.op, self.p)

    def __hash__(self):
        return hash((self.op, self.p))

    def __repr__(self):
        return '(%s %s 0)' % (self.p, self.op)


class Junct(F):
    __slots__ = ('kind', 'fs')

    def __init__(self, kind, fs):
        self.kind = kind
        self.fs = fs

    def polys(self):
        for f in self.fs:
            yield from f.polys()

    def key(self):
        return (self.kind,) + tuple(f.key() for f in self.fs)

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '(' + (' %s ' % self.kind).join(map(repr, self.fs)) + ')'


class BVar(F):
    __slots__ = ('name', 'neg')

    def __init__(self, name, neg=False):
        self.name = name
        self.neg = neg

    def polys(self):
        return ()

    def key(self):
        return ('b', self.name, self.neg)

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return ('!' if self.neg else '') + self.name


def cmp0(op, p):
    """p op 0, folded"""
    if len(p.d) == 2:
        q = unroot(p)
        if q is not None:
            p = q
    if p.is_const():
        c = p.const()
        return c < 0 if op == '<' else c <= 0 if op == '<=' else c == 0 if op == '==' else c != 0
    _, c = P.lead(p)
    if op in ('==', '!='):
        p = p.scale(Fraction(1) / c)
        # strip a common monomial of atoms known to be non-zero? (not done: they may vanish)
        if P.trivially_nonneg(p) and p.d.get((), 0) > 0:
            return op == '!='
        return Cmp(op, p)
    p = p.scale(Fraction(1) / abs(c))
    if P.trivially_nonneg(p):
        if op == '<' or p.d.get((), 0) > 0:
            return False
    elif P.trivially_nonneg(-p):
        if op == '<=' or (-p).d.get((), 0) > 0:
            return True
    return Cmp(op, p)


def unroot(p):
    """c*sqrt(A) - d*sqrt(B), or c*sqrt(A) - d, with c, d > 0: the difference of the squares (same sign), or None"""
    if len(p.d) != 2:
        return None
    out = []
    for m, c in p.d.items():
        c = Fraction(c)
        if not m:
            q = P.const(c * c)
        elif len(m) == 1 and m[0][1] == 1 and P.ATOMS[m[0][0]].kind == 'sqrt':
            q = P.ATOMS[m[0][0]].args[0].scale(c * c)
        else:
            return None
        out.append((c > 0, q))
    if out[0][0] == out[1][0]:
        return None
    return out[0][1] - out[1][1] if out[0][0] else out[1][1] - out[0][1]


def f_not(f):
    if f is True or f is False:
        return not f
    if isinstance(f, Cmp):
        if f.op == '<':
            return cmp0('<=', -f.p)
        if f.op == '<=':
            return cmp0('<', -f.p)
        return Cmp('!=' if f.op == '==' else '==', f.p)
    if isinstance(f, Junct):
        return _junct('or' if f.kind == 'and' else 'and', [f_not(g) for g in f.fs])
    if isinstance(f, BVar):
        return BVar(f.name, not f.neg)
    return not f


def _junct(kind, fs):
    out = []
    for f in fs:
        if isinstance(f, (bool,)) or f is True or f is False:
            if f == (kind == 'or'):
                return kind == 'or'
            continue
        if not isinstance(f, F):
            f = bool(f)
            if f == (kind == 'or'):
                return kind == 'or'
            continue
        if isinstance(f, Junct) and f.kind == kind:
            out.extend(f.fs)
        else:
            out.append(f)
    seen = {}
    for f in out:
        seen.setdefault(f.key(), f)
    out = list(seen.values())
    if not out:
        return kind == 'and'
    if len(out) == 1:
        return out[0]
    return Junct(kind, tuple(out))


def f_and(*fs):
    return _junct('and', fs)


def f_or(*fs):
    return _junct('or', fs)


def formula_subst(f, env, cache):
    if isinstance(f, Cmp):
        return cmp0(f.op, P.subst(f.p, env, cache))
    if isinstance(f, Junct):
        return _junct(f.kind, [formula_subst(g, env, cache) for g in f.fs])
    return f


# ---------------------------------------------------------------- numbers
def is_num(x):
    return isinstance(x, (int, float, Fraction, SymReal)) or type(x).__module__ == 'numpy' and isinstance(x, numbers.Number)


def is_inf(x):
    return isinstance(x, float) and (x == math.inf or x == -math.inf)


def to_poly(x):
    if isinstance(x, SymReal):
        return x.p
    if isinstance(x, float) and (x != x or is_inf(x)):
        return None
    if isinstance(x, (bool,)):
        return P.const(int(x))
    if isinstance(x, (int, Fraction)):
        return P.const(x)
    if isinstance(x, float):
        return P.const(x)
    if isinstance(x, numbers.Integral):
        return P.const(int(x))
    if isinstance(x, numbers.Real):
        return P.const(float(x))
    return None


def wrap(p):
    """Poly -> SymReal, or a plain number if it is constant and integral"""
    p = P.reduce_den(p)
    if p.is_const():
        c = p.const()
        if type(c) is int:
            return c
        if type(c) is Fraction:
            # keep exact: a SymReal with a constant value behaves exactly
            return SymReal(p)
    return SymReal(p)


TOKENS = {}     # textual placeholder -> SymReal  (for repr round trips)


class SymReal(numbers.Number):
    __slots__ = ('p',)
    __array_priority__ = 1000

    def __init__(self, p):
        self.p = p

    def __hash__(self):
        return hash(self.p)

    # text
    def token(self):
        t = 'SYM_%d_' % (abs(hash(self.p)) % (1 << 61))
        while t in TOKENS and TOKENS[t].p != self.p:
            t += 'x_'
        TOKENS[t] = self
        return t

    def __repr__(self):
        if ctx.cur is not None and getattr(ctx.cur, 'tokens', False):
            return self.token()
        return 'Sym<%s>' % self.p

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # conversions the interpreter insists on doing natively
    def __float__(self):
        if self.p.is_const():
            return float(self.p.const())
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        if self.p.is_const():
            return int(self.p.const())
        raise Unsupported('int() of a symbolic number')

    def __index__(self):
        if self.p.is_const() and type(self.p.const()) is int:
            return self.p.const()
        if P.poly_is_int(self.p):
            return ctx.cur.concretize_int(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __complex__(self):
        raise Unsupported('complex()')

    # arithmetic
    def _bin(self, o, fn):
        import numpy as np
        if isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                out[i] = fn(o[i])
            return out
        return NotImplemented

    def __add__(self, o):
        q = to_poly(o)
        if q is None:
            return self._bin(o, lambda e: self + e)
        r = self.p + q
        if P.NONNEG and len(r.d) > 1 and P.trivially_nonneg(self.p) and P.trivially_nonneg(q):
            P.note_nonneg(r)
        return wrap(r)

    __radd__ = __add__

    def __sub__(self, o):
        q = to_poly(o)
        if q is None:
            return self._bin(o, lambda e: self - e)
        return wrap(self.p - q)

    def __rsub__(self, o):
        q = to_poly(o)
        if q is None:
            return self._bin(o, lambda e: e - self)
        return wrap(q - self.p)

    def __mul__(self, o):
        q = to_poly(o)
        if q is None:
            return self._bin(o, lambda e: self * e)
        r = self.p * q
        if len(self.p.d) > 1 and (self.p == q or P.NONNEG and P.trivially_nonneg(self.p) and P.trivially_nonneg(q)):
            P.note_nonneg(r)
        return wrap(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        q = to_poly(o)
        if q is None:
            return self._bin(o, lambda e: self / e)
        return sym_div(self.p, q)

    def __rtruediv__(self, o):
        q = to_poly(o)
        if q is None:
            return self._bin(o, lambda e: e / self)
        return sym_div(q, self.p)

    def __neg__(self):
        return wrap(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(P.absval(self.p))

    def __pow__(self, o, mod=None):
        if isinstance(o, SymReal) and self.p.is_const():
            raise Unsupported('symbolic exponent')
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if isinstance(o, int):
            if o >= 0:
                r = self.p.pow(o)
                if o % 2 == 0:
                    P.note_nonneg(r)
                return wrap(r)
            return 1 / (self ** (-o))
        if o == 0.5 or o == Fraction(1, 2):
            return sym_sqrt(self)
        raise Unsupported('power %r' % (o,))

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    def __mod__(self, o):
        q = to_poly(o)
        if q is None:
            return NotImplemented
        return sym_mod(self.p, q)

    def __rmod__(self, o):
        q = to_poly(o)
        if q is None:
            return NotImplemented
        return sym_mod(q, self.p)

    def __floordiv__(self, o):
        q = to_poly(o)
        if q is None:
            return NotImplemented
        nonzero(q)
        return wrap(P.mk_quo(self.p, q))

    def __rfloordiv__(self, o):
        q = to_poly(o)
        if q is None:
            return NotImplemented
        nonzero(self.p)
        return wrap(P.mk_quo(q, self.p))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __round__(self, n=None):
        if self.p.is_const():
            return round(Fraction(self.p.const()), n) if n is not None else round(Fraction(self.p.const()))
        n = 0 if n is None else n
        if n >= 0 and P.poly_is_int(self.p):
            return self
        return wrap(P.mono(P.atom('rnd', (self.p, n), n == 0)))

    def __floor__(self):
        return wrap(P.mk_quo(self.p, P.ONE))

    def __ceil__(self):
        return -wrap(P.mk_quo(-self.p, P.ONE))

    def __trunc__(self):
        return sym_int(self)

    # numpy-ish / float API occasionally used
    def item(self):
        return self

    def is_integer(self):
        return cmp0('==', self.p - P.mk_quo(self.p, P.ONE))

    # comparisons
    def __lt__(self, o):
        q = to_poly(o)
        if q is None:
            return o > 0 if is_inf(o) else NotImplemented
        return cmp0('<', self.p - q)

    def __le__(self, o):
        q = to_poly(o)
        if q is None:
            return o > 0 if is_inf(o) else NotImplemented
        return cmp0('<=', self.p - q)

    def __gt__(self, o):
        q = to_poly(o)
        if q is None:
            return o < 0 if is_inf(o) else NotImplemented
        return cmp0('<', q - self.p)

    def __ge__(self, o):
        q = to_poly(o)
        if q is None:
            return o < 0 if is_inf(o) else NotImplemented
        return cmp0('<=', q - self.p)

    def __eq__(self, o):
        q = to_poly(o)
        if q is None:
            return False if is_inf(o) else NotImplemented
        return eq0(self.p - q)

    def __ne__(self, o):
        q = to_poly(o)
        if q is None:
            return True if is_inf(o) else NotImplemented
        return f_not(eq0(self.p - q))

    def __bool__(self):
        return decide(f_not(eq0(self.p)))


def eq0(p):
    """formula p == 0 with denominators cleared"""
    if any(e < 0 for m in p.d for _, e in m):
        p = P.clear(p)
    return cmp0('==', p)


def nonzero(q):
    """fork on the denominator; raise ZeroDivisionError on the zero branch"""
    if q.is_const():
        if q.const() == 0:
            raise ZeroDivisionError('division by zero')
        return
    if decide(eq0(q)):
        raise ZeroDivisionError('division by zero')


def sym_div(p, q):
    nonzero(q)
    # exact shortcuts
    if q.is_const():
        return wrap(p.scale(Fraction(1) / Fraction(q.const())))
    if p == q:
        return 1
    r = p * P.inv(q)
    return wrap(r)


def sym_mod(p, q):
    nonzero(q)
    k = P.mk_quo(p, q)
    return wrap(p - q * k)


def sym_sqrt(x):
    p = to_poly(x)
    if p is None:
        raise TypeError('must be real number, not %s' % type(x).__name__)
    if decide(cmp0('<', p)):
        raise ValueError('math domain error')
    return wrap(P.sqrt(p))


def sym_int(x):
    """int(): truncation toward zero"""
    if not isinstance(x, SymReal):
        return int(x)
    if P.poly_is_int(x.p):
        return x
    if decide(cmp0('<', x.p)):
        return -wrap(P.mk_quo(-x.p, P.ONE))
    return wrap(P.mk_quo(x.p, P.ONE))


def has_sym(*xs):
    return any(isinstance(x, SymReal) for x in xs)
