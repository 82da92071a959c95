"""
Exact terms: polynomials with rational coefficients over interned atoms, in a canonical form.

Atom kinds:
  var   (name)            real or integer unknown
  den   (poly)            a multi-term denominator; occurs with negative exponents only
  sqrt  (poly)            non-negative square root; exponent 0/1 only
  cos/sin (poly)          of one angle monomial (sums are expanded);  sin^2 is rewritten to 1-cos^2
  atan2 (y, x)            in radians, (x, y) != (0, 0)
  abs   (poly)            absolute value
  min/max (polys...)      n-ary
  ite   (formula, a, b)
  quo   (a, m)            floor(a / m), integer
  rnd   (a, n)            round half even of a to n digits (uninterpreted apart from its error bound)
  app   (name, args...)   uninterpreted function application (element of a symbolic sequence, ...)
  K                       pi/180
"""
import math
from fractions import Fraction

ATOMS = []          # id -> Atom
_INTERN = {}


class Atom:
    __slots__ = ('id', 'kind', 'args', 'is_int', 'nonneg', '_z3')

    def __repr__(self):
        return show_atom(self)


def atom(kind, args, is_int=False, nonneg=False):
    key = (kind, args)
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = args
        a.is_int = is_int
        a.nonneg = nonneg
        ATOMS.append(a)
        _INTERN[key] = a
    return a


def _norm_coeff(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    def key(self):
        return frozenset(self.d.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, other):
        return isinstance(other, Poly) and self.d == other.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def __repr__(self):
        return show(self)

    # arithmetic -------------------------------------------------------------
    def __add__(self, o):
        if not self.d:
            return o
        if not o.d:
            return self
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        d = dict(a)
        for m, c in b.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = _norm_coeff(v)
            else:
                d.pop(m, None)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _norm_coeff(c * k) for m, c in self.d.items()})

    def __mul__(self, o):
        if not self.d or not o.d:
            return ZERO
        if len(o.d) == 1 and () in o.d:
            return self.scale(o.d[()])
        if len(self.d) == 1 and () in self.d:
            return o.scale(self.d[()])
        out = {}
        extra = None
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, red = _mono_mul(m1, m2)
                c = c1 * c2
                if red is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = _norm_coeff(v)
                    else:
                        out.pop(m, None)
                else:
                    t = red.scale(c)
                    extra = t if extra is None else extra + t
        p = Poly(out)
        return p if extra is None else p + extra

    def pow(self, n):
        if n < 0:
            return inv(self).pow(-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r


def _mono_mul(m1, m2):
    """(monomial, None) or (None, reduced poly)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    for a, e in d.items():
        k = ATOMS[a].kind
        if k == 'sqrt' and (e >= 2 or e < 0) or k in ('sin', 'abs') and e >= 2 or k == 'den' and e > 0:
            break
    else:
        return tuple(sorted(d.items())), None
    rest = {}
    facs = []
    for a, e in d.items():
        at = ATOMS[a]
        k = at.kind
        if k == 'sqrt' and (e >= 2 or e < 0):
            q, r = divmod(e, 2)
            if r:
                rest[a] = 1
            facs.append(at.args[0].pow(q))
        elif k == 'sin' and e >= 2:
            q, r = divmod(e, 2)
            if r:
                rest[a] = 1
            c = mono(atom('cos', at.args))
            facs.append((ONE - c * c).pow(q))
        elif k == 'abs' and e >= 2:
            q, r = divmod(e, 2)
            if r:
                rest[a] = 1
            facs.append((at.args[0] * at.args[0]).pow(q))
        elif k == 'den' and e > 0:
            facs.append(at.args[0].pow(e))
        else:
            rest[a] = e
    p = Poly({tuple(sorted(rest.items())): 1})
    for f in facs:
        p = p * f
    return None, p


ZERO = Poly({})
ONE = Poly({(): 1})


def const(c):
    if type(c) is float:
        if c != c or c in (math.inf, -math.inf):
            raise OverflowError('non-finite constant')
        c = Fraction(c)
    c = _norm_coeff(c)
    return Poly({(): c}) if c else ZERO


def mono(a, e=1):
    return Poly({((a.id, e),): 1})


def var(name, is_int=False, nonneg=False):
    return mono(atom('var', (name,), is_int, nonneg))


def var_index(name):
    """id of the variable atom of that name"""
    a = _INTERN.get(('var', (name,)))
    return None if a is None else a.id


K = mono(atom('K', (), False, True))


def lead(p):
    m = min(p.d)
    return m, p.d[m]


def inv(p):
    """1/p; the caller guarantees p != 0"""
    if not p.d:
        raise ZeroDivisionError
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = const(Fraction(1) / c)
        for a, e in m:
            at = ATOMS[a]
            if at.kind == 'sqrt' and e > 0:
                # 1/sqrt(q) = sqrt(q)/q
                r = r * mono(at) * inv(at.args[0])
            elif at.kind == 'den':
                r = r * at.args[0].pow(-e)
            else:
                r = r * Poly({((a, -e),): 1})
        return r
    # common monomial factor out, then make primitive
    g = common_mono(p)
    if g:
        q = p * Poly({tuple((a, -e) for a, e in g): 1})
        return inv(q) * inv(Poly({g: 1}))
    _, c = lead(p)
    q = p.scale(Fraction(1) / c)
    return mono(atom('den', (q,)), -1).scale(Fraction(1) / c)


def common_mono(p, kinds=('var', 'app', 'K', 'sqrt', 'cos', 'sin', 'abs', 'den')):
    """Greatest common monomial factor, as a monomial tuple (negative exponents included)"""
    it = iter(p.d)
    g = {a: e for a, e in next(it)}
    allk = set(g)
    for m in it:
        d = dict(m)
        allk |= set(d)
        for a in allk:
            x, y = g.get(a, 0), d.get(a, 0)
            z = min(x, y)
            g[a] = z
    return tuple(sorted((a, e) for a, e in g.items() if e and (ATOMS[a].kind not in ('sqrt', 'sin', 'abs') or e > 0)
                        and not (ATOMS[a].kind == 'sqrt')))


def _isqrt_frac(c):
    c = Fraction(c)
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _square_part(n):
    """largest s with s*s | n, by small factors only"""
    s = 1
    f = 2
    m = n
    while f * f <= m and f < 2000:
        while m % (f * f) == 0:
            m //= f * f
            s *= f
        while m % f == 0:
            m //= f
        f += 1
    r = math.isqrt(m)
    if r * r == m:
        s *= r
    return s


def sqrt(p):
    """square root of p, which the caller knows is >= 0"""
    if p.is_const():
        c = Fraction(p.const())
        r = _isqrt_frac(c)
        if r is not None:
            return const(r)
        n, d = c.numerator, c.denominator
        # sqrt(n/d) = sqrt(n*d)/d
        nd = n * d
        s = _square_part(nd)
        return mono(atom('sqrt', (const(nd // (s * s)),), False, True)).scale(Fraction(s, d))
    g = common_mono(p)
    out = ONE
    if g:
        for a, e in g:
            h = e // 2
            if h:
                f = Poly({((a, h),): 1}) if ATOMS[a].kind != 'den' or h < 0 else ATOMS[a].args[0].pow(h)
                out = out * absval(f)
                p = p * Poly({((a, -2 * h),): 1})
        if not p.d:
            return ZERO
    if p.is_const():
        return out * sqrt(p)
    # rational content
    cs = [Fraction(c) for c in p.d.values()]
    num = 0
    den = 1
    for c in cs:
        num = math.gcd(num, c.numerator)
        den = den * c.denominator // math.gcd(den, c.denominator)
    content = Fraction(num, den)
    r = _isqrt_frac(content)
    if r is None:
        # keep squarefree part inside
        nd = content.numerator * content.denominator
        s = _square_part(nd)
        r = Fraction(s, content.denominator)
    p = p.scale(1 / (r * r))
    out = out.scale(r)
    # a single even monomial left?
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if m and all(e % 2 == 0 for _, e in m) and _isqrt_frac(c) is not None:
            h = ONE
            for a, e in m:
                h = h * Poly({((a, e // 2),): 1})
            return out * absval(h).scale(_isqrt_frac(c))
    return out * mono(atom('sqrt', (p,), False, True))


def absval(p):
    if p.is_const():
        return const(abs(p.const()))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = const(abs(c))
        for a, e in m:
            at = ATOMS[a]
            f = Poly({((a, e),): 1})
            if e % 2 == 0 or at.nonneg or at.kind in ('sqrt', 'abs'):
                r = r * f
            elif at.kind == 'den' or e < 0:
                base = at.args[0] if at.kind == 'den' else mono(at)
                r = r * (inv(absval(base)) if e == -1 else inv(absval(base)).pow(-e))
            else:
                r = r * mono(atom('abs', (mono(at),), False, True)).pow(e)
        return r
    _, c = lead(p)
    if c < 0:
        p = -p
    if trivially_nonneg(p):
        return p
    return mono(atom('abs', (p,), False, True))


def mono_nonneg(m):
    for a, e in m:
        at = ATOMS[a]
        if e % 2 and not at.nonneg and not (at.kind == 'den' and trivially_nonneg(at.args[0])):
            return False
    return True


NONNEG = set()      # normalised polynomials known to be sums of squares


def _pnorm(p):
    return p.scale(Fraction(1) / abs(Fraction(lead(p)[1])))


def note_nonneg(p):
    if p.d and not p.is_const():
        NONNEG.add(_pnorm(p))


def trivially_nonneg(p):
    if all(c > 0 and mono_nonneg(m) for m, c in p.d.items()):
        return True
    return bool(NONNEG) and not p.is_const() and _pnorm(p) in NONNEG


# trigonometry ---------------------------------------------------------------
_K_ID = None
_C90 = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}


def _cos_sin_term(m, c):
    """(cos, sin) of the single angle term c * monomial m"""
    c = Fraction(c)
    kid = lead(K)[0]
    if m == kid:
        # constant number of degrees
        d = c % 360
        if d.denominator == 1 and int(d) in _C90:
            a, b = _C90[int(d)]
            return const(a), const(b)
        # fold into (0, 45] via symmetry
        base = d % 90
        quad = int(d // 90)
        if base > 45:
            ca, sa = mono(atom('sin', (K.scale(90 - base),))), mono(atom('cos', (K.scale(90 - base),)))
        elif base == 45:
            ca = sa = sqrt(const(Fraction(1, 2)))
        else:
            ca, sa = mono(atom('cos', (K.scale(base),))), mono(atom('sin', (K.scale(base),)))
        for _ in range(quad):
            ca, sa = -sa, ca
        return ca, sa
    if len(m) == 2 and kid[0] in m and c % 360 == 0:
        # 360 * integer atom * K
        oth = [x for x in m if x != kid[0]][0]
        if oth[1] == 1 and ATOMS[oth[0]].is_int:
            return ONE, ZERO
    if len(m) == 1 and ATOMS[m[0][0]].kind == 'atan2' and m[0][1] == 1 and c.denominator == 1:
        y, x = ATOMS[m[0][0]].args
        h = sqrt(x * x + y * y)
        ih = inv(h)
        bc, bs = x * ih, y * ih
    else:
        arg = Poly({m: Fraction(1, c.denominator)}) if c.denominator != 1 else Poly({m: 1})
        bc, bs = mono(atom('cos', (arg,))), mono(atom('sin', (arg,)))
    n = abs(c.numerator)
    if n > 24:
        arg = Poly({m: abs(c)})
        rc, rs = mono(atom('cos', (arg,))), mono(atom('sin', (arg,)))
    else:
        rc, rs = ONE, ZERO
        for _ in range(n):
            rc, rs = rc * bc - rs * bs, rs * bc + rc * bs
    if c < 0:
        rs = -rs
    return rc, rs


def cos_sin(p):
    rc, rs = ONE, ZERO
    for m in sorted(p.d):
        c = p.d[m]
        if m == ():
            # constant radians: a float in disguise
            f = float(c)
            tc, ts = const(math.cos(f)), const(math.sin(f))
        else:
            tc, ts = _cos_sin_term(m, c)
        rc, rs = rc * tc - rs * ts, rs * tc + rc * ts
    return rc, rs


# clearing denominators -------------------------------------------------------
def clear(p):
    """A polynomial without negative exponents that vanishes iff p does (given that denominators are non-zero)"""
    for _ in range(50):
        neg = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            return p
        # innermost dens may contain others; clear the ones with the largest id first
        a = max(neg, key=lambda i: (ATOMS[i].kind == 'den', i))
        k = -neg[a]
        at = ATOMS[a]
        base = at.args[0] if at.kind == 'den' else mono(at)
        out = ZERO
        pows = {}
        for m, c in p.d.items():
            d = dict(m)
            e = d.pop(a, 0) + k
            rest = Poly({tuple(sorted(d.items())): c})
            if e:
                if e not in pows:
                    pows[e] = base.pow(e)
                rest = rest * pows[e]
            out = out + rest
        p = out
    return p


_DENLEAD = {}


def _grlex(m):
    return sum(e for _, e in m), tuple((-a, e) for a, e in m)


def reduce_den(p, limit=4000):
    """canonical form modulo q * (1/q) = 1: the leading monomial of q never stands next to 1/q"""
    dens = None
    for m in p.d:
        for a, e in m:
            if e < 0 and ATOMS[a].kind == 'den':
                dens = True
                break
        if dens:
            break
    if not dens:
        return p
    out = {}
    todo = dict(p.d)
    n = 0
    while todo:
        m, c = todo.popitem()
        n += 1
        d = dict(m)
        hit = None
        if n < limit:
            for a, e in m:
                if e < 0 and ATOMS[a].kind == 'den':
                    ld = _DENLEAD.get(a)
                    if ld is None:
                        q = ATOMS[a].args[0]
                        lm = max(q.d, key=_grlex)
                        ld = _DENLEAD[a] = (lm, q.d[lm], [(k, x) for k, x in q.d.items() if k != lm]) \
                            if all(y > 0 and ATOMS[b].kind in ('var', 'app', 'K', 'cos') for k in q.d for b, y in k) else False
                    if ld and all(d.get(b, 0) >= y for b, y in ld[0]):
                        hit = a, ld
                        break
        if hit is None:
            x = out.get(m, 0) + c
            if x:
                out[m] = _norm_coeff(x)
            else:
                out.pop(m, None)
            continue
        a, (lm, lc, rest) = hit
        for b, y in lm:
            z = d[b] - y
            if z:
                d[b] = z
            else:
                d.pop(b)
        # m = lm * r * q^-k  ->  (r * q^-(k-1) - rest * r * q^-k) / lc
        c = Fraction(c) / lc

        def put(mm, cc):
            x = todo.get(mm, 0) + cc
            if x:
                todo[mm] = _norm_coeff(x)
            else:
                todo.pop(mm, None)
        e = dict(d)
        e[a] += 1
        if not e[a]:
            e.pop(a)
        put(tuple(sorted(e.items())), c)
        for k, x in rest:
            e = dict(d)
            for b, y in k:
                z = e.get(b, 0) + y
                if z:
                    e[b] = z
                else:
                    e.pop(b, None)
            put(tuple(sorted(e.items())), -c * x)
    return Poly(out)


# substitution ----------------------------------------------------------------
def subst(p, env, cache=None):
    """Replace atoms (by id) with polys; rebuilds every enclosing atom"""
    if cache is None:
        cache = {}
    out = ZERO
    for m, c in p.d.items():
        t = const(c)
        for a, e in m:
            t = t * _subst_atom_pow(a, e, env, cache)
        out = out + t
    return out


def _subst_atom_pow(a, e, env, cache):
    r = cache.get(a)
    if r is None:
        r = _subst_atom(ATOMS[a], env, cache)
        cache[a] = r
    if e == 1:
        return r
    return r.pow(e) if e > 0 else inv(r).pow(-e)


def _subst_atom(at, env, cache):
    if at.id in env:
        return env[at.id]
    k = at.kind
    if k in ('var', 'K', 'bvar'):
        return mono(at)
    if k == 'ite':
        from . import sym
        f = sym.formula_subst(at.args[0], env, cache)
        return mk_ite(f, subst(at.args[1], env, cache), subst(at.args[2], env, cache))
    if k == 'app':
        args = tuple(subst(x, env, cache) if isinstance(x, Poly) else x for x in at.args[1:])
        if args == at.args[1:]:
            return mono(at)
        return mk_app(at.args[0], args, at.is_int)
    args = tuple(subst(x, env, cache) for x in at.args if isinstance(x, Poly))
    if args == at.args:
        return mono(at)
    if k == 'den':
        return args[0]
    if k == 'sqrt':
        return sqrt(args[0])
    if k == 'cos':
        return cos_sin(args[0])[0]
    if k == 'sin':
        return cos_sin(args[0])[1]
    if k == 'abs':
        return absval(args[0])
    if k == 'min':
        return mk_min(args)
    if k == 'max':
        return mk_max(args)
    if k == 'quo':
        return mk_quo(args[0], args[1])
    if k == 'atan2':
        return mono(atom('atan2', args))
    if k == 'rnd':
        return mono(atom('rnd', (args[0],) + at.args[1:]))
    raise NotImplementedError(k)


def mk_app(name, args, is_int=False):
    return mono(atom('app', (name,) + tuple(args), is_int))


def mk_quo(a, m):
    if a.is_const() and m.is_const():
        return const(Fraction(a.const()) // Fraction(m.const()))
    return mono(atom('quo', (a, m), True))


def _minmax(kind, ps, pick):
    flat = []
    for p in ps:
        at = single_atom(p)
        if at is not None and at.kind == kind:
            flat.extend(at.args)
        else:
            flat.append(p)
    cs = [p for p in flat if p.is_const()]
    rest = []
    for p in flat:
        if not p.is_const() and p not in rest:
            rest.append(p)
    if cs:
        c = pick(Fraction(p.const()) for p in cs)
        rest.append(const(c))
    # drop those dominated by a constant distance
    out = []
    for p in rest:
        drop = False
        for q in rest:
            if q is not p:
                d = reduce_den(p - q)
                if d.is_const():
                    dc = d.const()
                    if (dc > 0 if kind == 'min' else dc < 0):
                        drop = True
                    elif dc == 0 and q in out:
                        drop = True
                elif trivially_nonneg(d if kind == 'min' else -d):
                    drop = True
        if not drop:
            out.append(p)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda p: sorted(((tuple(m), Fraction(c)) for m, c in p.d.items())))
    return mono(atom(kind, tuple(out), all(poly_is_int(p) for p in out)))


def mk_min(ps):
    return _minmax('min', ps, min)


def mk_max(ps):
    return _minmax('max', ps, max)


def mk_ite(f, a, b):
    if f is True or a == b:
        return a
    if f is False:
        return b
    return mono(atom('ite', (f, a, b), poly_is_int(a) and poly_is_int(b)))


def single_atom(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def poly_is_int(p):
    """True if p certainly takes integer values"""
    for m, c in p.d.items():
        if Fraction(c).denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not ATOMS[a].is_int:
                return False
    return True


def atoms_of(p, acc=None):
    """all atom ids occurring in p, recursively"""
    if acc is None:
        acc = set()
    for m in p.d:
        for a, _ in m:
            if a not in acc:
                acc.add(a)
                for x in ATOMS[a].args:
                    if isinstance(x, Poly):
                        atoms_of(x, acc)
                    elif hasattr(x, 'polys'):
                        for q in x.polys():
                            atoms_of(q, acc)
    return acc


# printing ----------------------------------------------------------------------
def show_atom(at):
    if at.kind == 'var':
        return at.args[0]
    if at.kind == 'K':
        return 'K'
    if at.kind == 'app':
        return '%s(%s)' % (at.args[0], ', '.join(map(str, at.args[1:])))
    return '%s(%s)' % (at.kind, ', '.join(map(str, at.args)))


def show(p):
    if not p.d:
        return '0'
    out = []
    for m, c in sorted(p.d.items()):
        f = [] if c == 1 and m else [str(c)]
        for a, e in m:
            f.append(show_atom(ATOMS[a]) + ('^%d' % e if e != 1 else ''))
        out.append('*'.join(f))
    s = ' + '.join(out)
    return s if len(s) < 400 else s[:400] + '...'


# numeric evaluation (floats) ------------------------------------------------------
def evalf(p, env):
    """Evaluate with env: atom id -> float for variables; used to cross-check"""
    tot = 0.0
    for m, c in p.d.items():
        t = float(c)
        for a, e in m:
            t *= _eval_atom(ATOMS[a], env) ** e
        tot += t
    return tot


def _eval_atom(at, env):
    if at.id in env:
        return env[at.id]
    k = at.kind
    if k == 'K':
        return math.pi / 180
    if k == 'den':
        return evalf(at.args[0], env)
    if k == 'sqrt':
        return math.sqrt(max(0.0, evalf(at.args[0], env)))
    if k == 'cos':
        return math.cos(evalf(at.args[0], env))
    if k == 'sin':
        return math.sin(evalf(at.args[0], env))
    if k == 'abs':
        return abs(evalf(at.args[0], env))
    if k == 'min':
        return min(evalf(q, env) for q in at.args)
    if k == 'max':
        return max(evalf(q, env) for q in at.args)
    if k == 'atan2':
        return math.atan2(evalf(at.args[0], env), evalf(at.args[1], env))
    if k == 'quo':
        return math.floor(evalf(at.args[0], env) / evalf(at.args[1], env))
    if k == 'rnd':
        return round(evalf(at.args[0], env), at.args[1])
    raise KeyError(show_atom(at))
