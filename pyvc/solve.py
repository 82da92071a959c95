"""Discharging obligations: normal form, z3, cvc5."""
import math
import time
from fractions import Fraction
import z3
from . import poly as P
from .poly import Poly, ATOMS
from . import sym
from .sym import Cmp, Junct, BVar, F

REAL = z3.RealSort()


class Z3Env:
    """Translation of atoms to z3, with the side conditions that define them"""

    def __init__(self):
        self.expr = {}       # atom id -> z3 real expression
        self.invx = {}       # atom id -> z3 expression for 1/atom
        self.side = {}       # atom id -> [z3 constraints]
        self.dep = {}        # atom id -> set of atom ids
        self.trig = {}       # Poly arg -> (c, s)
        self.bv = {}
        self.nonlin = set()
        self.polys = {}      # Poly -> (z3 expression, atoms)
        self.cmps = {}       # (op, Poly) -> z3 formula

    def q(self, c):
        c = Fraction(c)
        return z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)

    def poly(self, p, used):
        r = self.polys.get(p)
        if r is None:
            u = set()
            r = self.polys[p] = (self.poly1(p, u), u)
        used |= r[1]
        return r[0]

    def poly1(self, p, used):
        terms = []
        for m, c in p.d.items():
            t = None if c == 1 and m else self.q(c)
            for a, e in m:
                if e > 0:
                    x = self.atom(a, used)
                else:
                    x = self.inverse(a, used)
                for _ in range(abs(e)):
                    t = x if t is None else t * x
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def inverse(self, a, used):
        used.add(a)
        if a not in self.invx:
            at = ATOMS[a]
            ix = z3.Real('inv!%d' % a)
            self.invx[a] = ix
            u = set()
            base = self.poly(at.args[0], u) if at.kind == 'den' else self.atom(a, u)
            self.side.setdefault(a, [])
            self.side[a] = self.side[a] + [ix * base == 1]
            self.dep[a] = self.dep.get(a, set()) | u
            if at.kind == 'den':
                self.expr[a] = base
        return self.invx[a]

    def atom(self, a, used):
        used.add(a)
        if a in self.expr:
            return self.expr[a]
        at = ATOMS[a]
        k = at.kind
        u = set()
        side = []
        if k == 'var' or k == 'app':
            nm = '%s!%d' % (at.args[0], a)
            if at.is_int:
                x = z3.ToReal(z3.Int(nm))
            else:
                x = z3.Real(nm)
            if at.nonneg:
                side.append(x >= 0)
            if k == 'app':
                for x_ in at.args[1:]:
                    if isinstance(x_, Poly):
                        self.poly(x_, u)
        elif k == 'K':
            x = z3.Real('K')
            side += [x > z3.Q(1745329251, 10 ** 11), x < z3.Q(1745329252, 10 ** 11)]
        elif k == 'den':
            x = self.poly(at.args[0], u)
        elif k == 'sqrt':
            x = z3.Real('sqrt!%d' % a)
            q = self.poly(at.args[0], u)
            side += [x >= 0, x * x == q]
        elif k in ('cos', 'sin'):
            arg = at.args[0]
            if arg not in self.trig:
                i = len(self.trig)
                self.trig[arg] = (z3.Real('cos!%d' % i), z3.Real('sin!%d' % i))
            c, s = self.trig[arg]
            x = c if k == 'cos' else s
            side += [c * c + s * s == 1]
            side += [x <= 1, x >= -1]
            cst = const_angle(arg)
            if cst is not None:
                import math
                v = math.cos(cst) if k == 'cos' else math.sin(cst)
                lo, hi = Fraction(v) - Fraction(1, 10 ** 12), Fraction(v) + Fraction(1, 10 ** 12)
                side += [x >= self.q(lo), x <= self.q(hi)]
        elif k == 'atan2':
            x = z3.Real('atan2!%d' % a)
            y_, x_ = self.poly(at.args[0], u), self.poly(at.args[1], u)
            kk = self.atom(P.lead(P.K)[0][0][0], u)
            side += [x <= 180 * kk, x > -180 * kk,
                     z3.Implies(y_ > 0, z3.And(x > 0, x < 180 * kk)), z3.Implies(y_ < 0, x < 0),
                     z3.Implies(z3.And(y_ == 0, x_ > 0), x == 0),
                     z3.Implies(z3.And(y_ == 0, x_ < 0), x == 180 * kk)]
        elif k == 'abs':
            q = self.poly(at.args[0], u)
            x = z3.If(q >= 0, q, -q)
        elif k in ('min', 'max'):
            qs = [self.poly(q, u) for q in at.args]
            x = qs[0]
            for q in qs[1:]:
                x = z3.If(q < x, q, x) if k == 'min' else z3.If(q > x, q, x)
        elif k == 'ite':
            f = self.formula(at.args[0], u)
            x = z3.If(f, self.poly(at.args[1], u), self.poly(at.args[2], u))
        elif k == 'quo':
            n = z3.Int('quo!%d' % a)
            x = z3.ToReal(n)
            a_, m_ = self.poly(at.args[0], u), self.poly(at.args[1], u)
            if at.args[1].is_const():
                if at.args[1].const() > 0:
                    side += [m_ * x <= a_, a_ < m_ * (x + 1)]
                else:
                    side += [m_ * x >= a_, a_ > m_ * (x + 1)]
            else:
                side += [z3.If(m_ > 0, z3.And(m_ * x <= a_, a_ < m_ * (x + 1)),
                               z3.And(m_ * x >= a_, a_ > m_ * (x + 1)))]
        elif k == 'rnd':
            n = at.args[1]
            q = self.poly(at.args[0], u)
            if n == 0:
                x = z3.ToReal(z3.Int('rnd!%d' % a))
            else:
                x = z3.Real('rnd!%d' % a)
            h = self.q(Fraction(1, 2) / Fraction(10) ** n)
            side += [x - q <= h, q - x <= h]
        else:
            raise NotImplementedError(k)
        self.expr[a] = x
        self.side[a] = self.side.get(a, []) + side
        self.dep[a] = self.dep.get(a, set()) | u
        return x

    def formula(self, f, used):
        if f is True or f is False:
            return z3.BoolVal(f)
        if isinstance(f, Cmp):
            x = self.poly(f.p, used)
            r = self.cmps.get((f.op, f.p))
            if r is None:
                t = whole(f.p) if f.op != '==' else None
                if t is not None:
                    # an integer: strict bounds are tightened, for solvers that see it as a real number
                    y = self.poly(t, used)
                    r = y <= -1 if f.op == '<' else y <= 0 if f.op == '<=' else z3.Or(y <= -1, y >= 1)
                else:
                    r = x < 0 if f.op == '<' else x <= 0 if f.op == '<=' else x == 0 if f.op == '==' else x != 0
                self.cmps[f.op, f.p] = r
            return r
        if isinstance(f, Junct):
            fs = [self.formula(g, used) for g in f.fs]
            return z3.And(fs) if f.kind == 'and' else z3.Or(fs)
        if isinstance(f, BVar):
            if f.name not in self.bv:
                self.bv[f.name] = z3.Bool(f.name)
            return z3.Not(self.bv[f.name]) if f.neg else self.bv[f.name]
        raise NotImplementedError(type(f))

    def closure(self, used):
        """all atoms reachable from used"""
        seen = set()
        todo = list(used)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            todo.extend(self.dep.get(a, ()))
        return seen

    def side_of(self, seen):
        out = []
        for a in seen:
            out.extend(self.side.get(a, ()))
        # pairs of const_angle etc: congruence of applications
        apps = {}
        for a in seen:
            at = ATOMS[a]
            if at.kind == 'app' and any(isinstance(x, Poly) for x in at.args[1:]):
                apps.setdefault((at.args[0], len(at.args)), []).append(a)
        for lst in apps.values():
            for i in range(len(lst)):
                for j in range(i):
                    A, B = ATOMS[lst[i]], ATOMS[lst[j]]
                    conds = []
                    ok = True
                    for x, y in zip(A.args[1:], B.args[1:]):
                        if isinstance(x, Poly) and isinstance(y, Poly):
                            d = x - y
                            if d.is_const():
                                if d.const() != 0:
                                    ok = False
                                    break
                                continue
                            conds.append(self.poly(d, set()) == 0)
                        elif x != y:
                            ok = False
                            break
                    if ok:
                        out.append(z3.Implies(z3.And(conds) if conds else z3.BoolVal(True),
                                              self.expr[lst[i]] == self.expr[lst[j]]))
        return out


def const_angle(arg):
    """numeric radians of a constant multiple of K"""
    if len(arg.d) == 1:
        (m, c), = arg.d.items()
        if m == P.lead(P.K)[0]:
            import math
            return float(c) * math.pi / 180
    return None


ENV = Z3Env()


class Stats:
    def __init__(self):
        self.time = 0.0
        self.calls = 0


STATS = Stats()

ABSTRACT_KINDS = {'cos', 'sin', 'atan2', 'rnd', 'app', 'K'}


def _check(s):
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.time += time.time() - t
    STATS.calls += 1
    return r


def whole(p):
    """the positive multiple of p with coprime integer coefficients, if p is a combination of integers"""
    cs = [Fraction(c) for c in p.d.values()]
    if not cs or not P.poly_is_int(Poly({m: Fraction(1) for m in p.d})):
        return None
    k = Fraction(math.lcm(*[c.denominator for c in cs]), math.gcd(*[c.numerator * (math.lcm(*[d.denominator for d in cs]) // c.denominator) for c in cs]))
    return p.scale(k) if k > 0 else None


def assertions(fs):
    used = set()
    zs = [ENV.formula(f, used) for f in fs]
    seen = ENV.closure(used)
    zs += ENV.side_of(seen)
    return zs, seen


_VARS = {}


def atoms_in(f):
    """every atom of a formula, nested ones included"""
    k = id(f)
    r = _VARS.get(k)
    if r is not None and r[0] is f:
        return r[1]
    out = set()
    todo = list(f.polys()) if isinstance(f, F) and not isinstance(f, Junct) else []
    if isinstance(f, Junct):
        for g in f.fs:
            if isinstance(g, F):
                out |= atoms_in(g)
    while todo:
        q = todo.pop()
        for m in q.d:
            for a, _ in m:
                if a not in out:
                    out.add(a)
                    todo.extend(x for x in ATOMS[a].args if isinstance(x, P.Poly))
    _VARS[k] = (f, out)
    return out


def component(pc, f):
    """the conjuncts of pc connected to f through shared atoms"""
    near, rest = [], [(g, atoms_in(g)) for g in pc]
    have = set(atoms_in(f))
    while True:
        far = []
        for g, s in rest:
            if s & have or not s:
                near.append(g)
                have |= s
            else:
                far.append((g, s))
        if len(far) == len(rest):
            return near
        rest = far


def int_only(f):
    """is f about integers only (indices, counts)"""
    return all(ATOMS[a].is_int or ATOMS[a].kind == 'quo' for a in atoms_in(f))


def feasible(near, f, ms=250):
    """quick_sat of f under the conjuncts near; facts about integers are decided by facts about integers"""
    if isinstance(f, F) and atoms_in(f) and int_only(f):
        near = [g for g in near if int_only(g)]
    return quick_sat(near + [f], ms)


def quick_sat(fs, ms=250):
    """'sat' / 'unsat' / 'unknown' of a conjunction"""
    zs, _ = assertions(fs)
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(zs)
    return str(_check(s))


def has_ints(seen):
    return any(ATOMS[a].is_int or ATOMS[a].kind == 'quo' for a in seen)


def model_values(m, seen):
    vals = {}
    for a in seen:
        at = ATOMS[a]
        if at.kind != 'var':
            continue
        e = ENV.expr.get(a)
        if e is None:
            continue
        v = m.eval(e, model_completion=True)
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(30)
            vals[at.args[0]] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        except Exception:
            pass
    return vals


MONO = {}


def linear_unsat(fs, ms=400):
    """unsatisfiable already when every non-linear monomial is an unrelated variable (linear arithmetic only)"""
    used = set()
    nonlin = [False]

    def poly(p):
        terms = []
        for m, c in p.d.items():
            if not m:
                terms.append(ENV.q(c))
                continue
            x = MONO.get(m)
            if x is None:
                x = MONO[m] = z3.Real('m!%d' % len(MONO))
            used.add(m)
            if len(m) > 1 or m[0][1] != 1:
                nonlin[0] = True
            terms.append(x if c == 1 else ENV.q(c) * x)
        return z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else z3.RealVal(0)

    def formula(f):
        if f is True or f is False:
            return z3.BoolVal(f)
        if isinstance(f, Cmp):
            x = poly(f.p)
            return x < 0 if f.op == '<' else x <= 0 if f.op == '<=' else x == 0 if f.op == '==' else x != 0
        if isinstance(f, Junct):
            gs = [formula(g) for g in f.fs]
            return z3.And(gs) if f.kind == 'and' else z3.Or(gs)
        return z3.Bool('b!' + f.name) if not f.neg else z3.Not(z3.Bool('b!' + f.name))
    try:
        zs = [formula(f) for f in fs]
    except Exception:
        return False
    if not nonlin[0]:
        return False            # linear anyway
    s = z3.SimpleSolver()
    s.set('timeout', ms)
    s.add(zs)
    s.add([MONO[m] >= 0 for m in used if P.mono_nonneg(m)])
    return _check(s) == z3.unsat


def refute(fs, ms=3000, tiers=(0, 1, 2)):
    """
    Try to show the conjunction fs unsatisfiable.
    Returns ('unsat', backend) | ('sat', model-values, definite) | ('unknown', reason)
    """
    if linear_unsat(fs):
        return 'unsat', 'z3-linear'
    zs, seen = assertions(fs)
    definite = not any(ATOMS[a].kind in ABSTRACT_KINDS for a in seen)
    ints = has_ints(seen)
    reason = ''
    for tier in tiers:
        if tier == 0:
            s = z3.Solver()
            s.set('timeout', ms)
        elif tier == 1:
            if ints:
                continue
            try:
                s = z3.Then(z3.With('simplify', som=True), 'propagate-values', 'solve-eqs', 'elim-term-ite', 'purify-arith',
                            'qfnra-nlsat').solver()
            except z3.Z3Exception:
                continue
            s.set('timeout', ms * 2)
        else:
            r = cvc5_check(zs, ms * 2)
            if r == 'unsat':
                return 'unsat', 'cvc5'
            reason += ' cvc5:' + r
            continue
        s.add(zs)
        r = _check(s)
        if r == z3.unsat:
            return 'unsat', 'z3' if tier == 0 else 'z3-nlsat'
        if r == z3.sat:
            try:
                return 'sat', model_values(s.model(), seen), definite
            except z3.Z3Exception:
                return 'sat', {}, definite
        reason += ' z3[%d]:%s' % (tier, s.reason_unknown())
    return 'unknown', reason


def cvc5_check(zs, ms):
    try:
        import cvc5
    except ImportError:
        return 'unavailable'
    t = time.time()
    try:
        s = z3.Solver()
        s.add(zs)
        txt = s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(int(ms)))
        slv.setOption('nl-ext-tplanes', 'true')
        slv.setOption('nl-cov', 'true') if False else None
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        symm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, symm)
            if 'check-sat' in str(cmd):
                res = str(out).strip()
        return res or 'unknown'
    except Exception as e:      # parse problems, resource limits
        return 'error %s' % type(e).__name__
    finally:
        STATS.time += time.time() - t
        STATS.calls += 1


def near_zero_poly(p, scale):
    """All coefficients negligible with respect to `scale` (rounded constants)"""
    return all(abs(c) <= Fraction(1, 10 ** 11) * scale for c in p.d.values())
