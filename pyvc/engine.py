"""
Symbolic execution of harnesses over the real code, and the concrete twin of the same harnesses.

A harness is a function h(v).  `v` draws inputs (v.real, v.choice, ...), states preconditions (v.assume), calls the
functions under contract through v.m (the loaded modules) and states postconditions (v.check / v.eq / v.le ...).
 * SymV   explores every path with symbolic inputs and discharges each postcondition for all values;
 * ConV   runs it once on concrete inputs (replay of a counter-model, or seeded) against the plain modules.
"""
import math
import random
import random as _random
import time
import traceback
from fractions import Fraction
import numpy as np
from . import poly as P
from . import sym
from . import solve
from . import seq
from . import grid
from .seq import Restart
from .sym import SymReal, F, Cmp, Junct, cmp0, f_and, f_or, f_not, Unsupported, wrap, to_poly


class PathDone(BaseException):
    """the path ends here with everything on it decided (one step of a loop with an invariant)"""


class PathAbort(BaseException):
    """path infeasible / assumption false"""


class Budget(BaseException):
    pass


class Violated(BaseException):
    """concrete mode: a postcondition is false"""
    def __init__(self, label, detail=''):
        super().__init__('%s: %s' % (label, detail))
        self.label = label
        self.detail = detail


def is_true_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating)) and not isinstance(x, bool)


# ------------------------------------------------------------------------------------------------ symbolic
class Witnesses:
    """Random assignments that satisfy the path condition so far: they answer most feasibility questions
    without a solver.  Only exploration depends on them, never a proof."""

    def __init__(self, n=160):
        self.envs = [_WEnv(i) for i in range(n)]

    def add(self, f):
        if self.envs:
            self.envs = [e for e in self.envs if e.holds(f)]

    def sat(self, f):
        for e in self.envs:
            if e.holds(f):
                return True
        return False


class _WEnv(dict):
    def __init__(self, i):
        super().__init__()
        self.rng = _random.Random(7919 * i + 1)
        self.span, self.scale = ((2, 1.0), (24, 0.5), (1, 1.0), (24, 0.125))[i % 4]

    def holds(self, f):
        try:
            return self._holds(f)
        except (KeyError, ArithmeticError, ValueError, TypeError, AttributeError):
            return False

    def _holds(self, f):
        if f is True or f is False:
            return f
        if isinstance(f, Junct):
            if f.kind == 'and':
                return all(self._holds(g) for g in f.fs)
            return any(self._holds(g) for g in f.fs)
        if isinstance(f, Cmp):
            x = self.value(f.p)
            if f.op == '<':
                return x < -1e-9
            if f.op == '<=':
                return x <= 1e-12
            if f.op == '==':
                return abs(x) <= 1e-12
            if f.op == '!=':
                return abs(x) > 1e-9
        raise KeyError(f)

    def value(self, p):
        tot = 0.0
        for m, c in p.d.items():
            t = float(c)
            for a, e in m:
                t *= self.atom(a) ** e
            tot += t
        return tot

    def atom(self, a):
        r = self.get(a)
        if r is None:
            at = P.ATOMS[a]
            if at.kind in ('var', 'app', 'bvar'):
                r = self.rng.randint(-self.span, self.span)
                r = float(r % 5) if at.is_int else r * self.scale
                if at.nonneg:
                    r = abs(r)
            else:
                for q in at.args:
                    if isinstance(q, P.Poly):
                        for m in q.d:
                            for b, _ in m:
                                self.atom(b)
                r = P._eval_atom(at, self)
            self[a] = r
        return r


def atoms_in(f):
    out = set()
    if isinstance(f, Junct):
        for g in f.fs:
            out |= atoms_in(g)
    elif isinstance(f, sym.BVar):
        out.add(('flag', f.name))
    else:
        for p in f.polys():
            out |= P.atoms_of(p)
    return out


class Path:
    """State of one path"""

    def __init__(self, prefix, ex):
        self.prefix = prefix
        self.ex = ex
        self.trace = []
        self.pc = []
        self.facts = {}
        self.subs = {}
        self.inputs = {}
        self.tokens = False
        self.counter = 0
        self.quiet = False        # inside a concretely summarised loop etc.
        self.wit = Witnesses()
        self.active = []          # foci of the loops being executed
        self.collect = []         # what the generators being listed have yielded
        self.carried = []         # (class, make, invariant) of objects carried by loops
        self.open = set()         # sites of loops that were entered and not finished
        self.varies = []          # (object, attribute) that any iteration of a loop may change
        self.tokens = {}          # unknown key -> (block of a dictionary, index)
        self.foci = {}
        self.loops = 0
        self.forks = 0            # decisions, so far, that may go differently for another element of a sequence
        self.taint = set()        # the formulas those decisions added
        self.taint_atoms = set()
        self.seqs = []            # (name, tag, index) of the elements drawn from sequences of symbolic length

    def rename(self, model):
        """element names of a model, by index: for the replay"""
        if not model or not self.seqs:
            return model
        from .seq import key
        out = dict(model)
        env = {}
        for nm, x in model.items():
            a = P.var_index(nm)
            if a is not None:
                env[a] = float(x)
        for name, tag, i in self.seqs:
            p = to_poly(i)
            try:
                val = 0.0
                for m, c in p.d.items():
                    t = float(c)
                    for a, e in m:
                        t *= env.get(a, 0.0) ** e
                    val += t
                val = int(round(val))
            except (ArithmeticError, ValueError):
                continue
            pre = '%s.%s' % (name, tag)
            for nm, x in model.items():
                if nm == pre or nm.startswith(pre + '.'):
                    out['%s.%d%s' % (name, val, nm[len(pre):])] = x
        return out

    def fresh(self, base):
        self.counter += 1
        return '%s#%d' % (base, self.counter)

    def add(self, f):
        if f is True:
            return
        if isinstance(f, Junct) and f.kind == 'and':
            for g in f.fs:
                self.add(g)
            return
        known = self.facts.get(f.key())
        if known:
            return
        self.pc.append(f)
        if known is False:
            return
        self.wit.add(f)
        self.facts[f.key()] = True
        n = f_not(f)
        if isinstance(n, F):
            self.facts[n.key()] = False
        if isinstance(f, Cmp):
            if f.op == '<':
                self.facts[('<=', f.p)] = True
                for e in (cmp0('==', f.p),):
                    if isinstance(e, F):
                        self.facts[e.key()] = False
                        self.facts[f_not(e).key()] = True
            elif f.op == '==':
                for e in (cmp0('<=', f.p), cmp0('<=', -f.p)):
                    if isinstance(e, F):
                        self.facts[e.key()] = True
                for e in (cmp0('<', f.p), cmp0('<', -f.p)):
                    if isinstance(e, F):
                        self.facts[e.key()] = False

    def add_checked(self, f):
        if f is False or self.known(f) is False:
            raise PathAbort()
        self.add(f)

    def known(self, f):
        if f is True or f is False:
            return f
        r = self.facts.get(f.key())
        if r is not None:
            return r
        if isinstance(f, Junct):
            rs = [self.known(g) for g in f.fs]
            if f.kind == 'and':
                if False in rs:
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if True in rs:
                    return True
                if all(r is False for r in rs):
                    return False
        return None

    def decide(self, f):
        r = self.known(f)
        if r is not None:
            if self.taint_atoms and isinstance(f, F) and self.taint_atoms & atoms_in(f):
                self.forks += 1
            return r
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            return self.decided(f if v & 1 else f_not(f), v)
        ex = self.ex
        ex.tick()
        nf = f_not(f)
        near = solve.component(self.pc, f)
        a = 'sat' if self.wit.sat(f) else solve.feasible(near, f, ex.feas_ms)
        if a == 'unsat':
            v = 2
        else:
            b = 'sat' if self.wit.sat(nf) else solve.feasible(near, nf, ex.feas_ms)
            if b == 'unsat':
                v = 3
            else:
                ex.push(self.trace + [0])
                v = 1
        if v & 2 and self.taint and any(g.key() in self.taint for g in near):
            v -= 2
        self.trace.append(v)
        return self.decided(f if v & 1 else nf, v)

    def implied(self, f):
        """does f hold on this path, as far as a quick query can tell"""
        r = self.known(f)
        if r is not None:
            if self.taint_atoms & atoms_in(f):
                self.forks += 1
            return r
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            near = solve.component(self.pc, f)
            v = 1 if not self.wit.sat(f_not(f)) and solve.feasible(near, f_not(f), self.ex.feas_ms) == 'unsat' else 0
            if not (self.taint and any(g.key() in self.taint for g in near)):
                v += 2
        self.trace.append(v)
        if not v & 2 and self.foci:
            self.forks += 1
        if v & 1:
            self.add(f)
        return bool(v & 1)

    def decided(self, f, v):
        """v: bit 0 the outcome, bit 1 whether it is the same for every element of every sequence"""
        if self.foci and not v & 2:
            self.forks += 1
            if isinstance(f, F):
                for g in f.fs if isinstance(f, Junct) and f.kind == 'and' else [f]:
                    self.taint.add(g.key())
                    self.taint_atoms |= atoms_in(g)
        self.add(f)
        return bool(v & 1)

    def choose(self, n):
        """n-way choice"""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.ex.push(self.trace + [k])
        self.trace.append(v)
        if self.foci:
            self.forks += 1
        return v

    def concretize_int(self, x):
        raise Unsupported('symbolic integer used as an index')


class Obl:
    __slots__ = ('label', 'status', 'backend', 'model', 'definite', 'reason', 'inputs', 'time', 'holds_at_model')

    def __init__(self, label, status, backend='', model=None, definite=False, reason='', inputs=None, t=0.0):
        self.label = label
        self.status = status          # proved | refuted | unknown | raised
        self.backend = backend
        self.model = model
        self.definite = definite
        self.reason = reason
        self.inputs = inputs
        self.time = t
        self.holds_at_model = False


class Explorer:
    def __init__(self, harness, mods, budget_s=60.0, max_paths=4000, prove_ms=2500, feas_ms=100):
        self.harness = harness
        self.mods = mods
        self.work = [[]]
        self.obls = []
        self.paths = 0
        self.infeasible = 0
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.incomplete = None
        self.unsupported = []
        self.memo = {}
        self.covered = set()
        self.hard_failures = 0
        self.assumptions = set()
        self.abandoned = set()    # loops left early on some path
        self.changing = set()     # loops that change the elements they go over
        self.hints = set()        # what is known about the loops over symbolic sequences (grows; see seq.py)
        self.shapes = {}
        self.restarts = 0

    def restart(self):
        self.restarts += 1
        self.work = [[]]
        self.obls = []
        self.paths = self.infeasible = 0
        self.unsupported = []
        self.covered = set()
        self.hard_failures = 0
        self.shapes = {}
        if self.restarts > 60:
            self.work = []
            self.incomplete = 'loop invariants not found'

    def push(self, prefix):
        self.work.append(prefix)

    def tick(self):
        if time.time() > self.deadline:
            raise Budget('time')

    def run(self):
        while self.work:
            if self.paths >= self.max_paths:
                self.incomplete = 'path limit %d' % self.max_paths
                break
            if self.hard_failures >= 6:
                self.incomplete = 'stopped after %d failing obligations' % self.hard_failures
                break
            prefix = self.work.pop()
            path = Path(prefix, self)
            sym.ctx.cur = path
            v = SymV(path, self)
            try:
                self.tick()
                self.harness(v)
                self.paths += 1
            except PathAbort:
                self.infeasible += 1
            except PathDone:
                self.paths += 1
            except Restart:
                self.restart()
            except Budget as b:
                self.incomplete = 'budget: %s' % b
                break
            except Unsupported as u:
                self.unsupported.append('%s %s' % (u, path.inputs_text()) if hasattr(path, 'inputs_text') else str(u))
                if len(self.unsupported) > 20:
                    self.incomplete = 'unsupported constructs'
                    break
            except RecursionError:
                self.unsupported.append('recursion limit')
            except Exception as e:
                try:
                    if solve.refute(path.pc, 2500, tiers=(0, 1))[0] == 'unsat':
                        self.infeasible += 1
                        continue
                except Exception:
                    pass
                self.paths += 1
                tb = traceback.extract_tb(e.__traceback__)
                where = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-4:]))
                st = self.model_of(path)
                self.obls.append(Obl('no unexpected exception', 'raised', '', st, False,
                                     '%s: %s at %s' % (type(e).__name__, e, where), dict(path.inputs)))
                self.hard_failures += 1
            finally:
                sym.ctx.cur = None
                self.abandoned |= path.open
                for site in sorted(path.open & self.changing):
                    self.unsupported.append('a loop that changes its elements is left early at %s' % (site,))
        for site in sorted(self.abandoned & self.changing):
            self.unsupported.append('a loop that changes its elements is left early at %s' % (site,))
        return self

    def model_of(self, path):
        try:
            r = solve.refute(path.pc, 1500, tiers=(0, 1))
            if r[0] == 'sat':
                return r[1]
        except Exception:
            pass
        return None

    def prove(self, path, label, f):
        """one obligation: path condition entails f"""
        if f is True:
            self.obls.append(Obl(label, 'proved', 'evaluation'))
            return True
        if isinstance(f, Junct) and f.kind == 'and':
            return all([self.prove(path, label, g) for g in f.fs])
        t0 = time.time()
        if f is not False and path.known(f) is True:
            self.obls.append(Obl(label, 'proved', 'path-fact'))
            return True
        key = (frozenset(g.key() for g in path.pc), f if f is False else f.key())
        if key in self.memo:
            o = self.memo[key]
            self.obls.append(Obl(label, o.status, o.backend, o.model, o.definite, o.reason, dict(path.inputs)))
            if o.status == 'refuted':
                self.hard_failures += 1
            return o.status == 'proved'
        self.tick()
        status, backend, model, definite, reason = self._prove(path, f)
        if path.seqs or path.foci:
            model, definite = path.rename(model), False
        o = Obl(label, status, backend, model, definite, reason, dict(path.inputs), time.time() - t0)
        self.memo[key] = o
        self.obls.append(o)
        if status == 'refuted':
            self.hard_failures += 1
        return status == 'proved'

    def _prove(self, path, f):
        if isinstance(f, Cmp) and f.op == '==':
            # rounded constants: all coefficients negligible
            if solve.near_zero_poly(f.p, f_scale(f)):
                return 'proved', 'normal-form(rounded constants)', None, True, ''
            p = simplify_by_equalities(path, f.p)
            if p is not None and p != f.p:
                g = sym.eq0(p)
                if g is True or (isinstance(g, Cmp) and solve.near_zero_poly(g.p, f_scale(f))):
                    return 'proved', 'normal-form(equalities)', None, True, ''
        goal = [] if f is False else [f_not(f)]
        r = solve.refute(path.pc + goal, self.prove_ms)
        if r[0] == 'unsat':
            return 'proved', r[1], None, True, ''
        if r[0] == 'sat':
            return 'refuted', 'z3', r[1], r[2], ''
        # retry with the relevant part of the path condition only
        rel = relevant(path.pc, goal)
        if len(rel) < len(path.pc):
            r2 = solve.refute(rel + goal, self.prove_ms, tiers=(0, 1))
            if r2[0] == 'unsat':
                return 'proved', r2[1] + '(sliced)', None, True, ''
        return 'unknown', '', None, False, r[1]


_SCALE = {}


def f_scale(f):
    return Fraction(1)


def relevant(pc, goal):
    if not goal:
        return pc
    want = set()
    for g in goal:
        for p in g.polys():
            P.atoms_of(p, want)
    want = {a for a in want if P.ATOMS[a].kind != 'K'}
    return [g for g in pc if {a for p in g.polys() for a in P.atoms_of(p)} & want]


def simplify_by_equalities(path, p):
    """Use path facts x == poly (x a variable occurring linearly with a constant coefficient) to rewrite p"""
    env = {}
    for f in path.pc:
        if isinstance(f, Cmp) and f.op == '==':
            q = P.subst(f.p, env) if env else f.p
            best = None
            for m, c in q.d.items():
                if len(m) == 1 and m[0][1] == 1 and P.ATOMS[m[0][0]].kind == 'var':
                    a = m[0][0]
                    rest = P.Poly({k: x for k, x in q.d.items() if k != m})
                    if a not in P.atoms_of(rest):
                        best = (a, rest.scale(Fraction(-1) / c))
                        if not P.ATOMS[a].is_int:
                            break
            if best:
                a, e = best
                try:
                    env = {k: P.subst(x, {a: e}) for k, x in env.items()}
                except ZeroDivisionError:
                    return None
                env[a] = e
    if not env:
        return None
    try:
        r = P.subst(p, env)
        return P.clear(r)
    except ZeroDivisionError:
        return None


class BaseV:
    mode = None

    def implies(self, a, b):
        return f_or(f_not(a), b)

    def iff(self, a, b):
        if isinstance(a, F) or isinstance(b, F):
            return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))
        return bool(a) == bool(b)

    def and_(self, *fs):
        return f_and(*fs)

    def or_(self, *fs):
        return f_or(*fs)

    def not_(self, f):
        return f_not(f)

    def reals(self, names, **kw):
        return [self.real(n, **kw) for n in names.split()]

    def check_type(self, label, obj, cls):
        self.check(label + ' [type %s]' % cls.__name__, type(obj) is cls)

    def raises(self, label, exc, fn, *args, **kw):
        """fn(*args) must raise exc (and nothing else)"""
        try:
            r = fn(*args, **kw)
        except exc:
            self.check(label, True)
            return True
        self.check(label + ' (must raise, returned %s)' % type(r).__name__, False)
        return False

    def eq(self, label, a, b):
        """equality of numbers / tuples / lists / None / strings / booleans"""
        if isinstance(a, np.ndarray):
            a = a.tolist()
        if isinstance(b, np.ndarray):
            b = b.tolist()
        if seq.is_sym(a) or seq.is_sym(b):
            a, b = seq.as_seq(a), seq.as_seq(b)
            self.num_eq(label + ': length', a.length(), b.length())
            for i, x in seq.every(a):
                self.eq(label, x, b.at(i))
            return
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                self.check('%s: length %d vs %d' % (label, len(a), len(b)), False)
                return
            for x, y in zip(a, b):
                self.eq(label, x, y)
            if not a:
                self.check(label, True)
            return
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)) or isinstance(a, F) or isinstance(b, F):
            if any(x is None or isinstance(x, (str, bytes, tuple, list, dict)) for x in (a, b)):     # not a truth value
                self.check('%s: %r vs %r' % (label, a, b), False)
                return
            self.check(label, self.iff(a, b))
            return
        if sym.is_num(a) and sym.is_num(b):
            self.num_eq(label, a, b)
            return
        if isinstance(a, dict) and isinstance(b, dict):
            self.check(label + ' keys', list(a) == list(b))
            for k in a:
                if k in b:
                    self.eq(label, a[k], b[k])
            return
        if a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type)):
            self.check('%s: %r vs %r' % (label, a, b) if not (a == b) else label, a == b)
            return
        raise TypeError('v.eq cannot compare %r and %r' % (type(a), type(b)))

    def same(self, label, a, b):
        """identity"""
        self.check(label, a is b)


def near_eq(p, q):
    d = p - q
    if not d.d:
        return True
    scale = max([abs(Fraction(c)) for c in p.d.values()] + [abs(Fraction(c)) for c in q.d.values()] + [Fraction(1)])
    if solve.near_zero_poly(d, scale):
        return True
    return any(e < 0 for m in d.d for _, e in m) and sym.eq0(d) is True


class Seq:
    """a drawn list: .list for the code, .n, .at(i) the specification of element i"""
    def __init__(self, lst, n, at):
        self.list = lst
        self.n = n
        self.at = at

    def cyc(self, i):
        """element i mod n, for -n <= i < 2n"""
        return self.at(seq.wrap_index(i, self.n))


class Dict(Seq):
    """a drawn dictionary: .dict for the code, .n, .at(i) specification and .key(i) key of entry i"""
    def __init__(self, d, n, at, key):
        Seq.__init__(self, None, n, at)
        self.dict = d
        self.key = key

    def twin(self, f):
        """a dictionary with the same keys in the same order; f(specification) -> (value, specification)"""
        if not isinstance(self.dict, seq.SymDict):
            es = [f(self.at(i)) for i in range(self.n)]
            return Dict({k: e for k, (e, _) in zip(self.dict, es)}, self.n, lambda i: es[i][1], self.key)
        p, = self.dict.seq.parts
        specs = {}

        def make(i):
            k = self.key(i)
            e, specs[k] = f(self.at(i))
            return [(k, e)]
        b = seq.Blk(self.n, make, name=p.name)
        b.src = (p, 0)
        return Dict(seq.SymDict(seq.SymSeq([b])), self.n, lambda i: specs[b.get(i)[0][0]], self.key)


class SymV(BaseV):
    mode = 'sym'
    symbolic = True

    def __init__(self, path, ex):
        self.path = path
        self.ex = ex
        self.m = ex.mods

    def real(self, name, lo=None, hi=None, nonneg=False, nonzero=False, pos=False):
        x = SymReal(P.var(name, False, nonneg or pos or (lo is not None and lo >= 0)))
        self.path.inputs.setdefault(name, None)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        if nonzero:
            self.assume(x != 0)
        if pos:
            self.assume(x > 0)
        return x

    def integer(self, name, lo=None, hi=None):
        x = SymReal(P.var(name, True, lo is not None and lo >= 0))
        self.path.inputs.setdefault(name, None)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def choice(self, name, options):
        options = list(options)
        i = self.path.choose(len(options))
        self.path.inputs[name] = i
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, cond, note=None):
        if cond is True or cond is np.True_:
            return
        if cond is False or not isinstance(cond, F):
            if not cond:
                raise PathAbort()
            return
        k = self.path.known(cond)
        if k is True:
            return
        if k is False:
            raise PathAbort()
        if len(self.path.trace) >= len(self.path.prefix):
            if not self.path.wit.sat(cond) and \
                    solve.quick_sat(solve.component(self.path.pc, cond) + [cond], self.ex.feas_ms) == 'unsat':
                raise PathAbort()
        self.path.add(cond)

    def generic(self, cond):
        """assumption for concrete runs only (numerical conditioning)"""

    def check(self, label, cond):
        if isinstance(cond, (bool, np.bool_)):
            cond = bool(cond)
        elif not isinstance(cond, F):
            cond = bool(cond)
        self.ex.covered.add(label)
        return self.ex.prove(self.path, label, cond)

    def lemma(self, label, cond):
        """a postcondition that later obligations may use"""
        if self.check(label, cond) and isinstance(cond, F):
            self.path.add(cond)

    def num_eq(self, label, a, b):
        pa, pb = to_poly(a), to_poly(b)
        if pa is None or pb is None:
            self.check(label, a == b)
            return
        d = pa - pb
        if d.d and not d.is_const() or d.d:
            scale = max([abs(Fraction(c)) for c in pa.d.values()] + [abs(Fraction(c)) for c in pb.d.values()] + [0])
            scale = max(Fraction(scale), 1)
            if solve.near_zero_poly(d, scale):
                self.ex.covered.add(label)
                self.ex.obls.append(Obl(label, 'proved', 'normal-form(rounded constants)'))
                return
        f = sym.eq0(d)
        if f is True:
            self.ex.covered.add(label)
            self.ex.obls.append(Obl(label, 'proved', 'normal-form'))
            return
        self.check(label, f)

    def le(self, label, a, b):
        self.check(label, a <= b)

    def lt(self, label, a, b):
        self.check(label, a < b)

    # mathematics for specifications
    def sqrt(self, x):
        p = to_poly(x)
        return wrap(P.sqrt(p))

    def hypot(self, x, y):
        return self.sqrt(x * x + y * y)

    def cosd(self, deg):
        return wrap(P.cos_sin(to_poly(deg) * P.K)[0])

    def sind(self, deg):
        return wrap(P.cos_sin(to_poly(deg) * P.K)[1])

    def cosr(self, rad):
        return wrap(P.cos_sin(to_poly(rad))[0])

    def sinr(self, rad):
        return wrap(P.cos_sin(to_poly(rad))[1])

    @property
    def tau(self):
        return wrap(P.K.scale(360))

    @property
    def deg(self):
        """radians per degree"""
        return wrap(P.K)

    def min(self, *xs):
        return wrap(P.mk_min([to_poly(x) for x in xs]))

    def max(self, *xs):
        return wrap(P.mk_max([to_poly(x) for x in xs]))

    def abs(self, x):
        return abs(x)

    def ite(self, c, a, b):
        if not isinstance(c, F):
            return a if c else b
        return wrap(P.mk_ite(c, to_poly(a), to_poly(b)))

    def floordiv(self, a, b):
        return wrap(P.mk_quo(to_poly(a), to_poly(b)))

    def app(self, name, *args):
        """an arbitrary function of its arguments (uninterpreted)"""
        return wrap(P.mk_app(name, [to_poly(x) for x in args]))

    def trust(self, text):
        self.ex.assumptions.add(text)

    def num_same(self, a, b):
        """decide a == b (splits the path)"""
        pa, pb = to_poly(a), to_poly(b)
        return bool(near_eq(pa, pb) or sym.eq0(P.reduce_den(pa - pb)))

    def alike(self, a, b):
        """a == b is evident (a hint for matching up results; never decides anything)"""
        return bool(near_eq(to_poly(a), to_poly(b)))

    def array(self, xs):
        """numpy array of a list of pairs"""
        return seq.np_rows(xs)

    def round(self, x):
        return round(x)

    def text(self):
        """from here on the text of a number is an opaque token, different for different expressions"""
        self.path.tokens = True
        self.ex.assumptions.add('the text of a number (repr) evaluates to that number')

    def text_namespace(self, ns):
        ns.update(sym.TOKENS)

    def same_set(self, label, A, B):
        """the same set of points: every point of A is one of B and the other way round"""
        A = [tuple(p) for p in A]
        B = [tuple(p) for p in B]
        for la, X, Y in ((' (first in second)', A, B), (' (second in first)', B, A)):
            if not Y:
                self.check(label + la, not X)
                continue
            keys = {(to_poly(x), to_poly(y)) for x, y in Y}
            n = 0
            for i, (x, y) in enumerate(X):
                px, py = to_poly(x), to_poly(y)
                if (px, py) in keys:
                    n += 1
                    continue
                cand = Y[i:i + 1] + Y if len(Y) <= 200 else Y
                if any(near_eq(px, to_poly(a)) and near_eq(py, to_poly(b)) for a, b in cand):
                    n += 1
                    continue
                fs = [f_and(sym.eq0(px - to_poly(a)), sym.eq0(py - to_poly(b))) for a, b in Y]
                k = [f for f in fs if f is not False]
                done = False
                for f in k[:40]:
                    r = f if f is True else self.path.known(f)
                    if r is True or isinstance(f, F) and self.by_equalities(f):
                        n += 1
                        done = True
                        break
                if not done:
                    self.check(label + la, f_or(*k))
            if n:
                self.ex.covered.add(label + la)
                self.ex.obls.append(Obl(label + la, 'proved', 'normal-form'))

    def by_equalities(self, f):
        fs = f.fs if isinstance(f, Junct) and f.kind == 'and' else [f]
        for g in fs:
            if not (isinstance(g, Cmp) and g.op == '=='):
                return False
            if self.path.known(g) is True:
                continue
            p = simplify_by_equalities(self.path, g.p)
            if p is None or p.d and not solve.near_zero_poly(p, Fraction(1)):
                return False
        return True

    def seq(self, name, mk, minlen=0, chunks=False, twins=False):
        """a list of arbitrary length; mk(v, name) -> (element, spec of it); with chunks: (list of elements, spec)"""
        if minlen == 0 and self.choice(name + '.empty', [False, True]):
            return Seq([], 0, lambda i: None)
        n = self.integer(name + '.len', lo=max(minlen, 1))
        path = self.path
        specs = {}
        if chunks:
            def pieces(i):
                tag = str(seq.key(i)) if isinstance(seq.key(i), int) else 'j%d' % len(path.seqs)
                path.seqs.append((name, tag, i))
                es, s = mk(self, '%s.%s' % (name, tag))
                specs[id(es)] = (es, s)
                return es
            c = seq.Blk(n, pieces, None, name=name)
            return Seq(seq.SymSeq([c]), n, lambda i: specs[id(c.get(i))][1])

        def make(i):
            k = seq.key(i)
            tag = str(k) if isinstance(k, int) else 'j%d' % len(path.seqs)
            path.seqs.append((name, tag, i))
            e, s = mk(self, '%s.%s' % (name, tag))
            specs[id(e)] = (e, s)
            return [e]
        b = seq.Blk(n, make, name=name)
        return Seq(seq.SymSeq([b]), n, lambda i: specs[id(b.get(i)[0])][1])

    def timeline(self, name, mk, after=None):
        """a list of one or more elements with increasing times (above `after`); mk(v, name, time) -> (element, spec); .t(i)"""
        times = []

        def make(v, nm):
            i = self.path.seqs[-1][2]
            t = self.real(nm + '.t')
            if after is not None:
                self.assume(t > after)
            for j, u in times:
                d = to_poly(i) - to_poly(j)
                if d.is_const():
                    self.assume(t > u if d.const() > 0 else t < u)
                else:
                    self.assume(f_or(f_and(i > j, t > u), f_and(i < j, t < u)))
            times.append((i, t))
            e, s = mk(v, nm, t)
            return e, (t, s)
        S = self.seq(name, make, minlen=1, twins=False)
        r = Seq(S.list, S.n, lambda i: S.at(i)[1])
        r.t = lambda i: S.at(i)[0]
        return r

    def joined(self, *ds):
        """a dictionary made of drawn ones and of lists of entries, in this order"""
        out = seq.SymSeq()
        for d in ds:
            if isinstance(d, Dict):
                out.extend(d.dict.seq if isinstance(d.dict, seq.SymDict) else list(d.dict.items()))
            else:
                out.extend(list(d))
        return seq.SymDict(out) if seq.is_sym(seq.simp(out)) else dict(seq.simp(out))

    def dict(self, name, mk, minlen=0, keys=None):
        """a dictionary of any size; mk(v, name, key) -> (value, spec of it)"""
        if minlen == 0 and self.choice(name + '.empty', [False, True]):
            return Dict({}, 0, lambda i: None, lambda i: None)
        n = self.integer(name + '.len', lo=max(minlen, 1))
        path = self.path
        specs = {}

        def make(i):
            k = seq.key(i)
            tag = str(k) if isinstance(k, int) else 'j%d' % len(path.seqs)
            path.seqs.append((name, tag, i))
            k = path.fresh('<%s %s>' % (name, tag)).replace('.', '_')
            path.tokens[k] = (b, i)
            e, s = mk(self, '%s.%s' % (name, tag), k)
            specs[k] = s
            return [(k, e)]
        b = seq.Blk(n, make, name=name)
        return Dict(seq.SymDict(seq.SymSeq([b])), n, lambda i: specs[b.get(i)[0][0]], lambda i: b.get(i)[0][0])

    def carried(self, cls, make, inv):
        """loops over sequences of unknown length that carry a cls from one iteration to the next: after i iterations it
        is some make(v, name) for which inv(i, it) holds (conditions to be proved first)"""
        self.path.carried.append((cls, lambda n: make(self, n), inv))

    def varies(self, obj, *attrs):
        """numbers that iterations of a loop over a sequence of unknown length may change: they are arbitrary at the start
        of an iteration and after the loop"""
        self.path.varies += [(obj, a) for a in attrs]

    def length(self, xs):
        return xs.length() if seq.is_sym(xs) else len(xs)

    def collect(self, gen, f=None):
        """[f(x) for x in gen]"""
        return seq.collect(gen, f)

    def entries(self, d):
        """[(key, value)] of a dictionary"""
        return d.items() if isinstance(d, seq.SymDict) else list(d.items())

    def each(self, label, res, n, f):
        """res is a list of n elements and f(index, element) holds for each of them"""
        if not seq.is_sym(res):
            self.num_eq(label + ': length', len(res), n)
            for i, x in enumerate(res):
                f(i, x)
            return
        self.num_eq(label + ': length', res.length(), n)
        for i, x in seq.every(seq.as_seq(res)):
            f(i, x)

    def map(self, f, xs):
        """[f(x) for x in xs]"""
        if not seq.is_sym(xs):
            return [f(x) for x in xs]
        return seq.comp(xs, lambda s: [f(x) for x in s], 'list', ('spec', id(f.__code__), 0))

    def index_of_new(self, xs, S):
        """index of the one element known not to come from S (a witness only: prove what it is used for)"""
        if not seq.is_sym(xs):
            return [i for i, x in enumerate(xs) if not any(x is y for y in (S.list if isinstance(S.list, list) else ()))][0]
        off = 0
        for p in seq.as_seq(xs).parts:
            if isinstance(p, list):
                mine = {id(e) for q in S.list.parts if isinstance(q, seq.Blk) for _, ch in q.memo.values() for e in ch}
                for i, x in enumerate(p):
                    if id(x) not in mine:
                        return seq.num(off + i)
                off = off + len(p)
            else:
                off = off + p.length()
        raise Unsupported('no new element in sight')

    def item(self, xs, i):
        return xs[i]

    def grid(self, name, n, m):
        """a matrix of n rows and m columns of arbitrary numbers: .arr for the code, .at(i, j) for the specification"""
        self.path.seqs.append((name, 'grid', 0))
        return grid.make(name, n, m)

    def cells(self, n, m):
        """all pairs of a row and a column: symbolically one arbitrary pair"""
        return [grid.cell(n, m)]

    def largest(self, n, m, f):
        return grid.largest(n, m, f)

    def check_each(self, s, f):
        """f(i) for every 0 <= i < s.n"""
        if isinstance(s.n, int):
            for i in range(s.n):
                f(i)
        else:
            f(seq.focus(s.n))

    def sum(self, n, f):
        """f(0) + ... + f(n-1)"""
        if isinstance(n, int):
            return sum((f(i) for i in range(n)), 0)
        return seq.spec_sum(n, f)

    def divmod(self, i, c):
        """quotient and remainder of an index known to have the form q*c + r"""
        if isinstance(i, int) and isinstance(c, int):
            return divmod(i, c)
        if not isinstance(c, int) and c <= 1:
            c = 1
        d = seq.divide(i, c)
        if d is None:
            raise Unsupported('divmod')
        q, r = seq.num(d[0]), seq.num(d[1])
        if r < 0:
            q, r = seq.num(q - 1), seq.num(r + c)
        elif r >= c:
            q, r = seq.num(q + 1), seq.num(r - c)
        if not (r >= 0 and r < c):
            raise Unsupported('divmod %s by %s' % (i, c))
        return q, r


class ConV(BaseV):
    mode = 'con'
    symbolic = False
    TOL = 1e-7

    def __init__(self, mods, rng=None, values=None, want=None):
        self.m = mods
        self.rng = rng or random.Random(0)
        self.values = values or {}
        self.used = {}
        self.checks = 0
        self.pool = []
        self.want = want
        # most runs mix whole numbers and short fractions; some take all inputs whole (as int), some long fractions
        self.style = self.rng.random() if not self.values else 0.5

    # inputs
    def _draw(self, lo, hi):
        r = self.rng
        if self.style < 0.12:
            return self._fit(r.choice([r.randint(-5, 5), r.randint(-40, 40)]), lo, hi)
        if self.style > 0.85 and r.random() < 0.8:
            return self._fit(r.uniform(-8, 8) * r.choice([1, 1, 1, 30, 0.02]), lo, hi)
        k = r.random()
        if self.pool and k < 0.22:
            x = r.choice(self.pool)
            if r.random() < 0.3:
                x = -x
        elif k < 0.58:
            x = r.randint(-5, 5)
        elif k < 0.78:
            x = r.randint(-40, 40) / 4
        elif k < 0.85:
            x = r.randint(-2000, 2000) / 64
        else:
            x = r.choice([0, 1, -1, 100, -100, 0.125, 30, 90, 180, 360, -90, 45, 7.5])
        if r.random() < 0.5:
            x = float(x)
        return self._fit(x, lo, hi)

    def _fit(self, x, lo, hi):
        r = self.rng
        if lo is not None and x < lo or hi is not None and x > hi:
            if lo is not None and hi is not None:
                x = lo + (hi - lo) * r.choice([0, 1, 0.5, 0.25, 0.75, r.randint(0, 16) / 16])
            elif lo is not None:
                x = lo + abs(x)
            else:
                x = hi - abs(x)
        return x

    def real(self, name, lo=None, hi=None, nonneg=False, nonzero=False, pos=False):
        if nonneg or pos:
            lo = 0 if lo is None else max(lo, 0)
        if self.values.get(name) is not None:
            x = self.values[name]
            if isinstance(x, str):
                x = Fraction(x)
            if isinstance(x, Fraction):
                x = int(x) if x.denominator == 1 and abs(x) < 2 ** 53 else float(x)
        else:
            x = self._draw(lo, hi)
            if (nonzero or pos) and x == 0:
                x = 1 if hi is None or hi >= 1 else hi
        self.used[name] = x
        self.pool.append(x)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        if nonzero or pos:
            self.assume(x != 0)
        return x

    def integer(self, name, lo=None, hi=None):
        if self.values.get(name) is not None:
            x = int(Fraction(self.values[name]))
        else:
            a = lo if lo is not None else -6
            x = self.rng.randint(a, hi if hi is not None else max(lo or 0, 0) + 6)
            if hi is None:
                k = self.rng.random()
                x = x if k < 0.9 else self.rng.randint(a, 60 if k < 0.97 else 400)
        self.used[name] = x
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def choice(self, name, options):
        options = list(options)
        i = self.values.get(name)
        if i is None:
            i = self.rng.randrange(len(options))
        i = int(i)
        if i >= len(options):
            raise PathAbort()
        self.used[name] = i
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def special(self, name, options, p=0.3):
        """now and then one of the given special values (None: draw as usual); a replay of other values never gets one"""
        i = self.values.get(name)
        if i is None:
            i = -1
            if not self.values and self.rng.random() < p:
                i = self.rng.randrange(len(options))
        self.used[name] = i
        return options[int(i)] if int(i) >= 0 else None

    def assume(self, cond, note=None):
        if not cond:
            raise PathAbort()

    generic = assume

    def check(self, label, cond):
        self.checks += 1
        if not cond:
            raise Violated(label)
        return True

    lemma = check

    def _scale(self):
        return max([1.0] + [abs(float(x)) for x in self.pool if math.isfinite(float(x))])

    def num_eq(self, label, a, b):
        self.checks += 1
        a, b = float(a), float(b)
        if a == b:
            return
        if not (abs(a - b) <= self.TOL * max(1.0, abs(a), abs(b), min(self._scale(), 1e3))):
            raise Violated(label, '%r is not %r' % (a, b))

    def le(self, label, a, b):
        self.checks += 1
        if not (a <= b + self.TOL * max(1.0, abs(a), abs(b))):
            raise Violated(label, '%r > %r' % (a, b))

    lt = le

    def sqrt(self, x):
        return math.sqrt(x)

    def hypot(self, x, y):
        return math.hypot(x, y)

    def cosd(self, deg):
        return math.cos(math.radians(deg))

    def sind(self, deg):
        return math.sin(math.radians(deg))

    def cosr(self, r):
        return math.cos(r)

    def sinr(self, r):
        return math.sin(r)

    tau = math.tau
    deg = math.pi / 180

    def min(self, *xs):
        return min(xs)

    def max(self, *xs):
        return max(xs)

    def abs(self, x):
        return abs(x)

    def ite(self, c, a, b):
        return a if c else b

    def floordiv(self, a, b):
        return math.floor(a / b)

    def app(self, name, *args):
        # some fixed function, different for every name and run
        if not hasattr(self, 'appk'):
            self.appk = {}
        k = self.appk.setdefault(name, [self.rng.randint(-3, 3) for _ in range(6)])
        r = k[0]
        for i, x in enumerate(args):
            r = r + k[1 + i % 2] * x + k[3] * x * args[0] / 8 + k[4] * (x > 1) + k[5] * x * x / 16
        return r

    def trust(self, text):
        pass

    def num_same(self, a, b):
        return abs(a - b) <= self.TOL * max(1.0, abs(a), abs(b))

    def alike(self, a, b):
        return self.num_same(a, b)

    def round(self, x):
        return round(x)

    def text(self):
        pass

    def text_namespace(self, ns):
        pass

    def grid(self, name, n, m):
        rows = [[self.real('%s.%d.%d' % (name, i, j)) for j in range(m)] for i in range(n)]
        return grid.Grid(np.array(rows, dtype=float), lambda i, j: rows[i][j])

    def cells(self, n, m):
        return [(i, j) for i in range(n) for j in range(m)]

    def largest(self, n, m, f):
        return max(f(i, j) for i, j in self.cells(n, m))

    def check_each(self, s, f):
        for i in range(s.n):
            f(i)

    def sum(self, n, f):
        return sum((f(i) for i in range(n)), 0)

    def divmod(self, i, c):
        return divmod(i, c)

    def seq(self, name, mk, minlen=0, chunks=False, twins=True):
        self.values.pop(name + '.empty', None)
        k = self.rng.random()
        hi = minlen + 4 if k < 0.88 else minlen + 20 if k < 0.97 else 120
        n = self.integer(name + '.len', lo=minlen, hi=30 if name + '.len' in self.values else hi)
        es = [mk(self, '%s.%d' % (name, i)) for i in range(n)]
        if twins and n > 1:             # the same object more than once
            for i in self.special(name + '.twins', [(1,), (-1,), range(1, n)], 0.12) or ():
                es[i] = es[0]
        if chunks:
            return Seq([e for c, _ in es for e in c], n, lambda i: es[i][1])
        return Seq([e for e, _ in es], n, lambda i: es[i][1])

    def timeline(self, name, mk, after=None):
        last = [after]

        def make(v, nm):
            t = self.real(nm + '.t')
            if last[0] is not None and not t > last[0] + 0.05:
                t = last[0] + self.real(nm + '.d', pos=True) + 0.125
            last[0] = t
            e, s = mk(v, nm, t)
            return e, (t, s)
        S = self.seq(name, make, minlen=1, twins=False)
        r = Seq(S.list, S.n, lambda i: S.at(i)[1])
        r.t = lambda i: S.at(i)[0]
        return r

    def joined(self, *ds):
        """a dictionary made of drawn ones and of lists of entries, in this order"""
        out = {}
        for d in ds:
            out.update(d.dict if isinstance(d, Dict) else d)
        return out

    def dict(self, name, mk, minlen=0, keys=None):
        self.values.pop(name + '.empty', None)
        k = self.rng.random()
        hi = minlen + 4 if k < 0.88 else minlen + 20
        n = self.integer(name + '.len', lo=minlen, hi=30 if name + '.len' in self.values else hi)
        how = self.choice(name + '.keys', keys or ['<%s 0' % name.replace('.', '_'), 'm0', 'é0', 'A b0', 'rect#0', 'x#0', 'outside0'])[:-1]
        down = self.flag(name + '.down')
        ks = [how + str(n - 1 - i if down else i) for i in range(n)]
        es = [mk(self, '%s.%d' % (name, i), ks[i]) for i in range(n)]
        return Dict({k: e for k, (e, _) in zip(ks, es)}, n, lambda i: es[i][1], lambda i: ks[i])

    def carried(self, cls, make, inv):
        pass

    def varies(self, obj, *attrs):
        pass

    def length(self, xs):
        return len(xs)

    def collect(self, gen, f=None):
        return [x if f is None else f(x) for x in gen]

    def entries(self, d):
        return list(d.items())

    def same_set(self, label, A, B):
        A = np.array([[float(x), float(y)] for x, y in A]).reshape(-1, 2)
        B = np.array([[float(x), float(y)] for x, y in B]).reshape(-1, 2)
        self.checks += 1
        if not len(A) or not len(B):
            if len(A) != len(B):
                raise Violated(label, 'one is empty')
            return
        tol = 1e-6 * max(1.0, float(np.abs(A).max()), float(np.abs(B).max()), min(self._scale(), 1e3))
        d = np.abs(A[:, None, :] - B[None, :, :]).max(axis=2)
        for la, m, X in ((' (first in second)', d.min(axis=1), A), (' (second in first)', d.min(axis=0), B)):
            i = int(m.argmax())
            if not m[i] <= tol:
                raise Violated(label + la, 'point %r is %g away' % (tuple(X[i]), m[i]))

    def map(self, f, xs):
        return [f(x) for x in xs]

    def index_of_new(self, xs, S):
        new = [i for i, x in enumerate(xs) if not any(x is y for y in S.list)]
        return new[0] if new else 0

    def item(self, xs, i):
        return xs[i]

    def each(self, label, res, n, f):
        self.num_eq(label + ': length', len(res), n)
        for i, x in enumerate(res):
            f(i, x)


def run_concrete(harness, mods, rng=None, values=None):
    """('ok', n) | ('skip', '') | ('fail', label, detail, inputs)"""
    v = ConV(mods, rng, values)
    try:
        harness(v)
        return ('ok', v.checks, v.used)
    except PathAbort:
        return ('skip', '', v.used)
    except Violated as e:
        return ('fail', e.label, e.detail, v.used)
    except RecursionError:
        return ('fail', 'no unexpected exception', 'RecursionError', v.used)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(tb[-4:]))
        return ('fail', 'no unexpected exception', '%s: %s at %s' % (type(e).__name__, e, where), v.used)
