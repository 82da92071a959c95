"""
Self-test of the loop machinery (pyvc/seq.py, pyvc/loops.py): small functions with true and false claims about
sequences of arbitrary length.  A false claim that is discharged on every path is a soundness bug of the engine.
    bash /verif/tools/selftest.sh
"""
import ast
import os
import sys
import types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pyvc.env                                            # noqa
from pyvc import engine, loader, loops, shims              # noqa

SRC = '''
from x7.lib.iters import iter_rotate

def double(xs): return [2 * x for x in xs]

def double_loop(xs):
    out = []
    for x in xs:
        out.append(2 * x)
    return out

def pairs_out(xs):
    out = []
    for x in xs:
        out.append(x)
        out.append(-x)
    return out

def count_pos(xs):
    n = 0
    for x in xs:
        if x > 0:
            n += 1
    return n

def total(xs):
    t = 0
    for x in xs:
        t += x
    return t

def total_abs(xs):
    t = 0
    for x in xs:
        if x < 0:
            t += -x
        else:
            t += x
    return t

def total2(xs): return sum(3 * x for x in xs)

def sum_abs(xs): return sum([x if x > 0 else -x for x in xs])

def last(xs):
    y = None
    for x in xs:
        y = x
    return y

def running(xs):
    out = []
    t = 0
    for x in xs:
        t += x
        out.append(t)
    return out

def prev_diff(xs):
    out = []
    p = 0
    for x in xs:
        out.append(x - p)
        p = x
    return out

def inplace(ps):
    for p in ps:
        p.v = p.v + 1

def inplace_shared(ps, q):
    for p in ps:
        q.v = p.v

def inplace_guard(ps):
    for p in ps:
        if p.v > 0:
            p.v = 0

def maxi(xs): return max(xs)

def maxi_loop(xs):
    m = xs[0]
    for x in xs:
        if x > m:
            m = x
    return m

def cyc(xs): return [a * b for a, b in iter_rotate(xs, 2)]

def cyc_sum(xs): return sum(a * b for a, b in iter_rotate(xs, 2))

def cyc_sum_idx(xs):
    t = 0
    n = len(xs)
    for i in range(n):
        t += xs[i] * xs[(i + 1) % n]
    return t

def cyc_prev(xs):
    t = 0
    for i in range(len(xs)):
        t += xs[i] * xs[i - 1]
    return t

def nowrap_sum(xs):
    t = 0
    for i in range(len(xs) - 1):
        t += xs[i] * xs[i + 1]
    return t

def filt(xs): return [x for x in xs if x > 0]

def find(xs, y):
    for x in xs:
        if x == y:
            return True
    return False

def anyneg(xs): return any(x < 0 for x in xs)
def allpos(xs): return all(x > 0 for x in xs)

def rev(xs): return [x for x in reversed(xs)]
def rev2(xs): return xs[::-1]
def zipd(xs): return [b - a for a, b in zip(xs, xs[1:])]
def enum(xs): return [i * x for i, x in enumerate(xs)]
def shift(xs): return [xs[-1]] + xs[:-1]

class AccL:
    def __init__(self): self.out = []; self.n = 0
    def put(self, x): self.out.append(x)
    def putn(self, x): self.out.append(x); self.n += 1

def method_acc(xs):
    a = AccL()
    for x in xs:
        a.put(x + 1)
    return a.out

def method_cnt(xs):
    a = AccL()
    for x in xs:
        a.putn(x)
    return a.n

def flags(xs):
    seen = False
    out = []
    for x in xs:
        out.append(1 if seen else 0)
        if x > 0:
            seen = True
    return out

def nested(xs, ys): return [x * y for x in xs for y in ys]

def once(xs):
    first = True
    out = []
    for x in xs:
        if first:
            out.append(x); first = False
        else:
            out.append(-x)
    return out

def memo(xs):
    d = {}
    out = []
    for x in xs:
        d['k'] = x
        out.append(d['k'])
    return out

def memo_bad(xs):
    d = {}
    out = []
    for x in xs:
        out.append(d.get('k', 0))
        d['k'] = x
    return out

def ext(xs):
    out = [0]
    out.extend(x + 1 for x in xs)
    out += [9]
    return out

def alias(xs):
    a = []
    b = a
    for x in xs:
        a.append(x)
    return b

def alias_arg(xs, out):
    for x in xs:
        out.append(x)

class Later:
    def __init__(self, k):
        self.k = k
        self.sub = [k, k]

    def later(self, xs):
        a = [x * self.k for x in xs]
        self.k = self.k + 1
        b = [x + y for x, y in zip(a, a[1:] + a)]
        self.sub[0] = 7
        return a, b

    def later_list(self, xs):
        a = [x * self.sub[0] for x in xs]
        self.sub[0] = 7
        return [x + y for x, y in zip(a, a[1:] + a)]

def d_values(d): return [2 * x for x in d.values()]

def d_put(d, k, x):
    d = dict(d)
    d[k] = x
    return d

def d_del(d, k):
    d = dict(d)
    del d[k]
    return d

def d_loop(d):
    out = []
    for k, x in d.items():
        out.append((k, x))
    return out

def gen(d):
    for k, x in d.items():
        yield x
        yield -x

def gen_from(d):
    yield 7
    yield from gen(d)

def gen_consumed(d):
    out = []
    for x in gen(d):
        out.append(x)
    return out

def gen_sum(d):
    t = 0
    for x in d.values():
        t += x
        yield t

def gen_some(d):
    for x in d.values():
        if x > 0:
            yield x

def gen_filter(d):
    for x in gen(d):
        yield x + 1
    
def gen_shared(d):
    m = [0]
    for x in d.values():
        m[0] = x
        yield m

class Acc:
    def __init__(self, v): self.v = v
    def put(self, x):
        self.v = x
        return self.v + 1
    def old(self, x):
        y = self.v
        self.v = x
        return y

def ex_first(xs, y):
    for x in xs:
        if x == y:
            return x
    return None

def ex_count(xs, y):
    n = 0
    for x in xs:
        n += 1
        if x == y:
            break
    return n

def ex_acc(xs, y):
    out = []
    for x in xs:
        if x == y:
            break
        out.append(x)
    return out

def ex_last(xs, y):
    for x in xs:
        if x == y:
            break
    return x

def ex_else(xs, y):
    for x in xs:
        if x == y:
            break
    else:
        return 0
    return x

def ex_prev(xs, y):
    seen = None
    for x in xs:
        if x == y:
            return seen
        seen = x
    return None

def ex_prev0(xs, y):
    seen = 5
    for x in xs:
        if x == y:
            return seen
        seen = x
    return 5

def ex_inplace(xs, y):
    for x in xs:
        if x.v == y:
            break
        x.v = y + 1

def ex_inplace2(xs, y):
    for x in xs:
        x.v = x.v + 1
        if x.v == y:
            return

def ex_raise(xs, y):
    try:
        for x in xs:
            x.v = x.v + 1
            if x.v == y:
                raise ValueError
    except ValueError:
        return

def ex_raise2(xs, y):
    for x in xs:
        x.v = x.v + 1
        if x.v == y:
            raise ValueError

def ex_nested(xs, y):
    for x in xs:
        for z in xs:
            if z == x + y:
                return x
    return None

def ex_two(xs, y):
    n = 0
    for x in xs:
        if x == y:
            break
    for x in xs:
        n += x
    return n

def vary_set(xs, a):
    out = []
    for x in xs:
        a.v = x
        out.append(a.v + 1)
    return out


def vary_comp(xs, a):
    return [a.put(x) for x in xs]


def vary_old(xs, a):
    out = []
    for x in xs:
        out.append(a.v)
        a.v = x
    return out


def vary_old_comp(xs, a):
    return [a.old(x) for x in xs]


def vary_if(xs, a):
    out = []
    for x in xs:
        out.append(1 if a.v == 3 else 2)
        a.v = x
    return out


def vary_keep(xs, a, b):
    out = []
    for x in xs:
        b.v = a.v
        a.v = x
        out.append(x)
    return out


def vary_sum(xs, a):
    t = 0
    for x in xs:
        t += a.v
        a.v = x
    return [t]


def vary_after(xs, a):
    for x in xs:
        a.v = x
    return [a.v]


def vary_count(xs, a):
    for x in xs:
        a.v += 1
    return [a.v]


def vary_obj(xs, a):
    for x in xs:
        x.w = a.v
        a.v = x.v
    return xs


def fold(xs):
    a = Acc(xs[0])
    for x in xs[1:]:
        a = Acc(max(a.v, x))
    return a

def fold_none(xs):
    a = Acc(None)
    for x in xs:
        a = Acc(x) if a.v is None else Acc(max(a.v, x))
    return a

def fold_inplace(xs):
    a = Acc(xs[0])
    b = a
    for x in xs[1:]:
        a.v = max(a.v, x)
    return b

def fold_alias(xs):
    a = Acc(xs[0])
    b = a
    for x in xs[1:]:
        a = Acc(max(a.v, x))
        b.v = x
    return b

def fold_side(xs, log):
    a = Acc(xs[0])
    for x in xs[1:]:
        a = Acc(max(a.v, x))
        log.v = x
    return a

def fold_same(xs, a):
    for x in xs:
        a = a
        a.v = x
    return a

def g_neg(a, n):
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            out[i, j] = -a[i, j]
    return out

def g_inplace_left(a, n):
    for i in range(n):
        for j in range(n):
            if j > 0:
                a[i, j] = a[i, j] + a[i, j - 1]
    return a

def g_transpose(a, n):
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            out[j, i] = a[i, j]
    return out

def g_from1(a, n):
    for i in range(1, n):
        for j in range(n):
            a[i, j] = 0
    return a

def g_upper(a, n):
    for i in range(n):
        for j in range(n):
            if j > i:
                a[i, j] = 0
    return a

def g_first_col(a, n):
    for i in range(n):
        for j in range(n):
            a[i, 0] = 0
    return a

def g_sum_so_far(a, n):
    out = np.zeros((n, n))
    t = 0
    for i in range(n):
        for j in range(n):
            t += a[i, j]
            out[i, j] = t
    return out

def g_twice(a, n):
    b = a * 2
    a[0, 0] = 7
    return b

def g_two_pass(a, n):
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            out[i, j] = a[i, j]
    for i in range(n):
        for j in range(n):
            out[i, j] = out[i, j] + out[i, 0]
    return out

def g_snap(a, n):
    for i in range(n):
        for j in range(n):
            b = a * 1
            a[i, j] = b[i, j] + b[0, 0]
    return a

def g_inner_only(a, n):
    for j in range(n):
        a[0, j] = 5
    return a

def g_over(a, n):
    for i in range(n):
        for j in range(n):
            a[i, j] = 1
    a[0, 0] = 2
    return a

def g_max(a, n): return np.amax(a)

def g_scale(a, n): return a * (1 / np.amax(a))

def g_near(a, n):
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            for x in range(max(0, i - 1), min(n, i + 1)):
                out[i, j] += a[x, j]
    return out

def bis_r(ts, x): return bisect.bisect_right(ts, x)

def bis_l(ts, x): return bisect.bisect_left(ts, x)

def cols(ps):
    a, b = zip(*ps)
    return a, b

def interp(ps, x):
    a, b = zip(*ps)
    return np.interp(x, np.array(a, dtype=float), np.array(b, dtype=float))
'''

class Box:
    def __init__(self, v):
        self.v = v


def load():
    ins = loader.Instr()
    m = types.ModuleType('st')
    m.__dict__['__builtins__'] = ins.builtins
    m.__dict__['np'] = shims.np
    m.__dict__['bisect'] = shims.bisect
    exec(compile(loops.rewrite(ast.parse(SRC), 'st.py'), 'st.py', 'exec'), m.__dict__)
    return m


TESTS = []


def t(expect):
    def d(f):
        TESTS.append((f.__name__, expect, f))
        return f
    return d


def nums(v, minlen=0, name='s'):
    def mk(v, nm):
        x = v.real(nm)
        return x, x
    return v.seq(name, mk, minlen=minlen)


def boxes(v, minlen=0):
    def mk(v, nm):
        x = v.real(nm)
        return Box(x), x
    return v.seq('s', mk, minlen=minlen)


def add(fn, expect, want, minlen=0, name=None):
    def h(v):
        S = nums(v, minlen)
        r = getattr(v.m, fn)(S.list)
        v.each('r', r, S.n, lambda i, x: v.num_eq('el', x, want(S, i)))
    TESTS.append((name or fn, expect, h))


add('double', True, lambda S, i: 2 * S.at(i))
add('double', False, lambda S, i: 3 * S.at(i), name='double wrong')
add('double_loop', True, lambda S, i: 2 * S.at(i))
add('double_loop', False, lambda S, i: S.at(i), name='double_loop wrong')
add('running', False, lambda S, i: S.at(i))
add('prev_diff', False, lambda S, i: S.at(i))
add('rev', True, lambda S, i: S.at(S.n - 1 - i))
add('rev2', True, lambda S, i: S.at(S.n - 1 - i))
add('rev', False, lambda S, i: S.at(i), name='rev wrong')
add('enum', True, lambda S, i: i * S.at(i))
add('enum', False, lambda S, i: (i + 1) * S.at(i), name='enum wrong')
add('method_acc', True, lambda S, i: S.at(i) + 1)
add('flags', False, lambda S, i: 0)
add('flags', False, lambda S, i: 1, name='flags 1')
add('once', False, lambda S, i: S.at(i))
add('once', False, lambda S, i: -S.at(i), name='once neg')
add('memo', True, lambda S, i: S.at(i))
add('memo_bad', False, lambda S, i: 0)
add('memo_bad', False, lambda S, i: S.at(i), name='memo_bad 2')
add('alias', True, lambda S, i: S.at(i))
add('shift', True, lambda S, i: S.at(S.n - 1) if i == 0 else S.at(i - 1), minlen=1)
add('shift', False, lambda S, i: S.at(i), minlen=1, name='shift wrong')
add('filt', False, lambda S, i: S.at(i))
add('cyc', True, lambda S, i: S.at(i) * (S.at(0) if i + 1 == S.n else S.at(i + 1)), minlen=1)
add('cyc', False, lambda S, i: S.at(i) * S.at(0), minlen=1, name='cyc wrong')


def val(fn, expect, want, minlen=0, name=None, arg=None):
    def h(v):
        S = nums(v, minlen)
        r = getattr(v.m, fn)(S.list)
        w = want(v, S, r)
        if w is not None:
            v.num_eq('r', r, w)
    TESTS.append((name or fn, expect, h))


val('total', True, lambda v, S, r: v.sum(S.n, S.at))
val('total', False, lambda v, S, r: 0, name='total 0')
val('total', False, lambda v, S, r: S.at(0), minlen=1, name='total first')
val('total2', True, lambda v, S, r: 3 * v.sum(S.n, S.at))
val('total2', False, lambda v, S, r: v.sum(S.n, S.at), name='total2 wrong')
val('total_abs', False, lambda v, S, r: v.sum(S.n, S.at))
val('total_abs', False, lambda v, S, r: -v.sum(S.n, S.at), name='total_abs neg')
val('sum_abs', False, lambda v, S, r: v.sum(S.n, S.at))
val('count_pos', False, lambda v, S, r: S.n)
val('count_pos', False, lambda v, S, r: 0, name='count_pos 0')
val('last', True, lambda v, S, r: S.at(S.n - 1), minlen=1, name='last?')
val('last', False, lambda v, S, r: S.at(0), minlen=1, name='last first')
val('method_cnt', True, lambda v, S, r: S.n)
val('method_cnt', False, lambda v, S, r: 1, minlen=1, name='method_cnt 1')
val('maxi', False, lambda v, S, r: S.at(0), minlen=1, name='maxi first')
val('maxi_loop', False, lambda v, S, r: S.at(0), minlen=1, name='maxi_loop first')
val('cyc_sum', True, lambda v, S, r: v.sum(S.n, lambda i: S.at(i) * S.cyc(i + 1)), minlen=2)
val('cyc_sum_idx', True, lambda v, S, r: v.sum(S.n, lambda i: S.at(i) * S.cyc(i + 1)), minlen=2)
val('cyc_sum', False, lambda v, S, r: v.sum(S.n, lambda i: S.at(i) * S.at(i)), minlen=2, name='cyc_sum wrong')
val('cyc_prev', True, lambda v, S, r: v.sum(S.n, lambda i: S.at(i) * S.cyc(i - 1)), minlen=2)
val('nowrap_sum', True, lambda v, S, r: v.sum(S.n - 1, lambda i: S.at(i) * S.at(i + 1)), minlen=2)
val('nowrap_sum', False, lambda v, S, r: v.sum(S.n, lambda i: S.at(i) * S.cyc(i + 1)), minlen=2, name='nowrap wrong')


@t(True)
def max_is_max(v):
    S = nums(v, 1)
    r = v.m.maxi(S.list)
    v.check_each(S, lambda i: v.le('le', S.at(i), r))


def times(v):
    return v.timeline('s', lambda v, nm, t: (t, t))


def bis(fn, expect, claim, name=None):
    def h(v):
        S = times(v)
        x = v.real('x')
        r = getattr(v.m, fn)(S.list, x)
        i = v.integer('i', lo=0)
        v.assume(i < S.n)
        claim(v, S, x, r, i)
    TESTS.append((name or fn, expect, h))


bis('bis_r', True, lambda v, S, x, r, i: v.check('le', v.or_(i >= r, S.t(i) <= x)))
bis('bis_r', True, lambda v, S, x, r, i: v.check('gt', v.or_(i < r, S.t(i) > x)), name='bis_r right')
bis('bis_l', True, lambda v, S, x, r, i: v.check('lt', v.or_(i >= r, S.t(i) < x)))
bis('bis_r', False, lambda v, S, x, r, i: v.check('lt', v.or_(i >= r, S.t(i) < x)), name='bis_r strict')
bis('bis_l', False, lambda v, S, x, r, i: v.check('gt', v.or_(i < r, S.t(i) > x)), name='bis_l strict')
bis('bis_r', False, lambda v, S, x, r, i: v.check('in', r < S.n), name='bis_r in')
bis('bis_r', False, lambda v, S, x, r, i: v.check('in', r > 0), name='bis_r pos')
bis('bis_r', False, lambda v, S, x, r, i: v.check('no', r == 1), name='bis_r one')


@t(False)
def times_equal(v):
    S = times(v)
    i = v.integer('i', lo=0)
    j = v.integer('j', lo=0)
    v.assume(i < S.n)
    v.assume(j < S.n)
    v.num_eq('t', S.t(i), S.t(j))


@t(True)
def times_order(v):
    S = times(v)
    i = v.integer('i', lo=0)
    j = v.integer('j', lo=0)
    v.assume(i < j)
    v.assume(j < S.n)
    v.lt('t', S.t(i), S.t(j))


def inter(expect, claim, name):
    def h(v):
        def mk(v, nm, t):
            y = v.real(nm + '.y')
            return (t, y), y
        S = v.timeline('s', mk)
        x = v.real('x')
        i = v.integer('i', lo=0)
        v.assume(i < S.n - 1)
        claim(v, S, i, x)
    TESTS.append((name, expect, h))


inter(True, lambda v, S, i, x: v.num_eq('at', v.m.interp(S.list, S.t(i)), S.at(i)), 'interp at')
inter(True, lambda v, S, i, x: v.num_eq('mid', v.m.interp(S.list, (S.t(i) + S.t(i + 1)) / 2), (S.at(i) + S.at(i + 1)) / 2), 'interp mid')
inter(False, lambda v, S, i, x: v.num_eq('mid', v.m.interp(S.list, (S.t(i) + S.t(i + 1)) / 2), S.at(i)), 'interp step')
inter(False, lambda v, S, i, x: v.num_eq('0', v.m.interp(S.list, x), S.at(0)), 'interp const')
inter(True, lambda v, S, i, x: v.num_eq('c', v.item(v.m.cols(S.list)[1], i), S.at(i)), 'cols')
inter(False, lambda v, S, i, x: v.num_eq('c', v.item(v.m.cols(S.list)[0], i), S.at(i)), 'cols wrong')


@t(True)
def anyneg(v):
    S = nums(v, 1)
    if not v.m.anyneg(S.list):
        v.check_each(S, lambda i: v.le('le', 0, S.at(i)))


@t(False)
def anyneg_wrong(v):
    S = nums(v, 1)
    if v.m.anyneg(S.list):
        v.check_each(S, lambda i: v.le('le', S.at(i), 0))


@t(False)
def allpos_wrong(v):
    S = nums(v, 1)
    if not v.m.allpos(S.list):
        v.check_each(S, lambda i: v.le('le', S.at(i), 0))


@t(True)
def inplace(v):
    S = boxes(v)
    v.m.inplace(S.list)
    v.each('r', S.list, S.n, lambda i, b: v.num_eq('v', b.v, S.at(i) + 1))


@t(False)
def inplace_wrong(v):
    S = boxes(v)
    v.m.inplace(S.list)
    v.each('r', S.list, S.n, lambda i, b: v.num_eq('v', b.v, S.at(i)))


@t(True)
def inplace_guard(v):
    S = boxes(v)
    v.m.inplace_guard(S.list)
    v.each('r', S.list, S.n, lambda i, b: v.le('v', b.v, 0))


@t(False)
def inplace_shared(v):
    S = boxes(v, 1)
    q = Box(v.real('q'))
    v.m.inplace_shared(S.list, q)
    v.each('r', S.list, S.n, lambda i, b: v.num_eq('v', q.v, S.at(i)))


@t(False)
def find_wrong(v):
    S = nums(v, 1)
    y = v.real('y')
    if v.m.find(S.list, y):
        v.check_each(S, lambda i: v.num_eq('e', S.at(i), y))


@t(True)
def zipd(v):
    S = nums(v, 2)
    r = v.m.zipd(S.list)
    v.each('r', r, S.n - 1, lambda i, x: v.num_eq('d', x, S.at(i + 1) - S.at(i)))


@t(False)
def zipd_wrong(v):
    S = nums(v, 2)
    r = v.m.zipd(S.list)
    v.each('r', r, S.n - 1, lambda i, x: v.num_eq('d', x, S.at(i) - S.at(i)))


@t(True)
def pairs_out(v):
    S = nums(v)
    r = v.m.pairs_out(S.list)

    def el(i, x):
        q, k = v.divmod(i, 2)
        v.num_eq('e', x, S.at(q) if k == 0 else -S.at(q))
    v.each('r', r, 2 * S.n, el)


@t(False)
def pairs_wrong(v):
    S = nums(v)
    r = v.m.pairs_out(S.list)

    def el(i, x):
        q, k = v.divmod(i, 2)
        v.num_eq('e', x, S.at(q))
    v.each('r', r, 2 * S.n, el)


@t(True)
def ext(v):
    S = nums(v)
    r = v.m.ext(S.list)

    def el(i, x):
        v.num_eq('e', x, 0 if i == 0 else 9 if i == S.n + 1 else S.at(i - 1) + 1)
    v.each('r', r, S.n + 2, el)


@t(True)
def nested(v):
    S = nums(v, 1)
    T = nums(v, 1, 't')
    r = v.m.nested(S.list, T.list)

    def el(i, x):
        q, k = v.divmod(i, T.n)
        v.num_eq('e', x, S.at(q) * T.at(k))
    v.each('r', r, S.n * T.n, el)


@t(False)
def nested_wrong(v):
    S = nums(v, 1)
    T = nums(v, 1, 't')
    r = v.m.nested(S.list, T.list)

    def el(i, x):
        q, k = v.divmod(i, T.n)
        v.num_eq('e', x, S.at(q) * T.at(0))
    v.each('r', r, S.n * T.n, el)


@t(True)
def alias_arg(v):
    S = nums(v)
    out = []
    v.m.alias_arg(S.list, out)
    v.each('r', out, S.n, lambda i, x: v.num_eq('e', x, S.at(i)))


def _later(wrong):
    def h(v):
        S = nums(v)
        k = v.real('k')
        o = v.m.Later(k)
        a, b = o.later(S.list)
        w = k + (1 if wrong else 0)
        v.each('a', a, S.n, lambda i, x: v.num_eq('e', x, S.at(i) * k))
        v.each('b', b, S.n, lambda i, x: v.num_eq('e', x, S.at(i) * k + S.cyc(i + 1) * w))
        v.num_eq('k', o.k, k + 1)
    return h


def _later_list(wrong):
    def h(v):
        S = nums(v)
        k = v.real('k')
        o = v.m.Later(k)
        b = o.later_list(S.list)
        w = 7 if wrong else k
        v.each('b', b, S.n, lambda i, x: v.num_eq('e', x, S.at(i) * k + S.cyc(i + 1) * w))
        v.check('sub', o.sub[0] == 7)
    return h


TESTS += [('later', True, _later(False)), ('later_wrong', False, _later(True)),
          ('later_list', True, _later_list(False)), ('later_list_wrong', False, _later_list(True))]


def _dict(f, want, n=lambda n: n, minlen=1, gen=False, other=False):
    def h(v):
        S = v.dict('d', lambda v, tag, key: ((lambda x: (x, x))(v.real(tag))), minlen)
        r = f(v.m, S)
        if gen:
            r = v.collect(r)
        v.each('r', r, n(S.n), lambda i, x: want(v, S, i, x))
    return h


def _pm(wrong):
    def w(v, S, i, x):
        q, r = v.divmod(i, 2)
        v.num_eq('e', x, S.at(q) * (1 if (r == 0) != wrong else -1))
    return w


def _from(v, S, i, x):
    if i == 0:
        v.num_eq('e', x, 7)
    else:
        _pm(False)(v, S, i - 1, x)


def _put(wrong):
    def w(v, S, i, x):
        k, x = x
        if i < S.n:
            v.check('k', k == S.key(i))
            v.num_eq('e', x, S.at(i))
        else:
            v.check('k', k == 'new')
            v.num_eq('e', x, 6 if wrong else 5)
    return w


def _put0(wrong):
    def w(v, S, i, x):
        v.check('k', x[0] == S.key(i))
        v.num_eq('e', x[1], S.at(i) if i != 0 or wrong else 5)
    return w


def _del0(wrong):
    def w(v, S, i, x):
        j = i if wrong else i + 1
        v.check('k', x[0] == S.key(j))
        v.num_eq('e', x[1], S.at(j))
    return w


def _in(v):
    S = v.dict('d', lambda v, tag, key: (0, 0), 2)
    v.check('in', S.key(1) in S.dict and S.key(0) in S.dict and S.key(0) != S.key(1) and 'other' not in S.dict)
    d = v.m.d_del(S.dict, S.key(1))
    v.check('not in', S.key(1) not in d and S.key(0) in d and S.key(1) in S.dict)


def _in_wrong(v):
    S = v.dict('d', lambda v, tag, key: (0, 0), 1)
    d = v.m.d_del(S.dict, S.key(0))
    v.check('in', S.key(0) in d)


eq = lambda f: (lambda v, S, i, x: v.num_eq('e', x, f(S, i)))
TESTS += [('d_values', True, _dict(lambda m, S: m.d_values(S.dict), eq(lambda S, i: 2 * S.at(i)))),
          ('d_values_wrong', False, _dict(lambda m, S: m.d_values(S.dict), eq(lambda S, i: 2 * S.at(0)))),
          ('d_loop', True, _dict(lambda m, S: m.d_loop(S.dict), lambda v, S, i, x: v.num_eq('e', x[1], S.at(i)))),
          ('d_put', True, _dict(lambda m, S: m.d_loop(m.d_put(S.dict, 'new', 5)), _put(False), lambda n: n + 1)),
          ('d_put_wrong', False, _dict(lambda m, S: m.d_loop(m.d_put(S.dict, 'new', 5)), _put(True), lambda n: n + 1)),
          ('d_put0', True, _dict(lambda m, S: m.d_loop(m.d_put(S.dict, S.key(0), 5)), _put0(False))),
          ('d_put0_wrong', False, _dict(lambda m, S: m.d_loop(m.d_put(S.dict, S.key(0), 5)), _put0(True))),
          ('d_del0', True, _dict(lambda m, S: m.d_loop(m.d_del(S.dict, S.key(0))), _del0(False), lambda n: n - 1, 2)),
          ('d_del0_wrong', False, _dict(lambda m, S: m.d_loop(m.d_del(S.dict, S.key(0))), _del0(True), lambda n: n - 1, 2)),
          ('d_in', True, _in), ('d_in_wrong', False, _in_wrong),
          ('gen', True, _dict(lambda m, S: m.gen(S.dict), _pm(False), lambda n: 2 * n, gen=True)),
          ('gen_wrong', False, _dict(lambda m, S: m.gen(S.dict), _pm(True), lambda n: 2 * n, gen=True)),
          ('gen_len_wrong', False, _dict(lambda m, S: m.gen(S.dict), _pm(False), lambda n: n, gen=True)),
          ('gen_from', True, _dict(lambda m, S: m.gen_from(S.dict), _from, lambda n: 2 * n + 1, gen=True)),
          ('gen_consumed_wrong', False, _dict(lambda m, S: m.gen_consumed(S.dict), _pm(False), lambda n: 2)),
          ('gen_consumed', True, _dict(lambda m, S: m.gen_consumed(S.dict), _pm(False), lambda n: 2 * n)),
          ('gen_sum_wrong', False, _dict(lambda m, S: m.gen_sum(S.dict), eq(lambda S, i: S.at(i)), gen=True)),
          ('gen_some_wrong', False, _dict(lambda m, S: m.gen_some(S.dict), eq(lambda S, i: S.at(i)), gen=True)),
          ('gen_some_wrong0', False, _dict(lambda m, S: m.gen_some(S.dict), eq(lambda S, i: S.at(i)), lambda n: 0, gen=True)),
          ('gen_filter_wrong', False, _dict(lambda m, S: m.gen_filter(S.dict), eq(lambda S, i: S.at(0) + 1), lambda n: 2, gen=True)),
          ('gen_shared_wrong', False, _dict(lambda m, S: m.gen_shared(S.dict), lambda v, S, i, x: v.num_eq('e', x[0], S.at(i)), gen=True))]


def _fold(name, claim, weak=False, arg=None):
    def h(v):
        S = nums(v, 1)
        w = v.integer('w', 0, S.n - 1)
        A = v.m.Acc
        v.carried(A, lambda v, n: A(v.real(n.replace(' ', '_'))),
                  lambda i, a: None if a.v is None else [a.v >= S.at(w) if w < i and not weak else True])
        x = arg(v) if arg else None
        r = getattr(v.m, name)(S.list, *([x] if arg else []))
        v.check('r', claim(v, S, w, r, x))
    return h


TESTS += [('fold', True, _fold('fold', lambda v, S, w, r, x: r.v >= S.at(w))),
          ('fold_weak', False, _fold('fold', lambda v, S, w, r, x: r.v >= S.at(w), True)),
          ('fold_wrong', False, _fold('fold', lambda v, S, w, r, x: r.v <= S.at(w))),
          ('fold_wrong2', False, _fold('fold', lambda v, S, w, r, x: r.v == S.at(0))),
          ('fold_none', True, _fold('fold_none', lambda v, S, w, r, x: r.v >= S.at(w))),
          ('fold_none_wrong', False, _fold('fold_none', lambda v, S, w, r, x: r.v > S.at(w))),
          ('fold_inplace_wrong', False, _fold('fold_inplace', lambda v, S, w, r, x: r.v == S.at(0))),
          ('fold_alias_wrong', False, _fold('fold_alias', lambda v, S, w, r, x: r.v == S.at(0))),
          ('fold_side_wrong', False, _fold('fold_side', lambda v, S, w, r, x: x.v == 3, arg=lambda v: v.m.Acc(3))),
          ('fold_same_wrong', False, _fold('fold_same', lambda v, S, w, r, x: x.v == 3, arg=lambda v: v.m.Acc(3))),
          ('fold_same_wrong2', False, _fold('fold_same', lambda v, S, w, r, x: r.v >= S.at(w), arg=lambda v: v.m.Acc(3)))]


def _vary(name, f, n=lambda S: S.n, both=False):
    def h(v):
        S = nums(v, 1)
        A = v.m.Acc
        a, b = A(v.real('a')), A(v.real('b'))
        b0 = b.v
        a0 = a.v
        v.varies(a, 'v')
        if both:
            v.varies(b, 'v')
        r = getattr(v.m, name)(S.list, a, *([b] if 'keep' in name else []))
        v.each('r', r, n(S), lambda i, x: f(v, S, i, x, a, b, a0, b0))
    return h


TESTS += [('vary_set', True, _vary('vary_set', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, S.at(i) + 1))),
          ('vary_set_wrong', False, _vary('vary_set', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', a.v, a0))),
          ('vary_comp', True, _vary('vary_comp', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, S.at(i) + 1))),
          ('vary_comp_wrong', False, _vary('vary_comp', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', a.v, a0))),
          ('vary_comp_wrong2', False, _vary('vary_comp', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', a.v, S.at(0)))),
          ('vary_old_wrong', False, _vary('vary_old', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, a0))),
          ('vary_old_comp_wrong', False, _vary('vary_old_comp', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, a0))),
          ('vary_old_wrong2', False, _vary('vary_old', lambda v, S, i, x, a, b, a0, b0: v.check('e', True))),
          ('vary_if_wrong', False, _vary('vary_if', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, 2))),
          ('vary_keep_wrong', False, _vary('vary_keep', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', b.v, b0))),
          ('vary_keep_wrong2', False, _vary('vary_keep', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', b.v, b0), both=True)),
          ('vary_sum_wrong', False, _vary('vary_sum', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, S.n * a0), n=lambda S: 1)),
          ('vary_after_wrong', False, _vary('vary_after', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, a0), n=lambda S: 1)),
          ('vary_after_wrong2', False, _vary('vary_after', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, S.at(0)), n=lambda S: 1)),
          ('vary_count_wrong', False, _vary('vary_count', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, a0), n=lambda S: 1)),
          ('vary_count_wrong2', False, _vary('vary_count', lambda v, S, i, x, a, b, a0, b0: v.num_eq('e', x, a0 + 1), n=lambda S: 1))]


def _ex(name, f, minlen=1, box=False):
    def h(v):
        S = (boxes if box else nums)(v, minlen)
        y = v.real('y')
        try:
            r = getattr(v.m, name)(S.list, y)
        except ValueError:
            r = 'raised'
        f(v, S, y, r)
    return h


def _each(f):
    return lambda v, S, y, r: v.check_each(S, lambda i: f(v, S, i, y, r))


def _lst(f):
    return lambda v, S, y, r: v.each('r', S.list, S.n, lambda i, b: f(v, S, i, y, r, b))


def _count(v, S, y, r):
    v.check('r', r <= S.n)


TESTS += [('ex_first', True, _ex('ex_first', lambda v, S, y, r: v.check('r', True) if r is None else v.num_eq('r', r, y))),
          ('ex_first_all', True, _ex('ex_first', _each(lambda v, S, i, y, r: v.check('r', S.at(i) != y) if r is None else v.check('r', True)))),
          ('ex_first_wrong', False, _ex('ex_first', _each(lambda v, S, i, y, r: v.check('r', True) if r is None else v.num_eq('r', S.at(i), y)))),
          ('ex_first_wrong2', False, _ex('ex_first', lambda v, S, y, r: v.check('r', True) if r is None else v.num_eq('r', S.at(0), y))),
          ('ex_first_wrong3', False, _ex('ex_first', lambda v, S, y, r: v.check('r', r is None))),
          ('ex_first_wrong4', False, _ex('ex_first', lambda v, S, y, r: v.check('r', r is not None))),
          ('ex_count_wrong', False, _ex('ex_count', lambda v, S, y, r: v.num_eq('r', r, S.n))),
          ('ex_count_wrong2', False, _ex('ex_count', lambda v, S, y, r: v.num_eq('r', r, 1))),
          ('ex_acc_wrong', False, _ex('ex_acc', lambda v, S, y, r: v.each('r', r, S.n, lambda i, x: v.num_eq('e', x, S.at(i))))),
          ('ex_acc_wrong2', False, _ex('ex_acc', lambda v, S, y, r: v.num_eq('e', v.length(r), 0))),
          ('ex_last_wrong', False, _ex('ex_last', lambda v, S, y, r: v.num_eq('e', r, y))),
          ('ex_last_wrong2', False, _ex('ex_last', lambda v, S, y, r: v.num_eq('e', r, S.at(0)))),
          ('ex_else', True, _ex('ex_else', lambda v, S, y, r: v.check('e', v.or_(r == 0, r == y)))),
          ('ex_else_wrong', False, _ex('ex_else', lambda v, S, y, r: v.check('e', r == y))),
          ('ex_prev_wrong', False, _ex('ex_prev', lambda v, S, y, r: v.check('e', r is None))),
          ('ex_prev0_wrong', False, _ex('ex_prev0', lambda v, S, y, r: v.check('e', r == 5))),
          ('ex_inplace_wrong', False, _ex('ex_inplace', _lst(lambda v, S, i, y, r, b: v.num_eq('e', b.v, y + 1)), box=True)),
          ('ex_inplace_wrong2', False, _ex('ex_inplace', _lst(lambda v, S, i, y, r, b: v.check('e', v.or_(b.v == S.at(i), S.at(i) == y))), box=True)),
          ('ex_inplace2_wrong', False, _ex('ex_inplace2', _lst(lambda v, S, i, y, r, b: v.num_eq('e', b.v, S.at(i) + 1)), box=True)),
          ('ex_raise_wrong', False, _ex('ex_raise', _lst(lambda v, S, i, y, r, b: v.num_eq('e', b.v, S.at(i) + 1)), box=True)),
          ('ex_raise2_wrong', False, _ex('ex_raise2', _lst(lambda v, S, i, y, r, b: v.num_eq('e', b.v, S.at(i) + 1)), box=True)),
          ('ex_raise2_wrong2', False, _ex('ex_raise2', lambda v, S, y, r: v.num_eq('e', S.list[0].v, S.at(0)) if r == 'raised' else v.check('e', True), box=True, minlen=2)),
          ('ex_nested', True, _ex('ex_nested', lambda v, S, y, r: v.check('e', True))),
          ('ex_nested_wrong', False, _ex('ex_nested', lambda v, S, y, r: v.check('e', r is None) if r is None else v.num_eq('e', r, S.at(0)))),
          ('ex_nested_wrong2', False, _ex('ex_nested', _each(lambda v, S, i, y, r: v.check('e', S.at(i) == S.at(0) + y) if r is not None else v.check('e', True)))),
          ('ex_two', True, _ex('ex_two', lambda v, S, y, r: v.num_eq('e', r, v.sum(S.n, lambda i: S.at(i))))),
          ('ex_two_wrong', False, _ex('ex_two', lambda v, S, y, r: v.num_eq('e', r, S.n * y)))]


def _g(fn, claim, pre=None):
    def h(v):
        n = v.integer('n', lo=2)
        A = v.grid('a', n, n)
        if pre is not None:
            pre(v, A, n)
        r = getattr(v.m, fn)(A.arr, n)
        claim(v, A, n, r)
    return h


def _gc(f):
    """f(A, n, r, i, j) -> value expected of r[i, j]"""
    def claim(v, A, n, r):
        for i, j in v.cells(n, n):
            v.num_eq('cell', r[i, j], f(v, A, n, i, j))
    return claim


def _gpos(v, A, n):
    v.assume(v.largest(n, n, A.at) > 0)


TESTS += [('g_neg', True, _g('g_neg', _gc(lambda v, A, n, i, j: -A.at(i, j)))),
          ('g_neg_wrong', False, _g('g_neg', _gc(lambda v, A, n, i, j: -A.at(j, i)))),
          ('g_neg_wrong2', False, _g('g_neg', lambda v, A, n, r: v.num_eq('c', r[0, 0], -A.at(0, 1)))),
          ('g_inplace_wrong', False, _g('g_inplace_left', _gc(lambda v, A, n, i, j: A.at(i, j) + (A.at(i, j - 1) if j > 0 else 0)))),
          ('g_transpose_wrong', False, _g('g_transpose', _gc(lambda v, A, n, i, j: A.at(i, j)))),
          ('g_transpose', True, _g('g_transpose', lambda v, A, n, r: [v.num_eq('c', r[j, i], A.at(i, j)) for i, j in v.cells(n, n)])),
          ('g_from1_wrong', False, _g('g_from1', _gc(lambda v, A, n, i, j: 0))),
          ('g_upper', True, _g('g_upper', _gc(lambda v, A, n, i, j: 0 if j > i else A.at(i, j)))),
          ('g_upper_wrong', False, _g('g_upper', _gc(lambda v, A, n, i, j: 0 if j >= i else A.at(i, j)))),
          ('g_first_wrong', False, _g('g_first_col', _gc(lambda v, A, n, i, j: A.at(i, j)))),
          ('g_sum_wrong', False, _g('g_sum_so_far', _gc(lambda v, A, n, i, j: A.at(i, j)))),
          ('g_twice', True, _g('g_twice', _gc(lambda v, A, n, i, j: 2 * A.at(i, j)))),
          ('g_twice_wrong', False, _g('g_twice', lambda v, A, n, r: v.num_eq('c', A.arr[0, 0], A.at(0, 0)))),
          ('g_twice_wrong2', False, _g('g_twice', lambda v, A, n, r: [v.num_eq('c', A.arr[i, j], A.at(i, j)) for i, j in v.cells(n, n)])),
          ('g_two_pass_wrong', False, _g('g_two_pass', _gc(lambda v, A, n, i, j: A.at(i, j) + A.at(i, 0)))),
          ('g_snap_wrong', False, _g('g_snap', _gc(lambda v, A, n, i, j: A.at(i, j) + A.at(0, 0)))),
          ('g_inner_wrong', False, _g('g_inner_only', _gc(lambda v, A, n, i, j: 5))),
          ('g_over', True, _g('g_over', _gc(lambda v, A, n, i, j: v.ite(v.and_(i == 0, j == 0), 2, 1)))),
          ('g_over_wrong', False, _g('g_over', _gc(lambda v, A, n, i, j: 1))),
          ('g_max', True, _g('g_max', lambda v, A, n, r: [v.check('c', r >= A.at(i, j)) for i, j in v.cells(n, n)])),
          ('g_max_wrong', False, _g('g_max', lambda v, A, n, r: [v.check('c', r > A.at(i, j)) for i, j in v.cells(n, n)])),
          ('g_max_wrong2', False, _g('g_max', lambda v, A, n, r: v.num_eq('c', r, A.at(0, 0)))),
          ('g_scale', True, _g('g_scale', lambda v, A, n, r: v.num_eq('c', r.max(), 1), _gpos)),
          ('g_scale_wrong', False, _g('g_scale', _gc(lambda v, A, n, i, j: A.at(i, j)), _gpos)),
          ('g_near', True, _g('g_near', _gc(lambda v, A, n, i, j: A.at(i, j) + (A.at(i - 1, j) if i > 0 else 0)))),
          ('g_near_wrong', False, _g('g_near', _gc(lambda v, A, n, i, j: A.at(i, j) + (A.at(i + 1, j) if i < n - 1 else 0))))]


def main():
    only = sys.argv[1:]
    bad = 0
    m = load()
    for name, expect, h in TESTS:
        if only and name not in only:
            continue
        ex = engine.Explorer(h, m, budget_s=20)
        ex.run()
        st = {}
        for o in ex.obls:
            st[o.status] = st.get(o.status, 0) + 1
        proved = bool(st) and set(st) == {'proved'} and not ex.unsupported and not ex.incomplete
        why = (ex.unsupported[:1] or [ex.incomplete or ''])[0]
        unsound = proved and not expect
        bad += unsound
        flag = 'UNSOUND' if unsound else '' if proved == expect else 'incomplete'
        print('%-18s want %-5s %s paths %d %s %s' % (name, expect, st, ex.paths, flag, str(why)[:90] if flag else ''))
    print('unsound:', bad)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
