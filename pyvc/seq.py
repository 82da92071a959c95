"""
Sequences of arbitrary (symbolic) length, and loops over them.

A SymSeq is a concatenation of parts: a list of known elements, or a Blk: n chunks (n symbolic), chunk i obtained by
get(i).  Input blocks make their elements on demand, one per index (indices that may be equal split the path).
A comprehension or loop over a block is executed once, at the focus: an arbitrary index 0 <= j < n.  What is proved
about chunk j is therefore proved about every chunk.  This is the inductive step of the loop with the invariant
"the accumulators hold the chunks of the iterations done so far, everything else is as before the loop"; that the body
keeps that invariant is checked by comparing the reachable state before and after the focus iteration (State).
Whatever does not fit is Unsupported, and the harness falls back on its bounded twin.
"""
import builtins
import dis
import re
import math
import sys
import types
from fractions import Fraction
import numpy as np
from . import poly as P
from . import sym
from .sym import SymReal, Unsupported, wrap, to_poly, F


class Restart(BaseException):
    """run the exploration again with one more hint about a loop"""


def path():
    p = sym.ctx.cur
    if p is None:
        raise Unsupported('sequence of symbolic length outside of a path')
    return p


def hint(*h):
    ex = path().ex
    if h in ex.hints:
        raise Unsupported('loop at %s: %s' % (h[0], h[1:]))
    ex.hints.add(h)
    raise Restart('%s' % (h,))


def num(x):
    """symbolic or plain integer, plain when constant"""
    p = to_poly(x)
    if p is None:
        raise Unsupported('index %r' % (x,))
    if p.is_const():
        c = Fraction(p.const())
        if c.denominator != 1:
            raise Unsupported('index %s' % c)
        return int(c)
    return wrap(p)


def key(x):
    p = to_poly(x)
    return int(p.const()) if p.is_const() else p


# ------------------------------------------------------------------------------------------------ focus
def fresh_index(base, lo, n):
    pt = path()
    j = wrap(P.var(pt.fresh(base), True, True))
    pt.add_checked(j >= lo)
    pt.add_checked(j < n)
    return j


def focus(n, lo=0):
    pt = path()
    k = (key(n), lo, tuple(key(a) for a in pt.active))
    j = pt.foci.get(k)
    if j is None:
        j = pt.foci[k] = fresh_index('focus', lo, n)
    return j


class Nested:
    def __init__(self, j):
        self.j = j

    def __enter__(self):
        path().active.append(self.j)

    def __exit__(self, et, ev, tb):
        if et is None:
            path().active.pop()


# ------------------------------------------------------------------------------------------------ blocks
class Blk:
    """n chunks; regen: any index may be asked for, otherwise only `at` (the focus of the loop that made it)"""
    __slots__ = ('n', 'make', 'clen', 'memo', 'regen', 'at', 'only', 'pristine', 'name', 'forked', 'src', 'off')

    def __init__(self, n, make=None, clen=1, at=None, chunk=None, name='', forked=False):
        self.n = n
        self.make = make
        self.clen = clen
        self.memo = {}
        self.regen = make is not None
        self.at = at
        self.only = None        # after an in-place update: the only indices whose elements are known
        self.pristine = {}
        self.name = name
        self.src = None         # (block this is a part of, offset)
        self.off = 0            # position of the first chunk in the sequence it was drawn from, as far as known
        self.forked = set()     # chunks that may have come out differently at another index
        if chunk is not None:
            self.memo[key(at)] = (at, chunk)
            if forked:
                self.forked.add(key(at))

    def get(self, i):
        i = num(i)
        k = key(i)
        if k not in self.memo:
            if self.at is not None and not self.regen:
                raise Unsupported('element away from the focus of the loop that produced it')
            for k2, (j, ch) in list(self.memo.items()):
                d = to_poly(i) - to_poly(j)
                if d.is_const():
                    continue
                if sym.decide(sym.eq0(d)):
                    k = k2
                    break
        if self.only is not None and k not in self.only:
            raise Unsupported('element away from the focus of a loop that changed it')
        if k not in self.memo:
            if not self.regen:
                raise Unsupported('element away from the focus of the loop that produced it')
            before = path().forks
            ch = self.make(i)
            if self.clen is not None and key(clen_of(ch)) != key(self.clen):
                raise Unsupported('chunks of different lengths')
            self.memo[k] = (i, ch)
            self.pristine[k] = State.chunk(ch)
            if path().forks != before:
                self.forked.add(k)
        elif k in self.forked:
            path().forks += 1
        return self.memo[k][1]

    def focus(self):
        if self.regen and self.only is None:
            return focus(self.n)
        j = self.at
        if self.only is not None:
            j = self.only_at
        act = set()
        for a in path().active:
            act |= P.atoms_of(to_poly(a))
        if isinstance(j, SymReal) and P.atoms_of(to_poly(j)) & act:
            raise Unsupported('nested use of a focus')
        return j

    @property
    def only_at(self):
        return self.only[max(self.only, key=lambda k: not isinstance(k, int))]

    def length(self):
        if self.clen is None:
            raise Unsupported('length of chunks of different lengths')
        return num(self.n * self.clen)


def clen_of(ch):
    return ch.length() if isinstance(ch, SymSeq) else len(ch)


class Opaque:
    """the unknown chunks of the iterations before the focus"""
    __slots__ = ('loop',)

    def __init__(self, loop):
        self.loop = loop

    def read(self):
        self.loop.wants_peel('reads an accumulator')


def divide(x, c):
    """x = q*c + r by coefficients (c an integer or a monomial)"""
    p, d = to_poly(x), to_poly(c)
    if len(d.d) != 1:
        return None
    (dm, dc), = d.d.items()
    dm = dict(dm)
    q, r = {}, {}
    for m, co in p.d.items():
        mm = dict(m)
        if not dm and not mm:
            fl = Fraction(co) // Fraction(dc)
            if fl:
                q[m] = fl
            if Fraction(co) - fl * dc:
                r[m] = Fraction(co) - fl * dc
            continue
        ok = all(mm.get(a, 0) >= e for a, e in dm.items()) and (Fraction(co) / dc).denominator == 1
        if not ok:
            r[m] = co
            continue
        for a, e in dm.items():
            mm[a] -= e
            if not mm[a]:
                del mm[a]
        q[tuple(sorted(mm.items()))] = Fraction(co) / dc
    return wrap(P.Poly(q)), wrap(P.Poly(r))


class SymSeq:
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        self.parts = []
        for p in parts:
            self._push(p)

    def _push(self, p):
        if isinstance(p, list):
            if not p:
                return
            if self.parts and isinstance(self.parts[-1], list):
                self.parts[-1].extend(p)
            else:
                self.parts.append(list(p))
        else:
            self.parts.append(p)

    # -------------------------------------------------------------- reading
    def length(self):
        n = 0
        for p in self.parts:
            if isinstance(p, Opaque):
                p.read()
            n = n + (len(p) if isinstance(p, list) else p.length())
        return num(n)

    def __len__(self):
        raise Unsupported('native len() of a sequence of symbolic length')

    def __bool__(self):
        if any(isinstance(p, list) for p in self.parts):
            return True
        n = self.length()
        return bool(n != 0)

    def __iter__(self):
        raise Unsupported('native iteration over a sequence of symbolic length')

    def __contains__(self, x):
        raise Unsupported('membership in a sequence of symbolic length')

    def index_of(self, i):
        """(part number, offset in the part) of index i"""
        i = num(i)
        if isinstance(i, int):
            if i < 0:
                back = 0
                for k in range(len(self.parts) - 1, -1, -1):
                    p = self.parts[k]
                    if not isinstance(p, list):
                        break
                    if -i <= back + len(p):
                        return k, len(p) + back + i
                    back += len(p)
                i = num(self.length() + i)
                if isinstance(i, SymReal) and i < 0 or not isinstance(i, SymReal) and i < 0:
                    raise IndexError('list index out of range')
        else:
            i = unmod(i)
            if len(self.parts) == 1 and isinstance(self.parts[0], Blk):
                n = self.length()
                if not sure(i >= 0) and sure(i < n) and sure(i >= -n):
                    return 0, wrap_index(i, n)
            if i < 0:
                i = num(i + self.length())
                if i < 0:
                    raise IndexError('list index out of range')
        for k, p in enumerate(self.parts):
            if isinstance(p, Opaque):
                p.read()
            if isinstance(p, list):
                if isinstance(i, int):
                    if 0 <= i < len(p):
                        return k, i
                else:
                    for c in range(len(p)):
                        if i == c:
                            return k, c
                i = num(i - len(p))
            else:
                if i < p.length():
                    return k, i
                i = num(i - p.length())
        raise IndexError('list index out of range')

    def at(self, i):
        k, r = self.index_of(i)
        p = self.parts[k]
        if isinstance(p, list):
            return p[r]
        if key(p.clen) == 1:
            ch = p.get(r)
            return ch[0] if isinstance(ch, list) else ch.at(0)
        d = divide(r, p.clen)
        if d is None:
            raise Unsupported('index into chunks')
        q, r = d
        ok = sym.f_and(r >= 0, r < p.clen)
        if not (ok is True or path().decide(ok)):
            raise Unsupported('index into chunks')
        ch = p.get(q)
        r = num(r)
        return ch.at(r) if isinstance(ch, SymSeq) else SymSeq([ch]).at(r)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step in (None, 1):
                s = self
                if i.stop is not None:
                    s = s.split(s.bound(i.stop))[0]
                if i.start is not None:
                    s = s.split(s.bound(i.start))[1]
                return s.copy() if s is self else s
            if i == slice(None, None, -1):
                return self.reverse_copy()
            raise Unsupported('slice %r' % (i,))
        if isinstance(i, (int, SymReal)):
            return self.at(i)
        raise TypeError('list indices must be integers or slices, not %s' % type(i).__name__)

    def bound(self, i):
        i = num(i)
        if isinstance(i, int) and i >= 0:
            return i
        if isinstance(i, int) or i < 0:
            i = num(i + self.length())
            if i < 0:
                i = 0
        return i

    def split(self, k):
        a, b = SymSeq(), SymSeq()
        k = num(k)
        done = False
        for p in self.parts:
            if done:
                b._push(p)
                continue
            if isinstance(p, Opaque):
                p.read()
            if isinstance(p, list):
                cut = None
                if isinstance(k, int):
                    if k <= len(p):
                        cut = k
                else:
                    for c in range(len(p)):
                        if k == c:
                            cut = c
                            break
                if cut is None:
                    a._push(p)
                    k = num(k - len(p))
                else:
                    a._push(p[:cut])
                    b._push(p[cut:])
                    done = True
            elif isinstance(k, int) and k == 0:
                done = True
                b._push(p)
            elif k < p.length():
                if isinstance(k, SymReal) and k == 0:
                    b._push(p)
                    done = True
                    continue
                if key(p.clen) != 1:
                    raise Unsupported('cut inside chunks')
                a._push(view(p, 0, k))
                b._push(view(p, k, num(p.n - k)))
                done = True
            else:
                a._push(p)
                k = num(k - p.length())
        return a, b

    def reverse_copy(self):
        out = SymSeq()
        for p in reversed(self.parts):
            if isinstance(p, Opaque):
                p.read()
            if isinstance(p, list):
                out._push(p[::-1])
            else:
                if not p.regen:
                    raise Unsupported('reversal of a loop result')
                out._push(Blk(p.n, lambda i, p=p: rev(p.get(num(p.n - 1 - i))), p.clen))
        return out

    def copy(self):
        return SymSeq(self.parts)

    # -------------------------------------------------------------- writing
    def append(self, x):
        self._push([x])

    def extend(self, xs):
        if isinstance(xs, SymSeq):
            for p in list(xs.parts):
                self._push(p)
        else:
            self._push(list(xs))

    def insert(self, i, x):
        a, b = self.split(self.bound(i))
        self.parts = SymSeq(a.parts + [[x]] + b.parts).parts

    def pop(self, i=-1):
        k, r = self.index_of(i)
        p = self.parts[k]
        if not isinstance(p, list):
            x = self.at(i)
            a, b = self.split(self.bound(i))
            _, b = b.split(1)
            self.parts = SymSeq(a.parts + b.parts).parts
            return x
        x = p.pop(r)
        self.parts = SymSeq(self.parts).parts
        return x

    def clear(self):
        self.parts = []

    def reverse(self):
        self.parts = self.reverse_copy().parts

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            if i == slice(None):
                self.parts = as_seq(x).copy().parts
                return
            raise Unsupported('slice assignment')
        k, r = self.index_of(i)
        if not isinstance(self.parts[k], list):
            p = self.parts[k]
            if key(p.clen) != 1:
                raise Unsupported('assignment into chunks')
            off = 0
            for q in self.parts[:k]:
                off = off + (len(q) if isinstance(q, list) else q.length())
            a, b = self.split(num(off + r))
            _, b = b.split(1)
            self.parts = SymSeq(a.parts + [[x]] + b.parts).parts
            return
        self.parts[k][r] = x

    def __add__(self, o):
        s = self.copy()
        if isinstance(o, (list, SymSeq)):
            s.extend(o)
            return s
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return SymSeq([list(o)] + self.parts)
        return NotImplemented

    def __iadd__(self, o):
        self.extend(o if isinstance(o, SymSeq) else list(o))
        return self

    def __eq__(self, o):
        if not isinstance(o, (SymSeq, list)):
            return NotImplemented
        if self is o:
            return True             # lists compare their elements by identity first
        a, b = self, as_seq(o)
        if not (a.length() == b.length()):
            return False
        z = sym_zip(a, b)
        if isinstance(z, list):
            return all(x is y or x == y for x, y in z)
        return sym_all(comp(z, lambda s: [x is y or x == y for x, y in s], 'list', ('==', 0, 0)))

    __hash__ = None


def rev(ch):
    return ch.reverse_copy() if isinstance(ch, SymSeq) else ch[::-1]


def view(p, off, n):
    if not isinstance(off, SymReal) and off == 0 and not p.regen:
        q = Blk(n, None, p.clen, p.at, None)
        q.memo = p.memo
        q.forked = p.forked
        q.src = p.src or (p, 0)
        q.off = p.off
        return q
    q = Blk(n, lambda i: p.get(num(off + i)), p.clen, name=p.name)
    root, o = p.src or (p, 0)
    q.src = (root, num(o + off))
    q.off = num(p.off + off)
    return q


class HasSeq:
    """something that iterates over a list, possibly one of symbolic length"""
    def symseq(self):
        return None


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, Rows):
        return x.rows()
    if isinstance(x, HasSeq) and x.symseq() is not None:
        return x.symseq()
    return SymSeq([list(x)])


def is_sym(x):
    return isinstance(x, (SymSeq, Rows)) or isinstance(x, HasSeq) and x.symseq() is not None


def unwrap(x):
    if isinstance(x, Rows):
        return x.rows()
    if isinstance(x, HasSeq) and x.symseq() is not None:
        return x.symseq()
    if type(x) is SymDict:
        return x.keys()
    return x


def simp(s):
    """a plain list when every element is known"""
    if isinstance(s, SymSeq) and all(isinstance(p, list) for p in s.parts):
        return [x for p in s.parts for x in p]
    return s


# ------------------------------------------------------------------------------------------------ reachable state
class Poison:
    """value left behind by the last iteration of a loop"""
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _bad(self, *a, **k):
        raise Unsupported('value of a variable left behind by a loop')

    __class__ = property(_bad)
    __getattr__ = __call__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = _bad
    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __getitem__ = __setitem__ = __setattr__ = __hash__ = __str__ = __repr__ = __neg__ = __abs__ = __contains__ = _bad
    __enter__ = __exit__ = __index__ = __int__ = __float__ = __iadd__ = __pow__ = __floordiv__ = __mod__ = _bad


ATOM = (type(None), bool, int, float, complex, str, bytes, Fraction, type, types.ModuleType, types.BuiltinFunctionType,
        np.generic, np.dtype)


class State:
    """canonical form of everything reachable from some roots"""
    LIMIT = 60000

    def __init__(self, roots, blks=None, cells=False):
        self.num = {}
        self.keep = []
        self.cells = cells      # look into the cells that loops over whole matrices have written
        self.parts = []                                       # everything that can be set back: (object, content)
        self.out = []
        self.blks = {} if blks is None else dict(blks)      # id -> (blk, keys at the time)
        self.fixed = blks is not None
        self.lists = {}                                       # id -> (list, items, holders, path)
        self.enc = {}
        for nm in sorted(roots):
            self.out = []
            self.walk(roots[nm], ('frame', nm), (nm,))
            self.enc[nm] = tuple(self.out)
        self.chunks = {}
        done = set()
        todo = list(self.blks.values())
        while todo:
            b, ks = todo.pop()
            if id(b) in done:
                continue
            done.add(id(b))
            for k in ks:
                if k in b.memo:
                    n0 = len(self.blks)
                    self.out = []
                    self.walk(b.memo[k][1], ('blk', None), ('<block>',))
                    self.chunks[id(b), k] = tuple(self.out)
                    if len(self.blks) != n0:
                        todo = list(self.blks.values())

    @staticmethod
    def chunk(ch):
        return State({'c': ch}, {}).enc['c']

    def ref(self, x):
        k = self.num.get(id(x))
        if k is not None:
            self.out.append(k)
            return False
        self.num[id(x)] = len(self.num)
        self.keep.append(x)
        if len(self.num) > self.LIMIT:
            raise Unsupported('state too large')
        return True

    def walk(self, x, holder, where):
        out = self.out
        t = type(x)
        if t is Poison:
            out.append(('poison', id(x)))
            return
        if t is SymReal:
            out.append(('r', x.p))
            return
        if isinstance(x, F):
            out.append(('F', x.key()))
            return
        if isinstance(x, ATOM):
            out.append((t.__name__, x if not isinstance(x, (type, types.ModuleType, float)) else
                        id(x) if not isinstance(x, float) else repr(x)))
            return
        if t in (list, SymSeq) and id(x) in self.lists:
            self.lists[id(x)][2].append(holder)
        if not self.ref(x):
            return
        if t is tuple:
            out.append(('tuple', len(x)))
            for i, e in enumerate(x):
                self.walk(e, ('no', x), where + (('i', i),))
            return
        if t is list:
            self.lists[id(x)] = (x, list(x), [holder], where)
            self.parts.append((x, list(x)))
            out.append(('list', len(x)))
            for i, e in enumerate(x):
                self.walk(e, ('item', x, i), where + (('i', i),))
            return
        if t is SymSeq:
            self.lists[id(x)] = (x, [p if not isinstance(p, list) else list(p) for p in x.parts], [holder], where)
            stop = [i for i, p in enumerate(x.parts) if isinstance(p, Opaque)]
            parts = x.parts[:stop[0] + 1] if stop else x.parts      # an accumulator: what was there before the loop
            out.append(('seq', len(parts)))
            for p in parts:
                if isinstance(p, list):
                    out.append(('lit', len(p)))
                    for i, e in enumerate(p):
                        self.walk(e, ('item', p, i), where + (('i', i),))
                else:
                    out.append((type(p).__name__, id(p)))
                    self.keep.append(p)
                    if isinstance(p, Blk) and id(p) not in self.blks:
                        self.blks[id(p)] = (p, list(p.memo))
            return
        if t is SymDict:
            out.append('symdict')
            self.walk(x.seq, ('no', x), where)
            return
        if isinstance(x, dict):
            out.append(('dict', len(x)))
            self.parts.append((x, dict(x)))
            for k, e in x.items():
                self.walk(k, ('no', x), where)
                self.walk(e, ('item', x, k), where + (('i', k),))
            for k, e in getattr(x, '__dict__', {}).items():
                out.append(k)
                self.walk(e, ('attr', x, k), where + (('a', k),))
            return
        if isinstance(x, (set, frozenset)):
            out.append(('set', len(x), frozenset(id(e) if not isinstance(e, ATOM) else e for e in x)))
            return
        if isinstance(x, np.ndarray):
            out.append(('array', x.shape, x.dtype.str))
            if x.dtype == object:
                for e in x.ravel():
                    self.walk(e, ('no', x), where)
            else:
                out.append(x.tobytes())
            return
        if isinstance(x, types.FunctionType):
            out.append(('fn', id(x.__code__)))
            for c in x.__closure__ or ():
                self.walk(c, ('no', x), where)
            for e in (x.__defaults__ or ()) + tuple((x.__kwdefaults__ or {}).values()):
                self.walk(e, ('no', x), where)
            for k, e in x.__dict__.items():
                self.walk(e, ('no', x), where)
            return
        if isinstance(x, types.CellType):
            try:
                c = x.cell_contents
            except ValueError:
                out.append('empty cell')
                return
            self.parts.append((x, c))
            self.walk(c, ('cell', x), where + (('cell',),))
            return
        if isinstance(x, types.MethodType):
            out.append('method')
            self.walk(x.__func__, ('no', x), where)
            self.walk(x.__self__, ('no', x), where)
            return
        mod = getattr(t, '__module__', '') or ''
        if mod.startswith('pyvc') and t is not Rows:
            out.append(('pyvc', id(x)))
            if t.__name__ == 'Mat':
                out.append(x.version)
                if self.cells:
                    out.append(len(x.log))
            elif t.__name__ == '_RGI':
                self.walk(x.values, ('no', x), where)
            return
        if t is Rows:
            out.append(('rows', x.width, x.t))
            self.walk(x.seq, ('no', x), where)
            return
        if hasattr(x, '__next__'):
            raise Unsupported('an iterator in the state of a loop')
        out.append(('obj', id(t)))
        d = getattr(x, '__dict__', None)
        if d is None and not hasattr(t, '__slots__'):
            out.append(id(x))
            return
        if d is not None:
            if isinstance(d, dict):
                self.parts.append((d, dict(d)))
            for k, e in d.items():
                out.append(k)
                self.walk(e, ('attr', x, k), where + (('a', k),))
        for c in t.__mro__:
            sl = c.__dict__.get('__slots__', ())
            for k in ((sl,) if isinstance(sl, str) else sl):
                if k in ('__dict__', '__weakref__'):
                    continue
                try:
                    e = getattr(x, k)
                except AttributeError:
                    continue
                out.append(k)
                self.walk(e, ('no', x), where + (('a', k),))

    @staticmethod
    def content(x):
        return list(x) if type(x) is list else dict(x) if isinstance(x, dict) else x.cell_contents

    @staticmethod
    def put(parts):
        for x, c in parts:
            if type(x) is list:
                x[:] = c
            elif isinstance(x, dict):
                x.clear()
                x.update(c)
            else:
                x.cell_contents = c

    def back(self):
        """set everything back to what it was; the way forward again"""
        now = [(x, self.content(x)) for x, c in self.parts]
        self.put(self.parts)
        return now

    def changed_chunks(self, post):
        bad = [(b, k) for (i, k), e in self.chunks.items() for b in (self.blks[i][0],)
               if post.chunks.get((i, k)) != e]
        for i, (b, ks) in self.blks.items():
            for k in b.memo:
                if k not in ks and k in b.pristine and State.chunk(b.memo[k][1]) != b.pristine[k]:
                    bad.append((b, k))
        return bad


def follow(roots, where):
    if where[0] not in roots:
        raise Unsupported('accumulator out of reach')
    x = roots[where[0]]
    for s in where[1:]:
        if s[0] == 'a':
            x = getattr(x, s[1])
        elif s[0] == 'i':
            x = x[s[1]]
        elif s[0] == 'cell':
            x = x.cell_contents
        else:
            raise Unsupported('accumulator out of reach')
    return x


# ------------------------------------------------------------------------------------------------ comprehensions
def comp(it, f, kind, site):
    """f(list) evaluates the comprehension over a list"""
    it = unwrap(it)
    if not isinstance(it, SymSeq):
        return f(it)
    out = SymSeq()
    for p in list(it.parts):
        if isinstance(p, Opaque):
            p.read()
        if isinstance(p, list):
            out.extend(f(list(p)))
        else:
            map_blk(out, p, f, kind, site)
    return simp(out)


def on_chunk(f, ch, kind, site):
    if isinstance(ch, SymSeq):
        r = comp(ch, f, kind, site)
    else:
        r = f(list(ch))
    return r if isinstance(r, (list, SymSeq)) else list(r)


def closure_state(f, blks=None):
    return State({'f': f}, blks, True)


def map_blk(out, p, f, kind, site):
    pt = path()
    if not (p.n > 0):
        return
    lo = 0
    if (site, 'peel') in pt.ex.hints:
        out.extend(on_chunk(f, p.get(0), kind, site))
        if not (p.n > 1):
            return
        lo = 1
    if lo:
        if not p.regen or p.only is not None:
            raise Unsupported('first iteration of a loop over a loop result')
        j = focus(p.n, lo)
    else:
        j = p.focus()
    pt.loops += 1
    entry = (pt.loops, tuple(pt.trace))
    before = pt.forks
    src = p.get(j)
    vary = Vary(site)
    npc = len(pt.pc)
    pre = closure_state(f)
    with Nested(j):
        ch = on_chunk(f, src, kind, site)
    vary.after()
    post = closure_state(f, pre.blks)
    bad = pre.changed_chunks(post)
    if pre.enc != post.enc or bad:
        vary.diagnose()
        if not lo:
            hint(site, 'peel')
        raise Unsupported('comprehension with side effects at %s' % (site,))
    vary.end(npc, {'f': f, 'ch': ch})
    shape(site, entry, key(clen_of(ch)))

    def make(i):
        i = num(i + lo)
        ch = p.get(i)
        was = p.pristine.get(key(i))
        if was is not None and State.chunk(ch) != was:
            raise Unsupported('element changed since the comprehension was evaluated')
        if closure_state(f, pre.blks).enc == pre.enc:
            with Nested(i):
                return on_chunk(f, ch, kind, site)
        # evaluated in the state of that time
        now = pre.back()
        try:
            if closure_state(f, pre.blks).enc != pre.enc:
                raise Unsupported('state changed since the comprehension was evaluated')
            with Nested(i):
                out = on_chunk(f, ch, kind, site)
            if closure_state(f, pre.blks).enc != pre.enc:
                raise Unsupported('comprehension with side effects at %s' % (site,))
            return out
        finally:
            pre.put(now)
    n = num(p.n - lo)
    rel = num(j - lo)
    forked = pt.forks != before
    if p.regen and p.only is None and not vary.mine:
        b = Blk(n, make, clen_of(ch), name=p.name)
        b.memo[key(rel)] = (rel, ch)
        b.pristine[key(rel)] = State.chunk(ch)
        if forked:
            b.forked.add(key(rel))
    else:
        b = Blk(n, None, clen_of(ch), rel, ch, forked=forked)
    b.off = num(p.off + lo)
    if clen_of(ch) != 0:
        out._push(b)


def shape(site, entry, sig):
    """every path through one loop must produce chunks of the same shape"""
    ex = path().ex
    if (site, 'shapes') in ex.hints:
        raise Unsupported('iterations of different shapes at %s' % (site,))
    old = ex.shapes.setdefault((site, entry), sig)
    if old != sig:
        hint(site, 'shapes')


def flat(xs):
    out = SymSeq()
    for x in xs:
        out.extend(x)
    return simp(out)


# ------------------------------------------------------------------------------------------------ for loops
class Plain:
    __slots__ = ('it',)
    upd = None

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


def for_(it, site, info):
    it = unwrap(it)
    if isinstance(it, SymIter):
        return Loop(it.seq, site, info, it)
    if not isinstance(it, SymSeq):
        return Plain(it)
    return Loop(it, site, info)


class SymIter:
    """iter() of a sequence of symbolic length, advanced by one for loop and by next() inside it"""
    def __init__(self, s):
        self.seq = s
        self.cur, self.pos, self.last = [], 0, None

    def next(self):
        if self.last is None:
            raise Unsupported('next() outside of a loop')
        if self.pos < len(self.cur):
            self.pos += 1
            return self.cur[self.pos - 1]
        if self.last:
            raise StopIteration
        raise Unsupported('next() at the end of a chunk')

    def items(self, xs, last):
        self.cur, self.pos, self.last = list(xs), 0, last
        while self.pos < len(self.cur):
            self.pos += 1
            yield self.cur[self.pos - 1]


def iter_(x):
    return SymIter(as_seq(x)) if is_sym(x) else iter(x)


def next_(it, *d):
    if isinstance(it, SymIter):
        try:
            return it.next()
        except StopIteration:
            if d:
                return d[0]
            raise
    return next(it, *d)


class Vary:
    """the numbers that an iteration at this site changes (declared by the specification): arbitrary before, and left
    arbitrary; nothing else the iteration leaves behind may depend on the values it found"""

    def __init__(self, site):
        pt = path()
        self.site = site
        self.all = list(pt.varies)
        self.mine = []
        for k in sorted(h[2] for h in pt.ex.hints if h[0] == site and h[1] == 'vary'):
            o, a = pt.varies[k]
            x = wrap(P.var(pt.fresh('any %d' % k), False))
            setattr(o, a, x)
            self.mine.append((o, a, x))
        self.was = [getattr(o, a) for o, a in self.all]

    def after(self):
        for o, a, x in self.mine:
            if not sym.is_num(getattr(o, a)):
                raise Unsupported('%s is no number after an iteration' % a)
            setattr(o, a, x)

    def diagnose(self):
        found = [(self.site, 'vary', k) for k, (o, a) in enumerate(self.all) if getattr(o, a) is not self.was[k]]
        if found:
            path().ex.hints.update(found)
            raise Restart(str(found))

    def end(self, npc, left):
        if not self.mine:
            return
        pt = path()
        ha = set()
        for o, a, x in self.mine:
            ha |= P.atoms_of(to_poly(x))
            setattr(o, a, 0)
        st = State(left)
        for enc in list(st.enc.values()) + list(st.chunks.values()):
            for x in enc:
                if isinstance(x, tuple) and x[0] == 'r' and P.atoms_of(x[1]) & ha:
                    raise Unsupported('an iteration depends on what the one before left at %s' % (self.site,))
                if isinstance(x, tuple) and x[0] == 'F':
                    raise Unsupported('a condition in the state of a loop at %s' % (self.site,))
        if any(P.atoms_of(q) & ha for f in pt.pc[npc:] for q in f.polys()):
            raise Unsupported('an iteration depends on what the one before left at %s' % (self.site,))
        for o, a, x in self.mine:
            setattr(o, a, wrap(P.var(pt.fresh('left %s' % a), False)))


class Loop:
    def __init__(self, seq, site, info, it=None):
        self.seq = seq
        self.it = it
        self.site = site
        self.info = info
        self.upd = None
        self.frame = None
        self.peeled = False
        self.gen = self.run(list(seq.parts))

    def __iter__(self):
        return self

    def __next__(self):
        self.frame = sys._getframe(1)
        self.upd = {}
        try:
            return next(self.gen)
        finally:
            self.frame = None

    def locals(self):
        skip = self.info['targets']
        d = {k: x for k, x in self.frame.f_locals.items()
             if not k.startswith('__pyvc') and k not in skip and not k.startswith('.')}
        d.update(self.upd)
        return d

    def has(self, *h):
        return (self.site,) + h in path().ex.hints

    def wants_peel(self, why):
        if not self.has('peel'):
            hint(self.site, 'peel')
        raise Unsupported('loop at %s %s' % (self.site, why))

    def run(self, parts, top=True):
        for k, p in enumerate(parts):
            if isinstance(p, Opaque):
                p.read()
            if isinstance(p, list):
                if self.it is not None:
                    yield from self.it.items(p, top and k == len(parts) - 1)
                    continue
                for x in list(p):
                    yield x
                continue
            if not (p.n > 0):
                continue
            if self.info.get('yields'):
                driven(self.frame)
            lo = 0
            if self.has('peel'):
                ch = p.get(0)
                yield from self.run(ch.parts if isinstance(ch, SymSeq) else [ch], False)
                lo = 1
                if not (p.n > 1):
                    continue
                if not p.regen or p.only is not None:
                    raise Unsupported('first iteration of a loop over a loop result')
                j = focus(p.n, lo)
            else:
                j = p.focus()
            yield from self.at_focus(p, j, lo)

    def at_focus(self, p, j, lo):
        pt = path()
        info = self.info
        pt.loops += 1
        entry = (pt.loops, tuple(pt.trace))
        before = pt.forks
        ch = p.get(j)
        locs = self.locals()
        hs = pt.ex.hints
        hav = {}
        invs = {}
        for nm in sorted((h[2] for h in hs if h[0] == self.site and h[1] == 'inv'), key=str):
            x = locs.get(nm)
            found = [c for c in pt.carried if type(x) is c[0]]
            if not found:
                self.wants_peel('carries %r' % (nm,))
            invs[nm] = found[0][1:]
        if invs:
            if any(h[0] == self.site and h[1] in ('acc', 'sum', 'vary') for h in hs) or lo > 1:
                raise Unsupported('a loop with an invariant and accumulators at %s' % (self.site,))
            others = State({k: x for k, x in locs.items() if k not in invs})
            for nm in invs:
                if id(locs[nm]) in others.num and not (type(locs[nm]) is tuple and all(map(sym.is_num, locs[nm]))):
                    raise Unsupported('%s is shared at %s' % (nm, self.site))
            del others
            if pt.choose(2) == 0:
                # after the loop
                for nm, (mk, inv) in invs.items():
                    self.upd[nm] = mk(pt.fresh('after %s' % nm))
                    for f in inv(num(p.off + p.n), self.upd[nm]):
                        assume(f)
                for h in hs:
                    if h[0] == self.site and h[1] == 'dead' and h[2] in locs:
                        self.upd[h[2]] = Poison(h[2])
                return
            for nm, (mk, inv) in invs.items():
                start = inv(num(p.off + lo), locs[nm])
                if start is None:
                    self.wants_peel('starts with a special %s' % nm)
                for f in start:
                    pt.ex.prove(pt, 'invariant of %s before the loop' % nm, f)
                self.upd[nm] = mk(pt.fresh('before %s' % nm))
                for f in inv(num(p.off + j), self.upd[nm]):
                    assume(f)
            carried = {nm: (self.upd[nm], State.chunk([self.upd[nm]])) for nm in invs}
            locs = self.locals()
        for h in sorted((h for h in hs if h[0] == self.site and h[1] == 'sum'), key=str):
            nm = h[2]
            if nm in locs:
                x = wrap(P.var(pt.fresh('sofar'), False))
                hav[nm] = (locs[nm], x)
                self.upd[nm] = x
        for h in hs:
            if h[0] == self.site and h[1] == 'dead' and h[2] in locs:
                self.upd[h[2]] = Poison(h[2])
        vary = Vary(self.site)
        accs = sorted((h[2] for h in hs if h[0] == self.site and h[1] == 'acc'), key=str)
        ops = {}
        if accs:
            st = State(self.locals())
            for a in accs:
                L = follow(self.locals(), a)
                if isinstance(L, list):
                    L = self.convert(L, st)
                if not isinstance(L, SymSeq):
                    raise Unsupported('accumulator')
                op = Opaque(self)
                ops[a] = (op, [q if not isinstance(q, list) else list(q) for q in L.parts])
                L.parts.append(op)
            del st
        dead = {h[2] for h in hs if h[0] == self.site and h[1] == 'dead'}
        skip = dead | set(hav) | set(invs)
        pre_locs = self.locals()
        pre = State({k: x for k, x in pre_locs.items() if k not in skip})
        npc = len(pt.pc)
        pt.active.append(j)
        opened = self.site not in pt.open
        pt.open.add(self.site)
        col = pt.collect[-1] if pt.collect and self.info.get('yields') else None
        if col is not None:
            col.append(SymSeq())
        yield from self.run(ch.parts if isinstance(ch, SymSeq) else [ch], False)
        pt.active.pop()
        if opened:
            pt.open.discard(self.site)
        out = simp(col.pop()) if col is not None else []
        vary.after()
        locs = self.locals()
        post_locs = {k: locs[k] for k in pre_locs if k not in skip}
        post = State(post_locs, pre.blks)
        # accumulators
        sig = []
        for a in accs:
            L = follow(locs, a)
            op, old = ops[a]
            if not isinstance(L, SymSeq) or op not in L.parts:
                raise Unsupported('accumulator replaced in a loop')
            k = L.parts.index(op)
            if not same_parts(L.parts[:k], old):
                raise Unsupported('accumulator changed in a loop')
            tail = simp(SymSeq(L.parts[k + 1:]))
            n = clen_of(tail)
            L.parts[k:] = []
            sig.append((a, key(n)))
            if key(n) != 0:
                L.parts.append(Blk(num(p.n - lo), None, n, num(j - lo), tail, forked=pt.forks != before))
            if len(a) == 1:
                self.upd[a[0]] = L
        if hav and pt.forks != before:
            raise Unsupported('sum with cases at %s' % (self.site,))
        for nm, (x0, h) in hav.items():
            x1 = locs.get(nm)
            if not sym.is_num(x1):
                raise Unsupported('sum')
            term = to_poly(x1) - to_poly(h)
            ha = P.atoms_of(to_poly(h))
            if P.atoms_of(term) & ha or any(P.atoms_of(q) & ha for f in pt.pc[npc:] for q in f.polys()):
                raise Unsupported('loop variable %s is not a sum at %s' % (nm, self.site))
            self.upd[nm] = x0 + sigma(num(p.n), j, lo, term)
        for nm in locs:
            if nm not in pre_locs or nm in dead:
                self.upd[nm] = Poison(nm)
                if nm in info['liveout']:
                    raise Unsupported('%s is used after the loop at %s' % (nm, self.site))
        for nm in info['lastused']:
            self.upd[nm] = Poison(nm)
        if pre.enc != post.enc:
            vary.diagnose()
            self.diagnose(pre, post, pre_locs, locs, dead)
        if key(clen_of(out)) != 0:
            col[-1].parts.append(Blk(num(p.n - lo), None, clen_of(out), num(j - lo), out, forked=pt.forks != before))
        sig.append(('yields', key(clen_of(out))))
        bad = pre.changed_chunks(post)
        mine = [(b, k) for b, k in bad if k == key(j) and b.regen]
        if len(mine) != len(bad):
            raise Unsupported('a loop changes elements of other iterations at %s' % (self.site,))
        if invs:
            self.step(pt, pre, invs, carried, mine, num(p.off + j))
        vary.end(npc, dict(locs, **{' yielded': out, ' updated': dict(self.upd)}))
        if mine:
            pt.ex.changing.add(self.site)
        for b, k in mine:
            b.only = {k: j} if not lo else {k: j, 0: 0}
        shape(self.site, entry, tuple(sig))

    def step(self, pt, pre, invs, carried, mine, j):
        """the invariants hold again after one iteration; this path ends here"""
        from .engine import PathDone
        if mine:
            raise Unsupported('a loop with an invariant changes its elements at %s' % (self.site,))
        now = self.locals()
        for nm, (mk, inv) in invs.items():
            old, was = carried[nm]
            x = now.get(nm)
            if State.chunk([old]) != was:
                raise Unsupported('%s is changed in place at %s' % (nm, self.site))
            if type(x) is not type(old) or x is not old and id(x) in pre.num and not (
                    type(x) is tuple and all(map(sym.is_num, x))):
                raise Unsupported('%s after an iteration at %s' % (nm, self.site))
            for f in inv(num(j + 1), x):
                pt.ex.prove(pt, 'invariant of %s kept by an iteration' % nm, f)
        raise PathDone()

    def convert(self, L, st):
        x, items, holders, where = st.lists[id(L)]
        S = SymSeq([list(L)])
        for h in holders_of(L, self.frame.f_back):
            if h[0] == 'frame':
                raise Unsupported('accumulator held by a variable of a caller')
            holders.append(h)
        for h in holders:
            if h[0] == 'frame':
                if h[1] not in self.info['names'] and h[1] not in self.info['cells']:
                    raise Unsupported('accumulator held by a variable out of reach')
                self.upd[h[1]] = S
            else:
                replace_in(h, S)
        return S

    def diagnose(self, pre, post, a, b, dead):
        site, info = self.site, self.info
        found = []
        for nm in sorted(pre.enc):
            if pre.enc[nm] == post.enc.get(nm):
                continue
            x, y = a[nm], b[nm]
            if x is not y and nm in info['stored']:
                if isinstance(x, (list, SymSeq)) and grown(x, y):
                    found.append((site, 'acc', (nm,)))
                elif nm in info['addonly'] and sym.is_num(x) and sym.is_num(y):
                    found.append((site, 'sum', nm))
                elif nm in info['dead']:
                    found.append((site, 'dead', nm))
                elif any(type(y) is c for c, mk, inv in path().carried):
                    found.append((site, 'inv', nm))
        lists = []
        for i, (L, items, holders, where) in pre.lists.items():
            if isinstance(L, list) and len(L) > len(items) and all(u is w for u, w in zip(L, items)):
                lists.append((site, 'acc', where))
            elif isinstance(L, SymSeq) and grown(SymSeq(items), L):
                lists.append((site, 'acc', where))
        found += [h for h in lists if h not in found]
        new = [h for h in found if h not in path().ex.hints]
        if new:
            path().ex.hints.update(new)
            raise Restart(str(new))
        if not self.has('peel'):
            hint(site, 'peel')
        raise Unsupported('loop state at %s: %s' % (site, [n for n in pre.enc if pre.enc[n] != post.enc.get(n)]))


def holders_of(L, fr):
    """everything that refers to L, as far as the frames of the program can reach it"""
    roots = {}
    while fr is not None and not fr.f_code.co_filename.endswith('/engine.py'):
        if '/pyvc/' not in fr.f_code.co_filename:
            for k, x in fr.f_locals.items():
                if type(x) is not Poison and (isinstance(x, (list, tuple, dict)) or
                                              hasattr(x, '__dict__') and not isinstance(x, ATOM)):
                    roots['%d %s' % (len(roots), k)] = x
        fr = fr.f_back
    found = State(roots).lists.get(id(L))
    return found[2] if found else []


def replace_in(h, S):
    if h[0] == 'attr':
        h[1].__dict__[h[2]] = S
    elif h[0] == 'item':
        h[1][h[2]] = S
    elif h[0] == 'cell':
        h[1].cell_contents = S
    else:
        raise Unsupported('list held by an immutable object')


def same_parts(xs, ys):
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if isinstance(x, list) != isinstance(y, list):
            return False
        if isinstance(x, list):
            if len(x) != len(y) or any(a is not b for a, b in zip(x, y)):
                return False
        elif x is not y:
            return False
    return True


def grown(x, y):
    xs = x.parts if isinstance(x, SymSeq) else [list(x)] if x else []
    if not isinstance(y, (list, SymSeq)):
        return False
    ys = y.parts if isinstance(y, SymSeq) else [list(y)] if y else []
    if len(ys) < len(xs):
        return False
    for i, p in enumerate(xs):
        q = ys[i]
        if isinstance(p, list):
            if not isinstance(q, list) or len(q) < len(p) or any(u is not w for u, w in zip(p, q)):
                return False
            if i < len(xs) - 1 and len(q) != len(p):
                return False
        elif p is not q:
            return False
    return sum(len(q) if isinstance(q, list) else 1 for q in ys) > sum(len(q) if isinstance(q, list) else 1 for q in xs)


# ------------------------------------------------------------------------------------------------ generators
def driven(fr):
    """the generator running in fr is consumed by collect(), directly or through yield from"""
    while True:
        fr = fr.f_back
        if fr is not None and fr.f_code is collect.__code__:
            return
        if fr is not None:
            at = fr.f_lasti
            while dis.opname[fr.f_code.co_code[at]] == 'CACHE':
                at -= 2
        if fr is None or '/pyvc/' in fr.f_code.co_filename or dis.opname[fr.f_code.co_code[at]] != 'SEND':
            raise Unsupported('a generator looping over a sequence of symbolic length, consumed step by step')


def collect(gen, f=None):
    """[f(x) for x in gen]"""
    if not isinstance(gen, types.GeneratorType):
        return gen if f is None else comp(gen, lambda s: [f(x) for x in s], 'list', ('spec', id(f.__code__), 0))
    pt = path()
    col = [SymSeq()]
    pt.collect.append(col)
    for x in gen:
        col[-1].append(x if f is None else f(x))
    pt.collect.pop()
    if len(col) != 1:
        raise Unsupported('generator')
    return simp(col[0])


# ------------------------------------------------------------------------------------------------ dictionaries
class SymDict(dict):
    """dict whose entries are a sequence of (key, value) with known parts and blocks of unknown length; the keys of
    a block are tokens that differ from each other and from every other key"""
    __slots__ = ('seq',)

    def __init__(self, s):
        dict.__init__(self)
        self.seq = s

    def find(self, k):
        off = 0
        tok = path().tokens.get(k)
        for p in self.seq.parts:
            if isinstance(p, list):
                for c, (k2, x) in enumerate(p):
                    if k2 == k:
                        return num(off + c), x
                off = num(off + len(p))
                continue
            if tok is not None:
                root, o = p.src or (p, 0)
                if root is tok[0]:
                    r = num(tok[1] - o)
                    if r >= 0 and r < p.n:
                        return num(off + r), p.get(r)[0][1]
            elif not isinstance(k, str):
                raise Unsupported('key %r' % (k,))
            off = num(off + p.n)
        return None

    def __contains__(self, k):
        return self.find(k) is not None

    def __getitem__(self, k):
        r = self.find(k)
        if r is None:
            raise KeyError(k)
        return r[1]

    def get(self, k, d=None):
        r = self.find(k)
        return d if r is None else r[1]

    def __setitem__(self, k, x):
        if not isinstance(k, str):
            raise Unsupported('key %r' % (k,))
        r = self.find(k)
        if r is None:
            if k in path().tokens:
                raise Unsupported('key of another dictionary')
            self.seq.append((k, x))
        else:
            self.seq[r[0]] = (k, x)

    def __delitem__(self, k):
        r = self.find(k)
        if r is None:
            raise KeyError(k)
        self.seq.pop(r[0])

    def pop(self, k, *d):
        r = self.find(k)
        if r is None:
            if d:
                return d[0]
            raise KeyError(k)
        self.seq.pop(r[0])
        return r[1]

    def length(self):
        return self.seq.length()

    def __bool__(self):
        return bool(self.seq)

    def items(self):
        return self.seq.copy()

    def keys(self):
        return comp(self.seq.copy(), lambda s: [k for k, x in s], 'list', ('keys', 0, 0))

    def values(self):
        return comp(self.seq.copy(), lambda s: [x for k, x in s], 'list', ('values', 0, 0))

    def copy(self):
        return SymDict(self.seq.copy())

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, dict):
            return NotImplemented
        if not isinstance(o, SymDict):
            if not (self.length() == len(o)):
                return False
            raise Unsupported('comparison of dictionaries')
        if not (self.length() == o.length()):
            return False
        a = [p for p in self.seq.parts if not isinstance(p, list)]
        b = [p for p in o.seq.parts if not isinstance(p, list)]
        if len(a) != len(b):
            raise Unsupported('comparison of dictionaries')
        la = dict(e for p in self.seq.parts if isinstance(p, list) for e in p)
        lb = dict(e for p in o.seq.parts if isinstance(p, list) for e in p)
        if la.keys() != lb.keys():
            if any(k in path().tokens for k in la.keys() ^ lb.keys()):
                raise Unsupported('comparison of dictionaries')
            return False
        for p, q in zip(a, b):
            (r1, o1), (r2, o2) = p.src or (p, 0), q.src or (q, 0)
            if r1 is not r2 or key(o1) != key(o2) or key(p.n) != key(q.n):
                raise Unsupported('comparison of dictionaries')
        return la == lb and all(p is q or SymSeq([p]) == SymSeq([q]) for p, q in zip(a, b))

    __hash__ = None

    def _no(self, *a, **k):
        raise Unsupported('use of a dictionary of unknown size')

    __iter__ = __len__ = __repr__ = __or__ = __ior__ = __ror__ = __reversed__ = _no
    clear = popitem = setdefault = update = fromkeys = _no


def sym_dict(*a, **k):
    if a and type(a[0]) is SymDict:
        d = a[0].copy()
        for n, x in k.items():
            d[n] = x
        return d
    if a and is_sym(a[0]):
        raise Unsupported('dictionary from a sequence of symbolic length')
    return dict(*a, **k)


FIELD = re.compile(r'%[-+ #0]*[0-9]*(?:\.[0-9]+)?([a-zA-Z%])')


def fmt(text, args):
    """text % args; a symbolic number is written as what it is"""
    xs = args if type(args) is tuple else (args,)
    if not any(type(x) is SymReal for x in xs):
        return text % args
    i, out = 0, []
    for m in FIELD.finditer(text):
        if m[1] == '%':
            continue
        if i >= len(xs):
            raise TypeError('not enough arguments for format string')
        if type(xs[i]) is SymReal:
            if m[1] not in 'dfgesr' or m[1] == 'd' and not P.poly_is_int(xs[i].p):
                raise Unsupported('%r of a symbolic number' % m[0])
            out.append(m.span())
        i += 1
    if FIELD.sub('', text).count('%') or i != len(xs):
        raise Unsupported('format %r' % text)
    for a, b in reversed(out):
        text = text[:a] + '%s' + text[b:]
    return text % args


def join(sep, xs):
    if isinstance(sep, str) and (is_sym(xs) or isinstance(xs, SymDict)):
        return path().fresh('<joined>')
    return sep.join(xs)


# ------------------------------------------------------------------------------------------------ sums and orders
def sigma(n, j, lo, term):
    """sum of term(j) for lo <= j < n; additive over the monomials of the term"""
    tot = P.ZERO
    for m, c in term.d.items():
        if not m:
            tot = tot + to_poly(n - lo).scale(c)
        else:
            tot = tot + P.mk_app('sum', [to_poly(n), P.const(lo), to_poly(j), P.Poly({m: Fraction(1)})]).scale(c)
    return wrap(tot)


def sym_sum(s, start=0):
    tot = start
    for p in as_seq(s).parts:
        if isinstance(p, Opaque):
            p.read()
        if isinstance(p, list):
            for x in p:
                tot = tot + x
        else:
            if not (p.n > 0):
                continue
            before = path().forks
            j = p.focus()
            ch = p.get(j)
            if isinstance(ch, SymSeq):
                raise Unsupported('sum of sums')
            if path().forks != before:
                raise Unsupported('sum with cases')
            for x in ch:
                if to_poly(x) is None:
                    raise Unsupported('sum of objects')
                tot = tot + sigma(p.n, j, 0, to_poly(x))
    return tot


def content(n):
    """n = c * m with c the greatest common divisor of its coefficients"""
    d = to_poly(n).d
    if not d or any(Fraction(c).denominator != 1 for c in d.values()):
        return 1, n
    c = math.gcd(*[int(c) for c in d.values()])
    if c <= 1:
        return 1, n
    return c, wrap(P.Poly({k: Fraction(int(x) // c) for k, x in d.items()}))


def spec_sum(n, f):
    if not (n > 0):
        return 0
    j = focus(n)
    before = path().forks
    t = to_poly(f(j))
    if path().forks != before:
        raise Unsupported('sum with cases')
    return sigma(n, j, 0, t)


def every(s, off=0):
    """every known element with its index; an arbitrary one for each block"""
    for p in as_seq(s).parts:
        if isinstance(p, Opaque):
            p.read()
        if isinstance(p, list):
            for i, x in enumerate(p):
                yield num(off + i), x
            off = num(off + len(p))
        else:
            if p.n > 0:
                for k in dict.fromkeys([key(p.focus())] + (list(p.only) if p.only is not None else [])):
                    if k in p.memo and k != key(p.focus()):
                        j, ch = p.memo[k]
                    else:
                        j = p.focus()
                        ch = p.get(j)
                        if k != key(j):
                            continue
                    yield from every(ch, num(off + j * p.clen))
            off = num(off + p.length())


def wrap_index(i, n):
    """i mod n for -n <= i < 2n"""
    if isinstance(i, int) and isinstance(n, int):
        return i % n
    i = num(i)
    up, low = i < n, i >= 0
    if sure(up) and sure(low):
        return i
    c, m = content(n)
    if c > 1:
        # (c*q + r) mod (c*m) = c*(q mod m) + r   for 0 <= r < c
        d = divide(i, c)
        if d is not None and P.poly_is_int(to_poly(d[0])) and isinstance(key(d[1]), int) and 0 <= key(d[1]) < c:
            return num(c * wrap_index(d[0], m) + d[1])
    if sure(low) and sure(i < 2 * n):
        return wrap(P.mk_ite(i < n, to_poly(i), to_poly(i - n)))
    if sure(up) and sure(i >= -n):
        return wrap(P.mk_ite(i < 0, to_poly(i + n), to_poly(i)))
    raise Unsupported('index modulo the length')


def unmod(i):
    """p % n as an index for -n <= p < 2n"""
    p = to_poly(i)
    for a in list(P.atoms_of(p)):
        at = P.ATOMS[a]
        if at.kind == 'quo' and all(isinstance(q, P.Poly) for q in at.args) and len(at.args) == 2:
            u, n = at.args
            if P.poly_is_int(u) and P.poly_is_int(n) and p == u - n * P.mono(at):
                try:
                    return wrap_index(wrap(u), wrap(n))
                except Unsupported:
                    return i
    return i


def sure(f):
    """true on this path (found without a case distinction)"""
    if f is True or f is False:
        return f
    return path().implied(f)


def some(s):
    """an arbitrary element of each known kind, with its index: [(index, element)]"""
    out = []
    off = 0
    for p in as_seq(s).parts:
        if isinstance(p, Opaque):
            p.read()
        if isinstance(p, list):
            out += [(off + i, x) for i, x in enumerate(p)]
            off = off + len(p)
        else:
            if p.n > 0:
                j = p.focus()
                ch = p.get(j)
                if isinstance(ch, SymSeq):
                    raise Unsupported('nested symbolic sequences')
                out += [(num(off + j * p.clen + i), x) for i, x in enumerate(ch)]
            off = num(off + p.length())
    return out


def le_item(a, b):
    """a <= b as a formula (numbers and tuples)"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if not a:
            return True
        if not b:
            return False
        return sym.f_or(a[0] < b[0], sym.f_and(a[0] == b[0], le_item(a[1:], b[1:])))
    if sym.is_num(a) and sym.is_num(b):
        return a <= b
    raise Unsupported('order of %s' % type(a).__name__)


def extreme(s, kind, keyf=None):
    """the smallest / largest element: some element of the sequence, and none is smaller / larger"""
    s = as_seq(s)
    n = s.length()
    if not (n > 0):
        raise ValueError('%s() iterable argument is empty' % kind)
    w = fresh_index('best', 0, n)
    x = s.at(w)
    k = keyf or (lambda e: e)
    for i, e in some(s):
        f = le_item(k(x), k(e)) if kind == 'min' else le_item(k(e), k(x))
        path().add_checked(f)
    return x


def sym_all(s, neg=False):
    s = as_seq(s)
    if path().choose(2) == 0:
        for i, e in some(s):
            path().add_checked(truth(e, neg))
        return True
    n = s.length()
    if not (n > 0):
        from .engine import PathAbort
        raise PathAbort()
    w = fresh_index('witness', 0, n)
    f = truth(s.at(w), not neg)
    path().add_checked(f)
    return False


def assume(f):
    if f is False:
        from .engine import PathAbort
        raise PathAbort()
    if f is not True:
        path().add_checked(f)


def truth(e, neg):
    if isinstance(e, F):
        return sym.f_not(e) if neg else e
    return bool(e) != neg


class Sorted:
    """sorted(s): the first and the last element only"""
    def __init__(self, s, keyf, reverse):
        self.s, self.keyf, self.reverse = s, keyf, reverse

    def length(self):
        return self.s.length()

    def __getitem__(self, i):
        if i == 0 or i == -1:
            return extreme(self.s, 'max' if (i == 0) == self.reverse else 'min', self.keyf)
        raise Unsupported('element %r of a sorted sequence' % (i,))

    def __iter__(self):
        raise Unsupported('sorted sequence of symbolic length')

    def __bool__(self):
        return bool(self.s)


# ------------------------------------------------------------------------------------------------ itertools
def settle(x):
    """which of the arguments a min or max is"""
    at = P.single_atom(to_poly(x))
    if at is None or at.kind not in ('min', 'max'):
        return x
    best = wrap(at.args[0])
    for q in at.args[1:]:
        q = wrap(q)
        if q < best if at.kind == 'min' else q > best:
            best = q
    return num(best)


def sym_range(*a):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported('range() with a symbolic step')
    for x in (lo, hi):
        if not P.poly_is_int(to_poly(x)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    lo, hi = settle(lo), settle(hi)
    n = num(hi - lo)
    if isinstance(n, int):
        return [num(lo + i) for i in range(n)]
    if not (n > 0):
        return []
    if len(a) == 2 and sure(n <= 8):
        for c in range(1, 9):
            if n == c:
                return [num(lo + i) for i in range(c)]
    return SymSeq([Blk(n, lambda i: [num(lo + i)])])


def sym_t_range(steps, t_start=0.0, t_end=1.0, closed=True, closed_start=True):
    """contract of x7.lib.iters.t_range"""
    t_len = t_end - t_start
    r = sym_range(0 if closed_start else 1, steps + 1 if closed else steps)
    return comp(r, lambda s: [k / steps * t_len + t_start for k in s], 'list', ('t_range', 0, 0))


def columns(s):
    """zip(*s) of tuples of one width"""
    s = as_seq(s)
    w = {len(e) if isinstance(e, (tuple, list)) else None for i, e in some(s)}
    if len(w) != 1 or None in w:
        raise Unsupported('zip(*...) of a sequence of symbolic length')
    return [rowmap(s, lambda r, k=k: r[k]) for k in range(w.pop())]


def sym_bisect(a, x, lo, hi, keyf, right):
    """bisect: a place in the sequence with no larger element just before it and no smaller one just after it"""
    a = as_seq(a)
    n = a.length()
    if not (sym.is_num(lo) and not isinstance(lo, SymReal) and lo == 0) or hi is not None and key(hi) != key(n):
        raise Unsupported('bisect of a part of a sequence of symbolic length')
    k = keyf or (lambda e: e)
    i = wrap(P.var(path().fresh('place'), True, True))
    assume(i <= n)
    if i > 0:
        y = k(a.at(num(i - 1)))
        assume(y <= x if right else y < x)
    if i < n:
        y = k(a.at(num(i)))
        assume(x < y if right else x <= y)
    return num(i)


def np_interp(x, xp, fp):
    if not (isinstance(xp, Rows) and isinstance(fp, Rows) and xp.width is None and fp.width is None):
        raise Unsupported('interp')
    xs, ys = xp.seq, fp.seq
    n = xs.length()
    if not (n == ys.length()):
        raise ValueError('fp and xp are not of the same length.')
    if not (n > 0):
        raise ValueError('array of sample points is empty')
    if x < xs.at(0):
        return ys.at(0)
    if x >= xs.at(num(n - 1)):
        return ys.at(num(n - 1))
    i = sym_bisect(xs, x, 0, None, None, True)
    if not (i > 0 and i < n):
        from .engine import PathAbort
        raise PathAbort()
    x0, x1, y0, y1 = xs.at(num(i - 1)), xs.at(i), ys.at(num(i - 1)), ys.at(i)
    return y0 + (y1 - y0) * ((x - x0) / (x1 - x0))


def same_layout(ss):
    ps = [s.parts for s in ss]
    if len({len(p) for p in ps}) != 1:
        return False
    for col in zip(*ps):
        if all(isinstance(p, list) for p in col):
            if len({len(p) for p in col}) != 1:
                return False
        elif all(isinstance(p, Blk) for p in col):
            if len({(key(p.n), key(p.clen)) for p in col}) != 1 or key(col[0].clen) != 1:
                return False
        else:
            return False
    return True


def sym_zip(*xs):
    if not any(is_sym(x) for x in xs):
        return zip(*xs)
    ss = [as_seq(x) for x in xs]
    if same_layout(ss):
        out = SymSeq()
        for col in zip(*[s.parts for s in ss]):
            if isinstance(col[0], list):
                out._push([tuple(t) for t in zip(*col)])
            elif all(p.regen and p.only is None for p in col):
                out._push(Blk(col[0].n, lambda i, col=col: [tuple(first(p.get(i)) for p in col)]))
            else:
                j = [p for p in col if not (p.regen and p.only is None)][0].focus()
                out._push(Blk(col[0].n, None, 1, j, [tuple(first(p.get(j)) for p in col)]))
        return out
    n = ss[0].length()
    for s in ss[1:]:
        m = s.length()
        if key(m) != key(n) and m < n:
            n = m
    n = num(n)
    if isinstance(n, int):
        return [tuple(s.at(i) for s in ss) for i in range(n)]
    return SymSeq([Blk(n, lambda i: [tuple(s.at(i) for s in ss)])])


def first(ch):
    return ch[0] if isinstance(ch, list) else ch.at(0)


def sym_enumerate(xs, start=0):
    if not is_sym(xs):
        return enumerate(xs, start)
    out = SymSeq()
    off = start
    for p in as_seq(xs).parts:
        if isinstance(p, Opaque):
            p.read()
        if isinstance(p, list):
            out._push([(num(off + i), x) for i, x in enumerate(p)])
            off = num(off + len(p))
        else:
            def mk(i, p=p, off=off):
                ch = p.get(i)
                if isinstance(ch, SymSeq):
                    raise Unsupported('nested symbolic sequences')
                return [(num(off + i * p.clen + k), x) for k, x in enumerate(ch)]
            if p.regen and p.only is None:
                out._push(Blk(p.n, mk, p.clen))
            else:
                j = p.focus()
                out._push(Blk(p.n, None, p.clen, j, mk(j)))
            off = num(off + p.length())
    return out


def sym_reversed(xs):
    if not is_sym(xs):
        return reversed(xs)
    return as_seq(xs).reverse_copy()


def sym_iter_rotate(data, elems=2, offset=0, cycle=True):
    """contract of x7.lib.iters.iter_rotate"""
    s = as_seq(data)
    n = s.length()
    if isinstance(n, int):
        raise Unsupported('iter_rotate')
    if n == 0:
        raise ZeroDivisionError('integer modulo by zero')

    def at(i):
        try:
            return s.at(wrap_index(i, n))
        except Unsupported:
            pass
        for _ in range(abs(offset) + 1):
            if not (i < 0):
                break
            i = num(i + n)
        for _ in range(elems + abs(offset) + 1):
            if not (i >= n):
                break
            i = num(i - n)
        return s.at(i)
    m = n if cycle else num(n - 1)
    if not (m > 0):
        return []
    c, pieces = content(n)
    if c > 1 and cycle and any(not isinstance(p, (list, Opaque)) and key(p.clen or 0) == c for p in s.parts):
        # the elements come in pieces of c: keep the pieces
        return SymSeq([Blk(pieces, lambda q: [tuple(at(num(c * q + r + k + offset)) for k in range(elems)) for r in range(c)],
                           clen=c)])
    return SymSeq([Blk(m, lambda i: [tuple(at(num(i + k + offset)) for k in range(elems))])])


def sym_flatten(it):
    def f(xs):
        out = SymSeq()
        for xy in xs:
            out.extend(xy if isinstance(xy, (list, SymSeq)) else list(xy))
        return simp(out)
    if not is_sym(it):
        return flat(list(it) if not isinstance(it, list) else it)
    return comp(it, f, 'list', ('flatten', 0, 0))


def sample(ch):
    """some element: what kind of elements there are"""
    if isinstance(ch, list):
        return ch[0]
    for i, e in some(ch):
        return e
    raise Unsupported('no element to look at')


def pairs(s):
    """[x, y, x, y, ...] as pairs"""
    out = SymSeq()
    for p in as_seq(s).parts:
        if isinstance(p, Opaque):
            p.read()

        def f(ch):
            if isinstance(ch, SymSeq):
                return pairs(ch)
            if len(ch) % 2:
                raise Unsupported('odd chunk of coordinates')
            return [(ch[i], ch[i + 1]) for i in range(0, len(ch), 2)]
        if isinstance(p, list):
            if p and isinstance(p[0], (tuple, list)):
                out._push([tuple(e) for e in p])
            else:
                out._push(f(p))
            continue
        j = p.focus() if p.regen and p.only is None else (p.at if p.only is None else p.only_at)
        ch = p.get(j)
        e0 = sample(ch)
        if isinstance(e0, (tuple, list)):
            out._push(p)
        elif p.regen and p.only is None:
            c2 = f(ch)
            out._push(Blk(p.n, lambda i, p=p: f(p.get(i)), clen_of(c2)))
        else:
            c2 = f(ch)
            out._push(Blk(p.n, None, clen_of(c2), j, c2))
    return simp(out)


def sym_list(x=()):
    if is_sym(x):
        return as_seq(x).copy()
    if isinstance(x, Sorted):
        raise Unsupported('sorted sequence')
    return list(x)


def sym_tuple(x=()):
    if is_sym(x):
        return as_seq(x).copy()
    return tuple(x)


def extend(xs, ys):
    if is_sym(ys) and type(xs) is list:
        hs = holders_of(xs, sys._getframe(1))
        if sum(h[0] == 'frame' for h in hs) > 1:
            raise Unsupported('list with other references extended by a sequence of symbolic length')
        s = SymSeq([xs])
        for h in hs:
            if h[0] != 'frame':
                replace_in(h, s)
        s.extend(as_seq(ys))
        return s
    xs.extend(ys)
    return xs


def iadd(xs, ys):
    if is_sym(ys) and type(xs) is list:
        return extend(xs, ys)
    xs += ys
    return xs


# ------------------------------------------------------------------------------------------------ numpy
class Rows:
    """an array with a symbolic number of rows (or columns, when transposed)"""
    def __init__(self, seq, width, t=False):
        self.seq, self.width, self.t = seq, width, t

    @property
    def T(self):
        return self if self.width is None else Rows(self.seq, self.width, not self.t)

    @property
    def size(self):
        return self.seq.length() if self.width is None else self.seq.length() * self.width

    def rows(self):
        if self.t:
            raise Unsupported('iteration over a transposed array of symbolic length')
        return self.seq

    def length(self):
        return self.width if self.t else self.seq.length()

    def __len__(self):
        raise Unsupported('native len() of an array of symbolic length')

    def __iter__(self):
        if self.t:
            return iter([self[i] for i in range(self.width)])
        raise Unsupported('native iteration over an array of symbolic length')

    def __getitem__(self, i):
        if self.t and isinstance(i, tuple) and len(i) == 2 and i[1] == slice(None) and isinstance(i[0], slice):
            w = len(range(self.width)[i[0]])
            sl = i[0]
            return Rows(rowmap(self.seq, lambda r: tuple(r[sl])), w, True)
        if not self.t and isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and isinstance(i[1], slice):
            w = len(range(self.width)[i[1]])
            sl = i[1]
            return Rows(rowmap(self.seq, lambda r: tuple(r[sl])), w)
        if not self.t and isinstance(i, (int, SymReal)):
            return self.seq.at(i)
        if self.t and type(i) is int and -self.width <= i < self.width:
            return Rows(rowmap(self.seq, lambda r: r[i]), None)
        raise Unsupported('index %r of an array of symbolic length' % (i,))

    def tolist(self):
        if self.t:
            raise Unsupported('transposed array')
        return self.seq if self.width is None else rowmap(self.seq, list)

    def dot(self, m):
        raise Unsupported('dot')


def rowmap(s, f):
    r = comp(s, lambda xs: [f(x) for x in xs], 'list', ('rows', 0, 0))
    return as_seq(r)


def np_rows(x):
    """np.array of a sequence of symbolic length"""
    if isinstance(x, Rows):
        return x
    w, numbers = None, False
    for i, e in some(x):
        if not isinstance(e, (tuple, list, np.ndarray)):
            if w is not None or isinstance(e, bool) or not isinstance(e, (int, float, SymReal)):
                raise Unsupported('array of objects of symbolic length')
            numbers = True
            continue
        if w is not None and len(e) != w:
            raise Unsupported('ragged array')
        w = len(e)
    if numbers:
        if w is not None:
            raise Unsupported('ragged array')
        return Rows(as_seq(x), None)
    if w is None:
        raise Unsupported('empty array')
    return Rows(as_seq(x), w)


def np_dot(a, b):
    if isinstance(b, Rows) and not isinstance(a, Rows):
        a = np.asarray(a)
        if not b.t or a.ndim != 2 or a.shape[1] != b.width:
            raise Unsupported('dot of an array of symbolic length')
        return Rows(rowmap(b.seq, lambda r: tuple(np.dot(a, np.array(list(r), dtype=object)))), a.shape[0], True)
    if isinstance(a, Rows) and not isinstance(b, Rows):
        b = np.asarray(b)
        if a.t or b.ndim != 2 or b.shape[0] != a.width:
            raise Unsupported('dot of an array of symbolic length')
        return Rows(rowmap(a.seq, lambda r: tuple(np.dot(np.array(list(r), dtype=object), b))), b.shape[1])
    raise Unsupported('dot of arrays of symbolic length')
