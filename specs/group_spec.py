"""Groups and elements with holes of any number of members, each member known only by the contract of an element
(the inductive step over the structure of a model; the leaf classes are in model_spec, model2_spec, model3_spec)."""
from common import *
from bezier_spec import mk_cp
from model_spec import ctx, few_steps, mk_el, pen

ID = (1, 0, 0, 0, 1, 0)


def part_class(v):
    """an element known only by its contract: what it gives is a function of the matrix at the time of the call (here
    the matrix itself, so that any difference shows); the matrix is left as found and the element is not changed"""
    M = v.m.model

    class Part(M.ElemRectangle):
        count = 1

        def paths(self, dc):
            return [M.Path(self.penbrush, self.closed, (self.name, k) + tuple(dc.matrix.as_6tuple())) for k in range(self.count)]

        def control_paths(self, dc):
            return [M.ControlPath([self.name, k, tuple(dc.matrix.as_6tuple())]) for k in range(self.count)]

        def iter_elems(self, root=None, matrix=None):
            for k in range(self.count):
                yield '%s>%s>%d' % (root, self.name, k), self, matrix

        def transform(self, matrix):
            e = Part(self.name, self.penbrush, self.p1, self.p2)
            e.got = (self.name,) + tuple(matrix.as_6tuple())
            return e

        def copy(self):
            e = Part(self.name, self.penbrush, self.p1, self.p2)
            e.got = (self.name, 'copy')
            return e

        def as_curves(self):
            return [Curve(self.name, k) for k in range(self.count)]

    class Curve:
        def __init__(self, *what):
            self.what = what

        def transform(self, matrix):
            return Curve(*self.what, tuple(matrix.as_6tuple()))
    return Part


def plain(v):
    return v.m.colors.PenBrush('black')


def looks(v):
    """closed or open, with or without a pen and a brush"""
    closed = v.flag('closed members')
    ps = [pen(v, closed), v.m.colors.PenBrush(None, None)]
    p = ps[v.choice('pen of the members', [0, 1])] if not closed else ps[0]

    def look(e):
        e.penbrush, e.closed = p, closed
        if not v.symbolic:
            v.look = getattr(v, 'look', 0) + 1
            other = v.special('look#%d' % v.look, [(False, None), (False, 'black'), (True, None), (True, ('red', 2.5))], 0.3)
            if other:
                e.closed, e.penbrush = other[0], v.m.colors.PenBrush(other[1])
    return look


def members(v, n='members', minlen=0, counts=(1, 2, 0)):
    g = v.m.geom
    Part = part_class(v)
    Part.count = v.choice('paths of a member', list(counts))
    look = looks(v)

    def mk(v, tag, key):
        e = Part(key, plain(v), g.Point(*v.reals(tag + '.x1 ' + tag + '.y1')), g.Point(*v.reals(tag + '.x2 ' + tag + '.y2')))
        look(e)
        return e, e
    return v.dict(n, mk, minlen), Part


def parts_list(v, n='holes', counts=(1, 2, 0), count=None):
    g = v.m.geom
    Part = part_class(v)
    Part.count = v.choice('paths of a part', list(counts)) if count is None else count
    look = looks(v)

    def mk(v, tag):
        e = Part('<%s>' % tag, plain(v), g.Point(*v.reals(tag + '.x1 ' + tag + '.y1')), g.Point(*v.reals(tag + '.x2 ' + tag + '.y2')))
        look(e)
        return e, e
    S = v.seq(n, mk)
    return S, mk(v, 'outer')[0], Part


def group(v, S, X, **kw):
    return v.m.model.Group('g', v.m.colors.PenBrush('black'), xform=X, elems=S.dict, **kw)


def per_part(v, label, res, S, count, f):
    """res is f(member i, k) for k < count, member by member"""
    if not count:
        v.num_eq(label + ': none', v.length(res), 0)
        return

    def each(i, x):
        q, r = v.divmod(i, count)
        f(q, r, x)
    v.each(label, res, S.n * count, each)


@lemma('C21', 'Group.paths Group.control_paths Elem.draw_space', budget=60)
def group_paths_any_size(v):
    """the members' paths, in order, under the product of the matrix and the own transform"""
    S, Part = members(v)
    D, Dt = mk_xform(v, 'D')
    X, Xt = mk_xform(v, 'X') if v.flag('own') else (None, ID)
    full = compose6(Dt, Xt)
    g = group(v, S, X)
    dc = ctx(v, D, 2)
    dc.matrix = D
    which = v.choice('which', ['paths', 'control_paths', 'hidden'])
    dc.show_cps = v.flag('show_cps')
    if which == 'hidden':
        g.hidden = True
        v.check('nothing is drawn of a hidden group', g.paths(dc) == [] and g.control_paths(dc) == [])
        return
    res = getattr(g, which)(dc)

    def f(i, k, p):
        e = S.at(i)
        if which == 'paths':
            v.check('pen of the member', p.penbrush is e.penbrush and p.closed is e.closed)
            w = p.points
        else:
            w = (p.points[0], p.points[1]) + p.points[2]
        v.check('path of the member', w[0] == S.key(i) and w[1] == k)
        v.eq('matrix', w[2:], full)
    per_part(v, 'paths', res, S, Part.count, f)
    v.check('same matrix object', dc.matrix is D)
    v.eq('matrix as found', D.as_6tuple(), Dt)
    v.raises('nothing pushed', v.m.transform.EmptyStackError, D.pop)


@lemma('C21', 'Group.iter_elems', budget=60)
def group_leaves_any_size(v):
    """the leaves of the members, in order, each with its dotted name and the product of the transforms"""
    S, Part = members(v)
    D, Dt = mk_xform(v, 'D')
    X, Xt = mk_xform(v, 'X') if v.flag('own') else (None, ID)
    g = group(v, S, X, hidden=v.flag('hidden'))
    root = v.choice('root', [None, 'r', 'r.s'])
    given = v.flag('matrix given')
    full = compose6(Dt, Xt) if given else Xt
    res = v.collect(g.iter_elems(root, D if given else None), lambda x: (x[0], x[1], tuple(x[2].as_6tuple())))
    base = root + '.g' if root else 'g'

    def f(i, k, x):
        v.check('leaf of the member', x[1] is S.at(i) and x[0] == '%s>%s>%d' % (base, S.key(i), k))
        v.eq('product of the transforms', x[2], full)
    per_part(v, 'leaves', res, S, Part.count, f)
    v.eq('matrix as found', D.as_6tuple(), Dt)


@lemma('C21', 'Group.iter_elems_transformed', budget=60)
def group_transformed_any_size(v):
    """each direct member, transformed, in order and with its dotted name"""
    S, Part = members(v, counts=(1,))
    D, Dt = mk_xform(v, 'D')
    X, Xt = mk_xform(v, 'X') if v.flag('own') else (None, ID)
    g = group(v, S, X, hidden=v.flag('hidden'))
    root = v.choice('root', [None, 'r', 'r.s'])
    given = v.flag('matrix given')
    full = compose6(Dt, Xt) if given else Xt
    res = v.collect(g.iter_elems_transformed(root, D if given else None))
    base = root + '.g' if root else 'g'

    def each(i, x):
        v.check('dotted name', x.name == base + '.' + S.key(i) and x.got[0] == S.key(i))
        v.eq('product of the transforms', x.got[1:], full)
        v.check('the member keeps its name', S.at(i).name == S.key(i) and x is not S.at(i))
    v.each('members', res, S.n, each)
    v.eq('matrix as found', D.as_6tuple(), Dt)


def holed(v, outer, S, X, fill):
    M, C = v.m.model, v.m.colors
    pb = C.PenBrush('blue', 'red' if fill else None)
    return M.ElemWithHoles('h', pb, outer, S.list, True, X), pb


@lemma('C21', 'ElemWithHoles.iter_elems ElemWithHoles.iter_elems_transformed ElemWithHoles.control_paths', budget=60)
def holes_any_number(v):
    S, outer, Part = parts_list(v, count=1)
    D, Dt = mk_xform(v, 'D')
    X, Xt = mk_xform(v, 'X') if v.flag('own') else (None, ID)
    h, pb = holed(v, outer, S, X, v.flag('fill'))
    root = v.choice('root', [None, 'r', 'r.s'])
    base = root + '.h' if root else 'h'
    which = v.choice('which', ['iter', 'transformed', 'control'])
    given = which == 'control' or v.flag('matrix given')
    full = compose6(Dt, Xt) if given else Xt
    dc = ctx(v, D, 2)
    dc.matrix = D

    def part(i):
        if i == 0:
            return outer, 'outside'
        return S.at(i - 1), 'inside'
    if which == 'iter':
        res = v.collect(h.iter_elems(root, D if given else None), lambda x: (x[0], x[1], tuple(x[2].as_6tuple())))

        def each(i, x):
            e, w = part(i)
            v.check('leaf', x[1] is e and x[0] == '%s.%s>%s>0' % (base, w, e.name))
            v.eq('product of the transforms', x[2], full)
    elif which == 'transformed':
        res = v.collect(h.iter_elems_transformed(root, D if given else None))

        def each(i, x):
            e, w = part(i)
            v.check('dotted name', x.name == '%s.%s.%s' % (base, w, e.name) and x.got[0] == e.name)
            v.eq('product of the transforms', x.got[1:], full)
    else:
        res = h.control_paths(dc)

        def each(i, x):
            v.check('part', x.points[0] == part(i)[0].name)
            v.eq('product of the transforms', x.points[2], full)
    v.each('parts', res, S.n + 1, each)
    v.eq('matrix as found', D.as_6tuple(), Dt)


@lemma('C39', 'Group.as_curves ElemWithHoles.as_curves', budget=60)
def as_curves_any_size(v):
    """the curves of the members, in order, mapped by the own transform"""
    X, Xt = mk_xform(v, 'X') if v.flag('own') else (None, ID)
    if v.flag('group'):
        S, Part = members(v)
        g = group(v, S, X)
        res = g.as_curves()
        n, first = S.n, None
    else:
        S, outer, Part = parts_list(v)
        g, pb = holed(v, outer, S, X, True)
        res = g.as_curves()
        n, first = S.n + 1, outer
    c = Part.count
    if not c:
        v.num_eq('none', v.length(res), 0)
        return

    def each(i, x):
        q, r = v.divmod(i, c)
        e = S.at(q) if first is None else first if q == 0 else S.at(q - 1)
        v.check('curve of the member', x.what[0] == e.name and x.what[1] == r and len(x.what) == 3)
        v.eq('own transform', x.what[2], Xt)
    v.each('curves', res, n * c, each)


# =============================================================== C22
def others(v):
    """members that are equal to nothing else and contain nothing to replace"""
    g = v.m.geom
    p = pen(v)

    class Other(v.m.model.ElemRectangle):
        def __eq__(self, other):
            return self is other
        __hash__ = None

        def replace(self, elem, replacement):
            return 0

    def mk(v, tag, key):
        e = Other(key, p, g.Point(*v.reals(tag + '.x1 ' + tag + '.y1')), g.Point(1, 2))
        return e, e
    return mk


def entry_is(v, k, e, key, elem):
    v.check('stored under its name', k == key and e is elem and e.name == key)


@lemma('C22', 'Group.add', bound='first free number up to 2', budget=60)
def add_any_size(v):
    """a member is added at the end of a group of any size; no other member moves or changes its name"""
    M = v.m.model
    S = v.dict('members', others(v), keys=['m0', 'é0', 'A b0', 'x#0'])
    taken = [('taken', mk_el(v, 'taken', 'rect'))]
    taken += [('rectangle#%d' % i, mk_el(v, 'rectangle#%d' % i, 'rect')) for i in range(v.choice('numbers taken', [0, 1, 2]))]
    g = M.Group('g', v.m.colors.PenBrush('black'), elems=v.joined(S, taken))
    e = mk_el(v, 'was', 'rect')
    cases = ['new', 'taken', 'x.new', 'x.taken', '']
    which = v.choice('name', cases + (['of a member'] if S.n else []))
    name = S.key(v.integer('which', 0, S.n - 1)) if which == 'of a member' else which
    fix = v.flag('fix')
    if '.' in which and not fix:
        v.raises('dotted name', ValueError, lambda: g.add(name, e, fix))
        v.check('name kept', e.name == 'was')
        k = None
    else:
        g.add(name, e, fix)
        k = {'new': 'new', 'x.new': 'new', '': ''}.get(which, 'rectangle#%d' % (len(taken) - 1))
    n = len(taken) + (k is not None)

    def each(i, x):
        if i < S.n:
            entry_is(v, x[0], x[1], S.key(i), S.at(i))
        elif i == S.n + len(taken):
            entry_is(v, x[0], x[1], k, e)
        else:
            for j, t in enumerate(taken):
                if i == S.n + j:
                    entry_is(v, x[0], x[1], *t)
    v.each('members', v.entries(g.elems), S.n + n, each)


@lemma('C22', 'Group.lookup', budget=60)
def lookup_any_size(v):
    M, C = v.m.model, v.m.colors
    mk = others(v)

    def mk2(v, tag, key):
        sub = v.dict(tag + '.sub', mk, 1)
        e = M.Group(key, C.PenBrush('black'), elems=sub.dict)
        return e, (e, sub)
    A, B = v.dict('groups', mk2, 0, ['g0', 'é0', 'A b0']), v.dict('members', mk, 0, ['m0', 'rect#0', 'M 0'])
    g = M.Group('g', C.PenBrush('black'), elems=v.joined(A, B))
    case = v.choice('case', ['none'] + (['group', 'nested', 'missing inside'] if A.n else []) + (['member', 'no group'] if B.n else []))
    if case == 'none':
        for t in ('missing', 'missing.x', '', '.'):
            v.raises('no such member', KeyError, lambda: g.lookup(t))
        return
    S = A if case in ('group', 'nested', 'missing inside') else B
    i = v.integer('i', 0, S.n - 1)
    k = S.key(i)
    if case == 'member':
        v.check('member', g.lookup(k) is S.at(i))
    elif case == 'group':
        v.check('group', g.lookup(k) is S.at(i)[0])
    elif case == 'nested':
        sub = S.at(i)[1]
        j = v.integer('j', 0, sub.n - 1)
        v.check('member of a member', g.lookup(k + '.' + sub.key(j)) is sub.at(j))
    elif case == 'missing inside':
        v.raises('no such member', KeyError, lambda: g.lookup(k + '.missing'))
    else:
        v.raises('not a group', ValueError, lambda: g.lookup(k + '.missing'))


@lemma('C22', 'Group.replace', bound='two equal members among any number of others', budget=60)
def replace_any_size(v):
    """members equal to the one given, among any number of others before, between and after"""
    M, C, g_ = v.m.model, v.m.colors, v.m.geom
    mk = others(v)
    A, B, D = [v.dict(n, mk, 0, [n + '0', n + '#0']) for n in ('A', 'B', 'D')]
    hits = v.choice('equal members', [0, 1, 2])
    p = pen(v)

    class El(M.ElemRectangle):
        def __eq__(self, other):
            return isinstance(other, El)
        __hash__ = None
    old = El('old', p, g_.Point(0, 0), g_.Point(1, 1))
    hs = [('h%d' % i, El('h%d' % i, p, g_.Point(0, 0), g_.Point(1, 1))) for i in range(hits)]
    parts = [A, hs[:1], B, hs[1:], D]
    if v.flag('nested'):
        g = M.Group('g', C.PenBrush('black'), elems=[M.Group('s', C.PenBrush('black'), elems=v.joined(*parts))])
        at = g.elems['s']
    else:
        g = at = M.Group('g', C.PenBrush('black'), elems=v.joined(*parts))
    new = mk_el(v, v.choice('new', ['new', 'h0', 'x.new']), 'rect')
    refused = hits and ('.' in new.name or hits == 2)
    # two equal members: the second one finds the name taken by the first replacement
    if refused:
        try:
            g.replace(old, new)
            v.check('refused', False)
        except ValueError:
            pass
        done = 0 if '.' in new.name else 1
    else:
        v.num_eq('count', g.replace(old, new), hits)
        done = hits
    want = hs[done:]
    n = A.n + B.n + D.n
    v.check('replaced', all((k in at.elems) == (k == new.name and done > 0) for k, e in hs[:done]) and
            all(k in at.elems and at.elems[k] is e for k, e in want))
    if done:
        v.check('replacement', at.elems[new.name] is new)

    def each(i, x):
        k, e = x
        v.check('keys are the names of the members', e.name == k)
    v.each('members', v.entries(at.elems), n + hits, each)
    for S in (A, B, D):
        def kept(i, S=S):
            v.check('others kept', S.key(i) in at.elems and at.elems[S.key(i)] is S.at(i))
        if S.n:
            v.check_each(S, kept)


# =============================================================== C20
@lemma('C20', 'Group.copy Group.restore ElemWithHoles.copy ElemWithHoles.restore', budget=60)
def copies_any_size(v):
    M, C, T = v.m.model, v.m.colors, v.m.transform.Transform
    X, Xt = mk_xform(v, 'X')
    hol = v.flag('holes')
    if hol:
        S, outer, Part = parts_list(v, counts=(1,))
        e = M.ElemWithHoles('e', C.PenBrush('blue', 'red'), outer, S.list, True, X)
    else:
        S, Part = members(v, counts=(1,))
        e = group(v, S, X, hidden=v.flag('hidden'))
        e.name = 'e'
        pt = e.add_pt('p', v.m.geom.Point(*v.reals('px py')))
    if v.flag('restore'):
        c = M.ElemWithHoles('x', C.PenBrush('green'), mk_el(v, 'o', 'rect'), [mk_el(v, 'i', 'rect')]) if hol else \
            M.Group('x', C.PenBrush('green'), False, None, [mk_el(v, 'i', 'rect')])
        c.restore(e)
    else:
        c = e.copy()
    v.check_type('kind', c, type(e))
    v.check('name', c.name == 'e')
    v.eq('pen', obs(c.penbrush), obs(e.penbrush))
    v.check('closed', c.closed is e.closed)
    v.check('own transform', c.xform is not e.xform)
    v.eq('own transform', c.xform.as_6tuple(), Xt)
    if hol:
        v.check('outside', c.outside is not outer and c.outside.got == (outer.name, 'copy'))

        def each(i, x):
            v.check('hole', x is not S.at(i) and x.got == (S.at(i).name, 'copy'))
        v.check('other list', c.inside is not e.inside)
        v.each('holes', c.inside, S.n, each)
        c.inside.append(mk_el(v, 'later', 'rect'))
        v.num_eq('adding to the copy leaves the original', v.length(e.inside), S.n)
    else:
        v.check('hidden', c.hidden is e.hidden)
        v.each('members', v.entries(c.elems), S.n, lambda i, x: v.check('member', x[0] == S.key(i)))
        v.check('points', c.points is not e.points and list(c.points) == ['p'])
        v.eq('point', c.points['p'].xy(), pt.xy())
        c.add('later', mk_el(v, 'later', 'rect'))
        v.num_eq('adding to the copy leaves the original', v.length(v.entries(e.elems)), S.n)
        e.add('later2', mk_el(v, 'later', 'rect'))
        v.check('adding to the original leaves the copy', 'later2' not in c.elems and 'later' not in e.elems)


# =============================================================== C37
@lemma('C37', 'Group.__eq__ ElemWithHoles.__eq__', budget=60)
def equal_any_size(v):
    """equal exactly when the members are equal one by one"""
    M, C, g = v.m.model, v.m.colors, v.m.geom

    class El(M.ElemRectangle):
        def __eq__(self, other):
            return self.key == other.key
        __hash__ = None
    p = pen(v)

    def el(name, key):
        e = El(name, p, g.Point(0, 0), g.Point(1, 1))
        e.key = key
        return e
    equal = v.flag('equal members')
    hol = v.flag('holes')

    def mk(v, tag, key):
        k, k2 = v.real(tag + '.k'), v.choice(tag + '.b', [0, 1]) if not v.symbolic else v.real(tag + '.k2')
        if not v.symbolic:
            k = int(k) % 2
        return el(key, k), (key, k, k if equal else k2)
    if hol:
        S = v.seq('holes', lambda v, tag: mk(v, tag, tag))
        T = v.map(lambda e: el(e.name, e.key), S.list) if equal else v.seq('holes2', lambda v, tag: mk(v, tag, tag)).list
        a = M.ElemWithHoles('e', p, el('o', 0), S.list)
        b = M.ElemWithHoles('e', p, el('o', 0), T)
        same_len = v.length(S.list) == v.length(T)
        at = lambda i: (S.at(i)[1], T[i].key)
    else:
        S = v.dict('members', mk)
        T = S.twin(lambda s: (el(s[0], s[2]), s))
        a, b = [M.Group('e', C.PenBrush('black'), elems=x.dict) for x in (S, T)]
        same_len = True
        at = lambda i: (S.at(i)[1], S.at(i)[2])
    r = a == b
    v.check('a truth value', r is True or r is False)
    v.check('unequal is the opposite', (a != b) is (not r) if equal else True)
    if equal:
        v.check('equal', r)
    elif r:
        v.check('as many', bool(same_len))

        def each(i):
            x, y = at(i)
            v.num_eq('members are equal', x, y)
        if S.n:
            v.check_each(S, each)
    if not hol and S.n:
        b.elems[S.key(v.integer('i', 0, S.n - 1))] = el('x', v.real('other'))
        del b.elems[S.key(0)]
        v.check('one less', not a == b)


# =============================================================== C19
def box_carried(v, S, box_of):
    """ghosts for loops that accumulate a box: an arbitrary element w, and bounds L that hold for every element's box
    (assumed where the elements are made); returns (w, claim(box))"""
    w = v.integer('w', 0, S.n - 1)
    L = v.reals('Lxl Lyl Lxh Lyh')
    B = v.m.geom.BBox

    def contains(b, i):
        x = box_of(i)
        return v.and_(b.xl <= x[0], b.yl <= x[1], x[2] <= b.xh, x[3] <= b.yh)

    def within(b):
        return v.and_(L[0] <= b.xl, L[1] <= b.yl, b.xh <= L[2], b.yh <= L[3], b.xl <= b.xh, b.yl <= b.yh)

    def inv(i, b):
        return None if b.xl is None else [within(b), contains(b, w) if w < i else True]
    v.carried(B, lambda v, n: B(*v.reals(' '.join(n.replace(' ', '_') + '.' + c for c in ('xl', 'yl', 'xh', 'yh')))), inv)
    return w, contains, within


def bounded_by(v, L, box):
    v.assume(v.and_(L[0] <= box[0], L[1] <= box[1], box[2] <= L[2], box[3] <= L[3]))


def smallest_box(v, b, S, box_of, ghosts):
    """b is the smallest box that contains the boxes of all elements"""
    if v.symbolic:
        w, contains, within = ghosts
        v.check('contains the box of every element', contains(b, w))
        v.check('lies in every box that contains them all', within(b))
    else:
        cs = [box_of(i) for i in range(S.n)]
        v.eq('smallest box', (b.xl, b.yl, b.xh, b.yh), tuple(f(*[c[i] for c in cs]) for i, f in enumerate((v.min, v.min, v.max, v.max))))


@lemma('C19', 'Group.bbox_int BBox.__add__', budget=60)
def group_box_any_size(v):
    M, C, g = v.m.model, v.m.colors, v.m.geom
    L = v.reals('Lxl Lyl Lxh Lyh') if v.symbolic else None

    class E(M.ElemRectangle):
        def bbox(self):
            return self.box

    def mk(v, tag, key):
        b, c = mk_bbox(v, tag + '.b')
        if v.symbolic:
            bounded_by(v, L, c)
        e = E(key, C.PenBrush('black'), g.Point(0, 0), g.Point(1, 1))
        e.box = b
        return e, (c, e, obs(b))
    S = v.dict('members', mk, 1)
    box_of = lambda i: S.at(i)[0]
    gh = box_carried(v, S, box_of) if v.symbolic else None
    grp = M.Group('g', C.PenBrush('black'), elems=S.dict)
    smallest_box(v, grp.bbox_int(), S, box_of, gh)
    v.check_each(S, lambda i: v.eq('box of a member unchanged', obs(S.at(i)[1].box), S.at(i)[2]))


@lemma('C19', 'ElemCurve.bbox_int ControlPoint.bbox BBox.__add__', budget=60)
def curve_box_any_length(v):
    """the box of a curve is the smallest box of its points and handles"""
    M = v.m.model
    L = v.reals('Lxl Lyl Lxh Lyh') if v.symbolic else None

    def box(c):
        return (v.min(*[p[0] for p in c]), v.min(*[p[1] for p in c]), v.max(*[p[0] for p in c]), v.max(*[p[1] for p in c]))

    def mk(v, tag):
        cp, c = mk_cp(v, tag)
        if v.symbolic:
            for p in c:
                bounded_by(v, L, tuple(p) * 2)
        return cp, (c, cp, obs(cp))
    S = v.seq('cps', mk, 1)
    box_of = lambda i: box(S.at(i)[0])
    gh = box_carried(v, S, box_of) if v.symbolic else None
    e = M.ElemCurve('e', pen(v), S.list, True)
    smallest_box(v, e.bbox_int(), S, box_of, gh)
    v.check_each(S, lambda i: unchanged(v, 'control point', S.at(i)[2], S.at(i)[1]))


@lemma('C19', 'ElemWithHoles.bbox_int', budget=60)
def holes_box_any_number(v):
    """the box of the outside, whatever the holes inside it are"""
    M, C, g = v.m.model, v.m.colors, v.m.geom
    b, L = mk_bbox(v, 'out')

    class E(M.ElemRectangle):
        def bbox(self):
            return self.box

    def el(n, b):
        e = E(n, C.PenBrush('black'), g.Point(0, 0), g.Point(1, 1))
        e.box = b
        return e

    def mk(v, tag):
        if v.symbolic:
            b, c = mk_bbox(v, tag + '.b')
            bounded_by(v, L, c)
        else:
            s, t, u, w = sorted(v.real(tag + k, lo=0, hi=1) for k in 'st') + sorted(v.real(tag + k, lo=0, hi=1) for k in 'uw')
            c = (L[0] + s * (L[2] - L[0]), L[1] + u * (L[3] - L[1]), L[0] + t * (L[2] - L[0]), L[1] + w * (L[3] - L[1]))
            b = g.BBox(*c)
        return el(tag, b), (c,)
    S = v.seq('holes', mk)
    if v.symbolic and S.n:
        B = g.BBox
        v.carried(B, lambda v, n: B(*v.reals(' '.join(n.replace(' ', '_') + '.' + c for c in ('xl', 'yl', 'xh', 'yh')))),
                  lambda i, x: None if x.xl is None else [v.and_(L[0] <= x.xl, L[1] <= x.yl, x.xh <= L[2], x.yh <= L[3], x.xl <= x.xh, x.yl <= x.yh)])
    e = M.ElemWithHoles('h', C.PenBrush('black'), el('o', b), [])
    e.inside = S.list
    r = e.bbox_int()
    v.eq('box of the outside', (r.xl, r.yl, r.xh, r.yh), L)


# =============================================================== C41
@lemma('C41', 'ElemWithHoles.__init__ ElemWithHoles.lookup', budget=40)
def holed_parts_any_number(v):
    """any number of holes: each gets the pen, stays in its place, and is found by its name (and nothing else is)"""
    M, C, g = v.m.model, v.m.colors, v.m.geom
    old = v.choice('old pen', [C.PenBrush('red'), C.PenBrush(None, 'blue'), C.PenBrush(('pink', 2), 'blue')])

    def mk(v, n):
        nm = '<%s>' % n.replace('.', ' ')
        return M.ElemRectangle(nm, old, g.Point(*v.reals(n + '.x1 ' + n + '.y1')), g.Point(*v.reals(n + '.x2 ' + n + '.y2'))), nm
    S = v.seq('holes', mk)
    outer, _ = mk(v, 'outer')
    at = [] if v.symbolic else list(S.list)
    P = C.PenBrush(('pink', 2), v.choice('brush', ['green', None]))
    h = M.ElemWithHoles('h', P, outer, S.list, True)
    v.check('outside', h.outside is outer and outer.penbrush is P and h.lookup('outside.<outer>') is outer)
    v.raises('no such part', KeyError, h.lookup, v.choice('missing', ['inside.x', 'outside', 'inside', 'inside.<outer>', 'x', '']))

    def each(i, e):
        v.check('hole', e.name == S.at(i) and e.penbrush is P)
        v.check('in its place', v.symbolic or e is at[i])
        v.raises('not a path to it', KeyError, h.lookup, S.at(i))
        v.raises('not the outside', KeyError, h.lookup, 'outside.' + S.at(i))
        v.check('found by its name', h.lookup('inside.' + S.at(i)) is e)      # leaves the search early: last
    v.each('holes', h.inside, S.n, each)
