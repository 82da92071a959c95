"""C22 names in groups, C23 dumps, C31 add_one, C32 control points of shapes, C33 drawing operations."""
import math
from common import *
from bezier_spec import mk_cp, cp_pts, bern, seg, path_coord, ratio
from model_spec import ctx, few_steps, mk_el, pen

NAMES = ['a', 'b', 'x.a', 'x.b', 'y.z.a', 'rectangle', 'rectangle#0', 'rectangle#1', 'curve#0', 'x.rectangle#0', '', 'g']


# =============================================================== C22
def new_el(v, kind, name):
    M, g = v.m.model, v.m.geom
    if kind == 'rect':
        return M.ElemRectangle(name, pen(v), g.Point(0, 0), g.Point(1, 1))
    if kind == 'curve':
        return M.ElemCurve(name, pen(v), [], True)
    return M.Group(name, v.m.colors.PenBrush('black'))


def consistent(v, g):
    ks = list(g.elems)
    v.check('keys are the names of the members', all(type(k) is str and g.elems[k].name == k for k in ks))
    v.check('no dots', not any('.' in k for k in ks))
    v.check('unique', len({id(e) for e in g.elems.values()}) == len(ks) == len(set(ks)))


def do_add(v, g, n):
    name = v.choice(n + '.name', NAMES)
    kind = v.choice(n + '.kind', ['rect', 'curve'] if v.symbolic else ['rect', 'curve', 'group'])
    fix = v.flag(n + '.fixname')
    e = new_el(v, kind, 'was')
    before = dict(g.elems)
    refused = False
    try:
        g.add(name, e, fix) if fix else g.add(name, e)
    except ValueError:
        refused = True
    legal = '.' not in name or fix or name in before
    v.check('refused exactly for a fresh dotted name', refused == (not legal))
    if refused:
        v.check('nothing added', dict(g.elems) == before and list(g.elems) == list(before))
        v.check('name kept when refused', e.name == 'was')
    else:
        new = [k for k, x in g.elems.items() if x is e]
        v.check('stored once', len(new) == 1)
        v.check('others not displaced', all(k in g.elems and g.elems[k] is x for k, x in before.items()) and
                len(g.elems) == len(before) + 1)
        v.check('at the end', list(g.elems)[:-1] == list(before))
        if '.' not in name and name not in before:
            v.check('stored under the given name', new == [name])
        elif '.' in name and name.rpartition('.')[2] not in before:
            v.check('last part of a dotted name', new == [name.rpartition('.')[2]])
    consistent(v, g)
    return e


@lemma('C22', 'Group.add', bound='sequences of 2 additions (longer ones seeded), names from 12 shapes of name', budget=60, fuzz=400)
def add_sequences(v):
    M = v.m.model
    g = M.Group('g', v.m.colors.PenBrush('black'))
    for i in range(2 if v.symbolic else v.choice('n', list(range(1, 9)))):
        do_add(v, g, 'e%d' % i)


@lemma('C22', 'Group.add', bound='names from 12 shapes of name; first free number up to 3', budget=60, fuzz=100)
def add_to_any_group(v):
    """whatever the group holds: membership of every name asked for is an arbitrary boolean"""
    M = v.m.model
    asked = {}

    class Any(dict):
        def __contains__(self, k):
            if dict.__contains__(self, k):
                return True
            if k not in asked:
                if k.endswith('#3'):
                    asked[k] = False
                else:
                    asked[k] = '.' not in k and v.flag('has ' + k)
            return asked[k]

        def __setitem__(self, k, x):
            v.check('no member is displaced', not dict.__contains__(self, k) and not asked.get(k, False))
            v.check('a name was asked for before it is taken', k in asked)
            dict.__setitem__(self, k, x)

        def __delitem__(self, k):
            v.check('add removes nothing', False)
        pop = popitem = clear = __delitem__

        def update(self, *a, **k):
            for x, y in dict(*a, **k).items():
                self[x] = y
    g = M.Group('g', v.m.colors.PenBrush('black'))
    d = g.elems = Any()
    name, fix = v.choice('name', NAMES), v.flag('fixname')
    e = new_el(v, v.choice('kind', ['rect', 'curve', 'group']), 'was')
    try:
        g.add(name, e, fix)
    except ValueError:
        v.check('refused exactly for a fresh dotted name', '.' in name and not fix)
        v.check('nothing added', not list(dict.items(d)) and e.name == 'was')
        return
    (k, x), = dict.items(d)
    v.check('stored', x is e and e.name == k and '.' not in k)
    if '.' not in name and not asked[name]:
        v.check('under the given name', k == name)


def build(v, n, depth, odd=True):
    M = v.m.model
    g = M.Group(n, v.m.colors.PenBrush('black'))
    for i in range(v.choice(n + ' members', list(range((2 if depth or not odd else 1) + 1 if v.symbolic else 5)))):
        ks = ['a', 'b'] + ['odd'] * odd + ['sub'] * (depth > 0)
        k = v.choice('%s%d' % (n, i), ks)
        if k == 'sub':
            s = build(v, n + 's', depth - 1, odd)
            s.hidden = v.flag('%s%d hidden' % (n, i))
            g.add('s', s)
        else:
            e = new_el(v, 'rect', k)
            if k == 'odd':
                e.penbrush = v.m.colors.PenBrush('green')
            g.add('a' if k == 'odd' else k, e)
    return g


def walk(g):
    for e in g.elems.values():
        yield g, e
        if type(e).__name__ == 'Group':
            yield from walk(e)


@lemma('C22', 'Group.replace ElemCurve.replace', bound='groups of up to 2 members, nested twice', budget=90, fuzz=600)
def replace(v):
    M, C = v.m.model, v.m.colors
    g = build(v, 'g', 1)
    old = new_el(v, 'rect', v.choice('old', ['a', 'b', 'odd', 'rectangle#0']))
    if old.name == 'odd':
        old.name, old.penbrush = 'a', C.PenBrush('green')
    new = new_el(v, 'rect', v.choice('new', ['a', 'b', 'c', 'x.c'] if v.symbolic else ['a', 'b', 'c', 'x.c', 's', 's1', 'gs']))
    new.penbrush = C.PenBrush('red')
    ob = obs(old)
    before = [(x, e) for x, e in walk(g)]
    hits = [(x, e) for x, e in before if type(e).__name__ != 'Group' and obs(e) == ob]
    try:
        n = g.replace(old, new)
    except ValueError:
        v.check('refused only for a name that cannot be stored', any(
            '.' in new.name or new.name != e.name and new.name in x.elems for x, e in hits))
        after = [e for _, e in walk(g)]
        lost = [e for x, e in before if not any(e is y for y in after)]
        v.check('only replaced members are gone', all(any(e is y for _, y in hits) for e in lost))
        v.check('same number of members', len(after) == len(before))
        v.check('every lost one was replaced', sum(e is new for e in after) == len(lost))
    else:
        after = [(x, e) for x, e in walk(g)]
        v.check('count', n == len(hits))
        v.check('every equal member is replaced', not any(any(e is y for _, y in hits) for _, e in after))
        v.check('one replacement for each', sum(e is new for _, e in after) == len(hits) and
                all(sum(y is x and e is new for y, e in after) == 1 for x, _ in hits))
        v.check('all others kept', len(after) == len(before) and
                all(any(y is x and f is e for y, f in after) for x, e in before if not any(e is z for _, z in hits)))
    for x in [g] + [e for _, e in walk(g) if type(e).__name__ == 'Group']:
        consistent(v, x)
    v.eq('old element unchanged', obs(old), ob)


@lemma('C22', 'Group.lookup', bound='nesting to depth 2, 12 paths', budget=40)
def lookup(v):
    g = build(v, 'g', 1 if v.symbolic else 2, False)
    tag = v.choice('tag', ['a', 'b', 's', 's.a', 's.b', 's.s', 's.a.b', 'a.b', 'q', 's.q', 'q.a', 's.s.a'])
    cur, want = g, None
    parts = tag.split('.')
    for i, p in enumerate(parts):
        if type(cur).__name__ != 'Group':
            want = ValueError
            break
        if p not in cur.elems:
            want = KeyError
            break
        cur = cur.elems[p]
    if want:
        v.raises('refused', want, g.lookup, tag)
    else:
        v.check('the member found by following the groups', g.lookup(tag) is cur)


# =============================================================== C23
def struct(o):
    """everything a dump has to keep; members sorted by name, named points of groups aside"""
    t = type(o).__name__
    if t == 'Group':
        return (t, o.name, obs(o.penbrush), bool(o.closed), bool(o.hidden), obs(o.xform),
                tuple((k, struct(x)) for k, x in sorted(o.elems.items())))
    return obs(o)


def evaluate(v, text, extra=()):
    """run the text in the library's namespace"""
    ns = dict(extra)
    lines = text.split('\n')
    for i, line in enumerate(lines):
        if line.startswith('from x7.geom.') and line.endswith(' import *'):
            m = getattr(v.m, line[len('from x7.geom.'):-len(' import *')])
            for k in getattr(m, '__all__', None) or [k for k in vars(m) if not k.startswith('_')]:
                ns[k] = getattr(m, k)
            lines[i] = ''
    v.text_namespace(ns)
    exec('\n'.join(lines), ns)
    return ns


def mk_tree(v, n, kind, X, small=False):
    M, C = v.m.model, v.m.colors
    if kind != 'group':
        full = not (small and v.symbolic)
        e = mk_el(v, n, kind, X, v.choice(n + ' points', [0, 1, 2]) if kind == 'curve' and full else 1,
                  v.flag(n + ' closed') if kind == 'curve' and full else True)
        pens = [C.PenBrush('black'), C.PenBrush(('blue', 3), 'red'), C.PenBrush(None, (1, 2, 3, 255)), C.PenBrush('black')]
        if full and not small:
            w = v.real(n + ' width')
            pens += [C.PenBrush(('red', w)), C.PenBrush(('red', w), 'red')]
        e.penbrush = pens[v.choice(n + ' pen', range((6 if not small else 4) if full else 2)) if e.closed else v.choice(n + ' pen', [0, 4] if full and not small else [0])]
        if not v.symbolic:
            p = pen(v, e.closed)
            if v.special(n + ' any pen', [True]):
                e.penbrush = p
        return e
    style = v.choice(n + ' style', (0, 2) if small and v.symbolic else range(4))
    return M.Group(n, C.PenBrush('black', 'red' if style == 1 else None), style == 2, X, None, None, style in (1, 3))


DUMPF = ('Group.dump ElemCurve.dump ElemRectangle.dump ElemRectangleRounded.dump ElemEllipse.dump Elem.dump_elem '
         'DumpContext.output DumpContext.set_var DumpContext.append DumpContext.add_comma DumpContext.prefix')


def values_in(e, T):
    yield e.penbrush
    if e.xform != T():
        yield e.xform
    for x in getattr(e, 'elems', {}).values():
        yield from values_in(x, T)


def roundtrip(v, e, use_vars=True):
    M = v.m.model
    v.text()
    before = struct(e)
    dc = M.DumpContext(use_vars)
    e.dump(dc)
    text = dc.output()
    ns = evaluate(v, text)
    r = ns['model']
    v.check_type('kind', r, type(e))
    v.eq('evaluated dump', struct(r), before)
    v.check('equal', r == e or bool(getattr(e, 'points', None)))
    v.eq('the model is unchanged', struct(e), before)
    dc2 = M.DumpContext(use_vars)
    e.dump(dc2)
    v.check('the same text again', dc2.output() == text)
    if use_vars and not v.symbolic:
        T = v.m.transform.Transform
        vals = {}
        for line in text.split('\n'):
            head, eq, what = line.partition(' = ')
            if line.startswith('model = '):
                break
            if eq:
                v.check('one variable for each value', head not in vals and what not in vals.values())
                vals[head] = what
        got = [ns[k] for k in vals]
        used = list(values_in(e, T))
        v.check('every pen and transform has a variable', all(any(type(x) is type(y) and x == y for y in got) for x in used))
        v.check('every variable is for one of them', all(any(type(x) is type(y) and x == y for y in used) for x in got))
    return text, ns


@lemma('C23', DUMPF, budget=60)
def dump_box(v):
    kind = v.choice('kind', ['rect', 'ellipse', 'rounded'])
    X = mk_xform(v, 'X')[0] if v.flag('own') else None
    e = mk_tree(v, 'e', kind, X)
    e.name = v.choice('name', ['e', "it's", 'a "b"', ''])
    roundtrip(v, e, v.flag('use vars'))


@lemma('C23', DUMPF, bound='curves of up to 2 control points', budget=60)
def dump_curve(v):
    X = mk_xform(v, 'X')[0] if v.flag('own') else None
    e = mk_tree(v, 'e', 'curve', X)
    e.name = v.choice('name', ["it's \"b\"", ''])
    roundtrip(v, e, v.flag('use vars'))


@lemma('C23', DUMPF, bound='groups of up to 2 members, nested once', budget=60)
def dump_tree(v):
    own = v.choice('own', ['none', 'one', 'shared', 'two'])
    T = v.m.transform.Transform
    X, Xt = mk_xform(v, 'X')
    Y, Yt = mk_xform(v, 'Y')
    v.assume(Xt[0] != Yt[0] if v.symbolic else Xt != Yt)
    for t in (Xt, Yt):
        v.assume(t[0] != 1)         # the identity is not written out: dump_leaf
    if own == 'shared':
        Y, Yt = T(Xt), Xt
    top = mk_tree(v, 'top', 'group', X if own != 'none' else None)
    sub = mk_tree(v, 'sub', 'group', Y if own in ('shared', 'two') else None, True)
    order = v.choice('members', ['none', 'leaf', 'sub', 'both', 'both reversed', 'two leaves'])
    z, a = [mk_tree(v, q, k if v.symbolic else v.choice(q + ' kind', ['rect', 'curve', 'ellipse', 'rounded']), None, True)
            for q, k in (('z', 'rect'), ('a', 'curve'))]
    if v.symbolic:
        v.assume(order in ('two leaves', 'both'))
    for m in {'none': [], 'leaf': [z], 'sub': [sub], 'both': [z, sub], 'both reversed': [sub, z], 'two leaves': [z, a]}[order]:
        top.add(m.name, m)
    if 'sub' in top.elems and order == 'both':
        sub.add('a', a)
    if v.flag('named point'):
        top.add_pt('p', pt(v, 'gp'))
    use = v.flag('use vars')
    text, ns = roundtrip(v, top, use)
    if not use:
        return
    # the variables
    names = []
    for line in text.split('\n'):
        head, eq, _ = line.partition(' = ')
        if line.startswith('model = '):
            break
        if eq:
            names.append(head)
    v.check('one variable for each line', len(names) == len(set(names)) and all(n.isidentifier() for n in names))

    def nodes(e):
        yield e
        for x in getattr(e, 'elems', {}).values():
            yield from nodes(x)
    pens, xfs = [], []
    for e in nodes(top):
        if not any(e.penbrush == p for p in pens):
            pens.append(e.penbrush)
    nx = {'none': 0, 'one': 1, 'shared': 1, 'two': 2}[own]
    if own == 'two' and 'sub' not in top.elems:
        nx = 1
    vals = [ns[n] for n in names]
    got = [x for x in vals if type(x) is v.m.colors.PenBrush]
    v.check('every distinct pen has its own variable', len(got) == len(pens) and all(any(p == q for q in got) for p in pens))
    v.check('every distinct transform has its own variable', len([x for x in vals if type(x) is T]) == nx)
    v.check('and nothing else', len(vals) == len(pens) + nx)


@lemma('C23', 'Group.dump Elem.dump_elem', bound='up to 3 members', budget=40)
def dump_any_members(v):
    """members of any kind, known only by the contract of dump: the lines they append evaluate to them"""
    M, C, g = v.m.model, v.m.colors, v.m.geom
    n = v.choice('n', [0, 1, 2, 3])
    ks = ['c', 'a', 'b'][:n]
    insts = {}

    class Any(M.ElemRectangle):
        def dump(self, context):
            for i in range(v.choice(self.name + ' lines', [1, 2])):
                context.append('STAND_IN(' if i == 0 else '  ')
            context.lines[-1] += '%r)' % self.name
            return context
    Any.__name__ = 'ElemRectangle'
    X = mk_xform(v, 'X')[0] if v.flag('own') else None
    grp = M.Group('g', C.PenBrush('black'), v.flag('hidden'), X)
    for k in ks:
        insts[k] = Any(k, pen(v), g.Point(0, 0), g.Point(1, 1))
        grp.add(k, insts[k])
    v.text()
    dc = M.DumpContext()
    depth = dc.depth
    r = grp.dump(dc)
    v.check('the context', r is dc and dc.depth == depth)
    text = dc.output()
    ns = evaluate(v, text, {'STAND_IN': insts.__getitem__})
    v.eq('evaluated dump', struct(ns['model']), struct(grp))


# =============================================================== C31
def trace_of(cps, closed):
    """the segments of a curve, as their four points"""
    c = [cp_pts(x) for x in cps]
    n = len(c)
    return [seg(c[i], c[(i + 1) % n]) for i in range(n if closed else n - 1)]


@lemma('C31', 'ElemCurve.add_one bez_split ControlPoint.restore', bound='1 to 4 control points', budget=90)
def add_one(v):
    M = v.m.model
    n = v.choice('points', [1, 2, 3, 4])
    closed = v.flag('closed')
    X, Xt = mk_xform(v, 'X')
    kinds = ('smooth', 'sharp', 'very-smooth', 'smooth')
    cps, C = zip(*[mk_cp(v, 'p%d' % i, kinds[i]) for i in range(n)])
    e = M.ElemCurve('e', pen(v, closed), list(cps), closed, X)
    head = (e.name, obs(e.penbrush), bool(e.closed))
    before = [obs(c) for c in cps]
    e.add_one()
    new = e.control_points
    v.check('exactly one more', len(new) == n + 1)
    fresh = [i for i, c in enumerate(new) if not any(c is d for d in cps)]
    v.check('one new point, the others in order', len(fresh) == 1)
    k = fresh[0]
    rest = [c for c in new if any(c is d for d in cps)]
    v.check('the others in order', len(rest) == n and all(a is b for a, b in zip(rest, cps)))
    left, right = (k - 1) % n, k % n           # indices in the old list
    # the gap chosen is the longest, cyclically
    def d2(i):
        (x, y), (X_, Y_) = C[i][0], C[(i + 1) % n][0]
        return (x - X_) * (x - X_) + (y - Y_) * (y - Y_)
    for i in range(n):
        if i != left:
            v.le('farthest apart', d2(i), d2(left))
    # both halves
    t = v.real('t', lo=0, hi=1)
    old = seg(C[left], C[right])
    L, R_, P = cp_pts(new[(k - 1) % (n + 1)]), cp_pts(new[(k + 1) % (n + 1)]), cp_pts(new[k])
    v.eq('first half', bern(seg(L, P), t), bern(old, t / 2))
    v.eq('second half', bern(seg(P, R_), t), bern(old, (1 + t) / 2))
    # every other segment
    for i in range(n):
        if i == left:
            continue
        a, b = cps[i], cps[(i + 1) % n]
        v.eq('other segments', seg(cp_pts(a), cp_pts(b)), seg(C[i], C[(i + 1) % n]))
    for i, c in enumerate(cps):
        v.eq('places', tuple(c.c.xy()), C[i][0])
        v.check('a corner stays a corner, a smooth point smooth', (c.kind == 'sharp') == (kinds[i] == 'sharp'))
        if i not in (left, right):
            v.eq('other control points', obs(c), before[i])
    v.eq('name, pen, closedness', (e.name, obs(e.penbrush), bool(e.closed)), head)
    v.eq('own transform', e.xform.as_6tuple(), Xt)
    if not closed and n > 1 and right != 0:
        v.check('an open curve keeps its ends', new[0] is cps[0] and new[-1] is cps[-1])


@lemma('C31', 'ElemCurve.add_one bez_split ControlPoint.restore', budget=120)
def add_one_any_length(v):
    """curves of any number of control points"""
    M = v.m.model
    closed = v.flag('closed')
    kind = v.choice('kind', ['smooth', 'sharp', 'very-smooth'])
    X, Xt = mk_xform(v, 'X')

    def mk(v, n):
        cp, c = mk_cp(v, n, kind)
        return cp, (cp, c, obs(cp))
    S = v.seq('cps', mk, minlen=1, twins=False)
    n = S.n
    e = M.ElemCurve('e', pen(v, closed), S.list, closed, X)
    head = (e.name, obs(e.penbrush), bool(e.closed))
    e.add_one()
    new = e.control_points
    k = v.index_of_new(new, S)                  # a witness: the checks below decide that it is right
    fresh = v.item(new, k)
    left = k - 1 if k > 0 else n - 1            # indices in the old list
    right = k if k < n else 0

    def order(i, c):
        if i == k:
            v.check('the new point', c is fresh and all(c is not q for q in (S.at(left)[0], S.at(right)[0])))
        else:
            v.check('the others in order', c is S.at(i if i < k else i - 1)[0])
    v.each('exactly one more', new, n + 1, order)
    C = lambda i: S.cyc(i)[1]

    def dist(i):
        (x, y), (X_, Y_) = C(i)[0], C(i + 1)[0]
        return v.hypot(x - X_, y - Y_)
    v.check_each(S, lambda i: v.le('farthest apart', dist(i), dist(left)))
    # both halves
    t = v.real('t', lo=0, hi=1)
    old = seg(C(left), C(left + 1))
    L, R_, P = cp_pts(S.at(left)[0]), cp_pts(S.at(right)[0]), cp_pts(fresh)
    v.eq('first half', bern(seg(L, P), t), bern(old, t / 2))
    v.eq('second half', bern(seg(P, R_), t), bern(old, (1 + t) / 2))

    def others(i):
        a, c, before = S.at(i)
        if i != left:
            v.eq('other segments', seg(cp_pts(a), cp_pts(S.cyc(i + 1)[0])), seg(c, C(i + 1)))
            if i != right:
                v.eq('other control points', obs(a), before)
        v.eq('places', tuple(a.c.xy()), c[0])
        v.check('a corner stays a corner, a smooth point smooth', (a.kind == 'sharp') == (kind == 'sharp'))
    v.check_each(S, others)
    v.eq('name, pen, closedness', (e.name, obs(e.penbrush), bool(e.closed)), head)
    v.eq('own transform', e.xform.as_6tuple(), Xt)
    if not closed and right != 0:
        v.check('an open curve keeps its ends', v.item(new, 0) is S.at(0)[0] and v.item(new, n) is S.at(n - 1)[0])


@lemma('C31', 'ElemCurve.add_one', bound='seeded random curves of 1 to 7 points', sym=False, fuzz=150)
def add_one_drawn(v):
    """drawn outlines: the points drawn with n steps per segment before are among those drawn with 2n steps after"""
    n = v.choice('points', list(range(1, 8)))
    e = mk_el(v, 'e', 'curve', mk_xform(v, 'X')[0] if v.flag('own') else None, n)
    before = e.paths(ctx(v, None, 4))[0].points.tolist()
    for i in range(v.choice('times', [1, 2, 3])):
        m = len(e.control_points)
        e.add_one()
        v.check('one more', len(e.control_points) == m + 1)
    after = e.paths(ctx(v, None, 32))[0].points.tolist()
    far = max(abs(c) for p in before + after for c in p) + 1
    for p in before:
        v.check('still on the outline', min(abs(p[0] - q[0]) + abs(p[1] - q[1]) for q in after) <= 1e-7 * far)


# =============================================================== C32
def bez90(v):
    return 4 / 3 * math.tan(math.pi / 8)        # a rounded constant on both sides


@lemma('C32', 'make_ellipse_cps ElemEllipse.make_control_points')
def ellipse(v):
    M = v.m.model
    how = v.choice('how', ['circle', 'radii', 'corners'])
    c = pt(v, 'c')
    before = obs(c)
    rx = v.real('rx', nonneg=True)
    ry = rx if how == 'circle' else v.real('ry', nonneg=True)
    if how == 'corners':
        g = v.m.geom
        sx, sy = v.choice('sx', [1, -1]), v.choice('sy', [1, -1])
        e = M.ElemEllipse('e', pen(v), g.Point(c.x - sx * rx, c.y - sy * ry), g.Point(c.x + sx * rx, c.y + sy * ry))
        cps = e.make_control_points()
    elif how == 'circle':
        cps = M.make_ellipse_cps(c, rx)
    else:
        cps = M.make_ellipse_cps(c, rx, ry)
    k = bez90(v)
    v.check('four control points', len(cps) == 4)
    x, y = c.xy()
    # a cycle of the extreme points
    want = [((x + rx, y), 'v', ry), ((x, y - ry), 'h', rx), ((x - rx, y), 'v', ry), ((x, y + ry), 'h', rx)]
    got = [cp_pts(q) for q in cps]
    v.same_set('at center plus/minus the radii', [q[0] for q in got], [w[0] for w in want])
    for i, (cc, l, r) in enumerate(got):
        ux, uy = (cc[0] - x, cc[1] - y)
        for nm, h in (('left', l), ('right', r)):
            hx, hy = h[0] - cc[0], h[1] - cc[1]
            v.num_eq(nm + ' handle is tangent', hx * ux * ry * ry + hy * uy * rx * rx, 0)
            v.num_eq(nm + ' handle has length k times the other radius', hx * hx + hy * hy,
                     k * k * (rx * rx + ry * ry - ux * ux - uy * uy))
        v.eq('opposite handles', (l[0] + r[0], l[1] + r[1]), (2 * cc[0], 2 * cc[1]))
        # each segment leads to the next extreme point, a quarter turn on
        n = got[(i + 1) % 4]
        v.num_eq('quarter turn', (n[0][0] - x) * ux + (n[0][1] - y) * uy, 0)
        # the corner of the control polygon: handles point towards each other
        v.eq('handles toward the next point', (r[0] - cc[0], r[1] - cc[1]), (k * (n[0][0] - x), k * (n[0][1] - y)))
        v.eq('handles toward the previous point', (n[1][0] - n[0][0], n[1][1] - n[0][1]), (k * ux, k * uy))
    unchanged(v, 'center', before, c)


@lemma('C32', 'make_rounded_rect_cps ElemRectangleRounded.make_control_points', budget=60)
def rounded(v):
    M, g = v.m.model, v.m.geom
    x, y = v.reals('x y')
    if v.symbolic:
        w, h, r = v.real('w', pos=True), v.real('h', pos=True), v.real('r', nonneg=True)
    else:
        # dyadic sizes: sides and radii exact in binary, so that coinciding points coincide exactly
        x, y = round(4 * x) / 4, round(4 * y) / 4
        w, h, r = [q / 4 for q in (v.integer('w', lo=1, hi=40), v.integer('h', lo=1, hi=40), v.integer('r', lo=0, hi=40))]
    sx, sy = v.choice('sx', [1, -1]), v.choice('sy', [1, -1])
    p1 = g.Point(x if sx > 0 else x + w, y if sy > 0 else y + h)
    p2 = g.Point(x + w if sx > 0 else x, y + h if sy > 0 else y)
    before = obs((p1, p2))
    if v.flag('element'):
        cps = M.ElemRectangleRounded('e', pen(v), p1, p2, r).make_control_points()
    else:
        cps = M.make_rounded_rect_cps(p1, p2, r)
    unchanged(v, 'corners', before, (p1, p2))
    k = bez90(v)
    rad = v.min(r, w / 2, h / 2)
    got = [cp_pts(q) for q in cps]
    n = len(got)
    xl, yl, xh, yh = x, y, x + w, y + h
    # the tangent points of the corner arcs
    tang = [(xl + rad, yl), (xl, yl + rad), (xl, yh - rad), (xl + rad, yh), (xh - rad, yh), (xh, yh - rad), (xh, yl + rad), (xh - rad, yl)]
    v.same_set('control points are the ends of the corner arcs', [c for c, _, _ in got], tang)
    for i in range(n):
        a, b = got[i], got[(i + 1) % n]
        v.check('no duplicated consecutive points', v.or_(a[0][0] != b[0][0], a[0][1] != b[0][1]))
        pts4 = seg(a, b)
        for q in pts4:
            v.le('inside', xl, q[0])
            v.le('inside', q[0], xh)
            v.le('inside', yl, q[1])
            v.le('inside', q[1], yh)
    arcs = sides = 0
    for i in range(n):
        a, b = got[i], got[(i + 1) % n]
        (ax, ay), (arx, ary), (blx, bly), (bx, by) = seg(a, b)
        dx, dy = bx - ax, by - ay
        vert = v.num_same(dx, 0)
        hor = v.num_same(dy, 0)
        if vert or hor:
            # a straight side: its handles stay on the line
            sides += 1
            v.num_eq('straight side', (arx - ax) if vert else (ary - ay), 0)
            v.num_eq('straight side', (blx - bx) if vert else (bly - by), 0)
            continue
        # a corner arc of radius rad: a quarter circle in Bezier form, tangent to both sides
        arcs += 1
        v.num_eq('arc spans the radius in x', dx * dx, rad * rad)
        v.num_eq('arc spans the radius in y', dy * dy, rad * rad)
        h1 = (arx - ax, ary - ay)
        h2 = (blx - bx, bly - by)
        if v.num_same(h1[0], 0):
            v.eq('tangent handles', h1 + h2, (0, k * dy, -k * dx, 0))
            corner = (ax, by)
        else:
            v.eq('tangent handles', h1 + h2, (k * dx, 0, 0, -k * dy))
            corner = (bx, ay)
        v.same_set('at a corner', [corner], [c for c in ((xl, yl), (xl, yh), (xh, yl), (xh, yh)) if
                                             v.num_same(c[0], corner[0]) and v.num_same(c[1], corner[1])] or [(xl, yl)])
    v.check('four arcs', arcs == (0 if v.num_same(rad, 0) else 4))
    for i, want in ((0, xl), (0, xh), (1, yl), (1, yh)):
        v.check('touches all four sides', any(v.num_same(c[i], want) for c, _, _ in got))


# =============================================================== C33
class Recorder:
    """stands in for PIL's ImageDraw: records what is asked of it"""
    def __init__(self):
        self.ops = []

    def polygon(self, xy, fill=None, outline=None, width=1):
        self.ops.append(('polygon', points_in(xy), fill, outline, width))

    def line(self, xy, fill=None, width=0, joint=None):
        self.ops.append(('line', points_in(xy), fill, width, joint))

    def ellipse(self, xy, fill=None, outline=None, width=1):
        self.ops.append(('ellipse',))

    def rectangle(self, xy, fill=None, outline=None, width=1):
        self.ops.append(('rectangle',))


def points_in(xy):
    xy = xy.tolist() if hasattr(xy, 'tolist') else list(xy)
    if xy and not isinstance(xy[0], (tuple, list)):
        return [(xy[i], xy[i + 1]) for i in range(0, len(xy), 2)]
    return [tuple(p) for p in xy]


PENS33 = ['fill+stroke', 'fill', 'stroke', 'transparent+stroke', 'scaled stroke', 'fill+scaled', 'same colour', 'same brush', 'black numbers',
          'transparent stroke']
COLOURS33 = {'same colour': ('red', 'red'), 'same brush': ('red', 'red'), 'black numbers': (0, 0), 'transparent stroke': ('red', 'T'),
             'transparent+stroke': ('T', 'blue')}


def more_pens(C, w):
    b = C.Brush('red')
    return {'same colour': C.PenBrush(('red', w), 'red'), 'same brush': C.PenBrush(C.Pen(b, w), b), 'black numbers': C.PenBrush((0, w), 0),
            'transparent stroke': C.PenBrush((C.TRANSPARENT, w), 'red')}


@lemma('C33', 'Elem.draw DrawingContext.__init__', bound='one path of 4 points per element', budget=60)
def draw_ops(v):
    M, C, T = v.m.model, v.m.colors, v.m.transform.Transform
    kind = v.choice('pen', PENS33)
    w = v.real('w', lo=0, hi=9)
    neg = v.real('nw', lo=-9, hi=-0.125)
    pb = {'fill+stroke': C.PenBrush(('blue', w), 'red'), 'fill': C.PenBrush(None, 'red'), 'stroke': C.PenBrush(('blue', w)),
          'transparent+stroke': C.PenBrush(('blue', w), C.TRANSPARENT),
          'scaled stroke': C.PenBrush(('blue', neg)), 'fill+scaled': C.PenBrush(('blue', neg), 'red'), **more_pens(C, w)}[kind]
    D, Dt = mk_xform(v, 'D', kind='simple')
    prod, shadow, dbg = v.flag('prod'), v.choice('shadow', [None, (1, 2, 3, 255)]), v.flag('debug')
    dc = ctx(v, D, prod=prod)
    rec = dc.draw = Recorder()
    dc.shadow_color = shadow
    dc.debug = dbg
    pts = [tuple(v.reals('x%d y%d' % (i, i))) for i in range(4)]
    closed = v.flag('closed') or pb.filled

    class E(M.ElemRectangle):
        def paths(self, dc):
            return [M.Path(pb, bool(closed), v.m.model.ImagePath.Path(pts))]
    g = v.m.geom
    E('e', C.PenBrush('black'), g.Point(0, 0), g.Point(1, 1)).draw(dc)
    ops = [o for o in rec.ops if o[0] in ('polygon', 'line')]
    v.check('nothing but circles in debug mode', dbg or len(ops) == len(rec.ops))
    fill, stroke = COLOURS33.get(kind, ('red' if 'fill' in kind else None, None if kind == 'fill' else 'blue'))
    filled, stroked = fill is not None, stroke is not None
    fc = None
    if filled:
        fc = C.TRANSPARENT if fill == 'T' else (fill if shadow is None else shadow)
    stroke = C.TRANSPARENT if stroke == 'T' else stroke
    sw = None
    if stroked:
        mean = (v.abs(Dt[0]) + v.abs(Dt[4])) / 2
        sw = -neg * mean if 'scaled' in kind else (w if w > 0 else 0)
    width = v.max(1, v.round(sw)) if prod and stroked else 1
    want = []
    if filled:
        want.append('polygon')
    if stroked:
        want.append('line')
    v.check('operations', [o[0] for o in ops] == want)
    for o in ops:
        if o[0] == 'polygon':
            v.eq('polygon along the path', o[1], pts)
            v.check('fill colour', o[2] == fc)
            v.check('no outline of its own', o[3] is None)
        else:
            v.eq('line along the path', o[1], pts + pts[:1] if filled else pts)
            v.check('stroke colour', o[2] == stroke)
            v.eq('width', o[3], width)
    v.eq('matrix as found', dc.matrix.as_6tuple(), Dt)


def raw_points(xy):
    return xy.tolist() if hasattr(xy, 'tolist') else xy


class RawRecorder(Recorder):
    """the same for point sequences of any length; the circles of the debug mode are not recorded"""
    def polygon(self, xy, fill=None, outline=None, width=1):
        self.ops.append(('polygon', raw_points(xy), fill, outline, width))

    def line(self, xy, fill=None, width=0, joint=None):
        self.ops.append(('line', raw_points(xy), fill, width, joint))

    def ellipse(self, xy, fill=None, outline=None, width=1):
        pass


@lemma('C33', 'Elem.draw Elem.draw_path_debug', budget=60)
def draw_ops_any_length(v):
    """a path of any number of points"""
    M, C = v.m.model, v.m.colors
    kind = v.choice('pen', PENS33)
    w = v.real('w', lo=0, hi=9)
    neg = v.real('nw', lo=-9, hi=-0.125)
    pb = {'fill+stroke': C.PenBrush(('blue', w), 'red'), 'fill': C.PenBrush(None, 'red'), 'stroke': C.PenBrush(('blue', w)),
          'transparent+stroke': C.PenBrush(('blue', w), C.TRANSPARENT),
          'scaled stroke': C.PenBrush(('blue', neg)), 'fill+scaled': C.PenBrush(('blue', neg), 'red'), **more_pens(C, w)}[kind]
    D, Dt = mk_xform(v, 'D', kind='simple')
    prod, shadow, dbg = v.flag('prod'), v.choice('shadow', [None, (1, 2, 3, 255)]), v.flag('debug')
    dc = ctx(v, D, prod=prod)
    rec = dc.draw = RawRecorder()
    dc.shadow_color = shadow
    dc.debug = dbg

    def mk(v, n):
        p = tuple(v.reals('%s.x %s.y' % (n, n)))
        return p, p
    S = v.seq('pts', mk, 1)
    closed = v.flag('closed') or pb.filled

    class E(M.ElemRectangle):
        def paths(self, dc):
            return [M.Path(pb, bool(closed), v.m.model.ImagePath.Path(S.list))]
    g = v.m.geom
    E('e', C.PenBrush('black'), g.Point(0, 0), g.Point(1, 1)).draw(dc)
    ops = rec.ops
    fill, stroke = COLOURS33.get(kind, ('red' if 'fill' in kind else None, None if kind == 'fill' else 'blue'))
    filled, stroked = fill is not None, stroke is not None
    fc = None
    if filled:
        fc = C.TRANSPARENT if fill == 'T' else (fill if shadow is None else shadow)
    stroke = C.TRANSPARENT if stroke == 'T' else stroke
    sw = None
    if stroked:
        mean = (v.abs(Dt[0]) + v.abs(Dt[4])) / 2
        sw = -neg * mean if 'scaled' in kind else (w if w > 0 else 0)
    width = v.max(1, v.round(sw)) if prod and stroked else 1
    v.check('operations', [o[0] for o in ops] == ['polygon'] * filled + ['line'] * stroked)
    for o in ops:
        if o[0] == 'polygon':
            v.each('polygon along the path', o[1], S.n, lambda i, q: v.eq('point', tuple(q), S.at(i)))
            v.check('fill colour', o[2] == fc)
            v.check('no outline of its own', o[3] is None)
        else:
            n = S.n + 1 if filled else S.n
            v.each('line along the path', o[1], n, lambda i, q: v.eq('point', tuple(q), S.cyc(i)))
            v.check('stroke colour', o[2] == stroke)
            v.eq('width', o[3], width)
    v.eq('matrix as found', dc.matrix.as_6tuple(), Dt)


@lemma('C33', 'ElemRectangle.paths Elem.draw_space')
def rectangle_path(v):
    xf, Xt = mk_xform(v, 'X') if v.flag('own transform') else (None, (1, 0, 0, 0, 1, 0))
    D, Dt = mk_xform(v, 'D', kind='simple')
    r = mk_el(v, 'r', 'rect', xf, corner='signs')
    dc = ctx(v, D)
    ps = r.paths(dc)
    v.check('one path', len(ps) == 1)
    p = ps[0].points.tolist()
    (x1, y1), (x2, y2) = r.p1.xy(), r.p2.xy()
    loop = [apply6(Dt, *apply6(Xt, *c)) for c in ((x1, y1), (x2, y1), (x2, y2), (x1, y2))]
    v.check('five points', len(p) == 5)
    v.eq('closed', p[0], p[4])
    v.check('flagged closed', ps[0].closed is True)
    v.check('with the pen of the element', ps[0].penbrush is r.penbrush)
    # the same cycle, in either direction, from any corner
    cycles = [[loop[(s + d * i) % 4] for i in range(4)] for s in range(4) for d in (1, -1)]
    v.check('the four mapped corners around the rectangle',
            v.or_(*[v.and_(*[v.num_same(s, t) for a, b in zip(p[:4], c) for s, t in zip(a, b)]) for c in cycles]))
    v.eq('matrix as found', dc.matrix.as_6tuple(), Dt)


@lemma('C33', 'ElemCurve.paths ElemCurve.control_points_transformed Elem.draw_space', budget=60)
def curve_path_any_length(v):
    """the outline of a curve samples its segments, for any number of control points and of samples"""
    M = v.m.model
    how = v.choice('steps', ['any', 1, 2])
    n = v.integer('n', lo=1) if how == 'any' else how
    closed = v.flag('closed')
    xf, Xt = mk_xform(v, 'X') if how != 'any' else (None, (1, 0, 0, 0, 1, 0))
    D, Dt = mk_xform(v, 'D')
    S = v.seq('cps', mk_cp, minlen=1)
    before = obs(S.list)
    e = M.ElemCurve('e', pen(v, closed), S.list, closed, xf)
    dc = ctx(v, D, n)
    ps = e.paths(dc)
    v.check('one path', len(ps) == 1)
    v.check('flagged closed', bool(ps[0].closed) == closed)
    v.check('with the pen of the element', ps[0].penbrush is e.penbrush)
    segments = S.n if closed else S.n - 1
    coord = path_coord(v, S, compose6(Dt, Xt), closed, n)
    p = ps[0].points.tolist()
    if segments == 0:
        v.check('no points', len(p) == 0)
    else:
        v.each('samples', p, n * segments + 1, lambda i, q: v.eq('point', tuple(q), (coord(2 * i), coord(2 * i + 1))))
    unchanged(v, 'control points', before, S.list)
    v.eq('matrix as found', dc.matrix.as_6tuple(), Dt)


@lemma('C33', 'ElemEllipse.paths ElemRectangleRounded.paths ElemEllipse.make_control_points ElemRectangleRounded.make_control_points', budget=90)
def round_path(v):
    """the outline of ellipses and rounded rectangles samples the segments between their control points"""
    kind = v.choice('kind', ['ellipse', 'rounded'])
    few_steps(v)
    xf, Xt = mk_xform(v, 'X') if v.flag('own transform') else (None, (1, 0, 0, 0, 1, 0))
    D, Dt = mk_xform(v, 'D', kind='simple')
    e = mk_el(v, 'e', kind, xf, corner='signs')
    dc = ctx(v, D)
    ps = e.paths(dc)
    v.check('one path', len(ps) == 1)
    v.check('flagged closed', ps[0].closed is True)
    v.check('with the pen of the element', ps[0].penbrush is e.penbrush)
    p = ps[0].points.tolist()
    cps = [cp_pts(c) for c in e.make_control_points()]
    k = len(cps)
    v.check('whole segments', len(p) > k and (len(p) - 1) % k == 0)
    n = (len(p) - 1) // k
    v.check('more than the control points', n > 1)
    full = compose6(Dt, Xt)
    for i, q in enumerate(p):
        a, t = (i // n, i % n) if i < n * k else (k - 1, n)
        s = [apply6(full, *c) for c in seg(cps[a], cps[(a + 1) % k])]
        v.eq('sample', tuple(q), tuple(bern(s, ratio(v, t, n))))
    v.eq('matrix as found', dc.matrix.as_6tuple(), Dt)


@lemma('C33', 'ElemWithHoles.__init__ ElemWithHoles.paths Path.extend',
       bound='up to 2 holes, rectangles and curves of 2 points', budget=60)
def holes_paths(v):
    M, C = v.m.model, v.m.colors
    few_steps(v)
    X, Xt = mk_xform(v, 'X')
    D, Dt = mk_xform(v, 'D', kind='simple')
    n = v.choice('holes', [0, 1, 2])
    kinds = [v.choice('kind%d' % i, ['rect', 'curve']) for i in range(n + 1)]
    parts = [mk_el(v, 'q%d' % i, k, None, 2) for i, k in enumerate(kinds)]
    how = v.choice('pen', ['both', 'stroke', 'fill'])
    pb = {'both': C.PenBrush(('blue', 2), 'red'), 'stroke': C.PenBrush(('blue', 2)), 'fill': C.PenBrush(None, 'red')}[how]
    if v.flag('another pen at first'):
        e = M.ElemWithHoles('e', C.PenBrush(('green', 1)), parts[0], parts[1:], xform=X)
        e.penbrush = pb
    else:
        e = M.ElemWithHoles('e', pb, parts[0], parts[1:], xform=X)
    dc = ctx(v, D, 2)
    ps = e.paths(dc)
    v.eq('matrix as found', dc.matrix.as_6tuple(), Dt)
    dc2 = ctx(v, D.copy().compose(X), 2)
    alone = [q.paths(dc2)[0].points.tolist() for q in parts]
    fills = [p for p in ps if p.penbrush.filled]
    edges = [p for p in ps if not p.penbrush.filled]
    v.check('one fill path', len(fills) == (0 if how == 'stroke' else 1))
    v.check('filled below the strokes', not fills or ps[0] is fills[0])
    if fills:
        want = list(alone[0])
        for a in alone[1:]:
            want += a + [alone[0][-1]]
        v.eq('fill path through outside and every hole', fills[0].points.tolist(), want)
        v.check('fill colour', fills[0].penbrush.fill_color == 'red')
        v.check('the fill path has no stroke', not fills[0].penbrush.stroked)
    if how != 'fill':
        v.check('one stroke path each', len(edges) == n + 1)
    for p, a in zip(edges, alone):
        v.check('stroke only', obs(p.penbrush) == obs(C.PenBrush(pb.pen, None)))
        v.eq('stroke along it', p.points.tolist(), a)
    rec = dc.draw = Recorder()
    dc.debug = False
    e.draw(dc)
    kinds_ = [o[0] for o in rec.ops]
    v.check('operations', kinds_ == ['polygon'] * len(fills) + (['line'] * (n + 1) if how != 'fill' else []))


@lemma('C33', 'DrawingContext.scale_pt DrawingContext.unscale_pt DrawingContext.stroke_width DrawingContext.set_matrix DrawingContext.line DrawingContext.polygon')
def context_maps(v):
    D, Dt = mk_xform(v, 'D', invertible=True, kind=v.choice('kind', ['simple', 'general']))
    dc = ctx(v, D)
    x, y = v.reals('x y')
    v.check('the matrix given', dc.matrix is D)
    v.eq('to the canvas', tuple(dc.scale_pt(x, y)), apply6(Dt, x, y))
    v.eq('and back', tuple(dc.unscale_pt(*dc.scale_pt(x, y))), (x, y))
    v.eq('there again', tuple(dc.scale_pt(*dc.unscale_pt(x, y))), (x, y))
    rec = dc.draw = Recorder()
    x2, y2 = v.reals('x2 y2')
    dc.line(x, y, x2, y2, 'green', 3)
    dc.polygon([(x, y), v.m.geom.Point(x2, y2), (y, x)], 'yellow', None)
    (k1, p1, c1, w1, _), (k2, p2, f2, o2, _) = rec.ops
    v.check('one line, one polygon', (k1, k2) == ('line', 'polygon'))
    v.eq('line', p1, [apply6(Dt, x, y), apply6(Dt, x2, y2)])
    v.check('line colour and width', (c1, w1) == ('green', 3))
    v.eq('polygon', p2, [apply6(Dt, *q) for q in ((x, y), (x2, y2), (y, x))])
    v.check('polygon colours', (f2, o2) == ('yellow', None))


@lemma('C33', 'DrawingContext.stroke_width')
def context_width(v):
    D, Dt = mk_xform(v, 'D', kind=v.choice('kind', ['simple', 'general']))
    dc = ctx(v, D)
    w = v.real('w', nonneg=True)
    v.num_eq('the width under the matrix', dc.stroke_width(w), D.transform_width(w))


@lemma('C33', 'DrawingContext.crop_to_pixels')
def context_crop(v):
    D, Dt = mk_xform(v, 'D', kind=v.choice('kind', ['simple', 'general']))
    dc = ctx(v, D)
    x1, y1, x2, y2 = v.reals('x1 y1 x2 y2')
    l, t, r, b = dc.crop_to_pixels((x1, y1, x2, y2))
    (a1, b1), (a2, b2) = apply6(Dt, x1, y1), apply6(Dt, x2, y2)
    v.check('pixels', all(isinstance(q, int) for q in (l, t, r, b)) or v.symbolic)
    v.le('increasing x', l, r)
    v.le('increasing y', t, b)
    # truncated to whole pixels: less than one pixel away from the mapped corners
    for lab, got, p, q in (('left', l, a1, a2), ('right', r, a1, a2), ('top', t, b1, b2), ('bottom', b, b1, b2)):
        want = v.min(p, q) if lab in ('left', 'top') else v.max(p, q)
        v.lt(lab + ' within a pixel', v.abs(got - want), 1 + (0 if v.symbolic else 1e-6 * (1 + abs(want))))


@lemma('C33', 'DrawingContext.image DrawingContext.crop_to_pixels DrawingContext.__init__', bound='a 12x10 image', sym=False, fuzz=120)
def image_cropped(v):
    """the image is that of the whole canvas cut to the mapped box (empty outside the canvas)"""
    from PIL import Image
    im = Image.new('RGBA', (12, 10))
    im.putdata([(20 * x, 25 * y, 7, 255) for y in range(10) for x in range(12)])
    k, dx, dy = v.choice('k', [1, -1, 2]), v.choice('dx', [0, 3, 8]), v.choice('dy', [0, 2, -4])
    T = v.m.transform.Transform((1, 0, dx, 0, k, dy))
    box = tuple(v.choice('b%d' % i, [-3, 0, 1, 2, 5, 7, 11]) for i in range(4))
    how = v.choice('how', ['given to the context', 'given to image', 'none'])
    dc = v.m.drawing.DrawingContext(im, T, box if how == 'given to the context' else None)
    (x1, y1), (x2, y2) = apply6((1, 0, dx, 0, k, dy), *box[:2]), apply6((1, 0, dx, 0, k, dy), *box[2:])
    want = (min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2))
    v.assume(want[0] < want[2] and want[1] < want[3])
    whole = dc.image(crop=False)
    v.check('the whole canvas', whole.size == (12, 10) and list(whole.getdata()) == list(im.getdata()))
    got = dc.image(crop=box) if how == 'given to image' else dc.image()
    if how == 'none':
        want = (0, 0, 12, 10)
    v.check('size', got.size == (want[2] - want[0], want[3] - want[1]))
    v.check('pixels', list(got.getdata()) == list(im.crop(want).getdata()))


@lemma('C33', 'DrawingContext.shadow_draw DrawingContext.alloc_shadow', bound='a rectangle on an image of 4x4 pixels')
def shadow_restores(v):
    M, C, g = v.m.model, v.m.colors, v.m.geom
    dc = ctx(v, v.m.transform.Transform())
    seen = []
    before = dc.draw
    boom = v.flag('raises')
    fill = v.choice('fill', ['red', C.TRANSPARENT])

    class E(M.ElemRectangle):
        def draw(self, dc):
            seen.append((dc.draw is not before, dc.shadow_color))
            rec = keep = Recorder()
            canvas, dc.draw = dc.draw, rec
            dc.debug = False
            super().draw(dc)
            dc.draw = canvas
            seen.append([o[2] for o in keep.ops if o[0] == 'polygon'])
            if boom:
                raise KeyError('boom')
    e = E('e', C.PenBrush('black', fill), g.Point(0, 0), g.Point(1, 1))
    col = (1, 2, 3, 255)
    if boom:
        v.raises('passes the exception on', KeyError, dc.shadow_draw, e, col)
    else:
        dc.shadow_draw(e, col)
    v.check('drawn once, elsewhere, with the shadow colour', seen[0] == (True, col) and len(seen) == 2)
    v.check('fill in the shadow colour unless transparent', seen[1] == [col if fill == 'red' else C.TRANSPARENT])
    v.check('drawing goes back to the layer', dc.draw is before)
    v.check('shadow mode over', dc.shadow_color is None)
    v.check('a shadow image of the size of the layer', dc.shadow is not None and dc.shadow.size == dc.layer.size)
