"""
Source rewriting done on the syntax tree of /repo at load time (instrumented modules only).  Each rewritten form means
the same for ordinary values; it lets comprehensions and for-loops run over sequences of symbolic length (seq.py):
  [elt for T in it if c]      ->  __pyvc_comp__(it, lambda s: [elt for T in s if c], 'list', site)   (nested ones too)
  (elt for T in it)           ->  __pyvc_comp__(it, lambda s: (elt for T in s), 'gen', site)
  for T in it: body           ->  the same loop over __pyvc_for__(it, site), with hooks that may replace local variables
                                  of the loop when the sequence is symbolic
  x.extend(e), x += e         ->  x = __pyvc_extend__(x, e), x = __pyvc_iadd__(x, e)   for local variables x
  list(e), tuple(e)           ->  __pyvc_list__(e), __pyvc_tuple__(e)
"""
import ast

INFO = {}


def loads(node, into=None):
    """names read in an expression or statement, comprehension targets apart"""
    into = set() if into is None else into
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        own = set()
        for g in node.generators:
            own |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        sub = set()
        for c in ast.iter_child_nodes(node):
            loads(c, sub)
        first = set()
        loads(node.generators[0].iter, first)
        into |= (sub - own) | first
        return into
    if isinstance(node, ast.Lambda):
        own = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        sub = loads(node.body)
        into |= sub - own
        for d in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            loads(d, into)
        return into
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        own = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        for s in node.body:
            loads(s, into)
        into -= own - {n for d in node.args.defaults for n in loads(d)}
        return into
    if isinstance(node, ast.Name):
        if isinstance(node.ctx, (ast.Load, ast.Del)):
            into.add(node.id)
        return into
    if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name):
        into.add(node.target.id)
    for c in ast.iter_child_nodes(node):
        loads(c, into)
    return into


def stores(stmts):
    out = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    out.add(m.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split('.')[0] for a in n.names)
        for c in ast.iter_child_nodes(n):
            go(c)
    for s in stmts:
        go(s)
    return out


def exposed(stmts, have):
    """names possibly read before they are written; have: names surely written so far (updated)"""
    out = set()

    def rd(n):
        if n is not None:
            out.update(loads(n) - have)

    def wr(t):
        if isinstance(t, ast.Name):
            have.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                wr(e)
        elif isinstance(t, ast.Starred):
            wr(t.value)
        else:
            rd(t)
    for s in stmts:
        if isinstance(s, ast.Assign):
            rd(s.value)
            for t in s.targets:
                wr(t)
        elif isinstance(s, ast.AnnAssign):
            rd(s.value)
            if s.value is not None:
                wr(s.target)
        elif isinstance(s, ast.AugAssign):
            rd(s.value)
            out.update(loads(s.target) - have)
            if isinstance(s.target, ast.Name):
                if s.target.id not in have:
                    out.add(s.target.id)
                have.add(s.target.id)
        elif isinstance(s, ast.If):
            rd(s.test)
            a, b = set(have), set(have)
            out |= exposed(s.body, a) | exposed(s.orelse, b)
            have |= a & b
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            rd(s.iter)
            a = set(have)
            out |= exposed([ast.Assign([s.target], ast.Constant(0))] + s.body, a)
            out |= exposed(s.orelse, set(have))
        elif isinstance(s, ast.While):
            rd(s.test)
            out |= exposed(s.body, set(have)) | exposed(s.orelse, set(have))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                rd(i.context_expr)
                if i.optional_vars is not None:
                    wr(i.optional_vars)
            out |= exposed(s.body, have)
        elif isinstance(s, ast.Try):
            a = set(have)
            out |= exposed(s.body, a)
            for h in s.handlers:
                rd(h.type)
                out |= exposed(h.body, set(have))
            out |= exposed(s.orelse, a)
            out |= exposed(s.finalbody, set(have))
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            rd(s)
            have.add(s.name)
        elif isinstance(s, (ast.Expr, ast.Return, ast.Raise, ast.Assert, ast.Delete, ast.Pass, ast.Continue, ast.Break)):
            rd(s)
        else:
            out |= loads(s) | stores([s])
    return out


def own_walk(stmts):
    """nodes of the statements, without nested functions"""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def escapes(stmts, top=True):
    for s in stmts:
        if isinstance(s, ast.Return) or isinstance(s, ast.Break) and top:
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        inner = top and not isinstance(s, (ast.For, ast.While))
        for f in ('body', 'orelse', 'finalbody'):
            if escapes(getattr(s, f, []) or [], inner if f == 'body' else top):
                return True
        for h in getattr(s, 'handlers', []):
            if escapes(h.body, top):
                return True
    return False


class Func:
    def __init__(self, node):
        a = node.args
        args = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        out = set()
        for n in own_walk(node.body):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out.update(n.names)
        self.names = (set(args) | stores(node.body)) - out
        self.node = node
        # every occurrence of a name, in textual order
        self.occ = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                self.occ.setdefault(n.id, []).append((n.lineno, n.col_offset, isinstance(n.ctx, ast.Store)))
        for v in self.occ.values():
            v.sort()
        self.nested = set()
        for n in own_walk(node.body):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                self.nested |= loads(n)
        self.loops = []

    def liveout(self, name, loop):
        if name in self.nested:
            return True
        a, b = (loop.lineno, loop.col_offset), (loop.end_lineno, loop.end_col_offset)
        for o in self.occ.get(name, ()):
            if (o[0], o[1]) > b:
                if not o[2] or self.aug(o):
                    return True
                break
        for outer in self.loops:
            s = (outer.lineno, outer.col_offset)
            for o in self.occ.get(name, ()):
                if s <= (o[0], o[1]) < a:
                    if not o[2] or self.aug(o):
                        return True
                    break
        return False

    def aug(self, o):
        for n in ast.walk(self.node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and \
                    (n.target.lineno, n.target.col_offset) == o[:2]:
                return True
        return False


class _Rewrite(ast.NodeTransformer):
    def __init__(self, path):
        self.path = path
        self.funcs = []
        self.count = 0

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        f = Func(node)
        self.funcs.append(f)
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_walk(node.body))
        f.gen = gen
        node.body = self.block(node.body)
        self.funcs.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        d, self.funcs = self.funcs, []
        self.generic_visit(node)
        self.funcs = d
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def site(self, node):
        return ast.Tuple([ast.Constant(self.path.rsplit('/', 1)[-1]), ast.Constant(node.lineno),
                          ast.Constant(node.col_offset)], ast.Load())

    def call(self, node, name, *args):
        return ast.fix_missing_locations(ast.copy_location(
            ast.Call(ast.Name(name, ast.Load()), list(args), []), node))

    # ------------------------------------------------------------ comprehensions
    def visit_ListComp(self, node):
        return self.comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self.comp(node, 'gen')

    def comp(self, node, kind):
        ok = bool(self.funcs) and not any(g.is_async for g in node.generators)
        for n in ast.walk(node):
            if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) or \
                    isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals'):
                ok = False
        if not ok:
            return self.generic_visit(node)
        site = self.site(node)
        if kind == 'list' and len(node.generators) > 1:
            inner = ast.copy_location(ast.ListComp(node.elt, node.generators[1:]), node)
            inner.col_offset += 1
            inner = self.visit(inner)
            g = node.generators[0]
            outer = ast.ListComp(inner, [g])
            g.iter, it = ast.Name('__pyvc_s', ast.Load()), self.visit(g.iter)
            g.ifs = [self.visit(i) for i in g.ifs]
            body = ast.Call(ast.Name('__pyvc_flat__', ast.Load()), [outer], [])
        else:
            self.generic_visit(node)
            g = node.generators[0]
            it = g.iter
            g.iter = ast.Name('__pyvc_s', ast.Load())
            body = node
        lam = ast.Lambda(ast.arguments([], [ast.arg('__pyvc_s')], None, [], [], None, []), body)
        new = ast.Call(ast.Name('__pyvc_comp__', ast.Load()), [it, lam, ast.Constant(kind), site], [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    # ------------------------------------------------------------ loops
    def visit_For(self, node):
        if not self.funcs:
            return self.generic_visit(node)
        f = self.funcs[-1]
        yields = any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in own_walk(node.body))
        targets = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        st = stores(node.body)
        have = set(targets)
        exp = exposed(node.body, have)
        names = f.names - targets
        live = {n for n in st | targets if f.liveout(n, node)}
        add = set()
        for nm in st:
            others = False
            for n in own_walk(node.body):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == nm and \
                        isinstance(n.op, (ast.Add, ast.Sub)) and nm not in loads(n.value):
                    continue
                if isinstance(n, ast.Name) and n.id == nm and not any(
                        isinstance(m, ast.AugAssign) and m.target is n for m in own_walk(node.body)):
                    others = True
            if not others:
                add.add(nm)
        key = (self.path.rsplit('/', 1)[-1], node.lineno, node.col_offset)
        INFO[key] = dict(targets=targets, stored=st, names=names, dead=(st - exp) - live, liveout=live, addonly=add,
                         escapes=escapes(node.body), cells=set(), yields=yields)
        INFO[key]['lastused'] = live & targets
        self.count += 1
        var = '__pyvc_it%d' % self.count
        site = self.site(node)
        f.loops.append(node)
        it = self.visit(node.iter)
        body = self.block(node.body)
        orelse = self.block(node.orelse)
        f.loops.pop()

        def sync(more=()):
            tests = []
            for nm in sorted(names | set(more)):
                up = ast.Attribute(ast.Name(var, ast.Load()), 'upd', ast.Load())
                tests.append(ast.If(ast.Compare(ast.Constant(nm), [ast.In()], [up]),
                                    [ast.Assign([ast.Name(nm, ast.Store())], ast.Subscript(
                                        ast.Attribute(ast.Name(var, ast.Load()), 'upd', ast.Load()),
                                        ast.Constant(nm), ast.Load()))], []))
            if not tests:
                return []
            return [ast.If(ast.Attribute(ast.Name(var, ast.Load()), 'upd', ast.Load()), tests, [])]
        pre = ast.Assign([ast.Name(var, ast.Store())],
                         ast.Call(ast.Name('__pyvc_for__', ast.Load()), [it, site], []))
        loop = ast.For(node.target, ast.Name(var, ast.Load()), sync() + body, (sync(live & targets) + orelse) if orelse else [], None)
        out = [pre, loop]
        if not orelse:
            out += sync(live & targets)
        return [ast.fix_missing_locations(ast.copy_location(s, node)) for s in out]

    # ------------------------------------------------------------ statements and calls
    def visit_Expr(self, node):
        c = node.value
        if self.funcs and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'extend' and \
                isinstance(c.func.value, ast.Name) and c.func.value.id in self.funcs[-1].names and \
                len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred):
            nm = c.func.value.id
            new = ast.Assign([ast.Name(nm, ast.Store())],
                             ast.Call(ast.Name('__pyvc_extend__', ast.Load()),
                                      [ast.Name(nm, ast.Load()), self.visit(c.args[0])], []))
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        if self.funcs and isinstance(node.op, ast.Add) and isinstance(node.target, ast.Name) and \
                node.target.id in self.funcs[-1].names:
            nm = node.target.id
            new = ast.Assign([ast.Name(nm, ast.Store())],
                             ast.Call(ast.Name('__pyvc_iadd__', ast.Load()),
                                      [ast.Name(nm, ast.Load()), self.visit(node.value)], []))
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return self.generic_visit(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('list', 'tuple') and len(node.args) == 1 and \
                not node.keywords and not isinstance(node.args[0], ast.Starred):
            return self.call(node, '__pyvc_%s__' % node.func.id, node.args[0])
        if isinstance(node.func, ast.Name) and node.func.id == 'zip' and len(node.args) == 1 and \
                isinstance(node.args[0], ast.Starred) and not node.keywords:
            return self.call(node, '__pyvc_zipstar__', node.args[0].value)
        if isinstance(node.func, ast.Name) and node.func.id == 'dict' and not any(k.arg is None for k in node.keywords):
            return ast.fix_missing_locations(ast.copy_location(
                ast.Call(ast.Name('__pyvc_dict__', ast.Load()), node.args, node.keywords), node))
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'join' and len(node.args) == 1 and \
                not node.keywords and not isinstance(node.args[0], ast.Starred):
            return self.call(node, '__pyvc_join__', node.func.value, node.args[0])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return self.call(node, '__pyvc_fmt__', node.left, node.right)
        return node

    def generic_visit(self, node):
        for fld, old in ast.iter_fields(node):
            if isinstance(old, list):
                new = []
                for x in old:
                    if isinstance(x, ast.AST):
                        x = self.visit(x)
                        if x is None:
                            continue
                        if isinstance(x, list):
                            new.extend(x)
                            continue
                    new.append(x)
                old[:] = new
            elif isinstance(old, ast.AST):
                new = self.visit(old)
                if new is None:
                    delattr(node, fld)
                else:
                    setattr(node, fld, new)
        return node


def loads_of(stmts):
    out = set()
    for s in stmts:
        loads(s, out)
    return out


def rewrite(tree, path=''):
    return ast.fix_missing_locations(_Rewrite(path).visit(tree))
