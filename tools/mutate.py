#!/usr/bin/env python3
"""Mutation measure of the checks (not part of any check): small edits of /repo's functions that the test suite misses,
and whether the checks of the properties anchored there report them.
usage: mutate.py gen OUT.json | mutate.py tests IN.json OUT.json | mutate.py checks IN.json OUT.json [N]"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['imagehelp', 'geom', 'transform', 'model', 'bezier', 'anim', 'anim_simple', 'colors', 'drawing', 'vec_field', 'utils']
SKIP = ('plot', '__str__', 'debug', 'validate', 'save_animation', 'make_palette', 'bez_self_intersect', 'bez_intersect',
        '__repr__x', 'test', 'main', 'details', 'fatten', 'ElemCurve.stroke', 'show', 'run')


def edits(tree, src):
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def visit(n, qual, infn):
        if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
            qual = qual + [n.name]
        if isinstance(n, ast.FunctionDef):
            infn = True
        if infn:
            yield from mut(n, '.'.join(qual))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and (c is n.returns or c in n.decorator_list):
                continue
            if isinstance(c, ast.arg) or isinstance(n, ast.AnnAssign) and c is n.annotation:
                continue
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if isinstance(c, (ast.Raise, ast.Assert, ast.JoinedStr)):
                continue
            yield from visit(c, qual, infn)

    def rep(n, new, what, q):
        a, b = pos(n)
        t = new if isinstance(new, str) else ast.unparse(new)
        if isinstance(n, ast.expr) and not isinstance(n, (ast.Constant, ast.Name, ast.Attribute, ast.Call)):
            t = '(' + t + ')'
        return dict(a=a, b=b, old=raw[a:b].decode(), new=t, what=what, func=q, line=n.lineno)

    def mut(n, q):
        if isinstance(n, ast.BinOp):
            for o, w in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.Mult],
                         ast.FloorDiv: [ast.Div]}.get(type(n.op), []) and [(n.op, x) for x in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Mod: [ast.Mult], ast.FloorDiv: [ast.Div]}[type(n.op)]]:
                m = copy.deepcopy(n)
                m.op = w()
                yield rep(n, m, 'op', q)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
                   ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for w in alt.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [w()]
                yield rep(n, m, 'cmp', q)
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            yield rep(n, m, 'bool', q)
            for i in range(len(n.values)):
                yield rep(n, n.values[1 - i] if len(n.values) == 2 else ast.BoolOp(n.op, n.values[:i] + n.values[i + 1:]), 'drop', q)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield rep(n, n.operand, 'unary', q)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield rep(n, repr(n.value + 1), 'const', q)
            if n.value:
                yield rep(n, '(%r)' % -n.value, 'const', q)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield rep(n, repr(not n.value), 'const', q)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            sw = {'x': 'y', 'y': 'x', 'xl': 'xh', 'xh': 'xl', 'yl': 'yh', 'yh': 'yl', 'dl': 'dr', 'dr': 'dl', 'l': 'r', 'r': 'l', 'p1': 'p2', 'p2': 'p1',
                  'width': 'height', 'height': 'width', 'dx': 'dy', 'dy': 'dx', 'stroke': 'fill', 'pen': 'brush'}
            if n.attr in sw:
                m = copy.deepcopy(n)
                m.attr = sw[n.attr]
                yield rep(n, m, 'attr', q)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'list', 'abs', 'float', 'round', 'any', 'all'):
                if n.func.id in ('min', 'max', 'any', 'all'):
                    m = copy.deepcopy(n)
                    m.func.id = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[n.func.id]
                    yield rep(n, m, 'call', q)
                elif len(n.args) == 1:
                    yield rep(n, n.args[0], 'call', q)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'fixed', 'round', 'length') :
                yield rep(n, n.func.value, 'uncopy', q)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('rotate', 'rotate_ccw', 'compose', 'compose_outer', 'push', 'pop'):
                m = copy.deepcopy(n)
                m.func.attr = {'rotate': 'rotate_ccw', 'rotate_ccw': 'rotate', 'compose': 'compose_outer', 'compose_outer': 'compose', 'push': 'copy', 'pop': 'copy'}[n.func.attr]
                yield rep(n, m, 'method', q)
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                m = copy.deepcopy(n)
                m.args = m.args[::-1]
                yield rep(n, m, 'swap', q)
            if n.keywords and len(n.keywords) + len(n.args) > 1:
                m = copy.deepcopy(n)
                m.keywords = m.keywords[:-1]
                yield rep(n, m, 'dropkw', q)
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                return
            yield rep(n, 'pass', 'delete', q)
        elif isinstance(n, ast.If):
            yield rep(n.test, 'True', 'if', q)
            yield rep(n.test, 'False', 'if', q)
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.IfExp):
            yield rep(n.value, n.value.body, 'ifexp', q)
            yield rep(n.value, n.value.orelse, 'ifexp', q)
        elif isinstance(n, ast.Slice):
            pass
    seen = set()
    for e in visit(tree, [], False):
        k = (e['a'], e['b'], e['new'])
        if k in seen or e['new'] == e['old']:
            continue
        seen.add(k)
        yield e


def apply(root, m):
    f = root + '/x7/geom/' + m['file']
    raw = open(f, 'rb').read()
    assert raw[m['a']:m['b']].decode() == m['old']
    open(f, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
    return f


def gen(out):
    res = []
    for f in FILES:
        src = open('/repo/x7/geom/%s.py' % f).read()
        for e in edits(ast.parse(src), src):
            only = os.environ.get('MUT_ONLY')
            if any(s in e['func'] for s in only.split()) != bool(only) if only else any(s in e['func'] for s in SKIP):
                continue
            e['file'] = f + '.py'
            try:
                raw = src.encode()
                compile(raw[:e['a']] + e['new'].encode() + raw[e['b']:], 'x', 'exec')
            except SyntaxError:
                continue
            res.append(e)
    json.dump(res, open(out, 'w'), indent=0)
    print(len(res))


local = threading.local()
lock = threading.Lock()
count = [0]


def copy_of():
    if not hasattr(local, 'w'):
        with lock:
            count[0] += 1
            local.k = count[0]
        local.w = '/tmp/mut_%d_%d' % (os.getpid(), local.k)
        shutil.rmtree(local.w, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', local.w])
    return local.w


def tests(inp, out):
    ms = json.load(open(inp))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    test = open('/opt/vp/test.sh').read()
    random.Random(1).shuffle(ms)
    kept = []

    def one(m):
        w = copy_of()
        sh = w + '.sh'
        open(sh, 'w').write(test.replace('cd /repo', 'cd ' + w))
        f = apply(w, m)
        try:
            r = subprocess.run(['timeout', '60', 'bash', sh, w + '.json'], capture_output=True, text=True)
            ok = r.returncode != 124 and not (stable - set(json.load(open(w + '.json'))['passed']))
        except Exception:
            ok = False
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=w)
        if os.path.exists(w + '.json'):
            os.remove(w + '.json')
        return m, ok
    with ThreadPoolExecutor(8) as ex:
        for i, (m, ok) in enumerate(ex.map(one, ms)):
            if ok:
                kept.append(m)
            if i % 50 == 0:
                print(i, len(kept), flush=True)
                json.dump(kept, open(out, 'w'), indent=0)
    json.dump(kept, open(out, 'w'), indent=0)
    subprocess.run('rm -rf /tmp/mut_%d_*' % os.getpid(), shell=True)


def checks(inp, out, n):
    import re
    funcs = {}
    for f in sorted(os.listdir(HERE + '/specs')):
        if f.endswith('.py'):
            for mm in re.finditer(r"@lemma\('(C\d\d)',\s*((?:'[^']*'\s*)+)", open(HERE + '/specs/' + f).read()):
                for fn in re.findall(r"[\w.]+", mm.group(2).replace("'", ' ')):
                    funcs.setdefault(fn, []).append(mm.group(1))
    anchors = {}
    for l in open(HERE + '/properties.jsonl'):
        p = json.loads(l)
        if False:
            continue
        for f in p['anchors']['files']:
            anchors.setdefault(os.path.basename(f), []).append(p['id'])
    ms = json.load(open(inp))
    done = json.load(open(out)) if os.path.exists(out) else []
    have = {(m['file'], m['a'], m['b'], m['new']) for m in done}
    ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in have][:n]

    def one(m):
        w = copy_of()
        apply(w, m)
        props = list(dict.fromkeys(funcs.get(m['func'], []) + funcs.get(m['func'].split('.')[-1], [])))
        m['direct'] = list(props)
        props += [p for p in anchors.get(m['file'], []) if p not in props]
        m['by'], m['odd'] = None, []
        for p in props:
            r = subprocess.run(['timeout', '300', 'bash', HERE + '/check', p], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, PYVC_REPO=w, PYVC_EVIDENCE=w + '_ev'))
            if r.returncode == 1:
                vs = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                m['by'] = p
                m['replayed'] = any('no-failing' not in l for l in vs)
                break
            if r.returncode:
                m['odd'].append((p, r.returncode, (r.stdout + r.stderr)[-300:]))
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=w)
        return m
    with ThreadPoolExecutor(3) as ex:
        for m in ex.map(one, ms):
            done.append(m)
            print('%-18s %-34s %4d %-40s -> %-40s %s%s' % (m['file'], m['func'], m['line'], m['old'].replace('\n', ' ')[:40], m['new'][:40],
                  m['by'] or '<--- MISSED', '' if not m['by'] or m['replayed'] else ' (no input)') + (' ODD %s' % m['odd'] if m['odd'] else ''), flush=True)
            json.dump(done, open(out, 'w'), indent=0)
    subprocess.run('rm -rf /tmp/mut_%d_*' % os.getpid(), shell=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'gen':
        gen(a[1])
    elif a[0] == 'tests':
        tests(a[1], a[2])
    else:
        checks(a[1], a[2], int(a[3]) if len(a) > 3 else 10 ** 9)
