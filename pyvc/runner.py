"""Decides one property: symbolic proof of every harness, replay, bounded stand-in, evidence."""
import argparse
import glob
import hashlib
import importlib.util
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.environ.get('PYVC_EVIDENCE', HERE + '/evidence')


def load_specs(prop=None):
    from . import spec
    if HERE + '/specs' not in sys.path:
        sys.path.insert(0, HERE + '/specs')
    for path in sorted(glob.glob(HERE + '/specs/*_spec.py')):
        name = os.path.basename(path)[:-3]
        if prop and "'%s'" % prop not in open(path).read():
            continue
        if name not in sys.modules:
            importlib.import_module(name)
    return spec.REG


def jsonable(x):
    if isinstance(x, Fraction):
        return '%d/%d' % (x.numerator, x.denominator) if x.denominator != 1 else x.numerator
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str)) or x is None:
        return x
    return str(x)


def functions_hit(h, mods, seed):
    """Functions of /repo executed by one concrete run of the harness (measured)"""
    from . import engine, loader
    hit = set()
    root = os.path.realpath(loader.REPO) + os.sep

    def prof(frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(root):
                hit.add(os.path.basename(f)[:-3] + '.' + frame.f_code.co_qualname)
    for i in range(25):
        sys.setprofile(prof)
        try:
            engine.run_concrete(h.fn, mods, random.Random('%s/%s/%s' % (seed, h.name, i)))
        finally:
            sys.setprofile(None)
    return sorted(n for n in hit if '<' not in n.split('.')[-1])


def try_replays(h, mods, obl, seed, n=40):
    """Concrete failures at (or near) the counter-model of an obligation"""
    from . import engine
    base = {k: v for k, v in (obl.inputs or {}).items() if v is not None}
    base.update(obl.model or {})
    r = engine.run_concrete(h.fn, mods, random.Random(1), base)
    if r[0] == 'fail':
        return r
    # the real code satisfies the contract at the counter-model (within float tolerance): rounding, not a violation
    obl.holds_at_model = r[0] == 'ok'
    rng = random.Random('%s/%s/replay' % (seed, h.name))
    names = [k for k in base if isinstance(base[k], Fraction)]
    for i in range(n):
        vals = dict(base)
        for k in names:
            c = rng.random()
            if c < 0.25:
                vals.pop(k)
            elif c < 0.4:
                vals[k] = Fraction(round(float(vals[k])))
            elif c < 0.5:
                vals[k] = Fraction(round(float(vals[k]) * 8), 8)
        r = engine.run_concrete(h.fn, mods, rng, vals)
        if r[0] == 'fail':
            return r
    return None


def fuzz(h, mods, seed, n, secs):
    from . import engine
    ok = skip = 0
    checks = 0
    distinct = set()
    sample = None
    t0 = time.time()
    for i in range(n):
        rng = random.Random('%s/%s/%s/%d' % (seed, h.prop, h.name, i))
        r = engine.run_concrete(h.fn, mods, rng)
        if r[0] == 'fail':
            return dict(fail=r, runs=ok, skipped=skip, checks=checks, distinct=len(distinct), sample=sample)
        if r[0] == 'ok':
            ok += 1
            checks += r[1]
            distinct.add(repr(sorted(r[2].items())))
            sample = sample or jsonable(r[2])
        else:
            skip += 1
        if time.time() - t0 > secs:
            break
    return dict(fail=None, runs=ok, skipped=skip, checks=checks, distinct=len(distinct), sample=sample)


def quiet():
    """the code under test prints; its output is not the check's"""
    sys.stdout.flush()
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.close(fd)


def work(h, tier, seed, conn):
    try:
        quiet()
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(3000)
        conn.send(do_work(h, tier, seed))
    except BaseException as e:
        conn.send(dict(name=h.name, crash='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())))
    conn.close()


def do_work(h, tier, seed, sym_on=True):
    from . import engine, loader, solve
    t0 = time.time()
    plain = loader.plain()
    thorough = tier == 'thorough'
    out = dict(name=h.name, funcs=h.funcs, bound=h.bound, obls=[], undecided=[], violation=None, unsupported=[],
               assumptions=[], paths=0, sym=None)
    if sym_on and h.sym:
        try:
            mods = loader.instrumented()
        except Exception as e:
            out['unsupported'].append('instrumented load failed: %s: %s' % (type(e).__name__, e))
            mods = None
        if mods is not None:
            ex = engine.Explorer(h.fn, mods, budget_s=h.budget * (4 if thorough else 1),
                                 prove_ms=6000 if thorough else 2500, max_paths=40000 if thorough else 6000)
            solve.STATS.time = 0
            solve.STATS.calls = 0
            ex.run()
            out['solver_s'] = solve.STATS.time
            out['solver_calls'] = solve.STATS.calls
            out['paths'] = ex.paths
            out['infeasible'] = ex.infeasible
            out['incomplete'] = ex.incomplete
            out['unsupported'] += ex.unsupported[:8]
            out['assumptions'] = sorted(ex.assumptions)
            agg = {}
            refuted = []
            for o in ex.obls:
                if o.status == 'proved':
                    k = (o.label, o.backend)
                    agg[k] = agg.get(k, 0) + 1
                else:
                    refuted.append(o)
            out['obls'] = [(l, b, n) for (l, b), n in agg.items()]
            seen = {}
            for o in refuted:
                # a failing path may come from the model of a feasible but unsupported path: replay decides
                if seen.get(o.label, 0) >= 3:
                    continue
                seen[o.label] = seen.get(o.label, 0) + 1
                r = try_replays(h, plain, o, seed, 40 if o.status != 'unknown' else 60)
                if r:
                    out['violation'] = dict(kind='replayed', label=r[1], detail=r[2], inputs=jsonable(r[3]),
                                            obligation=o.label, solver=o.reason or o.backend)
                    break
            for o in refuted:
                out['undecided'].append(dict(label=o.label, status=o.status, definite=o.definite and not o.holds_at_model, reason=o.reason[:300],
                                             model=jsonable(o.model or {}), inputs=jsonable(o.inputs or {})))
    out['sym_s'] = time.time() - t0
    if out['violation'] is None:
        weak = bool(out['undecided'] or out['unsupported'] or out.get('incomplete') or h.bound or not h.sym)
        n = h.fuzz * (4 if weak else 1) * (10 if thorough else 1)
        f = fuzz(h, plain, seed, n, (60 if thorough else 8) if weak else (20 if thorough else 3))
        if f['fail']:
            r = f['fail']
            out['violation'] = dict(kind='bounded stand-in', label=r[1], detail=r[2], inputs=jsonable(r[3]),
                                    obligation=r[1], solver='')
        f.pop('fail')
        out['fuzz'] = f
    out['hit'] = functions_hit(h, plain, seed)
    out['wall'] = time.time() - t0
    return out


def run_all(hs, tier, seed, limit):
    """each harness in its own forked process, 8 at a time"""
    ctx = mp.get_context('fork')
    todo = list(hs)
    live = {}
    res = {}
    jobs = int(os.environ.get('PYVC_JOBS', '8'))
    while todo or live:
        while todo and len(live) < jobs:
            h = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(h, tier, seed, b))
            p.start()
            b.close()
            live[h.name] = (h, p, a, time.time())
        from multiprocessing.connection import wait
        wait([x[2] for x in live.values()], timeout=0.5)
        for nm in list(live):
            h, p, a, t = live[nm]
            done = False
            if a.poll():
                try:
                    res[nm] = a.recv()
                except EOFError:
                    res[nm] = dict(name=nm, crash='worker ended without a result')
                done = True
            elif time.time() - t > limit + 2 * h.budget * (4 if tier == 'thorough' else 1):
                p.kill()
                res[nm] = dict(name=nm, crash='wall limit')
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del live[nm]
    # a crashed / killed worker: bounded stand-in only
    for h in hs:
        r = res[h.name]
        if r.get('crash'):
            why = r['crash']
            a, b = ctx.Pipe(False)

            def only_fuzz(conn=b, h=h):
                try:
                    quiet()
                    conn.send(do_work(h, tier, seed, sym_on=False))
                except BaseException as e:
                    conn.send(dict(name=h.name, crash='%s: %s' % (type(e).__name__, e)))
            p = ctx.Process(target=only_fuzz)
            p.start()
            b.close()
            r2 = a.recv() if a.poll(120) else dict(name=h.name, crash='bounded stand-in: wall limit')
            p.kill() if p.is_alive() and r2.get('crash') else p.join(5)
            if not r2.get('crash'):
                r2['unsupported'].append('verifier worker: ' + why[:1500])
                r2['incomplete'] = 'worker failed'
                res[h.name] = r2
    return [res[h.name] for h in hs]


def known_findings():
    """lines 'finding: {json}' of KNOWN_FINDINGS.txt; 'fixed:' lines suppress nothing"""
    out = []
    try:
        for line in open(HERE + '/KNOWN_FINDINGS.txt'):
            if line.startswith('finding:'):
                out.append(json.loads(line[len('finding:'):]))
    except FileNotFoundError:
        pass
    return out


def is_known(prop, nm, viol, known):
    for k in known:
        if k['property'] == prop and k['harness'] == nm and viol['label'] == k['label'] and \
                all(viol['inputs'].get(a) == b for a, b in k.get('inputs', {}).items()):
            return k
    return None


TRUSTED = [
    'pyvc: path exploration, atom normaliser (pyvc/poly.py) and translation to SMT (pyvc/solve.py)',
    'z3, cvc5, and CPython executing the function bodies of /repo',
    'machine floats are treated as exact real numbers (rounding, overflow, nan, -0.0 not modelled)',
    'contracts of math (sqrt/hypot/sin/cos/atan2/radians/floor), exact, with the addition theorems and '
    'cos^2+sin^2=1; min/max/sum/round/int/float builtins (pyvc/shims.py)',
]


def decide(prop, tier, seed):
    from . import loader
    t0 = time.time()
    reg = load_specs(prop)
    hs = reg.get(prop, [])
    if not hs:
        print('no harness for', prop)
        return 2
    loader.plain()
    try:
        loader.instrumented()
    except Exception:
        pass
    only = os.environ.get('PYVC_ONLY')
    if only:
        hs = [h for h in hs if only in h.name]
    import gc
    gc.freeze()
    results = run_all(hs, tier, seed, 40 if tier == 'quick' else 300)
    obligations = discharged = bounded = bounded_ok = 0
    backends = {}
    bounded_items, undecided, assumptions, viols = [], [], set(), []
    runs = distinct = checks = 0
    solver_s = 0.0
    samples = []
    labels = []
    hit = set()
    contract = set()
    known = known_findings()
    for h, r in zip(hs, results):
        contract |= set(h.funcs)
        if r.get('crash'):
            undecided.append('%s: %s' % (h.name, r['crash'][:600]))
            continue
        n_ok = sum(n for _, _, n in r['obls'])
        n_all = n_ok + len(r['undecided'])
        for l, b, n in r['obls']:
            backends[b] = backends.get(b, 0) + n
        full = not (r['unsupported'] or r.get('incomplete') or r['undecided'])
        if h.bound or not h.sym:
            bounded += n_all
            bounded_ok += n_ok
            bounded_items.append('%s: bounded (%s); %d obligations discharged within the bound%s' % (
                h.name, h.bound or 'concrete runs', n_ok, '' if full else ', not exhaustively'))
        else:
            obligations += n_all
            discharged += n_ok
            if r['unsupported'] or r.get('incomplete'):
                obligations += 1
                undecided.append('%s: %s %s' % (h.name, r.get('incomplete') or '', '; '.join(r['unsupported'][:3])))
        for u in r['undecided']:
            undecided.append('%s/%s: %s %s' % (h.name, u['label'], u['status'], u['reason']))
        if not full and not h.bound and h.sym:
            bounded_items.append('%s: undecided obligations above rest on %d concrete runs' % (
                h.name, r.get('fuzz', {}).get('runs', 0)))
        if not n_all and not r['unsupported'] and h.sym and not r['violation'] and not r.get('incomplete'):
            undecided.append('%s: no obligation generated (vacuous)' % h.name)
        labels.append('%s: %s' % (h.name, ', '.join(sorted({l for l, _, _ in r['obls']}))[:400]))
        assumptions |= set(r['assumptions'])
        solver_s += r.get('solver_s', 0)
        f = r.get('fuzz')
        if f:
            runs += f['runs']
            distinct += f['distinct']
            checks += f['checks']
            if f['sample'] and len(samples) < 4:
                samples.append({h.name: f['sample']})
        hit |= set(r.get('hit', ()))
        v = r['violation']
        if v:
            k = is_known(prop, h.name, v, known)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            else:
                viols.append((h, v))
        else:
            for u in r['undecided']:
                if u['status'] == 'refuted' and u['definite']:
                    viols.append((h, dict(kind='unreplayed', label=u['label'], detail='refuted by the solver',
                                          inputs=u['inputs'], model=u['model'], obligation=u['label'],
                                          solver=u['reason'])))
                    break
    os.makedirs(EV + '/replay', exist_ok=True)
    lines = []
    for h, v in sorted(viols, key=lambda x: x[1]['kind'] == 'unreplayed'):
        body = dict(property=prop, harness=h.name, **v)
        body['how'] = 'bash %s/replay <this file>  runs the harness with these inputs on the plain modules' % HERE
        tag = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = '%s/replay/%s-%s-%s.json' % (EV, prop, h.name, tag)
        with open(path, 'w') as fp:
            json.dump(body, fp, indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s%s' % (
            prop, path, ' no-failing-input-found' if v['kind'] == 'unreplayed' else ''))
        print('# %s / %s: %s' % (h.name, v['label'], str(v['detail'])[:300]))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='bash /verif/check %s --tier %s' % (prop, tier),
        trusted_base=TRUSTED,
        discharged_by=backends, solver_s=round(solver_s, 3), paths=sum(r.get('paths', 0) for r in results),
        functions_under_contract=sorted(contract), functions_executed_under_the_contracts=sorted(hit),
        bounded_obligations=bounded, bounded_discharged=bounded_ok, bounded_items=bounded_items,
        undecided=undecided[:40], lemmas=labels,
        concrete_crosscheck_runs=runs, concrete_crosscheck_distinct=distinct, concrete_checks=checks,
        evaluations=runs, distinct_nontrivial=distinct,
        rule='seeded concrete executions of the same contracts on the uninstrumented modules; non-trivial: the '
             'preconditions hold and at least one postcondition was evaluated; distinct by input values',
        samples=samples,
        exhaustive=False),
        assumptions=sorted(assumptions) + TRUSTED[2:],
        wall_s=round(time.time() - t0, 3), violations=len(lines))
    with open('%s/%s.json' % (EV, prop), 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d/%d bounded, %d concrete runs, %d undecided, %.1f s' % (
        prop, discharged, obligations, bounded_ok, bounded, runs, len(undecided), time.time() - t0))
    if os.environ.get('PYVC_VERBOSE'):
        agg = {}
        for u in undecided:
            agg[u] = agg.get(u, 0) + 1
        for u, n in list(agg.items())[:25]:
            print('   undecided x%d %s' % (n, u))
        for h, r in zip(hs, results):
            print('   %-34s paths %4d inf %3d obls %4d sym %.1fs wall %.1fs fuzz %s' % (
                h.name, r.get('paths', 0), r.get('infeasible', 0) or 0, sum(n for _, _, n in r.get('obls', ())), r.get('sym_s', 0),
                r.get('wall', 0), {k: v for k, v in (r.get('fuzz') or {}).items() if k in ('runs', 'skipped')}))
    if lines:
        for l in lines:
            print(l)
        return 1
    if any('vacuous' in u for u in undecided) or (obligations + bounded == 0 and any(h.sym for h in hs) and not undecided):
        print('vacuous harness')
        return 2
    return 0


def replay(path):
    from . import engine, loader
    body = json.load(open(path))
    reg = load_specs(body['property'])
    h = [x for x in reg[body['property']] if x.name == body['harness']][0]
    vals = dict(body.get('inputs') or {})
    vals.update(body.get('model') or {})
    vals = {k: (Fraction(v) if isinstance(v, str) else v) for k, v in vals.items() if v is not None}
    r = engine.run_concrete(h.fn, loader.plain(), random.Random(1), vals)
    print(body['harness'], r)
    return 1 if r[0] == 'fail' else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    if a.replay:
        sys.exit(replay(a.prop))
    rc = decide(a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick', seed)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
