#!/usr/bin/env python3
"""Author planted bugs: confirm each in a scratch copy (tests pass, demo fails only with it) and keep it in seeded/.
usage: seed.py SPECFILE [id ...]   SPECFILE defines bug(id, property, file, old, new, needs, breaks, demo)"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
BUGS = []


def bug(id, prop, file, old, new, needs, breaks, demo, more=()):
    BUGS.append((id, prop, [(file, old, new)] + list(more), needs, breaks, demo))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import types
_pv = types.ModuleType('x7.geom.plot_viewer')
_pv.PlotViewer = object
sys.modules['x7.geom.plot_viewer'] = _pv
'''
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
shutil.rmtree(W, ignore_errors=True)
shutil.copytree('/repo', W, symlinks=True)
test = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + W)
open('/tmp/seedtest.sh', 'w').write(test)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for id, prop, edits, needs, breaks, demo in BUGS:
    if only and id not in only:
        continue
    d = HERE + '/seeded/' + id
    if os.path.exists(d + '/patch.diff') and not only:
        continue
    sh('git checkout -q -- .', cwd=W)
    os.makedirs('/tmp/seeddemo', exist_ok=True)
    open('/tmp/seeddemo/demo.py', 'w').write(PRE + demo.strip() + '\n')
    open('/tmp/seeddemo/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    clean = sh('bash /tmp/seeddemo/demo.sh', cwd=W)
    if clean.returncode:
        print(id, 'DEMO FAILS ON CLEAN', clean.stdout[-600:])
        continue
    bad = False
    for file, old, new in edits:
        p = W + '/x7/geom/' + file
        s = open(p).read()
        if s.count(old) != 1:
            print(id, 'PATTERN', s.count(old), old[:60])
            bad = True
            break
        open(p, 'w').write(s.replace(old, new))
    if bad:
        continue
    r = sh('bash /tmp/seeddemo/demo.sh', cwd=W)
    if r.returncode == 0:
        print(id, 'DEMO PASSES WITH THE BUG')
        continue
    sh('bash /tmp/seedtest.sh /tmp/seedout.json', cwd=W)
    lost = stable - set(json.load(open('/tmp/seedout.json'))['passed'])
    if lost:
        print(id, 'TESTS CATCH IT', sorted(lost)[:3])
        continue
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
    for f in ('demo.py', 'demo.sh'):
        shutil.copy('/tmp/seeddemo/' + f, d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print(id, 'ok:', r.stdout.strip().split('\n')[-1][:100])
shutil.rmtree(W, ignore_errors=True)
