#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo on which the checks have to stay quiet.  usage: refactors.py [id...]
Each is tried in a scratch copy: the tests must pass, and the checks of the listed properties must exit 0."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFS = []


def ref(id, props, file, *edits):
    REFS.append((id, props.split(), file, edits))


for f in sorted(os.listdir(HERE + '/tools/refactors')):
    exec(open(HERE + '/tools/refactors/' + f).read())
only = sys.argv[1:]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def one(r):
    id, props, file, edits = r
    w = '/tmp/ref_' + id
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w])
    p = w + '/x7/geom/' + file
    s = open(p).read()
    for old, new in edits:
        if s.count(old) != 1:
            return id, 'PATTERN %d %r' % (s.count(old), old[:50])
        s = s.replace(old, new)
    open(p, 'w').write(s)
    sh = w + '/t.sh'
    open(sh, 'w').write(open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + w))
    subprocess.run(['bash', sh, w + '/t.json'], capture_output=True)
    lost = stable - set(json.load(open(w + '/t.json'))['passed'])
    out = ['TESTS FAIL %s' % sorted(lost)[:2]] if lost else []
    for q in props:
        p = subprocess.run(['bash', HERE + '/check', q], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, PYVC_REPO=w, PYVC_EVIDENCE=w + '_ev'))
        last = [l for l in p.stdout.split('\n') if l.startswith(q + ':')]
        und = last[-1].split(', ')[-2] if last else '?'
        out.append('%s rc=%d%s%s' % (q, p.returncode, '' if und.startswith('0 ') else ' ' + und, '   <---- NOISY ' + p.stdout[-600:] + p.stderr[-300:] if p.returncode else ''))
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(w + '_ev', ignore_errors=True)
    return id, '; '.join(out)


with ThreadPoolExecutor(2) as ex:
    for id, out in ex.map(one, [r for r in REFS if not only or r[0] in only]):
        print('%-28s %s' % (id, out), flush=True)
