#!/usr/bin/env python3
"""Run the check of each planted bug's property against a patched scratch copy of /repo.  usage: seedcheck.py [id...]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(HERE + '/seeded'))


def one(i):
    d = HERE + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/sc_' + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w])
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w, capture_output=True, text=True)
    if r.returncode:
        out, rc = 'does not apply ' + r.stderr[:100], -1
    else:
        p = subprocess.run(['bash', HERE + '/check', prop], cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, PYVC_REPO=w, PYVC_EVIDENCE='/tmp/sc_ev_' + i))
        rc = p.returncode
        vs = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
        out = '%d violations%s' % (len(vs), ', replayed' if any('no-failing' not in l for l in vs) else (', no input' if vs else ''))
    shutil.rmtree(w, ignore_errors=True)
    return i, prop, rc, out


with ThreadPoolExecutor(3) as ex:
    for i, prop, rc, out in ex.map(one, ids):
        print('%-26s %s rc=%s %s %s' % (i, prop, rc, out, '' if rc == 1 else '   <--- MISSED'), flush=True)
