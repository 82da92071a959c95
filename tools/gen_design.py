#!/usr/bin/env python3
"""Rewrites the generated table of DESIGN.md (between the markers): the lemmas of each property, from specs/*_spec.py."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
for f in sorted(os.listdir(HERE + '/specs')):
    if not f.endswith('_spec.py'):
        continue
    s = open(HERE + '/specs/' + f).read()
    for m in re.finditer(r"@lemma\('(C\d\d)',\s*((?:'[^']*'\s*)*)(.*?)\)\ndef (\w+)\(v\):(?:\n    (?:\"\"\"(.*?)\"\"\"))?", s, re.S):
        b = re.search(r"bound='([^']*)'|bound=\"([^\"]*)\"", m[3])
        d.setdefault(m[1], []).append((f[:-8], m[4], (b[1] or b[2]) if b else None, 'sym=False' in m[3]))
out = []
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)
    ls = d.get(p['id'], [])
    if not ls:
        continue
    full = ['%s.%s' % (f, n) for f, n, b, s in ls if not b and not s]
    bnd = ['%s.%s (%s)' % (f, n, b) for f, n, b, s in ls if b and not s]
    con = ['%s.%s (%s)' % (f, n, b) for f, n, b, s in ls if s]
    out.append('* **%s %s**' % (p['id'], p['title']))
    if full:
        out.append('  proved, all inputs: ' + ', '.join(full))
    if bnd:
        out.append('  proved within a bound on sizes only: ' + ', '.join(bnd))
    if con:
        out.append('  bounded stand-ins (concrete runs): ' + ', '.join(con))
p = HERE + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- lemmas: generated by tools/gen_design.py -->', '<!-- end of lemmas -->'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '\n' + '\n'.join(out) + '\n' + s[j:]
bugs = {}
for k in sorted(os.listdir(HERE + '/seeded')):
    bugs.setdefault(json.load(open('%s/seeded/%s/meta.json' % (HERE, k)))['property'], []).append(k)
a, b = '<!-- planted: generated by tools/gen_design.py -->', '<!-- end of planted -->'
i, j = s.index(a) + len(a), s.index(b)
rows = ['| check | planted bugs it catches |', '|---|---|'] + [
    '| %s | %s |' % (c, ', '.join(x for x in bugs[c] if x != 'c02-huge')) for c in sorted(bugs)]
open(p, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])
