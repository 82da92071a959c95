#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the specs present and the reasons below."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
LEVEL = ('Deductive: every path of the functions under contract is executed symbolically on the source in /repo at '
         'check time and each postcondition is discharged (normal form over the reals, z3, cvc5, sympy) for all real '
         'inputs. Trusted: the verifier in /verif/pyvc, its contracts for math/numpy/builtins, floats as reals. '
         'Evidence lists functions, obligations, back ends, and bounded items (fixed small list lengths), which are '
         'labelled bounded and not counted as proved.')
NOTE = {
    'C35': ('other', 'Contracts discharged by symbolic execution for all shapes of the segments, but for a bounded number of segments (1 to '
            '5) and crossings (0 to 3, every layout): labelled bounded, not counted as proved; reporting of crossings is proved for any '
            'number. Assumes that bezier.Curve.intersect finds the crossings; seeded polygons run through the real intersector. '),
    'C36': ('proof', 'Assumes that the Pillow operations do what they document (recording stand-in); the palette is a bounded check. '),
}
TECH = ('contract-based deductive verification of the real Python source: pre/postconditions per function, symbolic '
        'execution generates the obligations, real-field normal forms + z3/cvc5 discharge them')
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
specs = ''.join(open(f).read() for f in glob.glob(HERE + '/specs/*_spec.py'))
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[], notes='bash check Cxx --tier quick|thorough; see DESIGN.md')
for p in props:
    i = p['id']
    if "'%s'" % i in specs and i not in NA:
        m['checks'].append(dict(property=i, quick_cmd='bash check %s --tier quick' % i,
                                thorough_cmd='bash check %s --tier thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=TECH, level=NOTE.get(i, ('proof',))[0],
                                level_note=NOTE.get(i, ('', ''))[1] + LEVEL))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'contracts not written yet')))
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks;', [x['property'] for x in m['not_applicable']])
