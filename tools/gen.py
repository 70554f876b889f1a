#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props_*.py and mc/props."""
import ast
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
props = []
for f in sorted(glob.glob(os.path.join(HERE, 'props_*.py'))):
    props += __import__(os.path.basename(f)[:-3]).PROPS
mods = {}
for f in sorted(glob.glob(os.path.join(ROOT, 'mc/props/p*.py'))):
    consts = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    mods[consts['PID']] = consts
TECH = {
    'model_checking': 'explicit-state model checking of a reference model; every model trace replayed on the real code',
    'exploration': 'bounded-exhaustive exploration of the real code against a reference model (no sampling)',
}
checks = []
na = []
for p in sorted(props, key=lambda p: p['id']):
    m = mods.get(p['id'])
    if m is None:
        na.append(dict(property=p['id'], reason=p.pop('na', 'check not built yet')))
        continue
    b = m.get('BOUNDS', {})
    ass = m.get('ASSUMPTIONS', ())
    note = 'Exhaustive within: %s (quick); %s (thorough). %s.' % (
        b.get('quick', '-'), b.get('thorough', '-'),
        'Assumes: ' + '; '.join([ass] if isinstance(ass, str) else ass) if ass else 'No further assumptions')
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                       thorough_cmd='./check.sh %s thorough' % p['id'],
                       technique=m.get('TECHNIQUE') or TECH[m['LEVEL']], level=m['LEVEL'], level_note=note))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(props, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, sort_keys=True) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='./check.sh setup', checks=checks, not_applicable=na,
                   notes='Checks import the code from /repo with the interpreter the tests use; no hooks in /repo. '
                         'Regenerate this file with tools/gen.py.'), f, indent=1)
    f.write('\n')
import subprocess
code = ("import json,jsonschema\n"
        "jsonschema.validate(json.load(open('%s/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))\n"
        "s=json.load(open('/root/.vp/PROPERTIES.schema.json'))\n"
        "[jsonschema.validate(json.loads(l), s) for l in open('%s/properties.jsonl')]\nprint('valid')" % (ROOT, ROOT))
subprocess.call(['python3-vt', '-c', code])
