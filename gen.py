#!/opt/venv/bin/python
"""write properties.jsonl and MANIFEST.json from the META dictionaries of props/*.py"""
import json
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import runner
from props import not_applicable as NA
d = os.path.join(runner.VERIF, 'props')
props, checks = [], []
for f in sorted(os.listdir(d)):
    m = re.match(r'(P\d+)_.*\.py$', f)
    if not m:
        continue
    mod = runner.load_prop(m.group(1))
    meta = dict(mod.META)
    meta = dict(id=m.group(1), **meta)
    n = len(re.findall(r'[.!?](?:\s|$)', meta['statement']))
    assert len(meta['title']) <= 80, (f, len(meta['title']))
    assert n <= 3, (f, n)
    props.append(meta)
    checks.append(dict(
        property=m.group(1),
        quick_cmd='/opt/venv/bin/python /verif/run.py %s --tier quick' % m.group(1),
        thorough_cmd='/opt/venv/bin/python /verif/run.py %s --tier thorough' % m.group(1),
        technique='symbolic execution of the real Python source over z3 reals with NaN/inf flags; '
                  'every condition is decided by the SMT solver (or its polynomial normaliser) for '
                  'all values within the stated sizes; counterexamples are replayed on the '
                  'unpatched code',
        level='model_checking',
        level_note='bounded: exhaustive over all input values within the stated bounds at the '
                   'listed sizes/settings; reals instead of floats; library primitives modelled; '
                   + getattr(mod, 'OUTSIDE', '')))
for p in NA.PROPS:
    props.append(p['meta'])
man = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import z3" 2>/dev/null || '
           'test -d /opt/veriftools/pyvenv/lib/python3.12/site-packages/z3',
           checks=checks,
           not_applicable=[dict(property=p['meta']['id'], reason=p['reason']) for p in NA.PROPS])
with open(os.path.join(runner.VERIF, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(runner.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
import subprocess
code = '''
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print('schemas ok')
'''
subprocess.run(['/opt/veriftools/pyvenv/bin/python', '-c', code])
print(len(props), 'properties,', len(checks), 'checks')
