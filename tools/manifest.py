"""Writes MANIFEST.json from tools/props.py and the property modules present; every property without one is not_applicable."""
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = 'stateless model checking of the real code: exhaustive bounded enumeration of executions against a reference model'

checks, missing = [], []
for p in props.PROPERTIES:
    path = os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py')
    if not os.path.exists(path):
        missing.append(dict(property=p['id'], reason=props.NOT_APPLICABLE.get(p['id'], 'no check built yet')))
        continue
    source = open(path).read()
    def constant(name, default):
        m = re.search(r"^%s = ('(?:[^'\\]|\\.)*'|\"[^\"]*\")" % name, source, re.M)
        return eval(m.group(1)) if m else default
    checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                       technique=constant('TECHNIQUE', TECHNIQUE), level=constant('LEVEL', 'model_checking'),
                       level_note=constant('LEVEL_NOTE', 'Exhaustive within the stated bounds: ' + p['quantifier']['text'])))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='bash check.sh --setup', checks=checks, not_applicable=missing), f, indent=1)
    f.write('\n')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.PROPERTIES:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(checks), 'checks', len(missing), 'not applicable')
