"""fixed.py PROPERTY COMMIT TEXT: record a repair in known_findings.json"""
import json, subprocess, sys
prop, commit, text = sys.argv[1:]
commit = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short=10', commit], text=True).strip()
import os; p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
d['findings'].append(dict(status='fixed', property=prop, text='fixed: property=%s %s %s' % (prop, commit, text)))
json.dump(d, open(p, 'w'), indent=1)
