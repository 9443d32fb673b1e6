"""DESIGN.md: tools/design_head.md, then per property what is specified and enumerated, from the harnesses themselves, then findings and planted changes."""
import glob, importlib, inspect, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
import props
from design_oracles import ORACLE

def line(x):
    return ' '.join(str(x).split())

out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read(), '## Properties\n']
for p in props.PROPERTIES:
    module = importlib.import_module('mc.props.' + p['id'].lower())
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('Space: %s. Oracle: %s' % (p['quantifier']['text'], ORACLE[p['id']]))
    out.append('What tests cannot reach: %s\n' % p['why_tests_cant'])
    for h in module.HARNESSES:
        quick, thorough = line(h.bounds('quick')), line(h.bounds('thorough'))
        out.append('* `%s`: %s %s' % (h.name, line(h.__doc__ or ''), ('*Bounds:* %s.' % quick if quick == thorough else '*Quick:* %s. *Thorough:* %s.' % (quick, thorough)) if quick else ''))
    out.append('')
findings = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
out.append('## Genuine defects found\n\nRecorded, not repaired (each check prints KNOWN-FINDING for them):\n')
out += ['* %s: %s' % (f['property'], f['what']) for f in findings if f['status'] == 'open']
out.append('\nRepaired (one commit in /repo each):\n')
out += ['* ' + f['text'][len('fixed: property='):] for f in findings if f['status'] == 'fixed']
out.append('\n## Planted changes\n\n| change | property | needs | caught by quick check |\n|---|---|---|---|')
for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(path))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(path)), m['property'], line(m['needs']), m.get('caught', 'yes')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n' + open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
