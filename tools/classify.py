"""Development aid: python tools/classify.py ID [tier] - groups violating executions by message."""
import sys, os, collections, json, tempfile, shutil, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, main
pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
module = main.load(pid)
only = os.environ.get('VERIF_HARNESS')
scratch = tempfile.mkdtemp(prefix='vmc-')
for h in module.HARNESSES:
    if only and h.name not in only.split(','):
        continue
    totals = core.explore([h], tier, int(os.environ.get('VERIF_JOBS', '8')), scratch)
    groups = collections.defaultdict(list)
    for t in totals:
        for case, message, key in t['bad']:
            lines = message.strip().split('\n')
            text = lines[0][:160] + (' @ ' + lines[-2].strip()[:100] if len(lines) > 2 else '')
            groups[re.sub(r"/tmp/\S+|\d+", '#', text)[:200]].append((case, message))
    print('==', h.name, totals[0]['executions'], sum(len(t['bad']) for t in totals))
    for text, items in sorted(groups.items(), key=lambda kv: -len(kv[1]))[:25]:
        case, message = min(items, key=lambda c: len(json.dumps(c[0], default=str)))
        print('%5d  %s\n       %s' % (len(items), message.split('\n')[0][:300], json.dumps(case, default=str)[:300]))
os.chdir('/'); shutil.rmtree(scratch, ignore_errors=True)
