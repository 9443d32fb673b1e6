"""Command line of the explorer: python -m mc.main ID [quick|thorough] | --replay FILE"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

from mc import core


def load(property_id):
    return importlib.import_module('mc.props.' + property_id.lower())


def known_findings():
    path = os.path.join(core.HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k.get('status') == 'open']


def matches(finding, property_id, harness, case, key):
    if finding['property'] != property_id or finding['harness'] != harness.name:
        return False
    if 'case' in finding:
        return json.loads(json.dumps(case)) == finding['case']
    return key is not None and finding.get('key') == key


def write_replay(property_id, harness, case, message):
    folder = os.path.join(core.HERE, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s.json' % (property_id, harness.name))
    with open(path, 'w') as f:
        json.dump(dict(property=property_id, harness=harness.name, case=case, message=message), f, indent=1, default=str)
    return path


def size(case):
    return len(json.dumps(case, default=str))


def replay(path):
    with open(path) as f:
        record = json.load(f)
    module = load(record['property'])
    harness = [h for h in module.HARNESSES if h.name == record['harness']][0]
    scratch = tempfile.mkdtemp(prefix='vmc-')
    tempfile.tempdir = scratch
    os.chdir(scratch)
    try:
        harness.setup()
        result = core.run_case(harness, record['case'], core.Recorder())
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    if result is None:
        print('replay: property %s holds on this execution' % record['property'])
        return 0
    print(result[0])
    print('VIOLATION property=%s replay=%s' % (record['property'], path))
    return 1


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(os.path.abspath(argv[1]))
    property_id = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    only = os.environ.get('VERIF_HARNESS')
    start = time.time()
    scratch = tempfile.mkdtemp(prefix='vmc-%s-' % property_id)
    violations = 0
    try:
        try:
            module = load(property_id)
        except Exception:
            # the code under test can no longer be driven at all
            if not os.path.exists(os.path.join(core.HERE, 'mc', 'props', property_id.lower() + '.py')):
                raise
            print(traceback.format_exc())
            folder = os.path.join(core.HERE, 'replays')
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, property_id + '-import.txt')
            with open(path, 'w') as f:
                f.write(traceback.format_exc())
            print('VIOLATION property=%s replay=%s' % (property_id, path))
            return 1
        harnesses = [h for h in module.HARNESSES if not only or h.name in only.split(',')]
        totals = core.explore(harnesses, tier, jobs, scratch)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)

    findings = known_findings()
    reported = []
    states, outcomes, transitions, executions = set(), set(), 0, 0
    samples, per_harness = [], {}
    exhaustive = True
    for harness, total in zip(harnesses, totals):
        fresh = []
        for case, message, key in total['bad']:
            hit = [k for k in findings if matches(k, property_id, harness, case, key)]
            if hit:
                if hit[0] not in reported:
                    reported.append(hit[0])
                    print('KNOWN-FINDING: property=%s %s' % (property_id, hit[0]['what']))
            else:
                fresh.append((case, message))
        if fresh:
            violations += len(fresh)
            case, message = min(fresh, key=lambda cm: size(cm[0]))
            path = write_replay(property_id, harness, case, message)
            print('%s/%s: %d violating executions, shortest: %s' % (property_id, harness.name, len(fresh), json.dumps(case, default=str)[:600]))
            print(message[-600:])
            print('VIOLATION property=%s replay=%s' % (property_id, path))
        if total['executions'] == 0:
            exhaustive = False
        states |= set((harness.name, s) for s in total['states'])
        outcomes |= set((harness.name, s) for s in total['outcomes'])
        transitions += total['transitions']
        executions += total['executions']
        samples += [dict(harness=harness.name, execution=s) for s in total['samples'][:1]]
        per_harness[harness.name] = dict(executions=total['executions'], transitions=total['transitions'], states=len(total['states']),
                                         distinct_outcomes=len(total['outcomes']), bounds=harness.bounds(tier))
        print('%s/%s: executions=%d transitions=%d states=%d outcomes=%d' % (
            property_id, harness.name, total['executions'], total['transitions'], len(total['states']), len(total['outcomes'])))
    evidence = dict(property=property_id, tier=tier, seed=seed, level=getattr(module, 'LEVEL', 'model_checking'),
                    coverage=dict(states=len(states), transitions=transitions, traces_validated_against_impl=executions,
                                  distinct_outcomes=len(outcomes), exhaustive=exhaustive, samples=samples, harnesses=per_harness),
                    assumptions=list(getattr(module, 'ASSUMPTIONS', [])), wall_s=round(time.time() - start, 2), violations=violations)
    if evidence['level'] in ('exploration', 'fault_enumeration'):
        evidence['coverage'].update(evaluations=executions, distinct_nontrivial=len(outcomes), rule=getattr(module, 'RULE', ''))
    if not only:
        os.makedirs(os.path.join(core.HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(core.HERE, 'evidence', property_id + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
    print('%s: executions=%d states=%d transitions=%d outcomes=%d violations=%d wall=%.1fs' % (
        property_id, executions, len(states), transitions, len(outcomes), violations, time.time() - start))
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
