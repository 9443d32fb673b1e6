"""Catalogue driver (real code) and reference model, shared by the catalogue properties.

A system is described by plain data:
  start    'YYYYMMDD' day of step 0
  data     {dataset: [[patterns, files], ...]}         one [patterns, files present] pair per subset
  ops      list of dicts: name, step, inputs, out, style
             step    ['daily', first, n] | ['once'] | ['epoch'...]
             inputs  {parameter: [dataset, subset, 'file'|'list', policy]}
             extras  list of 'steptime'|'stepindex'|'timestamp'|'catalogue'
             out     None | [dataset, subset, patterns, number of subsets]
             style   'function' | 'class'
"""
import datetime
import os
import re

from mc.core import require, Violation
from mc.env import quiet, touch

from eumopps.catalogue import build as build_module
from eumopps.catalogue.catalogue import Catalogue
from eumopps.catalogue.dataset import CatalogueDataSet, CatalogueDataSubset
from eumopps.catalogue.storage import DataStorageFiles
from eumopps.catalogue.operation import Operation
from eumopps.catalogue.operationparameters import OperationTimeStamp, OperationCatalogueID
from eumopps.catalogue.placeholder import InputFile, InputFileList, OutputFile, StepTime, StepIndex
from eumopps.catalogue.step import StepDaily, StepOnce
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF
from eumopps.catalogue.commandrun import commandrun
from eumopps.version import svn

from mc import runmodules


def setup():
    svn.set_allow_unversioned_code(True)
    if hasattr(svn, 'get_revision_string'):
        svn.get_revision_string = lambda *args, **kwargs: '7'   # the only use of a subprocess here


def day(text, offset=0):
    return datetime.datetime.strptime(text, '%Y%m%d') + datetime.timedelta(days=offset)


def name_at(patterns, t):
    return os.path.join(*[p.replace('%Y', '%04d' % t.year).replace('%m', '%02d' % t.month).replace('%d', '%02d' % t.day)
                          .replace('%H', '%02d' % t.hour) for p in patterns])


# -- real code ---------------------------------------------------------------------------------------------------------

def make_files(root, system):
    for dataset, subsets in system['data'].items():
        folder = os.path.join(root, dataset)
        if not os.path.isdir(folder):
            os.makedirs(folder)
        for patterns, files in subsets:
            for name in files:
                touch(os.path.join(folder, name))


def make_step(system, step):
    if step[0] == 'once':
        return StepOnce()
    return StepDaily(day(system['start'], step[1]).strftime('%Y%m%d000000'), day(system['start'], step[1] + step[2] - 1).strftime('%Y%m%d000000'))


def make_operation(root, system, op):
    parameters = {}
    for parameter, (dataset, subset, kind, policy) in op['inputs'].items():
        cls = InputFile if kind == 'file' else InputFileList
        parameters[parameter] = cls(dataset, subset, policy)
    for extra in op.get('extras', []):
        parameters[extra] = dict(steptime=StepTime, stepindex=StepIndex, timestamp=OperationTimeStamp, catalogue=OperationCatalogueID)[extra]()
    newdatasets = None
    if op.get('out'):
        dataset, subset, patterns, count = op['out']
        parameters['out'] = OutputFile(dataset, subset)
        newdatasets = [CatalogueDataSet(name=dataset, path=os.path.join(root, dataset), subsets=[
            CatalogueDataSubset(layout=DataStorageFiles(patterns=patterns if i == subset else ['unused%d_%%Y%%m%%d' % i])) for i in range(count)])]
    if op.get('style') == 'class':
        runmodule = runmodules.RecordClass(**parameters)
    elif op.get('style') == 'nested':
        runmodule = dict(python_function='mc.runmodules.record', nested=dict(items=[parameters], label='x'))
    else:
        runmodule = dict(parameters, python_function=op.get('function', 'mc.runmodules.record'))
    return Operation(runmodule=runmodule, step=make_step(system, op['step']), name=op['name'], newdatasets=newdatasets)


def make_datasets(root, system):
    return [CatalogueDataSet(name=dataset, path=os.path.join(root, dataset), subsets=[
        CatalogueDataSubset(layout=DataStorageFiles(patterns=list(patterns))) for patterns, files in subsets])
        for dataset, subsets in system['data'].items()]


def definition(root, system):
    return Catalogue(datasets=make_datasets(root, system), operations=[make_operation(root, system, op) for op in system['ops']])


def build(root, system, path, catalogue=None, nochecksum=True, **options):
    with quiet():
        build_module.build(catalogue or definition(root, system), path, nochecksum=nochecksum, **options)


def run_operation(path, op, index, **options):
    """Returns the parameters the operation was really called with."""
    del runmodules.LOG[:]
    with quiet():
        commandrun('STAMP', path, op['name'], index, **options)
    return list(runmodules.LOG)


def unwrap(op, logged):
    kind, parameters = logged
    if op.get('style') == 'nested':
        require(set(parameters) == {'nested'} and parameters['nested'].get('label') == 'x', lambda: 'nested parameters came back as %r' % (parameters,))
        return parameters['nested']['items'][0]
    if op.get('style') == 'class':
        return {k: v for k, v in parameters.items() if v is not None or k in op['inputs']}
    return parameters


# -- reference model ---------------------------------------------------------------------------------------------------

class Refused(Exception):
    pass


def model_steps(system, step):
    if step[0] == 'once':
        return [None]
    return [day(system['start'], step[1] + i) for i in range(step[2])]


FIELDS = {'Y': r'\d{4}', 'm': r'\d\d', 'd': r'\d\d', 'H': r'\d\d'}


def file_day(patterns, name):
    """Day spelled by a name that follows the patterns."""
    expression, seen = '', set()
    for part in re.split(r'(%[YmdH])', os.path.join(*patterns)):
        key = part[1:] if part.startswith('%') else None
        if key is None:
            expression += re.escape(part)
        elif key in seen:
            expression += '(?P=%s)' % key
        else:
            seen.add(key)
            expression += '(?P<%s>%s)' % (key, FIELDS[key])
    found = re.match(expression, name).groupdict()
    return datetime.datetime(*[int(found[k]) for k in 'Ymd'])


def model_select(patterns, entries, t):
    """Names of the entries a step at day t (None: the only step) calls for."""
    if t is None:
        return sorted(entries)
    text = ''.join(patterns)
    if '%Y' in text and '%m' in text and '%d' in text:
        return sorted(name for name in entries if file_day(patterns, name) == t)
    wanted = name_at(patterns, t)
    return [wanted] if wanted in entries else []


def model(root, system):
    """Per operation: list of expected parameters, per output data set: list of (name, time). Raises Refused."""
    entries = {}
    for dataset, subsets in system['data'].items():
        for index, (patterns, files) in enumerate(subsets):
            entries[dataset, index] = (patterns, list(files))
    runs, outputs = [], {}
    for op in system['ops']:
        steps = model_steps(system, op['step'])
        skip = [False] * len(steps)
        values = [dict() for s in steps]
        for parameter, (dataset, subset, kind, policy) in op['inputs'].items():
            if (dataset, subset) not in entries:
                raise Refused()
            patterns, names = entries[dataset, subset]
            for i, t in enumerate(steps):
                found = [os.path.join(root, dataset, n) for n in model_select(patterns, names, t)]
                if kind == 'file' and len(found) > 1:
                    raise Refused()
                if not found:
                    if policy == 'not_allowed':
                        raise Refused()
                    if policy == 'skip':
                        skip[i] = True
                    found = [None]
                values[i][parameter] = found[0] if kind == 'file' else found
        kept = [i for i in range(len(steps)) if not skip[i]]
        for i in kept:
            for extra in op.get('extras', []):
                values[i][extra] = dict(steptime=steps[i], stepindex=i, timestamp='STAMP', catalogue='ID')[extra]
        if op.get('out'):
            dataset, subset, patterns, count = op['out']
            made = []
            for i in kept:
                name = name_at(patterns, steps[i]) if steps[i] is not None else os.path.join(*patterns)
                if name not in [n for n, t in made]:
                    made.append((name, steps[i]))
                values[i]['out'] = os.path.join(root, dataset, name)
            for k in range(count):
                entries[dataset, k] = (patterns if k == subset else ['unused%d_%%Y%%m%%d' % k], [n for n, t in made] if k == subset else [])
            outputs[dataset, subset] = made
        runs.append([values[i] for i in kept])
    return runs, outputs


def canon(value, listed):
    if value is None or isinstance(value, datetime.datetime):
        return value
    if isinstance(value, (list, tuple)):
        items = [canon(v, listed) for v in value]
        return sorted(items, key=repr) if listed else items
    if isinstance(value, str) or isinstance(value, bytes):
        return value
    return int(value)


def compare_run(system, op, index, got, want):
    require(len(got) == 1, lambda: 'operation %s index %d ran %d times' % (op['name'], index, len(got)))
    parameters = unwrap(op, got[0])
    require(set(parameters) == set(want), lambda: 'operation %s index %d got parameters %s, expected %s' % (op['name'], index, sorted(parameters), sorted(want)))
    for key in want:
        listed = key in op['inputs'] and op['inputs'][key][2] == 'list'
        value = canon(parameters[key], listed)
        expected = canon(want[key], listed)
        if key == 'catalogue':
            require(isinstance(value, str) and len(value) > 8, lambda: 'catalogue identifier %r' % (value,))
            continue
        require(value == expected, lambda: 'operation %s index %d parameter %s: got %r, expected %r' % (op['name'], index, key, value, expected))


def build_parts(root, system, path, split, **options):
    """The operations before the split in one build, the others added by updates of one operation each."""
    build(root, dict(system, ops=system['ops'][:split]), path, **options)
    for op in system['ops'][split:]:
        build(root, system, path, Catalogue(datasets=[], operations=[make_operation(root, system, op)]), update=True, **options)


def check_system(root, system, rec, sweep_out_of_range=True):
    """Build the catalogue with the real code and run every operation of it; compare everything with the model."""
    make_files(root, system)
    path = os.path.join(root, 'catalogue.nc')
    try:
        expected, outputs = model(root, system)
    except Refused:
        expected = None
    rec.step()
    try:
        if 'split' in system:
            build_parts(root, system, path, system['split'])
        else:
            build(root, system, path)
        built = True
    except Exception as error:
        built = False
        failure = error
    if expected is None:
        require(not built, 'a catalogue was built although required input is missing or ambiguous')
        require('split' in system or not os.path.exists(path), 'a refused build left a catalogue behind')
        rec.outcome('refused')
        return
    if not built:
        raise Violation('build failed although every input policy is satisfied: %r' % (failure,))
    reader = CatalogueReaderNetCDF()
    for op, runs in zip(system['ops'], expected):
        with quiet():
            count = int(reader.operationcount(path, op['name']))
        require(count == len(runs), lambda: 'operation %s has count %d, expected %d' % (op['name'], count, len(runs)))
        for index, want in enumerate(runs):
            rec.step()
            compare_run(system, op, index, run_operation(path, op, index), want)
            rec.state(('run', op['name'], index, sorted((k, str(v).replace(root, '')) for k, v in want.items())))
        if sweep_out_of_range and runs:
            check_no_run(path, op, len(runs))
    if outputs:
        with quiet():
            catalogue = reader.load(path)
        for (dataset, subset), made in outputs.items():
            matches = catalogue.datasubset(dataset, subset).matches
            got = sorted((m.name, m.time) for m in matches) if not made or made[0][1] is not None else sorted((m.name, None) for m in matches)
            require(got == sorted(made), lambda: 'data set %s lists outputs %r, expected %r' % (dataset, got, sorted(made)))
    rec.outcome([len(r) for r in expected])


def check_no_run(path, op, index, **options):
    """An index that is not one of the operations: may be refused or ignored, but must not run anything."""
    del runmodules.LOG[:]
    try:
        run_operation(path, op, index, **options)
    except Exception:
        pass
    require(not runmodules.LOG, lambda: 'operation %s was run at index %d, which is out of range: %r' % (op['name'], index, runmodules.LOG))
