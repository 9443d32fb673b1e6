"""C03: batched execution runs every operation exactly once and in order."""
import io
import os
import re
import shlex

from mc import cat, runmodules
from mc.core import Harness, require
from mc.env import scratch, quiet
from mc.props.c01 import DAILY, START, names

from eumopps.catalogue import commandrun as commandrun_module
from eumopps.catalogue import commandcount
from eumopps.catalogue.multiplecommandsrun import multiple_commands_run
from eumopps.catalogue.jinja import eumopps_cylc as cylc
from eumopps.catalogue.fileio.formatnetcdf import CatalogueReaderNetCDF


def system(total, gap):
    """An operation over total+gap days of which gap days have no input and are skipped; a second operation without gaps."""
    present = [f for i, f in enumerate(names(DAILY, range(total + gap))) if i >= gap // 2 + gap % 2 and i < total + gap // 2 + gap % 2]
    return dict(start=START, data={'x': [[DAILY, present]]}, ops=[
        dict(name='first', step=['daily', 0, 3], inputs={'a': ['x', 0, 'file', 'allowed']}, out=None, function='mc.runmodules.record_b'),
        dict(name='target', step=['daily', 0, total + gap], inputs={'a': ['x', 0, 'file', 'skip']}, out=['p', 0, ['p_%Y%m%d.bin'], 1], extras=['stepindex', 'steptime']),
        dict(name='third', step=['daily', 0, 5], inputs={'a': ['x', 0, 'file', 'allowed']}, out=None)])


class Built(Harness):
    chunk = 4

    def setup(self):
        cat.setup()

    def prepare(self, root, case):
        s = system(case['n'], case['gap'])
        cat.make_files(root, s)
        path = os.path.join(root, 'catalogue.nc')
        cat.build(root, s, path)
        expected = cat.model(root, s)[0][1]
        require(len(expected) == case['n'], 'harness: expected %d operations' % case['n'])
        return s['ops'][1], path, expected

    def batchsizes(self, n):
        return range(1, n + 3)


class Batches(Built):
    """Every batch x every index of the batch, counted with every interface."""
    name = 'batches'

    def bounds(self, tier):
        return 'operation counts 1..%d, gaps 0..2, all batch sizes up to count+2, all (batch, index) pairs incl. one batch beyond and negative' % (5 if tier == 'quick' else 9)

    def cases(self, tier):
        for n in range(1, 6 if tier == 'quick' else 10):
            for gap in (0, 1, 2):
                for b in self.batchsizes(n):
                    yield dict(n=n, gap=gap, batch=b)

    def run(self, case, rec):
        n, b = case['n'], case['batch']
        with scratch() as root:
            op, path, expected = self.prepare(root, case)
            count = int(CatalogueReaderNetCDF().operationcount(path, 'target', b))
            least = -(-n // b)
            require(count == least, lambda: '%d operations in batches of %d: counted %d batches, %d are needed' % (n, b, count, least))
            stream = io.StringIO()
            with quiet():
                commandcount.main([path, 'target', '--batchsize', str(b)], stream)
            require(int(stream.getvalue()) == least, lambda: 'command line counted %r batches' % stream.getvalue())
            ran = []
            for batch in range(count):
                for index in range(b):
                    rec.step()
                    number = batch * b + index
                    if number < n:
                        log = cat.run_operation(path, op, index, use_batch_size=b, batch=batch)
                        cat.compare_run(None, op, number, log, expected[number])
                        ran.append(number)
                    else:
                        cat.check_no_run(path, op, index, use_batch_size=b, batch=batch)
                    rec.state(('ran', n, b, tuple(ran)))
            require(ran == list(range(n)), lambda: 'operations run: %r' % ran)
            for batch, index in ((count, 0), (count, b - 1), (-1, 0), (-1, b - 1), (0, -1)):
                if not 0 <= batch * b + index < n:
                    rec.step()
                    cat.check_no_run(path, op, index, use_batch_size=b, batch=batch)
            for index in range(n):          # half a request for a batch
                rec.step()
                cat.check_no_run(path, op, index, use_batch_size=b)
                cat.check_no_run(path, op, index, batch=1 + index)
            rec.outcome((count, n % b))


class Single(Built):
    """Without batches: every index in and out of range; also an operation that has no per-step parameters."""
    name = 'single'

    def bounds(self, tier):
        return 'operation counts 1..6, all indexes -count-1..count+2'

    def cases(self, tier):
        for n in range(1, 5 if tier == 'quick' else 8):
            for gap in (0, 2):
                yield dict(n=n, gap=gap, constant=False)
        yield dict(n=1, gap=0, constant=True)

    def run(self, case, rec):
        n = case['n']
        with scratch() as root:
            if case['constant']:
                s = dict(start=START, data={'x': [[DAILY, []]]}, ops=[dict(name='target', step=['once'], inputs={}, out=None)])
                cat.make_files(root, s)
                path = os.path.join(root, 'c.nc')
                cat.build(root, s, path)
                op, expected = s['ops'][0], [{}]
            else:
                op, path, expected = self.prepare(root, case)
            for index in range(-n - 1, n + 3):
                rec.step()
                if 0 <= index < n:
                    log = cat.run_operation(path, op, index)
                    cat.compare_run(None, op, index, log, expected[index])
                    # command line, and listing only
                    del runmodules.LOG[:]
                    with quiet():
                        commandrun_module.main([path, 'target', str(index), '--allow_unversioned_code'])
                    require(len(runmodules.LOG) == 1 and cat.canon(runmodules.LOG[0][1].get('a'), False) == expected[index].get('a'),
                            lambda: 'command line ran %r' % runmodules.LOG)
                    del runmodules.LOG[:]
                    with quiet():
                        commandrun_module.main([path, 'target', str(index), '--allow_unversioned_code', '--list'])
                    require(not runmodules.LOG, 'listing ran the operation')
                else:
                    cat.check_no_run(path, op, index)
                rec.outcome((n, index))


class Multiple(Built):
    """Runs of a whole batch handed to one outer method."""
    name = 'multiple'

    def bounds(self, tier):
        return 'operation counts 1..5, all batch sizes, all batches'

    def cases(self, tier):
        for n in range(1, 5 if tier == 'quick' else 8):
            for b in self.batchsizes(n):
                yield dict(n=n, gap=1, batch=b)

    def run(self, case, rec):
        n, b = case['n'], case['batch']
        with scratch() as root:
            op, path, expected = self.prepare(root, case)
            self.results(root, case, rec)
            seen = []
            for batch in range(-(-n // b)):
                rec.step()
                del runmodules.OUTER[:], runmodules.LOG[:]
                with quiet():
                    multiple_commands_run('STAMP', path, 'mc.runmodules.outer', 'target', b, batch, True)
                want = expected[batch * b:(batch + 1) * b]
                require(len(runmodules.OUTER) == 1, lambda: 'outer method called %d times' % len(runmodules.OUTER))
                got = [r['a'] for r in runmodules.OUTER[0] if r is not None]
                require(got == [w['a'] for w in want], lambda: 'batch %d of %d handed over %r, expected %r' % (batch, b, got, [w['a'] for w in want]))
                seen += got
                rec.state((n, b, batch, len(got)))
            require(seen == [w['a'] for w in expected], lambda: 'all batches together handed over %r' % seen)
            rec.outcome((n, b))


    def results(self, root, case, rec):
        """Results that are zero or empty are handed over like any other."""
        n, b = case['n'], case['batch']
        s = dict(start=START, data={'x': [[DAILY, []]]}, ops=[
            dict(name='number', step=['daily', 0, n], inputs={}, out=None, extras=['stepindex'], function='mc.runmodules.number')])
        path = os.path.join(root, 'numbers.nc')
        cat.build(root, s, path)
        for batch in range(-(-n // b)):
            rec.step()
            del runmodules.OUTER[:]
            with quiet():
                multiple_commands_run('STAMP', path, 'mc.runmodules.outer', 'number', b, batch, True)
            want = list(range(batch * b, min(n, (batch + 1) * b)))
            require(len(runmodules.OUTER) == 1 and [int(r) for r in runmodules.OUTER[0] if r is not None] == want,
                    lambda: 'batch %d of %d handed over %r, expected %r' % (batch, b, runmodules.OUTER, want))


class Suite(Built):
    """The cylc suite text generated from the catalogue, interpreted: all cycle points x all subtask parameters."""
    name = 'suite'

    def bounds(self, tier):
        return 'one module, or two or three with different operation counts and batch sizes; operation counts 1..4 (thorough 7) x batch sizes 1..count+2; text of the suite parsed and executed'

    def cases(self, tier):
        for n in range(1, 5 if tier == 'quick' else 8):
            for b in self.batchsizes(n):
                for first in (0, 1, 2, 4) if tier == 'quick' else range(5):
                    yield dict(n=n, gap=0, batch=b, first=first)

    def run(self, case, rec):
        with scratch() as root:
            op, path, expected = self.prepare(root, case)
            sizes = {'target': case['batch']}
            want = {'target': [w['a'] for w in expected]}
            if case['first']:
                sizes['first'] = case['first']
                want['first'] = [w['a'] for w in cat.model(root, system(case['n'], 0))[0][0]]
            if case['first'] == 4:
                sizes['third'] = 1
                want['third'] = [w['a'] for w in cat.model(root, system(case['n'], 0))[0][2]]
            specs = {name: dict(catalogue=path, batchsize=b, options='--allow_unversioned_code') for name, b in sizes.items()}
            needed = {name: -(-len(want[name]) // b) for name, b in sizes.items()}
            first, last = cylc.eumopps_cylc(specs, 'initial_cycle_point'), cylc.eumopps_cylc(specs, 'final_cycle_point')
            required = cylc.eumopps_cylc(specs, 'cycle_points_required')
            require(required == max(needed.values()), lambda: 'cycle points required: %r' % required)
            require([first, last] == [0, required - 1], lambda: 'cycle points %r to %r advertised, %d required' % (first, last, required))
            parameters = {m.group(1): (int(m.group(2)), int(m.group(3))) for m in re.finditer(r'(\w+)\s*=\s*(\d+)\.\.(\d+)', cylc.eumopps_cylc(specs, 'parameters'))}
            require(len(parameters) == len(specs), lambda: 'parameters %r' % parameters)
            everything = cylc.eumopps_cylc(specs, 'subtasks')
            for name in sorted(specs):
                text = cylc.eumopps_cylc(specs, 'module_subtask', name)
                require(text in everything, lambda: 'tasks of %s missing from %r' % (name, everything))
                task = cylc.eumopps_cylc(specs, 'module_subtask_name', name)
                require('[[%s]]' % task in text, lambda: 'task %s is not defined in %r' % (task, text))
                index = re.search('<(.*)>', task).group(1)
                end = int(cylc.eumopps_cylc(specs, 'module_scheduling', name).rsplit('/', 1)[1])
                require(end == needed[name] - 1, lambda: 'module %s scheduled to cycle point %d' % (name, end))
                script = re.search(r'script = python -m eumopps\.catalogue\.commandrun (.*)', text).group(1)
                ran = []
                for point in range(int(first), end + 1):
                    for parameter in range(parameters[index][0], parameters[index][1] + 1):
                        rec.step()
                        words = script.replace('$CYLC_TASK_PARAM_' + index, str(parameter)).replace('$CYLC_TASK_CYCLE_POINT', str(point))
                        del runmodules.LOG[:]
                        with quiet():
                            commandrun_module.main(shlex.split(words))
                        ran += [p['a'] for kind, p in runmodules.LOG]
                require(ran == want[name], lambda: 'suite ran %r for %s, expected %r' % (ran, name, want[name]))
            rec.outcome((case['n'], case['batch'], case['first']))


class Names(Harness):
    """Operations chosen by name, by class or by function among operations with similar names: the one meant runs, and nothing runs when it is not clear."""
    name = 'names'
    chunk = 8
    NAMES = [None, 'make', 'make_b', 'mak', 'e_b', 'mc.runmodules.record', 'Make']
    TARGETS = ['mc.runmodules.record', 'mc.runmodules.record_b', 'mc.runmodules.RecordClass']
    QUERIES = ['make', 'make_b', 'mak', 'e_b', 'Make', 'm', '', 'make_', 'record', 'mc.runmodules'] + TARGETS

    def setup(self):
        cat.setup()

    def bounds(self, tier):
        return 'two operations, each of %d names (also none) and %d functions or classes, asked for by %d texts' % (len(self.NAMES) - 1, len(self.TARGETS), len(self.QUERIES))

    def cases(self, tier):
        single = [[n, t] for n in self.NAMES for t in self.TARGETS if n != t]
        for i, a in enumerate(single):
            for j, b in enumerate(single):
                if tier != 'quick' or a[0] == b[0] or (i + j) % 3 == 0:
                    yield dict(ops=[a, b])

    def run(self, case, rec):
        ops = [dict(name=name, step=['daily', 5 * i, 2 + i], inputs={'a': ['x', 0, 'file', 'allowed']}, out=None,
                    style='class' if target.endswith('Class') else 'function', function=target) for i, (name, target) in enumerate(case['ops'])]
        s = dict(start=START, data={'x': [[DAILY, names(DAILY, range(0, 9))]]}, ops=ops)
        with scratch() as root:
            cat.make_files(root, s)
            path = os.path.join(root, 'c.nc')
            cat.build(root, s, path)
            expected = cat.model(root, s)[0]
            for q in self.QUERIES:
                rec.step()
                found = [i for i, (name, target) in enumerate(case['ops']) if q in (name, target)]
                asked = dict(ops[0], name=q)
                if len(found) == 1:
                    i = found[0]
                    count = int(CatalogueReaderNetCDF().operationcount(path, q, 1))
                    require(count == 2 + i, lambda: 'asked for %r: counted %d operations, it has %d' % (q, count, 2 + i))
                    index = 1 + i
                    log = cat.run_operation(path, asked, index)
                    require(len(log) == 1, lambda: 'asked for %r: ran %r' % (q, log))
                    got = cat.canon(log[0][1].get('a'), False)
                    require(got == expected[i][index]['a'], lambda: 'asked for %r: ran with %r, expected %r' % (q, got, expected[i][index]['a']))
                else:
                    try:
                        count = int(CatalogueReaderNetCDF().operationcount(path, q, 1))
                    except Exception:
                        count = 0
                    require(count == 0, lambda: 'asked for %r, which names %d operations: counted %d' % (q, len(found), count))
                    for index in (0, 1):
                        cat.check_no_run(path, asked, index)
                        cat.check_no_run(path, asked, index, use_batch_size=2, batch=0)
                rec.outcome((len(found), q))


HARNESSES = [Batches(), Single(), Multiple(), Suite(), Names()]
ASSUMPTIONS = ['each index is executed once by the batch system; cylc expands a..b to all integers from a to b']
