"""C37: output directories can be created by many processes at once.

The processes are threads of a controlled scheduler that switches at every file-system call (the calls have no shared
memory, so a process and such a thread are the same thing here). Programs that also do other work are run alone against
an environment that plays the other processes: it makes directories of the output path at every possible point.
"""
import contextlib
import datetime
import itertools
import os
import threading

import numpy

from mc import product, sched
from mc.core import Harness, require
from mc.env import quiet, scratch

from eustace.outputformats import definitions
from eustace.outputformats.ensuredirectory import ensuredirectory

with quiet():
    from eustace.analysis.advanced_standard.components import storage_files, storage_files_batch
    from eustace.analysis.advanced_standard.fileio import optimization_inputs
    from eustace.outputformats.globalfield_filebuilder import FileBuilderGlobalField
    from eustace.postprocess import (apply_mask, calendar_check, cell_percentile_calculation, cell_percentile_threshold, merge_flag_files,
                                     outlier_check, outlier_window_check, threshold_check, window_check)

CALLS = ('mkdir', 'stat', 'lstat', 'access', 'listdir', 'scandir')
PATH_CALLS = ('exists', 'isdir', 'isfile', 'lexists')


@contextlib.contextmanager
def intercepted(before):
    """before(call, path) runs before every directory-related call made through os."""
    saved = [(module, name, getattr(module, name)) for module, names in ((os, CALLS), (os.path, PATH_CALLS)) for name in names if hasattr(module, name)]
    busy = threading.local()

    def wrap(name, original):
        def call(path='.', *args, **kwargs):
            if getattr(busy, 'inside', False) or not isinstance(path, str):
                return original(path, *args, **kwargs)
            busy.inside = True
            try:
                before(name, path)
                return original(path, *args, **kwargs)
            finally:
                busy.inside = False
        return call
    for module, name, original in saved:
        setattr(module, name, wrap(name, original))
    try:
        yield
    finally:
        for module, name, original in saved:
            setattr(module, name, original)


PATHS = ('f.nc', 'a/f.nc', 'a/b/f.nc', 'a/b/c/f.nc', 'a/d/f.nc', 'a/b/')


class Callers(Harness):
    """All interleavings of concurrent callers at file-system call granularity."""
    name = 'callers'
    chunk = 1
    timeout = 400

    def bounds(self, tier):
        return 'all ordered pairs of %d paths, nothing or part of them existing before: all interleavings; triples with at most %d preemptions' % (len(PATHS), 1 if tier == 'quick' else 3)

    def cases(self, tier):
        for pair in itertools.combinations_with_replacement(range(len(PATHS)), 2):
            for existing in ('', 'a', 'a/b'):
                yield dict(paths=[PATHS[i] for i in pair], existing=existing, bound=4 if tier == 'quick' else 12)
        for triple in itertools.combinations_with_replacement((1, 2, 3, 4), 3):
            yield dict(paths=[PATHS[i] for i in triple], existing='', bound=1 if tier == 'quick' else 3)

    def run(self, case, rec):
        with scratch() as top:
            number = [0]
            current = [None, None]
            ACTIVE = [None]

            def make():
                number[0] += 1
                root = os.path.join(top, str(number[0]))
                os.mkdir(root)
                if case['existing']:
                    os.makedirs(os.path.join(root, case['existing']))
                failures = []
                history = []

                def caller(i):
                    path = os.path.join(root, case['paths'][i])
                    try:
                        ensuredirectory(path)
                        if not os.path.isdir(os.path.dirname(path)):
                            failures.append('caller %d of %r returned without the directory' % (i, case['paths'][i]))
                    except Exception as error:
                        failures.append('caller %d of %r failed: %s: %s' % (i, case['paths'][i], type(error).__name__, str(error).replace(root, '')))

                def function():
                    threads = [threading.Thread(target=caller, args=(i,)) for i in range(len(case['paths']))]
                    for t in threads:
                        t.start()
                    for t in threads:
                        t.join()

                def check(scheduler):
                    rec.executions += 1
                    rec.step(len(history))
                    rec.state(tuple(history))
                    require(not failures, lambda: '%s; schedule %r' % (failures[0], scheduler.summary()))
                    rec.outcome(sorted(set(os.path.relpath(d, root) for d, s, f in os.walk(root))))
                current[:] = [root, history]
                return function, check

            def before(call, path):
                root, history = current
                if root and path.startswith(root):
                    scheduler = ACTIVE[0]
                    if scheduler is not None and scheduler.me() is not None:
                        history.append((scheduler.me().ident, call, os.path.relpath(path, root)))
                        scheduler.pause()
            original = sched.Scheduler.run

            def run(scheduler, function):
                ACTIVE[0] = scheduler
                return original(scheduler, function)
            sched.Scheduler.run = run
            try:
                with intercepted(before):
                    sched.explore(make, (), case['bound'])
            finally:
                sched.Scheduler.run = original


class Blocked(Harness):
    """A path blocked by a file is an error; one without a directory part needs nothing."""
    name = 'blocked'

    def bounds(self, tier):
        return 'a file at each level of the path, absolute and relative'

    def cases(self, tier):
        for blocker in ('a', 'a/b', 'a/b/c'):
            for relative in (False, True):
                yield dict(blocker=blocker, relative=relative)
        yield dict(blocker=None, relative=True)

    def run(self, case, rec):
        with scratch() as root:
            folder = os.getcwd()
            os.chdir(root)
            try:
                rec.step()
                prefix = '' if case['relative'] else root + '/'
                if case['blocker'] is None:
                    ensuredirectory('f.nc')
                    require(os.listdir(root) == [], 'something was made for a name without directory')
                    ensuredirectory('./f.nc')
                    require(os.listdir(root) == [], 'something was made for a name without directory')
                    return
                if os.path.dirname(case['blocker']):
                    os.makedirs(os.path.dirname(case['blocker']))
                with open(case['blocker'], 'w') as f:
                    f.write('keep')
                try:
                    ensuredirectory(prefix + 'a/b/c/f.nc')
                    reported = False
                except (OSError, IOError):
                    reported = True
                require(reported, 'directory blocked by a file is not reported')
                require(open(case['blocker']).read() == 'keep', 'the file in the way was changed')
                rec.outcome(reported)
            finally:
                os.chdir(folder)


DAY = datetime.datetime(2001, 2, 3)


def flag_values():
    return numpy.zeros(definitions.GLOBAL_FIELD_SHAPE[1:], numpy.uint16)


def percentiles(source, out):
    def run():
        cell_percentile_calculation.cell_percentile_calculation(source, out, 9, 2001, 2002, 33)
    for year in (2001, 2002):
        when = datetime.datetime(year, 2, 3)
        zero = numpy.zeros(definitions.GLOBAL_FIELD_SHAPE[1:])
        product.write_fields(product.analysis_path(source, 'eustace_analysis', 9, when), when, [(definitions.TAS, zero + 280.0)])
    return run


USERS = {
    'flag file': lambda source, out: lambda: apply_mask.save_flag_file(flag_values(), DAY, os.path.join(out, '2001', 'flags_20010203.nc')),
    'global field': lambda source, out: lambda: FileBuilderGlobalField(os.path.join(out, '2001', 'x.nc'), 5.0, 'title', 'institution', 'name', 'comment', 'version', 'reference', 'history').save_and_close(),
    'state': lambda source, out: lambda: storage_files.writepickle([1], os.path.join(out, '2001', 's.pickle')),
    'batch state': lambda source, out: lambda: storage_files_batch.writepickle([1], os.path.join(out, '2001', 's.pickle')),
    'summary': lambda source, out: lambda: optimization_inputs.merge_input_summaries([], os.path.join(out, '2001', 's.json')),
    'percentiles': percentiles,
    'calendar': lambda source, out: lambda: calendar_check.flagging_operation('2001-01-01', 1, source, 9, out, 2000, 2002),
    'location': lambda source, out: lambda: cell_percentile_threshold.flagging_operation('2001-01-01', 1, source, 9, out, source),
    'merge': lambda source, out: lambda: merge_flag_files.merging_operation('2001-01-01', 1, 9, source, source, out),
    'outlier': lambda source, out: lambda: outlier_check.flagging_operation('2001-01-01', 1, source, 9, out),
    'outlier window': lambda source, out: lambda: outlier_window_check.flagging_operation('2001-01-01', 1, source, 9, out, 2, 1),
    'threshold': lambda source, out: lambda: threshold_check.flagging_operation('2001-01-01', 1, source, 9, out, 0.7, 0.7, 0.6),
    'window': lambda source, out: lambda: window_check.flagging_operation('2001-01-01', 1, source, 9, out, 2, 1, 1),
}


class Users(Harness):
    """Programs that write output, with other processes making the output directories at every point."""
    name = 'users'
    chunk = 1
    timeout = 400

    def bounds(self, tier):
        return '%d writers; each level of a two-level output path made by another process before each of the file-system calls of the writer, all combinations' % len(USERS)

    def cases(self, tier):
        for user in sorted(USERS):
            yield dict(user=user)

    def attempt(self, user, points):
        """Runs the writer; level i of the output path is made by another process before the points[i]-th call on it."""
        with scratch() as root:
            source, out = os.path.join(root, 'source'), os.path.join(root, 'out', 'run')
            os.makedirs(source)
            levels = [os.path.join(root, 'out'), out, os.path.join(out, '2001')]
            calls = [0]

            def before(call, path):
                if path.startswith(levels[0]):
                    for level, point in zip(levels, points):
                        if point is not None and calls[0] == point and os.path.isdir(os.path.dirname(level)) and not os.path.exists(level):
                            os.mkdir(level)
                    calls[0] += 1
            with quiet():
                with product.grid(4, 8), product.ancillary(source):
                    function = USERS[user](source, out)
                    with intercepted(before):
                        try:
                            function()
                            result = 'done'
                        except Exception as error:
                            text = str(error).replace(root, '')
                            result = '%s: %s' % (type(error).__name__, text)
                            if isinstance(error, OSError) and error.errno in (17, 20):
                                result = 'failed on the output directory: ' + result
            return result, calls[0], [os.path.isdir(level) for level in levels]

    def run(self, case, rec):
        alone, calls, made = self.attempt(case['user'], [None] * 3)
        require('output directory' not in alone, lambda: alone)
        limit = min(calls, 8)
        moments = list(range(limit)) + [None]
        for points in itertools.product(moments, repeat=3):
            # a level cannot be made before its parent
            if any(points[i + 1] is not None and (points[i] is None or points[i + 1] < points[i]) for i in range(2)):
                continue
            result, n, present = self.attempt(case['user'], points)
            rec.step(n)
            rec.executions += 1
            rec.state((case['user'], points))
            require(result == alone, lambda: 'the writer of %s gives %r when another process makes the output directories at its calls %r, and %r when alone' % (case['user'], result, points, alone))
            require(all(p or not m for p, m in zip(present, made)), 'the directory is missing afterwards')
        rec.outcome(alone[:20])


HARNESSES = [Callers(), Blocked(), Users()]
