"""C26: every storage of analysis results gives back exactly what was last written for that quantity and day, and nothing else.

Each storage class is driven through all sequences of writes and reopenings (a new object, as a later process has it) up to
a depth; after every step all its quantities and days are read and compared with a dictionary.
"""
import itertools
import os
import pickle

import numpy
import scipy.sparse

from mc import analysis, faults
from mc.core import Harness, require
from mc.env import quiet, scratch

with quiet():
    from eustace.analysis.advanced_standard.components import storage_files as files
    from eustace.analysis.advanced_standard.components import storage_files_batch as batch
    from eustace.analysis.advanced_standard.components import storage_inmemory as memory
    from eustace.analysis.advanced_standard.linalg.linearsystem import MeasurementUpdate

QUANTITIES = ('state', 'std', 'sample', 'prior')
DAYS = (57009, 57010)        # days since 1850: end of January and first of February 2006
METHODS = dict(state='state', std='state_marginal_std', sample='state_sample', prior='state_prior_sample', measurement='measurement')


def value(n, measurement=False):
    if measurement:
        design = scipy.sparse.csc_matrix(numpy.array([[1.0, 0.0, n], [0.0, 2.0 + n, 0.0]]))
        return MeasurementUpdate.create_from_system_observations(design, scipy.sparse.identity(2, format='csc'), numpy.array([float(n), -1.0]))
    return numpy.array([[n + 0.5, -n / 3.0, 1e-300 * n], [numpy.inf, -0.0, n]])


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, MeasurementUpdate):
        return isinstance(a, MeasurementUpdate) and all(numpy.array_equal(analysis.dense(getattr(a, k)), analysis.dense(getattr(b, k))) for k in ('information_precision', 'information_vector'))
    return numpy.array_equal(numpy.asarray(a), b)


class Kind(object):
    """One storage class: make() gives a new object that sees what earlier ones stored; keys of what it can hold."""
    partial = False     # state_... or partial_state_... methods
    keyed = False       # methods take the day
    persistent = True
    measured = False

    def __init__(self, root):
        self.root = root

    def name(self, quantity, day):
        return os.path.join(self.root, 'deep', quantity, '%s_%s.pickle' % (quantity, day))

    def keys(self):
        return [(q, d) for q in QUANTITIES for d in (DAYS if self.keyed else (None,))] + ([('measurement', d) for d in DAYS] if self.measured else [])

    def method(self, storage, quantity, what):
        name = METHODS[quantity] + '_' + what
        return getattr(storage, 'partial_' + name if self.partial and quantity != 'measurement' else name)

    def arguments(self, quantity, day):
        return (day,) if quantity == 'measurement' or self.keyed else ()

    def write(self, storage, key, content):
        self.method(storage, key[0], 'write')(content, *self.arguments(*key))

    def read(self, storage, key):
        return self.method(storage, key[0], 'read')(*self.arguments(*key))

    # how the object for the named keys is made
    def make(self, keys):
        raise NotImplementedError


class SpaceTimeMemory(Kind):
    persistent = False
    measured = True

    def make(self, keys):
        return memory.SpaceTimeComponentSolutionStorage_InMemory()


class SpatialMemory(Kind):
    persistent = False
    partial = True
    keyed = True
    measured = True

    def make(self, keys):
        return memory.SpatialComponentSolutionStorage_InMemory()


class SpaceTimeFiles(Kind):
    def make(self, keys):
        return files.SpaceTimeComponentSolutionStorage_Files(**self.options(keys))

    def options(self, keys):
        options = {}
        for q, d in keys:
            for what in ('read', 'write'):
                options[('statefilename_%s' if q == 'state' else {'std': 'marginal_std', 'sample': 'sample', 'prior': 'prior_sample'}[q] + '_filename_%s') % what] = self.name(q, d)
        return options


class SpaceTimeBatched(SpaceTimeFiles):
    keep = False

    def make(self, keys):
        return batch.SpaceTimeComponentSolutionStorageBatched_Files(keep_in_memory=self.keep, **self.options(keys))


class SpaceTimeKept(SpaceTimeBatched):
    keep = True


class SpatialFiles(SpaceTimeFiles):
    """One object per day."""
    partial = True
    keyed = True

    def make(self, keys):
        return {day: files.SpatialComponentSolutionStorage_Files(time_index=day, **self.options([k for k in keys if k[1] == day])) for day in DAYS}

    def write(self, storage, key, content):
        super().write(storage[key[1]], key, content)

    def read(self, storage, key):
        return super().read(storage[key[1]], key)


class SpatialIndexed(Kind):
    partial = True
    keyed = True
    measured = True
    turn = 0

    def make(self, keys):
        # each object lists the days in the other order
        self.turn += 1
        days = DAYS[::-1] if self.turn % 2 == 0 else DAYS
        options = dict(time_list=list(days))
        for q in {k[0] for k in keys}:
            for what in ('read', 'write'):
                name = dict(state='statefilelist', std='marginal_std_filelist', sample='sample_filelist', prior='prior_sample_filelist', measurement='measurementfilelist')[q]
                options['%s_%s' % (name, what)] = [self.name(q, d) for d in days]
        return batch.SpatialComponentSolutionStorageIndexed_Files(**options)


class Delayed(Kind):
    """Dictionaries or lists of names."""
    partial = True
    keyed = True
    measured = True

    def keys(self):
        return [k for k in super().keys() if k[0] != 'prior']

    def make(self, keys):
        options = {}
        for q in {k[0] for k in keys}:
            for what in ('read', 'write'):
                name = dict(state='statefiledictionary', std='marginal_std_filedictionary', sample='sample_filedictionary', measurement='measurementfiledictionary')[q]
                options['%s_%s' % (name, what)] = {d: self.name(q, d) for d in DAYS}
        return files.DelayedSpatialComponentSolutionStorage_Files(**options)


class Flexible(Kind):
    """Patterns of names."""
    partial = True
    keyed = True
    measured = True

    def make(self, keys):
        options = {}
        for q in {k[0] for k in keys}:
            for what in ('read', 'write'):
                name = dict(state='state', std='marginal_std', sample='sample', prior='prior_sample', measurement='measurement')[q]
                options['%s_%s_pattern' % (name, what)] = [self.root, 'deep/%Y', q + '_%Y%m%d.pickle']
        return files.DelayedSpatialComponentSolutionStorageFlexible_Files(**options)


KINDS = {k.__name__: k for k in (SpaceTimeMemory, SpatialMemory, SpaceTimeFiles, SpaceTimeBatched, SpaceTimeKept, SpatialFiles, SpatialIndexed, Delayed, Flexible)}


class Histories(Harness):
    """All sequences of writes and reopenings."""
    name = 'histories'
    chunk = 8
    timeout = 300

    def bounds(self, tier):
        return 'all sequences of %d steps (write one of the keys of two quantities, or reopen) for every storage class and pair of quantities; everything read after every step' % self.depth(tier)

    def depth(self, tier):
        return 3 if tier == 'quick' else 5

    def cases(self, tier):
        for kind in sorted(KINDS):
            quantities = []
            for q, d in KINDS[kind]('').keys():
                if q not in quantities:
                    quantities.append(q)
            for pair in itertools.combinations(quantities, 2):
                yield dict(kind=kind, pair=list(pair), depth=self.depth(tier))

    def run(self, case, rec):
        with scratch() as root:
            kind = KINDS[case['kind']](root)
            keys = [k for k in kind.keys() if k[0] in case['pair']]
            steps = list(range(len(keys))) + (['reopen'] if kind.persistent else [])
            for number, sequence in enumerate(itertools.product(steps, repeat=case['depth'])):
                kind.root = os.path.join(root, str(number))
                storage = kind.make(keys)
                there = {}
                for n, step in enumerate(sequence):
                    if step == 'reopen':
                        storage = kind.make(keys)
                    else:
                        key = keys[step]
                        there[key] = value(n + 1, key[0] == 'measurement')
                        kind.write(storage, key, there[key])
                    for key in keys:
                        if key in there:
                            got = kind.read(storage, key)
                            require(same(got, there[key]), lambda: '%s after %s: %s read as %s, written was %s' % (case['kind'], [keys[s] if s != 'reopen' else s for s in sequence[:n + 1]], key, got, there[key]))
                        else:
                            self.absent(kind, storage, key, case)
                    rec.step(1 + len(keys))
                    rec.state((case['kind'], tuple(case['pair']), sequence[:n + 1]))
                measured = sorted(k[1] for k in there if k[0] == 'measurement')
                if kind.measured and not kind.persistent:
                    require(sorted(storage.timeindices_read()) == measured, lambda: 'days with measurements %s, given as %s' % (measured, storage.timeindices_read()))
        rec.outcome((case['kind'], tuple(case['pair'])))

    def absent(self, kind, storage, key, case):
        """What was never written: nothing, or an error, but no value."""
        try:
            got = kind.read(storage, key)
        except (IOError, OSError, KeyError, ValueError):
            return
        require(got is None, lambda: '%s: %s read as %s, never written' % (case['kind'], key, got))


class Unset(Harness):
    """Every subset of the quantities given file names: the others are read as nothing and cannot be written."""
    name = 'unset'
    chunk = 8

    def bounds(self, tier):
        return 'all storage classes that take names x all subsets of quantities with names x all quantities and days'

    def cases(self, tier):
        for kind in sorted(KINDS):
            if KINDS[kind].persistent:
                quantities = sorted({k[0] for k in KINDS[kind]('').keys()})
                for r in range(len(quantities) + 1):
                    for some in itertools.combinations(quantities, r):
                        yield dict(kind=kind, set=list(some))

    def run(self, case, rec):
        with scratch() as root:
            kind = KINDS[case['kind']](root)
            keys = [k for k in kind.keys() if k[0] in case['set']]
            storage = kind.make(keys)
            for n, key in enumerate(keys):
                kind.write(storage, key, value(n, key[0] == 'measurement'))
            present = set(os.listdir(root))
            for key in kind.keys():
                rec.step()
                if key in keys:
                    got = kind.read(storage, key)
                    require(same(got, value(keys.index(key), key[0] == 'measurement')), lambda: '%s read as %s' % (key, got))
                    continue
                try:
                    kind.write(storage, key, value(99, key[0] == 'measurement'))
                except (ValueError, KeyError, TypeError):
                    pass
                else:
                    require(False, '%s: %s written though it has no file' % (case['kind'], key))
                if key[0] == 'measurement':
                    continue
                try:
                    got = kind.read(storage, key)
                except ValueError:
                    got = None
                require(got is None, lambda: '%s: %s has no file and is read as %s' % (case['kind'], key, got))
            require(set(os.listdir(root)) == present, 'other files written')
            rec.state((case['kind'], tuple(case['set'])))
        rec.outcome(case['kind'])


class OtherDay(Harness):
    """A day the storage was not made for is refused or empty, never taken from another day."""
    name = 'other-day'
    chunk = 8

    def bounds(self, tier):
        return 'storage classes made for two days x all quantities x two other days; reading and writing'

    def cases(self, tier):
        for kind in ('SpatialIndexed', 'Delayed', 'SpatialFiles'):
            for key in sorted({k[0] for k in KINDS[kind]('').keys()}):
                for other in (DAYS[0] - 1, DAYS[1] + 1, 0, 1, -1):
                    yield dict(kind=kind, quantity=key, other=other)

    def run(self, case, rec):
        with scratch() as root:
            kind = KINDS[case['kind']](root)
            keys = kind.keys()
            storage = kind.make(keys)
            for n, key in enumerate(keys):
                kind.write(storage, key, value(n, key[0] == 'measurement'))
            method = lambda s, what: kind.method(s, case['quantity'], what)
            for s in storage.values() if isinstance(storage, dict) else [storage]:
                rec.step(2)
                try:
                    got = method(s, 'read')(case['other'])
                except (ValueError, KeyError):
                    got = None
                require(got is None, lambda: '%s of day %d read as %s, made for %s' % (case['quantity'], case['other'], got, DAYS))
                try:
                    method(s, 'write')(value(99, case['quantity'] == 'measurement'), case['other'])
                except (ValueError, KeyError):
                    pass
                else:
                    require(False, '%s of day %d written by storage made for %s' % (case['quantity'], case['other'], DAYS))
            for n, key in enumerate(keys):
                require(same(kind.read(storage, key), value(n, key[0] == 'measurement')), lambda: '%s changed' % (key,))
        rec.outcome((case['kind'], case['quantity']))


class Lists(Harness):
    """Measurements of separate operations given as a list: read in the order and number of the list."""
    name = 'lists'
    chunk = 4

    def bounds(self, tier):
        return 'lists of up to 4 measurement files in all orders, also for all positions out of range'

    def cases(self, tier):
        for n in range(0, 4 if tier == 'quick' else 5):
            for order in itertools.permutations(range(n)):
                yield dict(order=list(order))

    def run(self, case, rec):
        with scratch() as root:
            names = [os.path.join(root, 'x', 'm%d' % n) for n in range(len(case['order']))]
            for n, name in enumerate(names):
                writer = files.SpaceTimeComponentSolutionStorage_Files(measurement_time_index_write=n, measurementfilename_write=name)
                for other in (n - 1, n + 1):
                    try:
                        writer.measurement_write(value(50, True), other)
                    except ValueError:
                        pass
                    else:
                        require(False, 'measurement of step %d written in the place of step %d' % (other, n))
                writer.measurement_write(value(n, True), n)
            given = [names[n] for n in case['order']]
            for storage, many in ((files.SpaceTimeComponentSolutionStorage_Files(measurementfilelist_read=given), range(len(given))),
                                  (files.DelayedSpatialComponentSolutionStorage_Files(measurementfiledictionary_read=given), range(len(given))),
                                  (batch.SpatialComponentSolutionStorageIndexed_Files(measurementfilelist_read=given), range(len(given)))):
                rec.step(len(given) + 2)
                for position in range(-1, len(given) + 1):
                    if 0 <= position < len(given):
                        got = storage.measurement_read(position)
                        require(same(got, value(case['order'][position], True)), lambda: '%s: measurement %d of the list is not that of its file' % (type(storage).__name__, position))
                    else:
                        try:
                            storage.measurement_read(position)
                        except (ValueError, KeyError, IndexError):
                            continue
                        require(False, '%s: measurement %d read from a list of %d' % (type(storage).__name__, position, len(given)))
                if not isinstance(storage, batch.SpatialComponentSolutionStorageIndexed_Files):
                    require(list(storage.timeindices_read() or []) == list(many), lambda: 'measurements offered: %s of %d' % (storage.timeindices_read(), len(given)))
        rec.outcome(len(case['order']))


class Cut(Harness):
    """A write that stops after any number of bytes is never taken for a result."""
    name = 'cut-files'
    chunk = 1
    timeout = 300

    def bounds(self, tier):
        return 'all file storage classes x all quantities x every length shorter than the file'

    def cases(self, tier):
        for kind in sorted(KINDS):
            if KINDS[kind].persistent:
                for q in sorted({k[0] for k in KINDS[kind]('').keys()}):
                    yield dict(kind=kind, quantity=q)

    def run(self, case, rec):
        with scratch() as root:
            kind = KINDS[case['kind']](root)
            keys = [k for k in kind.keys() if k[0] == case['quantity']][:1]
            storage = kind.make(keys)
            kind.write(storage, keys[0], value(3, case['quantity'] == 'measurement'))
            found = [os.path.join(folder, f) for folder, inner, names in os.walk(root) for f in names]
            require(len(found) == 1, lambda: 'files written: %s' % found)
            with open(found[0], 'rb') as f:
                content = f.read()
            for length in range(len(content)):
                with open(found[0], 'wb') as f:
                    f.write(content[:length])
                rec.step()
                try:
                    got = kind.read(kind.make(keys), keys[0])
                except (EOFError, ValueError, IOError, OSError, KeyError, IndexError, AttributeError, ImportError, pickle.UnpicklingError, UnicodeDecodeError):
                    continue
                require(False, '%s: file cut to %d of %d bytes is read as %s' % (case['kind'], length, len(content), got))
            rec.state((case['kind'], case['quantity'], len(content)))
        rec.outcome(case['kind'])


class Interrupted(Harness):
    """A write over an earlier result that is interrupted leaves the old one, the new one or nothing, but no mixture."""
    name = 'interrupted'
    chunk = 1
    timeout = 300

    def bounds(self, tier):
        return 'all file storage classes x all quantities; death, torn write, error and full disk at every file-changing call of a write over an earlier result'

    def cases(self, tier):
        for kind in sorted(KINDS):
            if KINDS[kind].persistent:
                for q in sorted({k[0] for k in KINDS[kind]('').keys()}):
                    yield dict(kind=kind, quantity=q)

    def content(self, n, measurement):
        if measurement:
            return MeasurementUpdate.create_from_system_observations(scipy.sparse.csc_matrix(numpy.arange(600.0).reshape(20, 30) + n), scipy.sparse.identity(20, format='csc'), numpy.arange(20.0) * n)
        return numpy.arange(600.0).reshape(2, 300) + n

    def run(self, case, rec):
        measurement = case['quantity'] == 'measurement'
        old, new = self.content(1, measurement), self.content(2, measurement)
        with scratch() as root:
            kind = KINDS[case['kind']](os.path.join(root, 'count'))
            key = [k for k in kind.keys() if k[0] == case['quantity']][0]
            kind.write(kind.make([key]), key, old)
            status, calls, text = faults.in_child(lambda: kind.write(kind.make([key]), key, new), faults.COUNT, 0, root)
            require(status == 'done', lambda: 'a result cannot be written again: %s %s' % (status, text))
            for mode in ('kill', 'torn', 'fail', 'full'):
                for k in range(len(calls)):
                    rec.step()
                    kind.root = os.path.join(root, '%s%d' % (mode, k))
                    kind.write(kind.make([key]), key, old)
                    status, done, text = faults.in_child(lambda: kind.write(kind.make([key]), key, new), faults.MODES[mode], k, root)
                    try:
                        got = kind.read(kind.make([key]), key)
                    except (EOFError, ValueError, IOError, OSError, KeyError, IndexError, AttributeError, ImportError, pickle.UnpicklingError, UnicodeDecodeError):
                        continue
                    require(got is None or same(got, old) or same(got, new), lambda: '%s: a write interrupted (%s) at %s leaves neither the old nor the new result' % (case['kind'], mode, calls[k]))
                    require(status != 'done' or same(got, new), lambda: '%s: the write reports success (%s at %s) but %s is read' % (case['kind'], mode, calls[k], got))
                    rec.state((case['kind'], case['quantity'], mode, k))
        rec.outcome((case['kind'], tuple(c.split(':')[0] for c in calls)))


HARNESSES = [Histories(), Unset(), OtherDay(), Lists(), Cut(), Interrupted()]
ASSUMPTIONS = ['files of one object are not changed by another one while it keeps them in memory']
