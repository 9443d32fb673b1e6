"""C33: merging satellite outputs combines values correctly and loses no source data."""
import itertools
import os
import shutil

import netCDF4
import numpy

from mc import faults
from mc.core import Harness, require
from mc.env import quiet, scratch

with quiet():
    from eustace.outputformats import definitions
    from eustace.outputformats.filesmerger import FilesMerger
    from eustace.outputformats.merge_multiple_outputs import merge_multiple_days_outputs, merge_single_day_outputs, return_daily_outputs
    from eustace.surfaceairmodel.correlation_ranges import CorrelationRanges

FULL = (1, 720, 1440)
SHAPE = FULL
FILL = -32768
LABELS = ('AATSR', 'ATSR2', 'SLSTR', 'AVHRR')
ANCILLARY = ('SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_RANDOM', 'SURFACEAIRMODEL_ANCILLARY_OCEAN_TAS_UNCERTAINTY_LOCALLYCORRELATED')
FIELDS = dict((kind, [getattr(definitions, name) for name in names]) for kind, names in
              dict(main=('TAS', 'TASUNCERTAINTY'), ancillary=ANCILLARY).items())
DAY = 55000
# packed codes a cell of a source can hold (missing, and values that do not add up to whole packing steps)
CODES = dict(TAS=(FILL, -3001, 2502), UNCERTAINTY=(FILL, 300, 1701))


def file_name(folder, kind, label, day=DAY):
    return os.path.join(folder, '%s_ocean_eustace_0_%s%d.nc' % (dict(main='tas', ancillary='ancillary')[kind], label and label + '_', day))


def write_source(path, kind, codes, day=DAY):
    """codes: name -> flat array of packed numbers, repeated to fill the globe."""
    with netCDF4.Dataset(path, 'w') as f:
        for name, size in zip(('time', 'latitude', 'longitude'), SHAPE):
            f.createDimension(name, size)
        f.createVariable('time', 'f4', ('time',))[:] = [day]
        for field in FIELDS[kind]:
            v = f.createVariable(field.name, 'i2', ('time', 'latitude', 'longitude'), fill_value=FILL)
            v.scale_factor, v.add_offset = field.scale_factor, field.add_offset
            v.set_auto_maskandscale(False)
            v[:] = numpy.resize(codes[field.name], SHAPE)
        f.comment = 'as it was'


def packed(path, names=None):
    """Packed numbers of all global fields in a file."""
    with netCDF4.Dataset(path) as f:
        f.set_auto_maskandscale(False)
        return dict((n, f.variables[n][:].ravel()) for n in f.variables if len(f.variables[n].dimensions) == 3 and (names is None or n in names))


def alphabet(field):
    return CODES['TAS' if field.name == 'tas' else 'UNCERTAINTY']


def sources(count, cover):
    """Codes for each source: the cells of one period run through all combinations of what each source holds; cover: per source, 'partial',
    'full' (nothing missing) or 'none' (all missing)."""
    result = []
    for k in range(count):
        own = {}
        for field in FIELDS['main'] + FIELDS['ancillary']:
            codes = alphabet(field)
            values = numpy.array([c[k] for c in itertools.product(codes, repeat=count)], 'i2')
            if cover[k] == 'full':
                values = numpy.where(values == FILL, codes[1], values)
            if cover[k] == 'none':
                values = numpy.full_like(values, FILL)
            # each field in its own order, so that fields have data at different cells
            own[field.name] = numpy.roll(values, 1 + (FIELDS['main'] + FIELDS['ancillary']).index(field))
        result.append(own)
    return result


def expected(field, codes, correlation):
    """Reference for one merged field: codes of each source (flat arrays) and correlation[i][j]."""
    out = []
    step, offset = field.scale_factor, field.add_offset
    for cell in zip(*codes):
        present = [(i, c * step + offset) for i, c in enumerate(cell) if c != FILL]
        if not present:
            out.append(None)
        elif field.name == 'tas':
            out.append(sum(v for _, v in present) / len(present))
        else:
            total = sum(u * v * (1.0 if i == j else correlation[i][j]) for i, u in present for j, v in present)
            out.append(total ** 0.5 / len(present))
    return out


def compare(found, field, wanted, note):
    period = len(wanted)
    for start in (0, (len(found) // period - 1) * period):
        for k, want in enumerate(wanted):
            code = int(found[start + k])
            if want is None:
                require(code == FILL, lambda: '%s: %s has data in a cell where no source has any' % (note, field.name), 'masked')
            else:
                require(code != FILL, lambda: '%s: %s is missing in a cell for which there is data' % (note, field.name), 'missing')
                value = code * field.scale_factor + field.add_offset
                require(abs(value - want) <= 0.51 * field.scale_factor, lambda: '%s: %s is %g and not %g' % (note, field.name, value, want), 'value')
    tiled = numpy.resize(found[:period], len(found))
    require(numpy.array_equal(found, tiled), lambda: '%s: cells of %s mixed up' % (note, field.name), 'cells')


def matrix(count, numbers):
    result = [[0.0] * count for _ in range(count)]
    for (i, j), r in zip(itertools.combinations(range(count), 2), numbers):
        result[i][j] = result[j][i] = r
    return result


def check_merged(folder, codes, correlations, day=DAY):
    """codes: label -> codes of each source that was there; correlations: ancillary field -> matrix over these."""
    labels = list(codes)
    note = '+'.join(labels)
    main, ancillary = packed(file_name(folder, 'main', '', day)), packed(file_name(folder, 'ancillary', '', day))
    if len(labels) == 1:
        for found, kind in ((main, 'main'), (ancillary, 'ancillary')):
            for field in FIELDS[kind]:
                require(field.name in found and numpy.array_equal(found[field.name], numpy.resize(codes[labels[0]][field.name], SHAPE).ravel()), 'values of the only source changed', 'single')
    else:
        none = matrix(len(labels), [0.0] * 9)
        for field in FIELDS['main']:
            compare(main[field.name], field, expected(field, [codes[l][field.name] for l in labels], none), note)
        for field in FIELDS['ancillary']:
            compare(ancillary[field.name], field, expected(field, [codes[l][field.name] for l in labels], correlations[field.name]), note)
        for field in FIELDS['main'] + FIELDS['ancillary']:
            for label in labels:
                name = '%s_%s' % (field.name, label)
                require(name in ancillary, lambda: 'no %s' % name, 'original')
                require(numpy.array_equal(ancillary[name], numpy.resize(codes[label][field.name], SHAPE).ravel()), lambda: '%s: %s is not as in the source' % (note, name), 'original')
    for kind in ('main', 'ancillary'):
        with netCDF4.Dataset(file_name(folder, kind, '', day)) as f:
            require(float(f.variables['time'][0]) == day, 'day changed', 'day')
            require(all(label in f.comment for label in labels) and not any(label in f.comment for label in LABELS if label not in labels), lambda: 'comment is %r' % f.comment, 'comment')


def job(folder, mains, ancillaries, correlations, day=DAY):
    """The parameters of one day, as the operation gives them."""
    return return_daily_outputs(
        'NO_CATALOGUE', 'Met Office', [file_name(folder, 'main', '', day)], [file_name(folder, 'ancillary', '', day)], repr(correlations), 'From ', 'eustace.outputformats.definitions',
        ['TAS'], ['TASUNCERTAINTY'], list(ANCILLARY), CorrelationRanges([FIELDS['ancillary'][1].name], ['km', 'day'], [100], [1]), mains, ancillaries)


def lay(folder, label, codes, day=DAY, kinds=('main', 'ancillary')):
    for kind in kinds:
        write_source(file_name(folder, kind, label, day), kind, codes, day)


def shrink():
    """Work with a small globe if the code under test can be told to (the size is a definition); otherwise stay with the real one."""
    global SHAPE
    SHAPE = (1, 12, 24)
    definitions.GLOBAL_FIELD_SHAPE, definitions.GLOBAL_FIELD_RESOLUTION = SHAPE, 15.0
    try:
        with scratch() as folder, quiet():
            pool = sources(2, ['partial'] * 2)
            for label, codes in zip(LABELS, pool):
                lay(folder, label, codes)
            merge_single_day_outputs(**job(folder, [file_name(folder, 'main', l) for l in LABELS[:2]], [file_name(folder, 'ancillary', l) for l in LABELS[:2]], [[0.0], [1.0]]))
            if any(v.size != SHAPE[1] * SHAPE[2] for k in ('main', 'ancillary') for v in packed(file_name(folder, k, '')).values()):
                enlarge()
    except Exception:
        enlarge()


def enlarge():
    global SHAPE
    SHAPE = FULL
    definitions.GLOBAL_FIELD_SHAPE, definitions.GLOBAL_FIELD_RESOLUTION = FULL, 0.25


CORRELATIONS = ([[0.0] * 6, [1.0] * 6], [[0.25, 0.5, 0.75, 0.125, 0.875, 0.375], [0.0, 0.5, 1.0, 0.75, 0.25, 0.5]])


def submatrices(numbers, total, kept):
    """Correlations between the sources that are there."""
    result = {}
    for field, own in zip(FIELDS['ancillary'], numbers):
        whole = matrix(total, own)
        result[field.name] = [[whole[i][j] for j in kept] for i in kept]
    return result


class Merge(Harness):
    """All combinations of what each source holds in a cell, complete and empty sources, every order of sources."""
    name = 'merge'
    chunk = 4

    def cases(self, tier):
        for count in (1, 2, 3):
            yield dict(order=list(range(count)), cover=['partial'] * count, correlations=1 if count > 1 else 0, full=True)
        for count in (1, 2, 3):
            covers = list(itertools.product(('partial', 'full', 'none'), repeat=count))
            for order in itertools.permutations(range(count)):
                for cover in covers:
                    for c in range(1 if count == 1 else 2):
                        yield dict(order=list(order), cover=list(cover), correlations=c)
        for order in itertools.permutations(range(4)):
            for c in range(2):
                yield dict(order=list(order), cover=['partial'] * 4, correlations=c)

    def run(self, case, rec):
        if case.get('full'):
            enlarge()
            try:
                self.merge(case, rec)
            finally:
                shrink()
        else:
            self.merge(case, rec)

    def merge(self, case, rec):
        count = len(case['order'])
        pool = sources(count, case['cover'])
        labels = [LABELS[i] for i in case['order']]
        numbers = [own[:count * (count - 1) // 2] for own in CORRELATIONS[case['correlations']]]
        with scratch() as folder:
            codes = {}
            for label in labels:
                codes[label] = pool[LABELS.index(label)]
                lay(folder, label, codes[label])
            with quiet():
                merge_single_day_outputs(**job(folder, [file_name(folder, 'main', l) for l in labels], [file_name(folder, 'ancillary', l) for l in labels], numbers))
            check_merged(folder, codes, submatrices(numbers, count, range(count)))
            require(sorted(os.listdir(folder)) == sorted(os.path.basename(file_name(folder, k, '')) for k in ('main', 'ancillary')), lambda: 'files left: %r' % os.listdir(folder), 'left')
        rec.step(3 ** count * 2)
        rec.state(case)
        rec.outcome((count, tuple(case['cover'])))

    def bounds(self, tier):
        return '1-4 sources; every combination of (missing, two values) per source in a cell, for four fields at different cells; partial, complete or empty sources; orders and correlations'


STATES = ('both', 'none', 'absent', 'main', 'ancillary')


class Missing(Harness):
    """Every pattern of missing files, given as nothing or as the name of a file that is not there."""
    name = 'missing'
    chunk = 2

    def cases(self, tier):
        for count in (1, 2, 3):
            for states in itertools.product(STATES, repeat=count):
                yield dict(states=list(states))
        for states in itertools.product(('both', 'none', 'absent'), repeat=4):
            yield dict(states=list(states))

    def run(self, case, rec):
        states = case['states']
        count = len(states)
        pool = sources(count, ['partial'] * count)
        numbers = [own[:count * (count - 1) // 2] for own in CORRELATIONS[1]]
        with scratch() as folder:
            mains, ancillaries, codes = [], [], {}
            for k, state in enumerate(states):
                label = LABELS[k]
                kinds = dict(both=('main', 'ancillary'), main=('main',), ancillary=('ancillary',)).get(state, ())
                lay(folder, label, pool[k], kinds=kinds)
                mains.append(file_name(folder, 'main', label) if 'main' in kinds or state == 'absent' else None)
                ancillaries.append(file_name(folder, 'ancillary', label) if 'ancillary' in kinds or state == 'absent' else None)
                if state == 'both':
                    codes[label] = pool[k]
            before = faults.tree(folder)
            error = None
            try:
                with quiet():
                    merge_single_day_outputs(**job(folder, mains, ancillaries, numbers))
            except Exception as e:
                error = e
            rec.step(count)
            rec.state((states, error is None))
            rec.outcome((len(codes), error is None))
            if set(states) & {'main', 'ancillary'}:
                require(error is not None, lambda: 'sources with only one of their two files merged: %r' % states, 'halves')
                require(faults.tree(folder) == before, 'refused, but files changed', 'changed')
            else:
                require(error is None, lambda: 'merging fails with files %r: %s' % (states, error), 'fails')
                if codes:
                    check_merged(folder, codes, submatrices(numbers, count, [LABELS.index(l) for l in codes]))
                else:
                    require(faults.tree(folder) == {}, 'files from nowhere', 'nowhere')

    def bounds(self, tier):
        return '1-3 sources, each with both files, none, names of absent files, or only one of its two; 4 sources, each with both files, none or names of absent files'


class Days(Harness):
    """Several days in one run, days with different numbers of sources, and sources of different days."""
    name = 'days'
    chunk = 4

    def cases(self, tier):
        for counts in itertools.chain(itertools.product((1, 2), repeat=2), [(3, 1), (1, 3), (0, 2), (2, 0)]):
            for interface in ('job', 'merger'):
                if not (interface == 'merger' and 0 in counts):
                    yield dict(counts=list(counts), interface=interface)
        for kind in ('main', 'ancillary'):
            yield dict(mismatch=kind)
        for where in ('folder_AATSR', 'run_ATSR2_x', 'AATSR'):
            for count in (1, 2):
                yield dict(where=where, count=count)

    def run(self, case, rec):
        with scratch() as folder:
            if 'mismatch' in case:
                pool = sources(2, ['partial'] * 2)
                lay(folder, LABELS[0], pool[0])
                lay(folder, LABELS[1], pool[1], kinds=('main', 'ancillary'))
                write_source(file_name(folder, case['mismatch'], LABELS[1]), case['mismatch'], pool[1], DAY + 1)
                before = faults.tree(folder)
                try:
                    with quiet():
                        merge_single_day_outputs(**job(folder, [file_name(folder, 'main', l) for l in LABELS[:2]], [file_name(folder, 'ancillary', l) for l in LABELS[:2]], [[0.0], [1.0]]))
                    require(False, 'sources of different days merged', 'mismatch')
                except ValueError:
                    require(faults.tree(folder) == before, 'refused, but files changed', 'changed')
                rec.step()
                return
            if 'where' in case:
                inside = os.path.join(folder, case['where'])
                os.mkdir(inside)
                pool = sources(2, ['partial'] * 2)
                codes = dict((l, c) for l, c in list(zip(LABELS, pool))[:case['count']])
                for label in codes:
                    lay(inside, label, codes[label])
                pad = [None] * (2 - len(codes))
                with quiet():
                    merge_single_day_outputs(**job(inside, [file_name(inside, 'main', l) for l in codes] + pad, [file_name(inside, 'ancillary', l) for l in codes] + pad, [[0.0], [1.0]]))
                check_merged(inside, codes, submatrices([[0.0], [1.0]], 2, range(len(codes))))
                rec.step()
                return
            jobs, plan, lists = [], [], [[], []]
            numbers = CORRELATIONS[1]
            for d, count in enumerate(case['counts']):
                pool = sources(max(case['counts']), ['partial'] * max(case['counts']))
                codes = dict((LABELS[k], dict((n, numpy.roll(v, d)) for n, v in pool[k].items())) for k in range(count))
                for label in codes:
                    lay(folder, label, codes[label], DAY + d)
                plan.append((codes, DAY + d))
                own = [n[:count * (count - 1) // 2] for n in numbers]
                names = [[file_name(folder, kind, l, DAY + d) for l in codes] for kind in ('main', 'ancillary')]
                jobs.append(job(folder, names[0], names[1], own, DAY + d))
                lists[0] += names[0]
                lists[1] += names[1]
            with quiet():
                if case['interface'] == 'job':
                    merge_multiple_days_outputs(jobs)
                else:
                    most = max(case['counts'])
                    merger = FilesMerger(lists[0], lists[1], numpy.array(case['counts'], numpy.int64), FIELDS['main'][:1], FIELDS['main'][1:], FIELDS['ancillary'],
                                         [n[:most * (most - 1) // 2] for n in numbers])
                    merger.merge_outputs_from_multiple_daily_sources('module', 'Met Office', 'NO_CATALOGUE')
            for codes, day in plan:
                if codes:
                    check_merged(folder, codes, submatrices(numbers, len(codes), range(len(codes))) if len(codes) < 3 else dict((f.name, matrix(3, n)) for f, n in zip(FIELDS['ancillary'], numbers)), day)
                rec.step()
            rec.state(case)
            rec.outcome(tuple(case['counts']))

    def bounds(self, tier):
        return 'two days of 0-3 sources each, through both interfaces; one file of another day; directories named like a source'


class Crash(Harness):
    """Death, torn write or error at every file-changing call, then the job run again."""
    name = 'crash'
    chunk = 4
    CALLS = {}

    def cases(self, tier):
        for count in (1, 2):
            calls = self.calls(count)
            modes = ('kill', 'torn', 'fail', 'full')
            for mode in modes:
                for k in range(len(calls)):
                    if mode in ('torn', 'full') and not calls[k].startswith('w'):
                        continue
                    yield dict(count=count, mode=mode, at=k + 1)
            if tier == 'thorough':
                notable = [k + 1 for k in range(len(calls)) if count == 1 or not calls[k].startswith('w')]
                for k, j in itertools.product(notable, repeat=2):
                    yield dict(count=count, mode='kill', at=k, then=j)

    def prepare(self, folder, count):
        pool = sources(2, ['partial'] * 2)
        codes = dict((LABELS[k], pool[k]) for k in range(count))
        for label in codes:
            lay(folder, label, codes[label])
        pad = [None] * (2 - count)
        def run():
            merge_single_day_outputs(**job(folder, [file_name(folder, 'main', l) for l in codes] + pad, [file_name(folder, 'ancillary', l) for l in codes] + pad, [[0.5], [1.0]]))
        return codes, run

    def calls(self, count):
        with scratch() as folder:
            codes, run = self.prepare(folder, count)
            status, calls, text = faults.in_child(run, faults.COUNT, 0, folder)
            require(status == 'done', lambda: 'merging fails: %s' % text, 'plain')
            return calls

    def whole(self, folder, codes):
        """The complete merged pair is there."""
        try:
            check_merged(folder, codes, submatrices([[0.5], [1.0]], 2, range(len(codes))))
            return True
        except Exception:
            return False

    def kept(self, folder, codes):
        if self.whole(folder, codes):
            return
        for label in codes:
            for kind in ('main', 'ancillary'):
                found = False
                for name in [file_name(folder, kind, label)] + ([file_name(folder, kind, '')] if len(codes) == 1 else []):
                    try:
                        values = packed(name)
                        found = found or all(numpy.array_equal(values[f.name], numpy.resize(codes[label][f.name], SHAPE).ravel()) for f in FIELDS[kind])
                    except Exception:
                        pass
                require(found, lambda: '%s data of %s are neither in their source file nor in a complete merged file; there are %r' % (kind, label, sorted(os.listdir(folder))), (kind, len(codes)))

    def run(self, case, rec):
        with scratch() as folder:
            codes, run = self.prepare(folder, case['count'])
            status, _, text = faults.in_child(run, faults.MODES[case['mode']], case['at'], folder)
            require(status in ('done', 'raised', 'killed'), lambda: 'ended with %s' % status, 'status')
            if status == 'done':
                require(self.whole(folder, codes), 'reported success without a complete merged file', 'success')
            self.kept(folder, codes)
            rec.state((case['count'], status, sorted(os.listdir(folder))))
            if case.get('then'):
                faults.in_child(run, faults.KILL, case['then'], folder)
                self.kept(folder, codes)
                rec.step()
            again, _, text = faults.in_child(run, faults.COUNT, 0, folder)
            self.kept(folder, codes)
            if again == 'done' and os.path.exists(file_name(folder, 'main', '')):
                require(self.whole(folder, codes), 'second run reported success without a complete merged file', 'again')
            rec.step(2)
            rec.outcome((case['count'], status, again))

    def bounds(self, tier):
        return 'one or two sources; death, torn write, error and full disk at every file-changing call, followed by a second run%s' % ('; pairs of deaths in two runs' if tier == 'thorough' else '')


shrink()
HARNESSES = [Merge(), Missing(), Days(), Crash()]
