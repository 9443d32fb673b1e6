"""C30: published masks follow the quality flags exactly."""
import calendar
import datetime
import glob
import os

import numpy

from mc import product
from mc.core import Harness, require
from mc.env import quiet, scratch

from eustace.outputformats import definitions
from eustace.postprocess import flags

with quiet():
    from eustace.postprocess import apply_mask, merge_flag_files

WORDS = 1 << 16
NLAT, NLON = 258, 514                 # 256 x 512 inner cells: every flag word twice
COAST = numpy.array([0.0, 94.9, 95.0, 95.1, 100.0, 50.0], numpy.float32)

NAMES = ['DAY_FLAG', 'PRIOR_WINDOW_FLAG', 'POST_WINDOW_FLAG', 'PRIOR_CALENDAR_FLAG', 'POST_CALENDAR_FLAG', 'CLIMATOLOGY_UNC_FLAG',
         'LARGE_SCALE_UNC_FLAG', 'AREAL_LOW_FLAG', 'AREAL_HIGH_FLAG', 'EXTREME_LOW_FLAG', 'EXTREME_HIGH_FLAG', 'PERSISTANT_OUTLIER_FLAG',
         'MISSING_MARINE_FLAG', 'LOCATION_LOW_FLAG', 'LOCATION_HIGH_FLAG', 'MISSING_FLAG_FLAG']
MEANING = {'DAY_FLAG': ('day_constraint',), 'PRIOR_WINDOW_FLAG': ('prior', 'window'), 'POST_WINDOW_FLAG': ('post', 'window'),
           'PRIOR_CALENDAR_FLAG': ('prior', 'calendar'), 'POST_CALENDAR_FLAG': ('post', 'calendar'), 'CLIMATOLOGY_UNC_FLAG': ('climatology', 'uncertainty'),
           'LARGE_SCALE_UNC_FLAG': ('large_scale', 'uncertainty'), 'AREAL_LOW_FLAG': ('areal', 'low'), 'AREAL_HIGH_FLAG': ('areal', 'high'),
           'EXTREME_LOW_FLAG': ('extreme', 'low'), 'EXTREME_HIGH_FLAG': ('extreme', 'high'), 'PERSISTANT_OUTLIER_FLAG': ('outlier',),
           'MISSING_MARINE_FLAG': ('marine',), 'LOCATION_LOW_FLAG': ('location', 'low'), 'LOCATION_HIGH_FLAG': ('location', 'high'),
           'MISSING_FLAG_FLAG': ('unconstrained', 'calendar')}
REJECTING = ['CLIMATOLOGY_UNC_FLAG', 'LARGE_SCALE_UNC_FLAG', 'AREAL_LOW_FLAG', 'AREAL_HIGH_FLAG', 'EXTREME_LOW_FLAG', 'EXTREME_HIGH_FLAG',
             'LOCATION_LOW_FLAG', 'LOCATION_HIGH_FLAG']


def bit(name):
    return int(getattr(flags, name))


def words_of_day(offset):
    """Every flag word on the inner cells (twice), arranged differently from day to day."""
    words = numpy.zeros((NLAT, NLON), numpy.uint16)
    index = numpy.arange(256 * 512)
    words[1:-1, 1:-1] = (((index // 2) + offset) % WORDS).reshape(256, 512)
    return words


def coast_map():
    coast = numpy.zeros((NLAT, NLON), numpy.float32)
    index = numpy.arange(256 * 512)
    coast[1:-1, 1:-1] = COAST[(index % 2) * 3 + (index // 2) % 3].reshape(256, 512)
    coast[:, 0] = 33.0
    coast[:, -1] = 97.0
    coast[0, :] = 100.0
    coast[-1, :] = 0.0
    return coast


def marine_map(coast):
    coast = numpy.array(coast)
    coast[0, :] = 0.0               # Antarctica
    coast[-1, :] = 100.0            # north pole
    coast[:, 0] = coast[:, 1]
    coast[:, -1] = coast[:, -2]
    return coast > 95.0


def expected_mask(words, marine, year):
    words = words.astype(numpy.int64)
    mask = numpy.zeros(words.shape, bool)
    for name in REJECTING:
        mask |= (words & bit(name)) != 0
    mask |= ((words & bit('MISSING_FLAG_FLAG')) != 0) & ~marine
    if year > 2012:
        mask |= marine
    return mask


def codes(seed):
    index = numpy.arange(NLAT * NLON, dtype=numpy.int64)
    values = ((index * 7 + seed * 1009) % 60001 - 30000).astype(numpy.int16)
    values[seed % 97::4999] = -32768
    return values.reshape(NLAT, NLON)


def unpack(variable, raw):
    return numpy.ma.masked_where(raw == variable.fill_value, raw.astype(numpy.float64) * variable.scale_factor + variable.add_offset)


def ensemble(k):
    import copy
    v = copy.deepcopy(definitions.TASENSEMBLE)
    v.name = '%s_%d' % (v.name, k)
    return v


KINDS = ['eustace_analysis', 'eustace_climatology_component', 'eustace_large_scale_component', 'eustace_local_component']


def inputs(kind, seed, members):
    first = definitions.TAS if kind in KINDS[:2] else definitions.TASPERTURBATION
    variables = [first, definitions.TASUNCERTAINTY, definitions.TAS_OBSERVATION_INFLUENCE]
    if kind == KINDS[0]:
        # members are not stored in numerical order
        variables += [ensemble(k) for k in sorted(range(members), key=str)]
    return [(v, codes(seed * 31 + n)) for n, v in enumerate(variables)]


class Masking(Harness):
    """The whole masking operation of one month, every flag word with every kind of coast cell."""
    name = 'masking'
    chunk = 1
    timeout = 600

    def cases(self, tier):
        months = [(2012, 12), (2013, 2)]
        splits = ['none', 0x5555]
        if tier == 'thorough':
            months = [(1850, 2), (2012, 2), (2012, 12), (2013, 1), (2013, 2), (2015, 6)]
            splits = ['none', 0x0000, 0xffff, 0x5555, 0xaaaa]
        for i, month in enumerate(months):
            for j, split in enumerate(splits):
                yield dict(month=month, split=split, iteration=[9, 4][(i + j) % 2])

    def bounds(self, tier):
        return 'all 65536 flag words x 6 coast kinds (around the marine threshold) on every day of the month, split between one or two flag directories, months either side of the cut-over'

    def run(self, case, rec):
        year, month = case['month']
        iteration = case['iteration']
        days = calendar.monthrange(year, month)[1]
        with scratch() as root, product.grid(NLAT, NLON), product.ancillary(root), quiet():
            product.write_map(os.path.join(root, 'coastal_influence.test.0.25_0.25.nc'), 'coastal_influence', coast_map())
            marine = marine_map(coast_map())
            sets = [{kind: inputs(kind, s * 7 + n, 11 if s == 0 else 2) for n, kind in enumerate(KINDS)} for s in range(2)]
            for d in range(days):
                date = datetime.datetime(year, month, d + 1)
                for kind in KINDS:
                    path = product.analysis_path(os.path.join(root, 'in'), kind, iteration, date)
                    if d < 2:
                        product.write_fields(path, date, [(v, unpack(v, raw)) for v, raw in sets[d][kind]])
                    else:
                        os.link(product.analysis_path(os.path.join(root, 'in'), kind, iteration, datetime.datetime(year, month, d % 2 + 1)), path)
                words = words_of_day(d)
                split = 0 if case['split'] == 'none' else case['split']
                apply_mask.save_flag_file(words & numpy.uint16(0xffff ^ split), date, product.flag_path(os.path.join(root, 'f1'), iteration, date))
                if case['split'] != 'none':
                    apply_mask.save_flag_file(words & numpy.uint16(split), date, product.flag_path(os.path.join(root, 'f2'), iteration, date))
            # months counted from a reference date in an earlier year
            reference = '%04d-01-01' % (year - 1)
            apply_mask.masking_operation(reference, 12 + month - 1, os.path.join(root, 'in'), iteration, os.path.join(root, 'f1'),
                                         None if case['split'] == 'none' else os.path.join(root, 'f2'), os.path.join(root, 'out'))
            rec.step(days)
            found = {}
            for folder, _, names in os.walk(os.path.join(root, 'out')):
                for name in names:
                    kind = ([k for k in KINDS[1:] if k in name] + [KINDS[0]])[0]
                    found.setdefault((kind, name[-11:-3]), []).append(os.path.join(folder, name))
            for d in range(days):
                date = datetime.datetime(year, month, d + 1)
                mask = expected_mask(words_of_day(d), marine, year)
                for kind in KINDS:
                    paths = found.pop((kind, date.strftime('%Y%m%d')), [])
                    require(len(paths) == 1, lambda: '%d files of %s on %s' % (len(paths), kind, date))
                    content = product.read_raw(paths[0])
                    for v, raw in sets[d % 2][kind]:
                        require(v.name in content, lambda: '%s of %s is not published' % (v.name, kind))
                        self.compare(content[v.name][0][0], raw, mask, v, words_of_day(d), marine, '%s of %s on %s' % (v.name, kind, date.date()))
                    rec.state((d, kind, int(mask.sum())))
                    fields = {n for n, (value, _) in content.items() if value.ndim == 3}
                    require(fields == {v.name for v, _ in sets[d % 2][kind]}, lambda: 'fields of %s: %s' % (kind, sorted(fields)))
            require(not found, lambda: 'additional outputs %s' % sorted(found))

    @staticmethod
    def compare(got, raw, mask, variable, words, marine, text):
        want = numpy.where(mask, variable.fill_value, raw)
        bad = numpy.argwhere(got != want)
        if len(bad):
            i, j = bad[0]
            require(False, '%s: cell %d,%d with flags 0x%04x %s holds %d, expected %d (%s); %d cells differ' % (
                text, i, j, words[i, j], 'marine' if marine[i, j] else 'land', got[i, j], want[i, j], 'masked' if mask[i, j] else 'kept', len(bad)))


class FlagFile(Harness):
    """Flag words written to file and read back, and the meanings recorded with them."""
    name = 'flagfile'
    chunk = 1

    def cases(self, tier):
        for iteration in (4, 9):
            yield dict(iteration=iteration)

    def bounds(self, tier):
        return 'all 65536 flag words; all 16 bits'

    def run(self, case, rec):
        bits = [bit(n) for n in NAMES]
        for n, b in zip(NAMES, bits):
            require(b > 0 and b & (b - 1) == 0, lambda: '%s is not a single bit' % n)
        require(len(set(bits)) == len(bits), 'flags share bits')
        date = datetime.datetime(2000, 2, 29)
        with scratch() as root, product.grid(NLAT, NLON), quiet():
            path = product.flag_path(root, case['iteration'], date)
            words = words_of_day(0)
            apply_mask.save_flag_file(numpy.array(words), date, path)
            raw, attributes = product.read_raw(path)['tas_qc']
            require(numpy.array_equal(raw[0], words), 'flag words differ in file')
            back = numpy.squeeze(numpy.asarray(apply_mask.load_flags(root, case['iteration'], '20000229').data[:, :, :]))
            require(numpy.array_equal(back, words), 'flag words differ when read back')
            masks = [int(m) for m in numpy.atleast_1d(attributes['flag_masks'])]
            meanings = attributes['flag_meanings'].split()
            require(len(masks) == len(meanings), lambda: '%d flag masks with %d meanings' % (len(masks), len(meanings)))
            table = dict(zip(masks, meanings))
            require(len(table) == len(masks), 'repeated flag masks')
            for name in NAMES:
                require(bit(name) in table, lambda: 'no meaning recorded for %s' % name)
                require(all(part in table[bit(name)] for part in MEANING[name]), lambda: 'meaning of %s is %s' % (name, table[bit(name)]))
                rec.step()
                rec.state((name, table[bit(name)]))


class Merge(Harness):
    """Merging of two sets of flag files for one month."""
    name = 'merge'
    chunk = 1
    timeout = 300

    def cases(self, tier):
        for month in ([(2012, 2)] if tier == 'quick' else [(2012, 2), (2013, 2), (2012, 12)]):
            for swap in (False, True):
                yield dict(month=month, swap=swap)

    def bounds(self, tier):
        return 'all 65536 words of one file x {none, all, every single flag, pairs} in the other, both ways round'

    def run(self, case, rec):
        year, month = case['month']
        days = calendar.monthrange(year, month)[1]
        others = [0, 0xffff] + [1 << n for n in range(16)] + [3 << n for n in range(15)]
        with scratch() as root, product.grid(NLAT, NLON), quiet():
            expected = []
            for d in range(days):
                date = datetime.datetime(year, month, d + 1)
                first, second = words_of_day(d), numpy.full((NLAT, NLON), others[d % len(others)], numpy.uint16)
                if case['swap']:
                    first, second = second, first
                apply_mask.save_flag_file(numpy.array(first), date, product.flag_path(os.path.join(root, 'a'), 9, date))
                apply_mask.save_flag_file(numpy.array(second), date, product.flag_path(os.path.join(root, 'b'), 9, date))
                wrong = (second & bit('AREAL_LOW_FLAG')) != 0
                corrected = numpy.where(wrong, (second & ~numpy.uint16(bit('AREAL_LOW_FLAG'))) | numpy.uint16(bit('MISSING_MARINE_FLAG')), second)
                expected.append(first | corrected.astype(numpy.uint16))
            merge_flag_files.merging_operation('%04d-01-01' % year, month - 1, 9, os.path.join(root, 'a'), os.path.join(root, 'b'), os.path.join(root, 'o'))
            outputs = glob.glob(os.path.join(root, 'o', '*', '*.nc'))
            require(len(outputs) == days, lambda: '%d merged files for %d days' % (len(outputs), days))
            for d in range(days):
                date = datetime.datetime(year, month, d + 1)
                raw = product.read_raw(product.flag_path(os.path.join(root, 'o'), 9, date))['tas_qc'][0][0]
                bad = numpy.argwhere(raw != expected[d])
                require(len(bad) == 0, lambda: 'merged flags on %s: 0x%04x, expected 0x%04x' % (date.date(), raw[tuple(bad[0])], expected[d][tuple(bad[0])]))
                rec.step()
                rec.state((d, int(raw.sum())))


class Cutover(Harness):
    """Months masked one after another by the same process: each by its own year and no other."""
    name = 'cutover'
    chunk = 1
    timeout = 300
    ROWS, COLUMNS = 8, 38

    def cases(self, tier):
        months = [(2012, 1), (2012, 12), (2013, 1), (2013, 12), (2014, 6)]
        if tier == 'thorough':
            months = [(1850, 1), (1912, 12)] + [(y, m) for y in (2012, 2013) for m in range(1, 13)] + [(2015, 12), (2112, 1)]
        for first in months:
            for second in months:
                if first != second and (tier == 'quick' or first[1] in (1, 6, 12)):
                    yield dict(months=[first, second])

    def bounds(self, tier):
        return 'every ordered pair of %d months in one process, every single flag and no flag x 6 coast kinds on every day' % (5 if tier == 'quick' else 28)

    def run(self, case, rec):
        rows, columns = self.ROWS, self.COLUMNS
        inner = numpy.arange((rows - 2) * (columns - 2))
        words, coast = numpy.zeros((rows, columns), numpy.uint16), numpy.zeros((rows, columns), numpy.float32)
        singles = numpy.array([0] + [1 << n for n in range(16)] + [0xffff], numpy.uint16)
        words[1:-1, 1:-1] = singles[inner % 18].reshape(rows - 2, columns - 2)
        coast[1:-1, 1:-1] = COAST[(inner // 18) % 6].reshape(rows - 2, columns - 2)
        coast[0, :], coast[-1, :] = 100.0, 0.0
        with scratch() as root, product.grid(rows, columns), product.ancillary(root), quiet():
            product.write_map(os.path.join(root, 'coastal_influence.test.0.25_0.25.nc'), 'coastal_influence', coast)
            marine = marine_map(coast)
            raws = {kind: [(v, codes(n * 31 + k).ravel()[:rows * columns].reshape(rows, columns)) for k, (v, _) in enumerate(inputs(kind, 0, 1))] for n, kind in enumerate(KINDS)}
            for year, month in case['months']:
                for d in range(calendar.monthrange(year, month)[1]):
                    date, first = datetime.datetime(year, month, d + 1), datetime.datetime(year, month, 1)
                    for kind in KINDS:
                        path = product.analysis_path(os.path.join(root, 'in'), kind, 9, date)
                        if d == 0:
                            product.write_fields(path, date, [(v, unpack(v, raw)) for v, raw in raws[kind]])
                        else:
                            os.link(product.analysis_path(os.path.join(root, 'in'), kind, 9, first), path)
                    path = product.flag_path(os.path.join(root, 'f'), 9, date)
                    if d == 0:
                        apply_mask.save_flag_file(words.copy(), date, path)
                    else:
                        os.link(product.flag_path(os.path.join(root, 'f'), 9, first), path)
            for year, month in case['months']:
                apply_mask.masking_operation('%04d-01-01' % year, month - 1, os.path.join(root, 'in'), 9, os.path.join(root, 'f'), None, os.path.join(root, 'out%04d%02d' % (year, month)))
                mask = expected_mask(words, marine, year)
                files = [os.path.join(folder, name) for folder, _, names in os.walk(os.path.join(root, 'out%04d%02d' % (year, month))) for name in names]
                days = calendar.monthrange(year, month)[1]
                require(len(files) == 4 * days and {f[-11:-3] for f in files} == {'%04d%02d%02d' % (year, month, d + 1) for d in range(days)}, lambda: '%d files for %d days of %d-%02d' % (len(files), days, year, month))
                for path in files:
                    rec.step()
                    kind = ([k for k in KINDS[1:] if k in os.path.basename(path)] + [KINDS[0]])[0]
                    content = product.read_raw(path)
                    for v, raw in raws[kind]:
                        Masking.compare(content[v.name][0][0], raw, mask, v, words, marine, '%s in %s, months in order %r' % (v.name, os.path.basename(path), case['months']))
                rec.state((year, month, int(mask.sum())))


HARNESSES = [FlagFile(), Merge(), Masking(), Cutover()]
