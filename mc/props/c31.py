"""C31: windowed and calendar quality checks flag exactly the under-supported days."""
import calendar
import datetime
import itertools
import os

import numpy

from mc import product
from mc.core import Harness, require
from mc.env import quiet, scratch

from eustace.postprocess import flags

with quiet():
    from eustace.postprocess import apply_mask, window_check, calendar_check, outlier_window_check


def bit(name):
    return numpy.uint16(int(getattr(flags, name)))


DAY, PRIOR, POST = bit('DAY_FLAG'), bit('PRIOR_WINDOW_FLAG'), bit('POST_WINDOW_FLAG')
ALL = numpy.uint16(0xffff)
NEAR = DAY | PRIOR | POST
OUTLIERS = [bit(n) for n in ('AREAL_LOW_FLAG', 'AREAL_HIGH_FLAG', 'EXTREME_LOW_FLAG', 'EXTREME_HIGH_FLAG')]
OTHER = bit('CLIMATOLOGY_UNC_FLAG') | bit('MISSING_MARINE_FLAG') | bit('LOCATION_HIGH_FLAG')


def histories(alphabet, length):
    """One history per grid cell: list of grids, one per day."""
    n = len(alphabet) ** length
    rows = 1
    while rows * rows < n:
        rows *= 2
    index = numpy.arange(rows * rows)
    days = [numpy.array(alphabet, numpy.uint16)[(index // len(alphabet) ** k) % len(alphabet)].reshape(rows, rows) for k in range(length)]
    return days, rows


def add_years(date, years):
    try:
        return date.replace(year=date.year + years)
    except ValueError:
        return date.replace(year=date.year + years, day=28)


def window_expected(words, centre, present, before, after, threshold, target):
    constrained = [((w & target) != target) & p for w, p in zip(words, present)]
    zero = numpy.zeros(words[0].shape, int)
    prior = sum([constrained[i].astype(int) for i in before], zero)
    post = sum([constrained[i].astype(int) for i in after], zero)
    result = words[centre].copy()
    result[prior < threshold] |= PRIOR
    result[post < threshold] |= POST
    return result


def calendar_expected(words, centre, present, target):
    constrained = [(((w & target) != target) & p).astype(int) for w, p in zip(words, present)]
    zero = numpy.zeros(words[0].shape, int)
    prior, post = sum(constrained[:centre], zero), sum(constrained[centre + 1:], zero)
    result = words[centre].copy()
    result[prior < 1] |= bit('PRIOR_CALENDAR_FLAG')
    result[post < 1] |= bit('POST_CALENDAR_FLAG')
    result[prior + post + constrained[centre] < 3] |= bit('MISSING_FLAG_FLAG')
    return result


def outlier_expected(words, centre, present, threshold):
    bad = sum([(((w & sum(OUTLIERS)) != 0) & p).astype(int) for w, p in zip(words, present)], numpy.zeros(words[0].shape, int))
    result = words[centre].copy()
    result[bad >= threshold] |= bit('PERSISTANT_OUTLIER_FLAG')
    return result


def compare(got, want, words, text):
    got = numpy.asarray(got).reshape(want.shape)
    bad = numpy.argwhere(got != want)
    if len(bad):
        cell = tuple(bad[0])
        require(False, '%s: history %s gives 0x%04x, expected 0x%04x (%d of %d histories differ)' % (
            text, ['0x%04x' % w[cell] for w in words], got[cell], want[cell], len(bad), want.size))


class Store(object):
    """Flag files of a history of days, written once and linked into the input directory of each execution."""
    def __init__(self, words, dates, rows):
        import tempfile
        self.root = tempfile.mkdtemp()
        self.words, self.dates, self.rows = words, dates, rows
        with product.grid(rows, rows), quiet():
            for w, d in zip(words, dates):
                apply_mask.save_flag_file(w.copy(), d, product.flag_path(self.root, 9, d))

    def link(self, folder, present):
        for w, d, p in zip(self.words, self.dates, present):
            target = product.flag_path(folder, 9, d)
            os.makedirs(os.path.dirname(target), exist_ok=True)
            if p == 1:
                os.symlink(product.flag_path(self.root, 9, d), target)
            elif p == 2:
                with open(target, 'wb') as f:
                    f.write(b'CDF\x01 cut short')
            elif p == 3:
                open(target, 'wb').close()


class Histories(Harness):
    chunk = 8
    timeout = 120

    def __init__(self):
        self.stores = {}

    def store(self, alphabet, dates):
        key = (tuple(int(a) for a in alphabet), tuple(dates))
        if key not in self.stores:
            words, rows = histories(alphabet, len(dates))
            self.stores[key] = Store(words, dates, rows)
        return self.stores[key]

    def execute(self, store, present, centre, action, expected, rec, text):
        with scratch() as root, product.grid(store.rows, store.rows), quiet():
            store.link(os.path.join(root, 'in'), present)
            try:
                result = action(os.path.join(root, 'in'), os.path.join(root, 'out'))
            except Exception as error:
                require(present[centre] != 1, lambda: '%s: %s: %s with days available %s' % (text, type(error).__name__, error, present))
                rec.step()
                return
        require(present[centre] == 1, lambda: '%s: no flags of its own but a result was produced' % text)
        require(numpy.ma.count_masked(result) == 0, lambda: '%s: missing flags' % text)
        compare(result, expected([bool(p == 1) for p in present]), store.words, '%s, days available %s' % (text, present))
        rec.step(len(present))
        rec.state(numpy.asarray(result).tobytes())


def presence(n, centre, tier):
    patterns = [list(p) for p in itertools.product((1, 0), repeat=n) if p[centre]]
    patterns.append([0 if i == centre else 1 for i in range(n)])
    for i in range(n):
        patterns.append([2 if j == i else 1 for j in range(n)])
        patterns.append([3 if j == i else 1 for j in range(n)])
    return patterns


class Window(Histories):
    name = 'window'
    DATES = ['2012-03-01', '1900-02-28', '1999-12-31', '2000-02-29']

    def cases(self, tier):
        widths = [1, 2] if tier == 'quick' else [1, 2, 3]
        for w in widths:
            for k, date in enumerate(self.DATES):
                for target in ('day', 'near'):
                    if tier == 'quick' and (k + (target == 'near')) % 2:
                        continue
                    for present in presence(2 * w + 1, w, tier):
                        for threshold in range(0, w + 2):
                            if w == 3 and threshold not in (1, 3):
                                continue
                            yield dict(window=w, date=date, target=target, present=present, threshold=threshold)

    def bounds(self, tier):
        return 'all histories over 4 flag words x window half-widths 1-%d x every pattern of unavailable or unreadable days x thresholds 0..w+1 x dates at month, leap and century ends' % (2 if tier == 'quick' else 3)

    def run(self, case, rec):
        w = case['window']
        date = datetime.datetime.strptime(case['date'], '%Y-%m-%d')
        dates = [date + datetime.timedelta(days=k) for k in range(-w, w + 1)]
        target = DAY if case['target'] == 'day' else NEAR
        alphabet = [0, DAY, OTHER | POST, ALL] if case['target'] == 'day' else [0, NEAR, DAY | POST, NEAR | OTHER]
        store = self.store(alphabet, dates)
        self.execute(store, case['present'], w,
                     lambda i, o: window_check.local_window_constraint_checks(i, o, 9, date, w, case['threshold'], target),
                     lambda present: window_expected(store.words, w, present, range(0, w), range(w + 1, 2 * w + 1), case['threshold'], target),
                     rec, 'window check on %s' % case['date'])


class Persistent(Histories):
    name = 'persistent'

    def cases(self, tier):
        for w in ([1, 2] if tier == 'quick' else [1, 2, 3]):
            for date in (['2012-02-29', '1999-12-31'] if tier == 'quick' else ['2012-02-29', '1900-03-01', '1999-12-31']):
                for present in presence(2 * w + 1, w, tier):
                    for threshold in range(0, 2 * w + 3):
                        if w == 3 and threshold not in (1, 4, 7):
                            continue
                        yield dict(window=w, date=date, present=present, threshold=threshold, variant=(threshold + sum(present)) % 2)

    def bounds(self, tier):
        return 'all histories over 4 flag words (each outlier flag, none, others) x window half-widths 1-%d x every pattern of unavailable days x all thresholds' % (2 if tier == 'quick' else 3)

    def run(self, case, rec):
        w = case['window']
        date = datetime.datetime.strptime(case['date'], '%Y-%m-%d')
        dates = [date + datetime.timedelta(days=k) for k in range(-w, w + 1)]
        alphabet = [0, OUTLIERS[0], OUTLIERS[1] | OUTLIERS[3] | OTHER, OTHER] if case['variant'] else [OUTLIERS[2], OUTLIERS[3], NEAR | OTHER, OUTLIERS[0] | OUTLIERS[2]]
        store = self.store(alphabet, dates)
        self.execute(store, case['present'], w,
                     lambda i, o: outlier_window_check.persistant_outlier_check(i, o, 9, date, w, case['threshold']),
                     lambda present: outlier_expected(store.words, w, present, case['threshold']),
                     rec, 'persistent outlier check on %s' % case['date'])


class Calendar(Histories):
    name = 'calendar'

    def cases(self, tier):
        spans = [(2011, 2012), (2010, 2013)] if tier == 'quick' else [(2012, 2012), (2011, 2012), (2010, 2013), (1999, 2003), (1898, 1904)]
        for start, end in spans:
            years = list(range(start, end + 1))
            for ref in years:
                for md in ((2, 29), (2, 28), (12, 31)):
                    if md == (2, 29) and not calendar.isleap(ref):
                        continue
                    patterns = presence(len(years), years.index(ref), tier)
                    if len(years) > 5:
                        patterns = patterns[::5]
                    for present in patterns:
                        yield dict(start=start, end=end, ref=[ref, md[0], md[1]], present=present)

    def bounds(self, tier):
        return 'all histories over 4 flag words x spans of up to %d years x every reference year x every pattern of unavailable years, leap days included' % (4 if tier == 'quick' else 7)

    def run(self, case, rec):
        date = datetime.datetime(*case['ref'])
        years = list(range(case['start'], case['end'] + 1))
        dates = [add_years(date, y - date.year) for y in years]
        centre = years.index(date.year)
        alphabet = [0, NEAR, DAY | PRIOR, NEAR | OTHER] if len(years) < 6 else [0, NEAR]
        store = self.store(alphabet, dates)
        self.execute(store, case['present'], centre,
                     lambda i, o: calendar_check.calendar_constraint_checks(i, o, 9, date, case['start'], case['end'], NEAR),
                     lambda present: calendar_expected(store.words, centre, present, NEAR),
                     rec, 'calendar check on %s' % date.date())


class Month(Harness):
    """Operations over a month: each day from its own window, written to its own file."""
    name = 'month'
    chunk = 1
    timeout = 300

    def cases(self, tier):
        for kind in ('window', 'persistent', 'calendar'):
            for month in ([(2012, 2), (2012, 12)] if tier == 'quick' else [(2012, 2), (2012, 12), (2013, 1), (1900, 2), (2000, 2)]):
                for gap in (0, 1):
                    yield dict(kind=kind, month=month, gap=gap)

    def bounds(self, tier):
        return 'operations over whole months (leap February, year end), with and without gaps in the input days, 256 patterns of histories'

    def run(self, case, rec):
        year, month = case['month']
        kind = case['kind']
        n = calendar.monthrange(year, month)[1]
        days = [datetime.datetime(year, month, d + 1) for d in range(n)]
        alphabet = numpy.array([0, NEAR, OUTLIERS[0] | DAY, OUTLIERS[3] | NEAR | OTHER, DAY, OTHER, OUTLIERS[1]], numpy.uint16)
        cells = numpy.arange(256).reshape(16, 16)

        def words(date):
            k = date.toordinal()
            return alphabet[(cells * (k % 5 + 1) + (cells // 16) * k + k * k) % 7]

        if kind == 'calendar':
            groups = {d: [add_years(d, y) for y in (-2, -1, 0, 1)] for d in days}
        else:
            groups = {d: [d + datetime.timedelta(days=k) for k in range(-3, 4)] for d in days}
        dates = sorted({d for g in groups.values() for d in g})
        gone = {d for i, d in enumerate(dates) if case['gap'] and d not in days and i % 2}
        with scratch() as root, product.grid(16, 16), quiet():
            for d in dates:
                if d not in gone:
                    apply_mask.save_flag_file(words(d), d, product.flag_path(os.path.join(root, 'in'), 9, d))
            reference = '%04d-01-01' % (year - 1)
            index = 12 + month - 1
            if kind == 'window':
                window_check.flagging_operation(reference, index, os.path.join(root, 'in'), 9, os.path.join(root, 'out'), 3, 2, DAY)
            elif kind == 'persistent':
                outlier_window_check.flagging_operation(reference, index, os.path.join(root, 'in'), 9, os.path.join(root, 'out'), 3, 3)
            else:
                calendar_check.flagging_operation(reference, index, os.path.join(root, 'in'), 9, os.path.join(root, 'out'), year - 2, year + 1)
            produced = sorted(f for _, _, names in os.walk(os.path.join(root, 'out')) for f in names)
            require(len(produced) == n, lambda: '%d files for %d days' % (len(produced), n))
            for d in days:
                group = groups[d]
                series = [words(g) for g in group]
                present = [g not in gone for g in group]
                centre = group.index(d)
                if kind == 'window':
                    want = window_expected(series, centre, present, range(0, 3), range(4, 7), 2, DAY)
                elif kind == 'persistent':
                    want = outlier_expected(series, centre, present, 3)
                else:
                    want = calendar_expected(series, centre, present, NEAR)
                raw = product.read_raw(product.flag_path(os.path.join(root, 'out'), 9, d))['tas_qc'][0][0]
                compare(raw, want, series, '%s operation, %s' % (kind, d.date()))
                rec.step(len(group))
                rec.state((kind, str(d), raw.tobytes()))


HARNESSES = [Window(), Persistent(), Calendar(), Month()]
