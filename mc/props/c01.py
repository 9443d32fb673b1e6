"""C01: each operation sees exactly the inputs its time step calls for."""
import itertools

from mc import cat
from mc.core import Harness
from mc.env import scratch

DAILY = ['%Y/', 'd_%Y%m%d.bin']
HOURLY = ['%Y/', 'h_%Y%m%d%H.bin']
FLAT = ['f_%Y%m%d.bin']
STATIC = ['static.bin']
MONTHLY = ['m_%Y%m.bin']
YEARLY = ['%Y/', 'y.bin']
POLICIES = ['not_allowed', 'allowed', 'skip']
START = '20031231'   # steps cross a year and a month boundary


def names(patterns, offsets, start=START, hour=0):
    import datetime
    return [cat.name_at(patterns, cat.day(start, o) + datetime.timedelta(hours=hour)) for o in offsets]


def subsets(items):
    items = list(items)
    return [list(c) for n in range(len(items) + 1) for c in itertools.combinations(items, n)]


class Base(Harness):
    chunk = 8

    def setup(self):
        cat.setup()

    def run(self, case, rec):
        with scratch() as root:
            cat.check_system(root, case, rec)


def op(inputs, step, **more):
    return dict(dict(name='op1', step=step, inputs=inputs, out=None), **more)


class OneInput(Base):
    """One daily input: every presence pattern of the days before, in and after the period x kind x policy x run module style."""
    name = 'one-input'

    def bounds(self, tier):
        return 'period of %d days, all subsets of days -1..n, file/list x 3 policies x 3 parameter styles' % (3 if tier == 'quick' else 5)

    def cases(self, tier):
        n = 3 if tier == 'quick' else 5
        files = names(DAILY, range(-1, n + 1))
        decoy = names(FLAT, range(0, n))
        for present in subsets(files):
            for kind in ('file', 'list'):
                for policy in POLICIES:
                    for style in ('function', 'nested', 'class'):
                        if style == 'class' and kind == 'file':
                            continue
                        yield dict(start=START, data={'other': [[FLAT, decoy]], 'x': [[FLAT, decoy], [DAILY, present]]},
                                   ops=[op({'a': ['x', 1, kind, policy]}, ['daily', 0, n], style=style,
                                           extras=['steptime', 'stepindex'] if style == 'function' else [])])


class SubDaily(Base):
    """Several files per day at different hours, including the day before the start and the day after the end."""
    name = 'sub-daily'

    def bounds(self, tier):
        return '2 days, all subsets of 2 hours of days -1..2, file/list x 3 policies; 3 further divisions of day and hour between folder and name'

    def cases(self, tier):
        for case in self.split(tier):
            yield case
        n = 2
        hours = (0, 18) if tier == 'quick' else (0, 6, 23)
        offsets = range(-1, n + 1) if tier == 'quick' else (-1, 0, 1, 2)
        files = [f for o in offsets for h in hours for f in names(HOURLY, [o], hour=h)]
        if tier != 'quick':
            files = [f for f in files if not f.endswith('06.bin')] + names(HOURLY, [0], hour=6)
        for present in subsets(files):
            for kind in ('file', 'list'):
                for policy in POLICIES:
                    if kind == 'file' and policy == 'allowed' and tier == 'quick':
                        continue
                    yield dict(start=START, data={'x': [[HOURLY, present]]}, ops=[op({'a': ['x', 0, kind, policy]}, ['daily', 0, n])])


    def split(self, tier):
        """Date in the folder, hour in the name, and parts of the date in both."""
        for patterns in (['%Y/%m/%d/', 'x_%H.bin'], ['%Y/%m/', 'x_%d%H.bin'], ['%d/', 'x_%H_%Y%m.bin']):
            files = [f for o in (-1, 0, 1) for h in (0, 18) for f in names(patterns, [o], hour=h)]
            for present in subsets(files):
                for kind in ('file', 'list'):
                    for policy in ('skip', 'allowed') if tier == 'quick' else POLICIES:
                        if kind == 'list' or tier != 'quick':
                            yield dict(start=START, data={'x': [[patterns, present]]}, ops=[op({'a': ['x', 0, kind, policy]}, ['daily', 0, 2])])


class Coarse(Base):
    """Inputs whose names do not identify the day: fixed, monthly and yearly files shared between steps."""
    name = 'shared-files'

    def bounds(self, tier):
        return '3 days over a year end, all presence subsets of static, 3 monthly and 3 yearly files x kinds x policies'

    def cases(self, tier):
        n = 3
        for patterns, files in ((STATIC, ['static.bin', 'other.bin']), (MONTHLY, ['m_200311.bin', 'm_200312.bin', 'm_200401.bin', 'm_200402.bin']),
                                (YEARLY, ['2002/y.bin', '2003/y.bin', '2004/y.bin'])):
            for present in subsets(files):
                for kind in ('file', 'list'):
                    for policy in POLICIES:
                        for first in ((0,) if tier == 'quick' else (-1, 0, 1)):
                            # 'other.bin' is in the folder but follows no pattern of the data set
                            data = {'x': [[patterns, [f for f in present if f != 'other.bin']]]}
                            if 'other.bin' in present:
                                data['x'].append([['other.bin'], ['other.bin']])
                            yield dict(start=START, data=data, ops=[op({'a': ['x', 0, kind, policy]}, ['daily', first, n])])


class Once(Base):
    """Operations without time steps take all entries of their inputs."""
    name = 'single-step'

    def bounds(self, tier):
        return 'all subsets of 4 files x kinds x policies'

    def cases(self, tier):
        files = names(DAILY, range(4))
        for present in subsets(files):
            for kind in ('file', 'list'):
                for policy in POLICIES:
                    yield dict(start=START, data={'x': [[DAILY, present]]}, ops=[op({'a': ['x', 0, kind, policy]}, ['once'])])


class TwoInputs(Base):
    """Two inputs with policies of their own: a gap in one must not shift the other."""
    name = 'two-inputs'

    def bounds(self, tier):
        return '%d days, all pairs of presence subsets x all pairs of policies (x kinds in thorough)' % 3

    def cases(self, tier):
        n = 3
        fa, fb = names(DAILY, range(n)), names(FLAT, range(n))
        kinds = [('file', 'list'), ('list', 'file')] if tier == 'quick' else list(itertools.product(('file', 'list'), repeat=2))
        for i, (pa, pb) in enumerate(itertools.product(subsets(fa), subsets(fb))):
            for qa, qb in itertools.product(POLICIES, POLICIES):
                for ka, kb in kinds if tier != 'quick' else [kinds[i % 2]]:
                    yield dict(start=START, data={'x': [[DAILY, pa]], 'y': [[FLAT, pb]]},
                               ops=[op({'a': ['x', 0, ka, qa], 'b': ['y', 0, kb, qb]}, ['daily', 0, n],
                                       extras=['steptime', 'stepindex', 'timestamp', 'catalogue'])])


class Extra(Base):
    """Missing data sets and subsets are refused; sub-ranges of the data select the right days."""
    name = 'subset-and-range'

    def bounds(self, tier):
        return 'all sub-ranges of a 4-day data set x all presence subsets x list/skip; absent data set or subset index'

    def cases(self, tier):
        n = 4
        files = names(FLAT, range(n))
        for present in subsets(files):
            for first in range(-1, n):
                for length in range(1, n - first + 1):
                    if tier == 'quick' and length not in (1, 2):
                        continue
                    yield dict(start=START, data={'x': [[FLAT, present]]}, ops=[op({'a': ['x', 0, 'list', 'skip']}, ['daily', first, length], extras=['steptime'])])
        for dataset, subset in (('x', 1), ('nosuch', 0), ('x', -1)):
            for policy in POLICIES:
                yield dict(start=START, data={'x': [[FLAT, files]]}, ops=[op({'a': [dataset, subset, 'file', policy]}, ['daily', 0, 2])])


class Layouts(Base):
    """Every way of dividing the date between folder and file name: names that identify the day and names that do not."""
    name = 'layouts'
    LAYOUTS = [['%Y/%m/', 'x_%d.bin'], ['%Y%m%d/', 'x.bin'], ['%Y/', 'x_%m%d.bin'], ['%m/%d/', 'x_%Y.bin'], ['%d_%m/', '%Y.bin'], ['x%d%m%Y.bin'],
               ['%Y/%m/', 'x.bin'], ['%m/', 'x_%Y.bin']]

    def bounds(self, tier):
        return '%d layouts of folder and file name, 3 days over a year end and the days around, all presence subsets x kinds x policies' % len(self.LAYOUTS)

    def cases(self, tier):
        n = 3
        for patterns in self.LAYOUTS:
            files = sorted(set(names(patterns, range(-1, n + 1))))
            for i, present in enumerate(subsets(files)):
                for j, (kind, policy) in enumerate(itertools.product(('file', 'list'), POLICIES)):
                    if tier == 'quick' and (i + j) % 2:
                        continue
                    yield dict(start=START, data={'x': [[patterns, present]]}, ops=[op({'a': ['x', 0, kind, policy]}, ['daily', 0, n])])


HARNESSES = [OneInput(), SubDaily(), Coarse(), Once(), TwoInputs(), Extra(), Layouts()]
ASSUMPTIONS = ['the Python 3 translation of the sources (the one the repository tests run on) has the behaviour of the sources',
               'steps start at midnight; file names carry the time of the file']
