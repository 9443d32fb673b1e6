"""C08: times map to steps and numbers and back without loss."""
import datetime
import itertools
import os
import subprocess
from fractions import Fraction

import numpy

from mc import cpp
from mc.core import Harness, require
from mc.env import quiet

from eumopps.catalogue.step import StepDaily, StepOnce
from eumopps.timeutils import datetime_dictionary, datetime_numeric
from eumopps.timeutils.timebase import TimeBaseDays, TimeBaseSeconds, TimeBaseAnnual, TimeBaseMonthly
from eustace.timeutils import epoch
from eustace.timeutils.decimaltime import datetime_to_decimal_year
from eustace.analysis.advanced_standard.elements import seasonal
from eustace.analysis.advanced_standard.fileio.step import StepDailyEpoch
from eustace.analysis.advanced_standard.examples.step import StepAnnual, StepMonthly

D = datetime.datetime
DAY = datetime.timedelta(days=1)
US = datetime.timedelta(microseconds=1)
CLOCK = [(0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 1, 0), (0, 59, 59, 999999), (6, 0, 0, 0), (11, 59, 59, 0), (12, 0, 0, 0), (12, 0, 0, 500000),
         (18, 30, 15, 250000), (23, 59, 59, 0), (23, 59, 59, 999999)]
EPOCHS = [D(1850, 1, 1), D(1970, 1, 1), D(2000, 2, 29, 12), D(1900, 3, 1), D(1858, 11, 17)]


def clock(t):
    return t.replace(hour=0, minute=0, second=0, microsecond=0)


def days_of(year):
    t = D(year, 1, 1)
    while t.year == year:
        yield t
        t += DAY


class Calendar(Harness):
    """Every day of the calendar range, every time of day of the alphabet, every conversion and its inverse."""
    name = 'calendar'
    chunk = 2

    def bounds(self, tier):
        return 'every day of %s x %d times of day x %d epochs x every conversion' % (self.years(tier) if tier == 'quick' else '1600-2200', len(CLOCK), len(EPOCHS))

    def years(self, tier):
        return [1700, 1800, 1848, 1849, 1850, 1899, 1900, 1901, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2014, 2015, 2016, 2099, 2100] if tier == 'quick' else list(range(1600, 2201))

    def cases(self, tier):
        for y in self.years(tier):
            yield dict(year=y)

    def run(self, case, rec):
        previous = None
        for t0 in days_of(case['year']):
            for h, m, s, u in CLOCK:
                t = t0.replace(hour=h, minute=m, second=s, microsecond=u)
                rec.step()
                for e in EPOCHS:
                    exact = t - e
                    base = TimeBaseDays(e)
                    n = base.datetime_to_number(t)
                    want = Fraction(exact // US, 86400 * 10 ** 6)
                    require(abs(Fraction(float(n)) - want) < Fraction(1, 10 ** 9), lambda: '%s is %r days after %s, expected %s' % (t, n, e, float(want)))
                    back = base.number_to_datetime(n)
                    require(abs(back - t) <= 5 * US, lambda: '%s became %r days and then %s' % (t, n, back))
                    require(u == 999999 or numpy.floor(n) == exact.days, lambda: '%s: whole days after %s: %s, expected %s' % (t, e, numpy.floor(n), exact.days))
                    if u == 0:
                        base = TimeBaseSeconds(e)
                        n = base.datetime_to_number(t)
                        require(n == exact // datetime.timedelta(seconds=1), lambda: '%s is %s seconds after %s' % (t, n, e))
                        require(base.number_to_datetime(n) == t, lambda: '%s became %s seconds and then %s' % (t, n, base.number_to_datetime(n)))
                # product epoch
                n = epoch.days_since_epoch(t)
                require(abs(epoch.epoch_plus_days(n) - t) <= 5 * US and (u == 999999 or numpy.floor(n) == (t - D(1850, 1, 1)).days), lambda: 'day number of %s is %r' % (t, n))
                if u == 0:
                    n = epoch.seconds_since_epoch(t)
                    require(epoch.epoch_plus_seconds(n) == t and n == (t - D(1850, 1, 1)).total_seconds(), lambda: 'second number of %s is %r' % (t, n))
                # parts of years and months
                y0, y1 = D(t.year, 1, 1), D(t.year + 1, 1, 1)
                part = Fraction((t - y0) // US, (y1 - y0) // US)
                for f in (datetime_to_decimal_year, getattr(seasonal, 'datetime_to_decimal_year', datetime_to_decimal_year)):
                    n = f(t)
                    require(abs(Fraction(float(n)) - t.year - part) < Fraction(1, 10 ** 11), lambda: 'decimal year of %s is %r' % (t, n))
                if u == 0:
                    n = datetime_to_decimal_year(t)
                    require(previous is None or n > previous, lambda: 'decimal years do not increase at %s' % t)
                    previous = n
                if u == 0:
                    for e in (D(1850, 1, 1), D(1999, 1, 1)):
                        base = TimeBaseAnnual(e)
                        n = base.datetime_to_number(t)
                        require(numpy.floor(n) == t.year - e.year, lambda: '%s falls in year %s after %s' % (t, n, e.year))
                        require(abs(base.number_to_datetime(n) - t) <= datetime.timedelta(seconds=1), lambda: '%s became %r years and then %s' % (t, n, base.number_to_datetime(n)))
                    for e in (D(1850, 1, 1), D(1999, 7, 1)):
                        base = TimeBaseMonthly(e)
                        n = base.datetime_to_number(t)
                        require(numpy.floor(n) == (t.year - e.year) * 12 + t.month - e.month, lambda: '%s falls in month %s after %s' % (t, n, e))
                        require(abs(base.number_to_datetime(n) - t) <= datetime.timedelta(seconds=1), lambda: '%s became %r months and then %s' % (t, n, base.number_to_datetime(n)))
                # text
                if u == 0:
                    text = '%04d%02d%02d%02d%02d%02d' % (t.year, t.month, t.day, t.hour, t.minute, t.second)
                    require(datetime_numeric.build(t) == text, lambda: '%s written as %s' % (t, datetime_numeric.build(t)))
                    require(datetime_numeric.parse(text) == t, lambda: '%s read as %s' % (text, datetime_numeric.parse(text)))
                    require(datetime_numeric.build_from_pattern('%S-%M-%H_%d%m/%Y%Y', t) == '%02d-%02d-%02d_%02d%02d/%04d%04d' % (t.second, t.minute, t.hour, t.day, t.month, t.year, t.year),
                            lambda: '%s written as %s' % (t, datetime_numeric.build_from_pattern('%S-%M-%H_%d%m/%Y%Y', t)))
                    fields = dict(year=str(t.year), month='%02d' % t.month, day='%02d' % t.day, hour='%02d' % t.hour, minute='%02d' % t.minute, second='%02d' % t.second)
                    require(datetime_dictionary.parse(dict(fields, A='tag')) == t, lambda: '%s read as %s' % (fields, datetime_dictionary.parse(fields)))
            part = dict(year=str(t0.year), month='%02d' % t0.month, day='%02d' % t0.day)
            require(datetime_dictionary.parse(part) == t0, 'a date without a time of day is not midnight')
            del part['day']
            require(datetime_dictionary.parse(part) == t0.replace(day=1), 'a month is not read as its first day')
            del part['month']
            require(datetime_dictionary.parse(part) == D(t0.year, 1, 1), 'a year is not read as its first day')
        rec.outcome(case['year'])


def starts(tier):
    first = [D(1999, 12, 30), D(2000, 2, 27), D(1900, 2, 27), D(1850, 1, 1), D(1849, 12, 30), D(2003, 6, 29)]
    return first if tier == 'quick' else first + [D(1904, 2, 27), D(2100, 2, 26), D(1799, 12, 29), D(1970, 1, 1)]


class Steps(Harness):
    """Step sequences: every start and end in windows, every probing time around them."""
    name = 'steps'
    chunk = 4
    PROBES = [datetime.timedelta(0), US, datetime.timedelta(hours=6), datetime.timedelta(hours=12), datetime.timedelta(hours=23, minutes=59, seconds=59, microseconds=999999)]

    def bounds(self, tier):
        return 'all start and end days in windows of %d days at %d places x times of day of both x probes on 3 days either side' % (6 if tier == 'quick' else 12, len(starts(tier)))

    def cases(self, tier):
        width = 6 if tier == 'quick' else 12
        for k, s in enumerate(starts(tier)):
            for kind in ('daily', 'epoch', 'annual', 'monthly'):
                for a in range(width):
                    for sh in (0, 12):
                        yield dict(start=s.strftime('%Y%m%d'), kind=kind, first=a, hour=sh, width=width)

    def run(self, case, rec):
        base = D.strptime(case['start'], '%Y%m%d')
        kind = case['kind']
        if kind in ('daily', 'epoch'):
            unit = lambda n: base + n * DAY
        elif kind == 'annual':
            unit = lambda n: D(base.year + n, base.month, base.day if (base.month, base.day) != (2, 29) else 28)
        else:
            unit = lambda n: D(base.year + (base.month - 1 + n) // 12, (base.month - 1 + n) % 12 + 1, min(base.day, 28))
        start = unit(case['first']) + datetime.timedelta(hours=case['hour'])
        for b in range(case['first'], case['width']):
            for eh in (0, 6, 12, 18, 23):
                end = unit(b) + datetime.timedelta(hours=eh)
                if end < start or (kind == 'epoch' and start < D(1850, 1, 1)):
                    continue
                self.sequence(kind, start, end, rec)

    def sequence(self, kind, start, end, rec):
        arguments = [start, end]
        if start.microsecond == 0:
            texts = [t.strftime('%Y').zfill(4) + t.strftime('%m%d%H%M%S') for t in arguments]
        with quiet():
            cls = dict(daily=StepDaily, epoch=StepDailyEpoch, annual=StepAnnual, monthly=StepMonthly)[kind]
            step = cls(*arguments)
            count = step.count()
            other = cls(*texts)
            require((other.start, other.end, other.count()) == (step.start, step.end, count), 'steps from text and from times differ')
        if kind == 'daily':
            origin, index = start, lambda t: (t - start).days
            time = lambda i: start + i * DAY
            wanted = list(range(0, (end - start).days + 1))
        elif kind == 'epoch':
            index = lambda t: (t - D(1850, 1, 1)).days
            time = lambda i: D(1850, 1, 1) + i * DAY
            # a step per whole day between start and end
            wanted = list(range(index(start), index(start) + (end - start).days + 1))
        elif kind == 'annual':
            index = lambda t: t.year - start.year
            time = lambda i: D(start.year + i, 1, 1)
            wanted = list(range(0, end.year - start.year + 1))
        else:
            index = lambda t: (t.year - start.year) * 12 + t.month - start.month
            time = lambda i: D(start.year + (start.month - 1 + i) // 12, (start.month - 1 + i) % 12 + 1, 1)
            wanted = list(range(0, index(end) + 1))
        require(count == len(wanted), lambda: '%s steps from %s to %s: %d, expected %d' % (kind, start, end, count, len(wanted)))
        for i in wanted:
            rec.step()
            with quiet():
                t = step.time_at_index(i)
                back = step.index_at_time(t)
                entry = step.create_output_entry(['%Y/', '%m%d%H%M%S'], i)
            require(t == time(i), lambda: '%s step %d from %s is at %s, expected %s' % (kind, i, start, t, time(i)))
            require(back == i, lambda: '%s step %d from %s is at %s which is step %s' % (kind, i, start, t, back))
            require(entry.time == time(i) and entry.name == time(i).strftime('%Y/%m%d%H%M%S'), lambda: '%s step %d: entry %s %s' % (kind, i, entry.name, entry.time))
        around = [start + k * DAY for k in (-400, -31, -2, -1, 0, 1)] + [end + k * DAY for k in (-1, 0, 1, 2, 31, 400)]
        for t0 in around:
            for p in self.PROBES:
                for t in (clock(t0) + p, t0 + p, t0 - US):
                    rec.step()
                    with quiet():
                        got = step.index_at_time(t)
                    # far from the epoch a microsecond is below the resolution of the day number
                    near = kind == 'epoch' and t.microsecond == 999999 and got == index(t + US)
                    require(near or got == index(t), lambda: '%s is step %s of the %s steps from %s, expected %s' % (t, got, kind, start, index(t)))
        rec.outcome((kind, count))
        if kind == 'daily' and count == 1:
            once = StepOnce()
            require(once.count() == 1 and once.index_at_time(start) == 0 and once.create_output_entry(['a/', 'b'], 0).name == 'a/b', 'single step')


class Native(Harness):
    """The C++ calendar, in several time zones of the machine it runs on."""
    name = 'native'
    chunk = 1
    timeout = 400
    ZONES = ['UTC', 'Europe/London', 'America/New_York', 'Asia/Kolkata', 'Pacific/Auckland']

    def bounds(self, tier):
        return 'every day of %d-%d x epochs x machine time zones %s' % ((1800, 2100) + (self.ZONES,))

    def cases(self, tier):
        for zone in self.ZONES:
            for e in ('1850-01-01', '1900-03-01', '2012-03-07'):
                yield dict(zone=zone, epoch=e)

    def run(self, case, rec):
        program = cpp.program('timebase_driver', ['timeutils/timebase.cpp'])
        y, m, d = [int(v) for v in case['epoch'].split('-')]
        e = datetime.date(y, m, d)
        days = [datetime.date(1800, 1, 1) + datetime.timedelta(days=i) for i in range((datetime.date(2101, 1, 1) - datetime.date(1800, 1, 1)).days)]
        text = ''.join('%d %d %d %d\n' % (t.year, t.month, t.day, (t - e).days) for t in days)
        environment = dict(os.environ, TZ=case['zone'])
        result = subprocess.run([program, str(y), str(m), str(d)], input=text, capture_output=True, text=True, env=environment)
        require(result.returncode == 0, lambda: 'driver failed: %s' % result.stderr[:500])
        lines = result.stdout.split('\n')[:-1]
        require(len(lines) == len(days), 'driver stopped early')
        for t, line in zip(days, lines):
            rec.step()
            n = (t - e).days
            name = '%04d%02d%02d' % (t.year, t.month, t.day)
            require(line == '%d %d %s %s %s' % (n, n, name, name, name), lambda: 'zone %s epoch %s: %s (%d days) gave %s' % (case['zone'], e, name, n, line))
        rec.outcome(case['zone'])


HARNESSES = [Calendar(), Steps(), Native()]
ASSUMPTIONS = ['a number of days is a double, so a microsecond before midnight may count as midnight; seconds and parts of years and months are compared for times in whole seconds; a step sequence ends at or after its start']
