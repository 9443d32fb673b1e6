"""C22: binary observation files reproduce every observation at its own place and time."""
import builtins
import contextlib
import datetime
import io
import itertools
import json
import os
import struct
import subprocess
import sys
import uuid

import numpy

from mc import cpp
from mc.core import Harness, Violation, require
from mc.env import quiet, scratch


class Text(bytes):
    """What reading a binary file gives in the Python the code is written for: comparable with text."""
    def __eq__(self, other):
        return bytes.__eq__(self, other.encode('latin-1') if isinstance(other, str) else other)

    def __ne__(self, other):
        return not self == other

    __hash__ = bytes.__hash__


class Reader(io.BufferedReader):
    def read(self, *arguments):
        return Text(io.BufferedReader.read(self, *arguments))


_open = builtins._py2_open


def binary_open(file, mode='r', *arguments, **options):
    if mode == 'rb':
        return Reader(io.FileIO(file, 'r'))
    return _open(file, mode, *arguments, **options)


builtins._py2_open = binary_open

with quiet():
    from eustace.analysis import inspectinput, obscount, obscountsources, preparelocationpointers
    from eustace.analysis.fileio import locationpointers, observationsource_missing
    from eustace.analysis.fileio import observationsource_rawbinary as raw
    from eustace.analysis.observationsource import Observations

SOURCES = ['surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice', 'surfaceairmodel_lake', 'insitu_land', 'insitu_ocean']
LOOKUP = ['satellite', 'satellite', 'satellite', 'lake', 'insitu_land', None]
OBSERVABLES = ['Tmin', 'Tmax', 'Tmean']
UUIDS = [uuid.UUID('4996797e-f0dc-4495-b91d-4345189fcb71'), uuid.UUID('4996797e-f0dc-4495-b91d-4345189fcb72'), uuid.UUID('00000000-0000-0000-0000-000000000000')]
EPOCH = datetime.datetime(1850, 1, 1)
# last day of a leap year, first of the next, a leap day
DAYS = [(datetime.datetime(2016, 12, 31) - EPOCH).days, (datetime.datetime(2017, 1, 1) - EPOCH).days, (datetime.datetime(1904, 2, 29) - EPOCH).days]
CPP = ['definitions.cpp', 'timeutils/timebase.cpp', 'analysis/observationsource.cpp', 'analysis/inputmanager.cpp', 'analysis/fileio/rawbinary.cpp', 'analysis/fileio/locationpointers.cpp']

_driver = {}


def ask(*lines):
    """Answers of the C++ input manager to the given queries."""
    process = _driver.get(os.getpid())
    if process is None or process.poll() is not None:
        process = subprocess.Popen([cpp.program('rawbinary_driver', CPP)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        _driver[os.getpid()] = process
    answers = []
    for line in lines:
        try:
            process.stdin.write(line + '\n')
            process.stdin.flush()
            answer = process.stdout.readline().split()
        except BrokenPipeError:
            answer = []
        if not answer:
            raise Violation('the C++ input manager died on %r (exit %r)' % (line, process.wait()))
        answers.append(answer)
    return answers


def real(text):
    return struct.unpack('<d', struct.pack('<Q', int(text, 16)))[0]


def same(a, b):
    return struct.pack('<d', a) == struct.pack('<d', b) or (a != a and b != b)


def observation_list(words, located):
    """[correlation ranges], [(id, measurement, uncorrelated, (correlated...), place)] from the words of an answer (consumes them)."""
    count, k = int(words.pop(0)), int(words.pop(0))
    ranges = [real(words.pop(0)) for i in range(k)]
    rows = []
    for i in range(count):
        row = [int(words.pop(0))] + [real(words.pop(0)) for j in range(2 + k + (2 if located else 0))]
        rows.append(row)
    return ranges, rows


def equal_rows(got, want):
    return len(got) == len(want) and all(len(g) == len(w) and int(g[0]) == int(w[0]) and all(same(float(a), float(b)) for a, b in zip(g[1:], w[1:])) for g, w in zip(got, want))


SPECIAL = {0: 273.15, 1: -0.0, 2: float('nan'), 3: 5e-324}


def values(day, location, k):
    """Distinct values for each field of each observation, a few unusual ones among them."""
    base = 100.0 * (day % 7) + 10 * location
    first = SPECIAL[location % 4] if day % 7 == 2 else base + 0.1
    return [first, base + 1.3] + [base + 2.7 + j for j in range(k)]


def ranges_of(k):
    return [6.6, 5.5, 0.1][:k]


def places(n):
    return numpy.array([[-89.8731234567, 12.1, 0.0, 89.875][:n], [-179.875, 3.3, 179.98765432101, -1e-9][:n]]).reshape(2, n)


def daily(day, entries, k, scalar):
    """Observations object; entries: (location, state), state 'v' valid, 'm' masked, 'f' valid later that day, 'w' of another day."""
    if scalar:
        time = numpy.array(day)
    else:
        time = numpy.array([{'w': day + 1.0, 'f': day + 0.75}.get(s, float(day)) for l, s in entries], float)
    fields = [values(day, l, k) for l, s in entries]
    column = lambda i: numpy.array([f[i] for f in fields], float)
    return Observations(numpy.array([s == 'm' for l, s in entries], bool), time, numpy.array([l for l, s in entries], numpy.uint64), column(0), column(1), [column(2 + j) for j in range(k)])


def written(day, entries, k):
    return [[l] + values(day, l, k) for l, s in entries if s in ('v', 'f')]


def printed(module, *options):
    """What a command prints, read back."""
    before, sys.argv = sys.argv, ['command'] + list(options)
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text):
            module.main()
    finally:
        sys.argv = before
    return json.loads(text.getvalue())


class World(object):
    """A tree of files as the preparation modules leave it."""

    def __init__(self, root, source, observable, k, locations, ids=None):
        self.root, self.source, self.observable, self.k, self.locations = root, source, observable, k, locations
        self.name, self.quantity = SOURCES[source], OBSERVABLES[observable]
        self.mobile = LOOKUP[source] is None
        self.names = raw.ObservationSourceBinaryFilenameGenerator(self.name, root)
        self.id = UUIDS[0]
        self.places = places(locations)
        self.ranges = ranges_of(k)
        self.days = {}
        raw.LocalCorrelationRangeRawBinaryWriter().write(self.rangefile(), self.ranges)
        if not self.mobile:
            self.write_lookup()

    def rangefile(self):
        return self.names.filename_local_correlation_ranges(self.quantity)

    def lookupfile(self, day=None):
        if self.mobile:
            return self.names.filename_mobile_locations(self.quantity, day)
        return os.path.join(self.root, 'locationlookup_%s.bin' % LOOKUP[self.source])

    def pointerfile(self):
        return os.path.join(self.root, '%s_%s_locationpointers.bin' % (self.name, self.quantity))

    def obsfile(self, day):
        return self.names.filename_observations(self.quantity, day)

    def write_lookup(self, day=None, id=None):
        raw.LocationLookupRawBinaryWriter().write(self.lookupfile(day), raw.LocationLookupWithID(id or self.id, self.places))

    def write_day(self, day, entries, scalar=False, id=None):
        raw.ObservationRawBinaryWriter().write_day(self.obsfile(day), id or self.id, daily(day, entries, self.k, scalar), day)
        if self.mobile:
            self.write_lookup(day)
        self.days[day] = written(day, entries, self.k)

    def write_pointers(self, days):
        with quiet():
            preparelocationpointers.run(self.pointerfile(), self.lookupfile(), self.rangefile(), [self.obsfile(d) for d in days])

    # Python readers
    def py_source(self, day):
        lookup = raw.LocationLookupRawBinaryReader().read(self.lookupfile(day))
        ranges = raw.LocalCorrelationRangeRawBinaryReader().read(self.rangefile())
        spec = {self.quantity: raw.ObservableFileSpec(self.obsfile(day), ranges)}
        return raw.ObservationSourceSingleDayRawBinary(lookup, spec, day)

    def py_day(self, day):
        """(ranges, rows) through the observation source interface."""
        source = self.py_source(day)
        o = source.observations(self.quantity)
        require(list(source.observables()) == [self.quantity], 'the source gives observables %r' % (source.observables(),))
        require(not numpy.any(o.mask) and numpy.size(o.mask) == o.number_of_observations(), 'observations read from a file are marked invalid: %r' % (o.mask,))
        require(numpy.all(numpy.asarray(o.time) == day), 'observations of day %d carry the time %r' % (day, o.time))
        table = source.observation_location_lookup()
        require(len(o.locallycorrelatederror) == self.k, 'expected %d correlated terms, got %d' % (self.k, len(o.locallycorrelatederror)))
        rows = []
        for i in range(o.number_of_observations()):
            l = int(o.location[i])
            rows.append([l, o.measurement[i], o.uncorrelatederror[i]] + [c[i] for c in o.locallycorrelatederror] + [table[0, l], table[1, l]])
        return list(source.local_correlation_length_scale(self.quantity)), rows

    def expected(self, day):
        return [row + [self.places[0, row[0]], self.places[1, row[0]]] for row in self.days[day]]

    def check_day(self, day, rec):
        want = self.expected(day)
        ranges, rows = self.py_day(day)
        require(len(ranges) == self.k and all(same(a, b) for a, b in zip(ranges, self.ranges)), 'correlation ranges %r read as %r' % (self.ranges, ranges))
        require(equal_rows(rows, want), lambda: 'Python reads day %d as %r, written %r' % (day, rows, want))
        lookup = raw.LocationLookupRawBinaryReader()
        id, count = lookup.read_uuid_and_count(self.lookupfile(day))
        require(id == self.id and int(count) == self.locations, 'location table read as (%s, %s), written (%s, %d)' % (id, count, self.id, self.locations))
        reader = raw.ObservationRawBinaryReader(self.k)
        require([int(x) for x in reader.read_location_ids(self.obsfile(day), self.id)] == [r[0] for r in want], 'location ids of day %d differ' % day)
        require(reader.read_observation_count(self.obsfile(day)) == len(want), 'Python counts %r observations, %d were written' % (reader.read_observation_count(self.obsfile(day)), len(want)))
        where = '%d %d %d' % (self.source, self.observable, day)
        base, answer, count, n = ask('base ' + self.root, 'day ' + where, 'totaldaily ' + where, ('totalmobile ' + where) if self.mobile else 'totallocations %d' % self.source)
        require(answer[0] == 'ok', 'the C++ reader refuses the files written for day %d' % day)
        ranges, rows = observation_list(answer[1:], True)
        require(len(ranges) == self.k and all(same(a, b) for a, b in zip(ranges, self.ranges)), 'correlation ranges %r read in C++ as %r' % (self.ranges, ranges))
        require(equal_rows(rows, want), lambda: 'C++ reads day %d as %r, written %r' % (day, rows, want))
        require(count == ['ok', str(len(want))], 'C++ counts %r observations, %d were written' % (count, len(want)))
        require(n == ['ok', str(self.locations)], 'C++ counts %r locations, %d were written' % (n, self.locations))
        rec.step(8)

    def check_inspection(self, day, rec):
        """The inspection command prints the observations of the day, in order, with their places."""
        want = self.expected(day)
        rows = printed(inspectinput, '--path', self.root, '--source', self.name, '--observable', self.quantity, '--date', (EPOCH + datetime.timedelta(day)).strftime('%Y%m%d'))
        got = [[want[i][0] if i < len(want) else 0, r['m'], r['u']] + list(r['c']) + [r['lat'], r['lon']] for i, r in enumerate(rows)]
        require(equal_rows(got, want), lambda: 'inspection of day %d prints %r, written %r' % (day, rows, want))
        rec.step()

    def check_pointers(self, days, rec):
        """Index made of the given days in the given order; every location, and every order of two or all of them."""
        wanted = {l: [[d] + row[1:] for d in days for row in self.days[d] if row[0] == l] for l in range(self.locations)}
        reader = locationpointers.LocationPointersRawBinaryReader()
        for l in range(self.locations):
            records = reader.read_pointer_records(self.pointerfile(), self.id, l)
            require([int(r['daynumber']) for r in records] == [w[0] for w in wanted[l]], lambda: 'location %d: the index lists days %r, its observations are %r' % (l, [int(r['daynumber']) for r in records], wanted[l]))
            for r, w in zip(records, wanted[l]):
                # the record itself: location id, then the fields
                with open(self.obsfile(int(r['daynumber'])), 'rb') as f:
                    f.seek(int(r['fileoffset']) - 8)
                    data = f.read(8 * (3 + self.k))
                require(len(data) == 8 * (3 + self.k), 'location %d: the index points beyond the end of the file' % l)
                row = struct.unpack('<Q%dd' % (2 + self.k), data)
                require(equal_rows([row], [[l] + w[1:]]), lambda: 'location %d: the index of day %d points at the record %r, not %r' % (l, r['daynumber'], row, w))
            rec.step()
        where = '%d %d' % (self.source, self.observable)
        subsets = [s for n in range(1, self.locations + 1) for s in itertools.permutations(range(self.locations), n)]
        answers = ask('base ' + self.root, *['locations %s %s' % (where, ' '.join(map(str, s))) for s in subsets])[1:]
        for subset, answer in zip(subsets, answers):
            rec.step()
            require(answer[0] == 'ok' and answer[1] == str(len(subset)), 'C++ retrieval of locations %r gives %r' % (subset, answer))
            words = answer[2:]
            for l in subset:
                ranges, rows = observation_list(words, False)
                require(equal_rows(rows, wanted[l]), lambda: 'C++ reads location %d (asked for %r) as %r, written %r' % (l, subset, rows, wanted[l]))
                place = [real(words.pop(0)), real(words.pop(0))]
                require(same(place[0], self.places[0, l]) and same(place[1], self.places[1, l]), 'C++ puts location %d at %r' % (l, place))


def state_sets(n, alphabet):
    return [list(s) for s in itertools.product(alphabet, repeat=n)]


class Days(Harness):
    """Every pattern of present, absent, invalid and other-day observations, in file order and index order."""
    name = 'days'
    chunk = 40

    def bounds(self, tier):
        return 'up to %d locations, each absent/valid/valid later in the day/masked/of another day; 0-2 correlation ranges; 2-3 days; all subsets and orders of days in the index; every order of every subset of locations retrieved' % (3 if tier == 'quick' else 4)

    def cases(self, tier):
        # one day: every sequence of observations over the locations (order and repetition free)
        n = 2 if tier == 'quick' else 3
        symbols = [(l, s) for l in range(3) for s in 'vmw']
        for k in (0, 1, 2):
            for length in range(n + 1):
                for entries in itertools.product(symbols, repeat=length):
                    yield dict(source=4, observable=2, k=k, locations=3, days=[[0, list(entries)]], index=[0], scalar=False)
        # several days: presence pattern of each location on each day
        for source in (0, 3, 4, 5):
            for k in (0, 1, 2):
                n = 3 if source == 4 else 2
                alphabet = '.vmw' if source == 4 and k == 1 else '.vf' if source == 4 else '.vm'
                for a in state_sets(n, alphabet):
                    for b in state_sets(n, '.v' if tier == 'quick' else '.vm'):
                        for index in ([0, 1], [1, 0]) if source != 5 else ([0, 1],):
                            yield dict(source=source, observable=k, k=k, locations=n, days=[[0, [(i, s) for i, s in enumerate(a) if s != '.']], [1, [(i, s) for i, s in enumerate(b) if s != '.']]], index=index, scalar=False)
        for pattern in itertools.product(state_sets(2, '.v'), repeat=3):
            for r in range(4):
                for index in itertools.permutations(range(3), r):
                    yield dict(source=1, observable=0, k=1, locations=2, days=[[d, [(i, s) for i, s in enumerate(p) if s != '.']] for d, p in enumerate(pattern)], index=list(index), scalar=False)
        for a in state_sets(3, '.vm'):
            for source in (2, 5):
                yield dict(source=source, observable=1, k=2, locations=4, days=[[2, [(i, s) for i, s in enumerate(a) if s != '.']]], index=[2], scalar=True)
        if tier != 'quick':
            for a in state_sets(4, '.vmw'):
                for b in state_sets(4, '.v'):
                    yield dict(source=4, observable=0, k=1, locations=4, days=[[0, [(i, s) for i, s in enumerate(a) if s != '.']], [2, [(i, s) for i, s in enumerate(b) if s != '.']]], index=[0, 2], scalar=False)

    def run(self, case, rec):
        with scratch() as root:
            w = World(root, case['source'], case['observable'], case['k'], case['locations'])
            for d, entries in case['days']:
                w.write_day(DAYS[d], [tuple(e) for e in entries], case['scalar'])
                rec.step()
            for d, entries in case['days']:
                w.check_day(DAYS[d], rec)
                if w.source != 3:       # lakes are not among the prepared sources
                    w.check_inspection(DAYS[d], rec)
            if not w.mobile:
                index = [DAYS[d] for d in case['index']]
                w.write_pointers(index)
                w.check_pointers(index, rec)
            # counts over a period, days without files counted apart
            first, last = min(w.days), max(w.days)
            if last - first < 5:
                counter = obscount.ObsCounter(root, w.name, w.quantity, EPOCH + datetime.timedelta(first - 1), EPOCH + datetime.timedelta(last + 1))
                summary = counter.summary_statistics()
                total = sum(len(v) for v in w.days.values())
                require(counter.count_all_days() == [None] + [len(w.days[d]) for d in range(first, last + 1)] + [None], 'daily counts %r' % (counter.count_all_days(),))
                require((summary.number_of_days, summary.total_observations, summary.missing_days) == (last - first + 3, total, 2), 'summary %r' % (summary.__dict__,))
                require(abs(summary.mean_observations_per_day - total / float(len(w.days))) < 1e-12, 'mean number of observations per day %r' % (summary.mean_observations_per_day,))
                text = lambda d: (EPOCH + datetime.timedelta(d)).strftime('%Y%m%d')
                told = printed(obscount, '--path', root, '--source', w.name, '--observable', w.quantity, '--startdate', text(first - 1), '--enddate', text(last + 1))
                require(told == summary.__dict__, lambda: 'the counting command prints %r for %r' % (told, summary.__dict__))
                other = SOURCES[(w.source + 1) % len(SOURCES)]
                with open(os.path.join(root, 'list.json'), 'w') as f:
                    json.dump([dict(source=other, observables=[w.quantity], startdate=text(first), enddate=text(first)),
                               dict(source=w.name, observables=[w.quantity, 'Tnone'], startdate=text(first - 1), enddate=text(last + 1))], f)
                table = printed(obscountsources, '--datapath', root, '--sourcelist', os.path.join(root, 'list.json'))
                require(sorted(table) == sorted([w.name, other]) and sorted(table[w.name]) == sorted([w.quantity, 'Tnone']) and table[w.name][w.quantity] == told,
                        lambda: 'the counts of several sources are given as %r' % (table,))
                require(list(table[other][w.quantity]) == ['error'] and list(table[w.name]['Tnone']) == ['error'], lambda: 'sources without files are counted as %r' % (table,))
                where = '%d %d' % (w.source, w.observable)
                base, specify, answer = ask('base ' + root, 'specify %s %d %d' % (where, first, last), 'total ' + where)
                require(answer == ['ok', str(total)], 'C++ counts %r observations in the period, %d were written' % (answer, total))
                rec.step(2)
            rec.outcome(tuple(sorted((d, tuple(r[0] for r in rows)) for d, rows in w.days.items())))


def refused(function, *arguments):
    try:
        result = function(*arguments)
    except Violation:
        raise
    except Exception as error:
        if isinstance(error, (NameError, AttributeError, TypeError)):
            raise Violation('the file is refused only because the reader fails: %s: %s' % (type(error).__name__, error))
        return True, None
    return False, result


class Truncated(Harness):
    """Every file cut at every byte, absent, or replaced by a file of another kind."""
    name = 'faults'
    chunk = 20

    def bounds(self, tier):
        return 'each of the files of 3 locations x 2 days (0-2 correlation ranges) cut at every byte, absent, or of another kind'

    def cases(self, tier):
        for k in (0, 1, 2):
            sizes = dict(obs=48 + 2 * (24 + 8 * k), loc=48 + 3 * 16, cor=32 + 8 * k, ptr=48 + 8 + 3 * 16 + 4 * 16)
            for kind in sizes:
                for length in range(sizes[kind]):
                    yield dict(kind=kind, k=k, fault='cut', length=length)
                yield dict(kind=kind, k=k, fault='absent', length=0)
                for other in sizes:
                    if other != kind:
                        yield dict(kind=kind, k=k, fault=other, length=0)
            for other in (0, 1, 2):
                yield dict(kind='ranges', k=k, fault=str(other), length=0)

    def run(self, case, rec):
        kind, k = case['kind'], case['k']
        with scratch() as root:
            w = World(root, 4, 0, k, 3)
            a, b = DAYS[0], DAYS[1]
            w.write_day(a, [(2, 'v'), (1, 'm'), (0, 'v')])
            w.write_day(b, [(1, 'v'), (2, 'v')])
            w.write_pointers([a, b])
            # the intact files are read first: nothing of them may be left when the damaged ones are read
            w.check_day(a, rec)
            w.check_pointers([a, b], rec)
            path = dict(obs=w.obsfile(b), loc=w.lookupfile(), cor=w.rangefile(), ptr=w.pointerfile(), ranges=None)
            where = '4 0'
            if kind == 'ranges':
                other = int(case['fault'])
                raw.LocalCorrelationRangeRawBinaryWriter().write(w.rangefile(), ranges_of(other))
                whole = 2 * (24 + 8 * k) % (24 + 8 * other) == 0
                if not whole:
                    self.must_refuse(w, b, 'the observations (%d correlation ranges instead of %d)' % (other, k), rec)
                    require(refused(raw.ObservationRawBinaryReader(other).read_observation_count, w.obsfile(b))[0], 'observations counted with the wrong record size')
                return
            damaged = path[kind]
            if case['fault'] == 'cut':
                with open(damaged, 'rb') as f:
                    data = f.read()
                require(len(data) > case['length'], 'file of kind %s has %d bytes' % (kind, len(data)))
                with open(damaged, 'wb') as f:
                    f.write(data[:case['length']])
                text = 'a %s file cut after %d of %d bytes' % (kind, case['length'], len(data))
            elif case['fault'] == 'absent':
                os.remove(damaged)
                text = 'an absent %s file' % kind
            else:
                with open(path[case['fault']], 'rb') as f:
                    data = f.read()
                with open(damaged, 'wb') as f:
                    f.write(data)
                text = 'a %s file in place of the %s file' % (case['fault'], kind)
            header, record = dict(obs=(48, 24 + 8 * k), loc=(48, 16), cor=(32, 8), ptr=(0, 0))[kind]
            boundary = kind != 'ptr' and case['fault'] == 'cut' and case['length'] >= header and (case['length'] - header) % record == 0
            kept = (case['length'] - header) // record if boundary else None
            rec.step()
            if kind == 'obs':
                if not boundary:
                    self.must_refuse(w, b, text, rec, count=True)
                else:
                    w.days[b] = w.days[b][:kept]
                    w.check_day(b, rec)
                # by location: refused, unless no record asked for is affected
                answers = ask('base ' + root, 'locations 4 0 0', 'locations 4 0 2', 'locations 4 0 1 2')[1:]
                require(answers[0][0] == 'ok', 'a location without observations in the damaged file is refused')
                require(answers[1][0] == 'refused', '%s: C++ reads location 2 from it: %r' % (text, answers[1]))
                require(answers[2][0] == 'refused', '%s: C++ reads locations 1, 2 from it: %r' % (text, answers[2]))
                # a new index is refused, or contains what is left
                result = refused(w.write_pointers, [a, b])
                require(result[0] != boundary, '%s: index %s' % (text, 'refused' if result[0] else 'made'))
            elif kind == 'loc':
                if not boundary:
                    require(refused(raw.LocationLookupRawBinaryReader().read, damaged)[0], '%s is read' % text)
                    require(refused(raw.LocationLookupRawBinaryReader().read_uuid_and_count, damaged)[0], '%s is counted' % text)
                    answers = ask('base ' + root, 'day 4 0 %d' % b, 'totallocations 4', 'locations 4 0 1')[1:]
                    require(all(x[0] == 'refused' for x in answers), '%s: C++ answers %r' % (text, answers))
                    require(refused(w.write_pointers, [a, b])[0], '%s: index made' % text)
                else:
                    table = raw.LocationLookupRawBinaryReader().read(damaged).lookuptable
                    require(numpy.array_equal(table, w.places[:, :kept]), '%s read as %r' % (text, table))
            elif kind == 'cor':
                if not boundary:
                    require(refused(raw.LocalCorrelationRangeRawBinaryReader().read, damaged)[0], '%s is read' % text)
                    answers = ask('base ' + root, 'day 4 0 %d' % b, 'totaldaily 4 0 %d' % b, 'locations 4 0 1')[1:]
                    require(all(x[0] == 'refused' for x in answers), '%s: C++ answers %r' % (text, answers))
                    require(refused(w.write_pointers, [a, b])[0], '%s: index made' % text)
                else:
                    got = raw.LocalCorrelationRangeRawBinaryReader().read(damaged)
                    require(list(got) == w.ranges[:kept], '%s read as %r' % (text, got))
            else:
                # the index says how much it contains: a location is read completely or refused
                reader = locationpointers.LocationPointersRawBinaryReader()
                table = 48 + 8
                offsets = [table + 48, table + 48 + 16, table + 48 + 32, table + 48 + 64]
                answers = ask('base ' + root, *['locations 4 0 %d' % l for l in range(3)])[1:]
                for l in range(3):
                    bad, records = refused(reader.read_pointer_records, damaged, w.id, l)
                    must = case['fault'] != 'cut' or case['length'] < offsets[l + 1]
                    require(bad == must, '%s: location %d %s by Python' % (text, l, 'refused' if bad else 'read'))
                    require((answers[l][0] == 'refused') == must, '%s: location %d: C++ answers %r' % (text, l, answers[l]))

    @staticmethod
    def must_refuse(w, day, text, rec, count=False):
        require(refused(w.py_day, day)[0], '%s: Python reads the day' % text)
        require(refused(raw.ObservationRawBinaryReader(w.k).read_location_ids, w.obsfile(day), w.id)[0] or not count, '%s: Python reads the location ids' % text)
        if count:
            require(refused(raw.ObservationRawBinaryReader(w.k).read_observation_count, w.obsfile(day))[0], '%s: Python counts the observations' % text)
        where = '%d %d %d' % (w.source, w.observable, day)
        answers = ask('base ' + w.root, 'day ' + where, 'totaldaily ' + where)[1:]
        require(all(x[0] == 'refused' for x in answers), '%s: C++ answers %r' % (text, answers))
        rec.step(2)


class Identity(Harness):
    """Every combination of location-table identifiers in the files."""
    name = 'identity'
    chunk = 20

    def bounds(self, tier):
        return 'each of location table, daily files and index carrying one of 3 identifiers; fixed and mobile locations; location ids inside and outside the table'

    def cases(self, tier):
        for source in (4, 5):
            for ids in itertools.product(range(3), repeat=3):
                yield dict(source=source, ids=ids)

    def run(self, case, rec):
        first, second, table = [UUIDS[i] for i in case['ids']]
        a, b = DAYS[0], DAYS[1]
        with scratch() as root:
            w = World(root, case['source'], 1, 1, 2)
            w.write_day(a, [(0, 'v'), (1, 'v')])
            w.write_day(b, [(1, 'v')])
            if not w.mobile:
                w.write_pointers([a, b])
            w.check_day(a, rec)
            w.write_day(a, [(0, 'v'), (1, 'v')], id=first)
            w.write_day(b, [(1, 'v')], id=second)
            for day in ([None] if not w.mobile else [a, b]):
                w.write_lookup(day, id=table)
            for day, id in ((a, first), (b, second)):
                rec.step(2)
                bad, result = refused(w.py_day, day)
                require(bad == (id != table), 'Python %s observations of table %s with table %s' % ('refuses' if bad else 'reads', id, table))
                for reading in ('read_day', 'read_location_ids', 'read_contents'):
                    function = getattr(raw.ObservationRawBinaryReader(1), reading)
                    bad, result = refused(function, w.obsfile(day), table, *([day] if reading == 'read_day' else []))
                    require(bad == (id != table), 'Python (%s) %s observations of table %s with table %s' % (reading, 'refuses' if bad else 'reads', id, table))
                answer = ask('base ' + root, 'day %d 1 %d' % (w.source, day))[1]
                require((answer[0] == 'refused') == (id != table), 'C++ answers %r for observations of table %s with table %s' % (answer, id, table))
            if w.mobile:
                return
            # the index still belongs to UUIDS[0]
            reader = locationpointers.LocationPointersRawBinaryReader()
            for id in UUIDS:
                for location in (-1, 0, 1, 2, 3):
                    rec.step()
                    bad, result = refused(reader.read_pointer_records, w.pointerfile(), id, location)
                    require(bad == (id != UUIDS[0] or location not in (0, 1)), 'index read with table %s, location %d: %s' % (id, location, 'refused' if bad else 'read'))
            answers = ask('base ' + root, 'locations 4 1 0', 'locations 4 1 1', 'locations 4 1 0 1', 'locations 4 1 2', 'locations 4 1 0 3')[1:]
            for answer, needed in zip(answers, ([first], [first, second], [first, second], [None], [first, None])):
                good = table == UUIDS[0] and all(x == table for x in needed)
                require((answer[0] == 'ok') == good, 'C++ answers %r; table %s, index %s, observations %r' % (answer, table, UUIDS[0], needed))
            # a new index is made from the files of its own table only
            bad, result = refused(w.write_pointers, [a, b])
            require(bad == (first != table or second != table), 'index of table %s from observations of tables %s and %s: %s' % (table, first, second, 'refused' if bad else 'made'))
            if not bad:
                w.id = table
                w.check_pointers([a, b], rec)


class Missing(Harness):
    """Days and sources without data give no observations."""
    name = 'missing'
    parallel = False

    def bounds(self, tier):
        return 'absent daily file / absent location table / neither, 0-2 correlation ranges; sources declared missing'

    def cases(self, tier):
        for k in (0, 1, 2):
            for file in (False, True):
                for table in (False, True):
                    yield dict(k=k, file=file, table=table)

    def run(self, case, rec):
        with scratch() as root:
            w = World(root, 4, 2, case['k'], 2)
            w.write_day(DAYS[0], [(0, 'v'), (1, 'm')])
            lookup = raw.LocationLookupRawBinaryReader().read(w.lookupfile()) if case['table'] else None
            spec = raw.ObservableFileSpec(w.obsfile(DAYS[0]) if case['file'] else None, w.ranges)
            source = raw.ObservationSourceSingleDayRawBinary(lookup, {'Tmean': spec}, DAYS[0])
            o = source.observations('Tmean')
            rec.step()
            if case['file'] and case['table']:
                require(o.number_of_observations() == 1, 'one observation was written, %d read' % o.number_of_observations())
            else:
                require(o.number_of_observations() == 0, 'a day without data has %d observations' % o.number_of_observations())
                require(numpy.size(o.measurement) == 0 and numpy.size(o.location) == 0, 'a day without data has observations')
            if not case['table']:
                require(source.observation_location_lookup() is None, 'locations without a location table')
            # reader with no file: nothing that counts
            o = raw.ObservationRawBinaryReader(case['k']).read_day(None, UUIDS[0], DAYS[0])
            require(numpy.all(o.mask) and len(o.locallycorrelatederror) == case['k'], 'observations without a file are not masked')
            # declared missing
            for names in (['Tmean'], ['Tmin', 'Tmax']):
                source = observationsource_missing.ObservationSourceMissing(names)
                require(list(source.observables()) == names, 'observables of a missing source: %r' % (source.observables(),))
                for name in OBSERVABLES:
                    rec.step()
                    try:
                        o = source.observations(name)
                        require(name in names and o.number_of_observations() == 0, 'missing source of %r gives %s' % (names, name))
                    except ValueError:
                        require(name not in names, 'missing source of %r refuses %s' % (names, name))


HARNESSES = [Days(), Truncated(), Identity(), Missing()]
ASSUMPTIONS = ['a file cut exactly between two records cannot be told from a complete shorter one; little-endian machine']
