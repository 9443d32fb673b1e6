"""C35: station observations pass the quality and hold-out filters exactly."""
import datetime
import itertools
import os
import uuid

import netCDF4
import numpy

from mc.core import Harness, require
from mc.env import quiet, scratch
from mc.props import c22    # opens binary files as Python 2 does

with quiet():
    from eustace.analysis import preparecorrelationranges, preparedailyfixed, preparelocationlookup
    from eustace.analysis.fileio import observationsource_rawbinary as raw
    from eustace.preprocess.fileio.height_adjustment import AltitudeAdjustment
    from eustace.preprocess.fileio.insitu_land import ObservationSourceInsituLand

DAY = 57464                # 2007-05-02
EPOCH = datetime.datetime(1850, 1, 1)
CODES = ['ST1', 'ST12', 'A', 'ST2']
# longitudes given in both conventions; all inside the interior cells of the reference map
PLACES = [(10.0, 350.0), (-35.5, 20.25), (50.25, 180.0), (0.0, -120.5)]
ELEVATIONS = [0.0, 1500.0, -30.0, 420.0]
FLAGS = [1, 2, 128]
NAMES = {'Tmin': 'tasmin', 'Tmax': 'tasmax'}
# state of one station on one day: v present and good, m absent, f flagged, u quality unknown, x absent and flagged


def value(observable, day, station):
    """Distinct for every observation, exact in the packed resolution."""
    return 273.15 + 0.005 * ({'Tmin': 100, 'Tmax': 3000}[observable] + 37 * day + 501 * station - 700)


def station_file(path, days, stations, states, options, codes=CODES, width=None):
    """states[observable][day][station]; options: letters - r valid range on flags, e an elevation missing, s spare codes width."""
    d = netCDF4.Dataset(path, 'w')
    n, t = stations, len(days)
    d.createDimension('time', None if 'n' in options else t)
    d.createDimension('station', n)
    width = width or (20 if 's' in options else 8)
    d.createDimension('name_strlen', width)
    v = d.createVariable('station_code', 'S1', ('station', 'name_strlen'))
    v[:] = netCDF4.stringtochar(numpy.array(codes[:n], 'S%d' % width))
    for name, values in (('latitude', [p[0] for p in PLACES[:n]]), ('longitude', [p[1] for p in PLACES[:n]])):
        d.createVariable(name, 'f4', ('station',))[:] = values
    v = d.createVariable('elevation', 'f4', ('station',), fill_value=-999.9)
    v[:] = numpy.ma.masked_array(ELEVATIONS[:n], mask=['e' in options and i == n - 1 for i in range(n)])
    v = d.createVariable('time', 'f4', ('time',))
    v.units = 'days since 1850-01-01T00:00:00Z'
    v[:] = days
    for observable, name in NAMES.items():
        v = d.createVariable(name, 'i2', ('time', 'station'), fill_value=-32768)
        v.scale_factor, v.add_offset = 0.005, 273.15
        q = d.createVariable(name + '_qc', 'u1', ('time', 'station'), fill_value=255)
        if 'r' in options:
            q.valid_range = numpy.zeros((2,), numpy.uint8)
        data = numpy.ma.masked_array(numpy.zeros((t, n)), mask=False)
        flags = numpy.ma.masked_array(numpy.zeros((t, n), numpy.uint8), mask=False)
        for i in range(t):
            for j in range(n):
                data[i, j] = value(observable, days[i] - DAY, j)
                state = states[observable][i][j]
                if state in 'mx':
                    data[i, j] = numpy.ma.masked
                if state in 'fx':
                    flags.data[i, j] = FLAGS[(i + j) % 3]
                if state == 'u':
                    flags[i, j] = numpy.ma.masked
        v[:] = data
        q.set_auto_mask(False)
        q[:] = flags.filled(255)
    d.close()


def hold_out_file(path, codes, width):
    d = netCDF4.Dataset(path, 'w')
    d.createDimension('station', len(codes))
    d.createDimension('name_strlen', width)
    v = d.createVariable('station_code', 'S1', ('station', 'name_strlen'))
    v[:] = netCDF4.stringtochar(numpy.array(codes, 'S%d' % width))
    d.close()


MAP_LATITUDES = [-60.0, 0.0, 60.0]
MAP_LONGITUDES = [-150.0, -90.0, -30.0, 30.0, 90.0, 150.0]
MAP = numpy.array([[100., 250., 0., 75., 2000., 40.], [0., 10., 900., 1200., 20., 330.], [500., 45., 66., 10., 0., 700.]])


def map_file(path):
    d = netCDF4.Dataset(path, 'w')
    d.createDimension('y', 3)
    d.createDimension('x', 6)
    mesh = numpy.meshgrid(MAP_LATITUDES, MAP_LONGITUDES, indexing='ij')
    for name, values in (('lat', mesh[0]), ('lon', mesh[1]), ('dem', MAP)):
        d.createVariable(name, 'f8', ('y', 'x'))[:] = values
    d.close()


def reference_altitude(place):
    """Bilinear interpolation of the map (km), periodic in longitude."""
    y = (place[0] - MAP_LATITUDES[0]) / 60.0
    x = ((place[1] + 180.0) % 360.0 - 180.0 - MAP_LONGITUDES[0]) / 60.0
    i, j = min(int(numpy.floor(y)), 1), int(numpy.floor(x))
    a, b = y - i, x - j
    get = lambda r, c: MAP[r, c % 6]
    return 0.001 * ((1 - a) * ((1 - b) * get(i, j) + b * get(i, j + 1)) + a * ((1 - b) * get(i + 1, j) + b * get(i + 1, j + 1)))


def admitted(state, quality):
    return state not in 'mx' and not (quality and state in 'fu')


def expected(case_states, observable, days, n, held, quality, altitude, options, selected):
    """{(day, station): (value, uncertainty)} of every observation that is to pass."""
    result = {}
    for i, day in enumerate(days):
        if selected is not None and day != selected:
            continue
        for j in range(n):
            if not admitted(case_states[observable][i][j], quality) or (held is not None and j in held):
                continue
            if altitude and 'e' in options and j == n - 1:
                continue
            v, u = value(observable, day - DAY, j), 0.3
            if altitude:
                difference = 0.001 * ELEVATIONS[j] - reference_altitude(PLACES[j])
                v += 6.5 * difference
                u = numpy.sqrt(u ** 2 + (1.1 * difference) ** 2)
            result[(day, j)] = (v, u)
    return result


def wrapped(longitude):
    return (longitude + 180.0) % 360.0 - 180.0


def states_of(pattern, t, n):
    """The other observable gets the reverse pattern so that a mix-up shows."""
    rows = lambda p: [p[i * n:(i + 1) * n] for i in range(t)]
    return {'Tmin': rows(pattern), 'Tmax': rows(pattern[::-1])}


class Filters(Harness):
    """One station file read under every combination of options."""
    name = 'filters'
    chunk = 4

    def bounds(self, tier):
        n, t = self.size(tier)
        return 'every state (present, absent, flagged, quality unknown; absent and flagged on the smaller files or thorough) of %d stations on %d days, read for both observables with every hold-out subset (none, empty, each subset), each day, all days and an absent day, quality control on and off, with and without altitude adjustment, with and without a missing elevation' % (n, t)

    def size(self, tier):
        return (2, 2) if tier == 'quick' else (2, 3)

    def cases(self, tier):
        n, t = self.size(tier)
        alphabet = 'vmfu' if tier == 'quick' else 'vmfux'
        for pattern in itertools.product(alphabet, repeat=n * t):
            text = ''.join(pattern)
            # the file layout variants rotate with the pattern, all of them on patterns without anything missing
            layouts = ['', 'r', 'e', 'es', 'rn'] if set(text) <= set('vf') or tier != 'quick' else [['', 'r', 'e', 'es', 'rn'][hash_of(text) % 5]]
            for layout in layouts:
                yield dict(pattern=text, stations=n, days=t, layout=layout)
        # one and three stations
        for n2, t2 in ((1, 2), (3, 1), (1, 1)):
            for pattern in itertools.product('vmfx', repeat=n2 * t2):
                yield dict(pattern=''.join(pattern), stations=n2, days=t2, layout='s')

    def run(self, case, rec):
        n, t = case['stations'], case['days']
        days = [DAY + k * 2 for k in range(t)]
        states = states_of(case['pattern'], t, n)
        with scratch() as folder:
            path = os.path.join(folder, 'stations.nc')
            station_file(path, days, n, states, case['layout'])
            map_file(os.path.join(folder, 'dem.nc'))
            holds = [None] + [h for k in range(n + 1) for h in itertools.combinations(range(n), k)]
            for held in holds:
                hold_path = None
                if held is not None:
                    hold_path = os.path.join(folder, 'hold_%s.nc' % '_'.join(map(str, held)))
                    # in another order, with stations that are not in the file, and other name lengths
                    hold_out_file(hold_path, [CODES[j] for j in reversed(held)] + ['ST', 'ZZZ'], 12)
                for selected, quality, altitude, observable in itertools.product([None] + days + [DAY + 1], (False, True), (False, True), ('Tmin', 'Tmax')):
                    rec.step()
                    with quiet():
                        adjust = AltitudeAdjustment(os.path.join(folder, 'dem.nc'), 'lat', 'lon', 'dem', 0.001) if altitude else None
                        source = ObservationSourceInsituLand(path, selected, hold_path, adjust)
                        found = source.observations(observable, quality)
                        lookup = source.observation_location_lookup()
                    try:
                        self.judge(rec, case, states, observable, days, n, held, quality, altitude, selected, found, lookup)
                    finally:
                        source.dataset.close()
                        if hold_path is not None and source.hold_out_dataset:
                            source.hold_out_dataset.close()

    def judge(self, rec, case, states, observable, days, n, held, quality, altitude, selected, found, lookup):
        what = 'observable %s, day %s, held out %s, quality %s, altitude %s' % (observable, selected, held, quality, altitude)
        want = expected(states, observable, days, n, held, quality, altitude, case['layout'], selected)
        require(numpy.shape(lookup) == (2, n) and all(abs(float(lookup[0, j]) - PLACES[j][0]) < 1e-4 and abs(wrapped(float(lookup[1, j])) - wrapped(PLACES[j][1])) < 1e-4 for j in range(n)),
                lambda: 'location table is %s' % numpy.array(lookup))
        require(numpy.all(numpy.asarray(lookup[1]) < 180.0), 'longitudes are not in the range -180 to 180')
        if found is None:
            require(not want, lambda: '%s: nothing delivered, expected %s' % (what, want))
            rec.outcome('none')
            return
        mask = numpy.ma.getmaskarray(found.mask) | numpy.asarray(found.mask)
        sizes = set(len(numpy.ravel(x)) for x in (found.mask, found.time, found.location, found.measurement, found.uncorrelatederror))
        require(len(sizes) == 1, lambda: '%s: arrays of different lengths %s' % (what, sizes))
        got = {}
        for i in range(len(numpy.ravel(found.mask))):
            if numpy.ravel(mask)[i]:
                continue
            key = (int(round(float(found.time[i]))), int(found.location[i]))
            require(key not in got, lambda: '%s: observation %s delivered twice' % (what, key))
            got[key] = (float(found.measurement[i]), float(found.uncorrelatederror[i]))
        require(set(got) == set(want), lambda: '%s: delivers (day, station) %s, expected %s' % (what, sorted(got), sorted(want)))
        for key in want:
            require(abs(got[key][0] - want[key][0]) < 1e-3 and abs(got[key][1] - want[key][1]) < 1e-4, lambda: '%s: (day, station) %s delivered as %s, expected %s' % (what, key, got[key], want[key]))
        require(len(found.locallycorrelatederror) == 0, 'locally correlated errors appeared')
        rec.state((case['layout'], observable, selected, held, quality, altitude, sorted(want)))
        rec.outcome(len(want))


def hash_of(text):
    return sum((i + 1) * ord(c) for i, c in enumerate(text))


class Prepared(Harness):
    """Station file to binary analysis input."""
    name = 'prepared'
    chunk = 8

    def bounds(self, tier):
        return 'every state of %d stations on 2 days through location table, correlation ranges and daily binary files, read back; with and without hold-out, quality control and altitude adjustment; location table of the same or another station list' % (2 if tier == 'quick' else 3)

    def cases(self, tier):
        n = 2 if tier == 'quick' else 3
        for pattern in itertools.product('vmf', repeat=n):
            for held in (None, (0,), (n - 1,)):
                for quality, altitude in itertools.product((False, True), repeat=2):
                    yield dict(pattern=''.join(pattern), held=held, quality=quality, altitude=altitude, stations=n)
        yield dict(pattern='v' * n, held=None, quality=False, altitude=False, stations=n, foreign=True)
        yield dict(pattern='v' * n, held=(0,), quality=True, altitude=True, stations=n, foreign=True)

    def run(self, case, rec):
        n = case['stations']
        days = [DAY, DAY + 2]
        states = states_of(case['pattern'] + case['pattern'][::-1], 2, n)
        with scratch() as folder:
            at = lambda name: os.path.join(folder, name)
            station_file(at('stations.nc'), days, n, states, 'r')
            map_file(at('dem.nc'))
            if case['held'] is not None:
                hold_out_file(at('hold.nc'), [CODES[j] for j in case['held']], 8)
            with quiet():
                preparelocationlookup.run(at('locations.bin'), at('stations.nc'), 'insitu_land')
                table = raw.LocationLookupRawBinaryReader().read(at('locations.bin'))
                require(numpy.allclose(table.lookuptable, [[p[0] for p in PLACES[:n]], [wrapped(p[1]) for p in PLACES[:n]]], atol=1e-4), lambda: 'location table written is %s' % table.lookuptable)
                if case.get('foreign'):
                    moved = raw.LocationLookupWithID(table.uuid, numpy.array(table.lookuptable) + [[0.01], [0.0]])
                    raw.LocationLookupRawBinaryWriter().write(at('locations.bin'), moved)
                for observable in ('Tmin', 'Tmax'):
                    preparecorrelationranges.run(at('ranges.bin'), at('stations.nc'), 'insitu_land', observable)
                    ranges = raw.LocalCorrelationRangeRawBinaryReader().read(at('ranges.bin'))
                    require(len(ranges) == 0, lambda: 'correlation ranges %s for stations' % ranges)
                    for day in days:
                        rec.step()
                        out = at('%s_%d.bin' % (observable, day))
                        adjust = AltitudeAdjustment(at('dem.nc'), 'lat', 'lon', 'dem', 0.001) if case['altitude'] else None
                        try:
                            preparedailyfixed.run_day(out, at('locations.bin'), at('stations.nc'), EPOCH + datetime.timedelta(days=day), 'insitu_land', observable,
                                                      hold_out_list=at('hold.nc') if case['held'] is not None else None, qc_mask=case['quality'], altitude_adjustment=adjust)
                        except ValueError:
                            require(case.get('foreign'), 'location table of the same stations refused')
                            require(not os.path.exists(out), 'file written for a foreign location table')
                            rec.outcome('refused')
                            continue
                        require(not case.get('foreign'), 'observations written against the location table of other places')
                        found = raw.ObservationRawBinaryReader(0).read_day(out, table.uuid, day)
                        want = expected(states, observable, days, n, case['held'], case['quality'], case['altitude'], '', day)
                        got = {(day, int(l)): (float(m), float(u)) for l, m, u in zip(found.location, found.measurement, found.uncorrelatederror)}
                        require(set(got) == set(want) and len(found.location) == len(want) and all(abs(got[k][0] - want[k][0]) < 1e-3 and abs(got[k][1] - want[k][1]) < 1e-4 for k in want),
                                lambda: '%s on day %d: file holds %s, expected %s' % (observable, day, got, want))
                        rec.state((observable, day, sorted(got.items())))
                        rec.outcome(len(got))


class Codes(Harness):
    """Which stations a hold-out list names: codes that contain each other, written with every width in both files."""
    name = 'codes'
    chunk = 8
    POOL = ['A', 'AB', 'AB1', 'AB12', 'BA', 'AA']

    def bounds(self, tier):
        return 'all ordered pairs of station codes and all hold-out lists of up to %d codes from 6 (prefixes and suffixes of each other), width of the codes in each file exact, one more or much more' % (1 if tier == 'quick' else 2)

    def cases(self, tier):
        for codes in itertools.permutations(self.POOL, 2):
            for width in (0, 1, 9):
                yield dict(codes=codes, width=width, held=1 if tier == 'quick' else 2)

    def run(self, case, rec):
        codes = case['codes']
        days = [DAY]
        states = {'Tmin': ['vv'], 'Tmax': ['vv']}
        with scratch() as folder:
            path = os.path.join(folder, 'stations.nc')
            station_file(path, days, 2, states, '', list(codes), max(map(len, codes)) + case['width'])
            for k in range(1, case['held'] + 1):
                for held in itertools.permutations(self.POOL, k):
                    for extra in (0, 1, 9):
                        rec.step()
                        hold_path = os.path.join(folder, 'hold_%s_%d.nc' % ('_'.join(held), extra))
                        hold_out_file(hold_path, list(held), max(map(len, held)) + extra)
                        with quiet():
                            source = ObservationSourceInsituLand(path, DAY, hold_path)
                            found = source.observations('Tmin', False)
                        mask = numpy.ravel(numpy.ma.getmaskarray(found.mask) | numpy.asarray(found.mask))
                        got = [codes[int(l)] for l, m in zip(numpy.ravel(found.location), mask) if not m]
                        source.dataset.close()
                        source.hold_out_dataset.close()
                        want = [c for c in codes if c not in held]
                        require(got == want, lambda: 'stations %s, held out %s: observations of %s' % (codes, held, got))
                        rec.state((codes, held, tuple(got)))
                        rec.outcome(len(got))


HARNESSES = [Filters(), Prepared(), Codes()]
