"""C25: observations reach the analysis complete, unmixed and at their own place."""
import datetime
import gzip
import itertools
import os

import netCDF4
import numpy

from mc.core import Harness, require
from mc.env import quiet, scratch
from mc.props import c22    # opens binary files as Python 2 does

# the text readers run where text read as bytes is text
_genfromtxt = numpy.genfromtxt


def genfromtxt(source, **options):
    options.setdefault('encoding', 'ascii')
    if not isinstance(source, str):
        source.flush()
        source = source.name
    return _genfromtxt(source, **options)


numpy.genfromtxt = genfromtxt

with quiet():
    from eustace.analysis import preparecorrelationranges, preparedailyfixed, preparedailymobile, preparelocationlookup
    from eustace.analysis.advanced_standard.examples.inputloader_rawbinary import AnalysisSystemInputLoaderRawBinary_OneDay, AnalysisSystemInputLoaderRawBinary_Sources
    from eustace.analysis.advanced_standard.fileio.observation_structure_source_connector import ObservationStructureSourceConnector
    from eustace.analysis.fileio import observationsource_rawbinary as raw
    from eustace.analysis.observationsource import Observations
    from eustace.preprocess.fileio import insitu_ocean
    from eustace.surfaceairmodel.fileio.consistent import ObservationSourceSatstace
    from eustace.surfaceairmodel.fileio.ice import ObservationSourceIceDMI, ObservationSourceIceDMICombined
    from eustace.surfaceairmodel.fileio.lake import ObservationSourceLakeReading
    from eustace.surfaceairmodel.fileio.land import ObservationSourceLandMetOfficeWP1
    from eustace.surfaceairmodel.fileio.ocean import ObservationSourceOceanMetOfficeWP1

EPOCH = datetime.datetime(1850, 1, 1)
DAY = 57464


class Spec(object):
    def __init__(self, filename):
        self.filename = filename
        self.localcorrelationranges = []


class Held(object):
    """A source that holds its observations."""

    def __init__(self, lookup, observations):
        self.filespecs = {'Tmean': Spec(None)}
        self.lookup, self.held = lookup, observations

    def observation_location_lookup(self):
        return self.lookup

    def observations(self, observable):
        return self.held

    def local_correlation_length_scale(self, observable):
        return []


def wrapped(longitude):
    return (longitude + 180.0) % 360.0 - 180.0


def delivered(source, observable, what):
    """[(latitude, longitude, day, value, uncertainty, correlated...)] of the valid observations."""
    found, lookup = source.observations(observable), source.observation_location_lookup()
    n = len(found.measurement)
    require(numpy.shape(found.mask) == (n,) and numpy.shape(found.location) == (n,) and numpy.shape(found.uncorrelatederror) == (n,) and all(numpy.shape(c) == (n,) for c in found.locallycorrelatederror),
            lambda: '%s: arrays of different lengths: %s' % (what, [numpy.shape(x) for x in (found.mask, found.location, found.measurement, found.uncorrelatederror)]))
    times = numpy.broadcast_to(numpy.asarray(found.time, float).ravel(), (n,))
    rows = []
    for i in range(n):
        if not found.mask[i]:
            rows.append((float(lookup[0, int(found.location[i])]), float(lookup[1, int(found.location[i])]), float(times[i]), float(found.measurement[i]), float(found.uncorrelatederror[i]))
                        + tuple(float(c[i]) for c in found.locallycorrelatederror))
    return rows


def agree(got, want, what, tolerance=2e-3):
    """The same rows, in any order."""
    require(len(got) == len(want), lambda: '%s: %d observations, expected %d: %s' % (what, len(got), len(want), got))
    got, want = sorted(got), sorted(want)
    for g, w in zip(got, want):
        require(len(g) == len(w) and all(abs(a - b) <= tolerance for a, b in zip(g, w)), lambda: '%s: observation %s, expected %s' % (what, g, w))


# ---------------------------------------------------------------------------------------- gridded files

LATITUDES = {'south': [-78.75, -78.5], 'north': [-77.75, -77.5], 'globe': [-45.0, 45.0]}
LONGITUDES = [-120.0, 0.125, 119.875]
FIELDS = {
    'satstace': {'Tmean': ('tas', 'tasuncertainty', []), 'Tmin': ('tasmin', 'tasminuncertainty', []), 'Tmax': ('tasmax', 'tasmaxuncertainty', [])},
    'land': {'Tmin': ('tasmin', 'unc_rand_tasmin', ['unc_corr_tasmin']), 'Tmax': ('tasmax', 'unc_rand_tasmax', ['unc_corr_tasmax'])},
    'ocean': {'Tmean': ('tas', 'unc_rand_tas', ['unc_corr_tas'])},
    'ice': {'Tmean': ('tas', 'RU', ['SSU']), 'Tmin': ('tasmin', 'RUmin', ['SSUmin']), 'Tmax': ('tasmax', 'RUmax', ['SSUmax'])},
}


def field_value(name, cell, base):
    """Distinct for every field and cell; multiples of the packing step; in kelvin or celsius as base says."""
    k = sum(ord(c) * (3 + i) for i, c in enumerate(name)) % 997
    return base + 0.005 * (10 * (k + 1) + 1007 * cell)


def grid_file(path, kind, latitudes, masks, packed, day=DAY, longitudes=None):
    """masks[observable]: string of v/m per cell (row major)."""
    d = netCDF4.Dataset(path, 'w')
    ocean = kind == 'ocean'
    dims = ('nlat', 'nlon') if ocean else ('time', 'latitude', 'longitude')
    if not ocean:
        d.createDimension('time', 1)
    d.createDimension(dims[-2], len(latitudes))
    d.createDimension(dims[-1], len(LONGITUDES))
    if ocean:
        d.createDimension('one', 1)
    v = d.createVariable('time', 'f8', ('one' if ocean else 'time',))
    v.units, v.calendar = 'days since 1850-01-01 00:00:00', 'standard'
    if not ocean:
        v.standard_name = 'time'
    v[:] = [day]
    for name, values, unit, dim in (('latitude', latitudes, 'degrees_north', dims[-2]), ('longitude', longitudes or LONGITUDES, 'degrees_east', dims[-1])):
        v = d.createVariable(name, 'f4', (dim,))
        if not ocean:
            v.standard_name, v.units = name, unit
        v[:] = values
    for observable, (main, unc, correlated) in FIELDS[kind].items():
        for name in [main, unc] + correlated:
            temperature = name == main
            base = (0.0 if ocean else 273.15) if temperature else 0.0
            values = numpy.ma.masked_array([field_value(name, c, base) for c in range(len(latitudes) * len(LONGITUDES))], mask=[m == 'm' for m in masks[observable]])
            if packed:
                v = d.createVariable(name, 'i2', dims, fill_value=-32768)
                v.scale_factor, v.add_offset = 0.005, base
            else:
                v = d.createVariable(name, 'f8', dims, fill_value=-9999.0)
            v[:] = values.reshape([1] * (len(dims) - 2) + [len(latitudes), len(LONGITUDES)])
    d.close()


def grid_rows(kind, observable, latitudes, mask, day=DAY):
    main, unc, correlated = FIELDS[kind][observable]
    rows = {}
    for c, (lat, lon) in enumerate(itertools.product(latitudes, LONGITUDES)):
        if mask[c] == 'v':
            rows[(lat, lon)] = (day, field_value(main, c, 273.15), field_value(unc, c, 0.0)) + tuple(field_value(k, c, 0.0) for k in correlated)
    return rows


def flat(rows):
    return [k + v for k, v in rows.items()]


def mean_rows(a, b):
    result = {}
    for key in set(a) & set(b):
        x, y = a[key], b[key]
        result[key] = (x[0], 0.5 * (x[1] + y[1])) + tuple(numpy.sqrt(0.5 * (p * p + q * q)) for p, q in zip(x[2:], y[2:]))
    return result


class Grids(Harness):
    name = 'grids'
    chunk = 4

    def bounds(self, tier):
        return 'all %s missing patterns of a 2 x 3 grid for each gridded source (surface-air, land, ocean, ice north and south), packed and floating point, every observable; the daily mean of land from every pair of %s patterns of minimum and maximum' % ('64', '16' if tier == 'quick' else '64')

    def cases(self, tier):
        patterns = [''.join(p) for p in itertools.product('vm', repeat=6)]
        for kind in ('satstace', 'ocean', 'ice', 'combined'):
            for p in patterns:
                for packed in (0, 1):
                    yield dict(kind=kind, mask=p, packed=packed)
        short = [p for p in patterns if p[1] == p[4] == 'v'] if tier == 'quick' else patterns
        for p in patterns:
            yield dict(kind='land', mask=p, others=short)

    def run(self, case, rec):
        kind, mask = case['kind'], case['mask']
        with scratch() as folder:
            path = os.path.join(folder, 'grid.nc')
            if kind == 'land':
                for other in case['others']:
                    grid_file(path, 'land', LATITUDES['globe'], {'Tmin': mask, 'Tmax': other}, 0)
                    with quiet():
                        source = ObservationSourceLandMetOfficeWP1(path)
                        for observable in ('Tmin', 'Tmax', 'Tmean', 'Tmin'):
                            rec.step()
                            low, high = grid_rows('land', 'Tmin', LATITUDES['globe'], mask), grid_rows('land', 'Tmax', LATITUDES['globe'], other)
                            want = {'Tmin': low, 'Tmax': high, 'Tmean': mean_rows(low, high)}[observable]
                            agree(delivered(source, observable, 'land ' + observable), flat(want), 'land %s, minimum %s, maximum %s' % (observable, mask, other))
                            require(list(source.local_correlation_length_scale(observable)) == [1.0], 'correlation range of land')
                            rec.state((observable, sorted(want.items())))
                return
            reverse = mask[::-1]
            masks = {o: mask if o != 'Tmax' else reverse for o in ('Tmean', 'Tmin', 'Tmax')}
            if kind == 'combined':
                south, north = os.path.join(folder, 'sh.nc'), os.path.join(folder, 'nh.nc')
                grid_file(south, 'ice', LATITUDES['south'], masks, case['packed'])
                grid_file(north, 'ice', LATITUDES['north'], {o: m[::-1] for o, m in masks.items()}, case['packed'])
                with quiet():
                    source = ObservationSourceIceDMICombined([south, north])
                    for observable in ('Tmean', 'Tmin', 'Tmax', 'Tmean'):
                        rec.step()
                        want = grid_rows('ice', observable, LATITUDES['south'], masks[observable])
                        want.update(grid_rows('ice', observable, LATITUDES['north'], masks[observable][::-1]))
                        agree(delivered(source, observable, 'ice'), flat(want), 'both hemispheres of ice %s' % observable)
                        rec.state((observable, sorted(want.items())))
                    require(source.number_of_observations() == 12, 'number of cells in both files')
                    for wrong in ([north, south], [south], [south, south]):
                        try:
                            ObservationSourceIceDMICombined(wrong)
                        except ValueError:
                            rec.outcome('refused')
                            continue
                        require(False, 'ice files accepted although they are not south and north in this order')
                return
            grid_file(path, kind, LATITUDES['globe'], masks, case['packed'])
            with quiet():
                make = {'satstace': lambda p: ObservationSourceSatstace(['Tmean', 'Tmin', 'Tmax'], p), 'ocean': ObservationSourceOceanMetOfficeWP1, 'ice': ObservationSourceIceDMI}[kind]
                source = make(path)
                for observable in list(FIELDS[kind]) + list(FIELDS[kind])[:1]:
                    rec.step()
                    want = grid_rows(kind, observable, LATITUDES['globe'], masks[observable])
                    agree(delivered(source, observable, kind), flat(want), '%s %s, missing %s' % (kind, observable, masks[observable]))
                    require(len(source.local_correlation_length_scale(observable)) == len(FIELDS[kind][observable][2]), 'one correlation range per correlated error')
                    rec.state((kind, observable, sorted(want.items())))
                require(source.number_of_observations() == 6, 'number of cells')


# ---------------------------------------------------------------------------------------- combination of sets

def observation_set(locations, mask, terms, base, time=DAY):
    n = len(locations)
    column = lambda j: numpy.array([base + 10.0 * l + 3.0 * j + 1.0 for l in locations], numpy.float64)
    return Observations(numpy.array([m == 'm' for m in mask], bool), time, numpy.array(locations, numpy.uint64), column(0), column(1), [column(2 + j) for j in range(terms)])


def set_rows(found):
    return {int(l): tuple(float(c[i]) for c in [found.measurement, found.uncorrelatederror] + list(found.locallycorrelatederror)) for i, l in enumerate(found.location) if not found.mask[i]}


def copy_of(o):
    return [numpy.array(x) for x in (o.mask, o.time, o.location, o.measurement, o.uncorrelatederror)] + [numpy.array(c) for c in o.locallycorrelatederror]


class Combined(Harness):
    """Mean of two sets, and one set appended to another."""
    name = 'combined'
    chunk = 16

    def bounds(self, tier):
        return 'every pair of ordered location lists (up to %d of 3 locations, all orders) x all masks x 0-2 correlated terms, mean and append with location offsets, other times, numbers of terms and orders refused' % (2 if tier == 'quick' else 3)

    def cases(self, tier):
        limit = 2 if tier == 'quick' else 3
        lists = [l for k in range(limit + 1) for l in itertools.permutations(range(3), k)]
        for a in lists + [(0, 1, 2)]:
            for b in lists + [(0, 1, 2)]:
                yield dict(a=a, b=b)

    def run(self, case, rec):
        a, b = tuple(case['a']), tuple(case['b'])
        for ma in itertools.product('vm', repeat=len(a)):
            for mb in itertools.product('vm', repeat=len(b)):
                for ta, tb in ((0, 0), (1, 1), (2, 2), (1, 2), (0, 1)):
                    for later in (0, 1):
                        if later and (ta, tb) != (1, 1):
                            continue
                        rec.step()
                        self.mean(a, b, ma, mb, ta, tb, later, rec)
                        self.append(a, b, ma, mb, ta, tb, later, rec)

    def mean(self, a, b, ma, mb, ta, tb, later, rec):
        x, y = observation_set(a, ma, ta, 100.0), observation_set(b, mb, tb, 200.5, DAY + later)
        before = copy_of(x), copy_of(y)
        common = set(a) & set(b)
        orders = [l for l in a if l in common] == [l for l in b if l in common]
        try:
            with quiet():
                found = Observations.mean(x, y)
        except ValueError:
            require(later or ta != tb or not orders, 'sets that agree in time, terms and order are refused')
            rec.outcome('mean refused')
            return
        require(not later, 'mean of sets of different times')
        require(ta == tb, 'mean of sets with different numbers of correlated terms')
        # where the orders differ the sets may be refused but not mixed up
        rows_a, rows_b = set_rows(x), set_rows(y)
        want = {l: (0.5 * (rows_a[l][0] + rows_b[l][0]),) + tuple(numpy.sqrt(0.5 * (p * p + q * q)) for p, q in zip(rows_a[l][1:], rows_b[l][1:])) for l in common if l in rows_a and l in rows_b}
        got = set_rows(found)
        require(set(got) == set(want) and all(len(got[l]) == len(want[l]) and numpy.allclose(got[l], want[l], rtol=1e-6) for l in want), lambda: 'mean of %s %s and %s %s is %s, expected %s' % (a, ma, b, mb, got, want))
        require(int(numpy.sum(~found.mask)) == len(want), 'an observation is there twice')
        require(float(found.time) == DAY, 'time of the mean')
        require(all(numpy.array_equal(p, q) for s, t in zip(before, (x, y)) for p, q in zip(s, copy_of(t))), 'the sets combined were changed')
        rec.state(('mean', sorted(want.items())))

    def append(self, a, b, ma, mb, ta, tb, later, rec):
        x, y = observation_set(a, ma, ta, 100.0), observation_set(b, mb, tb, 200.5, DAY + later)
        rows_a, rows_b, before = set_rows(x), set_rows(y), copy_of(y)
        try:
            with quiet():
                x.append(y, 3)
        except ValueError:
            require(later or ta != tb, 'sets that agree in time and terms are not appended')
            rec.outcome('append refused')
            return
        require(not later and ta == tb, 'sets of different times or terms appended')
        want = dict(rows_a)
        want.update({l + 3: r for l, r in rows_b.items()})
        got = set_rows(x)
        require(got == want and len(x.measurement) == len(a) + len(b), lambda: 'appended %s %s to %s %s: %s, expected %s' % (b, mb, a, ma, got, want))
        require(all(numpy.array_equal(p, q) for p, q in zip(before, copy_of(y))), 'the set appended was changed')
        rec.state(('append', sorted(want.items())))


class Connector(Harness):
    """What an analysis sees of a set of observations."""
    name = 'connector'

    def bounds(self, tier):
        return 'all masks and location assignments (with repetition) of up to %d observations over 4 locations with longitudes on both sides of the date line and in 0..360' % (3 if tier == 'quick' else 4)

    TABLE = numpy.array([[-89.5, 10.0, 0.0, 45.25], [-180.0, 180.0, 359.75, 179.75]])
    ERRORS = [0.5, 1e-3, 40.0, 1.25]

    def cases(self, tier):
        for k in range(4 if tier == 'quick' else 5):
            for locations in itertools.product(range(4), repeat=k):
                yield dict(locations=locations)

    def run(self, case, rec):
        locations = case['locations']
        n = len(locations)
        for mask in itertools.product('vm', repeat=n):
            rec.step()
            held = Observations(numpy.array([m == 'm' for m in mask], bool), DAY, numpy.array(locations, numpy.uint64), 280.0 + numpy.arange(n), numpy.array(self.ERRORS[:n]), [])
            table = numpy.array(self.TABLE)
            before = copy_of(held)
            with quiet():
                view = ObservationStructureSourceConnector(Held(table, held), 'Tmean', EPOCH + datetime.timedelta(days=DAY))
                # asked twice: the answer does not wear out
                for again in range(2):
                    valid = [i for i in range(n) if mask[i] == 'v']
                    require(view.number_of_observations() == len(valid), 'number of observations seen')
                    require(view.time_index() == DAY and view.time_datetime() == EPOCH + datetime.timedelta(days=DAY), 'time seen')
                    values = numpy.asarray(view.observation_vector()).ravel()
                    require(numpy.array_equal(values, [280.0 + i for i in valid]), lambda: 'values seen are %s' % values)
                    precision = view.observation_precision()
                    require(numpy.allclose(precision.toarray(), numpy.diag([1.0 / self.ERRORS[i] ** 2 for i in valid]).reshape(len(valid), len(valid)), rtol=1e-12) if valid else precision.shape[0] in (0,), 'precision is that of other observations')
                    if valid:
                        places = numpy.asarray(view.location_polar_coordinates())
                        require(places.shape == (len(valid), 2), 'shape of locations')
                        for row, i in enumerate(valid):
                            lat, lon = self.TABLE[:, locations[i]]
                            require(places[row, 0] == lat and places[row, 1] == wrapped(lon), lambda: 'observation %d at %s, expected %s' % (i, places[row], (lat, wrapped(lon))))
            require(numpy.array_equal(table, self.TABLE), 'the location table was changed by looking at it')
            require(all(numpy.array_equal(p, q) for p, q in zip(before, copy_of(held))), 'the observations were changed by looking at them')
            rec.state((locations, mask))


# ---------------------------------------------------------------------------------------- text files

SHIP_COLUMNS = ['UID', 'ID', 'Lat', 'Lon', 'year', 'month', 'day', 'hour', 'Air', 'T']


def ship_format(path):
    with open(path, 'w') as f:
        f.write('A description\n\n' + '  '.join(SHIP_COLUMNS) + '\n')


def ship_file(path, rows):
    with gzip.open(path, 'wb') as f:
        for i, (name, lat, lon, day, temperature) in enumerate(rows):
            date = EPOCH + datetime.timedelta(days=day)
            f.write((''.join('%8s' % x for x in (i, name, lat, lon, date.year, date.month, date.day, 12 + i % 12, temperature)) + '\n').encode())


def lake_file(path, rows):
    with open(path, 'w') as f:
        f.write('DateTime\tlat\tlon\tfTa\n')
        for lat, lon, day, temperature in rows:
            f.write('%s\t%s\t%s\t%s\n' % ((EPOCH + datetime.timedelta(days=day)).strftime('%Y-%m-%d'), lat, lon, temperature))


# (the days offset by 1 are in another month and year, see TURN)
TURN = 57342  # 31 December 2006
SHIPS = [('SHIP1', 101, -1799, 0, 2155), ('#A 2', -455, 3, 1, -130), ('B', 899, 1800, 0, 0), ('SHIP1', 101, -1799, 1, 2155), ('X', 0, 0, 0, 1)]
# places that differ by little, by trade-off between latitude and longitude, and not at all
LAKES = [(47.585, -86.585, 0, 3.5), (47.585, -86.585, 1, -0.25), (0.5, 0.0, 0, 10.0), (0.25, 90.0, 0, 20.0), (-0.25, -90.0, 1, 30.0), (47.585, -86.59, 0, 7.0)]


class Text(Harness):
    name = 'text'
    chunk = 4

    def bounds(self, tier):
        return 'every ordered selection of up to %d ship reports and up to %d lake readings from alphabets of five and six (repeated places, nearby places, places whose latitude and longitude trade off, names with blanks and comment signs), read directly and through daily binary files' % ((2, 3) if tier == 'quick' else (3, 4))

    def cases(self, tier):
        ships, lakes = (2, 3) if tier == 'quick' else (3, 4)
        for k in range(1, ships + 1):
            for choice in itertools.product(range(5), repeat=k):
                yield dict(kind='ship', rows=choice)
        for k in range(1, lakes + 1):
            for choice in itertools.permutations(range(6), k):
                yield dict(kind='lake', rows=choice)

    def run(self, case, rec):
        with scratch() as folder:
            at = lambda name: os.path.join(folder, name)
            if case['kind'] == 'ship':
                rows = [SHIPS[i] for i in case['rows']]
                ship_format(at('format.txt'))
                ship_file(at('ships.txt.gz'), [(n, a, o, TURN + d, t) for n, a, o, d, t in rows])
                want = [(0.1 * a, 0.1 * o, TURN + d, 273.15 + 0.01 * t, 1.1) for n, a, o, d, t in rows]
                with quiet():
                    insitu_ocean.ObservationSourceInsituOceanHadNMAT2Default.FORMAT = at('format.txt')
                    source = insitu_ocean.ObservationSourceInsituOceanHadNMAT2Default(at('ships.txt.gz'))
            else:
                rows = [LAKES[i] for i in case['rows']]
                lake_file(at('lake.txt'), [(a, o, TURN + d, t) for a, o, d, t in rows])
                want = [(a, o, TURN + d, 273.15 + t, 5.0) for a, o, d, t in rows]
                with quiet():
                    source = ObservationSourceLakeReading(at('lake.txt'))
            rec.step()
            agree(delivered(source, 'Tmean', case['kind']), want, case['kind'], 1e-3)
            require(source.number_of_observations() == len(rows), 'number of observations')
            require(list(source.observables()) == ['Tmean'], 'observables')
            if case['kind'] == 'lake':
                places = numpy.array(source.observation_location_lookup()).T
                require(len(places) == len(set((a, o) for a, o, d, t in rows)), lambda: 'table of %d places for %d lakes' % (len(places), len(set((a, o) for a, o, d, t in rows))))
                with quiet():
                    preparelocationlookup.run(at('locations.bin'), at('lake.txt'), 'surfaceairmodel_lake')
            name = {'ship': 'insitu_ocean', 'lake': 'surfaceairmodel_lake'}[case['kind']]
            infile = at({'ship': 'ships.txt.gz', 'lake': 'lake.txt'}[case['kind']])
            with quiet():
                preparecorrelationranges.run(at('ranges.bin'), infile, name, 'Tmean')
            for day in (TURN, TURN + 1, TURN + 2):
                rec.step()
                date = EPOCH + datetime.timedelta(days=day)
                with quiet():
                    if case['kind'] == 'ship':
                        preparedailymobile.run_day(at('obs.bin'), at('locations.bin'), infile, date, name, 'Tmean')
                    else:
                        preparedailyfixed.run_day(at('obs.bin'), at('locations.bin'), infile, date, name, 'Tmean')
                    loader = AnalysisSystemInputLoaderRawBinary_OneDay({'Tmean': at('ranges.bin')}, day, {'Tmean': at('obs.bin')},
                                                                      **({'mobile_location_lookup_filenames': {'Tmean': at('locations.bin')}} if case['kind'] == 'ship' else {'fixed_location_lookup_filename': at('locations.bin')}))
                    view = loader.load_observation_structure('Tmean', day)
                    agree(seen(view), [(w[0], wrapped(w[1])) + w[2:] for w in want if w[2] == day], '%s on day %d' % (case['kind'], day), 1e-3)
            rec.state((case['kind'], sorted(want)))


def seen(view):
    """Rows of what the analysis is given."""
    if view.number_of_observations() == 0:
        return []
    places = numpy.asarray(view.location_polar_coordinates())
    values = numpy.asarray(view.observation_vector()).ravel()
    errors = 1.0 / numpy.sqrt(view.observation_precision().diagonal())
    return [(float(p[0]), float(p[1]), float(view.time_index()), float(v), float(e)) for p, v, e in zip(places, values, errors)]


# ---------------------------------------------------------------------------------------- from grids to the analysis

class Prepared(Harness):
    """Gridded files through the binary files to what the analysis is given."""
    name = 'prepared'
    chunk = 2

    def bounds(self, tier):
        return 'all %d missing patterns of minimum and maximum on a 2 x 3 grid, each of the observables with a file, without a file, or with the file of another location table' % (16 if tier == 'quick' else 64)

    def cases(self, tier):
        for p in itertools.product('vm', repeat=6):
            if tier == 'quick' and p[1] + p[4] != 'vv':
                continue
            for absent in ('', 'Tmin', 'Tmax', 'both'):
                yield dict(mask=''.join(p), absent=absent)

    def run(self, case, rec):
        mask = case['mask']
        masks = {'Tmean': mask, 'Tmin': mask, 'Tmax': 'v' + mask[1:][::-1]}
        with scratch() as folder:
            at = lambda name: os.path.join(folder, name)
            grid_file(at('grid.nc'), 'satstace', LATITUDES['globe'], masks, 1)
            name = 'surfaceairmodel_land'
            with quiet():
                preparelocationlookup.run(at('locations.bin'), at('grid.nc'), name)
                table = raw.LocationLookupRawBinaryReader().read(at('locations.bin'))
                agree([tuple(map(float, c)) for c in table.lookuptable.T], list(itertools.product(LATITUDES['globe'], LONGITUDES)), 'location table')
                for observable in ('Tmean', 'Tmin', 'Tmax'):
                    preparecorrelationranges.run(at('ranges_%s.bin' % observable), at('grid.nc'), name, observable)
                    preparedailyfixed.run_day(at(observable + '.bin'), at('locations.bin'), at('grid.nc'), EPOCH + datetime.timedelta(days=DAY), name, observable)
                # a file of other places than those of the table is refused
                if case['absent'] == '':
                    for shift, axis, which in itertools.product((-0.25, 0.25), (0, 1), (0, -1)):
                        rec.step()
                        lat, lon = list(LATITUDES['globe']), list(LONGITUDES)
                        changed = (lat, lon)[axis]
                        changed[which] += shift
                        if axis == 0 and abs(changed[which]) > 90.0:
                            continue
                        grid_file(at('shifted.nc'), 'satstace', lat, masks, 1, longitudes=lon)
                        affected = any(m == 'v' and (a, o) != (p, q) for m, (a, o), (p, q) in zip(masks['Tmean'], itertools.product(lat, lon), itertools.product(LATITUDES['globe'], LONGITUDES)))
                        try:
                            preparedailyfixed.run_day(at('shifted.bin'), at('locations.bin'), at('shifted.nc'), EPOCH + datetime.timedelta(days=DAY), name, 'Tmean')
                            refused = False
                        except ValueError:
                            refused = True
                        require(refused or not affected, lambda: 'observations %s at latitudes %r, longitudes %r taken for those of latitudes %r, longitudes %r' % (masks['Tmean'], lat, lon, LATITUDES['globe'], LONGITUDES))
                # the errors of these files may be correlated over any number of ranges
                for terms in (0, 2):
                    rec.step()
                    if terms:
                        for observable in ('Tmin', 'Tmax'):
                            rows = raw.ObservationRawBinaryReader(0).read_day(at(observable + '.bin'), table.uuid, DAY)
                            rows.locallycorrelatederror = [numpy.array(rows.uncorrelatederror) * (k + 2.0) for k in range(terms)]
                            rows.mask, rows.time = numpy.zeros(len(rows.location), bool), numpy.array(DAY)
                            raw.ObservationRawBinaryWriter().write_day(at(observable + '.bin'), table.uuid, rows, DAY)
                            raw.LocalCorrelationRangeRawBinaryWriter().write(at('ranges_%s.bin' % observable), [10.0 * (k + 1) for k in range(terms)])
                    files = {o: None if case['absent'] in (o, 'both') else at(o + '.bin') for o in ('Tmin', 'Tmax')}
                    loader = AnalysisSystemInputLoaderRawBinary_OneDay({o: at('ranges_%s.bin' % o) for o in ('Tmin', 'Tmax')}, DAY, files, fixed_location_lookup_filename=at('locations.bin'))
                    rows = {o: grid_rows('satstace', o, LATITUDES['globe'], masks[o]) if files[o] else {} for o in files}
                    for observable in ('Tmin', 'Tmax', 'Tmean'):
                        view = loader.load_observation_structure(observable, DAY)
                        want = mean_rows(rows['Tmin'], rows['Tmax']) if observable == 'Tmean' else rows[observable]
                        agree(seen(view), flat(want), 'analysis input %s of %s, no file for %r' % (observable, masks, case['absent']))
                        rec.state((observable, sorted(want.items())))
                        rec.outcome(len(want))
                # Tmean has a file of its own: it is used
                loader = AnalysisSystemInputLoaderRawBinary_OneDay({'Tmean': at('ranges_Tmean.bin')}, DAY, {'Tmean': at('Tmean.bin')}, fixed_location_lookup_filename=at('locations.bin'))
                agree(seen(loader.load_observation_structure('Tmean', DAY)), flat(grid_rows('satstace', 'Tmean', LATITUDES['globe'], mask)), 'analysis input Tmean')


HARNESSES = [Grids(), Combined(), Connector(), Text(), Prepared()]
