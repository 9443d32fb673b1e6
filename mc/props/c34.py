"""C34: written product values are within packing resolution or marked missing."""
import itertools
import os
import warnings

import iris
import netCDF4
import numpy

from mc.core import Harness, require
from mc.env import old_netcdf, quiet, scratch

with quiet():
    old_netcdf('eustace.outputformats.iriscubesaver')
    from eustace.outputformats import definitions
    from eustace.outputformats.filebuilder import FileBuilder
    from eustace.outputformats.globalfield import GlobalFieldCubeList
    from eustace.outputformats.globalfield_filebuilder import DatasetAttributesGlobalField, FileBuilderGlobalField
    from eustace.outputformats.iriscubesaver import NetCDFSaverEUSTACE
    from eustace.outputformats.outputvariable import OutputVariable
    from eustace.outputformats.stationdata import (MeasurementTime, StationBreak, StationBreakDetectionQuality, StationData, StationDescription, StationDescriptionArray,
                                                   StationTemperatureSample)
    from eustace.outputformats.stations import FileBuilderStationData
    from eustace.satgrid_iris import saver

SHAPE = (1, 720, 1440)
ATTRIBUTES = DatasetAttributesGlobalField('Example', 'A', 'tas', 'MO', '', '', 'B')
VARIABLES = dict((name, v) for name, v in sorted(vars(definitions).items()) if isinstance(v, OutputVariable))
# those of one form are alike: name of the first with a given form -> all names
PACKED = {}
for _name, _v in VARIABLES.items():
    if _v.scale_factor is not None:
        PACKED.setdefault((numpy.dtype(_v.dtype).str, _v.fill_value, _v.scale_factor, _v.add_offset), []).append(_name)


def limits(dtype):
    info = numpy.iinfo(dtype)
    return int(info.min), int(info.max)


def every_value(dtype, scale, offset):
    """All codes and places between them, ends of the range, and what cannot be held: (values, numbers before rounding)."""
    low, high = limits(dtype)
    if high > 70000:
        ends = numpy.arange(0, 3000)
        codes = numpy.concatenate([low + ends, ends - 1500, high - ends, 2 ** numpy.arange(15, 31), -(2 ** numpy.arange(15, 31))]).astype(float)
    else:
        codes = numpy.arange(low, high + 1).astype(float)
    inside = numpy.concatenate([codes, codes + 0.25, codes - 0.25, codes + 0.49, codes - 0.49])
    span = float(high - low + 1)
    beyond = [low - 1.0, low - 2.0, low - span / 2, high + 1.0, high + 2.0, high + span / 2, high + span, low - span, high + span + 100, 1e7, -1e7, 1e10, -1e10, 1e12, -1e12, 1e20, -1e20,
              numpy.nan, numpy.inf, -numpy.inf]
    numbers = numpy.concatenate([inside, beyond])
    return numbers * scale + offset, numbers


def judge(found, masked, values, missing, dtype, fill, scale, offset, note):
    """found: what a reader gets; masked: where it gets nothing; values, missing: what was handed over."""
    low, high = limits(dtype)
    with numpy.errstate(all='ignore'):
        number = (values - offset) / scale
        slack = 0.01 + abs(values) * 1e-6 / scale
        sure = (number > low - 0.5 + slack) & (number < high + 0.5 - slack) & (abs(number - fill) > 0.5 + slack)
        unsure = ~sure & (number > low - 0.5 - slack) & (number < high + 0.5 + slack)
        near = abs(found - values) <= 0.5 * scale + abs(values) * 1e-6 + 0.01 * scale
    lost = ~missing & sure & masked
    require(not lost.any(), lambda: '%s: %r becomes missing' % (note, values[lost][0]), 'lost')
    wrong = ~missing & ~masked & ~near
    require(not wrong.any(), lambda: '%s: %r is read as %r' % (note, values[wrong][0], found[wrong][0]), 'wrong')
    made = missing & ~masked
    require(not made.any(), lambda: '%s: a missing value is read as %r' % (note, found[made][0]), 'made')
    out = ~missing & ~sure & ~unsure & ~masked
    require(not out.any(), lambda: '%s: %r cannot be held but is read as %r' % (note, values[out][0], found[out][0]), 'out')


def read(path, name):
    with netCDF4.Dataset(path) as f:
        data = numpy.ma.asarray(f.variables[name][:])
        return numpy.ma.getdata(data).astype(float), numpy.ma.getmaskarray(data)


FORMS = ('masked64', 'masked32', 'plain64', 'plain32', 'nomask', 'view')


def form_of(kind, values, missing):
    """The array handed over, and what it says is missing."""
    wide = kind.endswith('32') and numpy.float32 or numpy.float64
    with numpy.errstate(all='ignore'):
        data = values.astype(wide)
    if kind.startswith('plain'):
        return data, numpy.zeros(data.shape, bool)
    if kind == 'nomask':
        return numpy.ma.masked_array(data), numpy.zeros(data.shape, bool)
    hidden = data.copy()
    hidden[missing] = numpy.resize(numpy.array([numpy.nan, 1e30, -99.0, 273.15], wide), int(missing.sum()))
    if kind == 'view':
        hidden = numpy.asfortranarray(hidden)
    return numpy.ma.masked_array(hidden, mask=missing), missing


class GlobalField(Harness):
    """All codes of every kind of variable, in every array form."""
    name = 'globalfield'
    chunk = 1

    def cases(self, tier):
        for key, names in PACKED.items():
            for form in FORMS:
                yield dict(names=names if tier == 'thorough' else names[:2] + names[-1:], form=form)
        yield dict(parameter=True)
        yield dict(axes=True)

    def run(self, case, rec):
        with scratch() as folder:
            path = os.path.join(folder, 'deeper', 'x.nc')
            day = 60000
            builder = FileBuilderGlobalField(path, day, **ATTRIBUTES.__dict__)
            if case.get('axes'):
                builder.save_and_close()
                with netCDF4.Dataset(path) as f:
                    require(numpy.allclose(f['latitude'][:], -89.875 + 0.25 * numpy.arange(720), atol=1e-4), 'latitudes', 'axes')
                    require(numpy.allclose(f['longitude'][:], -179.875 + 0.25 * numpy.arange(1440), atol=1e-4), 'longitudes', 'axes')
                    require(numpy.allclose(f['timeoffset'][:], (-179.875 + 0.25 * numpy.arange(1440)) / 360, atol=1e-6), 'time offsets', 'axes')
                    require(f['time'][:].tolist() == [day] and f['timebounds'][:].tolist() == [[day, day + 1]], 'time', 'axes')
                rec.step()
                return
            if case.get('parameter'):
                field = OutputVariable('p', numpy.int16, -32768, scale_factor=definitions.TEMPERATURE_UNCERTAINTY_SCALE_FACTOR, add_offset=definitions.TEMPERATURE_UNCERTAINTY_ADD_OFFSET)
                fields = dict(p=field)
            else:
                fields = dict((VARIABLES[n].name, VARIABLES[n]) for n in case['names'])
            given = {}
            for i, (name, v) in enumerate(fields.items()):
                values, numbers = every_value(v.dtype, v.scale_factor, v.add_offset or 0.0)
                values = numpy.resize(numpy.roll(values, 1000 * i), SHAPE)
                missing = (numpy.arange(values.size).reshape(SHAPE) % 7 == i % 7)
                data, missing = form_of(case.get('form', 'masked64'), values, missing)
                before = numpy.array(numpy.ma.getdata(data)), numpy.array(numpy.ma.getmaskarray(data))
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    if case.get('parameter'):
                        builder.add_uncertainty_parameter(name, 'A long name', data)
                    else:
                        builder.add_global_field(v, data)
                require(numpy.array_equal(numpy.ma.getdata(data)[~missing], before[0][~missing], equal_nan=True) and numpy.array_equal(numpy.ma.getmaskarray(data), before[1]), 'writing changed the data handed over', 'changed')
                given[name] = numpy.array(numpy.ma.getdata(data), float), missing
                rec.step(len(numbers))
            builder.save_and_close()
            for name, v in fields.items():
                found, masked = read(path, v.name)
                judge(found, masked, given[name][0], given[name][1], v.dtype, v.fill_value, v.scale_factor, v.add_offset or 0.0, '%s (%s)' % (name, case.get('form')))
                rec.state((name, case.get('form')))
            rec.outcome(case.get('form'))

    def bounds(self, tier):
        return 'all codes of 16-bit variables (ends and middle of 32-bit ones), five places within each step, 20 values out of range or undefined; %s variables of every kind; six array forms' % ('all' if tier == 'thorough' else 'three')


class Plain(Harness):
    """Variables that are not packed, one-dimensional and two-dimensional, compressed or not."""
    name = 'plain'
    chunk = 2

    def cases(self, tier):
        for dtype in ('i1', 'u1', 'i2', 'i4', 'f4', 'f8'):
            for fill in ('none', 'own'):
                for dims in (1, 2):
                    for complevel in (0, 4):
                        for form in ('masked64', 'plain64', 'integer'):
                            if not (dtype.startswith('f') and form == 'integer'):
                                yield dict(dtype=dtype, fill=fill, dims=dims, complevel=complevel, form=form)

    def run(self, case, rec):
        dtype = numpy.dtype(case['dtype'])
        if dtype.kind == 'f':
            values = numpy.array([0.0, -0.5, 1.5, 1e-3, 273.15, -1e5, 1e5, 3.25])
            values = values.astype(dtype).astype(float)
        else:
            low, high = limits(dtype)
            values = numpy.array(sorted(set(list(range(max(low, -300), min(high, 300) + 1)) + [low, low + 1, high - 1, high] + [low - 1, high + 1, low - 300, high + 300, high + 70000])), float)
        fill = None if case['fill'] == 'none' else (-99.0 if dtype.kind == 'f' else 99)
        missing = numpy.arange(len(values)) % 5 == 2
        if case['form'] == 'integer':
            data, missing = numpy.ma.masked_array(values.astype('i8'), mask=missing), missing
        else:
            data, missing = form_of(case['form'], values, missing)
            if dtype.kind != 'f':
                data = numpy.ma.masked_array(numpy.nan_to_num(numpy.ma.getdata(data)), mask=missing) if missing.any() else data
        if case['dims'] == 2:
            data, values2, missing2 = numpy.ma.vstack([data, data[::-1]]), numpy.stack([values, values[::-1]]), numpy.stack([missing, missing[::-1]])
        else:
            values2, missing2 = values, missing
        if case['form'] == 'plain64':
            data = numpy.ma.getdata(data)
        with scratch() as folder:
            path = os.path.join(folder, 'x.nc')
            builder = FileBuilder()
            builder.create(path, 'title', 'here', '', '', '')
            builder.add_dimension('y', 2)
            builder.add_dimension('x', len(values))
            v = OutputVariable('v', dtype, fill, long_name='long', units='K')
            builder.add_variable(v, ('y', 'x') if case['dims'] == 2 else ('x',), data, case['complevel'])
            builder.save_and_close()
            found, masked = read(path, 'v')
            with netCDF4.Dataset(path) as f:
                require(f['v'].units == 'K' and f['v'].long_name == 'long' and f['v'].dtype == dtype, 'metadata', 'metadata')
        ignore = fill if fill is not None else netCDF4.default_fillvals[dtype.str[1:]]
        if dtype.kind == 'f':
            require(numpy.array_equal(masked, missing2), 'missing values', 'missing')
            require(numpy.array_equal(found[~masked], values2[~masked]), 'values', 'values')
        else:
            judge(found, masked, values2, missing2, dtype, ignore, 1.0, 0.0, repr(case))
        rec.step(values2.size)
        rec.state(case)
        rec.outcome((case['dtype'], case['form']))

    def bounds(self, tier):
        return 'six types, own or default fill value, one or two dimensions, compression, three forms of array'


class Iris(Harness):
    """Gridded satellite fields through the iris writer: every stored form, all codes."""
    name = 'iris'
    chunk = 1

    def cases(self, tier):
        for name in ('tsmean', 'tsmin', 'tsmax', 'tsvariance', 'tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_spl', 'tsmean_unc_sys', 'other'):
            for form in ('masked64', 'masked32', 'nomask'):
                yield dict(variable=name, form=form)

    def run(self, case, rec):
        name = case['variable']
        storage = NetCDFSaverEUSTACE.storage_override.get(name)
        require((storage is None) == (name == 'other'), 'storage of %s' % name, 'storage')
        if storage:
            values, numbers = every_value(storage.datatype, storage.scale_factor, storage.add_offset)
        else:
            values = numpy.linspace(-50, 400, 1000)
        missing = numpy.arange(len(values)) % 5 == 1
        data, missing = form_of(case['form'], values, missing)
        given = numpy.array(numpy.ma.getdata(data), float)
        with scratch() as folder:
            path = os.path.join(folder, 'x.nc')
            cube = iris.cube.Cube(data, var_name=name, units='K')
            with warnings.catch_warnings(), quiet():
                warnings.simplefilter('ignore')
                saver.write_cubes(path, 'source', iris.cube.CubeList([cube]))
            import gc
            gc.collect()
            found, masked = read(path, name)
        if storage:
            judge(found, masked, given, missing, storage.datatype, int(storage.fill_value), storage.scale_factor, storage.add_offset, '%s (%s)' % (name, case['form']))
        else:
            require(numpy.array_equal(masked, missing) and numpy.allclose(found[~masked], given[~masked], rtol=1e-6, atol=0), 'values of an unpacked field', 'unpacked')
        rec.step(len(values))
        rec.state(case)
        rec.outcome(case['form'])

    def bounds(self, tier):
        return 'all codes, five places within each step and 20 values out of range or undefined, of each variable stored by the satellite gridding; three array forms'


NAMES = ('Alpha', 'B', 'Station with a name of 32 signs.')
TIMES = (43342.0, 43343.0, 43350.0)


class Stations(Harness):
    """Every pattern of present samples for up to 3 stations and 3 days, through the station files."""
    name = 'stations'
    chunk = 40

    def cases(self, tier):
        for stations, times in ((1, 1), (1, 3), (2, 2), (3, 2)) + (((2, 3), (3, 3)) if tier == 'thorough' else ((2, 3),)):
            for pattern in itertools.product((0, 1), repeat=stations * times):
                if any(pattern):
                    for order in ('forward', 'backward'):
                        yield dict(stations=stations, times=times, pattern=list(pattern), order=order)
        for half in itertools.product(('value', 'nan', 'masked'), repeat=2):
            yield dict(stations=2, times=2, pattern=[1, 0, 1, 1], order='forward', half=list(half))
        yield dict(stations=2, times=2, pattern=[1, 0, 1, 1], order='forward', stranger=True)
        for extreme in range(len(self.EXTREMES)):
            yield dict(stations=2, times=3, pattern=[1, 0, 1, 1, 0, 1], order='forward', extreme=extreme)
        for break_at in itertools.product(range(3), repeat=2):
            yield dict(stations=3, times=2, pattern=[1] * 6, order='forward', breaks=list(break_at))

    # lowest and highest that can be stored, values beyond them, zero
    EXTREMES = [109.32, 109.0, 436.98, 437.2, 0.0, -50.0, 180.0, 350.5, 400.0, 273.15, 273.1501]

    def value(self, s, t, kind):
        return {'tasmin': 250.0, 'tasmax': 300.0}[kind] + 0.37 * s + 7.11 * t

    def run(self, case, rec):
        n, m = case['stations'], case['times']
        descriptions = StationDescriptionArray([StationDescription(NAMES[i], 10.0 * i, -20.0 * i, 5.0) for i in range(n)])
        data = StationData(descriptions)
        entries = [(s, t) for (t, s), p in zip(itertools.product(range(m), range(n)), case['pattern']) if p]
        half = case.get('half', ['value', 'value'])
        special = {'value': None, 'nan': float('nan'), 'masked': numpy.ma.masked}
        for s, t in (entries if case['order'] == 'forward' else entries[::-1]):
            a, b = self.value(s, t, 'tasmin'), self.value(s, t, 'tasmax')
            if 'extreme' in case and t == 1:
                a, b = self.EXTREMES[case['extreme']], self.EXTREMES[-1 - case['extreme']]
            if (s, t) == entries[0]:
                a = a if half[0] == 'value' else special[half[0]]
                b = b if half[1] == 'value' else special[half[1]]
            data.add_temperature_sample(StationTemperatureSample(NAMES[s], TIMES[t] + 0.0001 * s, a, s, b, t))
        axis = data.get_unique_temperature_sample_times()
        used = sorted(set(t for _, t in entries))
        require(len(axis) == len(used) and all(abs(x - TIMES[t]) < 0.0005 for x, t in zip(axis, used)), lambda: 'times are %r' % axis, 'times')
        rec.step(len(entries))
        if case.get('stranger'):
            data.add_temperature_sample(StationTemperatureSample('Nowhere', TIMES[0], 222.0, 0, 333.0, 0))
            try:
                samples = data.get_temperature_samples(axis, definitions.TASMIN)
            except (ValueError, KeyError, IndexError):
                return
            require(not numpy.any(abs(samples.compressed() - 222.0) < 1), 'sample of an unknown station given to others', 'stranger')
            return
        with scratch() as folder, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            builder = FileBuilderStationData(folder, region='Some', version='1', institution='here', comment='', history='', source='')
            builder.set_temperature_dimensions(descriptions, numpy.array(axis, numpy.float32))
            for v in (definitions.TASMIN, definitions.TASMAX):
                builder.add_temperature_variable(v, data.get_temperature_samples(axis, v))
            if case.get('breaks'):
                self.breaks(case, data, builder)
            builder.save_and_close()
            path = os.path.join(folder, definitions.STATIONS_TEMPERATURE_FILENAME_PATTERN.format(region='some', version='1'))
            with netCDF4.Dataset(path) as f:
                names = [b''.join(x for x in row.tolist() if x).decode() for row in numpy.ma.filled(f['station_name'][:], b'')]
                require(names == list(NAMES[:n]), lambda: 'names are %r' % names, 'names')
                require(numpy.allclose(f['time'][:], axis, atol=0.01), 'times', 'times')
                require(numpy.allclose(f['timebounds'][:], [[x, x + 1] for x in axis], atol=0.01), 'time bounds', 'times')
                for column, kind in enumerate(('tasmin', 'tasmax')):
                    field = numpy.ma.asarray(f[kind][:])
                    require(field.shape == (len(axis), n), 'shape', 'shape')
                    for i, t in enumerate(used):
                        for s in range(n):
                            present = (s, t) in entries and not ((s, t) == entries[0] and half[column] != 'value')
                            got = field[i, s]
                            want = self.value(s, t, kind)
                            if 'extreme' in case and t == 1:
                                want = self.EXTREMES[case['extreme'] if kind == 'tasmin' else -1 - case['extreme']]
                                present = present and 109.315 <= want <= 436.985
                            require((got is not numpy.ma.masked) == present, lambda: '%s of station %d at time %d is %r' % (kind, s, t, got), 'presence')
                            if present:
                                require(abs(float(got) - want) <= 0.00251, lambda: '%s of station %d at time %d is %r' % (kind, s, t, got), 'value')
            if case.get('breaks'):
                with netCDF4.Dataset(os.path.join(folder, definitions.STATIONS_STATUS_FILENAME_PATTERN.format(region='some', version='1'))) as f:
                    require(f['tasmin_break_station'][:].tolist() == case['breaks'][:1], 'station of break', 'breaks')
                    require(f['tasmax_break_station'][:].tolist() == case['breaks'], 'stations of breaks', 'breaks')
                    require(numpy.allclose(f['tasmax_break_amplitude'][:], [1.5, -2.5]), 'amplitudes', 'breaks')
                    require(numpy.allclose(f['tasmax_break_time_bounds'][:], [[1, 2], [3, 4]]), 'bounds of breaks', 'breaks')
                    require(f['detection_time'][:].tolist() == [43098.0, 43464.0] and f['tasmin_detection_qc'][:].tolist() == [2, 0] and f['tasmax_detection_qc'][:].tolist() == [1, 2], 'detection', 'breaks')
        rec.state((case['stations'], case['times'], case['pattern']))
        rec.outcome((case['stations'], case['times'], sum(case['pattern'])))

    def breaks(self, case, data, builder):
        data.add_break_detection_period(StationBreakDetectionQuality(43098.0, 2, 1))
        data.add_break_detection_period(StationBreakDetectionQuality(43464.0, 0, 2))
        data.add_break(definitions.TASMIN, StationBreak(NAMES[case['breaks'][0]], 0.5, [5.0, 6.0], [7.0, 8.0]))
        data.add_break(definitions.TASMAX, StationBreak(NAMES[case['breaks'][0]], 1.5, [1.0, 2.0], [1.0, 3.0]))
        data.add_break(definitions.TASMAX, StationBreak(NAMES[case['breaks'][1]], -2.5, [3.0, 4.0], [3.0, 5.0]))
        builder.add_status_dimension(definitions.DIMENSION_NAME_DETECTION_TIME)
        builder.add_status_dimension(definitions.DIMENSION_NAME_TASMIN_BREAK)
        builder.add_status_dimension(definitions.DIMENSION_NAME_TASMAX_BREAK)
        for v in (definitions.DETECTION_TIME, definitions.TASMIN_DETECTION_QC, definitions.TASMAX_DETECTION_QC):
            builder.add_status_variable(definitions.DIMENSION_NAME_DETECTION_TIME, v, data.get_break_detection_quality_variable(v))
        builder.add_status_variable(definitions.DIMENSION_NAME_TASMIN_BREAK, definitions.TASMIN_BREAK_STATION, data.get_break_variable(definitions.TASMIN_BREAK_STATION))
        for v in (definitions.TASMAX_BREAK_STATION, definitions.TASMAX_BREAK_AMPLITUDE):
            builder.add_status_variable(definitions.DIMENSION_NAME_TASMAX_BREAK, v, data.get_break_variable(v))
        builder.add_status_variable(definitions.DIMENSION_NAME_TASMAX_BREAK, definitions.TASMAX_BREAK_TIME_BOUNDS, data.get_break_variable(definitions.TASMAX_BREAK_TIME_BOUNDS), bounds=True)

    def bounds(self, tier):
        return 'all patterns of present samples for up to 3 stations and %d days in two orders; missing minimum or maximum; unknown station; breaks at any station' % (3 if tier == 'thorough' else 2)


class Times(Harness):
    """Sets of sample times around whole days: the time axis has each distinct time once."""
    name = 'times'
    chunk = 100

    def cases(self, tier):
        ticks = [-0.3, -0.0002, 0.0, 0.0002, 0.25, 0.9999, 0.99999, 1.0, 1.0001, 2.0]
        for k in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
            for times in itertools.permutations(ticks, k) if k < 4 else itertools.combinations(ticks, k):
                yield dict(times=[43000 + t for t in times])

    def run(self, case, rec):
        data = StationData(StationDescriptionArray([StationDescription(str(i), 0, 0, 0) for i in range(len(case['times']))]))
        for i, t in enumerate(case['times']):
            data.add_temperature_sample(StationTemperatureSample(str(i), t, 250.0 + i, 0, 300.0 + i, 0))
        axis = list(data.get_unique_temperature_sample_times())
        require(axis == sorted(axis), 'times out of order', 'order')
        require(all(b - a >= MeasurementTime.RESOLUTION - 1e-9 for a, b in zip(axis, axis[1:])), lambda: 'the same time twice: %r of %r' % (axis, case['times']), 'twice')
        require(all(any(abs(t - x) < MeasurementTime.RESOLUTION + 1e-9 for x in axis) for t in case['times']), 'time lost', 'lost')
        field = data.get_temperature_samples(axis, definitions.TASMAX)
        for i, t in enumerate(case['times']):
            column = field[:, i]
            require(column.count() == 1, lambda: '%d entries for one sample' % column.count(), 'entries')
            at = int(numpy.nonzero(~numpy.ma.getmaskarray(column))[0][0])
            require(abs(axis[at] - t) < MeasurementTime.RESOLUTION + 1e-9 and float(column[at]) == 300.0 + i, 'sample at another time', 'time')
        rec.step(len(axis))
        rec.state(axis)
        rec.outcome(len(axis))

    def bounds(self, tier):
        return 'all sequences of up to 3 of 10 times around whole days%s' % (' and all sets of 4' if tier == 'thorough' else '')


HARNESSES = [GlobalField(), Plain(), Iris(), Stations(), Times()]
