"""C28: the product verifier passes a file if and only if it meets the format specification."""
import argparse
import datetime
import io
import itertools
import os
import tempfile

import netCDF4
import numpy

from mc import product
from mc.core import Harness, require
from mc.env import quiet, scratch

from eustace.outputformats import definitions

with quiet():
    from eustace.outputformats.verify import verify_globalfield, verify_stations
    from eustace.outputformats.stations import FileBuilderStationData
    from eustace.outputformats.stationdata import StationDescription, StationDescriptionArray

EPOCH = 'days since 1850-01-01T00:00:00Z'


def temperature(name, what):
    return ('i2', dict(standard_name='air_temperature', long_name='%s daily surface air temperature' % what, units='K', cell_methods='time: ' + {'Average': 'mean', 'Minimum': 'minimum', 'Maximum': 'maximum'}[what]))


PLACE = {
    'latitude': ('f4', dict(standard_name='latitude', long_name='Latitude (deg)', units='degrees_north')),
    'longitude': ('f4', dict(standard_name='longitude', long_name='Longitude (deg)', units='degrees_east')),
}
QC = ('u1', dict(long_name='Quality control flags', standard_name='air_temperature status_flag', valid_range=None, flag_masks=None, flag_meanings=None))
DETECTION = ('u1', dict(long_name='Quality control flags for break detection', standard_name='air_temperature status_flag', valid_range=[0, 2], flag_values=[0, 1, 2], flag_meanings='not_possible possible_but_unreliable reliable'))

# the published format: variables (type, attributes; None where any value will do) and dimensions (None: unlimited)
FORMATS = {
    'field': dict(
        dimensions={'latitude': 720, 'longitude': 1440, 'time': None, 'bounds': 2},
        variables={
            'time': ('f4', dict(standard_name='time', long_name='Time at zero longitude', units=EPOCH, calendar='gregorian', axis='T', bounds='timebounds', ancillary_variables='timeoffset')),
            'timebounds': ('f4', {}),
            'timeoffset': ('f4', dict(long_name='Local time offset from UTC (days)', units='days')),
            'latitude': ('f4', dict(PLACE['latitude'][1], axis='Y')),
            'longitude': ('f4', dict(PLACE['longitude'][1], axis='X')),
            'tas': temperature('tas', 'Average'), 'tasmin': temperature('tasmin', 'Minimum'), 'tasmax': temperature('tasmax', 'Maximum')}),
    'temperature': dict(
        dimensions={'time': None},
        variables={
            'time': ('f4', dict(standard_name='time', long_name='Time at zero longitude', units=EPOCH, calendar='gregorian')),
            'latitude': PLACE['latitude'], 'longitude': PLACE['longitude'],
            'tasmin': temperature('tasmin', 'Minimum'), 'tasmax': temperature('tasmax', 'Maximum'),
            'station_name': ('S1', dict(long_name='Station name', cf_role='timeseries_id')),
            'elevation': ('f4', dict(long_name='Height above the geoid (m)', standard_name='surface_altitude', units='m')),
            'tasmin_qc': QC, 'tasmax_qc': QC}),
    'status': dict(
        dimensions={'detection_time': None, 'tasmin_break': None, 'tasmax_break': None, 'bounds': 2},
        variables=dict({
            'detection_time': ('f4', dict(standard_name='time', long_name='Start time of period for break detection status report (days)', units=EPOCH)),
            'tasmin_detection_qc': DETECTION, 'tasmax_detection_qc': DETECTION},
            **{name: value for v, word in (('tasmin', 'minimum'), ('tasmax', 'maximum')) for name, value in {
                v + '_break_station': ('i4', dict(long_name='Index of station at which break was detected')),
                v + '_break_amplitude': ('f4', dict(long_name='Inhomogeneity in %s surface air temperature' % word, units='K')),
                v + '_break_time_bounds': ('f4', dict(long_name='Relative time bounds of break evaluation period (days)', units='days')),
                v + '_break_time_affected_bounds': ('f4', dict(long_name='Relative time bounds of period affected by break (days)', units=EPOCH))}.items()})),
}
ATTRIBUTES = {'title': None, 'institution': None, 'source': None, 'history': None, 'Conventions': 'CF-1.6'}
TYPES = ['f4', 'f8', 'i2', 'i4', 'u1', 'S1']


def deviations(kind):
    """Every single departure from a file that has everything: (what kind, where, how)."""
    spec = FORMATS[kind]
    for name, value in sorted(ATTRIBUTES.items()):
        yield ('attribute', name, 'absent')
        for how in ('number', 'numbers', 'other', 'empty'):
            yield ('attribute', name, how)
    for name, size in sorted(spec['dimensions'].items()):
        yield ('dimension', name, 'absent')
        yield ('dimension', name, 'fixed' if size is None else 'unlimited')
        if size is not None:
            yield ('dimension', name, 'unlimited, that many now')
            yield ('dimension', name, 'less')
            yield ('dimension', name, 'more')
    for name, (dtype, metadata) in sorted(spec['variables'].items()):
        yield ('variable', name, 'absent')
        for other in TYPES:
            if other != dtype:
                yield ('type', name, other)
        for key, value in sorted(metadata.items()):
            for how in ('absent', 'empty', 'number', 'numbers', 'other') + (('shorter', 'longer') if isinstance(value, list) else ()):
                yield ('metadata', name + '.' + key, how)
    yield ('extra', 'variable', 'unknown')
    yield ('extra', 'attribute', 'unknown')


def changed(value, how):
    if how == 'number':
        return numpy.int32(7)
    if how == 'numbers':
        return numpy.array([3, 4], numpy.int32)
    if how == 'empty':
        return ''
    if how == 'shorter':
        return numpy.array(value[:-1], numpy.uint8)
    if how == 'longer':
        return numpy.array(list(value) + [9], numpy.uint8)
    return (value + '.' if isinstance(value, str) and value else 'other words')


def conforms(kind, change):
    """Whether a file with this one change still meets the specification."""
    what, where, how = change
    if what == 'extra' or (what == 'variable' and how == 'absent'):
        return True
    if what == 'attribute':
        return how != 'absent' and ATTRIBUTES[where] is None
    if what == 'metadata':
        name, key = where.split('.')
        return how != 'absent' and FORMATS[kind]['variables'][name][1][key] is None
    return False


def write(path, kind, changes, only=None):
    spec = FORMATS[kind]
    change = {(what, where): how for what, where, how in changes}
    d = netCDF4.Dataset(path, 'w')
    for name, value in ATTRIBUTES.items():
        how = change.get(('attribute', name))
        if how != 'absent':
            d.setncattr(name, (value or 'text') if how is None else changed(value or 'text', how))
    if ('extra', 'attribute') in change:
        d.setncattr('something_else', 'unknown')
    d.createDimension('own', 1)
    for name, size in spec['dimensions'].items():
        how = change.get(('dimension', name))
        if how != 'absent':
            d.createDimension(name, {None: size, 'fixed': 1, 'unlimited': None, 'unlimited, that many now': None, 'less': (size or 0) - 1, 'more': (size or 0) + 1}[how])
        if how == 'unlimited, that many now':
            d.createVariable('along_' + name, 'i1', (name,))[:] = numpy.zeros(size, numpy.int8)
    for name, (dtype, metadata) in spec['variables'].items():
        if ('variable', name) in change or (only is not None and name not in only):
            continue
        v = d.createVariable(name, change.get(('type', name), dtype), ('own',))
        for key, value in metadata.items():
            how = change.get(('metadata', name + '.' + key))
            if how == 'absent':
                continue
            if how is not None:
                value = changed(value, how)
            elif value is None:
                value = 'anything' if 'meanings' in key else numpy.array([1, 2], numpy.uint8)
            elif isinstance(value, list):
                value = numpy.array(value, numpy.uint8)
            v.setncattr(key, value)
    if ('extra', 'variable') in change:
        v = d.createVariable('unknown', 'i8', ('own',))
        v.units = 'K'
    d.close()


class Captured(io.StringIO):
    pass


def verdict(verifier, rec, **arguments):
    rec.step()
    out = Captured()
    with quiet():
        passed = verifier().run(argparse.Namespace(**arguments), out)
    failed = [line for line in out.getvalue().split('\n') if line.rstrip(' |').endswith('Fail')]
    require(passed in (True, False), lambda: 'verdict %r' % (passed,))
    require(passed == (not failed), lambda: 'verdict %s with failed items %r' % (passed, failed))
    return bool(passed), failed


def check(kind, folder, changes, rec, only=None):
    """Write the file(s) with the changes in the one of this kind and compare the verdict."""
    folder = tempfile.mkdtemp(dir=folder)
    if kind == 'field':
        path = os.path.join(folder, 'field.nc')
        write(path, kind, changes, only)
        passed, failed = verdict(verify_globalfield.VerifyGlobalField, rec, pathname=path)
    else:
        prefix = os.path.join(folder, 'stations')
        for other in ('temperature', 'status'):
            write('%s_%s.nc' % (prefix, other), other, changes if other == kind else [], only if other == kind else None)
        passed, failed = verdict(verify_stations.VerifyStationData, rec, pathnameprefix=prefix)
    broken = [c for c in changes if not conforms(kind, c)]
    gone = {c[1] for c in changes if c[0] == 'variable'}
    broken = [c for c in broken if not (c[0] in ('type', 'metadata') and c[1].split('.')[0] in gone)]
    if only is not None:
        broken = [c for c in broken if c[0] not in ('type', 'metadata') or c[1].split('.')[0] in only]
    missing_all = (only is not None and not set(only) - gone) or gone == set(FORMATS[kind]['variables'])
    expected = not broken and not missing_all
    require(passed == expected, lambda: '%s file with %r%s: %s, expected %s; failed items %r' % (
        kind, changes, '' if only is None else ' and variables %r only' % (list(only),), 'passed' if passed else 'failed', 'passed' if expected else 'failed', failed))
    for what, where, how in broken:
        words = where.split('.')
        require(any(all(w in line for w in words) for line in failed), lambda: '%s file with %r: not reported among %r' % (kind, (what, where, how), failed))
    names = [c[1].split('.') for c in broken]
    for line in failed:
        require(missing_all or any(all(w in line for w in words) for words in names), lambda: '%s file with %r: %r reported as well' % (kind, changes, line))
    rec.state((kind, tuple(sorted(changes)), None if only is None else tuple(only)))
    rec.outcome((passed, len(failed)))


class Deviations(Harness):
    """Every single departure from the format, alone and with any other of the same file."""
    name = 'deviations'
    chunk = 4

    def bounds(self, tier):
        return 'all single departures from each of the three formats (attribute, dimension, variable, type, metadata x absent, empty, text, number, array, length)' + (', each with every other one' if tier == 'thorough' else ', each with one of every other item')

    def cases(self, tier):
        for kind in sorted(FORMATS):
            for change in deviations(kind):
                yield dict(kind=kind, change=change, pairs=tier)

    def run(self, case, rec):
        kind, change = case['kind'], tuple(case['change'])
        with scratch() as folder:
            check(kind, folder, [], rec)
            check(kind, folder, [change], rec)
            seen = {change[:2]}
            for i, other in enumerate(deviations(kind)):
                if other[:2] == change[:2] or (case['pairs'] == 'quick' and (other[:2] in seen or sum(map(ord, other[1] + change[1] + change[2])) % 4)):
                    continue
                seen.add(other[:2])
                check(kind, folder, [change, other], rec)


class Variables(Harness):
    """Which of the known variables a file has."""
    name = 'variables'
    chunk = 16

    def bounds(self, tier):
        return 'every subset of up to %d of the known variables, and the file without any' % (2 if tier == 'quick' else 3)

    def cases(self, tier):
        for kind in sorted(FORMATS):
            for k in range(3 if tier == 'quick' else 4):
                for only in itertools.combinations(sorted(FORMATS[kind]['variables']), k):
                    yield dict(kind=kind, only=only)

    def run(self, case, rec):
        with scratch() as folder:
            check(case['kind'], folder, [], rec, only=case['only'])
            check(case['kind'], folder, [('extra', 'variable', 'unknown')], rec, only=case['only'])
            for name in case['only']:
                for key in FORMATS[case['kind']]['variables'][name][1]:
                    check(case['kind'], folder, [('metadata', name + '.' + key, 'absent')], rec, only=case['only'])


class Files(Harness):
    """Files that are absent, cut short or of another kind, and the exit status of the commands."""
    name = 'files'
    chunk = 2

    def bounds(self, tier):
        return 'each file absent, empty, cut at every 1/%dth of its length or replaced by another kind, for fields and both station files; the files written by the product builders' % (8 if tier == 'quick' else 64)

    def cases(self, tier):
        for kind in sorted(FORMATS):
            for how in ['whole', 'absent', 'empty', 'text'] + ['as ' + other for other in sorted(FORMATS) if other != kind] + ['cut %d' % k for k in range(1, 8 if tier == 'quick' else 64)]:
                yield dict(kind=kind, how=how, parts=8 if tier == 'quick' else 64)
        for names in itertools.chain.from_iterable(itertools.combinations(('TAS', 'TASMIN', 'TASMAX', 'TASUNCERTAINTY'), k) for k in range(1, 5)):
            yield dict(kind='builder', how=list(names))
        yield dict(kind='builder', how='stations')

    def run(self, case, rec):
        kind, how = case['kind'], case['how']
        with scratch() as folder:
            at = lambda name: os.path.join(folder, name)
            if kind == 'builder':
                return self.builder(case, rec, at)
            paths = {'field': at('field.nc'), 'temperature': at('s_temperature.nc'), 'status': at('s_status.nc')}
            for other, path in paths.items():
                write(path, other, [])
            path = paths[kind]
            content = open(path, 'rb').read()
            if how == 'absent':
                os.remove(path)
            elif how == 'empty':
                open(path, 'wb').close()
            elif how == 'text':
                with open(path, 'w') as f:
                    f.write('not what it should be\n' * 100)
            elif how.startswith('as '):
                os.remove(path)
                write(path, how[3:], [])
            elif how.startswith('cut'):
                with open(path, 'wb') as f:
                    f.write(content[:len(content) * int(how[4:]) // case['parts']])
            # (a field file has all that the specification asks of a file of station temperatures)
            want = how == 'whole' or (kind, how) == ('temperature', 'as field')
            got, failed = verdict(verify_globalfield.VerifyGlobalField, rec, pathname=paths['field']) if kind == 'field' else verdict(verify_stations.VerifyStationData, rec, pathnameprefix=at('s'))
            require(got == want, lambda: '%s file %s: %s; failed items %r' % (kind, how, 'passed' if got else 'failed', failed))
            module, argument = (verify_globalfield, paths['field']) if kind == 'field' else (verify_stations, at('s'))
            status = self.command(module, argument)
            require((status == 0) == want, lambda: '%s file %s: exit status %r' % (kind, how, status))
            rec.state((kind, how))

    @staticmethod
    def command(module, argument):
        import sys
        saved = sys.argv
        sys.argv = ['verify', argument]
        try:
            with quiet():
                module.main()
            return 0
        except SystemExit as e:
            return e.code or 0
        finally:
            sys.argv = saved

    @staticmethod
    def builder(case, rec, at):
        if case['how'] == 'stations':
            with quiet():
                stations = StationDescriptionArray([StationDescription('A', 1.0, 2.0, 3.0), StationDescription('B', -1.0, -2.0, 0.0)])
                b = FileBuilderStationData(at(''), 'global', '1', 'Met Office', '', 'history', 'source')
                b.set_temperature_dimensions(stations, numpy.array([43342.0, 43343.0], numpy.float32))
                b.add_temperature_variable(definitions.TASMIN, numpy.zeros((2, 2), numpy.float32) + 280.0)
                b.add_temperature_variable(definitions.TASMAX, numpy.zeros((2, 2), numpy.float32) + 290.0)
                b.save_and_close()
            name = [n for n in os.listdir(at('')) if n.endswith('temperature.nc')][0]
            verifier = verify_stations.VerifyStationData()
            with quiet():
                verifier.check_file(at(name), verify_stations.SpecificationStationTemperature(), 'Open')
            require(verifier.has_passed(), lambda: 'station file as built fails: %r' % [o.description for o in verifier.outcomes if not o.outcome])
        else:
            values = numpy.ma.masked_array(numpy.full(definitions.GLOBAL_FIELD_SHAPE, 1.0))
            with quiet():
                product.write_fields(at('f.nc'), datetime.datetime(2000, 1, 1), [(getattr(definitions, n), values + (270.0 if len(n) < 8 else 0.0)) for n in case['how']])
            got, failed = verdict(verify_globalfield.VerifyGlobalField, rec, pathname=at('f.nc'))
            require(got, lambda: 'global field file as built with %r fails: %r' % (case['how'], failed))
        rec.state(('builder', case['how']))


HARNESSES = [Deviations(), Variables(), Files()]
ASSUMPTIONS = ['the published format is the one written out in FORMATS above (taken from the product specification the verifier implements)']
