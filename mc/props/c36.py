"""C36: surface-air model output keeps cells aligned and drops inconsistent ones."""
import datetime
import glob
import itertools
import json
import os
import stat
import sys
import warnings

import netCDF4
import numpy
import scipy.io

from mc.core import Harness, require
from mc.env import quiet, scratch

with quiet():
    from eustace.outputformats import definitions
    from eustace.outputformats.outputvariable import OutputVariable
    from eustace.surfaceairmodel import run_ice, run_land, run_ocean
    from eustace.surfaceairmodel.correlation_ranges import CorrelationRanges
    from eustace.surfaceairmodel.fileio.consistent import ConsistentModelOutputNetCDF, DatasetAttributesConsistentModelOutput
    from eustace.surfaceairmodel.fileio.ice import IceSurfaceTemperatureQualityControlNetCDF
    from eustace.surfaceairmodel.fileio.land import RemapNetCDFLandWP1
    from eustace.surfaceairmodel.fileio.ocean import RemapNetCDFOceanWP1
    from eustace.surfaceairmodel.model_ice import ModelIce
    from eustace.surfaceairmodel.model_ice_input_processing import IceSurfaceTemperatureQualityControl
    from eustace.surfaceairmodel.model_land import ModelLand
    from eustace.surfaceairmodel.model_ocean import ModelOcean

EPOCH = datetime.datetime(1850, 1, 1)
ROWS, COLUMNS = 720, 1440
LAND_PARTS = ['rand', 'corr_atm', 'corr_sfc', 'sys']
OCEAN_PARTS = [('rand', 'rand'), ('corr', 'corr_sat'), ('syst', 'sys'), ('corr2', 'corr_mod'), ('syst2', 'sys_mod')] + [('parameter_%d' % i,) * 2 for i in range(5)]


def day_of(date):
    return (date - EPOCH).days


# ---------------------------------------------------------------- removal of inconsistent cells

PAIRS = [('less', 280.0, 290.0), ('equal', 285.0, 285.0), ('slightly', 285.001, 285.0), ('more', 290.0, 280.0)]
CELLS = [(order, low, high, hide_low, hide_high) for order, low, high in PAIRS for hide_low in ('', 'fill', 'other') for hide_high in ('', 'fill', 'other')]


class Post(Harness):
    """Land fields of two cells in every state: a cell is removed exactly when both its values are known and out of order."""
    name = 'post'
    chunk = 300

    def cases(self, tier):
        for a in range(len(CELLS)):
            for b in range(len(CELLS)):
                for dims in (2, 3):
                    for mask in ('full', 'least'):
                        if tier == 'thorough' or (dims == 2) == (mask == 'least'):
                            yield dict(cells=[a, b], dims=dims, mask=mask)

    def run(self, case, rec):
        cells = [CELLS[i] for i in case['cells']]
        shape = (1, 2) if case['dims'] == 2 else (1, 1, 2)
        results, before = {}, {}

        def field(values, hidden, fill):
            data = numpy.array([{'': v, 'fill': fill, 'other': 999.0}[h] for v, h in zip(values, hidden)]).reshape(shape)
            mask = numpy.array([h != '' for h in hidden]).reshape(shape)
            if case['mask'] == 'least' and not mask.any():
                return numpy.ma.masked_array(data, fill_value=fill)
            return numpy.ma.masked_array(data, mask=mask, fill_value=fill)
        names = {'tasmin': [c[1] for c in cells], 'tasmax': [c[2] for c in cells], 'tasminuncertainty': [1.0, 1.5], 'tasmaxuncertainty': [2.0, 2.5]}
        extra = RemapNetCDFLandWP1.VARIABLES_ANCILLARY
        names.update((v.name, [0.1 * i, 0.1 * i + 0.05]) for i, v in enumerate(extra))
        for name, values in names.items():
            hidden = [c[3] if 'min' in name else c[4] for c in cells]
            before[name] = values, hidden
            results[name] = field(values, hidden, -32768.0)
        writer = ConsistentModelOutputNetCDF(None, extra)
        with quiet():
            writer.post_process(results, 'LAND')
        bad = [c[1] > c[2] and not c[3] and not c[4] for c in cells]
        for name, (values, hidden) in before.items():
            got = numpy.ma.asarray(results[name]).reshape(2)
            for i in range(2):
                gone = bool(numpy.ma.getmaskarray(got)[i])
                require(gone == (bool(hidden[i]) or bad[i]), lambda: '%s is %s in a cell of minimum %s, maximum %s' % (name, 'missing' if gone else 'present', cells[i][3] and 'missing' or cells[i][1], cells[i][4] and 'missing' or cells[i][2]), 'removal')
                require(gone or got[i] == values[i], lambda: '%s changed from %r to %r' % (name, values[i], got[i]), 'value')
        require(int(results['problematic_pixels_count']) == sum(bad), 'number removed', 'count')
        rec.step(len(before))
        rec.state(case['cells'])
        rec.outcome(bad)

    def bounds(self, tier):
        return 'two cells in each of %d states (order, missing or not, value behind the mask), with masks given cell by cell or not at all' % len(CELLS)


# ---------------------------------------------------------------- land and ocean, whole run with a stand-in for IDL

IDL = '''#!%s -SE
import json, shutil, sys
config = json.load(open(sys.argv[-1]))
json.dump(config, open(%r, 'w'))
if %r == 'fails':
    sys.exit(3)
for d in config['data']:
    day = '%%04d%%02d%%02d' %% (d['date']['year'], d['date']['month'], d['date']['day'])
    out = d['filename_output'] if 'filename_output' in d else d['dir_output'] + d['filename_output_id']
    shutil.copy(%r + '/' + day + '.nc', out)
'''


class Tool(object):
    """A program 'idl' first on the path: hands out prepared results for the dates it is asked for."""

    def __init__(self, folder, mode='works'):
        self.folder = folder
        os.makedirs(os.path.join(folder, 'bin'))
        self.seen = os.path.join(folder, 'seen.json')
        path = os.path.join(folder, 'bin', 'idl')
        with open(path, 'w') as f:
            f.write(IDL % (sys.executable, self.seen, mode, folder))
        os.chmod(path, 0o755)

    def __enter__(self):
        self.path = os.environ['PATH']
        os.environ['PATH'] = os.path.join(self.folder, 'bin') + ':' + self.path
        return self

    def __exit__(self, *args):
        os.environ['PATH'] = self.path

    def config(self):
        with open(self.seen) as f:
            return json.load(f)


def cell_numbers():
    return numpy.arange(ROWS * COLUMNS).reshape(ROWS, COLUMNS)


def put(f, name, values, missing, layout, style):
    """Write one intermediate field; missing cells hold a fill value."""
    dims = ('latitude', 'longitude', 'time') if layout == 'last' else ('time', 'latitude', 'longitude')
    whole = style != 'codes' and values.dtype.kind == 'i'
    fill = -32768 if whole or style == 'packed' else -999.0
    v = f.createVariable(name, 'i2' if whole or style == 'packed' else 'f4', dims, fill_value=fill)
    if style == 'packed' and not whole:
        v.scale_factor, v.add_offset = (0.005, 300.0 if values.max() > 100 else 0.0)
    if style == 'codes':
        v.missing_value = numpy.float32(9999.0)
        data = values.astype('f4')
        places = numpy.flatnonzero(missing)
        data.ravel()[places[::2]] = 9999.0
        data.ravel()[places[1::2]] = -999.0
        v.set_auto_maskandscale(False)
        v[:] = data[:, :, None] if layout == 'last' else data[None]
        return
    data = numpy.ma.masked_array(values, mask=missing) if missing.any() else values
    v[:] = data[:, :, None] if layout == 'last' else data[None]


def intermediate(path, date):
    f = netCDF4.Dataset(path, 'w')
    f.createDimension('latitude', ROWS)
    f.createDimension('longitude', COLUMNS)
    f.createDimension('time', 1)
    t = f.createVariable('time', 'f8', ('time',))
    t.units = 'days since 1850-01-01 00:00:00'
    t[:] = day_of(date)
    return f


def fetch(path, name):
    with netCDF4.Dataset(path) as f:
        got = numpy.ma.asarray(f.variables[name][:])
        require(got.shape == (1, ROWS, COLUMNS), 'shape of %s' % name, 'shape')
        return numpy.ma.getdata(got)[0].astype(float), numpy.ma.getmaskarray(got)[0], int(f.variables['time'][0])


def compare(path, name, values, missing, tolerance, day):
    found, masked, when = fetch(path, name)
    require(when == day, lambda: '%s is dated %d, not %d' % (os.path.basename(path), when, day), 'day')
    wrong = numpy.flatnonzero(masked.ravel() != missing.ravel())
    require(not len(wrong), lambda: '%s is %s in %d cells, the first %d' % (name, 'missing' if masked.ravel()[wrong[0]] else 'present', len(wrong), wrong[0]), 'missing')
    off = ~missing & ~(abs(found - values) <= tolerance)
    require(not off.any(), lambda: '%s is %r, not %r, in %d cells' % (name, found[off][0], values[off][0], off.sum()), 'value')


def land_day(index, pattern):
    """Fields of one day: name -> (values, missing)."""
    n = cell_numbers() + 331 * index
    fields = {}
    order = (n // 4096) % 3
    low = 270.0 + (n % 89) * 0.1 + index
    fields['tasmin'] = low
    fields['tasmax'] = low + numpy.array([5.0, -4.0, 0.0])[order]
    for m, kind in enumerate(('tasmin', 'tasmax')):
        for k, part in enumerate(LAND_PARTS):
            fields['unc_%s_%s' % (part, kind)] = 0.5 * (k + 1) + 0.2 * m + 0.005 * (n % 61)
        fields[kind + '_model_number'] = (1 + (n + m) % 3).astype('i4')
    names = sorted(fields)
    bits = dict((name, numpy.zeros(n.shape, bool) if pattern == 'whole' else ((n >> i) & 1).astype(bool) if pattern == 'all' else ((n // 3) % 13 == (0 if pattern == 'together' else i))) for i, name in enumerate(names))
    return dict((name, (fields[name], bits[name])) for name in names)


def ocean_day(index, pattern):
    n = cell_numbers() + 331 * index
    fields = {'tas': -1.5 + (n % 89) * 0.3 + index}
    for k, (old, new) in enumerate(OCEAN_PARTS):
        fields['unc_%s_tas' % old] = 0.3 * (k + 1) + 0.005 * (n % 61)
    names = sorted(fields)
    bits = dict((name, numpy.zeros(n.shape, bool) if pattern == 'whole' else ((n >> i) & 1).astype(bool) if pattern == 'all' else ((n // 3) % 13 == (0 if pattern == 'together' else i))) for i, name in enumerate(names))
    return dict((name, (fields[name], bits[name])) for name in names)


DATES = [datetime.datetime(2012, 1, 31), datetime.datetime(2012, 2, 1), datetime.datetime(2012, 2, 29)]
MODEL = dict(input_model_1='m1', input_model_2='m2', input_model_3='m3', input_satellite_land_mask_north='north.nc', input_satellite_land_mask_south='south.nc', input_satellite_land_DEM='dem.nc', input_satellite_land_fvc='fvc/', frac_sat_obs_threshold=0.2, sampling_threshold=3.0)


class Day(Harness):
    chunk = 1

    def cases(self, tier):
        for pattern in ('all', 'single', 'together', 'whole'):
            for layout in ('last', 'first'):
                for style in ('plain', 'codes', 'packed') if tier == 'thorough' else (('plain', 'codes') if pattern != 'whole' else ('plain',)):
                    if tier == 'thorough' or (layout == 'last') == (style == 'plain'):
                        yield dict(pattern=pattern, layout=layout, style=style, days=[0], how='day')
        for days in itertools.chain(itertools.permutations((0, 1), 2), [(2, 0, 1)] if tier == 'quick' else itertools.permutations((0, 1, 2))):
            yield dict(pattern='all', layout='last', style='plain', days=list(days), how='multiple')
        yield dict(pattern='all', layout='last', style='plain', days=[1], how='command')
        for how in ('day', 'multiple'):
            yield dict(pattern='all', layout='last', style='plain', days=[0], how=how, tool='fails')

    def run(self, case, rec):
        with scratch() as folder, Tool(folder, case.get('tool', 'works')) as tool, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            made = {}
            for d in case['days']:
                made[d] = self.make(d, case['pattern'])
                f = intermediate(os.path.join(folder, DATES[d].strftime('%Y%m%d') + '.nc'), DATES[d])
                for name, (values, missing) in made[d].items():
                    put(f, name, values, missing, case['layout'], case['style'])
                f.close()
                self.prepare(folder, d)
            mains = [os.path.join(folder, 'main%d.nc' % d) for d in case['days']]
            others = [os.path.join(folder, 'other%d.nc' % d) for d in case['days']]
            jobs = [dict(self.job(folder, d), catalogue_id='', institution='here', output_main=m, output_ancillary=o) for d, m, o in zip(case['days'], mains, others)]
            try:
                with quiet():
                    if case['how'] == 'day':
                        self.module.run_day(**jobs[0])
                    elif case['how'] == 'multiple':
                        self.module.run_multiple_days([self.module.return_daily_inputs(**j) for j in jobs])
                    else:
                        old, sys.argv = sys.argv, ['program'] + self.arguments(jobs[0])
                        try:
                            self.module.main()
                        finally:
                            sys.argv = old
            except (OSError, ValueError):
                if case.get('tool') != 'fails':
                    raise
                require(not any(os.path.exists(p) for p in mains + others), 'output written although the model failed', 'failure')
                rec.outcome('failed')
                return
            require(case.get('tool') != 'fails', 'failure of the model not reported', 'failure')
            for d, main, other in zip(case['days'], mains, others):
                self.check(case, made[d], main, other, day_of(DATES[d]))
                rec.step(len(made[d]) * ROWS * COLUMNS)
                rec.state((case['pattern'], case['layout'], case['style'], d, len(case['days'])))
            self.configuration(tool.config(), case, folder)
            rec.outcome((case['pattern'], case['how']))

    def bounds(self, tier):
        return 'all combinations of missing inputs (and each single one, all together, none) over a whole grid; up to 3 days in different orders; failing model run; command line'


class Land(Day):
    name = 'land'
    module = run_land

    def make(self, d, pattern):
        return land_day(d, pattern)

    def prepare(self, folder, d):
        pass

    def job(self, folder, d):
        label = DATES[d].strftime('%Y%m%d')
        return dict(MODEL, input_satellite_land_day='%s/day.%s.nc' % (folder, label), input_satellite_land_night='%s/night.%s.nc' % (folder, label), input_satellite_land_snow=None if d == 1 else 'snow%s.nc' % label)

    def arguments(self, job):
        result = []
        for option, key in (('institution', 'institution'), ('output_main', 'output_main'), ('output_ancillary', 'output_ancillary'), ('input_model1_parameters', 'input_model_1'),
                            ('input_model2_parameters', 'input_model_2'), ('input_model3_parameters', 'input_model_3'), ('inputfvc', 'input_satellite_land_fvc'), ('inputDEM', 'input_satellite_land_DEM'),
                            ('inputmasknord', 'input_satellite_land_mask_north'), ('inputmasksouth', 'input_satellite_land_mask_south'), ('inputsnow', 'input_satellite_land_snow'),
                            ('inputday', 'input_satellite_land_day'), ('inputnight', 'input_satellite_land_night'), ('frac_sat_obs_threshold', 'frac_sat_obs_threshold'), ('sampling_threshold', 'sampling_threshold')):
            result += ['--' + option, str(job[key] or 'snow.nc')]
        return result

    def check(self, case, made, main, other, day):
        low, high = made['tasmin'], made['tasmax']
        bad = ~low[1] & ~high[1] & (low[0] > high[0])
        step = 0.0026 if case['style'] == 'packed' else 0.0
        for kind in ('tasmin', 'tasmax'):
            values, missing = made[kind]
            compare(main, kind, values, missing | bad, 0.0026 + step, day)
            total, none = 0.0, numpy.zeros(values.shape, bool)
            for part in LAND_PARTS:
                v, gone = made['unc_%s_%s' % (part, kind)]
                compare(other, '%s_unc_%s' % (kind, part), v, gone | bad, 0.00052 + step, day)
                total, none = total + v ** 2, none | gone
            compare(main, kind + 'uncertainty', numpy.sqrt(total), none | bad, 0.00052 + 2 * step, day)
            v, gone = made[kind + '_model_number']
            compare(other, kind + '_model_number', v, gone | bad, 0.1, day)
        with netCDF4.Dataset(other) as f:
            require((f['tasmin_unc_corr_sfc'].time_scale, f['tasmax_unc_corr_sfc'].time_scale, f['tasmin_unc_corr_atm'].time_scale) == (30.0, 30.0, 'unknown') and f['tasmax_unc_corr_atm'].length_scale == 'unknown', 'time scales', 'scales')
        with netCDF4.Dataset(main) as f:
            require('%d' % bad.sum() in [''.join(c for c in word if c.isdigit()) for word in f.comment.split()] and '%' not in f.comment, lambda: 'number of cells removed is %d but the file says %r' % (bad.sum(), f.comment), 'comment')

    def configuration(self, config, case, folder):
        require(config['model']['filename_model_clim_parameters'] == ['m1', 'm2', 'm3'] and config['model']['frac_sat_obs_threshold'] == 0.2 and config['model']['sampling_threshold'] == 3.0, lambda: 'model settings are %r' % config['model'], 'settings')
        require(len(config['data']) == len(case['days']), 'number of days', 'settings')
        for d, entry in zip(case['days'], config['data']):
            job = self.job(folder, d)
            snow = job['input_satellite_land_snow'] or {'multiple': 'MISSING', 'command': 'snow.nc'}.get(case['how'])
            require(entry['filename_input_lst'] == [job['input_satellite_land_day'], job['input_satellite_land_night']] and entry['filename_input_snow'] == snow and entry['filename_input_mask'] == ['north.nc', 'south.nc']
                    and entry['filename_input_dem'] == 'dem.nc' and entry['dir_input_fvc'] == 'fvc/', lambda: 'inputs are %r' % entry, 'settings')


class Ocean(Day):
    name = 'ocean'
    module = run_ocean

    def make(self, d, pattern):
        return ocean_day(d, pattern)

    def prepare(self, folder, d):
        with netCDF4.Dataset(os.path.join(folder, 'sea%d.nc' % d), 'w') as f:
            f.createDimension('time', 1)
            t = f.createVariable('time', 'f8', ('time',))
            t.units = 'seconds since 1981-01-01 00:00:00'
            t[:] = (DATES[d] - datetime.datetime(1981, 1, 1)).total_seconds() + 3600 * (5 + d)

    def job(self, folder, d):
        return dict(input_model_parameters='p', input_model_uncertainty='u', input_model_stdev='s', input_satellite_ocean=os.path.join(folder, 'sea%d.nc' % d))

    def arguments(self, job):
        return [x for key in ('institution', 'output_main', 'output_ancillary', 'input_model_parameters', 'input_model_uncertainty', 'input_model_stdev', 'input_satellite_ocean') for x in ('--' + key, job[key])]

    def check(self, case, made, main, other, day):
        values, missing = made['tas']
        step = 0.0026 if case['style'] == 'packed' else 0.0
        compare(main, 'tas', values + 273.15, missing, 0.0026 + step, day)
        total, none = 0.0, numpy.zeros(values.shape, bool)
        for old, new in OCEAN_PARTS:
            v, gone = made['unc_%s_tas' % old]
            compare(other, 'tas_unc_' + new, v, gone, 0.00052 + step, day)
            total, none = total + v ** 2, none | gone
        compare(main, 'tasuncertainty', numpy.sqrt(total), none, 0.00052 + 2 * step, day)
        with netCDF4.Dataset(other) as f:
            require((f['tas_unc_corr_sat'].length_scale, f['tas_unc_corr_sat'].time_scale, f['tas_unc_corr_mod'].length_scale, f['tas_unc_corr_mod'].time_scale) == (100.0, 1.0, 1000.0, 3.0), 'scales', 'scales')

    def configuration(self, config, case, folder):
        require(config['model'] == dict(filename_parameters='p', filename_uncertainty='u', filename_stdev='s'), 'model settings', 'settings')
        require([e['filename_input'] for e in config['data']] == [self.job(folder, d)['input_satellite_ocean'] for d in case['days']], 'inputs', 'settings')


class Names(Harness):
    """Date of the land model's input files, whatever else their path holds."""
    name = 'names'
    chunk = 200

    def cases(self, tier):
        folders = ['', 'a', '20110203', '20110203.nc', 'x.20110203.nc', '20110203/nc_files', 'res_0.25', '2011/02/03']
        for date in ('20120229', '19991231', '20000101'):
            for first in folders:
                for second in folders:
                    for stem in ('satgrid.day.', 'satgrid_', 'x20110203_', '', '1.00000000.'):
                        if stem or first or second:
                            yield dict(path='/'.join(p for p in ('', first, second, stem + date + '.nc')) if (first or second) else stem + date + '.nc', date=date)

    def run(self, case, rec):
        want = datetime.datetime.strptime(case['date'], '%Y%m%d')
        entry = ModelLand(['a'], 0.1, 1).build_config_dictionary([['out/', 'id']], [['fvc', 'dem', ['n', 's'], 'snow', [case['path'], case['path'].replace('day', 'night')]]])['data'][0]
        got = entry['date']['year'], entry['date']['month'], entry['date']['day']
        require(got == (want.year, want.month, want.day), lambda: '%s is taken to be of %r' % (case['path'], got), 'date')
        other = '20120301'
        try:
            ModelLand(['a'], 0.1, 1).build_config_dictionary([['out/', 'id']], [['fvc', 'dem', ['n', 's'], 'snow', [case['path'], case['path'].replace(case['date'], other)]]])
        except ValueError:
            pass
        else:
            require(False, 'day and night of different dates accepted', 'mismatch')
        rec.step(2)
        rec.state(case['path'])
        rec.outcome(got)

    def bounds(self, tier):
        return 'three dates below folders and after prefixes that hold other numbers'


class Ranges(Harness):
    """Correlation ranges reach the variable they are for."""
    name = 'ranges'
    chunk = 100

    def cases(self, tier):
        for n in (1, 2, 3, 4):
            for order in itertools.permutations(range(n)):
                for asked in range(n):
                    yield dict(order=list(order), asked=asked)

    def run(self, case, rec):
        order = case['order']
        ranges = CorrelationRanges(['v%d' % i for i in order], ['km', 'day'], [100.0 + i for i in order], [i for i in order])
        v = OutputVariable('v%d' % case['asked'], numpy.int16, -1)
        ranges.update_correlated_uncertainty_ranges(v)
        require((v.length_scale, v.time_scale, v.length_scale_units, v.time_scale_units) == (100.0 + case['asked'], case['asked'], 'km', 'day'), 'ranges of another variable', 'ranges')
        stranger = OutputVariable('w', numpy.int16, -1)
        try:
            ranges.update_correlated_uncertainty_ranges(stranger)
        except KeyError:
            pass
        require(getattr(stranger, 'length_scale', None) is None, 'ranges given to an unknown variable', 'stranger')
        rec.step(2)
        rec.state(case)
        rec.outcome(len(order))

    def bounds(self, tier):
        return 'all orders of up to 4 variables'


# ---------------------------------------------------------------- ice

OBSERVABLES = ('tas', 'tasmin', 'tasmax')
NIGHT, DAYTIME = (0, 1, 6, 7), (2, 3, 4, 5)


def coefficients(hemisphere, part, observable):
    i = {'nh': 0, 'sh': 1}[hemisphere] * 6 + {'LandIce': 0, 'SeaIce': 1}[part] * 3 + OBSERVABLES.index(observable)
    return numpy.array([0.5 + 0.3 * i, 0.8 + 0.02 * i, 1.0 - 0.1 * i, 0.2 + 0.07 * i])


def ice_model():
    model = ModelIce()
    model.components = {h: {p: {o: coefficients(h, p, o) for o in OBSERVABLES} for p in ('LandIce', 'SeaIce')} for h in ('nh', 'sh')}
    return model


def masked(values, missing, form='full'):
    values = numpy.asarray(values, float)
    missing = numpy.asarray(missing, bool)
    hidden = numpy.where(missing, 1e20, values)
    if form == 'least' and not missing.any():
        return numpy.ma.masked_array(values)
    return numpy.ma.masked_array(hidden, mask=missing)


# states of one cell's inputs; each a list of (value, missing)
LANDS = [0, 1, 2, 4, None]
FRACTIONS = [None, 0.0, 0.29, 0.3, 0.84, 0.85, 1.0]
TEMPERATURES = [None, 250.0, 278.15, 278.2]
SPREADS = [None, 7.0, 7.1]
COUNTS = [0, 3, None]
# differences of the bins to the temperature, by night and by day (the maximum is 5 above)
BINS = [(None, None), (0.0, 0.0), (9.9, 9.9), (10.1, 10.1), (-10.1, -10.1), (0.0, -14.9), (0.0, -15.1), (-15.1, 0.0), (-2.0, 24.9), (-8.0, 25.1), (None, 0.0), (0.0, None), (None, -15.1)]


class Grid(object):
    """All inputs of one hemisphere, as arrays of value and of missing."""

    def __init__(self, shape):
        self.shape = shape
        self.value = {}
        self.missing = {}
        for name in ('land', 'fraction', 't', 'tmin', 'tmax', 'std', 'ru', 'ssu', 'lsu'):
            self.value[name], self.missing[name] = numpy.zeros(shape), numpy.zeros(shape, bool)
        for name in ('bins', 'counts'):
            self.value[name], self.missing[name] = numpy.zeros((8,) + shape), numpy.zeros((8,) + shape, bool)

    def set(self, name, values):
        """values: one per cell, None for missing."""
        flat = self.value[name].reshape(-1)
        gone = self.missing[name].reshape(-1)
        for i, v in enumerate(values):
            if v is None:
                gone[i] = True
            else:
                flat[i] = v

    def ordinary(self):
        n = numpy.arange(self.shape[0] * self.shape[1]).reshape(self.shape)
        self.value['land'][:] = n % 2
        self.value['fraction'][:] = 0.9
        self.value['t'][:] = 250.0 + (n % 7) * 0.5
        self.value['tmin'][:] = 245.0 + (n % 5) * 0.5
        self.value['tmax'][:] = 255.0 + (n % 3) * 0.5
        self.value['std'][:] = 2.0
        self.value['ru'][:] = 0.5 + 0.01 * (n % 11)
        self.value['ssu'][:] = 0.7 + 0.01 * (n % 13)
        self.value['lsu'][:] = 0.3 + 0.01 * (n % 17)
        self.value['bins'][:] = self.value['t']
        self.value['counts'][:] = 1

    def control(self, day, latitude, longitude, form):
        def m(name):
            return masked(self.value[name], self.missing[name], form)
        land = numpy.ma.masked_array(self.value['land'].astype(int), mask=self.missing['land']) if self.missing['land'].any() or form == 'full' else self.value['land'].astype(int)
        return IceSurfaceTemperatureQualityControl(day, latitude, longitude, m('t'), m('tmin'), m('tmax'), m('std'), m('bins'), m('counts'), land, m('fraction'), m('ru'), m('ssu'), m('lsu'))


def around(a, dy, dx):
    """a shifted so that entry (y, x) is that of (y + dy, x + dx); zero outside."""
    out = numpy.zeros_like(a)
    h, w = a.shape
    ys, xs = slice(max(0, -dy), min(h, h - dy)), slice(max(0, -dx), min(w, w - dx))
    yt, xt = slice(max(0, dy), min(h, h + dy)), slice(max(0, dx), min(w, w + dx))
    out[ys, xs] = a[yt, xt]
    return out


def expected(grid, hemisphere, day):
    """Oracle, from the description of the method: name -> (values, missing, unsure)."""
    result = {}
    V, M = grid.value, grid.missing
    landice = ~M['land'] & ((V['land'] == 1) | (V['land'] == 4))
    known_land = ~M['land']
    enough = ~M['fraction'] & (V['fraction'] >= 0.3)
    seaice = known_land & ~landice & enough
    with numpy.errstate(all='ignore'):
        mean = lambda bins: (V['bins'][list(bins)] * ~M['bins'][list(bins)]).sum(0) / (~M['bins'][list(bins)]).sum(0)
        count = lambda bins: (V['counts'][list(bins)] * ~M['counts'][list(bins)]).sum(0)
        known = lambda bins: (~M['counts'][list(bins)]).any(0)
        nodata = {'day': ~known(DAYTIME) | (count(DAYTIME) == 0), 'night': ~known(NIGHT) | (count(NIGHT) == 0)}
        rough = ~M['std'] & (V['std'] > 7.07)
        warm = ~M['t'] & (V['t'] > 278.15)
        all8, day4 = mean(range(8)), mean(DAYTIME)
        reject = {'tas': rough | warm | nodata['day'] | nodata['night'] | (~M['t'] & (abs(V['t'] - all8) > 10)),
                  'tasmin': rough | warm | nodata['night'],
                  'tasmax': rough | warm | nodata['day'] | (~M['tmax'] & (abs(V['tmax'] - day4) > 20))}
    angle = 2 * numpy.pi * (day - 18262.0) / 365.2425
    for observable, source in (('tas', 't'), ('tasmin', 'tmin'), ('tasmax', 'tmax')):
        cloud = numpy.zeros(grid.shape, bool)
        doubt = numpy.zeros(grid.shape, bool)
        for part in (enough, landice):
            usable = ~M[source] & ~reject[observable] & part
            total, number = numpy.zeros(grid.shape), numpy.zeros(grid.shape)
            for dy in range(-2, 3):
                for dx in range(-2, 3):
                    if dy or dx:
                        total += around(numpy.where(usable, V[source], 0.0), dy, dx)
                        number += around(usable.astype(float), dy, dx)
            inner = numpy.zeros(grid.shape, bool)
            inner[2:-2, 2:-2] = True
            with numpy.errstate(all='ignore'):
                below = total / number - V[source]
                cloud |= inner & usable & (number >= 2) & (below > 10)
                doubt |= inner & usable & (number >= 2) & (abs(below - 10) < 1e-6)
        present = (landice | seaice) & ~M[source] & ~reject[observable] & ~cloud & ~M['ru'] & ~M['ssu'] & ~M['lsu']
        fields = dict((suffix, numpy.zeros(grid.shape)) for suffix in ('', 'uncertainty', '_unc_no_cloud', '_unc_rand', '_unc_corr_local', '_unc_sys', '_unc_cloud'))
        for part, where in (('LandIce', landice), ('SeaIce', seaice)):
            c = coefficients(hemisphere, part, observable)
            air = c[1] * (V[source] - 273.15) + c[0] + c[2] * numpy.cos(angle) + c[3] * numpy.sin(angle) + 273.15
            ru = numpy.sqrt(V['ru'] ** 2 + ModelIce.RU_sampling[hemisphere][part][observable] ** 2) * c[1]
            ssu = numpy.sqrt((V['ssu'] * c[1]) ** 2 + ModelIce.SSU_relation[part][observable] ** 2)
            lsu = c[1] * ModelIce.glob_LSU + 0 * ru
            cu = c[1] * (V['lsu'] - ModelIce.glob_LSU + ModelIce.glob_CU_offset[observable])
            clear = numpy.sqrt(ru ** 2 + ssu ** 2 + lsu ** 2)
            for suffix, values in (('', air), ('uncertainty', numpy.sqrt(clear ** 2 + cu ** 2)), ('_unc_no_cloud', clear), ('_unc_rand', ru), ('_unc_corr_local', ssu), ('_unc_sys', lsu), ('_unc_cloud', cu)):
                fields[suffix][where] = values[where]
        for suffix, values in fields.items():
            result[observable + suffix] = values, ~present, doubt
    return result


def confront(results, want, note=''):
    require(set(want) <= set(results), lambda: 'no results for %r' % sorted(set(want) - set(results)), 'names')
    for name, (values, missing, doubt) in want.items():
        got = numpy.ma.asarray(results[name])
        require(got.shape == values.shape, 'shape', 'shape')
        gone = numpy.ma.getmaskarray(got)
        wrong = (gone != missing) & ~doubt
        require(not wrong.any(), lambda: '%s%s is %s in %d cells, the first at %r' % (note, name, 'missing' if gone[wrong][0] else 'present', wrong.sum(), numpy.argwhere(wrong)[0].tolist()), 'missing')
        off = ~gone & ~doubt & ~(abs(numpy.ma.getdata(got) - values) <= 1e-6)
        require(not off.any(), lambda: '%s%s is %r, not %r, in %d cells' % (note, name, numpy.ma.getdata(got)[off][0], values[off][0], off.sum()), 'value')


class IceCells(Harness):
    """Every state of a cell's inputs, spread over a grid in several arrangements."""
    name = 'icecells'
    chunk = 1

    def cases(self, tier):
        for hemisphere in ('nh', 'sh'):
            for day in (18262, 55927) if tier == 'quick' else (18262, 55927, 56013, 56109, 0):
                for arrangement in range(2 if tier == 'quick' else 4):
                    yield dict(hemisphere=hemisphere, day=day, arrangement=arrangement)

    def run(self, case, rec):
        states = list(itertools.product(LANDS, FRACTIONS, TEMPERATURES, SPREADS, itertools.product(COUNTS, COUNTS), BINS))
        # uncertainties: all combinations of missing, in turn
        unknown = list(itertools.product((0, 1), repeat=6))
        width = 280
        height = len(states) // width + 1
        k = {0: 1, 1: 7919, 2: 104729, 3: 611}[case['arrangement']]
        while len(states) % k == 0 and k > 1:
            k += 2
        grid = Grid((height, width))
        grid.ordinary()
        total = height * width
        chosen = [states[(i * k) % len(states)] for i in range(total)]
        lacking = [unknown[(i // 3) % 64] if i % 3 == 0 else unknown[0] for i in range(total)]
        grid.set('land', [s[0] for s in chosen])
        grid.set('fraction', [s[1] for s in chosen])
        grid.set('t', [None if s[2] is None else s[2] + 0.001 * (i % 89) for i, s in enumerate(chosen)])
        grid.set('std', [s[3] for s in chosen])
        for j, name in enumerate(('ru', 'ssu', 'lsu', 'tmin', 'tmax')):
            grid.missing[name] |= numpy.array([u[j] for u in lacking], bool).reshape(grid.shape)
        for j in range(8):
            which = 1 if j in DAYTIME else 0
            counts = [s[4][which] for s in chosen]
            grid.missing['counts'][j] = numpy.array([c is None for c in counts]).reshape(grid.shape)
            grid.value['counts'][j] = numpy.array([0 if c is None else c * (j in (2, 6)) for c in counts]).reshape(grid.shape)
            shift = [s[5][which] for s in chosen]
            grid.missing['bins'][j] = numpy.array([v is None for v in shift]).reshape(grid.shape)
            grid.value['bins'][j] = (numpy.where(grid.missing['t'], 250.0, grid.value['t']) + numpy.array([0.0 if v is None else v for v in shift]).reshape(grid.shape))
        bins = numpy.where(grid.missing['t'], 250.0, grid.value['t'])
        grid.value['tmax'][:] = bins + 5.0
        grid.value['tmin'][:] = bins - 5.0
        # single bins missing
        grid.missing['bins'][3].ravel()[::5] = True
        sign = 1 if case['hemisphere'] == 'nh' else -1
        latitude = numpy.sort(sign * (10.0 + 0.25 * numpy.arange(height)))
        inputs = grid.control(case['day'], latitude, numpy.arange(width) * 0.25, 'full')
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            results = ice_model().process_hemisphere(inputs)
        want = expected(grid, case['hemisphere'], case['day'])
        confront(results, want)
        rec.step(total * len(want))
        for s in set(chosen):
            rec.state(s)
        for name, (values, missing, doubt) in want.items():
            rec.outcome((name, int(missing.sum())))

    def bounds(self, tier):
        return '%d states of one cell (land mask, ice fraction, temperature, spread, day and night counts, bins), all combinations of missing uncertainty, minimum and maximum, in %d arrangements' % (len(LANDS) * len(FRACTIONS) * len(TEMPERATURES) * len(SPREADS) * 9 * len(BINS), 2 if tier == 'quick' else 4)


class IceNeighbours(Harness):
    """A cell and what is around it: the cloud filter, all small patterns."""
    name = 'iceneighbours'
    chunk = 200

    def cases(self, tier):
        places = [(-2, -2), (-1, 0), (0, 2), (2, 2), (1, -1)]
        for depth in (9.0, 10.5, -15.0):
            for kinds in itertools.product(('same', 'missing', 'other'), repeat=len(places)):
                yield dict(depth=depth, kinds=list(kinds), centre=[3, 3])
            for centre in itertools.product((0, 1, 2, 4, 5, 6), repeat=2):
                yield dict(depth=depth, kinds=['same'] * len(places), centre=list(centre), rest=True)
            for form in ('full', 'least'):
                for land in (0, 1):
                    yield dict(depth=depth, kinds=['same'] * len(places), centre=[3, 4], rest=True, form=form, land=land)
        if tier == 'thorough':
            ring = [(y, x) for y in range(-2, 3) for x in range(-2, 3) if y or x]
            for pair in itertools.combinations(range(len(ring)), 2):
                for depth in (9.0, 10.5):
                    yield dict(depth=depth, kinds=[], ring=list(pair), centre=[3, 3])

    def run(self, case, rec):
        places = [(-2, -2), (-1, 0), (0, 2), (2, 2), (1, -1)]
        for observable, source in (('tas', 't'), ('tasmin', 'tmin'), ('tasmax', 'tmax')):
            grid = Grid((7, 7))
            grid.ordinary()
            own = case.get('land', 1)
            grid.value['land'][:] = own
            if own:
                grid.value['fraction'][:] = 0.0
            grid.value[source][:] = 260.0
            y, x = case['centre']
            if not case.get('rest'):
                grid.missing[source][:] = True
                if case.get('ring') is not None:
                    ring = [(a, b) for a in range(-2, 3) for b in range(-2, 3) if a or b]
                    for i in case['ring']:
                        grid.missing[source][y + ring[i][0], x + ring[i][1]] = False
                for (a, b), kind in zip(places, case['kinds']):
                    grid.missing[source][y + a, x + b] = kind == 'missing'
                    if kind == 'other':
                        grid.value['land'][y + a, x + b] = 1 - own
                        grid.value['fraction'][y + a, x + b] = 1.0 if own else 0.0
                grid.missing[source][y, x] = False
            grid.value[source][y, x] = 260.0 - case['depth']
            grid.value['bins'][:] = grid.value['t']
            inputs = grid.control(50000, -80.0 + numpy.arange(7), numpy.arange(7.0), case.get('form', 'full'))
            with quiet(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                results = ice_model().process_hemisphere(inputs)
            confront(results, expected(grid, 'sh', 50000))
            rec.step()
            rec.outcome(bool(numpy.ma.getmaskarray(results[observable])[y, x]))
        rec.state(case)

    def bounds(self, tier):
        return 'all states of 5 neighbours of a colder or warmer cell; cells at and near every edge%s' % ('; every pair of neighbours' if tier == 'thorough' else '')


class IceGlobe(Harness):
    """Two hemispheres put together."""
    name = 'iceglobe'
    chunk = 30

    def cases(self, tier):
        for resolution in (0.25, 0.5, 1.0, 5.0, 0.1, 0.05):
            for start in (-90.0 + resolution / 2, -80.0 + resolution / 2):
                for south in (5, 6, 8):
                    for north in (5, 7):
                        for gap in (0, 1, 2, 40):
                            for form in ('f8', 'f4') if resolution > 0.1 else ('f8',):
                                yield dict(resolution=resolution, start=start, south=south, north=north, gap=gap, form=form)
        for wrong in ('day', 'swapped', 'resolution', 'uneven', 'longitudes', 'falling', 'overlap'):
            yield dict(resolution=0.25, start=-30.0, south=6, north=6, gap=300, form='f8', wrong=wrong)

    def run(self, case, rec):
        r = case['resolution']
        lat0 = case['start'] + r * numpy.arange(case['south'])
        # northern latitudes are above zero
        rows = int(round((5.0 - lat0[-1]) / r)) + case['gap']
        lat1 = lat0[-1] + r * rows + r * numpy.arange(case['north'])
        wide = 6
        south, north = Grid((case['south'], wide)), Grid((case['north'], wide))
        for i, g in enumerate((south, north)):
            g.ordinary()
            g.value['t'] += 3 * i
            g.missing['t'][0, i] = True
        if case.get('wrong') == 'resolution':
            lat1 = lat1[0] + 2 * r * numpy.arange(case['north'])
        if case.get('wrong') == 'uneven':
            lat0[3:] += r / 2
        if case.get('wrong') == 'falling':
            lat0, lat1 = lat0[::-1], lat1[::-1]
        lat0, lat1 = lat0.astype(case['form']), lat1.astype(case['form'])
        a = south.control(50000, lat0, numpy.arange(wide) * r, 'full')
        b = north.control(50001 if case.get('wrong') == 'day' else 50000, lat1, numpy.arange(wide) * r, 'full')
        if case.get('wrong') == 'longitudes':
            narrow = Grid((case['north'], wide - 1))
            narrow.ordinary()
            b = narrow.control(50000, lat1, numpy.arange(wide - 1) * r, 'full')
        if case.get('wrong') == 'swapped':
            a, b = b, a
        if case.get('wrong') == 'overlap':
            b = south.control(50000, lat0, numpy.arange(wide) * r, 'full')
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                results = ice_model().process_global(a, b)
            except ValueError:
                require(case.get('wrong'), 'proper inputs refused', 'refused')
                rec.outcome('refused')
                return
        require(not case.get('wrong'), lambda: 'inputs with wrong %s accepted' % case['wrong'], 'accepted')
        total = case['south'] + rows - 1 + case['north']
        require(results['daynumber'] == 50000, 'day', 'day')
        first, second = expected(south, 'sh', 50000), expected(north, 'nh', 50000)
        want = {}
        for name in first:
            values, missing, doubt = numpy.zeros((total, wide)), numpy.ones((total, wide), bool), numpy.zeros((total, wide), bool)
            for offset, part in ((0, first), (total - case['north'], second)):
                n = part[name][0].shape[0]
                for whole, piece in zip((values, missing, doubt), part[name]):
                    whole[offset:offset + n] = piece
            want[name] = values, missing, doubt
        confront(results, want)
        rec.step(len(want))
        rec.state(case)
        rec.outcome((total, case['form']))

    def bounds(self, tier):
        return 'six resolutions, sizes, starts and gaps of the two hemispheres, in single and double precision; seven kinds of inputs that do not fit together'


class IceRun(Harness):
    """Whole run for a day from files to files."""
    name = 'icerun'
    chunk = 1

    def cases(self, tier):
        for order in (['LandIce', 'SeaIce'], ['SeaIce', 'LandIce']):
            for missing in ('some', 'none'):
                yield dict(order=order, missing=missing, how='day')
        yield dict(order=['LandIce', 'SeaIce'], missing='some', how='command')
        for there in ('main', 'other'):
            yield dict(order=['LandIce', 'SeaIce'], missing='some', how='day', there=there)

    def parameters(self, path, hemisphere, order):
        names = numpy.empty((1, 2), object)
        values = numpy.empty((2, 3), object)
        for i, part in enumerate(order):
            names[0, i] = part
            for j, o in enumerate(OBSERVABLES):
                values[i, j] = coefficients(hemisphere, part, o).reshape(4, 1)
        scipy.io.savemat(path, dict(sf_name=names, M=values))

    def satellite(self, path, grid, latitude, date):
        rows, columns = grid.shape
        with netCDF4.Dataset(path, 'w') as f:
            for name, size in (('time', 1), ('bins', 8), ('lat', rows), ('lon', columns)):
                f.createDimension(name, size)
            t = f.createVariable('time', 'f8', ('time',))
            t.units = 'seconds since 1981-01-01 00:00:00'
            t[:] = (date - datetime.datetime(1981, 1, 1)).total_seconds() + 43200
            f.createVariable('lat', 'f4', ('lat',))[:] = latitude
            f.createVariable('lon', 'f4', ('lon',))[:] = -179.875 + 0.25 * numpy.arange(columns)
            for name, key in (('surface_temperature', 't'), ('surface_temperature_min', 'tmin'), ('surface_temperature_max', 'tmax'), ('surface_temperature_std', 'std'), ('sea_ice_fraction', 'fraction'), ('land_mask', 'land'),
                              ('uncorrelated_uncertainty', 'ru'), ('synoptically_correlated_uncertainty', 'ssu'), ('large_scale_correlated_uncertainty', 'lsu'), ('surface_temperature_3d', 'bins'), ('Nobs3d', 'counts')):
                deep = key in ('bins', 'counts')
                v = f.createVariable(name, 'i2' if key in ('land', 'counts') else 'f8', ('bins' if deep else 'time', 'lat', 'lon'), fill_value=-99)
                data = numpy.ma.masked_array(grid.value[key], mask=grid.missing[key])
                v[:] = data if deep else data[None]

    def run(self, case, rec):
        date = DATES[2]
        with scratch() as folder, quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            grids = {}
            for h, rows, start in (('sh', 160, -89.875), ('nh', 200, 40.125)):
                g = grids[h] = Grid((rows, COLUMNS))
                g.ordinary()
                n = numpy.arange(rows * COLUMNS).reshape(rows, COLUMNS)
                if case['missing'] == 'some':
                    for i, key in enumerate(('land', 'fraction', 't', 'tmin', 'tmax', 'std', 'ru', 'ssu', 'lsu')):
                        g.missing[key] = (n % 23) == i
                else:
                    g.value['land'][:] = 1
                self.parameters(os.path.join(folder, h + '.mat'), h, case['order'])
                self.satellite(os.path.join(folder, h + '.nc'), g, start + 0.25 * numpy.arange(rows), date)
            main, other = os.path.join(folder, 'main.nc'), os.path.join(folder, 'other.nc')
            if case.get('there'):
                with open(os.path.join(folder, case['there'] + '.nc'), 'w') as f:
                    f.write('precious')
            job = dict(institution='here', output_main=main, output_ancillary=other, input_model_sh=os.path.join(folder, 'sh.mat'), input_model_nh=os.path.join(folder, 'nh.mat'),
                       input_satellite_sh=os.path.join(folder, 'sh.nc'), input_satellite_nh=os.path.join(folder, 'nh.nc'))
            try:
                if case['how'] == 'day':
                    run_ice.run_day(catalogue_id='', **job)
                else:
                    old, sys.argv = sys.argv, ['program'] + [x for key, value in job.items() for x in ('--' + key, value)]
                    try:
                        run_ice.main()
                    finally:
                        sys.argv = old
            except ValueError:
                if not case.get('there'):
                    raise
                with open(os.path.join(folder, case['there'] + '.nc')) as f:
                    require(f.read() == 'precious', 'existing file overwritten', 'existing')
                rec.outcome('refused')
                return
            require(not case.get('there'), 'existing file overwritten', 'existing')
            day = day_of(date)
            parts = [(0, expected(grids['sh'], 'sh', day)), (520, expected(grids['nh'], 'nh', day))]
            for name in parts[0][1]:
                values, missing, doubt = numpy.zeros((ROWS, COLUMNS)), numpy.ones((ROWS, COLUMNS), bool), numpy.zeros((ROWS, COLUMNS), bool)
                for offset, part in parts:
                    rows = part[name][0].shape[0]
                    for whole, piece in zip((values, missing, doubt), part[name]):
                        whole[offset:offset + rows] = piece
                require(not doubt.any(), 'harness')
                compare(other if '_' in name else main, name, values, missing, 0.0026 if name in OBSERVABLES else 0.00052, day)
                rec.step(values.size)
            with netCDF4.Dataset(other) as f:
                for o in OBSERVABLES:
                    v = f[o + '_unc_corr_local']
                    require((v.length_scale, v.time_scale, v.length_scale_units) == (500.0, 5, 'km'), 'scales', 'scales')
            rec.state(case)
            rec.outcome(case['missing'])

    def bounds(self, tier):
        return 'one day from two satellite files and two parameter files to two output files, with and without missing inputs; parameters in both orders; outputs already there; command line'


HARNESSES = [Post(), Land(), Ocean(), Names(), Ranges(), IceCells(), IceNeighbours(), IceGlobe(), IceRun()]
