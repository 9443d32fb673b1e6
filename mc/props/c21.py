"""C21: gridded binning operations equal reference statistics cell by cell."""
import itertools
import math
import os

import netCDF4
import numpy

from mc.core import Harness, require
from mc.env import old_netcdf, quiet, scratch
from mc.props.c20 import Flags as PlainFlags
from mc.props.c20 import FAULTS, KINDS, arguments, cell_of, close, compare, reference, splits, statistics, write_granule

with quiet():
    old_netcdf('eustace.outputformats.iriscubesaver')
    from iris.coords import AuxCoord
    from iris.cube import Cube
    from eustace.satgrid_iris import command
    from eustace.satgrid_iris.gridbin.gridbin import GridBins
    from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldAxis, GridFieldDescriptor
    from eustace.satgrid_iris.gridbin.operation.count import GridBinOperationCount
    from eustace.satgrid_iris.gridbin.operation.sumcountmaxmin import GridBinOperationSumCountMaxMin
    from eustace.satgrid_iris.gridbin.operation.sumsq import GridBinOperationSumConstSq, GridBinOperationSumSq
    from eustace.satgrid_iris.gridbin.operation.sumsqdev import GridBinOperationSumSqDev
    from eustace.satgrid_iris.modis import SatelliteFieldNamesMODIS
    from eustace.satgrid_iris.pipeline import GridBinPipelineSatellite
    from eustace.satgrid_iris.satellite import SatelliteFilenames


VALUES = (0.0, -1.5, 2.0)


def chunk_cube(values, missing, cells, uncertainty, scalar, form):
    n = len(values)
    data = numpy.array([values], numpy.float32)
    if form == 'masked':
        data = numpy.ma.masked_array(data, mask=[missing])
    elif form == 'nomask':
        data = numpy.ma.masked_array(data)
    cube = Cube(data, var_name='X')
    cube.add_aux_coord(AuxCoord(numpy.full((1, n), 0.5), var_name='latitude'), (0, 1))
    cube.add_aux_coord(AuxCoord(numpy.array([[c + 0.25 for c in cells]]), var_name='longitude'), (0, 1))
    cube.add_aux_coord(AuxCoord(numpy.array([uncertainty], numpy.float32), var_name='U'), (0, 1))
    cube.add_aux_coord(AuxCoord(numpy.array([scalar], numpy.float32), var_name='S'))
    return cube


def new_bins():
    return GridBins([GridFieldAxis(-0.5, 1.0, 1, 'latitude', False), GridFieldAxis(-0.5, 1.0, 3, 'longitude', False)])


def operations():
    d = GridFieldDescriptor
    s = GridBinOperationSumCountMaxMin
    return [
        GridBinOperationCount().set_input_descriptor(GridBinOperationCount.INPUT, d('X')).set_output_descriptor(GridBinOperationCount.OUTPUT, d('n', dtype=numpy.int32)),
        s().set_input_descriptor(s.INPUT, d('X')).set_output_descriptor(s.OUTPUTTOTAL, d('total', dtype=numpy.float32))
           .set_output_descriptor(s.OUTPUTCOUNT, d('count', dtype=numpy.int32, usemask=False))
           .set_output_descriptor(s.OUTPUTMAX, d('max', dtype=numpy.float32), initialvalue=-1.0E20)
           .set_output_descriptor(s.OUTPUTMIN, d('min', dtype=numpy.float32), initialvalue=1.0E20),
        GridBinOperationSumSq().set_input_descriptor(GridBinOperationSumSq.INPUT, d('U')).set_output_descriptor(GridBinOperationSumSq.OUTPUT, d('usq', dtype=numpy.float32)),
        GridBinOperationSumConstSq().set_input_descriptor(GridBinOperationSumConstSq.INPUT, d('S')).set_output_descriptor(GridBinOperationSumConstSq.OUTPUT, d('ssq', dtype=numpy.float32)),
    ]


def entry(bins, name, cell):
    value = bins.get_field(name).data[0, cell]
    return None if value is numpy.ma.masked else float(value)


class Operations(Harness):
    """Every sequence of values, masks and cells, every division into chunks, every operation."""
    name = 'operations'
    chunk = 40

    def cases(self, tier):
        size = 3 if tier == 'quick' else 4
        alphabet = [[cell, v, False] for cell in (0, 1) for v in range(3)] + [[0, 2, True]]
        for n in range(1, size + 1):
            for sequence in itertools.product(alphabet, repeat=n):
                yield {'obs': [list(o) for o in sequence]}

    def bounds(self, tier):
        return 'all sequences of up to %d values (2 cells x 3 values, or masked), every division into chunks, masks stored in 3 ways, 5 operations' % (3 if tier == 'quick' else 4)

    def run(self, case, rec):
        obs = case['obs']
        n = len(obs)
        values, missing, cells = [VALUES[o[1]] for o in obs], [o[2] for o in obs], [o[0] for o in obs]
        unc = [0.5 * (i + 1) for i in range(n)]
        for parts in splits(n):
            forms = ['masked'] + ([] if any(missing) else ['nomask', 'plain'])
            for form in forms:
                bins = new_bins()
                ops = operations()
                cubes = []
                for k, (a, b) in enumerate(parts):
                    cubes.append(chunk_cube(values[a:b], missing[a:b], cells[a:b], unc[a:b], 0.5 + k, form))
                    mapping = bins.compute_input_map(cubes[-1])
                    for op in ops:
                        op.run(mapping)
                        rec.step()
                scalars = [0.5 + k for k, (a, b) in enumerate(parts) for _ in range(a, b)]
                mean = []
                for cell in range(3):
                    mine = [i for i in range(n) if cells[i] == cell and not missing[i]]
                    v = [values[i] for i in mine]
                    expected = {'n': len(v), 'count': len(v), 'total': sum(v), 'max': max(v) if v else None, 'min': min(v) if v else None,
                                'usq': sum(unc[i] ** 2 for i in mine), 'ssq': sum(scalars[i] ** 2 for i in mine)}
                    for name, e in expected.items():
                        got = entry(bins, name, cell)
                        if not mine:
                            # nothing there: no data (or a count of zero)
                            require(got is None or (name in ('n', 'count') and got == 0), lambda: '%s is %r in a cell that received nothing' % (name, got), name)
                        else:
                            require(close(got, float(e)), lambda: '%s is %r and not %r (chunks %r, %s)' % (name, got, e, parts, form), name)
                    mean.append(sum(v) / len(v) if v else 0.0)
                # deviations from the mean found
                bins.create_field(GridFieldDescriptor('mean'), numpy.ma.masked_array([mean], mask=[[entry(bins, 'total', c) is None for c in range(3)]], dtype=numpy.float32))
                dev = GridBinOperationSumSqDev().set_input_descriptor(GridBinOperationSumSqDev.INPUTVALUE, GridFieldDescriptor('X')) \
                    .set_output_descriptor(GridBinOperationSumSqDev.EXISTINGMEAN, GridFieldDescriptor('mean')) \
                    .set_output_descriptor(GridBinOperationSumSqDev.OUTPUT, GridFieldDescriptor('dev', dtype=numpy.float32))
                for cube in cubes:
                    dev.run(bins.compute_input_map(cube))
                    rec.step()
                for cell in range(3):
                    v = [values[i] for i in range(n) if cells[i] == cell and not missing[i]]
                    got = entry(bins, 'dev', cell)
                    require(close(got, sum((x - mean[cell]) ** 2 for x in v) if v else None), lambda: 'squared deviations are %r in a cell with %r' % (got, v), 'dev')
                    require(close(entry(bins, 'mean', cell), mean[cell] if v else None), 'the mean was changed', 'dev')
                rec.state((bins.get_field('total').data.filled(-99).tobytes(), bins.get_field('count').data.tobytes()))
        rec.outcome(tuple(cells.count(c) for c in (0, 1)))


AXES = [(-180.0, 0.25, 1440), (-180.0, 5.0, 72), (-90.0, 45.0, 4), (0.0, 1.0, 6), (-4.0, 0.5, 3)]


class Indices(Harness):
    """The cell an observation belongs to is the one whose centre coordinate the output states."""
    name = 'cells'
    chunk = 4

    def cases(self, tier):
        for axis in range(len(AXES)):
            for wrap in (False, True):
                for dtype in ('f4', 'f8'):
                    yield {'axis': axis, 'wrap': wrap, 'dtype': dtype}

    def bounds(self, tier):
        return 'all lower edges, middles and quarter points of every cell of %d axes, the upper edge, and points outside to both sides; circular or not' % len(AXES)

    def run(self, case, rec):
        start, step, length = AXES[case['axis']]
        axis = GridFieldAxis(start - 0.5 * step, step, length, 'longitude', case['wrap'], units='degrees')
        centres = axis.axis_coordinates().points
        require(numpy.allclose(centres, [start + step * (i + 0.5) for i in range(length)]), 'coordinates of the output are not the centres of the cells', 'centre')
        places = [(start + step * (i + f), i) for i in range(length) for f in (0.0, 0.25, 0.5, 0.75)]
        got = axis.compute_indices(numpy.array([p for p, _ in places], case['dtype']))
        rec.step(len(places))
        for (place, expected), index in zip(places, got):
            require(index == expected, lambda: 'value %r on axis from %r by %r is put in cell %d and not %d' % (place, start, step, index, expected), 'cell')
        for place in (start - 0.25 * step, start - 0.5 * step, start - step, start - 3.5 * step,
                      start + (length + 0.25) * step, start + (length + 0.5) * step, start + (length + 1) * step, start + (length + 7.5) * step):
            rec.step()
            try:
                index = axis.compute_indices(numpy.array([start, place], case['dtype']))
            except ValueError:
                continue
            full = case['wrap'] and length * step == 360.0
            require(full and int(index[1]) == int(math.floor((place - start) / step)) % length,
                    lambda: 'value %r outside axis from %r by %r with %d cells is put in cell %d' % (place, start, step, length, index[1]), 'outside')
        try:
            index = axis.compute_indices(numpy.array([start + length * step], case['dtype']))
            require(case['wrap'] and index[0] == 0, lambda: 'upper limit is put in cell %d' % index[0], 'upper')
        except ValueError:
            require(not case['wrap'], 'upper limit is refused although the axis wraps', 'upper')
        rec.state(tuple(int(g) for g in got[:64]))
        rec.outcome(case['axis'])


def rename(path):
    """The same granule as the other satellite format has it: coordinates of standard names."""
    with netCDF4.Dataset(path, 'a') as f:
        f.renameVariable('lat', 'latitude')
        f.renameVariable('lon', 'longitude')


def attach(path):
    """Coordinates attached to the observation by attributes, as in the full granules."""
    with netCDF4.Dataset(path, 'a') as f:
        for name, standard, units in (('lat', 'latitude', 'degrees_north'), ('lon', 'longitude', 'degrees_east')):
            f.variables[name].standard_name, f.variables[name].units = standard, units
        f.variables['LST'].coordinates = 'lat lon'


LAYOUTS = {'named': rename, 'attached': attach}


class Group(object):
    def __init__(self, filenames):
        self.filenames = filenames


def fields_of(bins):
    return dict((cube.var_name, cube.data) for cube in bins)


def compare_cubes(fields, expected):
    compare(fields, expected, lambda name: 0 if name.endswith('observations') else 1e-4)


class Pipeline(Harness):
    """Whole granules through the pipeline: flags, missing values, every order and division into files."""
    name = 'pipeline'
    chunk = 8

    def cases(self, tier):
        size = 2 if tier == 'quick' else 3
        for layout in sorted(LAYOUTS):
            for n in range(1, size + 1):
                for kinds in itertools.product(sorted(KINDS), repeat=n):
                    yield {'kinds': ''.join(kinds), 'layout': layout}
            if size == 2:
                # longer ones: every order of one choice of kinds at a time
                for kinds in itertools.combinations('abckm', 3):
                    for order in itertools.permutations(kinds):
                        yield {'kinds': ''.join(order), 'layout': layout}

    def bounds(self, tier):
        return 'all sequences of up to %d observations of 12 kinds, every division into files, 2 coordinate layouts%s' % ((2, '; all orders of 3 of 5 kinds') if tier == 'quick' else (3, ''))

    def run(self, case, rec):
        kinds = case['kinds']
        for parts in splits(len(kinds)):
            with scratch() as folder:
                rows, names = [], []
                for k, (a, b) in enumerate(parts):
                    paths = [os.path.join(folder, '%s%d.nc' % (x, k)) for x in ('lst', 'aux')]
                    rows += write_granule(paths[0], paths[1], kinds[a:b], 'f4', a, 0.5 + k)
                    LAYOUTS[case['layout']](paths[0])
                    names.append(SatelliteFilenames(paths))
                with quiet():
                    pipeline = GridBinPipelineSatellite.from_command_arguments(arguments())
                    result = pipeline.run(SatelliteFieldNamesMODIS(), Group(names))
                rec.step(len(parts))
                require([l.status for l in result.load] == ['ok'] * len(parts), lambda: 'files not read: %r' % [(l.status, l.message) for l in result.load], 'status')
                fields = fields_of(pipeline.bins)
                compare_cubes(fields, reference(rows))
                rec.state((fields['tsmean'].filled(-1).tobytes(), numpy.asarray(fields['total_number_of_observations']).tobytes()))
        rec.outcome(''.join(sorted(kinds)))


class Faults(Harness):
    """Files that are missing or cannot be read are reported and contribute nothing."""
    name = 'faults'
    chunk = 4

    def cases(self, tier):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for faults in itertools.product(FAULTS, repeat=n):
                yield {'faults': list(faults)}

    def bounds(self, tier):
        return 'all assignments of 7 conditions of the component files to up to %d granules' % (2 if tier == 'quick' else 3)

    def run(self, case, rec):
        with scratch() as folder:
            rows, names = [], []
            for k, fault in enumerate(case['faults']):
                paths = [os.path.join(folder, '%s%d.nc' % (x, k)) for x in ('lst', 'aux')]
                mine = write_granule(paths[0], paths[1], 'ab'[k % 2] + 'ck'[k // 2], 'f4', 2 * k, 0.5)
                rename(paths[0])
                if fault == 'ok':
                    rows += mine
                else:
                    what, which = fault.split()
                    path = paths[which == 'aux']
                    if what == 'no':
                        os.unlink(path)
                    else:
                        data = {'bad': b'not a netCDF file', 'cut': open(path, 'rb').read()[:300], 'empty': b''}[what]
                        with open(path, 'wb') as f:
                            f.write(data)
                names.append(SatelliteFilenames(paths))
            with quiet():
                pipeline = GridBinPipelineSatellite.from_command_arguments(arguments())
                result = pipeline.run(SatelliteFieldNamesMODIS(), Group(names))
            rec.step(len(names))
            expected = ['ok' if f == 'ok' else 'missing' if f.startswith('no') else 'error' for f in case['faults']]
            require([l.status for l in result.load] == expected, lambda: 'reported %r for %r' % ([l.status for l in result.load], case['faults']), 'status')
            if 'ok' in expected:
                compare_cubes(fields_of(pipeline.bins), reference(rows))
            else:
                require(not len(pipeline.bins), 'fields although no file could be read', 'empty')
            rec.state(tuple(expected))
            rec.outcome(tuple(expected))


class Flags(PlainFlags):
    chunk = 8

    @staticmethod
    def aggregate(args, paths):
        rename(paths[0])
        with quiet():
            pipeline = GridBinPipelineSatellite.from_command_arguments(args)
            pipeline.run(SatelliteFieldNamesMODIS(), Group([SatelliteFilenames(paths)]))
        return dict((name, numpy.ma.filled(data, -1)) for name, data in fields_of(pipeline.bins).items())


class Scalars(Harness):
    """The uncertainty that is one number per file, or no number; coordinates holding the error value."""
    name = 'scalars'
    chunk = 4

    def cases(self, tier):
        for n in (1, 2, 3):
            for scalars in itertools.product((0.5, 2.0, None), repeat=n):
                for kinds in itertools.product(('a', 'ab', 'm', 'k'), repeat=n) if n < 3 or tier == 'thorough' else (('a', 'b', 'c'), ('ab', 'm', 'b'), ('m', 'k', 'a')):
                    yield {'scalars': list(scalars), 'kinds': list(kinds)}
        for n in (1, 2, 3):
            for wrong in itertools.product(('', 'latitude', 'longitude', 'both'), repeat=n):
                yield {'wrong': list(wrong)}

    def bounds(self, tier):
        return 'all assignments of 2 values or none to up to 3 files of 4 contents; all sequences of up to 3 observations with either coordinate the error value'

    def run(self, case, rec):
        with scratch() as folder:
            rows, names, expected = [], [], []
            for k, (scalar, kinds) in enumerate(zip(case['scalars'], case['kinds']) if 'scalars' in case else [(0.5, 'abc'[:len(case['wrong'])])]):
                paths = [os.path.join(folder, '%s%d.nc' % (x, k)) for x in ('lst', 'aux')]
                mine = write_granule(paths[0], paths[1], kinds, 'f4', 2 * k, 0.5 if scalar is None else scalar)
                rename(paths[0])
                if scalar is None:
                    with netCDF4.Dataset(paths[1], 'a') as f:
                        f.variables['LST_unc_sys'][:] = numpy.ma.masked
                if 'wrong' in case:
                    with netCDF4.Dataset(paths[0], 'a') as f:
                        for i, wrong in enumerate(case['wrong']):
                            for name in ('latitude', 'longitude'):
                                if wrong in (name, 'both'):
                                    f.variables[name][0, i] = -32768.0
                    mine = [r for r, wrong in zip(mine, case['wrong']) if not wrong]
                # without the number, a file whose observations would need it cannot be used
                refused = scalar is None and any(r['missing'] is None for r in mine)
                expected.append('error' if refused else 'ok')
                if not refused:
                    rows += mine
                names.append(SatelliteFilenames(paths))
            with quiet():
                pipeline = GridBinPipelineSatellite.from_command_arguments(arguments())
                result = pipeline.run(SatelliteFieldNamesMODIS(), Group(names))
            rec.step(len(names))
            require([l.status for l in result.load] == expected, lambda: 'reported %r and not %r' % ([l.status for l in result.load], expected), 'status')
            if 'ok' in expected:
                compare_cubes(fields_of(pipeline.bins), reference(rows))
            else:
                require(not len(pipeline.bins), 'fields although no file could be used', 'empty')
            rec.state((tuple(expected), len(rows)))
            rec.outcome(tuple(expected))


class Command(Harness):
    """The program: granules of one day or one time in, one output file."""
    name = 'command'
    chunk = 2

    def cases(self, tier):
        for kinds in ('a', 'ab', 'mc', 'abk', 'abc', 'ppn', 'abkks') if tier == 'quick' else [''.join(k) for k in itertools.product('abckp', repeat=3)]:
            for mode in ('day', 'single'):
                yield {'kinds': kinds, 'mode': mode}
        for kinds in ('abckabm', 'bpasn') if tier == 'quick' else [''.join(k) for k in itertools.permutations('abckm', 3)]:
            yield {'kinds': kinds, 'mode': 'full day'}

    def bounds(self, tier):
        return '%s granule contents, whole day and single time, through the command to the output file; days with 48 files' % ('7' if tier == 'quick' else '125')

    def run(self, case, rec):
        kinds = case['kinds']
        full = case['mode'] == 'full day'
        if full:
            kinds = (kinds * 48)[:48]
        for parts in [[[i, i + 1] for i in range(48)]] if full else splits(len(kinds)) if len(kinds) < 4 else [[[0, 2], [2, 5]]]:
            with scratch() as folder:
                rows = []
                times = ['%02d%02d' % divmod(30 * i, 60) for i in range(48)] if full else ['0000', '2355', '1205'][:len(parts)]
                for k, ((a, b), t) in enumerate(zip(parts, times)):
                    path = os.path.join(folder, 'L20030704%s.nc' % t)
                    mine = write_granule(path, os.path.join(folder, 'A20030704%s.nc' % t), kinds[a:b], 'f4', a, 0.5 + k % 9)
                    rename(path)
                    if case['mode'] != 'single' or t == '0000':
                        rows += mine
                out = os.path.join(folder, 'out.nc')
                args = arguments(path=folder, pattern_lst='L%Y%m%d%H%M.nc', pattern_aux='A%Y%m%d%H%M.nc', o=out, date='20030704' if case['mode'] != 'single' else '200307040000')
                with quiet():
                    command.run(args)
                rec.step(len(parts))
                with netCDF4.Dataset(out) as f:
                    fields = dict((name, f.variables[name][:].reshape(3, 2)) for name in f.variables if name.startswith('t'))
                    require(numpy.allclose(numpy.asarray(f.variables['latitude'][:]).ravel(), [-60, 0, 60]) and numpy.allclose(numpy.asarray(f.variables['longitude'][:]).ravel(), [-90, 90]), 'coordinates are not the centres of the cells', 'axes')
                compare(fields, reference(rows), lambda name: {'ts_number_of_observations': 0, 'total_number_of_observations': 0, 'tsmean': 0.003, 'tsmin': 0.003, 'tsmax': 0.003, 'tsvariance': 1e-4}.get(name, 0.0006))
                rec.state(fields['tsmean'].filled(-1).tobytes())
        rec.outcome(case['mode'])


HARNESSES = [Operations(), Indices(), Pipeline(), Faults(), Flags(), Scalars(), Command()]
