"""C20: satellite grid statistics are exact for any order and split of files."""
import argparse
import itertools
import math
import os

import netCDF4
import numpy

from mc.core import Harness, require
from mc.env import quiet, scratch

with quiet():
    from eustace.satgrid import command
    from eustace.satgrid.aggregate_grid import (AggregateGridArray, AggregateGridCount, AggregateGridCountSumMinMax,
                                                AggregateGridSum, AggregateGridSumDevSq)
    from eustace.satgrid.file_aggregate_grid import SatelliteFileAggregator
    from eustace.satgrid.grid import GridAxis, GridLatLon
    from eustace.satgrid.satellite_file import SatelliteFilename


def splits(n):
    """Every way of cutting a sequence of n into consecutive parts (none of them empty)."""
    for cuts in itertools.product((0, 1), repeat=max(n - 1, 0)):
        edges = [0] + [i + 1 for i, c in enumerate(cuts) if c] + [n]
        yield [[a, b] for a, b in zip(edges, edges[1:])] if n else []


def close(a, b, tolerance=1e-5):
    return (a is None and b is None) or (a is not None and b is not None and abs(a - b) <= tolerance * max(1.0, abs(b)))


FIELDS = ('tsmean', 'tsmin', 'tsmax', 'tsmean_unc_ran', 'tsmean_unc_loc_atm', 'tsmean_unc_loc_sfc', 'tsmean_unc_sys')


def statistics(rows, systematic):
    """Reference statistics of the observations in one cell; rows of (value, random, atmosphere, surface)."""
    n = len(rows)
    if not n:
        return dict((name, None) for name in FIELDS)
    values = [r[0] for r in rows]
    square = lambda k: sum(r[k] ** 2 for r in rows)
    return {'tsmean': sum(values) / n, 'tsmin': min(values), 'tsmax': max(values),
            'tsmean_unc_ran': math.sqrt(square(1) / n ** 2), 'tsmean_unc_loc_atm': math.sqrt(square(2) / n),
            'tsmean_unc_loc_sfc': math.sqrt(square(3) / n),
            'tsmean_unc_sys': math.sqrt(sum(s * s for s in systematic) / n)}


class Aggregate(Harness):
    """The accumulators themselves: every sequence of observations, every division into calls."""
    name = 'accumulate'
    chunk = 400

    VALUES = (0.0, -1.5, 2.0)

    def cases(self, tier):
        size = 4 if tier == 'quick' else 6
        alphabet = [(cell, v) for cell in (0, 1) for v in range(3)]
        for n in range(size + 1):
            for sequence in itertools.product(range(len(alphabet)), repeat=n):
                if n > 4 and sequence[0] % 3 != 0:
                    continue    # longest sequences: first value fixed, as values are interchangeable
                yield {'obs': [list(alphabet[i]) for i in sequence]}

    def bounds(self, tier):
        return 'all sequences of up to %d observations over 2 cells x 3 values, every division into calls, 5 accumulators, 2 precisions' % (4 if tier == 'quick' else 6)

    def run(self, case, rec):
        obs = case['obs']
        n = len(obs)
        shape = (1, 3)      # the last cell stays empty
        cells = numpy.array([o[0] for o in obs], numpy.int32)
        values = [self.VALUES[o[1]] for o in obs]
        unc = [[0.5 * (i + 1) for i in range(n)], [0.25 * (3 - i) for i in range(n)], [float(i % 2) for i in range(n)]]
        results = set()
        for parts in splits(n):
            for dtype in (numpy.float32, numpy.float64):
                both = [AggregateGridCountSumMinMax(shape), AggregateGridArray(shape, max(n, 1))]
                counter, summer = AggregateGridCount(shape), AggregateGridSum(shape)
                systematic = []
                for k, (a, b) in enumerate(parts):
                    s = 0.5 + k
                    systematic += [s] * (b - a)
                    arrays = [numpy.array(x[a:b], dtype) for x in [values] + unc]
                    for accumulator in both:
                        accumulator.aggregate_at_indices(cells[a:b], arrays[0], arrays[1], arrays[2], arrays[3], numpy.array([s], numpy.float32))
                    counter.aggregate_at_indices(cells[a:b])
                    summer.aggregate_at_indices(cells[a:b], arrays[0])
                    rec.step(4)
                fields = [a.compute_fields(-999.0) for a in both]
                for cell in range(3):
                    mine = [i for i in range(n) if cells[i] == cell]
                    expected = statistics([(values[i], unc[0][i], unc[1][i], unc[2][i]) for i in mine], [systematic[i] for i in mine])
                    for f, kind in zip(fields, ('running', 'array')):
                        require(f['ts_number_of_observations'][0, cell] == len(mine), lambda: '%s: %d observations counted in a cell of %d' % (kind, f['ts_number_of_observations'][0, cell], len(mine)), 'count')
                        for name in FIELDS:
                            got = float(f[name][0, cell])
                            require(close(got, -999.0 if expected[name] is None else expected[name]), lambda: '%s: %s is %r and not %r (calls %r)' % (kind, name, got, expected[name], parts), name)
                    require(counter.count[0, cell] == len(mine), lambda: 'count is %d for %d observations' % (counter.count[0, cell], len(mine)), 'count')
                    require(summer.count[0, cell] == len(mine) and close(float(summer.get_mean(-999.0)[0, cell]), expected['tsmean'] if mine else -999.0), 'sum and count give another mean', 'sum')
                squares = AggregateGridSumDevSq(shape)
                for a, b in parts:
                    squares.aggregate_at_indices(fields[0]['tsmean'], cells[a:b], numpy.array(values[a:b], dtype))
                    rec.step()
                for cell in range(3):
                    mine = [values[i] for i in range(n) if cells[i] == cell]
                    expected = sum((v - sum(mine) / len(mine)) ** 2 for v in mine)
                    require(close(float(squares.sum_devsq[0, cell]), expected), lambda: 'squared deviations are %r and not %r' % (float(squares.sum_devsq[0, cell]), expected), 'devsq')
                rec.state(fields[0]['tsmean'].tobytes() + fields[0]['ts_number_of_observations'].tobytes())
        if n >= 2:
            small = AggregateGridArray(shape, 1)
            rest = [numpy.array(x, numpy.float32) for x in [values] + unc]
            try:
                small.aggregate_at_indices(cells, rest[0], rest[1], rest[2], rest[3], numpy.array([0.5], numpy.float32))
            except ValueError:
                pass
            else:
                require(max(list(cells).count(c) for c in (0, 1)) <= 1, 'more observations than fit were accepted', 'overflow')
                f = small.compute_fields(-999.0)
                require(all(close(float(f['tsmax'][0, c]), v) for c, v in zip(cells, values)), 'an observation went to another cell', 'overflow')
        rec.outcome(('count', tuple(int(c) for c in numpy.bincount(cells, minlength=3))))


AXES = [(-180.0, 0.25, 1440), (-180.0, 5.0, 72), (-90.0, 45.0, 4), (0.0, 1.0, 6), (-4.0, 0.5, 3), (10.0, 2.5, 4)]


class Indices(Harness):
    """The cell an observation belongs to."""
    name = 'cells'
    chunk = 4

    def cases(self, tier):
        for axis in range(len(AXES)):
            for wrap in (False, True):
                for dtype in ('f4', 'f8'):
                    yield {'axis': axis, 'wrap': wrap, 'dtype': dtype}

    def bounds(self, tier):
        return 'all lower edges, middles and quarter points of every cell of %d axes, the upper edge, and points outside to both sides; with and without wrapping' % len(AXES)

    def run(self, case, rec):
        start, step, length = AXES[case['axis']]
        axis = GridAxis(start, step, length, case['wrap'])
        places = [(start + step * (i + f), i) for i in range(length) for f in (0.0, 0.25, 0.5, 0.75)]
        got = axis.compute_indices(numpy.array([p for p, _ in places], case['dtype']))
        rec.step(len(places))
        for (place, expected), index in zip(places, got):
            require(index == expected, lambda: 'value %r on axis from %r by %r is put in cell %d and not %d' % (place, start, step, index, expected), 'cell')
        for place in (start - 0.25 * step, start - 0.5 * step, start - step, start - 3.5 * step,
                      start + (length + 0.25) * step, start + (length + 0.5) * step, start + (length + 1) * step, start + (length + 7.5) * step):
            rec.step()
            try:
                index = axis.compute_indices(numpy.array([start, place], case['dtype']))
            except ValueError:
                continue
            full = case['wrap'] and length * step == 360.0
            require(full and int(index[1]) == int(math.floor((place - start) / step)) % length,
                    lambda: 'value %r outside axis from %r by %r with %d cells is put in cell %d' % (place, start, step, length, index[1]), 'outside')
        try:
            index = axis.compute_indices(numpy.array([start + length * step], case['dtype']))
            require(case['wrap'] and index[0] == 0, lambda: 'upper limit is put in cell %d' % index[0], 'upper')
        except ValueError:
            require(not case['wrap'], 'upper limit is refused although the axis wraps', 'upper')
        other = GridAxis(0.0, 1.0, 3)
        grid = GridLatLon(axis, other)
        a = numpy.array([p for p, _ in places], case['dtype'])
        for k in range(3):
            flat = grid.compute_indices(a, numpy.full(a.shape, k + 0.5, case['dtype']))
            require([int(i) for i in flat] == [i * 3 + k for _, i in places], 'cell in two dimensions is not row * columns + column', 'flat')
            rec.step()
        rec.state(tuple(int(g) for g in got[:64]))
        rec.outcome(case['axis'])


# name: (lat, lon, value, quality, missing variable); quality bit 1: night, bit 2: cloud
KINDS = {
    'a': (0.0, -90.0, 280.5, 0, None),
    'b': (10.0, -10.0, 284.0, 0, None),
    'c': (-40.0, 20.0, 270.25, 0, None),
    'm': (5.0, -20.0, 288.0, 0, 'LST'),
    'u': (5.0, -20.0, 289.0, 0, 'LST_unc_ran'),
    'k': (5.0, -20.0, 290.0, 2, None),
    'n': (5.0, -20.0, 291.0, 1, None),
    'q': (5.0, -20.0, 292.0, 0, 'QC'),
    'l': (5.0, -20.0, 293.0, 0, 'lat'),
    'o': (5.0, -20.0, 294.0, 0, 'lon'),
    'p': (90.0, 180.0, 275.0, 0, None),
    's': (-90.0, -180.0, 276.0, 0, None),
}
PACKING = ('f4', 'f8', 'packed', 'packed8')


def write_granule(lst, aux, kinds, packing, index0, systematic):
    n = len(kinds)
    rows = [KINDS[k] for k in kinds]
    random = [0.5 * (index0 + i + 1) for i in range(n)]
    columns = {'lat': [r[0] for r in rows], 'lon': [r[1] for r in rows], 'LST': [r[2] for r in rows], 'QC': [r[3] for r in rows],
               'LST_unc_ran': random, 'LST_unc_loc_atm': [0.25] * n, 'LST_unc_loc_sfc': [r / 2 for r in random]}
    for path, names in ((lst, ('lat', 'lon', 'LST', 'QC')), (aux, ('LST_unc_ran', 'LST_unc_loc_atm', 'LST_unc_loc_sfc'))):
        with netCDF4.Dataset(path, 'w', 'NETCDF4') as f:
            f.createDimension('nj', 1)
            f.createDimension('ni', n)
            f.createDimension('ns', 1)
            for name in names:
                data = numpy.ma.masked_array(columns[name], mask=[r[4] == name for r in rows])
                if name == 'QC':
                    v = f.createVariable(name, 'i4', ('nj', 'ni'))
                elif packing in ('f4', 'f8'):
                    v = f.createVariable(name, packing, ('nj', 'ni'))
                else:
                    v = f.createVariable(name, 'i2', ('nj', 'ni'), fill_value=-32768)
                    number = numpy.float32 if packing == 'packed' else numpy.float64
                    v.scale_factor = number(0.125)
                    v.add_offset = number(270.0 if name == 'LST' else 0.0)
                v[:] = data.reshape(1, n)
            if path == aux:
                v = f.createVariable('LST_unc_sys', 'f4', ('ns',))
                v[:] = numpy.float32(systematic)
    return [dict(lat=r[0], lon=r[1], value=r[2], random=random[i], night=bool(r[3] & 1), cloud=bool(r[3] & 2), missing=r[4], systematic=systematic)
            for i, r in enumerate(rows)]


def arguments(**changes):
    values = dict(x0=-180.0, xs=180.0, xn=2, y0=-90.0, ys=60.0, yn=3, wrapcoords=True, qc_mask_obs=1, qc_filter_obs=0,
                  qc_mask_valid=3, qc_filter_valid=0, obsname='LST', maxbinobs=512, complevel=0, source='')
    values.update(changes)
    return argparse.Namespace(**values)


def cell_of(row):
    """Cell by the meaning of the coordinates: the north pole is in the northernmost row, 180 is -180."""
    i = min(int(math.floor((row['lat'] + 90.0) / 60.0)), 2)
    j = int(math.floor((row['lon'] + 180.0) / 180.0)) % 2
    return (i, j)


def reference(rows):
    expected = {}
    for cell in itertools.product(range(3), range(2)):
        here = [r for r in rows if r['missing'] not in ('lat', 'lon', 'QC') and cell_of(r) == cell and not r['night']]
        valid = [r for r in here if not r['cloud'] and r['missing'] is None]
        e = statistics([(r['value'], r['random'], 0.25, r['random'] / 2) for r in valid], [r['systematic'] for r in valid])
        e['ts_number_of_observations'], e['total_number_of_observations'] = len(valid), len(here)
        e['tsvariance'] = e['tsmean_unc_spl'] = None
        if len(valid) > 1:
            mean = e['tsmean']
            e['tsvariance'] = sum((r['value'] - mean) ** 2 for r in valid) / (len(valid) - 1)
            e['tsmean_unc_spl'] = (len(here) - len(valid)) * math.sqrt(e['tsvariance']) / (len(here) - 1)
        expected[cell] = e
    return expected


def compare(fields, expected, tolerance=1e-5):
    for cell, e in expected.items():
        for name, value in e.items():
            got = fields[name][cell]
            got = None if got is numpy.ma.masked else float(got)
            slack = tolerance(name) if callable(tolerance) else None
            if slack is not None:
                fine = (got is None) == (value is None) and (value is None or abs(got - value) <= slack)
            else:
                fine = close(got, -1.0 if value is None else value, tolerance)
            require(fine, lambda: '%s in cell %r is %r and not %r' % (name, cell, got, value), name)


class Files(Harness):
    """Whole files: validity flags, missing values, number formats, every order and division."""
    name = 'files'
    chunk = 16

    def cases(self, tier):
        size = 3 if tier == 'quick' else 4
        for n in range(1, size + 1):
            for kinds in itertools.product(sorted(KINDS), repeat=n):
                if n == 4 and len(set(kinds)) < 3:
                    continue
                for packing in (PACKING if n < 3 else PACKING[:1]):
                    yield {'kinds': ''.join(kinds), 'packing': packing}

    def bounds(self, tier):
        return 'all sequences of up to %d observations of 12 kinds (valid, cloud, night, missing value / uncertainty / flag / coordinate, poles and date line), every division into files; 4 number formats up to length 2' % (3 if tier == 'quick' else 4)

    def run(self, case, rec):
        kinds = case['kinds']
        for parts in splits(len(kinds)):
            with scratch() as folder:
                rows, names = [], []
                for k, (a, b) in enumerate(parts):
                    paths = [os.path.join(folder, '%s%d.nc' % (x, k)) for x in ('lst', 'aux')]
                    rows += write_granule(paths[0], paths[1], kinds[a:b], case['packing'], a, 0.5 + k)
                    names.append(SatelliteFilename(*paths))
                with quiet():
                    result = SatelliteFileAggregator.from_command_arguments(arguments()).run(names)
                rec.step(len(parts))
                require([l.status for l in result.load] == ['ok'] * len(parts), lambda: 'files not read: %r' % [l.status for l in result.load], 'status')
                compare(result.fields, reference(rows))
                rec.state((result.fields['tsmean'].tobytes(), result.fields['total_number_of_observations'].tobytes()))
        rec.outcome(''.join(sorted(kinds)))


FAULTS = ('ok', 'no lst', 'no aux', 'bad lst', 'bad aux', 'cut lst', 'empty aux')


class Faults(Harness):
    """Files that are missing or cannot be read are reported and contribute nothing."""
    name = 'faults'
    chunk = 8

    def cases(self, tier):
        for n in (1, 2, 3):
            for faults in itertools.product(FAULTS, repeat=n):
                if n == 3 and tier == 'quick' and sum(f != 'ok' for f in faults) > 2:
                    continue
                yield {'faults': list(faults)}

    def bounds(self, tier):
        return 'all assignments of 7 conditions (present; either component missing, garbage, truncated or empty) to up to 3 files'

    def run(self, case, rec):
        with scratch() as folder:
            rows, names = [], []
            for k, fault in enumerate(case['faults']):
                paths = [os.path.join(folder, '%s%d.nc' % (x, k)) for x in ('lst', 'aux')]
                mine = write_granule(paths[0], paths[1], 'ab'[k % 2] + 'ck'[k // 2], 'f4', 2 * k, 0.5)
                if fault == 'ok':
                    rows += mine
                else:
                    what, which = fault.split()
                    path = paths[which == 'aux']
                    if what == 'no':
                        os.unlink(path)
                    else:
                        data = {'bad': b'not a netCDF file', 'cut': open(path, 'rb').read()[:300], 'empty': b''}[what]
                        with open(path, 'wb') as f:
                            f.write(data)
                names.append(SatelliteFilename(*paths))
            with quiet():
                result = SatelliteFileAggregator.from_command_arguments(arguments()).run(names)
            rec.step(len(names))
            expected = ['ok' if f == 'ok' else 'missing' if f.startswith('no') else 'error' for f in case['faults']]
            require([l.status for l in result.load] == expected, lambda: 'reported %r for %r' % ([l.status for l in result.load], case['faults']), 'status')
            require([l.filename for l in result.load] == names, 'load results are not in the order of the files', 'status')
            if 'ok' in expected:
                compare(result.fields, reference(rows))
            else:
                require(not result.fields, 'fields although no file could be read', 'empty')
            rec.state(tuple(expected))
            rec.outcome(tuple(expected))


class Flags(Harness):
    """The quality conditions: observations of interest and valid observations, each a mask and the value required under it."""
    name = 'flags'
    chunk = 16

    def cases(self, tier):
        top = 4 if tier == 'quick' else 8
        for mask_obs, filter_obs, mask_valid, filter_valid in itertools.product(range(top), repeat=4):
            if top == 8 and (filter_obs & ~mask_obs or filter_valid & ~mask_valid) and max(mask_obs, filter_obs, mask_valid, filter_valid) > 3:
                continue
            yield {'obs': [mask_obs, filter_obs], 'valid': [mask_valid, filter_valid]}

    def bounds(self, tier):
        return 'all %d-bit masks and required values for both conditions, on one file with every value of the quality flags' % (2 if tier == 'quick' else 3)

    def run(self, case, rec):
        flags = [f for f in range(8) for _ in range(1 + f % 3)]
        with scratch() as folder:
            paths = [os.path.join(folder, x + '.nc') for x in ('lst', 'aux')]
            write_granule(paths[0], paths[1], 'a' * len(flags), 'f4', 0, 0.5)
            with netCDF4.Dataset(paths[0], 'a') as f:
                f.variables['QC'][:] = numpy.array([flags])
                f.variables['LST'][:] = numpy.array([[270.0 + i * i for i in range(len(flags))]])
            args = arguments(qc_mask_obs=case['obs'][0], qc_filter_obs=case['obs'][1], qc_mask_valid=case['valid'][0], qc_filter_valid=case['valid'][1])
            fields = self.aggregate(args, paths)
            rec.step()
        chosen = dict((k, [i for i, f in enumerate(flags) if f & case[k][0] == case[k][1]]) for k in ('obs', 'valid'))
        cell = cell_of({'lat': KINDS['a'][0], 'lon': KINDS['a'][1]})
        for name, which in (('total_number_of_observations', 'obs'), ('ts_number_of_observations', 'valid')):
            require(fields[name][cell] == len(chosen[which]) and fields[name].sum() == len(chosen[which]),
                    lambda: '%s is %d, with %d fulfilling the condition' % (name, fields[name][cell], len(chosen[which])), name)
        values = [270.0 + i * i for i in chosen['valid']]
        require(close(float(fields['tsmean'][cell]), sum(values) / len(values) if values else -1.0), 'the mean is over other observations', 'tsmean')
        require(close(float(fields['tsmax'][cell]), max(values) if values else -1.0), 'the maximum is over other observations', 'tsmax')
        if len(values) > 1:
            variance = sum((v - sum(values) / len(values)) ** 2 for v in values) / (len(values) - 1)
            require(close(float(fields['tsvariance'][cell]), variance, 1e-4), 'the variance is over other observations', 'tsvariance')
        rec.state((len(chosen['obs']), tuple(chosen['valid'])))
        rec.outcome((len(chosen['obs']), len(chosen['valid'])))

    @staticmethod
    def aggregate(args, paths):
        with quiet():
            return SatelliteFileAggregator.from_command_arguments(args).run([SatelliteFilename(*paths)]).fields


PLACES = {'in': (15.0, 5.0), 'corner': (10.0, 0.0), 'south': (9.0, 5.0), 'north': (41.0, 5.0), 'west': (15.0, -1.0), 'east': (15.0, 13.0),
          'far': (15.0, 170.0), 'pole': (-90.0, 5.0)}


class Outside(Harness):
    """A regional grid: an observation outside it is never counted in one of its cells."""
    name = 'outside'
    chunk = 8

    def cases(self, tier):
        for n in (1, 2, 3) if tier == 'thorough' else (1, 2):
            for places in itertools.product(sorted(PLACES), repeat=n):
                for wrap in (False, True):
                    yield {'places': list(places), 'wrap': wrap}

    def bounds(self, tier):
        return 'all sequences of up to %d observations at 8 places in and around a regional grid, wrapping or not' % (3 if tier == 'thorough' else 2)

    def run(self, case, rec):
        with scratch() as folder:
            paths = [os.path.join(folder, x + '.nc') for x in ('lst', 'aux')]
            write_granule(paths[0], paths[1], 'a' * len(case['places']), 'f4', 0, 0.5)
            with netCDF4.Dataset(paths[0], 'a') as f:
                f.variables['lat'][:] = numpy.array([[PLACES[p][0] for p in case['places']]])
                f.variables['lon'][:] = numpy.array([[PLACES[p][1] for p in case['places']]])
            args = arguments(x0=0.0, xs=4.0, xn=3, y0=10.0, ys=10.0, yn=3, wrapcoords=case['wrap'])
            rec.step()
            inside = [PLACES[p] for p in case['places'] if p in ('in', 'corner')]
            try:
                with quiet():
                    result = SatelliteFileAggregator.from_command_arguments(args).run([SatelliteFilename(*paths)])
            except ValueError:
                require(len(inside) < len(case['places']), 'observations inside the grid are refused', 'refused')
                rec.outcome('refused')
                return
            counts = numpy.zeros((3, 3), int)
            for lat, lon in inside:
                counts[int((lat - 10.0) // 10.0), int(lon // 4.0)] += 1
            for name in ('ts_number_of_observations', 'total_number_of_observations'):
                require((numpy.asarray(result.fields[name]) == counts).all(), lambda: '%s counts observations outside the grid' % name, 'outside')
            rec.state(counts.tobytes())
            rec.outcome(len(inside))


class Command(Harness):
    """The program: files of one day or one time in, one output file."""
    name = 'command'
    chunk = 4

    def cases(self, tier):
        for kinds in ('a', 'k', 'ab', 'mc', 'abk', 'abc', 'ppn', 'abkks') if tier == 'quick' else [''.join(k) for k in itertools.product('abckmp', repeat=3)]:
            for mode in ('day', 'single'):
                yield {'kinds': kinds, 'mode': mode}
        for kinds in ('abckabm', 'bpasn', 'ac') if tier == 'quick' else [''.join(k) for k in itertools.permutations('abckm', 4)]:
            yield {'kinds': kinds, 'mode': 'full day'}

    def bounds(self, tier):
        return '%s granule contents, whole day and single time, through the command to the output file; days with all 288 files' % ('8' if tier == 'quick' else '216')

    def run(self, case, rec):
        kinds = case['kinds']
        full = case['mode'] == 'full day'
        if full:
            kinds = (kinds * 288)[:288]
        for parts in [[[i, i + 1] for i in range(288)]] if full else splits(len(kinds)) if len(kinds) < 4 else [[[0, 2], [2, 5]]]:
            with scratch() as folder:
                rows = []
                times = ['%02d%02d' % divmod(5 * i, 60) for i in range(288)] if full else ['0000', '2355', '1205'][:len(parts)]
                for k, ((a, b), t) in enumerate(zip(parts, times)):
                    mine = write_granule(os.path.join(folder, 'L20030704%s.nc' % t), os.path.join(folder, 'A20030704%s.nc' % t), kinds[a:b], 'f4', a, 0.5 + k % 9)
                    if case['mode'] != 'single' or t == '0000':
                        rows += mine
                # the neighbouring days have files too
                for other in ('200307032355', '200307050000'):
                    write_granule(os.path.join(folder, 'L%s.nc' % other), os.path.join(folder, 'A%s.nc' % other), 'ab', 'f4', 0, 0.5)
                out = os.path.join(folder, 'out.nc')
                args = arguments(path=folder, pattern_lst='L%Y%m%d%H%M.nc', pattern_aux='A%Y%m%d%H%M.nc', o=out, date='20030704' if case['mode'] != 'single' else '200307040000')
                with quiet():
                    result = command.run(args)
                rec.step(len(parts))
                ok = [l.filename.filename_lst[-7:-3] for l in result.load if l.status == 'ok']
                require(sorted(ok) == (sorted(times) if case['mode'] != 'single' else ['0000']), lambda: 'read files of %r' % ok, 'files')
                require(len(result.load) == (288 if case['mode'] != 'single' else 1), lambda: '%d times looked for' % len(result.load), 'files')
                with netCDF4.Dataset(out) as f:
                    fields = dict((name, f.variables[name][:].reshape(3, 2)) for name in f.variables if f.variables[name].ndim >= 2)
                    require(numpy.allclose(numpy.asarray(f.variables['latitude'][:]).ravel(), [-60, 0, 60]) and numpy.allclose(numpy.asarray(f.variables['longitude'][:]).ravel(), [-90, 90]), 'coordinates are not the centres of the cells', 'axes')
                compare(fields, reference(rows), lambda name: {'ts_number_of_observations': 0, 'total_number_of_observations': 0, 'tsmean': 0.003, 'tsmin': 0.003, 'tsmax': 0.003, 'tsvariance': 1e-4}.get(name, 0.0006))
                rec.state(fields['tsmean'].filled(-1).tobytes())
        rec.outcome(case['mode'])


HARNESSES = [Aggregate(), Indices(), Files(), Faults(), Flags(), Outside(), Command()]
