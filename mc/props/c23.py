"""C23: diagnostic grids summarise exactly the observations in each cell."""
import datetime
import itertools
import os
import uuid

import netCDF4
import numpy

from mc.core import Harness, require
from mc.env import old_netcdf, quiet, scratch
from mc.props import c22    # opens binary files as Python 2 does
from mc.props.c20 import close, splits

with quiet():
    old_netcdf('eustace.outputformats.iriscubesaver')
    from eustace.analysis import diagnostic_combine
    from eustace.analysis.diagnosticgrid import DiagnosticGridBins, DiagnosticGridInput, DiagnosticGridObservationConnector
    from eustace.analysis.fileio import observationsource_rawbinary as raw
    from eustace.analysis.observationsource import Observations
    from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldAxis

DAY = 57500


def summary(rows):
    """Reference: rows of (observation, uncertainty) in one cell."""
    if not rows:
        return None
    obs, unc = [r[0] for r in rows], [r[1] for r in rows]
    weighted, precision = sum(o / u for o, u in rows), sum(1.0 / u for u in unc)
    return {'count': float(len(rows)), 'observation_min': min(obs), 'observation_max': max(obs), 'uncertainty_min': min(unc), 'uncertainty_max': max(unc),
            'observation_weightedsum': weighted, 'precision_sum': precision, 'observation_weightedmean': weighted / precision}


NAMES = ('count', 'observation_min', 'observation_max', 'uncertainty_min', 'uncertainty_max', 'observation_weightedsum', 'precision_sum', 'observation_weightedmean')


def check_cell(grid, source, observable, cell, rows, note=''):
    expected = summary(rows)
    for name in NAMES:
        field = grid.get_field('%s_%s_%s' % (source, observable, name))
        require(field is not None, lambda: 'no field for %s' % name, name)
        value = field.data.reshape(-1)[cell]
        got = None if value is numpy.ma.masked else float(value)
        require(close(got, expected and expected[name], 1e-9), lambda: '%s is %r and not %r %s' % (name, got, expected and expected[name], note), name)


VALUES = (-1.5, 0.0, 2.0)
ERRORS = (0.5, 4.0)


class Aggregate(Harness):
    """Every sequence of observations and every division into days or batches, one source or two."""
    name = 'aggregate'
    chunk = 60

    def cases(self, tier):
        pairs = list(itertools.product(range(3), range(2)))
        alphabet = [(cell, v, u) for cell in (0, 1) for v, u in pairs]
        for n in range(4):
            for sequence in itertools.product(alphabet, repeat=n):
                yield {'obs': [list(o) for o in sequence]}
        few = [(0, 0, 1), (0, 1, 0), (0, 2, 1), (1, 2, 0)]
        for sequence in itertools.product(few, repeat=4 if tier == 'quick' else 6):
            yield {'obs': [list(o) for o in sequence]}
        for sequence in itertools.product(few, repeat=3):
            yield {'obs': [list(o) for o in sequence], 'times': 12}

    def bounds(self, tier):
        return 'all sequences of up to %d observations over 2 cells x 3 values x 2 uncertainties, all of length %d over 4 of these, every division into batches, dealt to one source or two; sequences of 36 made of 3 repeated, all at once, in halves and singly' % ((3, 4) if tier == 'quick' else (3, 6))

    def run(self, case, rec):
        times = case.get('times', 1)
        rows = [(o[0], VALUES[o[1]], ERRORS[o[2]]) for o in case['obs']] * times
        n = len(rows)
        divisions = list(splits(n)) if times == 1 else [[[0, n]], [[0, n // 2], [n // 2, n]], [[i, i + 1] for i in range(n)]]
        for axes in ([GridFieldAxis(-0.5, 1.0, 1, 'latitude', False), GridFieldAxis(-0.5, 1.0, 3, 'longitude', False)],
                     [GridFieldAxis(DAY - 1.0, 1.0, 1, 'time', False), GridFieldAxis(-0.5, 1.0, 1, 'latitude', False), GridFieldAxis(-0.5, 1.0, 3, 'longitude', False)]):
            for parts in divisions:
                for sources in (1, 2):
                    grid = DiagnosticGridBins(axes)
                    held = [[] for _ in range(sources)]
                    for k, (a, b) in enumerate(parts or [[0, 0]]):
                        mine = rows[a:b]
                        held[k % sources] += mine
                        batch = DiagnosticGridInput('T', DAY, numpy.array([r[0] for r in mine], numpy.int32), numpy.array([r[1] for r in mine], float), numpy.array([r[2] for r in mine], float))
                        grid.create_fields_from_sparse_observations('s%d' % (k % sources), batch)
                        grid.compute_weighted_mean('s%d' % (k % sources), 'T')
                        rec.step()
                    for s in range(min(sources, max(len(parts), 1))):
                        for cell in range(3):
                            check_cell(grid, 's%d' % s, 'T', cell, [r[1:] for r in held[s] if r[0] == cell], 'batches %r' % parts)
                    rec.state(tuple(tuple(sorted(h)) for h in held))
        rec.outcome(len(rows))


LATITUDES = (0.5, -0.5, 0.0, -1.0)
LONGITUDES = (0.25, 1.0, 2.75, 2.0)


class Source(object):
    """A source whose location table has entries in every cell (and on their edges), most of them unused."""

    def __init__(self, rows, dtype):
        self.places = list(itertools.product(LATITUDES, LONGITUDES))
        self.rows, self.dtype = rows, dtype

    def observation_location_lookup(self):
        return numpy.array(self.places, self.dtype).T

    def observations(self, observable):
        r = self.rows
        return Observations(numpy.array([x['masked'] for x in r], bool), numpy.array([x['day'] for x in r], numpy.float32),
                            numpy.array([x['place'] for x in r], numpy.uint64), numpy.array([x['value'] for x in r], numpy.float32),
                            numpy.array([x['error'] for x in r], numpy.float32), numpy.zeros((0, len(r)), numpy.float32))


class Connector(Harness):
    """From an observation source: the day, the mask and the location of every observation."""
    name = 'connector'
    chunk = 40

    def cases(self, tier):
        alphabet = [(place, day, masked) for place in (0, 5, 10, 15) for day in (0, 1) for masked in (False, True)]
        for n in range(3 if tier == 'quick' else 4):
            for sequence in itertools.product(range(len(alphabet)), repeat=n):
                yield {'obs': [list(alphabet[i]) for i in sequence]}
        # every place once
        for place in range(len(LATITUDES) * len(LONGITUDES)):
            yield {'obs': [[place, 0, False]]}

    def bounds(self, tier):
        return 'all sequences of up to %d observations over 4 places x 2 days x masked or not; every one of 16 places including cell edges; both precisions of the location table' % (2 if tier == 'quick' else 3)

    def run(self, case, rec):
        rows = [dict(place=p, day=DAY + d + (0.5 if i % 2 else 0.0), masked=m, value=1.5 * i - 2.0, error=0.5 + i) for i, (p, d, m) in enumerate(case['obs'])]
        axes = [GridFieldAxis(-1.5, 1.0, 2, 'latitude', False), GridFieldAxis(-0.5, 1.0, 3, 'longitude', False)]
        for dtype in (numpy.float32, numpy.float64):
            source = Source(rows, dtype)
            connector = DiagnosticGridObservationConnector(axes, source)
            grid = DiagnosticGridBins(axes)
            for day in (DAY - 1, DAY, DAY + 1, DAY + 2):
                batch = connector.get_day('T', day)
                rec.step()
                mine = [r for r in rows if not r['masked'] and int(r['day']) == day]
                require(len(batch.indices) == len(mine) == len(batch.observation) == len(batch.uncertainty), lambda: '%d observations for a day with %d' % (len(batch.indices), len(mine)), 'day')
                grid.create_fields_from_sparse_observations(str(day), batch)
                grid.compute_weighted_mean(str(day), 'T')
                for cell in range(6):
                    inside = [r for r in mine if int(numpy.floor(source.places[r['place']][0])) + 1 == cell // 3 and int(numpy.floor(source.places[r['place']][1])) == cell % 3]
                    check_cell(grid, str(day), 'T', cell, [(r['value'], r['error']) for r in inside])
                rec.state((day, tuple(len([r for r in mine if r['place'] == p]) for p in range(16))))
        rec.outcome(len(rows))


def global_cell(lat, lon):
    return (min(int(numpy.floor((lat + 90.0) * 4.0)), 719), int(numpy.floor((lon + 180.0) * 4.0)) % 1440)


PLACES = [(0.1, 0.1), (0.2, 0.2), (-89.9, 179.9), (90.0, -180.0), (-90.0, 180.0), (45.25, -30.5)]


class Combine(Harness):
    """The operation: observation files of several sources in, one file of global grids out."""
    name = 'combine'
    chunk = 1

    def cases(self, tier):
        contents = ['', '0', '01', '012', '3', '45', '10', '00']
        for a in contents:
            yield {'files': [a]}
        # [source, observable, location table]
        for roles in ([[0, 0, 0], [1, 0, 0]], [[0, 0, 0], [0, 1, 0]], [[0, 0, 0], [0, 1, 1]], [[0, 0, 0], [1, 0, 1]], [[1, 1, 1], [0, 0, 0]]):
            for pair in itertools.product(contents[:4] if tier == 'quick' else contents, repeat=2):
                if tier == 'thorough' or pair in (('01', '0'), ('', '01'), ('0', '012')):
                    yield {'files': list(pair), 'roles': roles}
        for files in itertools.permutations(('01', '12', '3')):
            yield {'files': list(files), 'roles': [[0, 0, 0], [1, 0, 1], [0, 2, 1]]}

    def bounds(self, tier):
        return 'observation files of 8 contents (none, same cell, poles and date line)%s through the operation to the output file; two inputs being two sources or two observables of one, with a common location table or one each; three inputs in every order' % (', all pairs of these,' if tier == 'thorough' else '')

    def run(self, case, rec):
        with scratch() as folder:
            at = lambda name: os.path.join(folder, name)
            # two location tables that hold the places in different order
            order = [list(range(len(PLACES))), list(range(1, len(PLACES))) + [0]]
            tables = [raw.LocationLookupWithID(uuid.UUID(int=7 + t), numpy.array([PLACES[p] for p in order[t]], numpy.float64).T) for t in (0, 1)]
            inputs, expected = [], {}
            with quiet():
                for t in (0, 1):
                    raw.LocationLookupRawBinaryWriter().write(at('locations%d.bin' % t), tables[t])
                for k, places in enumerate(case['files']):
                    source, observable, t = case.get('roles', [[0, 0, 0]])[k]
                    source, observable = 's%d' % source, ('Tmean', 'Tmax', 'Tmin')[observable]
                    rows = [(int(p), 280.0 + 3.0 * i - k, 0.5 + (i * 2) % 3) for i, p in enumerate(places)]
                    terms = [numpy.full(len(rows), 0.25 * j) for j in range(k)]
                    raw.LocalCorrelationRangeRawBinaryWriter().write(at('ranges%d.bin' % k), [100.0 * (j + 1) for j in range(k)])
                    obs = Observations(numpy.zeros(len(rows), bool), numpy.array(DAY), numpy.array([order[t].index(r[0]) for r in rows], numpy.uint64),
                                       numpy.array([r[1] for r in rows]), numpy.array([r[2] for r in rows]), terms)
                    raw.ObservationRawBinaryWriter().write_day(at('obs%d.bin' % k), tables[t].uuid, obs, DAY)
                    inputs.append(diagnostic_combine.DiagnosticInput(source, observable, at('ranges%d.bin' % k), at('locations%d.bin' % t), at('obs%d.bin' % k)))
                    cells = {}
                    for p, value, error in rows:
                        cells.setdefault(global_cell(*PLACES[p]), []).append((value, error))
                    expected[source + '_' + observable] = cells
                rec.step(len(inputs))
                diagnostic_combine.run(at('sub/out.nc'), inputs, datetime.datetime(1850, 1, 1) + datetime.timedelta(days=DAY))
            with netCDF4.Dataset(at('sub/out.nc')) as f:
                for source, cells in expected.items():
                    for name in NAMES:
                        data = numpy.ma.masked_array(f.variables['%s_%s' % (source, name)][:]).reshape(720, 1440)
                        where = set(zip(*[[int(x) for x in a] for a in numpy.nonzero(~numpy.ma.getmaskarray(data))]))
                        require(where == set(cells), lambda: '%s has data in cells %r and not %r' % (name, sorted(where)[:4], sorted(cells)), name)
                        for cell, rows in cells.items():
                            require(close(float(data[cell]), summary(rows)[name], 1e-6), lambda: '%s of %s in cell %r is %r and not %r' % (name, source, cell, float(data[cell]), summary(rows)[name]), name)
                lat, lon = numpy.asarray(f.variables['latitude'][:]), numpy.asarray(f.variables['longitude'][:])
                require(abs(lat[0] + 89.875) < 1e-6 and abs(lat[-1] - 89.875) < 1e-6 and abs(lon[0] + 179.875) < 1e-6, 'coordinates are not the centres of the cells', 'axes')
            rec.state(str(sorted(expected.items())))
            rec.outcome(len(inputs))


HARNESSES = [Aggregate(), Connector(), Combine()]
