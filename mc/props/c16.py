"""C16: station bias terms change exactly at the recorded break points."""
import itertools
import os
import subprocess

import netCDF4
import numpy

from mc import cpp
from mc.core import Harness, Violation, require
from mc.env import quiet, scratch

with quiet():
    from eustace.analysis.advanced_standard.elements.bias import BiasElement
    from eustace.analysis.advanced_standard.elements.bias_insitu_land import InsituLandBiasElement
    from eustace.analysis.advanced_standard.elements.spatial_bias import SpatialBiasElement
    from eustace.analysis.advanced_standard.fileio.observation_structure_source_connector import ObservationStructureSourceConnector
    from eustace.analysis.observationsource import Observations, ObservationsBreakPoints
    from eustace.preprocess.fileio.insitu_land_breakpoints import ObservationBreakPointSourceInsituLand

T0 = 57400                 # days since 1850: a base for break times
_driver = {}


def ask(*lines):
    process = _driver.get(os.getpid())
    if process is None or process.poll() is not None:
        process = subprocess.Popen([cpp.program('breakpoints_driver', ['analysis/break_points/break_points.cpp', 'analysis/break_points/insitu_land_break_points.cpp'], ('-lnetcdf',))], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        _driver[os.getpid()] = process
    answers = []
    for line in lines:
        try:
            process.stdin.write(line + '\n')
            process.stdin.flush()
            answer = process.stdout.readline().split()
        except BrokenPipeError:
            answer = []
        if not answer:
            raise Violation('the C++ break point reader died on %r (exit %r)' % (line, process.wait()))
        answers.append(answer)
    return answers


class Spec(object):
    def __init__(self, filename):
        self.filename = filename
        self.localcorrelationranges = []


class Source(object):
    """One day of observations at the given stations; state 'v' valid, 'm' masked."""

    def __init__(self, filename, day, stations, places):
        self.filespecs = {'Tmean': Spec(filename)}
        n = len(stations)
        self.places = places
        self.day = day
        self.data = Observations(numpy.array([s == 'm' for i, s in stations], bool), day, numpy.array([i for i, s in stations], numpy.uint64),
                                 280.0 + numpy.arange(n), 1.0 + numpy.arange(n), [])

    def observables(self):
        return ['Tmean']

    def observation_location_lookup(self):
        return self.places

    def observations(self, observable):
        return self.data

    def local_correlation_length_scale(self, observable):
        return []


def connector(filename, day, stations, places):
    with quiet():
        return ObservationStructureSourceConnector(Source(filename, day, stations, places), 'Tmean', None)


def break_file(path, table, stations):
    """table: (station from 1, time, likelihood or None for missing)."""
    data = netCDF4.Dataset(path, 'w')
    data.createDimension('merged_break', len(table))
    data.createDimension('station', stations)
    v = data.createVariable('merged_break_time', 'i4', ('merged_break',))
    v[:] = numpy.array([t for s, t, l in table], 'i4')
    v = data.createVariable('merged_break_station', 'i4', ('merged_break',))
    v[:] = numpy.array([s for s, t, l in table], 'i4')
    v = data.createVariable('merged_break_likelihood', 'i1', ('merged_break',), fill_value=-128)
    v[:] = numpy.array([-128 if l is None else l for s, t, l in table], 'i1')
    v = data.createVariable('detection_feasibility', 'i1', ('station',), fill_value=-128)
    v[:] = numpy.array([1] * stations, 'i1')
    for name, values in (('latitude', [10.0, -20.0, 30.0, 0.0]), ('longitude', [5.0, 180.0, 359.0, -180.0])):
        v = data.createVariable(name, 'f4', ('station',))
        v[:] = values[:stations]
    data.close()


def expected_term(table, station, day):
    """Row of the break that ends the period of the given (0-based) station and day."""
    later = [(t, row) for row, (s, t, l) in enumerate(table) if s == station + 1 and t > day]
    return min(later)[1] if later else None


def check_design(element, table, filename, day, stations, places, matches, rec):
    rec.step()
    structure = connector(filename, day, stations, places)
    with quiet():
        design = element.element_design(structure)
        matrix = design.design_matrix()
    valid = [i for i, s in stations if s == 'v']
    want = numpy.zeros((len(valid), len(table)))
    for row, station in enumerate(valid):
        term = expected_term(table, station, day)
        if term is not None and matches:
            want[row, term] = 1.0
    got = numpy.asarray(matrix.todense())
    require(got.shape == want.shape and numpy.array_equal(got, want), lambda: 'breaks %r (station, time, likelihood), day %d, stations %r in %s: bias terms %r, expected %r'
            % (table, day, stations, filename, got.tolist(), want.tolist()))
    require(design.design_number_of_state_parameters() == len(table), 'number of bias terms')


class Effect(Harness):
    """Every table of breaks, every day and set of reporting stations."""
    name = 'effect'
    chunk = 32

    def bounds(self, tier):
        return '3 stations of 4, each with every set of breaks on %d days; every day before, between, at and after the breaks; every set of reporting, masked and silent stations' % (3 if tier == 'quick' else 4)

    def cases(self, tier):
        days = range(1, 4) if tier == 'quick' else range(1, 5)
        sets = [s for n in range(len(days) + 1) for s in itertools.combinations(days, n)]
        for breaks in itertools.product(sets, repeat=3):
            yield dict(breaks=breaks, last=max(days) + 1)

    def run(self, case, rec):
        # stations 0, 1, 3 of 0..3 have breaks
        table = [(s + 1, T0 + t, 50) for s, breaks in zip((0, 1, 3), case['breaks']) for t in breaks]
        with scratch() as root:
            path = os.path.join(root, 'breaks.nc')
            break_file(path, table, 4)
            with quiet():
                element = InsituLandBiasElement(path)
            places = numpy.array([[10.0, -20.0, 30.0, 0.0], [5.0, 180.0, 359.0, -180.0]])
            for day in range(0, case['last'] + 1):
                for states in itertools.product('.v', 'vm', '.v', '.v'):
                    stations = [(i, s) for i, s in enumerate(states) if s != '.']
                    check_design(element, table, 'insitu_land_Tmean_20070301.bin', T0 + day, stations, places, True, rec)
            for name, matches in (('insitu_ocean_Tmean_20070301.bin', False), ('surfaceairmodel_land_Tmean_20070301.bin', False), ('insitu_land_Tmean_20070301.bin', True)):
                check_design(element, table, name, T0 + 2, [(0, 'v'), (1, 'v'), (3, 'v')], places, matches, rec)
            rec.outcome(tuple(map(tuple, case['breaks'])))


class Filters(Harness):
    """Every likelihood pattern and threshold, in Python and C++."""
    name = 'filters'
    chunk = 24

    def bounds(self, tier):
        return 'tables of up to 4 breaks of 3 stations, likelihoods from {1, 4, 64, 127, missing}, hard cut-off and kernel policies at thresholds at, just above and below each value'

    LAYOUT = [(1, 2), (1, 3), (2, 1), (4, 3)]

    def cases(self, tier):
        values = [1, 4, 127, None] if tier == 'quick' else [1, 4, 64, 127, None]
        for n in range(5):
            for likelihoods in itertools.product(values, repeat=n):
                yield dict(likelihoods=likelihoods)

    def run(self, case, rec):
        full = [(s, T0 + t, l) for (s, t), l in zip(self.LAYOUT, case['likelihoods'])]
        known = [row for row in full if row[2] is not None]
        with scratch() as root:
            path = os.path.join(root, 'breaks.nc')
            break_file(path, full, 4)
            def read(station=None):
                with quiet():
                    source = ObservationBreakPointSourceInsituLand(path, station) if station is not None else ObservationBreakPointSourceInsituLand(path)
                    result = source.observations('merged_break')
                    places = source.observation_location_lookup()
                    source.dataset.close()
                return result, places

            def rows(b):
                return [(int(s), int(t), int(l)) for s, t, l in zip(b.break_station, b.break_time, b.break_likelihood)] if len(b.break_time) == len(b.break_station) == len(b.break_likelihood) else 'columns of different lengths'
            b, places = read()
            rec.step()
            require(rows(b) == known, lambda: 'breaks %r read as %r' % (known, rows(b)))
            require(b.number_of_observations() == len(known), 'number of breaks')
            require(numpy.allclose(numpy.asarray(places), [[10, -20, 30, 0], [5, -180, -1, -180]]), 'station positions %r' % (places,))
            present = sorted(set(s for s, t, l in known))
            require([int(x) for x in b.stations_collection()] == present and b.total_number_of_stations() == len(present), 'stations %r' % (b.stations_collection(),))
            require([int(x) for x in b.stations_count()] == [sum(s == p for s, t, l in known) for p in present], 'break counts %r' % (b.stations_count(),))
            for s in (1, 2, 3, 4):
                rec.step()
                require([int(x) for x in b.filtered_break_points(s)] == [t for a, t, l in known if a == s], 'breaks of station %d' % s)
            for s in (1, 2, 3):
                one, places = read(s)
                require(rows(one) == [r for r in known if r[0] == s], lambda: 'breaks of station %d read as %r' % (s, rows(one)))
            whole = len(known) == len(full)
            if whole and full:
                answers = ask('file ' + path, 'table', 'stations', 'station 1', 'station 3', 'locations')[1:]
                flat = lambda table: ['ok', str(len(table))] + [str(x) for r in table for x in r]
                require(answers[0] == flat(known), 'C++ reads the breaks %r as %r' % (known, answers[0]))
                require(answers[1] == ['ok', str(len(present))] + [str(x) for p in present for x in (p, sum(s == p for s, t, l in known))], 'C++ station counts %r' % (answers[1],))
                for s, answer in ((1, answers[2]), (3, answers[3])):
                    require(answer == ['ok'] + [str(t) for a, t, l in known if a == s], 'C++ breaks of station %d: %r' % (s, answer))
                require(numpy.allclose([float(x) for x in answers[4][1:]], [10, -20, 30, 0, 5, -180, -1, -180]), 'C++ station positions %r' % (answers[4],))
            # policies
            for threshold in (0, 1, 2, 4, 5, 64, 126, 127, 128):
                rec.step(2)
                want = [r for r in known if r[2] >= threshold]
                b, _ = read()
                b.apply_policy('HARD_CUTOFF', threshold=threshold)
                require(rows(b) == want, lambda: 'cut-off %d of %r leaves %r, expected %r' % (threshold, known, rows(b), want))
                if whole and full:
                    answer = ask('file ' + path, 'policy 0 %d 0' % threshold)[1]
                    require(answer == flat(want), 'C++ cut-off %d of %r leaves %r' % (threshold, known, answer))
                with quiet():
                    element = InsituLandBiasElement(path, True, threshold)
                    plain = InsituLandBiasElement(path, False, threshold)
                grid = numpy.array([[10.0, -20.0, 30.0, 0.0], [5.0, 180.0, 359.0, -180.0]])
                for day in (0, 1, 2, 3):
                    check_design(element, want, 'insitu_land_Tmean_20070301.bin', T0 + day, [(0, 'v'), (1, 'v'), (2, 'm'), (3, 'v')], grid, True, rec)
                    check_design(plain, known, 'insitu_land_Tmean_20070301.bin', T0 + day, [(0, 'v'), (1, 'v'), (2, 'm'), (3, 'v')], grid, True, rec)
            for decay in (0.0, 0.01, 0.5):
                for limit in (1, 4, 64, 127):
                    for nudge in (1 - 1e-6, 1 + 1e-6):
                        rec.step()
                        threshold = float(numpy.exp(-decay * (127 - limit))) * nudge
                        want = [r for r in known if numpy.exp(-decay * (127 - r[2])) >= threshold]
                        b, _ = read()
                        b.apply_policy('LAPLACE_KERNEL', threshold=threshold, decay_constant=decay)
                        require(rows(b) == want, lambda: 'kernel %r at %r of %r leaves %r, expected %r' % (decay, threshold, known, rows(b), want))
                        if whole and full:
                            answer = ask('file ' + path, 'policy 1 %r %r' % (threshold, decay))[1]
                            require(answer == flat(want), 'C++ kernel %r at %r of %r leaves %r' % (decay, threshold, known, answer))
            try:
                b.apply_policy('OTHER')
                raise Violation('an unknown policy is accepted')
            except ValueError:
                pass
            rec.outcome(case['likelihoods'])


class Satellite(Harness):
    """Global and hemispheric bias terms of satellite sources."""
    name = 'satellite'
    chunk = 16

    def bounds(self, tier):
        return 'every sequence of up to 4 observations over latitudes {-90, -0.1, 0, 0.1, 90}, valid or masked, for every source and bias group'

    GROUPS = {'surfaceairmodel_land_global': 'surfaceairmodel_land', 'surfaceairmodel_ocean_global': 'surfaceairmodel_ocean', 'surfaceairmodel_ice_global': 'surfaceairmodel_ice'}

    def cases(self, tier):
        symbols = [(l, s) for l in range(5) for s in 'vm']
        for n in range(4 if tier == 'quick' else 5):
            for entries in itertools.product(symbols, repeat=n):
                yield dict(entries=entries)

    def setup(self):
        with quiet():
            self.spatial = SpatialBiasElement('surfaceairmodel_land_global', 0)

    def run(self, case, rec):
        latitudes = [-90.0, -0.125, 0.0, 0.125, 90.0]
        places = numpy.array([latitudes, [0.0, 10.0, 200.0, -170.0, 30.0]])
        entries = [tuple(e) for e in case['entries']]
        valid = [l for l, s in entries if s == 'v']
        for group, source in self.GROUPS.items():
            for name in ('surfaceairmodel_land', 'surfaceairmodel_ocean', 'surfaceairmodel_ice', 'insitu_land'):
                rec.step()
                structure = connector(name + '_Tmean_20070301.bin', T0, entries, places)
                n = 2 if 'ice' in group else 1
                want = numpy.zeros((len(valid), n))
                if name == source:
                    for row, l in enumerate(valid):
                        want[row, int('ice' in group and latitudes[l] < 0)] = 1.0
                with quiet():
                    design = BiasElement(group, n).element_design(structure)
                    got = numpy.asarray(design.design_matrix().todense())
                require(numpy.array_equal(got, want), lambda: '%s observations at %r: terms of %s are %r, expected %r' % (name, [latitudes[l] for l in valid], group, got.tolist(), want.tolist()))
        if valid:
            for name in ('surfaceairmodel_land', 'insitu_land'):
                structure = connector(name + '_Tmean_20070301.bin', T0, entries, places)
                with quiet():
                    got = numpy.asarray(self.spatial.element_design(structure).design_matrix().todense())
                    mesh = numpy.asarray(self.spatial.spde.build_A(structure.location_polar_coordinates()).todense())
                rec.step()
                require(got.shape == mesh.shape and numpy.array_equal(got, mesh if name == 'surfaceairmodel_land' else 0 * mesh), 'spatial bias terms of %s observations' % name)
        rec.outcome(tuple(valid))


HARNESSES = [Effect(), Filters(), Satellite()]
ASSUMPTIONS = ['break tables sorted by station and time, observations of a day in station order with at most one per station, as the preprocessing writes them; likelihoods in the documented range 1-127 or missing']
