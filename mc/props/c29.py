"""C29: hyperparameters are fitted to the files listed for the chosen days and stored as fitted."""
import copy
import datetime
import io
import itertools
import os

import numpy

from mc.core import Harness, require
from mc.env import quiet, scratch
from mc.analysis import LinearElement
from mc.props import c22
from mc.props.c18 import LogElement, exact

with quiet():
    from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
    from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
    from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory, SpatialComponentSolutionStorage_InMemory
    from eustace.analysis.advanced_standard.elements.covariate import CovariateHyperparameters
    from eustace.analysis.advanced_standard.elements.local import LocalHyperparameters
    from eustace.analysis.advanced_standard.elements.local_view import ExtendedCombinationHyperparameters
    from eustace.analysis.advanced_standard.fileio import optimization_inputs
    from eustace.analysis.advanced_standard.optimizationsystem import OptimizationSystem
    from eustace.analysis.fileio import observationsource_rawbinary as raw
    from eustace.analysis.observationsource import Observations

EPOCH = datetime.datetime(1850, 1, 1)
DATES = [datetime.datetime(2016, 12, 31), datetime.datetime(2017, 1, 1), datetime.datetime(1904, 2, 29)]
PLACES = numpy.array([[-40.0, 0.0, 10.0, 50.0], [-120.0, 0.0, 170.0, 20.0]])
ID = c22.UUIDS[0]


def number(date):
    return (date - EPOCH).days


def summarise(folder, order, dates, sources, stale=False):
    """The files of the two preparation steps: a summary for each day, all of them in one list."""
    names = {}
    for i, date in enumerate(dates):
        names[i] = os.path.join(folder, 'summaries', '%04d' % date.year, 'inputs_%s.json' % date.strftime('%Y%m%d'))
        if stale:    # a longer one was there before
            optimization_inputs.input_summary(date + datetime.timedelta(days=1), names[i], sources[i] + sources[i] + [dict(name='another' * 20)])
        given = copy.deepcopy(sources[i])
        optimization_inputs.input_summary(date, names[i], given)
        require(given == sources[i], 'the listed sources were changed', 'changed')
    merged = os.path.join(folder, 'merged', 'inputs.json')
    optimization_inputs.merge_input_summaries([names[i] for i in order], merged)
    return optimization_inputs.generate_input_descriptor(merged)


class Listing(Harness):
    """Every order and number of days, every description of their sources."""
    name = 'listing'
    chunk = 16

    DATES = [datetime.datetime(1850, 1, 1), datetime.datetime(1900, 2, 28), datetime.datetime(1900, 3, 1), datetime.datetime(2000, 2, 29), datetime.datetime(2015, 12, 31)]
    SOURCES = [
        [],
        [dict(fixed_location_lookup_filename='/a/lookup.bin', local_correlation_ranges_filenames={'Tmin': '/a/1.bin', 'Tmax': '/a/2.bin'}, observable_filenames={'Tmin': '/a/%Y min.bin', 'Tmax': None})],
        [dict(mobile_location_lookup_filenames={'Tmean': None}, local_correlation_ranges_filenames={'Tmean': 'r.bin'}, observable_filenames={'Tmean': None}, name=None),
         dict(fixed_location_lookup_filename='b.bin', local_correlation_ranges_filenames={}, observable_filenames={'Tmean': 'c/d.bin'}, name='one')],
    ]

    def bounds(self, tier):
        return 'all orders of %s of 5 days x all choices of 3 lists of sources x files new or there before' % ('1-3' if tier == 'quick' else '1-4')

    def cases(self, tier):
        for n in range(0, 4 if tier == 'quick' else 5):
            for days in itertools.permutations(range(5), n):
                for sources in itertools.product(range(3), repeat=n):
                    if n < 3 or tier == 'thorough' or days[0] < 2:
                        for stale in (False, True):
                            yield dict(days=list(days), sources=list(sources), stale=stale)

    def run(self, case, rec):
        dates = [self.DATES[d] for d in case['days']]
        sources = [self.SOURCES[s] for s in case['sources']]
        with scratch() as folder, quiet():
            got = summarise(folder, range(len(dates)), dates, sources, case['stale'])
        rec.step(len(dates) + 1)
        require(list(got.keys()) == [d.isoformat() for d in dates], lambda: 'days %r listed as %r' % (dates, list(got.keys())), 'days')
        for date, want in zip(dates, sources):
            require(got[date.isoformat()] == want, lambda: 'sources of %s: %r, listed as %r' % (date, want, got[date.isoformat()]), 'sources')
        rec.outcome((len(dates), tuple(case['sources'])))


class Source(object):
    """Files of one source: fixed places with minimum and maximum, fixed with mean, moving with mean."""
    CONTENT = {'A': (0, 2), 'B': (3, 1, 2)}

    def __init__(self, folder, index):
        self.index, self.names = index, ('Tmin', 'Tmax') if index == 0 else ('Tmean',)
        self.at = lambda *parts: os.path.join(folder, 'source%d_' % index + '_'.join(str(p) for p in parts) + '.bin')
        self.terms = (1, 0, 2)[index]
        for name in self.names:
            raw.LocalCorrelationRangeRawBinaryWriter().write(self.at('ranges', name), [10.0 + k for k in range(self.terms)])
        if index < 2:
            raw.LocationLookupRawBinaryWriter().write(self.at('places'), raw.LocationLookupWithID(ID, PLACES))

    def value(self, name, day, location):
        base = {'Tmin': -1.5, 'Tmax': 2.0, 'Tmean': 0.5}[name]
        return base + 0.25 * ((day * 3 + location * 5 + self.index * 7) % 11), 0.5 + 0.25 * ((day + location + self.index + len(name)) % 4)

    def describe(self, day, content):
        """Description of the source on one day, its files written; and the rows (location, value, error) of the mean."""
        present = content != '-'
        locations = self.CONTENT.get(content, ())
        rows = {}
        for name in self.names:
            rows[name] = [(l,) + self.value(name, day, l) for l in locations]
            if present:
                column = lambda i: numpy.array([r[i] for r in rows[name]], float)
                o = Observations(numpy.zeros(len(locations), bool), numpy.array(day), numpy.array(locations, numpy.uint64), column(1), column(2), [column(2) * (k + 2) for k in range(self.terms)])
                raw.ObservationRawBinaryWriter().write_day(self.at(name, day), ID, o, day)
        result = dict(local_correlation_ranges_filenames={n: self.at('ranges', n) for n in self.names}, observable_filenames={n: self.at(n, day) if present else None for n in self.names})
        if self.index < 2:
            result['fixed_location_lookup_filename'] = self.at('places')
        else:
            if present:
                raw.LocationLookupRawBinaryWriter().write(self.at('places', day), raw.LocationLookupWithID(ID, PLACES))
            result['mobile_location_lookup_filenames'] = {'Tmean': self.at('places', day) if present else None}
        if self.index == 0:
            low, high = rows['Tmin'], rows['Tmax']
            return result, [(a[0], 0.5 * (a[1] + b[1]), numpy.sqrt(0.5 * (a[2] ** 2 + b[2] ** 2))) for a, b in zip(low, high)]
        return result, rows['Tmean']


class Known(object):
    """Observations as the model elements of the reference see them."""
    def __init__(self, day, rows):
        self.day, self.rows = day, rows

    def time_index(self):
        return self.day

    def number_of_observations(self):
        return len(self.rows)

    def location_polar_coordinates(self):
        return PLACES[:, [r[0] for r in self.rows]].T.reshape(len(self.rows), 2)


class Saved(object):
    def __init__(self, value):
        self.values = numpy.array([value])

    def get_array(self):
        return self.values

    def set_array(self, values):
        self.values = numpy.array(values)

    def values_to_npy_savefile(self, filename):
        numpy.save(filename, self.values)


CONTENTS = [''.join(c) for c in itertools.product('-0AB', repeat=3)]
SELECTIONS = [list(s) for n in (1, 2, 3) for s in itertools.permutations(range(3), n)]


class Workflow(Harness):
    """From the files of each day, through the list of inputs, to the solved component."""
    name = 'workflow'
    chunk = 12

    def bounds(self, tier):
        return 'every combination of no file, empty file and two contents for three sources on each of three days x all 15 ordered selections of days x %s, then processed again for another selection after another component changed; hyperparameters fitted in every fourth' % ('2 orders of the list' if tier == 'quick' else 'all orders of the list')

    def cases(self, tier):
        for c in range(64):
            for s in range(15):
                for order in ([[0, 1, 2], [2, 0, 1]] if tier == 'quick' else list(map(list, itertools.permutations(range(3))))):
                    if tier == 'thorough' or (c + s) % 2 == order[0] // 2:
                        yield dict(content=c, selection=SELECTIONS[s], order=order, again=SELECTIONS[(s * 4 + c) % 15], fit=(c + s) % 4 == 0)

    def run(self, case, rec):
        days = [number(d) for d in DATES]
        contents = [CONTENTS[(case['content'] * k + 21 * i) % 64] for i, k in enumerate((1, 5, 11))]
        with scratch() as folder, quiet():
            sources = [Source(folder, i) for i in range(3)]
            described, rows = [], []
            for day, content in zip(days, contents):
                both = [s.describe(day, c) for s, c in zip(sources, content)]
                described.append([b[0] for b in both])
                rows.append([b[1] for b in both])
            descriptor = summarise(folder, case['order'], DATES, described)
            keys = [d.isoformat() for d in DATES]
            # components: whole period, per day on all but the second day, the one whose hyperparameters are fitted
            wide, bias, region = LinearElement(2, 2), LinearElement(2, 3), LogElement(3, 1)
            wide_storage, bias_storage, region_storage = SpaceTimeComponentSolutionStorage_InMemory(), SpatialComponentSolutionStorage_InMemory(), SpatialComponentSolutionStorage_InMemory()
            wide_state, bias_state = numpy.array([0.5, -1.0]), {days[0]: numpy.array([1.0, 0.25]), days[2]: numpy.array([-0.75, 2.0])}
            wide_storage.state_write(wide_state)
            for day, state in bias_state.items():
                bias_storage.partial_state_write(state, day)
            hyperparameters = Saved(0.25)
            components = [SpaceTimeComponent(ComponentStorage_InMemory(wide, Saved(1.0)), wide_storage),
                          DelayedSpatialComponent(ComponentStorage_InMemory(bias, Saved(1.0)), bias_storage),
                          DelayedSpatialComponent(ComponentStorage_InMemory(region, hyperparameters), region_storage)]
            system = OptimizationSystem(components, 'Tmean', log=io.StringIO())
            system.log = io.StringIO()
            known = {}

            def parts(i):
                """Dense design, precision and what is left of the observations."""
                found = [Known(days[i], r) for r in rows[i] if r]
                A = numpy.concatenate([numpy.zeros((0, 3))] + [region.dense(o) for o in found])
                y = numpy.concatenate([numpy.zeros(0)] + [numpy.array([r[1] for r in o.rows]) - wide.dense(o).dot(wide_state) - bias.dense(o).dot(bias_state.get(days[i], numpy.zeros(2))) for o in found])
                W = numpy.diag([1.0 / r[2] ** 2 for o in found for r in o.rows]).reshape(len(y), len(y))
                return A, W, y

            def check(what):
                got = sorted(region_storage.timeindices_read())
                require(got == sorted(days[i] for i in known), lambda: '%s: measurements of days %r held, %r chosen' % (what, got, sorted(days[i] for i in known)), 'days')
                for i, (A, W, y) in known.items():
                    rec.step()
                    m = region_storage.measurement_read(days[i])
                    dense = lambda v: numpy.asarray(v.todense() if hasattr(v, 'todense') else v)
                    require(numpy.allclose(dense(m.information_precision), A.T.dot(W).dot(A), atol=1e-8), lambda: '%s: precision of %s is %s, not %s' % (what, keys[i], dense(m.information_precision), A.T.dot(W).dot(A)), 'precision')
                    require(numpy.allclose(dense(m.information_vector).ravel(), A.T.dot(W).dot(y), atol=1e-8), lambda: '%s: information of %s is %s, not %s' % (what, keys[i], dense(m.information_vector).ravel(), A.T.dot(W).dot(y)), 'information')

            def solved(what):
                for i, (A, W, y) in known.items():
                    want = numpy.linalg.solve(region.dense_prior(numpy.exp(hyperparameters.values[0])) + A.T.dot(W).dot(A), A.T.dot(W).dot(y))
                    got = region_storage.partial_state_read(days[i])
                    require(got is not None and numpy.allclose(numpy.asarray(got).ravel(), want, atol=1e-8), lambda: '%s: state of %s is %s, not %s' % (what, keys[i], got, want), 'state')

            before = copy.deepcopy(descriptor)
            system.process_inputs(descriptor, 2, [keys[i] for i in case['selection']])
            known.update({i: parts(i) for i in case['selection']})
            check('processed')
            system.update_component(descriptor, 2, [keys[i] for i in case['selection']])
            check('updated')
            solved('updated')
            # once more, when what another component explains has changed, for other days
            wide_state = numpy.array([-2.0, 0.75])
            wide_storage.state_write(wide_state)
            system.update_component(descriptor, 2, [keys[i] for i in case['again']])
            known.update({i: parts(i) for i in case['again']})
            check('updated again')
            solved('updated again')
            require(descriptor == before, 'the list of inputs was changed', 'changed')
            require(numpy.array_equal(wide_storage.state_read(), wide_state) and all(numpy.array_equal(bias_storage.partial_state_read(d), s) for d, s in bias_state.items()), 'the state of another component was changed', 'others')
            if case['fit'] and any(len(y) for A, W, y in known.values()):
                filename = os.path.join(folder, 'fitted.npy')
                start = float(hyperparameters.values[0])
                system.optimize_component(2, hyperparameter_storage_file=filename)
                fitted = float(hyperparameters.get_array()[0])
                require(numpy.array_equal(numpy.load(filename), hyperparameters.get_array()), 'stored hyperparameters differ from those fitted', 'stored')

                def cost(p):
                    return sum(exact(region.dense_prior(numpy.exp(p)), [region.dense_prior(numpy.exp(p))], A, W, y, numpy.zeros(3))[0] for A, W, y in known.values() if len(y))
                require(cost(fitted) <= cost(start) + 1e-8, lambda: 'hyperparameter %s explains the observations worse (%s) than the initial %s (%s)' % (fitted, cost(fitted), start, cost(start)), 'fitted')
                rec.step()
                system.optimize_component(2)
                check('fitted')
        rec.state((case['content'], tuple(case['selection']), tuple(case['again'])))
        rec.outcome(tuple(contents))


class Regions(Harness):
    """Fitted hyperparameters of real model elements: each region's file gives back its own."""
    name = 'regions'
    chunk = 16

    def bounds(self, tier):
        return 'all orders of writing and reading the files of 1-4 regions, 1-3 parts each'

    def cases(self, tier):
        for n in range(1, 5):
            for sizes in itertools.product((1, 2, 3), repeat=n):
                for order in itertools.permutations(range(n)):
                    if tier == 'thorough' or n < 4 or order[0] == 2:
                        yield dict(sizes=list(sizes), order=list(order))

    def make(self, size, value):
        parts = [LocalHyperparameters(value, value + 0.5), CovariateHyperparameters(value - 0.25), LocalHyperparameters(-value, 3 * value)][:size]
        return ExtendedCombinationHyperparameters(parts)

    def run(self, case, rec):
        sizes = case['sizes']
        with scratch() as folder, quiet():
            name = lambda k: os.path.join(folder, 'region_%d.npy' % k)
            regions = []
            for k, size in enumerate(sizes):
                element = LinearElement(2, 1)
                component = DelayedSpatialComponent(ComponentStorage_InMemory(element, self.make(size, 1.0 + k)), SpatialComponentSolutionStorage_InMemory())
                regions.append(component)
            want = [numpy.array(r.storage.hyperparameters.get_array(), copy=True) for r in regions]
            for k in case['order']:
                rec.step()
                regions[k].storage.hyperparameters.values_to_npy_savefile(name(k))
            for k in reversed(case['order']):
                rec.step()
                fresh = self.make(sizes[k], 0.0)
                fresh.values_from_npy_savefile(name(k))
                require(numpy.array_equal(fresh.get_array(), want[k]), lambda: 'hyperparameters %s of region %d read as %s' % (want[k], k, fresh.get_array()), 'read')
                for a, b in zip(fresh.elementparameters, regions[k].storage.hyperparameters.elementparameters):
                    require(numpy.array_equal(a.get_array(), b.get_array()), 'hyperparameters of a part read from those of another', 'part')
        rec.outcome(tuple(sizes))


HARNESSES = [Listing(), Workflow(), Regions()]
ASSUMPTIONS = ['the files of a day are those of the preparation modules (C22, C25 decide their content)', 'the fit itself is decided by C18: here that the fitted value explains the observations of the chosen days no worse than the initial one']
