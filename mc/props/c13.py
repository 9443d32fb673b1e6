"""C13: a component is fitted to the observations minus all other components, never itself; totals are sums over components."""
import io
import itertools

import numpy

from mc import analysis
from mc.analysis import Loader, Obs, Scale, SmoothElement, close
from mc.core import Harness, require
from mc.env import quiet

from eustace.analysis.advanced_standard.analysissystem import AnalysisSystem
from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory, SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.fileio.output_structure_rectilinear import OutputRectilinearGridStructure

DAY0 = 60000
SIZE = {'spacetime': 3, 'spatial': 2, 'delayed': 2}
SAMPLES = 4
SOURCES = [lambda t: [(0, 1.0 + 0.5 * (t - DAY0), 2.0), (2, -3.0, 1.0)], lambda t: [] if t == DAY0 + 1 else [(1, 2.5, 1.0), (3, 1.5 - (t - DAY0), 0.5)]]
LATITUDES, LONGITUDES = numpy.array([-25.0, 5.0, 35.0]), numpy.array([-170.0, 170.0])
MAP, STD, PRIOR = 'MAP', 'post_STD', 'prior_STD'


def sources(t):
    return [Obs(t, source(t)) for source in SOURCES]


class Model(object):
    """Reference: dense solution of every component."""
    def __init__(self, kinds):
        self.kinds = kinds
        self.elements = [SmoothElement(SIZE[k], i + 1) for i, k in enumerate(kinds)]
        self.scales = [1.0 + i for i in range(len(kinds))]
        self.state = [{} for k in kinds]
        self.covariance = [{} for k in kinds]
        self.days = [{} for k in kinds]

    def slot(self, c, t):
        return 0 if self.kinds[c] == 'spacetime' else t

    def expected(self, c, structure):
        state = self.state[c].get(self.slot(c, structure.time_index()))
        return numpy.zeros(structure.number_of_observations()) if state is None else self.elements[c].dense(structure).dot(state)

    def spread(self, c, structure):
        covariance = self.covariance[c].get(self.slot(c, structure.time_index()))
        return numpy.zeros(structure.number_of_observations()) if covariance is None else numpy.abs(self.elements[c].dense(structure)).dot(numpy.sqrt(numpy.diag(covariance)))

    def solve_from(self, c, slot, days):
        A, b = self.elements[c].dense_prior(self.scales[c]), numpy.zeros(SIZE[self.kinds[c]])
        for P, v in days:
            A, b = A + P, b + v
        self.state[c][slot], self.covariance[c][slot] = numpy.linalg.solve(A, b), numpy.linalg.inv(A)

    def take(self, c, t):
        structures = [s for s in sources(t) if s.number_of_observations()]
        offsets = [sum(self.expected(o, s) for o in range(len(self.kinds)) if o != c) + numpy.zeros(s.number_of_observations()) for s in structures]
        information = analysis.information(self.elements[c], structures, offsets)
        if self.kinds[c] == 'spatial':
            self.solve_from(c, t, [information])
        else:
            self.days[c][t] = information

    def solve(self, c):
        if self.kinds[c] == 'spacetime':
            self.solve_from(c, 0, self.days[c].values())
        elif self.kinds[c] == 'delayed':
            for t, information in self.days[c].items():
                self.solve_from(c, t, [information])


def build(model):
    components = []
    for kind, element, scale in zip(model.kinds, model.elements, model.scales):
        cls, storage = {'spacetime': (SpaceTimeComponent, SpaceTimeComponentSolutionStorage_InMemory), 'spatial': (SpatialComponent, SpatialComponentSolutionStorage_InMemory), 'delayed': (DelayedSpatialComponent, SpatialComponentSolutionStorage_InMemory)}[kind]
        components.append(cls(ComponentStorage_InMemory(element, Scale(scale)), storage(), compute_uncertainties=True, compute_sample=True, sample_size=SAMPLES))
    return AnalysisSystem(components, 'o', log=io.StringIO())


def stored_sample(system, model, c, t):
    storage = system.components[c].solutionstorage
    return storage.state_sample_read() if model.kinds[c] == 'spacetime' else storage.partial_state_sample_read(t)


def check_totals(system, model, t, message):
    grid = OutputRectilinearGridStructure(t, Obs(t, []).time_datetime(), LATITUDES, LONGITUDES)
    total = sum(model.expected(c, grid) for c in range(len(model.kinds)))
    got = system.evaluate_expected_value(MAP, grid, 'POINTWISE')
    require(close(got, total), lambda: '%s: expected value %s, sum over components %s' % (message, got, total))
    spread = numpy.sqrt(sum(model.spread(c, grid) ** 2 for c in range(len(model.kinds))))
    got_spread = system.evaluate_expected_value(STD, grid, 'POINTWISE')
    require(close(got_spread, spread), lambda: '%s: uncertainty %s, quadrature sum %s' % (message, got_spread, spread))
    samples = numpy.zeros((grid.number_of_observations(), SAMPLES))
    for c in range(len(model.kinds)):
        s = stored_sample(system, model, c, t)
        if s is not None:
            samples = samples + model.elements[c].dense(grid).dot(analysis.dense(s))
    got_samples = analysis.dense(system.evaluate_projected_sample(grid))
    require(got_samples.shape == samples.shape and close(got_samples, samples), lambda: '%s: projected samples %s, sum over components %s' % (message, got_samples, samples))


class Schedules(Harness):
    """Every interleaving of taking in days and solving, over systems of two and three components."""
    name = 'schedules'
    chunk = 16

    SYSTEMS = [('spacetime', 'spatial'), ('spatial', 'spacetime'), ('spacetime', 'spacetime'), ('spacetime', 'spatial', 'delayed')]

    def bounds(self, tier):
        return 'systems %s; all sequences up to length %d over {component x day 0-1 taken in, component solved, whole update}' % (['+'.join(s) for s in self.SYSTEMS], 4 if tier == 'quick' else 5)

    def cases(self, tier):
        for index, kinds in enumerate(self.SYSTEMS):
            actions = [['take', c, d] for c in range(len(kinds)) for d in (0, 1)] + [['solve', c, 0] for c, k in enumerate(kinds) if k != 'spatial'] + [['update', 0, 0]]
            depth = 4 if tier == 'quick' else 5
            if len(kinds) > 2:
                depth -= 1
            for length in range(1, depth + 1):
                for sequence in itertools.product(actions, repeat=length):
                    yield dict(system=index, sequence=[list(a) for a in sequence])

    def run(self, case, rec):
        model = Model(self.SYSTEMS[case['system']])
        loaders = [Loader(s) for s in SOURCES]
        with quiet(), analysis.exact_noise():
            system = build(model)
            for kind, c, d in case['sequence']:
                rec.step()
                t = DAY0 + d
                if kind == 'take':
                    model.take(c, t)
                    system.update_component_time(loaders, c, t)
                elif kind == 'solve':
                    model.solve(c)
                    system.update_component_solution(c)
                else:
                    for k in range(len(model.kinds)):
                        for day in (DAY0, DAY0 + 1):
                            model.take(k, day)
                        model.solve(k)
                    system.update(loaders, [DAY0, DAY0 + 1])
                rec.state((case['system'], [sorted((s, tuple(numpy.round(x, 6))) for s, x in states.items()) for states in model.state]))
            for t in (DAY0, DAY0 + 1):
                check_totals(system, model, t, 'after %s' % case['sequence'])
                for s in sources(t):
                    if s.number_of_observations():
                        for c in range(len(model.kinds)):
                            got = numpy.asarray(system.components[c].component_solution().solution_observation_expected_value(s)).ravel()
                            require(close(got, model.expected(c, s)), lambda: 'component %d on day %d after %s: expected values %s, reference %s' % (c, t - DAY0, case['sequence'], got, model.expected(c, s)))
        rec.outcome(tuple(tuple(sorted((s, tuple(numpy.round(x, 6))) for s, x in states.items())) for states in model.state))


class Batches(Harness):
    """Days taken in together by one call give what they give one by one, with the same offsets."""
    name = 'batches'
    chunk = 8

    def bounds(self, tier):
        return 'all ordered day selections from 2 days x component updated x earlier state of the other component'

    def cases(self, tier):
        for index in (0, 1, 2):
            for before in itertools.product((0, 1, 2), repeat=2):
                for days in ([0], [1], [0, 1], [1, 0]):
                    for c in (0, 1):
                        # a space-time component would otherwise keep the days it already has
                        if Schedules.SYSTEMS[index][c] == 'spacetime' and before[c] < 2:
                            continue
                        yield dict(system=index, before=list(before), days=days, component=c)

    def run(self, case, rec):
        kinds = Schedules.SYSTEMS[case['system']]
        c = case['component']
        loaders = [Loader(s) for s in SOURCES]
        with quiet(), analysis.exact_noise():
            for together in (False, True):
                model = Model(kinds)
                system = build(model)
                for n, k in enumerate(case['before']):
                    if k < 2:
                        system.update_component(loaders, n, [DAY0 + k])
                        model.take(n, DAY0 + k)
                        model.solve(n)
                if together:
                    # the days come with a list of loaders each
                    system.update_component_times([loaders for d in case['days']], c, [DAY0 + d for d in case['days']])
                else:
                    for d in case['days']:
                        system.update_component_time(loaders, c, DAY0 + d)
                for d in case['days']:
                    model.take(c, DAY0 + d)
                system.update_component_solution(c)
                model.solve(c)
                rec.step(len(case['days']))
                for t in (DAY0, DAY0 + 1):
                    check_totals(system, model, t, '%s' % case)
        rec.outcome((case['system'], c, tuple(case['days'])))


class Fraction(Harness):
    """Climatology fraction: posterior over prior variance of the one spatial component, or marked where there is not exactly one."""
    name = 'fraction'

    def bounds(self, tier):
        return 'all systems of 1-3 components of two kinds x observed or not x sub-cell sampling'

    def cases(self, tier):
        for n in (1, 2, 3):
            for kinds in itertools.product(('spacetime', 'spatial'), repeat=n):
                for sampling in ([1, 1], [2, 1], [2, 3]):
                    yield dict(kinds=list(kinds), sampling=sampling)

    def run(self, case, rec):
        model = Model(case['kinds'])
        spatial = [c for c, k in enumerate(case['kinds']) if k == 'spatial']
        with quiet(), analysis.exact_noise():
            system = build(model)
            for c in range(len(case['kinds'])):
                system.update_component([Loader(s) for s in SOURCES], c, [DAY0])
                model.take(c, DAY0)
                model.solve(c)
                rec.step()
            grid = OutputRectilinearGridStructure(DAY0, Obs(DAY0, []).time_datetime(), LATITUDES, LONGITUDES)
            got = numpy.asarray(system.evaluate_climatology_fraction(grid, case['sampling'], 2)).ravel()
        if len(spatial) != 1:
            require(got.shape == (6,) and bool((got == -32768).all()), lambda: 'climatology fraction %s without a unique spatial component' % got)
        elif case['sampling'] == [1, 1]:
            c = spatial[0]
            prior = numpy.sqrt(numpy.diag(numpy.linalg.inv(model.elements[c].dense_prior(model.scales[c]))))
            want = model.spread(c, grid) ** 2 / model.elements[c].dense(grid).dot(prior) ** 2
            require(close(got, want), lambda: 'climatology fraction %s, expected %s for %s' % (got, want, case))
        rec.outcome((len(spatial), len(case['kinds'])))


HARNESSES = [Schedules(), Batches(), Fraction()]
ASSUMPTIONS = ['linear elements with 2-3 state parameters; component uncertainty is the absolute design applied to the marginal deviations, as the code documents']
