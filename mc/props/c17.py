"""C17: gridded output does not depend on blocking and each cell has the value of its own place."""
import io
import itertools
import os

import numpy

from mc import analysis
from mc.analysis import Obs, Scale, SmoothElement, close
from mc.core import Harness, require
from mc.env import quiet, scratch

from eustace.analysis.advanced_standard.analysissystem import AnalysisSystem
from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpaceTimeComponentSolutionStorage_InMemory, SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.fileio.output_projector import Projector
from eustace.analysis.advanced_standard.fileio.output_structure_rectilinear import OutputRectilinearGridStructure, Regridder

DAY0 = 60000
N = 3


def axis(n, start, step, direction):
    values = start + step * numpy.arange(n)
    return values[::-1].copy() if direction < 0 else values


class Point(object):
    def __init__(self, t, lat, lon):
        self.t, self.locations = t, numpy.array([[lat, lon]])

    def time_index(self):
        return self.t

    def number_of_observations(self):
        return 1

    def location_polar_coordinates(self):
        return self.locations


def states(t=DAY0):
    """Known state, deviations and samples for a day."""
    k = (t - DAY0) + 1.0
    state = numpy.array([1.0, -0.5, 2.0]) * k
    std = numpy.array([0.5, 1.0, 0.25]) * k
    sample = numpy.array([[1.0, -1.0, 0.5, 2.0, 0.0], [0.0, 0.25, 1.0, -1.0, 3.0], [2.0, 1.0, 0.0, 0.5, -0.25]]) * k
    prior = sample[:, ::-1] * 3.0
    return state, std, sample, prior


def component(kind, column):
    element = SmoothElement(N, 1)
    shape = (lambda x: x.reshape(-1, 1)) if column else (lambda x: x)
    if kind == 'spacetime':
        storage = SpaceTimeComponentSolutionStorage_InMemory()
        state, std, sample, prior = states()
        storage.state_write(shape(state))
        storage.state_marginal_std_write(std)
        storage.state_sample_write(sample)
        storage.state_prior_sample_write(prior)
        return element, SpaceTimeComponent(ComponentStorage_InMemory(element, Scale()), storage, sample_size=5)
    storage = SpatialComponentSolutionStorage_InMemory()
    for t in (DAY0, DAY0 + 1):
        state, std, sample, prior = states(t)
        storage.partial_state_write(shape(state), t)
        storage.partial_state_marginal_std_write(std, t)
        storage.partial_state_sample_write(sample, t)
        storage.partial_state_prior_sample_write(prior, t)
    return element, SpatialComponent(ComponentStorage_InMemory(element, Scale()), storage, sample_size=5)


def averaged(element, t, lat, lon, spacing, sampling, function):
    """Area weighted mean over the sub-cells of one cell."""
    total, weights = 0.0, 0.0
    for i in range(sampling[0]):
        for j in range(sampling[1]):
            y = lat - spacing[0] / 2.0 + (0.5 + i) * spacing[0] / sampling[0]
            x = lon - spacing[1] / 2.0 + (0.5 + j) * spacing[1] / sampling[1]
            w = numpy.cos(numpy.radians(y))
            total = total + w * function(element.dense(Point(t, y, x))[0])
            weights += w
    return total / weights


class Regrid(Harness):
    """Area averages for every grid shape, direction of the axes, sub-cell sampling and block size."""
    name = 'regrid'
    chunk = 16

    def bounds(self, tier):
        return 'grids of 2-%d latitudes x 2-%d longitudes, ascending and descending, sub-cells 1-3 x 1-3, all block sizes up to one more than the latitudes, each field; spacings down to 0.125 degrees' % ((5, 4) if tier == 'quick' else (8, 5))

    def cases(self, tier):
        for nlat in range(2, 6 if tier == 'quick' else 9):
            for nlon in range(2, 5 if tier == 'quick' else 6):
                for direction in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
                    for sampling in itertools.product((1, 2, 3), repeat=2):
                        yield dict(nlat=nlat, nlon=nlon, direction=list(direction), sampling=list(sampling))
        for nlat, nlon in ((2, 2), (3, 4)):
            for spacing in ((0.25, 0.25), (0.125, 0.25), (0.25, 0.125), (2.5, 3.75)):
                for direction in ((1, 1), (-1, 1)):
                    for sampling in ((1, 1), (2, 3), (4, 5)):
                        yield dict(nlat=nlat, nlon=nlon, direction=list(direction), sampling=list(sampling), spacing=list(spacing))

    def run(self, case, rec):
        spacing = case.get('spacing', (10.0, 20.0))
        latitudes, longitudes = axis(case['nlat'], -30.0, spacing[0], case['direction'][0]), axis(case['nlon'], 150.0, spacing[1], case['direction'][1])
        element, spatial = component('spatial', False)
        state, std, sample, prior = states()
        grid = OutputRectilinearGridStructure(DAY0, Obs(DAY0, []).time_datetime(), latitudes, longitudes)
        system = AnalysisSystem([spatial], 'o', log=io.StringIO())
        wants = {}
        for field, function in (('MAP', lambda r: r.dot(state)), ('post_STD', lambda r: numpy.abs(r).dot(std))):
            wants[field] = numpy.array([averaged(element, DAY0, lat, lon, spacing, case['sampling'], function) for lat in latitudes for lon in longitudes])
        with quiet(), analysis.exact_noise():
            for blocking in range(1, case['nlat'] + 2):
                for field, want in wants.items():
                    rec.step()
                    got = system.evaluate_expected_value(field, grid, 'GRID_CELL_AREA_AVERAGE', case['sampling'], blocking)
                    require(close(got, want), lambda: '%s with blocks of %d: %s, cell by cell %s (%s)' % (field, blocking, got, want, case))
                    got = Regridder(grid, case['sampling'], blocking).compute_gridded_expected_value(field, spatial.component_solution())
                    require(close(got, want), lambda: 'regridder %s with blocks of %d: %s, cell by cell %s (%s)' % (field, blocking, got, want, case))
        rec.outcome((case['nlat'], case['nlon']))


class Project(Harness):
    """Projection matrices for every grid, sub-cell sampling and number of blocks."""
    name = 'project'
    chunk = 16

    def bounds(self, tier):
        return 'grids of 1-%d latitudes x 1-%d longitudes, both directions, sub-cells 1-3 x 1-2, 1 to (cells + 2) blocks, for both kinds of component and both layouts of the state' % ((3, 3) if tier == 'quick' else (5, 4))

    def cases(self, tier):
        limit = (3, 3) if tier == 'quick' else (5, 4)
        for nlat in range(1, limit[0] + 1):
            for nlon in range(1, limit[1] + 1):
                for direction in (1, -1):
                    for sampling in itertools.product((1, 2, 3), (1, 2)):
                        for kind in ('spacetime', 'spatial'):
                            for column in (False, True):
                                yield dict(nlat=nlat, nlon=nlon, direction=direction, sampling=list(sampling), kind=kind, column=column)

    def run(self, case, rec):
        latitudes, longitudes = axis(case['nlat'], -30.0, 10.0, case['direction']), axis(case['nlon'], 150.0, 20.0, 1)
        spacing = (10.0, 20.0)
        element, c = component(case['kind'], case['column'])
        def check(projector, t, message):
            state, std, sample, prior = states(t if case['kind'] == 'spatial' else DAY0)
            rows = numpy.array([averaged(element, t, lat, lon, spacing, case['sampling'], lambda r: r) for lat in latitudes for lon in longitudes])
            got = projector.project_expected_value()
            require(close(got, rows.dot(state)), lambda: '%s: expected value %s, cell by cell %s (%s)' % (message, got, rows.dot(state), case))
            for indices in (None, Ellipsis, [2, 0], [4]):
                want = rows.dot(sample if indices is None else sample[:, indices])
                got = analysis.dense(projector.project_sample_values(indices))
                require(got.shape == want.shape and close(got, want), lambda: '%s: samples %s' % (message, case))
            for which, p in ((sample, False), (prior, True)):
                values = rows.dot(which)
                got = projector.project_sample_std(prior=p)
                require(close(got, values.std(axis=1)), lambda: '%s: sample deviation about the mean %s, cell by cell %s (%s)' % (message, got, values.std(axis=1), case))
                got = projector.project_sample_deviation(prior=p)
                want = numpy.sqrt((values ** 2).mean(axis=1))
                require(close(got, want), lambda: '%s: sample deviation %s, cell by cell %s (%s)' % (message, got, want, case))
        with quiet(), scratch() as root:
            for blocking in range(1, case['nlat'] * case['nlon'] + 3):
                rec.step()
                projector = Projector(latitudes, longitudes, list(spacing), DAY0, case['sampling'], blocking)
                projector.set_component(c)
                projector.evaluate_design_matrix()
                check(projector, DAY0, '%d blocks' % blocking)
            # saved and loaded, then the next day
            name = os.path.join(root, 'p')
            projector.save_projection(name)
            again = Projector.load_projection(name)
            again.set_component(c, keep_design=True)
            check(again, DAY0, 'loaded')
            again.update_time_index(DAY0 + 1)
            again.set_component(c)
            again.evaluate_design_matrix()
            check(again, DAY0 + 1, 'next day')
        rec.outcome((case['nlat'], case['nlon'], case['kind']))


class Empty(Harness):
    """Components without a state or samples project to nothing instead of failing."""
    name = 'nothing'

    def bounds(self, tier):
        return 'both kinds of component x {no state, no samples, no prior samples}'

    def cases(self, tier):
        for kind in ('spacetime', 'spatial'):
            yield dict(kind=kind)

    def run(self, case, rec):
        element = SmoothElement(N, 1)
        storage, cls = (SpaceTimeComponentSolutionStorage_InMemory(), SpaceTimeComponent) if case['kind'] == 'spacetime' else (SpatialComponentSolutionStorage_InMemory(), SpatialComponent)
        c = cls(ComponentStorage_InMemory(element, Scale()), storage)
        with quiet():
            projector = Projector(numpy.array([0.0, 10.0]), numpy.array([0.0, 10.0]), [10.0, 10.0], DAY0, [1, 1], 1)
            projector.set_component(c)
            projector.evaluate_design_matrix()
            for f in (projector.project_expected_value, projector.project_sample_values, projector.project_sample_std, projector.project_sample_deviation, lambda: projector.project_sample_std(prior=True), lambda: projector.project_sample_deviation(prior=True)):
                rec.step()
                require(f() is None, 'a projection without state is not None')
        rec.outcome(case['kind'])


HARNESSES = [Regrid(), Project(), Empty()]
ASSUMPTIONS = ['regular grids with at least two latitudes and longitudes for area averages; linear elements']
