"""C19: design rows are the documented basis functions evaluated at each observation's own location and time."""
import datetime
import itertools
import os
import tempfile

import netCDF4
import numpy

from mc import elements
from mc.core import Harness, require
from mc.elements import Place
from mc.env import quiet
from mc.props.c14 import dense, values_for

from eustace.analysis.advanced_standard.elements.bias import BiasElement
from eustace.analysis.advanced_standard.elements.factor import SpaceTimeFactorElement
from eustace.analysis.advanced_standard.elements.geography_based import GeographyBasedElement
from eustace.analysis.advanced_standard.elements.grandmean import GrandMeanElement
from eustace.analysis.advanced_standard.elements.kronecker import SpaceTimeKroneckerElement
from eustace.analysis.advanced_standard.elements.kronecker_annual import AnnualKroneckerElement
from eustace.analysis.advanced_standard.elements.latitudeharmonics import LatitudeHarmonicsElement
from eustace.analysis.advanced_standard.elements.latitudespline import LatitudeSplineElement
from eustace.analysis.advanced_standard.elements.local import LocalElement
from eustace.analysis.advanced_standard.elements.seasonal import SeasonalElement
from eustace.analysis.advanced_standard.elements.spatial_bias import SpatialBiasElement
from eustace.analysis.advanced_standard.stats.spde.lattice import LatticeSPDE, PiecewiseLinearBasis, WendlandC4Basis

EPOCH = datetime.datetime(1850, 1, 1)
DAYS = [(datetime.datetime(*d) - EPOCH).days for d in ((1850, 1, 1), (1850, 7, 2), (1850, 12, 31), (1851, 1, 1), (1852, 2, 29), (1852, 3, 1), (1852, 12, 31), (1900, 3, 1), (2000, 2, 29), (2015, 12, 31))]
LATITUDES = [-90.0, -89.9, -60.0, -26.5, -0.125, 0.0, 33.0, 58.28, 89.9, 90.0]
LONGITUDES = [-180.0, -179.99, -72.0, -36.0, 0.0, 0.25, 36.0, 108.0, 179.99, 180.0]
GRID = list(itertools.product(LATITUDES, LONGITUDES))


def close(a, b, tolerance=1e-10):
    a, b = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
    return a.shape == b.shape and bool(numpy.all(numpy.abs(a - b) <= tolerance))


def cartesian(lat, lon):
    lat, lon = numpy.radians(lat), numpy.radians(lon)
    return numpy.array([numpy.cos(lat) * numpy.cos(lon), numpy.cos(lat) * numpy.sin(lon), numpy.sin(lat)])


def mesh_row(spde, lat, lon):
    """Weights by exhaustive search: the triangle whose plane coordinates of the direction are all non-negative."""
    points = numpy.array(spde.triangulation.points)
    triangles = numpy.array(spde.triangulation.triangles[:, 1:], dtype=int)
    direction = cartesian(lat, lon)
    best, chosen = -2.0, None
    for triangle in triangles:
        try:
            weights = numpy.linalg.solve(points[triangle].T, direction)
        except numpy.linalg.LinAlgError:
            continue
        weights = weights / weights.sum() if weights.sum() > 0 else weights - 10.0
        if weights.min() > best:
            best, chosen = weights.min(), (triangle, weights)
    row = numpy.zeros(len(points))
    row[chosen[0]] = chosen[1]
    return row


def mesh_rows(spde, level, places):
    return numpy.array([elements.cached(('row', level, lat, lon), lambda: mesh_row(spde, lat, lon)) for lat, lon in places]).reshape(len(places), spde.n_latent_variables())


def fraction_of_year(t, hour):
    when = EPOCH + datetime.timedelta(days=int(t), hours=hour)
    start = datetime.datetime(when.year, 1, 1)
    end = datetime.datetime(when.year + 1, 1, 1)
    return when.year, (when - start).total_seconds() / (end - start).total_seconds()


def wendland(r):
    r = numpy.minimum(numpy.abs(r), 1.0)
    return (1.0 - r) ** 6 * (35.0 * r ** 2 + 18.0 * r + 3.0) / 3.0


def lattice_row(start, spacing, n, overlap, wrap, x):
    nodes = start + spacing * numpy.arange(n)
    distance = x - nodes
    if wrap:
        period = n * spacing
        distance = (distance + period / 2.0) % period - period / 2.0
    return wendland(distance / (overlap * spacing))


class Rows(Harness):
    """All element kinds at all places and days."""
    name = 'rows'
    chunk = 1
    KINDS = ['mean', 'harmonics', 'spline', 'local', 'seasonal', 'kronecker', 'annual', 'factor', 'spatialbias']

    def bounds(self, tier):
        return '%d element kinds with 2-6 layouts each x %d locations (poles, date line, mesh vertices and edges) x %d days including year ends and leap days x 2 hours; orders of observations reversed; no observations' % (len(self.KINDS), len(GRID), len(DAYS))

    def cases(self, tier):
        for kind in self.KINDS:
            for layout in range(len(self.layouts(kind))):
                for d in range(len(DAYS)) if kind in ('seasonal', 'annual', 'kronecker', 'factor') else (0, 3, 4):
                    yield dict(kind=kind, layout=layout, day=d)

    def layouts(self, kind):
        if kind == 'spline':
            return [(5, 2.5), (19, 2.0)]
        if kind in ('local', 'spatialbias'):
            return [0, 1, 2]
        if kind == 'seasonal':
            return [(level, n, mean) for level in (0, 1) for n in (0, 1, 2, 3) for mean in (True, False) if n or mean]
        if kind == 'annual':
            return [(0, 1850.0, 1853.0, 4, None), (1, 1849.0, 2016.0, 168, None), (0, 0.0, 1.0, 6, [True])]
        if kind in ('kronecker', 'factor'):
            return [(0, 0.0, 1000.0, 11, None), (1, 100.0, 61000.0, 7, None), (0, 0.0, 365.0, 5, [True])]
        return [None]

    def build(self, kind, layout):
        if kind == 'mean':
            return GrandMeanElement()
        if kind == 'harmonics':
            return LatitudeHarmonicsElement()
        if kind == 'spline':
            return LatitudeSplineElement(2, layout[0], layout[1], 1.0)
        if kind == 'local':
            return LocalElement(layout)
        if kind == 'spatialbias':
            return SpatialBiasElement('group', layout)
        if kind == 'seasonal':
            return SeasonalElement(*layout)
        level, start, end, n, wrap = layout
        cls = dict(annual=AnnualKroneckerElement, kronecker=SpaceTimeKroneckerElement, factor=SpaceTimeFactorElement)[kind]
        return cls(level, 2, start, end, n, 2.5, 1.0, wrap)

    def run(self, case, rec):
        with quiet():
            kind = case['kind']
            layout = self.layouts(kind)[case['layout']]
            element = elements.cached(('c19', kind, case['layout']), lambda: self.build(kind, layout))
            for places, hour in ((GRID, 0), (GRID[::-1], 18), (GRID[17:18], 0), ([], 0)):
                t = DAYS[case['day']]
                self.check(kind, layout, element, Place(t, places, {'group': [[k, 0] for k in range(len(places))]} if case['day'] % 2 == 0 else {}, hour=hour), hour, rec)
            rec.state((kind, case['layout'], case['day']))

    def check(self, kind, layout, element, structure, hour, rec):
        t = structure.time_index()
        places = structure.location_polar_coordinates()
        n = len(places)
        lat = places[:, 0]
        design = element.element_design(structure)
        if kind == 'mean':
            expected = numpy.ones((n, 1))
        elif kind == 'harmonics':
            x = numpy.radians(lat)
            expected = numpy.array([numpy.cos(2 * x), numpy.sin(2 * x), numpy.cos(4 * x), numpy.sin(4 * x)]).T
        elif kind == 'spline':
            spacing = 180.0 / (layout[0] - 1)
            expected = numpy.array([lattice_row(-90.0 - 180 * spacing, spacing, layout[0] + 360, layout[1], False, x) for x in lat]).reshape(n, layout[0] + 360)
        elif kind == 'local':
            expected = mesh_rows(element.spde, layout, places)
        elif kind == 'spatialbias':
            expected = mesh_rows(element.spde, layout, places)
            if 'group' not in structure.effects:
                expected = 0.0 * expected
        elif kind == 'seasonal':
            level, harmonics, mean = layout
            year, f = fraction_of_year(t, hour)
            factors = ([1.0] if mean else []) + [g(2.0 * numpy.pi * order * f) for order in range(1, harmonics + 1) for g in (numpy.sin, numpy.cos)]
            expected = numpy.kron(numpy.array([factors]), mesh_rows(element.spde, level, places))
        else:
            level, start, end, nodes, wrap = layout
            x = float(t)
            if kind == 'annual':
                year, f = fraction_of_year(t, hour)
                x = year + f
            spacing = (end - start) / (nodes if wrap else nodes - 1)
            time_row = lattice_row(start, spacing, nodes, 2.5, bool(wrap), x)
            space = mesh_rows(element.spatial_model, level, places)
            if kind == 'factor':
                return self.factor(design, time_row, space, rec)
            expected = numpy.kron(time_row[None, :], space)
        size = design.design_number_of_state_parameters()
        require(size == expected.shape[1], 'the element has %r state parameters, expected %r' % (size, expected.shape[1]))
        found = dense(design.design_matrix())
        require(close(found, expected, 1e-7), lambda: self.describe(found, expected, places))
        require(close(dense(design.design_jacobian(None)), found), 'the jacobian of a linear element is not its design matrix')
        state = values_for(size, 3)
        require(close(dense(design.design_function(state)).ravel(), found.dot(state)), 'the design function is not the design matrix applied to the state')
        require(close(dense(design.design_function(state, rectified=True)).ravel(), numpy.abs(found).dot(state)), 'the rectified design function is not the absolute design matrix applied to the state')
        require(not element.isnonlinear() and not design.isnonlinear(), 'a linear element is called nonlinear')
        rec.step(4)

    @staticmethod
    def describe(found, expected, places):
        if found.shape != expected.shape:
            return 'design has shape %r, expected %r' % (found.shape, expected.shape)
        r, c = numpy.unravel_index(numpy.argmax(numpy.abs(found - expected)), found.shape)
        return 'at latitude/longitude %r the basis function %d is %r, expected %r' % (places[r].tolist(), c, found[r, c], expected[r, c])

    def factor(self, design, time_row, space, rec):
        n, k = space.shape
        size = design.design_number_of_state_parameters()
        require(size == k + len(time_row), 'the factor has %r state parameters, expected %r' % (size, k + len(time_row)))
        initial = design.design_initial_state()
        require(close(initial, numpy.hstack([numpy.zeros(k), numpy.ones(len(time_row))])), 'the initial state is not zero in space and one in time')
        require(design.isnonlinear(), 'a factor is called linear')
        for salt in (1, 4):
            x = values_for(size, salt)
            a, b = x[:k], x[k:]
            expected = space.dot(a) * time_row.dot(b)
            require(close(dense(design.design_function(x)).ravel(), expected, 1e-7), 'the design function is not the product of the space and time factors')
            J = numpy.hstack([time_row.dot(b) * space, space.dot(a)[:, None] * time_row[None, :]])
            require(close(dense(design.design_jacobian(x)), J, 1e-7), 'the jacobian is not the derivative of the design function')
            rec.step(2)


class Bias(Harness):
    """Bias groups: every assignment of observations to biases."""
    name = 'bias'
    chunk = 32

    def bounds(self, tier):
        return 'every partial assignment of 0-4 observations to 1-3 biases, with and without the group present'

    def cases(self, tier):
        for n in range(5):
            for biases in (1, 2, 3):
                for assignment in itertools.product([None] + list(range(biases)), repeat=n):
                    yield dict(n=n, biases=biases, assignment=assignment)

    def run(self, case, rec):
        n = case['n']
        places = elements.LOCATIONS[:n]
        effect = [[k, b] for k, b in enumerate(case['assignment']) if b is not None]
        with quiet():
            for order in (effect, effect[::-1]):
                for groups, mine in (({'a': order} if order else {}, True), ({'b': order} if order else {}, False)):
                    design = BiasElement('a', case['biases']).element_design(Place(3, places, groups))
                    expected = numpy.zeros((n, case['biases']))
                    for k, b in (order if mine else []):
                        expected[k, b] = 1.0
                    require(close(dense(design.design_matrix()), expected), 'effects %r on %d observations give design %r' % (groups, n, dense(design.design_matrix()).tolist()))
                    require(design.design_number_of_state_parameters() == case['biases'], 'wrong number of biases')
                    rec.step()
        rec.state((n, case['biases'], case['assignment']))


class Covariate(Harness):
    """A covariate map on a global regular grid: bilinear, cyclic in longitude, flattening to the mean of the end row towards the poles."""
    name = 'covariate'
    chunk = 1
    SHAPES = [(30.0, 6, 12), (45.0, 4, 8), (60.0, 3, 6), (10.0, 18, 36), (22.5, 8, 16), (2.25, 80, 160), (1.125, 160, 320)]

    def bounds(self, tier):
        return 'global maps of 7 resolutions x rescale factors x locations at and between all nodes, across the date line and towards the poles'

    def cases(self, tier):
        for k in range(len(self.SHAPES)):
            for factor in (1.0, -2.5):
                yield dict(shape=k, factor=factor)

    def run(self, case, rec):
        spacing, nlat, nlon = self.SHAPES[case['shape']]
        lats = -90.0 + spacing / 2.0 + spacing * numpy.arange(nlat)
        lons = -180.0 + spacing / 2.0 + spacing * numpy.arange(nlon)
        values = numpy.array([[float((7 * i + 3 * j * j) % 23 - 5) for j in range(nlon)] for i in range(nlat)])
        path = os.path.join(tempfile.mkdtemp(), 'map.nc')
        d = netCDF4.Dataset(path, 'w')
        d.createDimension('y', nlat)
        d.createDimension('x', nlon)
        lat, lon = numpy.meshgrid(lats, lons, indexing='ij')
        for label, data in (('lat', lat), ('lon', lon), ('height', values)):
            d.createVariable(label, 'f8', ('y', 'x'))[:] = data
        d.close()
        places = [(a, b) for a in numpy.unique(numpy.hstack([lats, lats + spacing / 2, lats + spacing / 8, [-90.0, -89.0, 90.0, 89.0]]))[::1 if nlat < 40 else 7] if abs(a) <= 90.0
                  for b in numpy.unique(numpy.hstack([lons, lons + spacing / 2, lons - 3 * spacing / 8, [-180.0, 180.0, 179.5]]))[::1 if nlat < 40 else 13] if abs(b) <= 180.0]
        element = GeographyBasedElement(path, 'lat', 'lon', 'height', case['factor'])
        element.load()
        with quiet():
            found = dense(element.element_design(Place(3, places)).design_matrix()).ravel()
        expected = [case['factor'] * self.interpolate(lats, lons, spacing, values, a, b) for a, b in places]
        require(found.shape == (len(places),), 'design has shape %r' % (found.shape,))
        worst = int(numpy.argmax(numpy.abs(found - expected)))
        require(abs(found[worst] - expected[worst]) < 1e-6, 'at %r the covariate is %r, expected %r' % (places[worst], found[worst], expected[worst]))
        rec.step(len(places))
        rec.state((case['shape'], case['factor']))

    @staticmethod
    def interpolate(lats, lons, spacing, values, a, b):
        y, x = (a - lats[0]) / spacing, (b - lons[0]) / spacing
        i, j = int(numpy.floor(y)), int(numpy.floor(x))
        u, v = y - i, x - j

        def value(i, j):
            if i < 0:
                return Covariate.end(values[0])
            if i >= len(lats):
                return Covariate.end(values[-1])
            return values[i, j % len(lons)]
        return (1 - u) * (1 - v) * value(i, j) + (1 - u) * v * value(i, j + 1) + u * (1 - v) * value(i + 1, j) + u * v * value(i + 1, j + 1)

    @staticmethod
    def end(row):
        """The value beyond the last row: the mean of that row extended by one node on each side."""
        return numpy.mean(numpy.hstack([row[-1:], row, row[:1]]))


class Lattice(Harness):
    """Design rows of lattices in one and two dimensions at every position around the nodes."""
    name = 'lattice'
    chunk = 2

    def bounds(self, tier):
        return 'node counts 3-6 per dimension, every pattern of cyclic dimensions, both basis functions, overlap 1-3, positions at eighths of the spacing from two cells outside the domain'

    def cases(self, tier):
        for d in (1, 2):
            for shape in itertools.product((3, 4, 5, 6) if d == 1 else (3, 4, 6), repeat=d):
                for wrap in [None] + list(itertools.product((False, True), repeat=d)):
                    for basis in ('wendland', 'linear'):
                        for overlap in (1.0, 1.25, 1.5, 1.75, 2.5, 2.75, 3.0) if tier != 'quick' or d == 1 or shape[0] == shape[1] else (1.25, 1.75):
                            yield dict(shape=shape, wrap=wrap, basis=basis, overlap=overlap)

    def run(self, case, rec):
        shape, wrap, overlap = case['shape'], case['wrap'], case['overlap']
        d = len(shape)
        spacing = numpy.array([1.0, 2.0][:d])
        specification, axes = [], []
        for k, n in enumerate(shape):
            steps = n if wrap is not None and wrap[k] else n - 1
            specification.append((10.0 * k - 1.0, 10.0 * k - 1.0 + steps * spacing[k], n))
            steps = numpy.arange(-2.0, n + 2.0, 0.125 if d == 1 else 0.75)
            axes.append(10.0 * k - 1.0 + spacing[k] * steps)
        locations = numpy.array(list(itertools.product(*axes)))
        with quiet():
            spde = LatticeSPDE.construct(dimension_specification=specification, basis_function=WendlandC4Basis() if case['basis'] == 'wendland' else PiecewiseLinearBasis(), overlap_factor=overlap, wrap_dimensions=None if wrap is None else list(wrap))
            A = dense(spde.build_A(locations))
            nodes = numpy.array(spde.lattice.nodes)
        difference = locations[:, None, :] - nodes[None, :, :]
        for k in range(d):
            if wrap is not None and wrap[k]:
                period = shape[k] * spacing[k]
                difference[:, :, k] = (difference[:, :, k] + period / 2.0) % period - period / 2.0
        scaled = difference / (overlap * spacing)
        expected = wendland(numpy.linalg.norm(scaled, axis=2)) if case['basis'] == 'wendland' else numpy.prod(1.0 - numpy.minimum(numpy.abs(scaled), 1.0), axis=2)
        require(A.shape == expected.shape, 'design has shape %r, expected %r' % (A.shape, expected.shape))
        r, c = numpy.unravel_index(numpy.argmax(numpy.abs(A - expected)), A.shape)
        require(abs(A[r, c] - expected[r, c]) < 1e-9, 'basis function of node %r at %r is %r, expected %r' % (nodes[c].tolist(), locations[r].tolist(), A[r, c], expected[r, c]))
        rec.step(A.size)
        rec.state(sorted(case.items(), key=str))


HARNESSES = [Rows(), Bias(), Covariate(), Lattice()]
