"""Analysis driver: a small linear model element, observations and loaders, and the exact (dense) Gaussian posterior."""
import contextlib
import datetime

import numpy
import scipy.sparse

from eustace.analysis.advanced_standard.analysissystem import AnalysisSystemInputLoader
from eustace.analysis.advanced_standard.elements.element import Element, ElementLinear, ElementLinearDesign, ElementNonlinear, ElementNonlinearDesign, ElementPrior, Hyperparameters, ObservationStructure

EPOCH = datetime.datetime(1850, 1, 1)


class Obs(ObservationStructure):
    """Observations of one source on one day: list of (location, value, precision)."""
    def __init__(self, time_index, records, correlated=True):
        self.t = time_index
        self.records = records
        self.correlated = correlated

    def time_index(self):
        return self.t

    def time_datetime(self):
        return EPOCH + datetime.timedelta(days=int(self.t))

    def number_of_observations(self):
        return len(self.records)

    def location_polar_coordinates(self):
        return numpy.array([[10.0 * loc, 20.0 * loc] for loc, value, precision in self.records]).reshape(len(self.records), 2)

    def observation_vector(self):
        return numpy.array([value for loc, value, precision in self.records], dtype=numpy.float64)

    def dense_precision(self):
        n = len(self.records)
        W = numpy.diag([float(precision) for loc, value, precision in self.records])
        if self.correlated:
            for i in range(n - 1):
                W[i, i + 1] = W[i + 1, i] = 0.25
        return W

    def observation_precision(self):
        return scipy.sparse.csr_matrix(self.dense_precision())


def row(salt, size, t, location):
    """Row of the design matrix: fixed small integers with some zeros, different for every time and location."""
    return [float(((salt * 7 + 3 * k + 5 * t + 11 * location) * (k + 2 + salt)) % 5 - 2) for k in range(size)]


def when(structure):
    """Day of a structure; something else if its two ways of telling the time disagree."""
    t = int(structure.time_index())
    if not hasattr(structure, 'time_datetime'):
        return t
    return 3 * (structure.time_datetime() - EPOCH).days - 2 * t


class Design(ElementLinearDesign):
    def __init__(self, element, structure):
        self.element = element
        self.structure = structure

    def design_number_of_state_parameters(self):
        return self.element.size

    def dense(self):
        return self.element.dense(self.structure)

    def design_matrix(self):
        return scipy.sparse.csr_matrix(self.dense())


class Prior(ElementPrior):
    def __init__(self, element, hyperparameters):
        self.element = element
        self.scale = hyperparameters.get_array()[0]

    def prior_number_of_state_parameters(self):
        return self.element.size

    def prior_precision(self):
        return scipy.sparse.csr_matrix(self.element.dense_prior(self.scale))

    def prior_precision_derivative(self, parameter_index):
        return scipy.sparse.csr_matrix(self.element.dense_prior(1.0))


class LinearElement(ElementLinear, Element):
    def __init__(self, size, salt, per_time=True):
        self.size = size
        self.salt = salt
        self.per_time = per_time

    def dense(self, structure):
        return numpy.array([row(self.salt, self.size, when(structure) if self.per_time else 0, round(lat / 10.0))
                            for lat, lon in structure.location_polar_coordinates()]).reshape(structure.number_of_observations(), self.size)

    def dense_prior(self, scale):
        n = self.size
        Q = numpy.diag([2.0 + k for k in range(n)])
        for i in range(n - 1):
            Q[i, i + 1] = Q[i + 1, i] = -0.5 - 0.25 * self.salt
        return scale * Q

    def element_design(self, structure):
        return Design(self, structure)

    def element_prior(self, hyperparameters):
        return Prior(self, hyperparameters)


class NonlinearDesign(ElementNonlinearDesign, Design):
    """f(x) = A x + (A x)^2 / 8 (elementwise)."""
    def design_initial_state(self):
        return self.element.initial()

    def design_function(self, currentstate, rectified=False):
        return self.element.evaluate(self.structure, currentstate)

    def design_jacobian(self, currentstate):
        return scipy.sparse.csr_matrix(self.element.jacobian(self.structure, currentstate))


class NonlinearElement(ElementNonlinear, LinearElement):
    def initial(self):
        return numpy.array([0.5 - 0.25 * k for k in range(self.size)])

    def element_design(self, structure):
        return NonlinearDesign(self, structure)

    def evaluate(self, structure, state):
        z = self.dense(structure).dot(numpy.asarray(state).ravel())
        return z + z * z / 8.0

    def jacobian(self, structure, state):
        A = self.dense(structure)
        z = A.dot(numpy.asarray(state).ravel())
        return A * (1.0 + z / 4.0)[:, None]


class Scale(Hyperparameters):
    def __init__(self, value=1.0):
        self.values = numpy.array([value])

    def get_array(self):
        return self.values

    def set_array(self, values):
        self.values = numpy.array(values)


class Loader(AnalysisSystemInputLoader):
    """Source of observations: data is a function time_index -> records."""
    def __init__(self, data):
        self.data = data

    def load_observation_structure(self, observable, time_index, log=None):
        return Obs(time_index, self.data(time_index))

    def datetime_at_time_index(self, time_index):
        return EPOCH + datetime.timedelta(days=int(time_index))


def information(element, structures, offsets=None):
    """Exact precision and information added by observation structures (dense)."""
    n = element.size
    P, b = numpy.zeros((n, n)), numpy.zeros(n)
    for k, s in enumerate(structures):
        if s.number_of_observations() == 0:
            continue
        J, W = element.dense(s), s.dense_precision()
        y = s.observation_vector() - (offsets[k] if offsets is not None else 0.0)
        P += J.T.dot(W).dot(J)
        b += J.T.dot(W).dot(y)
    return P, b


def posterior(element, scale, structures, offsets=None):
    P, b = information(element, structures, offsets)
    A = element.dense_prior(scale) + P
    return numpy.linalg.solve(A, b), A


def dense(x):
    return numpy.asarray(x.todense() if hasattr(x, 'todense') else x, dtype=numpy.float64)


def close(got, want, tolerance=1e-8):
    got, want = dense(got).ravel(), numpy.asarray(want, dtype=numpy.float64).ravel()
    return got.shape == want.shape and bool(numpy.all(numpy.abs(got - want) <= tolerance * (1.0 + numpy.abs(want))))


class SmoothElement(LinearElement):
    """Element whose design is a smooth function of latitude, longitude and day."""
    def dense(self, structure):
        lat, lon = structure.location_polar_coordinates().T if structure.number_of_observations() else (numpy.zeros(0), numpy.zeros(0))
        t = float(when(structure) % 7) if self.per_time else 0.0
        columns = [numpy.cos(numpy.radians((k + 1) * lat + 13.0 * self.salt)) * (1.0 + 0.5 * numpy.sin(numpy.radians((self.salt + k) * lon + 5.0 * k))) + 0.125 * k * t for k in range(self.size)]
        return numpy.array(columns).T.reshape(structure.number_of_observations(), self.size)


@contextlib.contextmanager
def white_noise(make):
    """The generator of normal variates replaced: make(shape), or None to leave the request to the generator."""
    names = ('normal', 'standard_normal', 'randn')
    originals = dict((name, getattr(numpy.random, name)) for name in names)

    def normal(loc=0.0, scale=1.0, size=None):
        shape = () if size is None else tuple(int(x) for x in numpy.atleast_1d(size))
        found = make(shape)
        return originals['normal'](loc, scale, size) if found is None else loc + scale * found
    replacements = dict(normal=normal, standard_normal=lambda size=None: normal(size=size), randn=lambda *shape: normal(size=shape or None))
    for name in names:
        setattr(numpy.random, name, replacements[name])
    try:
        yield
    finally:
        for name in names:
            setattr(numpy.random, name, originals[name])


def exact_noise():
    """White noise with exactly zero mean and unit covariance where the number of columns allows it: +-sqrt(n) e_i in turn."""
    def make(shape):
        if len(shape) != 2:
            return None
        n, m = shape
        noise = numpy.zeros((n, m))
        for c in range(m):
            k = c % (2 * n)
            noise[k % n, c] = numpy.sqrt(n) * (1.0 if k < n else -1.0)
        return noise
    return white_noise(make)
