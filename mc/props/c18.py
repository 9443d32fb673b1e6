"""C18: the hyperparameter cost function is the marginal likelihood and its gradient is exact."""
import contextlib
import itertools

import numpy
import scipy.optimize
import scipy.sparse

from mc import analysis, matrices
from mc.analysis import LinearElement, Loader, Obs, Prior, Scale
from mc.core import Harness, require
from mc.env import quiet

from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
from eustace.analysis.advanced_standard.components.storage_inmemory import ComponentStorage_InMemory, SpatialComponentSolutionStorage_InMemory
from eustace.analysis.advanced_standard.elements.element import Hyperparameters
from eustace.analysis.advanced_standard.linalg import optimize as optimize_module
from eustace.analysis.advanced_standard.linalg.costfunction import MarginalGaussianCF, MarginalGaussianReplicateCF_InMemory

N = 3
PARAMETERS = [(0.0, 0.0), (0.7, -0.4), (-0.5, 0.3)]
SETS = [
    ([[1.0, 0.0, 0.0]], [[2.0]], [1.0]),
    ([[0.5, 0.5, 0.0], [0.0, -1.0, 2.0]], [[1.0, 0.25], [0.25, 3.0]], [-1.0, 4.0]),
    ([[1.0, 1.0, 1.0], [1.0, 1.0, 1.0], [0.0, 2.0, 0.0]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.125]], [1.0, 2.0, 3.0]),
]
MEANS = [[0.0, 0.0, 0.0], [1.0, -2.0, 0.5]]
POINTS = [[0.0, 0.0, 0.0], [0.5, 1.5, -1.0]]


def precision(parameters, mask):
    return numpy.exp(parameters[0]) * matrices.dense(N, mask, 'mixed') + numpy.exp(parameters[1]) * numpy.diag([1.0, 2.0, 0.5])


def derivative(parameters, mask, k):
    return numpy.exp(parameters[0]) * matrices.dense(N, mask, 'mixed') if k == 0 else numpy.exp(parameters[1]) * numpy.diag([1.0, 2.0, 0.5])


def Q_function(parameters, mask):
    return scipy.sparse.csc_matrix(precision(parameters, mask))


def dQ_function(parameters, mask, k):
    return scipy.sparse.csc_matrix(derivative(parameters, mask, k))


def exact(Q, dQs, J, W, y, mean):
    """Negative log marginal likelihood of the observations (up to a constant) and its gradient."""
    Qi = numpy.linalg.inv(Q)
    S = J.dot(Qi).dot(J.T) + numpy.linalg.inv(W)
    r = y - J.dot(mean)
    Si = numpy.linalg.inv(S)
    value = 0.5 * numpy.linalg.slogdet(S)[1] + 0.5 * r.dot(Si).dot(r)
    gradient = []
    for dQ in dQs:
        dS = -J.dot(Qi).dot(dQ).dot(Qi).dot(J.T)
        gradient.append(0.5 * numpy.trace(Si.dot(dS)) - 0.5 * r.dot(Si).dot(dS).dot(Si).dot(r))
    return value, numpy.array(gradient)


def increments(k, column):
    J, W, y = [numpy.array(x) for x in SETS[k]]
    i = J.T.dot(W).dot(y)
    return J, W, y, (i.reshape(N, 1) if column else i), scipy.sparse.csc_matrix(J.T.dot(W).dot(J))


class Single(Harness):
    """One replicate: every prior graph, parameter pair, observation set, prior mean and conditioning point."""
    name = 'single'
    chunk = 16

    def bounds(self, tier):
        return 'all graphs on 3 nodes x all pairs of 3 parameter vectors x 3 observation sets x 2 prior means x 2 conditioning points x vector/column layout'

    def cases(self, tier):
        for mask in range(8):
            for k, m, s, column in itertools.product(range(3), range(2), range(2), (False, True)):
                yield dict(mask=mask, set=k, mean=m, point=s, column=column)

    def run(self, case, rec):
        J, W, y, i, P = increments(case['set'], case['column'])
        shape = (N, 1) if case['column'] else (N,)
        mean, point = [numpy.array(x).reshape(shape) for x in (MEANS[case['mean']], POINTS[case['point']])]
        cost = MarginalGaussianCF(point, Q_function, dQ_function)
        values = []
        with quiet():
            for p in PARAMETERS:
                rec.step()
                got = cost.cost_function(p, mean, i, P, (case['mask'],))
                want, gradient = exact(precision(p, case['mask']), [derivative(p, case['mask'], k) for k in (0, 1)], J, W, y, mean.ravel())
                values.append(got - want)
                g = numpy.asarray(cost.cost_derivative(p, mean, i, P, (case['mask'],)), dtype=float)
                require(numpy.allclose(g, gradient, rtol=1e-7, atol=1e-8), lambda: 'gradient %s, exact %s at %s for %s' % (g, gradient, p, case))
                require(numpy.allclose(values, values[0], rtol=1e-8, atol=1e-8), lambda: 'cost differences %s to the likelihood are not constant for %s' % (values, case))
        rec.outcome((case['mask'], case['set'], case['mean']))


class Replicates(Harness):
    """Several replicates: every sequence of observation sets."""
    name = 'replicates'
    chunk = 8

    def bounds(self, tier):
        return 'all sequences of 0-%d replicates over 3 observation sets x alternating means and conditioning points x graphs' % (2 if tier == 'quick' else 3)

    def cases(self, tier):
        for mask in range(8):
            for length in range(1, 3 if tier == 'quick' else 4):
                for sets in itertools.product(range(3), repeat=length):
                    for flip in (0, 1):
                        yield dict(mask=mask, sets=list(sets), flip=flip)

    def run(self, case, rec):
        args = ([], [], [], [])
        parts = []
        for n, k in enumerate(case['sets']):
            J, W, y, i, P = increments(k, False)
            mean, point = numpy.array(MEANS[(n + case['flip']) % 2]), numpy.array(POINTS[(n + 1) % 2])
            for a, x in zip(args, (point, mean, i, P)):
                a.append(x)
            parts.append((J, W, y, mean))
        cost = MarginalGaussianReplicateCF_InMemory(Q_function, dQ_function)
        values = []
        with quiet():
            for p in PARAMETERS:
                rec.step()
                expected = [exact(precision(p, case['mask']), [derivative(p, case['mask'], k) for k in (0, 1)], *part) for part in parts]
                values.append(cost.cost_function(p, *args, Qargs=(case['mask'],)) - sum(e[0] for e in expected))
                g = numpy.asarray(cost.cost_derivative(p, *args, Qargs=(case['mask'],)), dtype=float)
                gradient = sum(e[1] for e in expected)
                require(numpy.allclose(g, gradient, rtol=1e-7, atol=1e-8), lambda: 'gradient %s, exact %s at %s for %s' % (g, gradient, p, case))
                require(numpy.allclose(values, values[0], rtol=1e-8, atol=1e-8), lambda: 'cost differences %s to the likelihood are not constant for %s' % (values, case))
        rec.outcome((case['mask'], tuple(case['sets'])))


class LogScale(Hyperparameters):
    """Logarithm of the scale of the prior; copied on the way in and out, or the array itself (as for the seasonal harmonics)."""
    def __init__(self, value, copies):
        self.values = numpy.array([value])
        self.copies = copies

    def get_array(self):
        return self.values.copy() if self.copies else self.values

    def set_array(self, values):
        self.values = numpy.array(values) if self.copies else values


class LogPrior(Prior):
    def __init__(self, element, hyperparameters):
        self.element = element
        self.scale = numpy.exp(hyperparameters.get_array()[0])

    def prior_precision_derivative(self, k):
        return scipy.sparse.csr_matrix(self.element.dense_prior(self.scale))


class LogElement(LinearElement):
    def element_prior(self, hyperparameters):
        return LogPrior(self, hyperparameters)


@contextlib.contextmanager
def minimiser(behaviour, results):
    """The minimiser of the numerical library: as it is, looking elsewhere after it has found the minimum, or giving up."""
    original = scipy.optimize.minimize

    def minimize(fun, x0, args=(), *others, **options):
        x0 = numpy.array(x0, float)
        args = args if isinstance(args, tuple) else (args,)
        result = original(fun, x0.copy(), args, *others, **options)
        if behaviour != 'plain':
            for shift in (2.5, -4.0):
                fun(numpy.array(result.x) + shift, *args)
                if callable(options.get('jac')):
                    options['jac'](numpy.array(result.x) + shift, *args)
        if behaviour == 'lost':
            result.x, result.success = numpy.array(x0) + 4.0, False
        results.append((float(numpy.ravel(result.x)[0]), bool(result.success)))
        return result
    holders = [scipy.optimize] + [m for m in (optimize_module,) if getattr(m, 'minimize', None) is original]
    for holder in holders:
        holder.minimize = minimize
    try:
        yield
    finally:
        for holder in holders:
            holder.minimize = original


class Fit(Harness):
    """Optimising the hyperparameters of a component from every starting point and history."""
    name = 'fit'
    chunk = 2

    DATA = {'A': [(0, 1.0, 2.0), (2, -3.0, 1.0)], 'B': [(1, 2.5, 1.0), (3, 1.5, 0.5), (0, -1.0, 1.0)], 'Z': []}

    def bounds(self, tier):
        return 'all sequences of 1-%d days over 3 versions of the data (with at least one observation) x 5 starting values x hyperparameters kept as copy or as the array handed in and out x minimiser as it is, evaluating other points after the minimum, or giving up' % (2 if tier == 'quick' else 3)

    def cases(self, tier):
        for length in range(1, 3 if tier == 'quick' else 4):
            for days in itertools.product('ABZ', repeat=length):
                if set(days) != {'Z'}:
                    for start in (-2.0, -0.5, 0.0, 1.0, 3.0):
                        for copies in (True, False):
                            for behaviour in ('plain', 'wander', 'lost'):
                                yield dict(days=''.join(days), start=start, copies=copies, minimiser=behaviour)

    def run(self, case, rec):
        from eustace.analysis.advanced_standard.analysissystem import AnalysisSystem
        import io
        element = LogElement(N, 1)
        hyperparameters = LogScale(case['start'], case['copies'])
        storage = ComponentStorage_InMemory(element, hyperparameters)
        component = DelayedSpatialComponent(storage, SpatialComponentSolutionStorage_InMemory())
        system = AnalysisSystem([component], 'o', log=io.StringIO())
        parts = []
        with quiet():
            for d, v in enumerate(case['days']):
                rec.step()
                loader = Loader(lambda t, v=v: self.DATA[v])
                system.update_component_time([loader], 0, 60000 + d)
                o = Obs(60000 + d, self.DATA[v])
                if self.DATA[v]:
                    parts.append((element.dense(o), o.dense_precision(), o.observation_vector(), numpy.zeros(N)))
            system.update_component_solution(0)
            before = [numpy.array(component.solutionstorage.partial_state_read(60000 + d), copy=True) for d in range(len(case['days']))]
            results = []
            with minimiser(case['minimiser'], results):
                component.component_solution().optimize()
        def cost(p):
            return sum(exact(element.dense_prior(numpy.exp(p)), [element.dense_prior(numpy.exp(p))], *part)[0] for part in parts)
        p = float(hyperparameters.get_array()[0])
        rec.outcome(round(p, 3))
        require(cost(p) <= cost(case['start']) + 1e-8, lambda: 'hyperparameter %s explains the data worse (%s) than the initial %s (%s)' % (p, cost(p), case['start'], cost(case['start'])))
        for x, success in results:
            if success:
                require(cost(p) <= cost(x) + 1e-8, lambda: 'hyperparameter %s is kept after %s was found, which explains the data better (%s, not %s)' % (p, x, cost(x), cost(p)))
                best = min(cost(x + 0.01 * k) for k in range(-100, 101))
                require(cost(p) <= best + 1e-5 * max(1.0, abs(best)), lambda: 'hyperparameter %s (%s) is reported as the best, others near it give %s' % (p, cost(p), best))
        after = [numpy.array(component.solutionstorage.partial_state_read(60000 + d)) for d in range(len(case['days']))]
        require(all(numpy.array_equal(a, b) for a, b in zip(before, after)), 'optimising hyperparameters changed the stored states')


HARNESSES = [Single(), Replicates(), Fit()]
ASSUMPTIONS = ['three state parameters, two hyperparameters; agreement to 1e-7 relative']
