"""C11: linear solvers return the exact mode, spread and samples."""
import itertools
import warnings

import numpy
import scipy.sparse

from mc import analysis, matrices
from mc.core import Harness, require
from mc.env import quiet

from eustace.analysis.advanced_standard.linalg.extendedcholmodwrapper import ExtendedCholmodWrapper
from eustace.analysis.advanced_standard.linalg.linearsystem import LinearSystem, LinearSystemSolution_Cholesky, LinearSystemSolution_CG, MeasurementUpdate
from eustace.analysis.advanced_standard.linalg.pardisowrapper import PardisoWrapper

warnings.simplefilter('ignore')


def close(got, want, tolerance=1e-9):
    got, want = analysis.dense(got), numpy.asarray(want)
    return got.shape == want.shape and bool(numpy.all(numpy.abs(got - want) <= tolerance * (1.0 + numpy.abs(want))))


def sides(n):
    """Right-hand sides in every form the solvers take."""
    one, many = matrices.rhs(n, 1), matrices.rhs(n, n + 1)
    yield 'vector', one[:, 0].copy(), one[:, 0]
    yield 'column', one.copy(), one
    yield 'columns', many.copy(), many
    yield 'fortran columns', numpy.asfortranarray(many), many
    yield 'sparse column', scipy.sparse.csc_matrix(one), one
    yield 'sparse columns', scipy.sparse.csr_matrix(many), many
    yield 'dok column', scipy.sparse.dok_matrix(one), one


def check_factor(make, A, message, cholmod, rec):
    n = A.shape[0]
    inverse = numpy.linalg.inv(A)
    factor = make()
    for kind, b, value in sides(n):
        if cholmod and kind.startswith('dok'):
            continue
        before = analysis.dense(b).copy()
        x = factor.solve_A(b)
        rec.step()
        require(close(x, numpy.linalg.solve(A, value)), lambda: '%s: solution for %s is %s' % (message, kind, x))
        require(numpy.array_equal(analysis.dense(b), before), lambda: '%s: solving changed the right-hand side (%s)' % (message, kind))
    B = analysis.dense(factor.solve_backward_substitution(numpy.eye(n)))
    require(close(B.dot(B.T), inverse), lambda: '%s: transformed white noise has covariance %s, inverse %s' % (message, B.dot(B.T), inverse))
    # the transform is linear and applied column by column
    for kind, b, value in sides(n):
        if cholmod and kind.startswith(('dok', 'sparse')):
            continue
        x = factor.solve_backward_substitution(b)
        rec.step()
        require(close(x, B.dot(value)), lambda: '%s: transform of %s is not the linear transform' % (message, kind))
    if cholmod:
        sign, logdet = numpy.linalg.slogdet(A)
        require(abs(factor.logdet() - logdet) < 1e-9 * (1 + abs(logdet)), lambda: '%s: log-determinant %s, exact %s' % (message, factor.logdet(), logdet))
        P = list(factor.P())
        require(sorted(P) == list(range(n)), lambda: '%s: %s is not a permutation' % (message, P))
        value = matrices.rhs(n, 2)
        require(close(factor.apply_P(value), value[P]) and close(factor.apply_Pt(factor.apply_P(value)), value), lambda: '%s: permutation is not applied as reported' % message)
        L = analysis.dense(factor.LLt_solve_L(numpy.eye(n)))
        Lt = analysis.dense(factor.LLt_solve_Lt(numpy.eye(n)))
        require(close(L, Lt.T) and close(L.T.dot(L), inverse[numpy.ix_(P, P)]), lambda: '%s: triangular solves do not factorise the permuted matrix' % message)
        require(close(factor.LLt_solve_L(value[:, 1]), L.dot(value[:, 1])) and close(factor.LLt_solve_Lt(value[:, 1]), Lt.dot(value[:, 1])), lambda: '%s: triangular solves of a vector' % message)
    else:
        F = analysis.dense(factor.solve_forward_substitution(numpy.eye(n)))
        require(close(F.T.dot(F), inverse), lambda: '%s: forward substitution does not factorise the matrix' % message)
        for block in [1, 2, n - 1, n, n + 3, None]:
            if block != 0:
                d = numpy.asarray(factor.diag_inv_A(block)).ravel()
                rec.step()
                require(close(d, numpy.diag(inverse)), lambda: '%s: diagonal of the inverse by blocks of %s is %s, exact %s' % (message, block, d, numpy.diag(inverse)))
        require(close(numpy.asarray(factor.diag_inv_A()).ravel(), numpy.diag(inverse)), lambda: '%s: diagonal of the inverse' % message)
    rec.outcome(tuple(numpy.round(numpy.diag(inverse), 9)))


class Solvers(Harness):
    """Every graph, weight scheme and storage form, for both solver libraries, all operations."""
    name = 'solvers'
    chunk = 32

    def bounds(self, tier):
        return 'all graphs on 1-%d nodes x %d weight schemes x %d storage forms x both solver libraries; 7 forms of right-hand side; all block sizes' % (4 if tier == 'quick' else 5, len(matrices.SCHEMES), len(matrices.FORMS))

    def cases(self, tier):
        for n, mask in matrices.graphs(range(1, 5 if tier == 'quick' else 6)):
            for scheme in matrices.SCHEMES:
                for form in matrices.FORMS:
                    for library in ('pardiso', 'cholmod'):
                        yield dict(n=n, mask=mask, scheme=scheme, form=form, library=library)

    def run(self, case, rec):
        A = matrices.dense(case['n'], case['mask'], case['scheme'])
        M = matrices.sparse(A, case['form'])
        with quiet():
            if case['library'] == 'pardiso':
                make = lambda: PardisoWrapper.cholesky(M)
            else:
                make = lambda: ExtendedCholmodWrapper.cholesky(M.tocsc())
            check_factor(make, A, '%(library)s matrix %(n)d/%(mask)d/%(scheme)s/%(form)s' % case, case['library'] == 'cholmod', rec)
        require(numpy.array_equal(M.toarray(), A), 'the matrix itself was changed')


class Permutations(Harness):
    """Every ordering imposed on the PARDISO solver gives the same answers."""
    name = 'permutations'
    chunk = 32

    def bounds(self, tier):
        return 'all orderings x all graphs on 1-%d nodes' % (3 if tier == 'quick' else 4)

    def cases(self, tier):
        for n, mask in matrices.graphs(range(1, 4 if tier == 'quick' else 5)):
            for permutation in itertools.permutations(range(n)):
                yield dict(n=n, mask=mask, permutation=list(permutation))

    def run(self, case, rec):
        A = matrices.dense(case['n'], case['mask'], 'mixed')
        with quiet():
            make = lambda: PardisoWrapper(matrices.sparse(A), PardisoWrapper.MATRIX_TYPE_REAL_POSITIVE_DEFINITE, False, permutation=numpy.array(case['permutation'], dtype=numpy.int32))
            check_factor(make, A, 'ordering %(permutation)s of matrix %(n)d/%(mask)d' % case, False, rec)


class Sequences(Harness):
    """Solver operations in every order on factors of several matrices alive at the same time."""
    name = 'sequences'
    chunk = 32

    def bounds(self, tier):
        return 'all sequences of %d operations over {solve, forward, backward, diagonal} x 2 live factors' % (4 if tier == 'quick' else 5)

    def cases(self, tier):
        operations = [(f, o) for f in (0, 1) for o in ('solve', 'forward', 'backward', 'diagonal')]
        for sequence in itertools.product(operations, repeat=4 if tier == 'quick' else 5):
            yield dict(sequence=[list(s) for s in sequence])

    def run(self, case, rec):
        with quiet():
            A = [matrices.dense(4, 45, 'mixed'), matrices.dense(3, 5, 'signed')]
            factors = [PardisoWrapper.cholesky(matrices.sparse(a)) for a in A]
            for f, operation in case['sequence']:
                rec.step()
                n, inverse = A[f].shape[0], numpy.linalg.inv(A[f])
                if operation == 'solve':
                    ok = close(factors[f].solve_A(matrices.rhs(n, 2)), inverse.dot(matrices.rhs(n, 2)))
                elif operation == 'diagonal':
                    ok = close(numpy.asarray(factors[f].diag_inv_A()).ravel(), numpy.diag(inverse))
                else:
                    X = analysis.dense(getattr(factors[f], 'solve_%s_substitution' % operation)(numpy.eye(n)))
                    ok = close(X.T.dot(X) if operation == 'forward' else X.dot(X.T), inverse)
                require(ok, lambda: 'wrong result of %s on factor %d within %s' % (operation, f, case['sequence']))
                rec.state((f, operation))
        rec.outcome(len(case['sequence']))


class Prior(object):
    def __init__(self, Q):
        self.Q = Q

    def prior_number_of_state_parameters(self):
        return self.Q.shape[0]

    def prior_precision(self):
        return matrices.sparse(self.Q)


class Systems(Harness):
    """Linear systems with a prior and every set of measurement updates in every order."""
    name = 'systems'
    chunk = 32
    # designs of measurements (rows), precisions and values
    UPDATES = [
        ([[1.0, 0.0, 0.0]], [[2.0]], [1.0]),
        ([[0.5, 0.5, 0.0], [0.0, -1.0, 2.0]], [[1.0, 0.25], [0.25, 3.0]], [-1.0, 4.0]),
        ([[0.0, 0.0, 0.0]], [[1.0]], [5.0]),
        ([[1.0, 1.0, 1.0], [1.0, 1.0, 1.0], [0.0, 2.0, 0.0]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.125]], [1.0, 2.0, 3.0]),
    ]

    def bounds(self, tier):
        return 'all graphs on 3 nodes as prior x all sequences of up to %d updates from 4 kinds' % (3 if tier == 'quick' else 4)

    def cases(self, tier):
        for mask in range(8):
            for scheme in matrices.SCHEMES:
                for length in range(0, 4 if tier == 'quick' else 5):
                    for sequence in itertools.product(range(4), repeat=length):
                        yield dict(mask=mask, scheme=scheme, sequence=list(sequence))

    def run(self, case, rec):
        Q = matrices.dense(3, case['mask'], case['scheme'])
        system = LinearSystem(Prior(Q))
        A, b = Q.copy(), numpy.zeros(3)
        for k in case['sequence']:
            J, W, y = [numpy.array(x) for x in self.UPDATES[k]]
            A, b = A + J.T.dot(W).dot(J), b + J.T.dot(W).dot(y)
            update = MeasurementUpdate.create_from_system_observations(scipy.sparse.csr_matrix(J), scipy.sparse.csr_matrix(W), y)
            kept = analysis.dense(update.information_precision).copy()
            system.append_measurement_update(update)
            rec.step()
            require(numpy.array_equal(kept, analysis.dense(update.information_precision)), 'appending changed the update')
        inverse, mode = numpy.linalg.inv(A), numpy.linalg.solve(A, b)
        with quiet():
            for again in range(2):
                solution = LinearSystemSolution_Cholesky(system)
                require(solution.number_of_state_parameters == 3, 'number of state parameters')
                x = solution.maximum_a_posteriori()
                require(close(analysis.dense(x).ravel(), mode), lambda: 'mode %s, exact %s for %s' % (x, mode, case))
                require(close(numpy.asarray(solution.marginal_std()).ravel(), numpy.sqrt(numpy.diag(inverse))), lambda: 'marginal deviation %s for %s' % (solution.marginal_std(), case))
                X = analysis.dense(solution.white_noise_to_posterior_distribution(numpy.eye(3)))
                require(close(X.dot(X.T), inverse), lambda: 'covariance of transformed noise for %s' % case)
                # white noise whose sample covariance is exactly the identity
                noise = numpy.sqrt(3.0) * numpy.hstack([numpy.eye(3), -numpy.eye(3)])
                with analysis.white_noise(lambda shape: noise[:, :shape[1]].copy() if len(shape) == 2 and shape[0] == 3 else None):
                    sample = analysis.dense(solution.random_sample(6))
                    require(close(sample.dot(sample.T) / 6.0, inverse), lambda: 'covariance of random samples for %s' % case)
                    require(close(numpy.asarray(solution.approximated_marginal_std(6)).ravel(), numpy.sqrt(numpy.diag(inverse))), lambda: 'approximated marginal deviation for %s' % case)
            if case['sequence']:
                x = analysis.dense(LinearSystemSolution_CG(system).maximum_a_posteriori()).ravel()
                require(close(x, mode, 1e-4), lambda: 'conjugate gradient mode %s, exact %s for %s' % (x, mode, case))
        rec.outcome(tuple(numpy.round(mode, 9)))


class Refusals(Harness):
    """Inputs the solver cannot treat are refused with an error instead of a result."""
    name = 'refusals'

    def bounds(self, tier):
        return 'every position of an empty row; non-square; wrong length of the right-hand side; wrong element type; not positive definite'

    def cases(self, tier):
        for n in (1, 2, 3):
            for k in range(n):
                yield dict(kind='empty', n=n, k=k)
                yield dict(kind='indefinite', n=n, k=k)
            yield dict(kind='square', n=n, k=0)
            for k in (-1, 1):
                yield dict(kind='length', n=n, k=k)
            yield dict(kind='type', n=n, k=0)

    def run(self, case, rec):
        n, k = case['n'], case['k']
        A = matrices.dense(n, 1 if n > 1 else 0, 'mixed')
        rec.step()
        expected = (ValueError, TypeError)
        with quiet():
            try:
                if case['kind'] == 'empty':
                    A[k, :] = A[:, k] = 0.0
                    PardisoWrapper.cholesky(scipy.sparse.csr_matrix(A))
                elif case['kind'] == 'square':
                    PardisoWrapper.cholesky(scipy.sparse.csr_matrix(numpy.ones((n, n + 1))))
                elif case['kind'] == 'indefinite':
                    A[k, k] = -1.0
                    expected = Exception
                    PardisoWrapper.cholesky(scipy.sparse.csr_matrix(A))
                elif case['kind'] == 'type':
                    PardisoWrapper.cholesky(scipy.sparse.csr_matrix(A).astype(numpy.float32))
                elif n + k > 0:
                    PardisoWrapper.cholesky(scipy.sparse.csr_matrix(A)).solve_A(numpy.zeros(n + k))
                else:
                    raise ValueError()
            except expected as error:
                require(not isinstance(error, NameError), 'refusal failed with %r' % error)
                rec.outcome(case['kind'])
                return
        require(False, 'not refused: %s' % case)


HARNESSES = [Solvers(), Permutations(), Sequences(), Systems(), Refusals()]
ASSUMPTIONS = ['matrices up to 5 x 5, well conditioned; agreement to 1e-9 relative (1e-4 for the conjugate gradient solver)', 'MKL PARDISO and CHOLMOD run inside the checked executions']
