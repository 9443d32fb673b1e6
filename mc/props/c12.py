"""C12: the partial inverse equals the true inverse on the pattern."""
import itertools

import numpy
import scipy.sparse
import sksparse.cholmod

from mc import analysis, matrices
from mc.core import Harness, require
from mc.env import quiet

from eustace.analysis.advanced_standard.linalg import qinv, sparse


def close(got, want, tolerance=1e-9):
    return bool(numpy.all(numpy.abs(numpy.asarray(got) - numpy.asarray(want)) <= tolerance * (1.0 + numpy.abs(want))))


def check(M, A, message, rec, factors=('given', 'none')):
    inverse = numpy.linalg.inv(A)
    for factor in factors:
        S = qinv.Q_inv(M, sksparse.cholmod.cholesky(M)) if factor == 'given' else qinv.Q_inv(M)
        rec.step()
        D = analysis.dense(S)
        require(D.shape == A.shape, lambda: '%s: shape %s' % (message, D.shape))
        # a stored element is the true one; elements on the pattern of the matrix are all there
        stored = numpy.zeros(A.shape, dtype=bool)
        c = scipy.sparse.coo_matrix(S)
        stored[c.row[c.data != 0.0], c.col[c.data != 0.0]] = True
        require(close(D[stored], inverse[stored]), lambda: '%s: partial inverse %s, inverse %s' % (message, D, inverse))
        pattern = (A != 0.0)
        require(close(D[pattern], inverse[pattern]), lambda: '%s: partial inverse %s, inverse %s on the pattern of %s' % (message, D, inverse, A))
    return inverse


class Graphs(Harness):
    """Every graph, weights and storage form."""
    name = 'graphs'
    chunk = 32

    def bounds(self, tier):
        return 'all graphs on 1-%d nodes x %d weight schemes x storage forms; marginal variances through every design with 0/1 rows; traces with the derivative at every element' % (5 if tier == 'quick' else 6, len(matrices.SCHEMES))

    def cases(self, tier):
        for n, mask in matrices.graphs(range(1, 6 if tier == 'quick' else 7)):
            for scheme in matrices.SCHEMES if n < 6 else ('mixed',):
                for form in ('plain', 'zeros') if n < 5 else ('plain',):
                    yield dict(n=n, mask=mask, scheme=scheme, form=form)

    def run(self, case, rec):
        n = case['n']
        A = matrices.dense(n, case['mask'], case['scheme'])
        M = matrices.sparse(A, case['form']).tocsc()
        with quiet():
            inverse = check(M, A, 'matrix %(n)d/%(mask)d/%(scheme)s/%(form)s' % case, rec)
            require(close(sparse.marginal_variance_Q_inv(M), numpy.diag(inverse)), 'marginal variances')
            # trace with a derivative that is non-zero at one element (pair) of the pattern at a time
            for i, j in itertools.combinations_with_replacement(range(n), 2):
                if A[i, j] != 0.0:
                    dQ = numpy.zeros((n, n))
                    dQ[i, j] = dQ[j, i] = 0.5
                    want = numpy.trace(inverse.dot(dQ))
                    sdQ = scipy.sparse.csc_matrix(dQ)
                    fQ = sksparse.cholmod.cholesky(M)
                    for given in (dict(), dict(fQ=fQ), dict(iQp=qinv.Q_inv(M, fQ))):
                        rec.step()
                        got = sparse.trace_iQ_dQdp(M, sdQ, **given)
                        require(close(got, want), lambda: 'trace %s, exact %s for element %d,%d of %s' % (got, want, i, j, case))
            # marginal variances of combinations of elements: exact, or refused where the partial inverse does not hold them
            designs = itertools.product((0.0, 1.0), repeat=n) if n <= 4 else [tuple(float(k in (i, j)) for k in range(n)) for i, j in itertools.combinations(range(n), 2)]
            for row in designs:
                D = numpy.array([row, [1.0] + [0.0] * (n - 1)])
                within = all(A[i, j] != 0.0 for i, j in itertools.combinations(numpy.nonzero(row)[0], 2))
                rec.step()
                try:
                    v = numpy.asarray(sparse.marginal_variance_Q_inv(M, scipy.sparse.csr_matrix(D))).ravel()
                except Exception:
                    require(not within, lambda: 'variance refused for design %s of %s' % (row, case))
                    continue
                want = numpy.diag(D.dot(inverse).dot(D.T))
                require(close(v, want), lambda: 'variances %s, exact %s for design %s of %s' % (v, want, row, case))
        rec.outcome(tuple(numpy.round(numpy.diag(inverse), 9)))


class Families(Harness):
    """Structured families at larger size, with every relabelling from a set."""
    name = 'families'
    chunk = 4

    def bounds(self, tier):
        return 'bands of width 1-5, arrows, grids, stars, trees and block diagonals at every size up to %d, in 4 labellings' % (20 if tier == 'quick' else 40)

    def cases(self, tier):
        for n in range(2, 21 if tier == 'quick' else 41):
            for family in ('band1', 'band2', 'band5', 'arrow', 'star', 'grid', 'tree', 'blocks', 'dense', 'cycle'):
                for label in ('same', 'reverse', 'evenodd', 'stride'):
                    yield dict(n=n, family=family, label=label)

    def run(self, case, rec):
        n, family = case['n'], case['family']
        A = numpy.zeros((n, n))
        width = int(n ** 0.5) or 1
        for i, j in itertools.combinations(range(n), 2):
            linked = {'arrow': i == 0 or j - i == 1, 'star': j == n - 1, 'tree': (j - 1) // 2 == i, 'blocks': i // 3 == j // 3, 'dense': True, 'cycle': j - i == 1 or (i, j) == (0, n - 1),
                      'grid': j - i == width or (j - i == 1 and j % width)}.get(family)
            if linked is None:
                linked = j - i <= int(family[4:])
            if linked:
                A[i, j] = A[j, i] = (-1.0) ** (i * j) * (0.5 + 0.125 * ((i + 2 * j) % 5))
        for i in range(n):
            A[i, i] = numpy.abs(A[i]).sum() + 0.5 + (i % 3)
        order = {'same': list(range(n)), 'reverse': list(range(n))[::-1], 'evenodd': list(range(0, n, 2)) + list(range(1, n, 2)), 'stride': sorted(range(n), key=lambda k: (k * 7 % n, k))}[case['label']]
        A = A[numpy.ix_(order, order)]
        with quiet():
            inverse = check(scipy.sparse.csc_matrix(A), A, '%(family)s %(n)d %(label)s' % case, rec)
        rec.outcome((family, n))


HARNESSES = [Graphs(), Families()]
ASSUMPTIONS = ['well conditioned matrices; agreement to 1e-9 relative']
