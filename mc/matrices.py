"""All sparse symmetric positive definite matrices of a small space: every graph on n nodes x weight scheme x storage form."""
import itertools

import numpy
import scipy.sparse

SCHEMES = ('unit', 'signed', 'mixed')
FORMS = ('plain', 'zeros', 'unsorted')


def edges(n):
    return list(itertools.combinations(range(n), 2))


def graphs(sizes):
    for n in sizes:
        for mask in range(2 ** (n * (n - 1) // 2)):
            yield n, mask


def dense(n, mask, scheme):
    A = numpy.zeros((n, n))
    for k, (i, j) in enumerate(edges(n)):
        if mask >> k & 1:
            w = {'unit': -1.0, 'signed': (-1.0) ** (i + j + k) * 1.5, 'mixed': (-1.0) ** k * (0.125 + 0.75 * k)}[scheme]
            A[i, j] = A[j, i] = w
    for i in range(n):
        A[i, i] = numpy.abs(A[i]).sum() + {'unit': 0.5, 'signed': 0.25 + i, 'mixed': 3.0 / (1.0 + i)}[scheme]
    return A


def sparse(A, form='plain'):
    n = A.shape[0]
    if form == 'plain':
        return scipy.sparse.csr_matrix(A)
    if form == 'zeros':
        # every element stored, also those that are zero
        return scipy.sparse.csr_matrix((A.ravel().copy(), numpy.tile(numpy.arange(n), n), numpy.arange(0, n * n + 1, n)), shape=(n, n))
    data, indices, indptr = [], [], [0]
    for i in range(n):
        columns = [j for j in range(n) if A[i, j] != 0.0][::-1]
        data += [A[i, j] for j in columns]
        indices += columns
        indptr.append(len(indices))
    M = scipy.sparse.csr_matrix((numpy.array(data), numpy.array(indices), numpy.array(indptr)), shape=(n, n))
    return M


def rhs(n, columns):
    return numpy.array([[float((3 * i + 5 * c + i * c) % 7 - 3) + 0.25 * c for c in range(columns)] for i in range(n)])
