'''scipy.sparse.linalg: an iterative solve is the exact one.'''
import numpy as np


class LinearOperator(object):
    def __init__(self, shape, matvec, rmatvec=None, matmat=None, dtype=None, rmatmat=None):
        self.shape = shape
        self._matvec = matvec
        self._matmat = matmat

    def matvec(self, x):
        x = np.asarray(x)
        if x.shape != (self.shape[1],) and x.shape != (self.shape[1], 1):
            raise ValueError('dimension mismatch')
        return self._matvec(x)

    def matmat(self, X):
        if self._matmat is None:
            return np.array([self._matvec(X[:, i]) for i in range(X.shape[1])]).T
        return self._matmat(X)

    def dot(self, x):
        return self.matvec(x) if np.asarray(x).ndim == 1 else self.matmat(x)

    def __mul__(self, x):
        return self.dot(x)

    def __matmul__(self, x):
        return self.dot(x)


def factorized(A):
    d = A.toarray()
    if d.shape[0] != d.shape[1]:
        raise ValueError('can only factor square matrices')

    def solve(b):
        return np.linalg.solve(d, b)
    return solve


def cg(A, b, x0=None, rtol=1e-5, atol=0., maxiter=None, M=None, callback=None):
    if M is not None:
        cg.preconditioned = M.matvec(b)
        cg.matrix = A
        if tuple(M.shape) != tuple(A.shape):
            raise ValueError('matrix and preconditioner have different shapes')
    d = A.toarray() if hasattr(A, 'toarray') else A
    if not hasattr(A, 'toarray'):
        return np.linalg.solve(d, b), 0
    # An unknown in no equation stays at its start.
    used = sorted(set([int(i) for i in A.tocoo().row]))
    x = np.zeros(len(d))
    x[used] = np.linalg.solve(d[used, :][:, used], b[used])
    return x, 0
