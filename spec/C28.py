'''The sparse Cholesky factorization, around the compiled part.'''
import numpy as np
import scipy.sparse as sp
from sa import sym, arr, same, freeze, unchanged, holds, apart, outcome
from blmath.numerics.linalg.cholmod import Factor
from blmath.numerics.linalg.lchol import lchol

# The permutations, and the columns of the factor before the one where it fails, if it does.
ORDERS = {1: ((0,),), 2: ((0, 1), (1, 0)), 3: ((0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 2, 1))}


def factor(n, cols):
    '''The dense factor and its compressed columns.'''
    d = np.zeros((n, cols))
    data, ind, ptr = [], [], [0]
    for j in range(cols):
        for i in range(j, n):
            x = sym('l%d%d' % (i, j), '+' if i == j else '?')
            d[i, j] = x
            data.append(x)
            ind.append(i)
        ptr.append(len(ind))
    return d, np.array(data, dtype=float), np.array(ind, dtype=np.int64), np.array(ptr, dtype=np.int64)


def permutation(q):
    S = np.zeros((len(q), len(q)))
    for j in range(len(q)):
        S[q[j], j] = 1.
    return S


def o_factor(n=(1, 2, 3), order=range(5), fmt=('csc', 'csr')):
    if order >= len(ORDERS[n]):
        return
    q = ORDERS[n][order]
    d, data, ind, ptr = factor(n, n)
    P = permutation(q)
    dense = np.dot(P, np.dot(np.dot(d, d.T), P.T))
    A = sp.csc_matrix(dense) if fmt == 'csc' else sp.csr_matrix(dense)
    before = freeze(A)
    Factor.pretend = (ind, ptr, data, 0, np.array(q))
    L, nonpsd, S = lchol(A)
    unchanged(A, before, 'the matrix')
    same(L.shape, (n, n), 'the factor is square')
    same(L.toarray(), d, 'the factor')
    same(nonpsd, 0, 'positive definite')
    same(S.toarray(), P, 'the permutation')
    same(S.T.dot(A.dot(S)).toarray(), L.dot(L.T).toarray(), 'the factor times its transpose is the reordered matrix')


def o_not_definite(n=(2, 3), cols=(0, 1, 2)):
    # The factor has the columns before the failure.
    if cols >= n:
        return
    d, data, ind, ptr = factor(n, cols)
    A = sp.csc_matrix(arr('a', (n, n)))
    before = freeze(A)
    Factor.pretend = (ind, ptr, data, cols + 1, np.arange(n)[::-1])
    L, nonpsd, S = lchol(A)
    unchanged(A, before, 'the matrix')
    same(nonpsd, cols + 1, 'where it fails')
    same(L.shape, (n, cols), 'the columns before the failure')
    if cols:
        same(L.toarray(), d, 'the columns before the failure')
    same(S.toarray(), permutation([n - 1 - i for i in range(n)]), 'the permutation')


def o_given(n=(1, 2, 3), dtype=('f8', 'f4', 'i8', 'i4'), index=('i4', 'i8'), fmt=('csc', 'csr')):
    # The compiled part reads 64-bit indices and doubles, whatever the matrix has.
    whole = dtype[0] == 'i'
    A = sp.csc_matrix(arr('a', (n, n), '+', integer=whole)) if fmt == 'csc' else sp.csr_matrix(arr('a', (n, n), '+', integer=whole))
    A.data = A.data.astype(dtype)
    A.indices = A.indices.astype(index)
    A.indptr = A.indptr.astype(index)
    before = freeze(A)
    d, data, ind, ptr = factor(n, n)
    Factor.pretend = (ind, ptr, data, 0, np.arange(n))
    lchol(A)
    unchanged(A, before, 'the matrix')
    same((A.data.dtype == np.dtype(dtype), A.indices.dtype == np.dtype(index), A.indptr.dtype == np.dtype(index)), (True, True, True), 'the matrix keeps its types')
    B = Factor.seen
    holds(B.indices.dtype == np.int64, '64-bit row indices')
    holds(B.indptr.dtype == np.int64, '64-bit column pointers')
    holds(B.data.dtype == np.float64, 'doubles')
    for x in (B.indices, B.indptr, B.data):
        holds(x.flags.c_contiguous, 'contiguous')
    same(B.shape, (n, n), 'the shape')
    same(B.toarray(), A.toarray(), 'the same matrix')
    same(B.indices, A.indices, 'the same entries')
    same(B.nnz, A.nnz, 'as many entries')
