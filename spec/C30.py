'''Block-sparse matrices and the solvers that use them.'''
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg
from sa import at_scale, sym, arr, same, near, freeze, unchanged, holds, apart, raises
from spec_frames import SCALES
from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix, mask_sparse_matrix, mask_sparse_matrix_by_rows, mask_sparse_matrix_by_columns
from blmath.numerics.linalg.sparse_cg import block_sparse_cg_solve

# Where the entries are.
PATTERNS = {
    'square': ('x..', '.x.', 'xxx'),
    'wide': ('x..x', '.x..', 'xxxx'),
    'tall': ('x.x', '..x', 'x..', '.xx'),
    'full': ('xx', 'xx'),
    'empty row': ('x.x', '...', 'xx.'),
    'one': ('x',),
}
FORMATS = ('coo', 'csr', 'csc')


def matrix(pattern, fmt):
    rows = PATTERNS[pattern]
    ij = [(i, j) for i in range(len(rows)) for j in range(len(rows[0])) if rows[i][j] == 'x']
    data = arr('m', (len(ij),))
    d = np.zeros((len(rows), len(rows[0])))
    for k in range(len(ij)):
        d[ij[k][0], ij[k][1]] = data[k]
    m = sp.coo_matrix((data, ([i for i, j in ij], [j for i, j in ij])), shape=d.shape).asformat(fmt)
    return m, d


def masks(n):
    '''Every choice of rows (or columns).'''
    return [[bool(k >> i & 1) for i in range(n)] for k in range(2 ** n)]


def few(k, n):
    '''All, none, all but one, only one, and mixed.'''
    every = 2 ** n - 1
    return k in (0, every, 1, every - 1, 5 & every, 6 & every)


def skip(pattern, rows, cols, fmt):
    if not few(rows, len(PATTERNS[pattern])) or not few(cols, len(PATTERNS[pattern][0])):
        return True
    return fmt != FORMATS[(rows + cols) % 3]


def picked(d, rows, cols):
    return d[[i for i in range(d.shape[0]) if rows[i]], :][:, [j for j in range(d.shape[1]) if cols[j]]]


def masked(d, rows, cols):
    out = np.zeros(d.shape)
    for i in range(d.shape[0]):
        for j in range(d.shape[1]):
            if rows[i] and cols[j]:
                out[i, j] = d[i, j]
    return out


def o_masks(pattern=('square', 'wide', 'tall'), rows=range(8), cols=range(16), fmt=FORMATS, scale=SCALES):
    at_scale(scale)
    if skip(pattern, rows, cols, fmt):
        return
    m, d = matrix(pattern, fmt)
    r, c = np.array(masks(d.shape[0])[rows]), np.array(masks(d.shape[1])[cols])
    every = [True] * max(d.shape)
    before = freeze((m, r, c))
    same(mask_sparse_matrix_by_rows(m, r).toarray(), masked(d, r, every), 'only the rows')
    same(mask_sparse_matrix_by_columns(m, c).toarray(), masked(d, every, c), 'only the columns')
    if r.any() and c.any():
        same(mask_sparse_matrix(m, r, c).toarray(), masked(d, r, c), 'only the rows and the columns')
    else:
        # A mask of nothing is no restriction, if there is another.
        rr = r if r.any() or not c.any() else every
        cc = c if c.any() else every
        same(mask_sparse_matrix(m, r, c).toarray(), masked(d, rr, cc), 'only the rows or the columns')
    unchanged((m, r, c), before, 'the matrix and the masks')


def block(pattern, fmt, rows, cols):
    m, d = matrix(pattern, fmt)
    r, c = np.array(masks(d.shape[0])[rows]), np.array(masks(d.shape[1])[cols])
    return StaticBlockSparseMatrix(m, r, c), m, d, r, c




def o_blocks(pattern=('square', 'wide', 'tall', 'empty row'), rows=range(16), cols=range(16), fmt=FORMATS, scale=SCALES):
    at_scale(scale)
    if skip(pattern, rows, cols, fmt):
        return
    m, d = matrix(pattern, fmt)
    r, c = np.array(masks(d.shape[0])[rows]), np.array(masks(d.shape[1])[cols])
    before = freeze((m, r, c))
    b = StaticBlockSparseMatrix(m, row_sparsity=r, column_sparsity=c)
    unchanged((m, r, c), before, 'the matrix and the masks')
    same(b.shape, d.shape, 'the shape')
    nr, nc = [not x for x in r], [not x for x in c]
    same((b.row_sparsity, b.row_density), (r, np.array(nr)), 'which rows are sparse')
    same((b.column_sparsity, b.column_density), (c, np.array(nc)), 'which columns are sparse')
    same(b.sparse_row_indices, np.array([i for i in range(len(r)) if r[i]]), 'the sparse rows')
    same(b.dense_row_indices, np.array([i for i in range(len(r)) if not r[i]]), 'the dense rows')
    same(b.sparse_column_indices, np.array([i for i in range(len(c)) if c[i]]), 'the sparse columns')
    same(b.dense_column_indices, np.array([i for i in range(len(c)) if not c[i]]), 'the dense columns')
    same((b.num_sparse_rows, b.num_dense_rows, b.num_sparse_columns, b.num_dense_columns), (sum(r), sum(nr), sum(c), sum(nc)), 'how many of each')
    every = [True] * max(d.shape)
    same(b.block_s.toarray(), masked(d, r, every), 'the sparse rows, in place')
    same(b.block_ss.toarray(), masked(d, r, c), 'the sparse rows and columns, in place')
    same(b.block_sd, picked(d, r, nc), 'the dense columns of the sparse rows')
    same(b.block_d, picked(d, nr, every), 'the dense rows')
    same(b.block_ds, picked(d, nr, c), 'the sparse columns of the dense rows')
    same(b.block_dd, picked(d, nr, nc), 'the dense corner')
    same(b.sparse_block.toarray(), picked(d, r, c), 'the sparse corner')


def o_products(pattern=('square', 'wide', 'tall', 'empty row', 'full', 'one'), rows=range(16), cols=range(16), fmt=FORMATS, scale=SCALES):
    at_scale(scale)
    if skip(pattern, rows, cols, fmt):
        return
    b, m, d, r, c = block(pattern, fmt, rows, cols)
    v = arr('v', (d.shape[1],))
    w = arr('w', (d.shape[1], 2))
    before = freeze((m, v, w))
    same(b.matvec(v), np.dot(d, v), 'the product with a vector')
    same(b.matmat(w), np.dot(d, w), 'the product with a matrix')
    op = b.linOp
    same(op.shape, d.shape, 'the operator has the shape of the matrix')
    same(op.matvec(v), np.dot(d, v), 'the operator times a vector')
    same(op.matmat(w), np.dot(d, w), 'the operator times a matrix')
    same(b.matvec(v), np.dot(d, v), 'the product again')
    unchanged((m, v, w), before, 'the matrix, the vector')


def o_squares(pattern=('square', 'wide', 'tall', 'empty row'), rows=range(16), cols=range(16), fmt=FORMATS, scale=SCALES):
    at_scale(scale)
    if skip(pattern, rows, cols, fmt):
        return
    b, m, d, r, c = block(pattern, fmt, rows, cols)
    before = freeze(m)
    same(b.MTM().toarray(), np.dot(d.T, d), 'the transpose times the matrix')
    same(b.MMT().toarray(), np.dot(d, d.T), 'the matrix times its transpose')
    same(b.MTM().toarray(), np.dot(d.T, d), 'again')
    same(b.MMT().toarray(), np.dot(d, d.T), 'again')
    unchanged(m, before, 'the matrix')


def o_default_masks(pattern=('square', 'wide', 'tall', 'empty row'), threshold=(.25, .5, .6, .75, 1.1), given=('none', 'rows', 'columns'), fmt=FORMATS, scale=SCALES):
    # A row (or column) is sparse when it has fewer entries than the threshold times the longer side.
    at_scale(scale)
    m, d = matrix(pattern, fmt)
    at = threshold * max(d.shape)
    where = [[x == 'x' for x in line] for line in PATTERNS[pattern]]
    rows = [sum(line) < at for line in where]
    cols = [sum(line[j] for line in where) < at for j in range(d.shape[1])]
    if given == 'none':
        b = StaticBlockSparseMatrix(m, sparsity_threshold=threshold)
    elif given == 'rows':
        rows = [i != 1 for i in range(d.shape[0])]
        b = StaticBlockSparseMatrix(m, np.array(rows), sparsity_threshold=threshold)
    else:
        cols = [i != 1 for i in range(d.shape[1])]
        b = StaticBlockSparseMatrix(m, column_sparsity=np.array(cols), sparsity_threshold=threshold)
    same(b.row_sparsity, np.array(rows), 'the sparse rows')
    same(b.column_sparsity, np.array(cols), 'the sparse columns')
    v = arr('v', (d.shape[1],))
    same(b.matvec(v), np.dot(d, v), 'the product')
    same(b.block_dd, picked(d, [not x for x in rows], [not x for x in cols]), 'the dense corner')


def o_default_threshold(n=(18, 22)):
    # One twentieth: of 18 columns only empty rows are sparse, of 22 also those with one entry.
    x = sym('x')
    m = sp.coo_matrix((np.array([x, 2 * x, 3 * x]), ([0, 2, 2], [1, 0, 1])), shape=(3, n)).tocsr()
    b = StaticBlockSparseMatrix(m)
    same(b.row_sparsity, np.array([n == 22, True, False]), 'the sparse rows')


def o_conjugate_gradients(n=(1, 2), x0=('default', 'given', 'keyword'), rows=range(4), fmt=('csr', 'coo')):
    if rows >= 2 ** n or (n == 2 and rows == 2):
        return
    # Positive definite: A A^T + 1.
    if n == 1:
        a = np.array([[sym('a', '+')]])
    else:
        p, q = sym('p', '+'), sym('q', '+')
        a = np.array([[p, 0.], [0., p + q]])
    m = sp.coo_matrix(a).asformat(fmt)
    mask = np.array(masks(n)[rows])
    s = StaticBlockSparseMatrix(m, mask, mask)
    b = arr('b', (n,), '+')
    start = arr('s', (n,), '-')
    before = freeze((m, b, start))
    if x0 == 'default':
        x, i = s.conjGradSolve(b)
    elif x0 == 'given':
        x, i = s.conjGradSolve(b, start)
    else:
        x, i = s.conjGradSolve(b, x0=start, tol=1e-12, maxiter=n)
    unchanged((m, b, start), before, 'the matrix, the right hand side and the start')
    near(np.dot(a, x), b, 'the solution, after as many steps as unknowns')
    holds(i < n, 'the number of the last step')


def o_one_step(n=(2, 3), start=(False, True), scale=SCALES):
    # Stopped after one step: the steepest descent from the start.
    at_scale(scale)
    a = np.diag(arr('a', (n,), '+'))
    m = sp.coo_matrix(a).tocsr()
    mask = np.array([True] * n)
    s = StaticBlockSparseMatrix(m, mask, mask)
    b = arr('b', (n,))
    x0 = arr('s', (n,)) if start else np.zeros(n)
    x, i = s.conjGradSolve(b, x0 if start else None, maxiter=1)
    r = b - np.dot(a, x0)
    same(x, x0 + np.dot(r, r) / np.dot(r, np.dot(a, r)) * r, 'one step')
    same(i, 0, 'the first step is the last')


# --- the preconditioned solver

def o_solve(fmt=('csr', 'csc', 'coo'), pattern=('diagonal', 'full', 'two blocks', 'unused', 'unused first'), scale=SCALES):
    at_scale(scale)
    if pattern == 'diagonal':
        a = np.diag(arr('a', (3,), '+'))
    elif pattern == 'full':
        p, q = sym('p', '+'), sym('q', '+')
        a = np.array([[p + q, p], [p, p + 2 * q]])
    elif pattern == 'two blocks':
        p, q = sym('p', '+'), sym('q', '+')
        a = np.array([[p + q, 0., p], [0., q, 0.], [p, 0., p + 2 * q]])
    else:
        # An unknown in no equation.
        p, q = sym('p', '+'), sym('q', '+')
        used = [0, 1, 3] if pattern == 'unused' else [1, 2, 3]
        a = np.zeros((4, 4))
        for i in range(3):
            for j in range(3):
                a[used[i], used[j]] = np.array([[p + q, 0., p], [0., q, 0.], [p, 0., p + 2 * q]])[i, j]
    m = sp.coo_matrix(a).asformat(fmt)
    b = arr('b', (len(a),))
    if 'unused' in pattern:
        b[2 if pattern == 'unused' else 0] = 0.
    before = freeze((m, b))
    x = block_sparse_cg_solve(m, b)
    unchanged((m, b), before, 'the matrix and the right hand side')
    same(np.dot(a, x), b, 'the solution')
    same(scipy.sparse.linalg.cg.matrix.toarray(), a, 'solves with the matrix')
    if 'unused' in pattern:
        want = np.zeros(4)
        want[used] = np.linalg.solve(a[used, :][:, used], b[used])
        same(scipy.sparse.linalg.cg.preconditioned, want, 'an unknown in no equation is left alone by the preconditioner')
        return
    same(scipy.sparse.linalg.cg.preconditioned, np.linalg.solve(a, b), 'without dense columns, the preconditioner is the inverse')
