'''scipy.sparse over explicit triplets.'''
import numpy as np


def _ints(a):
    return [int(i) for i in np.asarray(a).ravel()]


class spmatrix(object):
    ndim = 2

    def _triplets(self):
        raise NotImplementedError()

    @property
    def nnz(self):
        return len(self.data)

    @property
    def dtype(self):
        return self.data.dtype

    def get_shape(self):
        return self.shape

    def toarray(self):
        out = np.zeros(self.shape, dtype=self.data.dtype)
        rows, cols, data = self._triplets()
        for i, j, x in zip(rows, cols, data):
            out[i, j] = out[i, j] + x
        return out

    def todense(self):
        return np.matrix(self.toarray())

    @property
    def A(self):
        return self.toarray()

    def tocoo(self, copy=True):
        rows, cols, data = self._triplets()
        return coo_matrix((data.copy() if copy else data, (np.array(rows, dtype=np.int32), np.array(cols, dtype=np.int32))), shape=self.shape)

    def tocsr(self, copy=False):
        if self.format == 'csr' and not copy:
            return self
        rows, cols, data = self._triplets()
        return csr_matrix((data, (rows, cols)), shape=self.shape)

    def tocsc(self, copy=False):
        if self.format == 'csc' and not copy:
            return self
        rows, cols, data = self._triplets()
        return csc_matrix((data, (rows, cols)), shape=self.shape)

    def asformat(self, format, copy=False):
        if format is None or format == self.format:
            return self
        if format == 'csr':
            return self.tocsr()
        if format == 'csc':
            return self.tocsc()
        if format == 'coo':
            return self.tocoo()
        if format in ('lil', 'dok', 'dia', 'bsr'):
            r = self.tocoo()
            r.format = format
            return r
        raise ValueError('Format %s is unknown.' % format)

    def transpose(self, axes=None, copy=False):
        rows, cols, data = self._triplets()
        r = coo_matrix((data, (np.array(cols, dtype=np.int32), np.array(rows, dtype=np.int32))), shape=(self.shape[1], self.shape[0]))
        if self.format == 'csr':
            return r.tocsc()
        if self.format == 'csc':
            return r.tocsr()
        return r

    @property
    def T(self):
        return self.transpose()

    def dot(self, other):
        if isinstance(other, spmatrix):
            if self.shape[1] != other.shape[0]:
                raise ValueError('dimension mismatch')
            r = coo_matrix(np.dot(self.toarray(), other.toarray()))
            return r.tocsc() if self.format == 'csc' else r.tocsr()
        if np.isscalar(other):
            return self * other
        other = np.asarray(other)
        if other.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        return np.dot(self.toarray(), other)

    def _with(self, data):
        r = self.copy()
        r.data = data
        return r

    def __mul__(self, other):
        if np.isscalar(other):
            return self._with(self.data * other)
        return self.dot(other)

    def __rmul__(self, other):
        if np.isscalar(other):
            return self._with(self.data * other)
        return np.dot(np.asarray(other), self.toarray())

    def __matmul__(self, other):
        return self.dot(other)

    def __neg__(self):
        return self._with(-self.data)

    def __abs__(self):
        return self._with(abs(self.data))

    def __truediv__(self, other):
        return self._with(self.data / other)

    def __add__(self, other):
        if isinstance(other, spmatrix):
            return coo_matrix(self.toarray() + other.toarray()).tocsr()
        return self.toarray() + other

    def __sub__(self, other):
        if isinstance(other, spmatrix):
            return coo_matrix(self.toarray() - other.toarray()).tocsr()
        return self.toarray() - other

    def sum(self, axis=None):
        d = self.toarray()
        if axis is None:
            return d.sum()
        return np.sum(d, axis=axis, keepdims=True)

    def copy(self):
        rows, cols, data = self._triplets()
        return coo_matrix((data.copy(), (np.array(rows, dtype=np.int32), np.array(cols, dtype=np.int32))), shape=self.shape).asformat(self.format)

    def _pick(self, key, n):
        if isinstance(key, slice):
            return list(range(n))[key]
        a = np.asarray(key)
        if a.dtype == np.bool_:
            return [i for i in range(n) if a[i]]
        return _ints(a)

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key, slice(None))
        if isinstance(key[0], int) and isinstance(key[1], int):
            return self.toarray()[key[0], key[1]]
        ri = self._pick(key[0], self.shape[0])
        ci = self._pick(key[1], self.shape[1])
        rows, cols, data = self._triplets()
        nr, nc, take = [], [], []
        for k in range(len(rows)):
            for i in range(len(ri)):
                if ri[i] == rows[k]:
                    for j in range(len(ci)):
                        if ci[j] == cols[k]:
                            nr.append(i)
                            nc.append(j)
                            take.append(k)
        return coo_matrix((data[np.array(take, dtype=np.int64)], (np.array(nr, dtype=np.int32), np.array(nc, dtype=np.int32))), shape=(len(ri), len(ci))).asformat(self.format)


def issparse(x):
    return isinstance(x, spmatrix)


isspmatrix = issparse


def _dense(a):
    a = np.asarray(a)
    if a.ndim == 1:
        a = a.reshape((1, -1))
    rows, cols = [], []
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if a[i, j] != 0:
                rows.append(i)
                cols.append(j)
    return rows, cols, a[np.array(rows, dtype=np.int64), np.array(cols, dtype=np.int64)], a.shape


def _unpack(arg, shape, dtype):
    '''(rows, columns, data, shape) of a constructor's arguments.'''
    if isinstance(arg, spmatrix):
        rows, cols, data = arg._triplets()
        data = data.copy()
        size = arg.shape
    elif isinstance(arg, tuple) and len(arg) == 2 and np.isscalar(arg[0]):
        rows, cols, data, size = [], [], np.zeros(0, dtype=dtype if dtype is not None else np.float64), (int(arg[0]), int(arg[1]))
    elif isinstance(arg, tuple) and len(arg) == 2:
        data = np.array(arg[0])
        rows, cols = _ints(arg[1][0]), _ints(arg[1][1])
        if len(rows) != len(cols) or len(rows) != len(data):
            raise ValueError('row, column, and data arrays must all be the same length')
        if shape is None:
            if len(rows) == 0:
                raise ValueError('cannot infer dimensions from zero sized index arrays')
            size = (max(rows) + 1, max(cols) + 1)
        else:
            size = (int(shape[0]), int(shape[1]))
    else:
        rows, cols, data, size = _dense(arg)
    if shape is not None:
        size = (int(shape[0]), int(shape[1]))
    for i in rows:
        if i >= size[0]:
            raise ValueError('axis 0 index %d exceeds matrix dimension %d' % (i, size[0]))
        if i < 0:
            raise ValueError('negative axis 0 index: %d' % i)
    for j in cols:
        if j >= size[1]:
            raise ValueError('axis 1 index %d exceeds matrix dimension %d' % (j, size[1]))
        if j < 0:
            raise ValueError('negative axis 1 index: %d' % j)
    if dtype is not None:
        data = data.astype(dtype)
    return rows, cols, data, size


class coo_matrix(spmatrix):
    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        rows, cols, data, size = _unpack(arg1, shape, dtype)
        self.format = 'coo'
        self.shape = size
        self.row = np.array(rows, dtype=np.int32)
        self.col = np.array(cols, dtype=np.int32)
        self.data = data

    def _triplets(self):
        return _ints(self.row), _ints(self.col), self.data


class _compressed(spmatrix):
    def _start(self, arg1, shape, dtype):
        if isinstance(arg1, tuple) and len(arg1) == 3:
            self.data = np.asarray(arg1[0]) if dtype is None else np.asarray(arg1[0], dtype=dtype)
            self.indices = np.asarray(arg1[1])
            self.indptr = np.asarray(arg1[2])
            n = len(self.indptr) - 1
            if shape is None:
                m = max(_ints(self.indices)) + 1 if len(self.indices) else 0
                shape = (n, m) if self.format == 'csr' else (m, n)
            self.shape = (int(shape[0]), int(shape[1]))
            major = self.shape[0 if self.format == 'csr' else 1]
            minor = self.shape[1 if self.format == 'csr' else 0]
            if n != major:
                raise ValueError('index pointer size (%d) should be (%d)' % (n + 1, major + 1))
            if len(self.indices) != len(self.data):
                raise ValueError('indices and data should have the same size')
            for i in _ints(self.indices):
                if i >= minor or i < 0:
                    raise ValueError('indices must be < %d' % minor)
            return
        rows, cols, data, size = _unpack(arg1, shape, dtype)
        self.shape = size
        major, minor = (rows, cols) if self.format == 'csr' else (cols, rows)
        count = size[0] if self.format == 'csr' else size[1]
        indices, indptr, take = [], [0], []
        sums = []
        for i in range(count):
            seen = {}
            for k in range(len(major)):
                if major[k] == i:
                    seen.setdefault(minor[k], []).append(k)
            for j in sorted(seen):
                indices.append(j)
                take.append(seen[j][0])
                if len(seen[j]) > 1:
                    sums.append((len(take) - 1, seen[j][1:]))
            indptr.append(len(indices))
        out = data[np.array(take, dtype=np.int64)]
        for at, ks in sums:
            for k in ks:
                out[at] = out[at] + data[k]
        self.data = out
        self.indices = np.array(indices, dtype=np.int32)
        self.indptr = np.array(indptr, dtype=np.int32)

    def _major(self):
        ptr = _ints(self.indptr)
        out = []
        for i in range(len(ptr) - 1):
            for k in range(ptr[i], ptr[i + 1]):
                out.append(i)
        return out


class csr_matrix(_compressed):
    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        self.format = 'csr'
        self._start(arg1, shape, dtype)

    def _triplets(self):
        return self._major(), _ints(self.indices), self.data


class csc_matrix(_compressed):
    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        self.format = 'csc'
        self._start(arg1, shape, dtype)

    def _triplets(self):
        return _ints(self.indices), self._major(), self.data


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, list):
        if offsets != [0]:
            raise NotImplementedError()
        d = np.asarray(diagonals[0])
    else:
        d = np.asarray(diagonals)
    n = len(d)
    return coo_matrix((d, (list(range(n)), list(range(n)))), shape=(n, n))


def eye(m, n=None, k=0, dtype=np.float64, format=None):
    return diags(np.ones(m)).asformat(format)


def hstack(blocks, format=None, dtype=None):
    return coo_matrix(np.hstack([b.toarray() if issparse(b) else b for b in blocks])).asformat(format)


def vstack(blocks, format=None, dtype=None):
    return coo_matrix(np.vstack([b.toarray() if issparse(b) else b for b in blocks])).asformat(format)
