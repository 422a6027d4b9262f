'''Small linear algebra: Gram-Schmidt, changes of basis, matrix helpers.'''
import operator
import warnings
import numpy as np
from sa import at_scale, sizes, sym, arr, same, freeze, unchanged, holds, apart, raises
from spec_frames import SCALES
from blmath.numerics.linalg import gram_schmidt
from blmath.numerics.linalg.gram_schmidt import orthogonalize, orthonormalize
from blmath.numerics.linalg.isomorphism import isomorphism, DimensionalityError, LinearDependenceError
from blmath.numerics.matlab import bsxfun, row, col, sparse
from blmath.numerics.numpy_ext import np_reshape_safe, np_make_readonly
from blmath.numerics.operations import scale_to_range, zero_safe_divide
from blmath import numerics


# --- Gram-Schmidt

def vectors(n, d):
    '''Any n vectors for small n; a flag of axes, mixed by any numbers, for the longer ones.'''
    if n <= 2 or d <= 2:
        return arr('v', (n, d))
    v = np.zeros((n, d))
    for i in range(n):
        for j in range(min(i + 1, d)):
            v[i, j] = sym('v%d%d' % (i, j), '+' if i == j else '')
    return v


def o_orthogonalize(n=(1, 2, 3), d=(2, 3, 4), scale=SCALES):
    at_scale(scale)
    if n > d:
        return
    v = vectors(n, d)
    before = freeze(v)
    o = orthogonalize(v)
    unchanged(v, before, 'the vectors')
    same(o.shape, v.shape, 'as many vectors')
    for i in range(n):
        for j in range(i):
            same(np.dot(o[i], o[j]), 0., 'orthogonal')
            same(np.dot(o[i], v[j]), 0., 'orthogonal to the vectors before')
        same(np.dot(o[i], v[i]), np.dot(o[i], o[i]), 'the part of the vector outside the span of those before')
    same(o[0], v[0], 'the first is as it was')
    if n > 1:
        same(o[1], v[1] - np.dot(v[0], v[1]) / np.dot(v[0], v[0]) * v[0], 'the second less its projection')
    apart(o, v, 'the result')


def o_orthonormalize(n=(1, 2, 3), d=(2, 3), which=('all', 'none', 'first', 'last', 'turned'), scale=SCALES):
    at_scale(scale)
    if n > d:
        return
    v = vectors(n, d)
    indices = {'all': None, 'none': [], 'first': [0], 'last': [n - 1], 'turned': list(range(n))[::-1]}[which]
    before = freeze((v, indices))
    o = orthogonalize(v)
    u = orthonormalize(v, indices) if which == 'first' else orthonormalize(v, indices=indices) if which != 'all' else orthonormalize(v)
    unchanged((v, indices), before, 'the vectors and the indices')
    same(u.shape, v.shape, 'as many vectors')
    for i in range(n):
        if indices is None or i in indices:
            same(u[i], o[i] / np.linalg.norm(o[i]), 'the direction of the orthogonal vector')
        else:
            same(u[i], o[i], 'not normalized')
    apart(u, v, 'the result')


def o_orthonormal_flag(n=(2, 3, 4), scale=SCALES):
    # Of a triangular set of vectors with positive diagonal, the axes.
    at_scale(scale)
    v = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            v[i, j] = sym('v%d%d' % (i, j), '+' if i == j else '')
    same(orthonormalize(v), np.eye(n), 'the axes')


TABLES = ([[2, 1, 0, 0, 1], [0, 3, 1, 1, 0], [1, 0, 2, -1, 1], [1, 1, 1, 4, 0], [0, -2, 1, 0, 5]],
          [[1, 1, 0, 0, 0, 2], [1, 0, 1, 0, 3, 0], [1, 0, 0, 4, 0, 1], [0, 5, 1, 1, 0, 0], [2, 0, 1, -1, 1, 1], [0, 1, 1, 0, -1, 7]])


def o_many(table=TABLES, n=(4, 5, 6), unit=(False, True)):
    # Many vectors.
    v = np.array(table, dtype=float)[:n]
    n = len(v)
    r = orthonormalize(v) if unit else orthogonalize(v)
    same(r.shape, v.shape, 'as many vectors')
    for i in range(n):
        for j in range(i):
            same(np.dot(r[i], r[j]), 0, 'orthogonal to each other')
        if unit:
            same(np.dot(r[i], r[i]), 1, 'of unit length')
        left = v[i]
        for j in range(i + 1):
            left = left - np.dot(v[i], r[j]) / np.dot(r[j], r[j]) * r[j]
        same(left, np.zeros(len(left)), 'a combination of those up to it')


def o_nearly_dependent(e=(1e-2, 1e-3, 1e-5), n=(2, 3), d=(2, 3)):
    # A vector almost along those before leaves what it leaves.
    if n > d:
        return
    v = np.zeros((n, d))
    v[0, 0] = sym('a', '+')
    v[1, 0], v[1, 1] = sym('b', '+'), e * sym('c', '+')
    want = np.zeros((n, d))
    want[0, 0], want[1, 1] = v[0, 0], v[1, 1]
    if n == 3:
        v[2, 0], v[2, 1], v[2, 2] = sym('p', '+'), sym('q', '-'), e * sym('r', '+')
        want[2, 2] = v[2, 2]
    same(orthogonalize(v) / e, want / e, 'orthogonal')
    same(orthonormalize(v), np.eye(n, d), 'orthonormal')
    w = v[:, ::-1]
    same(orthonormalize(w), np.eye(n, d)[:, ::-1], 'orthonormal')


def o_proj(d=(2, 3), scale=SCALES):
    at_scale(scale)
    u, v = arr('u', (d,)), arr('v', (d,))
    before = freeze((u, v))
    p = gram_schmidt.proj(u, v)
    unchanged((u, v), before, 'the vectors')
    same(np.dot(v - p, u), 0., 'what is left is orthogonal')
    same(p, np.dot(u, v) / np.dot(u, u) * u, 'along u')


# --- changes of basis

def o_isomorphism(n=(1, 2, 3), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', (n, n)), arr('b', (n, n))
    before = freeze((a, b))
    t = isomorphism(a, b)
    unchanged((a, b), before, 'the bases')
    t = np.array(t)
    same(t.shape, (n, n), 'a square matrix')
    same(np.dot(a.T, t), b.T, 'its columns are the coordinates of the second basis in the first')


def o_isomorphism_inverse(n=(1, 2), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', (n, n)), arr('b', (n, n))
    same(np.dot(np.array(isomorphism(a, b)), np.array(isomorphism(b, a))), np.eye(n), 'the other way is the inverse')
    same(np.array(isomorphism(a, a)), np.eye(n), 'a basis in itself')
    same(np.array(isomorphism(np.eye(n), b)), b.T, 'in the standard basis')


def o_isomorphism_dependent(n=(1, 2, 3), which=('first', 'second'), how=('multiple', 'zero', 'repeated'), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', (n, n)), arr('b', (n, n))
    bad = a if which == 'first' else b
    if how == 'zero' or n == 1:
        bad[n - 1] = 0.
    elif how == 'multiple':
        bad[n - 1] = 2. * bad[0]
    else:
        bad[n - 1] = bad[0]
    raises(LinearDependenceError, 'a dependent basis', isomorphism, a, b)


def o_isomorphism_nearly_dependent(e=(1e-2, 1e-4, 1e-5), which=('first', 'second', 'both'), n=(2, 3)):
    a, b = arr('a', (n, n)), arr('b', (n, n))
    for x in (a, b):
        if which == 'both' or (which == 'first') == (x is a):
            x[1] = 2. * x[0] + e * np.array([sym('x0')] + [0.] * (n - 2) + [sym('x1')])
    t = np.array(isomorphism(a, b))
    same(np.dot(a.T, t) * e, b.T * e, 'its columns are the coordinates of the second basis in the first')


def o_isomorphism_lengths(n=(1, 2, 3), m=(1, 2, 3), scale=SCALES):
    at_scale(scale)
    if n != m:
        raises(DimensionalityError, 'bases of different length', isomorphism, arr('a', (n, n)), arr('b', (m, m)))
        raises(ValueError, 'bases of different length', isomorphism, arr('a', (n, n)), arr('b', (m, m)))


# --- matrix helpers

OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv, 'maximum': np.maximum}


def o_isomorphism_sizes(n=(1, 2, 3), m=(1, 2, 3), scale=SCALES):
    # Vectors of the same dimension, but fewer of them.
    at_scale(scale)
    if n != m:
        raises(DimensionalityError, 'bases of different length', isomorphism, arr('a', (n, 3)), arr('b', (m, 3)))


def o_bsxfun_same(op=tuple(sorted(OPS)), shape=((1, 1), (2, 3), (1, 3), (3, 1)), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', shape), arr('b', shape, '+')
    before = freeze((a, b))
    same(bsxfun(OPS[op], a, b), OPS[op](a, b), 'element by element')
    unchanged((a, b), before, 'the matrices')


def o_bsxfun_outer(op=tuple(sorted(OPS)), n=sizes(1, 2, 3), m=(1, 2, 4), first=('row', 'column'), scale=SCALES):
    at_scale(scale)
    x, y = arr('x', (n,)), arr('y', (m,), '+')
    a, b = (row(x), col(y)) if first == 'row' else (col(x), row(y))
    before = freeze((a, b))
    got = bsxfun(OPS[op], a, b)
    unchanged((a, b), before, 'the matrices')
    same(got.shape, (m, n) if first == 'row' else (n, m), 'every pair')
    for i in range(n):
        for j in range(m):
            same(got[j, i] if first == 'row' else got[i, j], OPS[op](x[i], y[j]), 'of the pair')


def o_bsxfun_expand(op=tuple(sorted(OPS)), shape=((2, 3), (3, 2), (3, 3)), expand=('row', 'column'), first=(True, False), scale=SCALES):
    at_scale(scale)
    n, m = shape
    a = arr('a', shape, '+')
    b = arr('b', (1, m) if expand == 'row' else (n, 1), '+')
    got = bsxfun(OPS[op], b, a) if first else bsxfun(OPS[op], a, b)
    same(got.shape, shape, 'the shape of the bigger')
    for i in range(n):
        for j in range(m):
            e = b[0, j] if expand == 'row' else b[i, 0]
            same(got[i, j], OPS[op](e, a[i, j]) if first else OPS[op](a[i, j], e), 'with each row or column')


def o_bsxfun_refuses(shapes=(((2, 3), (3, 2)), ((2, 2), (3, 3)), ((2, 2), (1, 3)), ((3, 1), (2, 2))), scale=SCALES):
    at_scale(scale)
    raises(Exception, 'shapes that do not match', bsxfun, operator.add, arr('a', shapes[0]), arr('b', shapes[1]))


def o_row_and_col(shape=((3,), (1, 3), (3, 1), (2, 3), (2, 1, 2)), scale=SCALES):
    at_scale(scale)
    a = arr('a', shape)
    before = freeze(a)
    n = a.size
    same(row(a), a.ravel().reshape((1, n)), 'one row')
    same(col(a), a.ravel().reshape((n, 1)), 'one column')
    same(row(col(a)), row(a), 'back')
    unchanged(a, before, 'the matrix')


IJ = {
    'apart': ([0, 2, 1], [1, 0, 2]),
    'row': ([1, 1, 1], [0, 1, 2]),
    'unsorted': ([3, 0, 2], [0, 3, 1]),
    'repeated': ([0, 0, 1], [1, 1, 0]),
}


def o_sparse(at=tuple(sorted(IJ)), size=('given', 'fitted'), shape=('flat', 'row', 'column'), scale=SCALES):
    at_scale(scale)
    i, j = [np.array(x) for x in IJ[at]]
    data = arr('d', (3,))
    m, n = (5, 4) if size == 'given' else (max(IJ[at][0]) + 1, max(IJ[at][1]) + 1)
    want = np.zeros((m, n))
    for k in range(3):
        want[i[k], j[k]] = want[i[k], j[k]] + data[k]
    if shape == 'row':
        i, j = row(i), row(j)
    elif shape == 'column':
        i, j = col(i), col(j)
    before = freeze((i, j, data))
    s = sparse(i, j, data, m, n) if size == 'given' else sparse(i, j, data)
    unchanged((i, j, data), before, 'the indices and the entries')
    same(s.format, 'csc', 'in columns')
    same(s.shape, want.shape, 'the shape')
    same(s.toarray(), want, 'the entries, repeated ones added')


# --- arrays

def o_reshape(shape=((6,), (2, 3), (3, 2), (1, 6), (-1,), (3, -1)), warn=(False, True), scale=SCALES):
    at_scale(scale)
    a = arr('a', (2, 3))
    before = freeze(a)
    r = np_reshape_safe(a, shape, just_warn=warn) if warn else np_reshape_safe(a, shape)
    unchanged(a, before, 'the array')
    same(a.shape, (2, 3), 'the array keeps its shape')
    same(r, a.reshape(shape), 'the elements in the new shape')
    r.reshape((-1,))[4] = 7.
    same(a[1, 1], 7., 'a view: writing to it writes to the array')


def o_reshape_copies(how=('transposed', 'every other', 'reversed'), warn=(False, True), scale=SCALES):
    # The elements don't lie in the order a flat view needs.
    at_scale(scale)
    a = arr('a', (4, 3))
    b = {'transposed': a.T, 'every other': a[::2, :2], 'reversed': a[::-1]}[how]
    n = 4 if how == 'every other' else 12
    before = freeze((a, b))
    if warn:
        r = np_reshape_safe(b, (n,), just_warn=True)
        same(r, np.array([x for y in b for x in y]), 'the elements in the new shape')
        apart(r, a, 'a copy')
    else:
        raises(AttributeError, 'a copy would be made', np_reshape_safe, b, (n,))
        raises(AttributeError, 'a copy would be made', np_reshape_safe, b, (n,), False)
    unchanged((a, b), before, 'the array')
    same(b.shape, {'transposed': (3, 4), 'every other': (2, 2), 'reversed': (4, 3)}[how], 'the array keeps its shape')


def o_reshape_wrong_size(warn=(False, True), scale=SCALES):
    at_scale(scale)
    a = arr('a', (2, 3))
    before = freeze(a)
    raises(ValueError, 'another number of elements', np_reshape_safe, a, (4,), warn)
    raises(ValueError, 'another number of elements', np_reshape_safe, a, (2, 2, 2), warn)
    unchanged(a, before, 'the array')
    same(a.shape, (2, 3), 'the array keeps its shape')


def o_reshape_view_of_columns(warn=(False, True), scale=SCALES):
    # A view where a view can be had, also of a view.
    at_scale(scale)
    a = arr('a', (4, 3))
    r = np_reshape_safe(a[::2], (2, 3, 1), warn)
    r[1, 2, 0] = 7.
    same(a[2, 2], 7., 'a view: writing to it writes to the array')


def o_readonly(n=sizes(1, 2, 3), others=(False, True), scale=SCALES):
    at_scale(scale)
    arrays = [arr('a%d' % i, (2,)) for i in range(n)]
    keep = arr('k', (2,))
    before = freeze(arrays)
    given = []
    for i, a in enumerate(arrays):
        given += [['not an array', None, 3., (1, 2)][i % 4], a] if others else [a]
    same(np_make_readonly(given), None, 'nothing is returned')
    unchanged(arrays, before, 'the elements')
    for a in arrays:
        holds(not a.flags.writeable, 'not writeable')
    holds(keep.flags.writeable, 'nothing else')


def o_scale_to_range(shape=((2,), (3,), (2, 2)), order=('up', 'down', 'any'), scale=SCALES):
    at_scale(scale)
    if order == 'any':
        a = arr('a', shape)
    else:
        n = 4 if shape == (2, 2) else shape[0]
        x, out = sym('x'), []
        for i in range(n):
            out.append(x)
            x = x + sym('s%d' % i, '+' if order == 'up' else '-')
        a = np.array(out).reshape(shape)
    lo, hi = sym('lo'), sym('hi')
    before = freeze(a)
    r = scale_to_range(a, lo, hi)
    unchanged(a, before, 'the numbers')
    same(r.shape, a.shape, 'the shape')
    least, most = np.min(a), np.max(a)
    same(r, lo + (a - least) * (hi - lo) / (most - least), 'the line through both ends')
    if order != 'any':
        f, w = a.ravel(), r.ravel()
        same((w[0], w[-1]) if order == 'up' else (w[-1], w[0]), (lo, hi), 'the least and the most go to the ends of the range')


def o_scale_to_range_nearly_equal(e=(1e-3, 1e-5, 1e-7), n=(2, 3)):
    x, s = sym('x'), sym('s', '+')
    a = np.array([x, x + e * s, x + e * s / 4])[:n]
    lo, hi = sym('lo'), sym('hi')
    same(scale_to_range(a, lo, hi), np.array([lo, hi, lo + (hi - lo) / 4])[:n], 'the line through both ends')


def o_safe_divide(shape=((1,), (3,), (2, 2)), default=('none', 'given', 'keyword'), zero=('no', 'first', 'last', 'all'), top=('', '0'), scale=SCALES):
    at_scale(scale)
    a = arr('a', shape, '+') if top == '' else np.zeros(shape)
    b = arr('b', shape)
    n = b.size
    which = {'no': [], 'first': [0], 'last': [n - 1], 'all': list(range(n))}[zero]
    for k in which:
        b.reshape((-1,))[k] = 0.
    d = 0. if default == 'none' else sym('d')
    before = freeze((a, b))
    q = zero_safe_divide(a, b) if default == 'none' else zero_safe_divide(a, b, d) if default == 'given' else zero_safe_divide(a, b, default_error_value=d)
    unchanged((a, b), before, 'the arrays')
    same(q.shape, shape, 'the shape')
    qs, xs, ys = q.ravel(), a.ravel(), b.ravel()
    for k in range(n):
        same(qs[k], d if k in which else xs[k] / ys[k], 'the default where the divisor is zero, and the quotient elsewhere')


def o_safe_divide_broadcast(which=('scalar', 'row', 'column'), scale=SCALES):
    at_scale(scale)
    a = arr('a', (2, 3))
    b = sym('b', '+') if which == 'scalar' else np.array([sym('b', '+'), 0., 2.]) if which == 'row' else np.array([[sym('b', '+')], [0.]])
    q = zero_safe_divide(a, b)
    for i in range(2):
        for j in range(3):
            e = b if which == 'scalar' else b[j] if which == 'row' else b[i, 0]
            none = (which == 'row' and j == 1) or (which == 'column' and i == 1)
            same(q[i, j], 0. if none else a[i, j] / e, 'each quotient')


def o_exported(scale=SCALES):
    at_scale(scale)
    holds(numerics.scale_to_range is scale_to_range, 'exported')
    holds(numerics.zero_safe_divide is zero_safe_divide, 'exported')
    holds(numerics.np_reshape_safe is np_reshape_safe, 'exported')
    holds(numerics.np_make_readonly is np_make_readonly, 'exported')


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    x = np.array([i * k for i in range(n)])
    same(bsxfun(operator.add, row(x), col(np.array([0., k]))), [[i * k for i in range(n)], [(i + 1.) * k for i in range(n)]], 'many columns')
    same(bsxfun(operator.add, col(x), row(np.array([0., k]))), [[i * k, (i + 1.) * k] for i in range(n)], 'many rows')
    i, j = np.array(list(range(n))), np.array([a % 2 for a in range(n)])
    same(sparse(i, j, np.array([float(a % 5) for a in range(n)]), n, 2).toarray(), [[float(a % 5) if a % 2 == b else 0. for b in range(2)] for a in range(n)], 'many entries')
