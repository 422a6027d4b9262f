'''Coercion and classification of numeric input; small numeric helpers.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, near, holds, raises, freeze, unchanged, apart
from spec_frames import SCALES
from blmath.numerics import (as_numeric_array, isnumeric, isnumericarray, isnumericscalar, is_empty_arraylike,
                             round_to, rounded_list, scale_to_range, zero_safe_divide)
from blmath.numerics import predicates
from blmath.numerics.numpy_ext import np_reshape_safe, np_make_readonly

NAN = float('nan')
INF = float('inf')


def shaped(shape, form):
    a = arr('a', shape)
    if form == 'array':
        return a
    if form == 'int array':
        return arr('a', shape, integer=True)
    if form == 'tuple':
        return tuple(a.tolist())
    return a.tolist()


FORMS = ('array', 'int array', 'list', 'tuple')


def o_coerce(shape=((3,), (2, 3), (1, 3), (0, 3)), form=FORMS, scale=SCALES):
    at_scale(scale)
    if not (shape[0] == 0 and form in ('list', 'tuple')):
        a = shaped(shape, form)
        r = as_numeric_array(a)
        holds(isinstance(r, np.ndarray), 'the result is an array')
        same(r, a, 'coerced without a shape')
        same(r.shape, shape, 'the shape')
        r = as_numeric_array(a, shape)
        same(r, a, 'coerced with its own shape')
        r = as_numeric_array(a, tuple([-1] + list(shape[1:])))
        same(r, a, 'coerced with a free dimension')
        if len(shape) == 2:
            r = as_numeric_array(a, (shape[0], -1))
            same(r, a, 'coerced with a free second dimension')


def o_transpose(shape=((3, 2), (3, 1), (3, 5)), form=FORMS, scale=SCALES):
    at_scale(scale)
    a = shaped(shape, form)
    r = as_numeric_array(a, (-1, 3))
    if shape == (3, 3):
        same(r, a, 'a square array')
    else:
        same(r, np.asarray(a).T, 'an array given in columns is transposed')


def o_square_is_not_transposed(form=FORMS, scale=SCALES):
    at_scale(scale)
    a = shaped((3, 3), form)
    same(as_numeric_array(a, (-1, 3)), a, 'a square array')


def o_bad_shape(shape=((3,), (2, 4), (2, 3), (2, 2, 3)), want=((4,), (-1, 5), (3, 3), (1, 3), (-1, 3, 3), (2,)), form=('array', 'list'), scale=SCALES):
    at_scale(scale)
    ok = len(shape) == len(want) and (
        all([w in (-1, s) for w, s in zip(want, shape)]) or all([w in (-1, s) for w, s in zip(want, reversed(shape))]))
    if not ok:
        raises(ValueError, 'a wrong shape', as_numeric_array, shaped(shape, form), want)


def o_none(shape=(None, (3,), (-1, 3)), scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'None', as_numeric_array, None, shape)
    raises(ValueError, 'None, explicitly refused', as_numeric_array, None, shape, allow_none=False)
    same(as_numeric_array(None, shape, allow_none=True), None, 'None, allowed')


def o_empty(shape=(None, (-1, 3)), scale=SCALES):
    at_scale(scale)
    same(as_numeric_array([], shape, allow_none=True, empty_as_none=True), None, '[] stands for None')
    same(as_numeric_array(np.array([]), shape, allow_none=True, empty_as_none=True), None, 'an empty array stands for None')
    a = arr('a', (2, 3))
    same(as_numeric_array(a, shape, allow_none=True, empty_as_none=True), a, 'only an empty array does')
    same(as_numeric_array(a, shape, empty_as_none=True), a, 'only an empty array does')
    if shape is None:
        same(as_numeric_array([], empty_as_none=True).shape, (0,), 'nothing stands for None when that is not allowed')
        same(as_numeric_array(np.zeros((0, 3)), allow_none=True, empty_as_none=True).shape, (0, 3), 'no rows of three are not []')
    else:
        raises(ValueError, '[] where None is not allowed', as_numeric_array, [], shape, empty_as_none=True)
    if shape is not None:
        raises(ValueError, '[] where n x 3 is wanted', as_numeric_array, [], shape)
        raises(ValueError, '[] where n x 3 is wanted', as_numeric_array, [], shape, allow_none=True)


def o_not_numeric(bad=(NAN, INF, -INF), form=('array', 'list'), scale=SCALES):
    at_scale(scale)
    x = [1.0, 2.0, bad]
    if form == 'array':
        x = np.array(x)
    raises(ValueError, 'NaN or infinity', as_numeric_array, x)
    raises(ValueError, 'NaN or infinity', as_numeric_array, x, (3,))
    raises(ValueError, 'NaN or infinity', as_numeric_array, [[1.0, bad, 3.0]], (-1, 3))


def o_not_numeric_text(bad=('a', 'abc'), scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'text', as_numeric_array, [bad, bad, bad])
    raises(ValueError, 'booleans', as_numeric_array, [True, False, True])
    raises(ValueError, 'booleans', as_numeric_array, np.array([True, False, True]), (3,))


def o_dtype(scale=SCALES):
    at_scale(scale)
    r = as_numeric_array([1, 2, 3], (3,), dtype=np.float64)
    same(r, [1.0, 2.0, 3.0], 'coerced to float')
    holds(r.dtype == np.float64, 'the dtype')
    r = as_numeric_array(np.array([1.0, 2.0, 3.0]), dtype=np.uint64)
    holds(r.dtype == np.uint64, 'the dtype')


def o_scalar_predicates(s=('+', '-', '0'), scale=SCALES):
    at_scale(scale)
    x = sym('x', s)
    same(isnumeric(x), True, 'a float is numeric')
    same(isnumericscalar(x), True, 'a float is a numeric scalar')
    same(isnumericarray(x), False, 'a float is not a numeric array')
    same(isnumericscalar(np.float64(x)), True, 'a numpy float is a numeric scalar')
    i = sym('i', s, integer=True)
    same(isnumeric(i), True, 'an int is numeric')
    same(isnumericscalar(i), True, 'an int is a numeric scalar')


def o_array_predicates(form=FORMS, shape=((3,), (2, 3)), scale=SCALES):
    at_scale(scale)
    a = shaped(shape, form)
    same(isnumeric(a), True, 'an array is numeric')
    same(isnumericarray(a), True, 'an array is a numeric array')
    same(isnumericscalar(a), False, 'an array is not a numeric scalar')


def o_zero_arrays(form=('array', 'list'), scale=SCALES):
    at_scale(scale)
    a = np.zeros(3) if form == 'array' else [0, 0, 0]
    same(isnumericarray(a), True, 'zeros are numeric')
    same(isnumeric(0), True, 'zero is numeric')


def o_not_numeric_predicates(bad=(True, False, NAN, INF, -INF, 'a', None), scale=SCALES):
    at_scale(scale)
    same(isnumeric(bad), False, 'not numeric')
    same(isnumericscalar(bad), False, 'not a numeric scalar')
    same(isnumericarray(bad), False, 'not a numeric array')


def o_not_numeric_arrays(bad=(NAN, INF, -INF), scale=SCALES):
    at_scale(scale)
    same(isnumeric([1.0, bad]), False, 'a list with a bad entry')
    same(isnumericarray(np.array([[1.0, bad]])), False, 'an array with a bad entry')
    same(isnumericarray([True, False]), False, 'booleans')
    same(isnumericarray(np.array([True, False])), False, 'an array of booleans')


def o_complex(bad=(1j,), scale=SCALES):
    at_scale(scale)
    same(isnumeric(bad), False, 'a complex number')
    same(isnumericscalar(bad), False, 'a complex number')
    same(isnumericarray(np.array([bad])), False, 'an array of complex numbers')
    same(isnumericarray([1.0, bad]), False, 'a list with a complex number')


def o_empty_predicate(scale=SCALES):
    at_scale(scale)
    for x in (None, [], (), np.array([]), np.zeros((0, 3)), np.zeros((3, 0))):
        same(is_empty_arraylike(x), True, 'empty')
    for x in ([0], (0,), np.zeros(1), np.zeros((1, 3)), [None], [[]], np.array([0.0]), '', 'x', {}, 0, 0., False):
        same(is_empty_arraylike(x), False, 'not empty')


def o_round_to(n=(0.05, 0.1, 0.25, 0.5, 1.0, 2.0, 5), scale=SCALES):
    at_scale(scale)
    same(round_to(0, n), 0, 'zero')
    same(round_to(3 * n, n), 3 * n, 'a multiple')
    same(round_to(-7 * n, n), -7 * n, 'a multiple')
    same(round_to(3.3 * n, n), 3 * n, 'rounded down')
    same(round_to(3.7 * n, n), 4 * n, 'rounded up')
    same(round_to(-3.3 * n, n), -3 * n, 'rounded towards zero')
    same(round_to(-3.7 * n, n), -4 * n, 'rounded away from zero')


def o_rounded_list(scale=SCALES):
    at_scale(scale)
    same(rounded_list([1.26, None, -3.74], 1), [1.3, None, -3.7], 'rounded_list')
    same(rounded_list([1.26, None, -3.74]), [1, None, -4], 'rounded_list')
    same(rounded_list([]), [], 'rounded_list of nothing')
    same(rounded_list((0.0, None)), [0.0, None], 'rounded_list keeps zero and None')


def o_scale_to_range(n=sizes(2, 3, 4), scale=SCALES):
    at_scale(scale)
    a = np.array([0.0] + [sym('d%d' % i, '+') for i in range(n - 1)]) + sym('m')
    lo, hi = sym('lo'), sym('hi')
    before = freeze(a)
    r = scale_to_range(a, lo, hi)
    m, big = np.min(a), np.max(a)
    same(r, [lo + (hi - lo) * (x - m) / (big - m) for x in a], 'scale_to_range')
    unchanged(a, before, 'the array passed in')


def o_scale_to_range_table(shape=((2, 2), (2, 3), (3, 2), (2, 2, 2)), scale=SCALES):
    # The least and the greatest of all of it.
    at_scale(scale)
    a, lo, hi = arr('a', shape), sym('lo'), sym('hi')
    m, big = np.min(a), np.max(a)
    same(scale_to_range(a, lo, hi), lo + (a - m) * (hi - lo) / (big - m), 'scale_to_range')


def o_zero_safe_divide_large(x=(1e7, 1e13, 1e100, 1e300), s=(1, -1), how=('of', 'by')):
    # Large is not infinite.
    a, b = np.array([s * x, 3., 1.]), np.array([1., 1., 0.])
    if how == 'by':
        a, b = np.array([s * 2., 3., 1.]), np.array([2. / x, 1., 0.])
    r = zero_safe_divide(a, b, 7.0)
    same(r[0] / x, s, 'zero_safe_divide giving a large number')
    same(r[1:], [3., 7.], 'zero_safe_divide')


def o_zero_safe_divide(s=('+', '-'), d=(0.0, 7.0), scale=SCALES):
    at_scale(scale)
    a = np.array([sym('x', s), sym('y', s), 0.0, sym('z', s), 0.0])
    b = np.array([sym('p'), 0.0, 0.0, sym('q'), sym('r')])
    before = freeze((a, b))
    same(zero_safe_divide(a, b, d), [a[0] / b[0], d, d, a[3] / b[3], 0.0], 'zero_safe_divide')
    unchanged((a, b), before, 'the arrays passed in')
    same(zero_safe_divide(a, b), [a[0] / b[0], 0.0, 0.0, a[3] / b[3], 0.0], 'zero_safe_divide, default')
    same(zero_safe_divide(a, b, default_error_value=d), [a[0] / b[0], d, d, a[3] / b[3], 0.0], 'zero_safe_divide')


def o_zero_safe_divide_not_finite(s=('+', '-'), of=('a', 'b', 'both')):
    # What is replaced is a quotient which is no number, not a divisor which is zero.
    x, d = sym('x', s), 7.0
    if of == 'a':
        a, b, want = np.array([INF, -INF, NAN, x, INF, NAN]), np.array([2.0, x, 3.0, 4.0, 0.0, 0.0]), [d, d, d, x / 4.0, d, d]
    elif of == 'b':
        a, b, want = np.array([x, x, x, 0.0, 0.0]), np.array([INF, -INF, NAN, INF, NAN]), [0.0, 0.0, d, 0.0, d]
    else:
        a, b, want = np.array([INF, -INF, NAN, NAN, x]), np.array([INF, INF, NAN, INF, 2.0]), [d, d, d, d, x / 2.0]
    same(zero_safe_divide(a, b, d), want, 'zero_safe_divide')


def o_zero_safe_divide_next_to_zero(b=(1e-5, -1e-7, 1e-9, -1e-13)):
    # A small divisor is no zero.
    x = sym('x', '+')
    same(zero_safe_divide(np.array([x * b, x, b]), np.array([b, 1.0, b]), 7.0), [x, x, 1.0], 'zero_safe_divide by a small number')


def o_zero_safe_divide_ints(scale=SCALES):
    at_scale(scale)
    a, b = np.array([4, 0, 3]), np.array([2, 0, 0])
    same(zero_safe_divide(a, b, 0.5), [2.0, 0.5, 0.5], 'zero_safe_divide of ints')


def o_reshape_safe(scale=SCALES):
    at_scale(scale)
    a = arr('a', (6,))
    r = np_reshape_safe(a, (2, 3))
    same(r, [[a[0], a[1], a[2]], [a[3], a[4], a[5]]], 'np_reshape_safe')
    same(a.shape, (6,), 'the shape of the array passed in')
    r[0, 0] = 5.0
    same(a[0], 5.0, 'np_reshape_safe gives a view')
    b = arr('b', (2, 3)).T
    raises(AttributeError, 'a reshape that would copy', np_reshape_safe, b, (6,))


def o_make_readonly(scale=SCALES):
    at_scale(scale)
    a, b = arr('a', (3,)), arr('b', (2, 3))
    np_make_readonly([a, b, 3, None])
    raises(ValueError, 'writing to a read-only array', a.__setitem__, 0, 1.0)
    raises(ValueError, 'writing to a read-only array', b.__setitem__, 0, 1.0)


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    a, b = np.array([(i % 5) * k for i in range(n)]), np.array([(i % 3) * k for i in range(n)])
    want = [(i % 5) / float(i % 3) if i % 3 else 7. for i in range(n)]
    same(zero_safe_divide(a, b, 7.), want, 'zero_safe_divide of many')
    c = np.array([float(i) for i in range(n)]) * k
    same(scale_to_range(c, -1., 3.), [-1. + 4. * i / (n - 1) for i in range(n)], 'scale_to_range of many')
    d = np.array([[x, k, 2.] for x in c])
    same(as_numeric_array(d, (-1, 3)), d, 'as_numeric_array of many')
    same(as_numeric_array(d.tolist(), (-1, 3)), d, 'as_numeric_array of many')
    d[n - 1, 2] = NAN
    raises(ValueError, 'no number among many', as_numeric_array, d, (-1, 3))
    same(isnumericarray(c), True, 'isnumericarray of many')
    same(is_empty_arraylike(c), False, 'is_empty_arraylike of many')
