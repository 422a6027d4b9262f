'''vx: a stack of vectors gives, row by row, what the single vector gives.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds
from spec_frames import SCALES, NEXT_TO
from blmath.numerics import vx


def norm(v):
    return (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) ** 0.5


def o_normalize(k=sizes(1, 2, 3, 4), integer=(False, True), scale=SCALES):
    at_scale(scale)
    a = arr('a', (k, 3), integer=integer)
    before = freeze(a)
    r = vx.normalize(a)
    same(r.shape, (k, 3), 'shape')
    same(r, [[x / norm(v) for x in v] for v in a], 'normalize, stacked')
    for i in range(k):
        same(vx.normalize(a[i]), r[i], 'normalize, single and stacked')
    unchanged(a, before, 'the vectors passed in')


def o_magnitude(k=sizes(1, 2, 3, 4), integer=(False, True), scale=SCALES):
    at_scale(scale)
    a = arr('a', (k, 3), integer=integer)
    r = vx.magnitude(a)
    same(r.shape, (k,), 'shape')
    same(r, [norm(v) for v in a], 'magnitude, stacked')
    for i in range(k):
        same(vx.magnitude(a[i]), r[i], 'magnitude, single and stacked')


def o_proj(k=sizes(1, 2, 3, 4), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', (k, 3)), arr('b', (3,))
    before = freeze((a, b))
    s, p, q = vx.sproj(a, onto=b), vx.proj(a, onto=b), vx.reject(a, from_v=b)
    same(s.shape, (k,), 'shape')
    same((p.shape, q.shape), ((k, 3), (k, 3)), 'shape')
    for i in range(k):
        d = a[i][0] * b[0] + a[i][1] * b[1] + a[i][2] * b[2]
        n2 = b[0] * b[0] + b[1] * b[1] + b[2] * b[2]
        same(s[i], d / norm(b), 'sproj')
        same(p[i], [d * x / n2 for x in b], 'proj')
        same(q[i], [a[i][j] - d * b[j] / n2 for j in range(3)], 'reject')
        same(vx.sproj(a[i], onto=b), s[i], 'sproj, single and stacked')
        same(vx.proj(a[i], onto=b), p[i], 'proj, single and stacked')
        same(vx.reject(a[i], from_v=b), q[i], 'reject, single and stacked')
    unchanged((a, b), before, 'the vectors passed in')


def o_nearly(which=('rows', 'onto'), small=(1, 1e-5, 1e-9, 1e-14), b=NEXT_TO):
    # Rows almost of length one, and small ones among others.
    x = arr('a', (3,))
    a = np.array([x, np.array(b), small * x, small * np.array(b), np.array(NEXT_TO[3])])
    b = np.array(b) if which == 'onto' else arr('b', (3,))
    scale = [1., 1., small, small, 1.]
    n, m, s, p, q = vx.normalize(a), vx.magnitude(a), vx.sproj(a, onto=b), vx.proj(a, onto=b), vx.reject(a, from_v=b)
    for i in range(len(a)):
        v, k = a[i], scale[i]
        same(n[i], v / norm(v), 'normalize, stacked')
        same(n[i] * 1e5, vx.normalize(v) * 1e5, 'normalize, single and stacked')
        same(m[i] / k, norm(v) / k, 'magnitude, stacked')
        same(vx.magnitude(v) / k, norm(v) / k, 'magnitude, single')
        d = v[0] * b[0] + v[1] * b[1] + v[2] * b[2]
        n2 = b[0] * b[0] + b[1] * b[1] + b[2] * b[2]
        same(s[i] / k, d / norm(b) / k, 'sproj')
        same(p[i] / k, [d * x / n2 / k for x in b], 'proj')
        same(q[i] / k, [(v[j] - d * b[j] / n2) / k for j in range(3)], 'reject')
        same(vx.proj(v, onto=b) / k, p[i] / k, 'proj, single and stacked')
        same(vx.reject(v, from_v=b) / k, q[i] / k, 'reject, single and stacked')


def o_small_components(k=(1, 2, 3), axis=(0, 1, 2), small=(1e-5, 1e-9, 1e-14)):
    # A small component is no zero.
    a = arr('a', (k, 3))
    e = np.array([1., 1., 1.])
    e[(axis + 1) % 3] = small
    r = vx.reject_axis(a * e, axis=axis)
    same(r / e, [[0 if j == axis else v[j] for j in range(3)] for v in a], 'reject_axis')
    r = vx.reject_axis(a * e, axis=axis, squash=True)
    same(r / np.delete(e, axis), [[v[j] for j in range(3) if j != axis] for v in a], 'reject_axis, squashed')
    same(vx.pad_with_ones(a * e)[:, :3] / e, a, 'pad_with_ones')
    same(vx.unpad(vx.pad_with_ones(a * e)) / e, a, 'unpad')


def alike(got, want, msg):
    # The same numbers, and none at the same places.
    none = [bool(x) for x in np.isnan(got).ravel()]
    same([bool(x) for x in np.isnan(want).ravel()], none, msg + ': which are no numbers')
    same([x for x, n in zip(np.ravel(got), none) if not n], [x for x, n in zip(np.ravel(want), none) if not n], msg)


def o_zero_rows(at=((0,), (1,), (0, 2), (0, 1, 2)), onto=(False, True)):
    # Also a row of zeros is what it is alone.
    a = arr('a', (3, 3))
    for i in at:
        a[i] = 0.
    b = np.zeros(3) if onto else arr('b', (3,))
    r, m, p, s, q = vx.normalize(a), vx.magnitude(a), vx.proj(a, onto=b), vx.sproj(a, onto=b), vx.reject(a, from_v=b)
    for i in range(3):
        alike(vx.normalize(a[i]), r[i], 'normalize, single and stacked')
        alike(vx.magnitude(a[i]), m[i], 'magnitude, single and stacked')
        alike(vx.proj(a[i], onto=b), p[i], 'proj, single and stacked')
        alike(vx.sproj(a[i], onto=b), s[i], 'sproj, single and stacked')
        alike(vx.reject(a[i], from_v=b), q[i], 'reject, single and stacked')


def o_unpad_ones_on_average(e=(.5, 1e-3, 3.), k=(2, 3)):
    a = arr('a', (k, 4))
    a[:, 3] = 1.
    a[0, 3], a[k - 1, 3] = 1. + e, 1. - e
    raises(ValueError, 'unpad of a last column that is not ones', vx.unpad, a)
    a[0, 3], a[k - 1, 3] = 2., .5
    raises(ValueError, 'unpad of a last column that is not ones', vx.unpad, a)
    a[:, 3] = -1.
    raises(ValueError, 'unpad of a last column that is not ones', vx.unpad, a)


def o_unpad_nearly_ones(at=(0, 1), e=(1e-3, -1e-2, .5, 1e-5, -1e-7, 1e-9)):
    a = arr('a', (2, 4))
    a[:, 3] = 1.
    a[at, 3] = 1. + e
    raises(ValueError, 'unpad of a last column that is not ones', vx.unpad, a)


def o_reject_axis(k=sizes(1, 2, 3, 4), axis=(0, 1, 2), integer=(False, True), scale=SCALES):
    at_scale(scale)
    a = arr('a', (k, 3), integer=integer)
    before = freeze(a)
    r = vx.reject_axis(a, axis=axis)
    same(r, [[0 if j == axis else v[j] for j in range(3)] for v in a], 'reject_axis')
    q = vx.reject_axis(a, axis=axis, squash=True)
    same(q, [[v[j] for j in range(3) if j != axis] for v in a], 'reject_axis, squashed')
    for i in range(k):
        same(vx.reject_axis(a[i], axis=axis), r[i], 'reject_axis, single and stacked')
        same(vx.reject_axis(a[i], axis, True), q[i], 'reject_axis, single and stacked, squashed')
    unchanged(a, before, 'the vectors passed in')


def o_bad_axis(axis=(3, -4, 5, 'x', None), k=(1, 3), scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'a wrong axis, squashed', vx.reject_axis, arr('a', (k, 3)), axis, squash=True)
    raises(ValueError, 'a wrong axis, squashed', vx.reject_axis, arr('a', (3,)), axis, squash=True)


def o_bad_ndim(shape=((2, 2, 3), (1, 1, 3), ()), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', shape), arr('b', (3,))
    raises(ValueError, 'normalize of a wrong number of dimensions', vx.normalize, a)
    raises(ValueError, 'magnitude of a wrong number of dimensions', vx.magnitude, a)
    raises(ValueError, 'proj of a wrong number of dimensions', vx.proj, a, onto=b)
    raises(ValueError, 'reject of a wrong number of dimensions', vx.reject, a, from_v=b)
    raises(ValueError, 'reject_axis of a wrong number of dimensions', vx.reject_axis, a, axis=1)
    raises(ValueError, 'reject_axis of a wrong number of dimensions', vx.reject_axis, a, axis=1, squash=True)


def o_pad(k=sizes(0, 1, 2, 4), integer=(False, True), scale=SCALES):
    at_scale(scale)
    a = arr('a', (k, 3), integer=integer)
    before = freeze(a)
    p = vx.pad_with_ones(a)
    same(p.shape, (k, 4), 'shape')
    same(p, np.array([[v[0], v[1], v[2], 1] for v in a]).reshape(k, 4), 'pad_with_ones')
    same(vx.unpad(p), a, 'unpad after pad_with_ones')
    unchanged(a, before, 'the vectors passed in')


def o_bad_pad(shape=((3,), (2, 2), (2, 4), (2, 3, 3), (4, 2)), scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'pad_with_ones of something else than n x 3', vx.pad_with_ones, arr('a', shape))


def o_bad_unpad(shape=((4,), (2, 2), (2, 3), (2, 4, 4), (3, 5)), scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'unpad of something else than n x 4', vx.unpad, arr('a', shape))


def o_unpad_not_ones(k=(1, 2, 3), at=(0, 1, 2), scale=SCALES):
    at_scale(scale)
    if at < k:
        a = arr('a', (k, 4))
        a[:, 3] = 1.0
        a[at, 3] = sym('w')
        raises(ValueError, 'unpad of a last column that is not ones', vx.unpad, a)


def o_homogeneous(k=sizes(1, 2, 3), scale=SCALES):
    at_scale(scale)
    a, m = arr('a', (k, 3)), arr('m', (4, 4))
    m[3] = [0.0, 0.0, 0.0, 1.0]
    before = freeze((a, m))
    r = vx.apply_homogeneous(a, m)
    same(r, [[m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] + m[i][3] for i in range(3)] for v in a], 'apply_homogeneous')
    unchanged((a, m), before, 'the arguments')
    for i in range(k):
        same(vx.apply_homogeneous(a[i:i + 1], m), r[i:i + 1], 'apply_homogeneous, one at a time')


def o_bad_homogeneous(scale=SCALES):
    at_scale(scale)
    m, a = arr('m', (4, 4)), arr('a', (2, 3))
    m[3] = [0.0, 0.0, 0.0, 1.0]
    for s in ((3,), (2, 2), (2, 4)):
        raises(ValueError, 'vertices of a wrong shape', vx.apply_homogeneous, arr('b', s), m)
    for s in ((3, 3), (3, 4), (4,), (5, 5)):
        raises(ValueError, 'a transform of a wrong shape', vx.apply_homogeneous, a, arr('n', s))
    raises(ValueError, 'a transform that is not affine', vx.apply_homogeneous, a, arr('n', (4, 4)))


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    a = np.array([[float(i % 7), 1. + i % 3, 2.] for i in range(n)]) * sym('k', '+', pure=True)
    want = [norm(v) for v in a]
    same(vx.magnitude(a), want, 'magnitude of many')
    same(vx.normalize(a), [[x / y for x in v] for v, y in zip(a, want)], 'normalize many')
    same(vx.sproj(a, onto=np.array([0., 0., 2.])), [v[2] for v in a], 'sproj of many')
    same(vx.proj(a, onto=np.array([0., 0., 2.])), [[0., 0., v[2]] for v in a], 'proj of many')
    same(vx.reject(a, from_v=np.array([0., 0., 2.])), [[v[0], v[1], 0.] for v in a], 'reject of many')
    same(vx.unpad(vx.pad_with_ones(a)), a, 'pad and unpad many')
    m = np.array([[2., 0., 0., 1.], [0., 0., 3., -2.], [0., 1., 0., 5.], [0., 0., 0., 1.]])
    same(vx.apply_homogeneous(a, m), [[2. * v[0] + 1., 3. * v[2] - 2., v[1] + 5.] for v in a], 'apply_homogeneous to many')
