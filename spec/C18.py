'''CompositeTransform: forward, reverse, ranges and indices.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds, apart, svd_is
from blmath.geometry.transform import CompositeTransform
from blmath.geometry.transform.composite import convert_33_to_44, convert_44_to_33
from spec_frames import SCALES, cross, dot, length

EYE = np.eye(4)


def product(ms):
    # ms[0] applied first.
    r = EYE
    for m in ms:
        r = np.array([[sum([m[i, k] * r[k, j] for k in range(4)]) for j in range(4)] for i in range(4)])
    return r


def apply(m, points):
    return np.array([[sum([m[i, k] * p[k] for k in range(3)]) + m[i, 3] for i in range(3)] for p in points])


def affine(name):
    a = arr(name, (3, 4))
    return np.array([a[0], a[1], a[2], np.array([0.0, 0.0, 0.0, 1.0])])


def stack(n):
    t = CompositeTransform()
    fs, rs = [], []
    for i in range(n):
        f, r = affine('f%d' % i), affine('r%d' % i)
        same(t.append_transform4(f, r), i, 'the index of the new transform')
        fs.append(f)
        rs.append(r)
    return t, fs, rs


RANGES = (None, (0, 0), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (2, 2), (3, 3))


def o_matrix(n=(0, 1, 2, 3), rng=RANGES, scale=SCALES):
    at_scale(scale)
    if rng is not None and rng[1] > n:
        return
    t, fs, rs = stack(n)
    before = freeze((fs, rs))
    i, j = (0, n) if rng is None else rng
    same(t.matrix_for(from_range=rng), product(fs[i:j]), 'the forward matrix')
    same(t.matrix_for(rng, False), product(fs[i:j]), 'the forward matrix')
    same(t.matrix_for(from_range=rng, reverse=True), product(rs[i:j][::-1]), 'the reverse matrix')
    if rng is None:
        same(t.matrix_for(), product(fs), 'all transforms by default')
        same(t.matrix_for(reverse=True), product(rs[::-1]), 'all transforms by default')
    unchanged((fs, rs), before, 'the matrices')


def o_call(n=(0, 1, 2), k=sizes(1, 2), rng=RANGES, scale=SCALES):
    at_scale(scale)
    if rng is not None and rng[1] > n:
        return
    t, fs, rs = stack(n)
    p = arr('p', (k, 3))
    before = freeze((p, fs, rs))
    i, j = (0, n) if rng is None else rng
    same(t(p, from_range=rng), apply(product(fs[i:j]), p), 'points, forward')
    same(t(p, rng, True), apply(product(rs[i:j][::-1]), p), 'points, reverse')
    if rng is None:
        same(t(p), apply(product(fs), p), 'points, by default')
        same(t(p, reverse=True), apply(product(rs[::-1]), p), 'points, reverse, by default')
    unchanged((p, fs, rs), before, 'the arguments')


def o_last_row(n=(1, 2), scale=SCALES):
    # A general 4 x 4 matrix, last row and all.
    at_scale(scale)
    t = CompositeTransform()
    fs, rs = [], []
    for i in range(n):
        f, r = arr('f%d' % i, (4, 4)), arr('r%d' % i, (4, 4))
        t.append_transform4(f, r)
        fs.append(f)
        rs.append(r)
    same(t.matrix_for(), product(fs), 'the forward matrix')
    same(t.matrix_for(reverse=True), product(rs[::-1]), 'the reverse matrix')


def o_result_is_own(n=(0, 1, 2), reverse=(False, True), scale=SCALES):
    # What is returned can be written to.
    at_scale(scale)
    t, fs, rs = stack(n)
    m = t.matrix_for(reverse=reverse)
    apart(m, (fs, rs, t.transforms), 'the matrix returned')
    before = freeze((t.transforms, fs, rs))
    m[0, 0] = m[0, 0] + 5
    m *= 2
    unchanged((t.transforms, fs, rs), before, 'the transforms, after a result was written to')


def o_instances(scale=SCALES):
    at_scale(scale)
    a = CompositeTransform()
    a.scale(2)
    b = CompositeTransform()
    same(b.matrix_for(), EYE, 'a new transform does nothing')
    same(len(b.transforms), 0, 'a new transform is empty')


def reverses(t, i, msg):
    f = t.matrix_for(from_range=(i, i + 1))
    r = t.matrix_for(from_range=(i, i + 1), reverse=True)
    same(product([f, r]), EYE, msg + ': reverse undoes forward')
    same(product([r, f]), EYE, msg + ': forward undoes reverse')
    p = arr('p', (2, 3))
    same(t(t(p, (i, i + 1)), (i, i + 1), reverse=True), p, msg + ': there and back')


def diag(k):
    return [[k, 0, 0, 0], [0, k, 0, 0], [0, 0, k, 0], [0, 0, 0, 1]]


def o_scale(n=(0, 2), integer=(False, True), scale=SCALES):
    at_scale(scale)
    t, _, _ = stack(n)
    k = sym('k', '+', integer=integer)
    same(t.scale(k), n, 'the index of the new transform')
    same(t.matrix_for((n, n + 1)), diag(k), 'a scale')
    same(t.matrix_for((n, n + 1), reverse=True), diag(1.0 / k), 'a scale, in reverse')
    reverses(t, n, 'a scale')


def o_bad_scale(k=(0, 0.0), scale=SCALES):
    at_scale(scale)
    t = CompositeTransform()
    raises(ValueError, 'a scale of zero', t.scale, k)
    raises(ValueError, 'a negative scale', t.scale, sym('k', '-'))
    same(len(t.transforms), 0, 'nothing was added')


def o_translate(n=(0, 2), form=('array', 'list', 'tuple', 'int'), scale=SCALES):
    at_scale(scale)
    t, _, _ = stack(n)
    v = arr('v', (3,), integer=form == 'int')
    before = freeze(v)
    given = v.tolist() if form == 'list' else tuple(v.tolist()) if form == 'tuple' else v
    same(t.translate(given), n, 'the index of the new transform')
    want = np.array([[1, 0, 0, v[0]], [0, 1, 0, v[1]], [0, 0, 1, v[2]], [0, 0, 0, 1]])
    same(t.matrix_for((n, n + 1)), want, 'a translation')
    reverses(t, n, 'a translation')
    unchanged(v, before, 'the vector')
    if form == 'array':
        v[0] = v[0] + 1
        same(t.matrix_for((n, n + 1)), want, 'a translation, after the vector was reused')


UNITS = (('cm', 'm', 0.01), ('m', 'cm', 100), ('mm', 'm', 0.001), ('in', 'cm', 2.54), ('ft', 'in', 12), ('cm', 'cm', 1))


def o_convert_units(n=(0, 2), u=UNITS, scale=SCALES):
    at_scale(scale)
    t, _, _ = stack(n)
    a, b, k = u
    same(t.convert_units(a, b), n, 'the index of the new transform')
    same(t.matrix_for((n, n + 1)), diag(k), 'a conversion')
    same(t.convert_units(from_units=a, to_units=b), n + 1, 'the index of the new transform')
    reverses(t, n, 'a conversion')


def o_convert_bad(pair=(('cm', 'kg'), ('kg', 'g'), ('cm', 'bogus'), ('deg', 'rad')), scale=SCALES):
    at_scale(scale)
    t = CompositeTransform()
    raises((ValueError, KeyError), 'units which are not lengths', t.convert_units, pair[0], pair[1])
    same(len(t.transforms), 0, 'nothing was added')


def o_append3(n=(0, 2), scale=SCALES):
    at_scale(scale)
    t, _, _ = stack(n)
    f, r = arr('g', (3, 3)), arr('h', (3, 3))
    before = freeze((f, r))
    same(t.append_transform3(f, r), n, 'the index of the new transform')

    def pad(m):
        return [[m[0, 0], m[0, 1], m[0, 2], 0], [m[1, 0], m[1, 1], m[1, 2], 0], [m[2, 0], m[2, 1], m[2, 2], 0], [0, 0, 0, 1]]
    same(t.matrix_for((n, n + 1)), pad(f), 'the forward matrix')
    same(t.matrix_for((n, n + 1), reverse=True), pad(r), 'the reverse matrix')
    unchanged((f, r), before, 'the matrices')


def o_default_reverse(kind=('3', '4'), scale=SCALES):
    # The reverse matrix is the inverse.
    at_scale(scale)
    t = CompositeTransform()
    a, b, c = sym('a', '+'), sym('b', '+'), sym('c', '-')
    if kind == '3':
        i = t.append_transform3(np.array([[a, 0, 0], [0, b, 0], [0, 0, c]]))
    else:
        i = t.append_transform4(np.array([[a, 0, 0, 0], [0, b, 0, 0], [0, 0, c, 0], [0, 0, 0, 1.0]]))
    same(i, 0, 'the index')
    reverses(t, 0, 'an inverse')


def o_reorient(n=(0, 1), form=('array', 'list'), scale=SCALES):
    at_scale(scale)
    t, _, _ = stack(n)
    up, look = arr('u', (3,)), arr('l', (3,))
    before = freeze((up, look))
    a, b = (up, look) if form == 'array' else (up.tolist(), look.tolist())
    same(t.reorient(a, b), n, 'the index of the new transform')
    m = t.matrix_for((n, n + 1))
    r = t.matrix_for((n, n + 1), reverse=True)
    same(r, [[m[j, i] for j in range(4)] for i in range(4)], 'the reverse is the transpose')
    p = t(np.array([up]), (n, n + 1))
    same(p, [[0, length(up), 0]], 'up is along +y')
    q = t(np.array([look]), (n, n + 1))
    same(q[0, 0], 0, 'look has no x')
    unchanged((up, look), before, 'the arguments')


def o_rotate(n=(0, 1), form=('array', 'list', 'column')):
    t, _, _ = stack(n)
    v = arr('v', (3,))
    before = freeze(v)
    given = v.tolist() if form == 'list' else v.reshape((3, 1)) if form == 'column' else v
    same(t.rotate(given), n, 'the index of the new transform')
    m = t.matrix_for((n, n + 1))
    r = t.matrix_for((n, n + 1), reverse=True)
    same(r, [[m[j, i] for j in range(4)] for i in range(4)], 'the reverse is the transpose')
    same(t(np.array([v]), (n, n + 1)), [v], 'the axis is left alone')
    same(m[0, 0] + m[1, 1] + m[2, 2], 1 + 2 * np.cos(length(v)), 'the angle')
    unchanged(v, before, 'the vector')


AXES = ((0., 1., 0.), (0., 0., -1.), (2. / 3, 1. / 3, -2. / 3), (.6, -.8, 0.))


def o_nearly_nothing(e=(.03, 1e-3, 2e-5, 1e-6), sign=(1, -1), n=(0, 1)):
    # Small steps count: they add up, and they are undone.
    t, _, _ = stack(n)
    t.scale(1 + sign * e)
    same((t.matrix_for((n, n + 1))[0, 0] - 1) / e, sign, 'a small scale')
    same(t.matrix_for((n, n + 1), True), diag(1. / (1 + sign * e)), 'a small scale, in reverse')
    v = arr('v', (3,))
    t.translate(sign * e * v)
    same(t.matrix_for((n + 1, n + 2))[:3, 3] / e, sign * v, 'a small translation')
    same(t.matrix_for((n + 1, n + 2), True)[:3, 3] / e, -sign * v, 'a small translation, in reverse')
    g, h = arr('g', (3, 3)), arr('h', (3, 3))
    t.append_transform3(np.eye(3) + sign * e * g, np.eye(3) + e * h)
    same((t.matrix_for((n + 2, n + 3))[:3, :3] - np.eye(3)) / e, sign * g, 'a matrix next to the identity')
    same((t.matrix_for((n + 2, n + 3), True)[:3, :3] - np.eye(3)) / e, h, 'a matrix next to the identity, in reverse')
    p = arr('p', (2, 3))
    want = (1 + sign * e) * p + sign * e * v
    same((t(p, (n, n + 2)) - p) / e, (want - p) / e, 'points, a little off')
    same((t(p, (n, n + 2), True) - p) / e, ((p - sign * e * v) / (1 + sign * e) - p) / e, 'points, a little off, in reverse')


def o_nearly_no_rotation(u=AXES, e=(.03, 1e-3, 2e-5, 1e-6), n=(0, 1)):
    t, _, _ = stack(n)
    t.rotate(e * np.array(u))
    k = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    want = (np.sin(e) * k + (1 - np.cos(e)) * np.dot(k, k)) / e
    same((t.matrix_for((n, n + 1))[:3, :3] - np.eye(3)) / e, want, 'a small rotation')
    same((t.matrix_for((n, n + 1), True)[:3, :3] - np.eye(3)) / e, want.T, 'a small rotation, in reverse')


def o_nearly_orthogonal(u=AXES, e=(.03, 1e-3, 2e-5, 1e-6), kind=('3', '4')):
    # The reverse of a matrix which is almost a rotation is its inverse, not its transpose.
    x = np.array([u[1], u[2], u[0]])
    w = np.array(cross(np.array(u), x))
    f = np.array([np.array(u), w / length(w), cross(np.array(u), w / length(w))]) * (1 + e)
    t = CompositeTransform()
    if kind == '3':
        t.append_transform3(f)
    else:
        t.append_transform4(np.vstack([np.hstack([f, np.zeros((3, 1))]), [[0., 0., 0., 1.]]]))
    same((np.dot(t.matrix_for()[:3, :3], t.matrix_for(reverse=True)[:3, :3]) - np.eye(3)) / e, np.zeros((3, 3)), 'reverse undoes forward')


def o_wide_range(d=((1e6, 1., 1e-6), (1e-7, 1e7, 1.), (1e8, 1e8, 1e-4), (1e-9, 1e-9, 1e-9)), kind=('3', '4')):
    # A matrix which stretches one way and squeezes another has an inverse all the same.
    f = np.array([[d[0], 0., 0.], [d[0], d[1], 0.], [0., d[2], d[2]]])
    t = CompositeTransform()
    if kind == '3':
        t.append_transform3(f)
    else:
        t.append_transform4(np.vstack([np.hstack([f, np.zeros((3, 1))]), [[0., 0., 0., 1.]]]))
    same(np.dot(t.matrix_for(reverse=True), t.matrix_for()), np.eye(4), 'reverse undoes forward')


def o_33_44(bad=((3,), (3, 4), (4, 4), (2, 2), (1, 3, 3)), scale=SCALES):
    at_scale(scale)
    m = arr('m', (3, 3))
    before = freeze(m)
    x = convert_33_to_44(m)
    same(x, [[m[0, 0], m[0, 1], m[0, 2], 0], [m[1, 0], m[1, 1], m[1, 2], 0], [m[2, 0], m[2, 1], m[2, 2], 0], [0, 0, 0, 1]], 'convert_33_to_44')
    same(convert_44_to_33(x), m, 'convert_44_to_33')
    unchanged(m, before, 'the matrix')
    raises(ValueError, 'a matrix of a wrong shape', convert_33_to_44, arr('b', bad))
    if bad != (4, 4):
        raises(ValueError, 'a matrix of a wrong shape', convert_44_to_33, arr('b', bad))
    raises(ValueError, 'a matrix of a wrong shape', convert_44_to_33, m)
    t = CompositeTransform()
    raises(ValueError, 'a matrix of a wrong shape', t.append_transform3, arr('b', bad))


def o_sequence(rng=RANGES, scale=SCALES):
    # Named transforms, in order.
    at_scale(scale)
    t = CompositeTransform()
    k, v, c = sym('k', '+'), arr('v', (3,)), sym('c', '+')
    same([t.scale(k), t.translate(v), t.scale(c)], [0, 1, 2], 'the indices')
    p = arr('p', (2, 3))
    steps = [lambda x: k * x, lambda x: x + v, lambda x: c * x]
    back = [lambda x: x / k, lambda x: x - v, lambda x: x / c]
    i, j = (0, 3) if rng is None else rng
    want = p
    for s in steps[i:j]:
        want = s(want)
    same(t(p, from_range=rng), want, 'in order')
    same(t(want, from_range=rng, reverse=True), p, 'there and back')
    want = p
    for s in back[i:j][::-1]:
        want = s(want)
    same(t(p, from_range=rng, reverse=True), want, 'in reverse')


def o_back_to_33(scale=SCALES):
    at_scale(scale)
    m = arr('m', (4, 4))
    before = freeze(m)
    same(convert_44_to_33(m), [[m[i, j] for j in range(3)] for i in range(3)], 'the upper left of the matrix')
    unchanged(m, before, 'the matrix')


def o_projective(e=(1., 1e-2), reverse=('given', 'default')):
    # Any matrix with an inverse, also when its last row is not the usual one.
    m = np.array([[2., 0., 0., 1.], [0., 1., 0., 0.], [0., 0., 4., -2.], [e, 0., -e, 2.]])
    t = CompositeTransform()
    same(t.append_transform4(m) if reverse == 'default' else t.append_transform4(m, np.linalg.inv(m)), 0, 'the index')
    same(t.matrix_for(), m, 'the matrix')
    same(np.dot(t.matrix_for(reverse=True), m), np.eye(4), 'the reverse is the inverse')
    t.translate(np.array([1., 2., 3.]))
    same(np.dot(t.matrix_for(reverse=True), t.matrix_for()), np.eye(4), 'the reverse is the inverse')


def o_rotate_stretched(n=(0, 1), form=('array', 'list')):
    # Stretched a little, a matrix stands for the rotation nearest to it.
    h = sym('h', '+')
    c, s = (1 - h * h) / (1 + h * h), 2 * h / (1 + h * h)
    R = np.array([[c, -s, 0.], [s, c, 0.], [0., 0., 1.]])
    k = np.array([sym('k%d' % i, '+') for i in range(3)])
    m = np.dot(R, np.diag(k))
    svd_is(R, k, np.eye(3))
    t = CompositeTransform()
    if n:
        t.translate(arr('d', (3,)))
    given = m.tolist() if form == 'list' else m
    before = freeze(given)
    t.rotate(given)
    unchanged(given, before, 'the matrix')
    same(t.matrix_for((n, n + 1))[:3, :3], R, 'the nearest rotation')
    same(np.dot(t.matrix_for(reverse=True), t.matrix_for()), np.eye(4), 'the reverse is the inverse')


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    t = CompositeTransform()
    t.scale(2.)
    t.translate(np.array([0., k, 1.]))
    p = np.array([[i * k, -k, float(i)] for i in range(n)])
    q = np.array([[2. * i * k, -k, 2. * i + 1.] for i in range(n)])
    same(t(p), q, 'many points')
    same(t(q, reverse=True), p, 'many points, in reverse')
    same(t(p, from_range=(0, 1)), 2. * p, 'many points, by the first')
    same(t(p, from_range=(1, 2), reverse=True), p - np.array([0., k, 1.]), 'many points, back by the last')
