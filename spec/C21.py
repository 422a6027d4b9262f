'''Rotations, translations and rigid alignments.'''
import chumpy as ch
import numpy as np
from sa import at_scale, slips, sizes, sym, arr, same, near, raises, freeze, unchanged, holds, apart, derivative, svd_is, svd_of
from sklearn.decomposition import PCA
from spec_frames import SCALES, FRAMES, frame
from blmath.geometry.transform import rotation
from blmath.geometry.transform.rotation import rotation_from_up_and_look, euler, rotate_to_xz_plane
from blmath.geometry.transform.rodrigues import Rodrigues, rodrigues, as_rotation_matrix
from blmath.geometry.transform.translation import translation
from blmath.geometry.transform.rigid_transform import find_rigid_transform, find_rigid_rotation


def unit(name):
    '''Any unit vector (but one): the inverse of a stereographic projection.'''
    a, b = sym(name + '0'), sym(name + '1')
    d = 1 + a * a + b * b
    return np.array([2 * a / d, 2 * b / d, (1 - a * a - b * b) / d])


def skew(u):
    return np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])


def about(u, c, s):
    '''The rotation about the unit vector u by the angle with the given cosine and sine.'''
    k = skew(u)
    return np.eye(3) + s * k + (1 - c) * np.dot(k, k)


def some_rotation(name):
    '''Any rotation: of a unit quaternion.'''
    w, x, y, z = sym(name + 'w', '+'), sym(name + 'x'), sym(name + 'y'), sym(name + 'z')
    n = w * w + x * x + y * y + z * z
    return np.array([
        [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]) / n


# --- up and look

UPS = ('any', (0., 1., 0.), (0., 0., 2.), (-3., 0., 0.))


def o_up_and_look(how=('array', 'list', 'tuple'), up=UPS, look=('any', 'x', 'xy'), scale=SCALES):
    at_scale(scale)
    u = arr('u', (3,)) if up == 'any' else np.array(up)
    l = arr('l', (3,))
    if look == 'x':
        l = np.array([sym('l'), 0., sym('m')])
    elif look == 'xy':
        l = np.array([sym('l'), sym('m'), 0.])
    a, b = (u, l) if how == 'array' else (u.tolist(), l.tolist()) if how == 'list' else (tuple(u.tolist()), tuple(l.tolist()))
    before = freeze((a, b))
    R = rotation_from_up_and_look(a, b)
    unchanged((a, b), before, 'up and look')
    holds(isinstance(R, np.ndarray), 'a matrix')
    same(R.shape, (3, 3), 'a 3x3 matrix')
    same(np.dot(R, R.T), np.eye(3), 'the rows are orthonormal')
    same(np.linalg.det(R), 1., 'a rotation, not a reflection')
    same(np.dot(R, u), np.array([0., np.linalg.norm(u), 0.]), 'up goes to +y')
    same(np.dot(R, l)[0], 0., 'look has no x')
    holds(np.dot(R, l)[2] > 0, 'look is towards +z')
    same(np.dot(R, l)[1], np.dot(u, l) / np.linalg.norm(u), 'look keeps its part along up')


def o_up_and_look_singular(up=((0., 0., 0.), (0., 2., 0.), (1., 0., 0.)), look=((0., 0., 0.), (0., 3., 0.), (-2., 0., 0.)), how=('array', 'list')):
    s = up[0] * look[1] - up[1] * look[0]
    if up == (0., 0., 0.) or look == (0., 0., 0.) or s == 0:
        a, b = (np.array(up), np.array(look)) if how == 'array' else (list(up), list(look))
        raises(ValueError, 'up or look is zero, or they are colinear', rotation_from_up_and_look, a, b)


def o_up_and_look_colinear(up=('any', (0., 1., 0.), (.6, 0., -.8)), k=('+', '-'), rounding=(None, 'zeros'), scale=SCALES):
    # Rounding keeps what should cancel from vanishing.
    at_scale(scale)
    u = arr('u', (3,)) if up == 'any' else sym('s', '+') * np.array(up)
    look = sym('k', k, pure=True) * u
    slips(rounding)
    raises(ValueError, 'up and look are colinear', rotation_from_up_and_look, u, look)


def o_up_and_look_frames(i=FRAMES, c=(0., 1., -1., 5., -.5, 1000.), how=('array', 'list'), scale=SCALES):
    at_scale(scale)
    f, g, h = frame(i)
    a, b = sym('a', '+'), sym('b', '+')
    u, l = a * f, b * (c * f + g)
    R = rotation_from_up_and_look(u, l) if how == 'array' else rotation_from_up_and_look(u.tolist(), l.tolist())
    same(R, np.array([np.cross(f, g), f, g]), 'right, up and look')


def o_up_and_look_almost_colinear(i=(0, 1, 2), c=(1., -1., 5.), e=(1e-2, 1e-4, 1e-6, 1e-8), how=('array', 'list')):
    # Almost, not quite: there still is one rotation.
    f, g, h = frame(i)
    a, b = sym('a', '+'), sym('b', '+')
    u, l = a * f, b * (c * f + e * g)
    R = rotation_from_up_and_look(u, l) if how == 'array' else rotation_from_up_and_look(u.tolist(), l.tolist())
    same(R, np.array([np.cross(f, g), f, g]), 'right, up and look')


def o_up_and_look_ints(how=('array', 'list')):
    u, l = [0, 2, 0], [3, 4, 0]
    if how == 'array':
        u, l = np.array(u), np.array(l)
    same(rotation_from_up_and_look(u, l), np.array([[0., 0., -1.], [0., 1., 0.], [1., 0., 0.]]), 'of integers')


# --- euler

def turn(axis, t):
    c, s = np.cos(t), np.sin(t)
    if axis == 'x':
        return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
    if axis == 'y':
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def o_euler(order=('xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx', 'zxz', 'xy', 'z', None), units=('deg', 'rad', None), how=('list', 'array', 'tuple'), scale=SCALES):
    at_scale(scale)
    o = order if order is not None else 'xyz'
    ts = [sym('t%d' % i) for i in range(len(o))]
    xyz = ts if how == 'list' else np.array(ts) if how == 'array' else tuple(ts)
    before = freeze(xyz)
    kw = {}
    if order is not None:
        kw['order'] = order
    if units is not None:
        kw['units'] = units
    R = euler(xyz, **kw)
    unchanged(xyz, before, 'the angles')
    want = np.eye(3)
    for t, axis in zip(ts, o):
        want = np.dot(turn(axis, t * np.pi / 180. if units != 'rad' else t), want)
    same(R, want, 'the rotations about each axis, the first one first')
    if len(o) < 3:
        same(np.dot(R, R.T), np.eye(3), 'a rotation')


def o_euler_scalar(axis=('x', 'y', 'z'), units=('deg', 'rad'), s=('?', '0'), scale=SCALES):
    at_scale(scale)
    t = sym('t', s)
    same(euler(t, order=axis, units=units), turn(axis, t * np.pi / 180. if units == 'deg' else t), 'a single angle')
    same(euler(t, axis, units), turn(axis, t * np.pi / 180. if units == 'deg' else t), 'a single angle')


def o_euler_right_angles(axis=('x', 'y', 'z')):
    v = np.array([[0., 1., 0.], [0., 0., 1.], [1., 0., 0.]])
    for_axis = {'x': ([0, 1, 0], [0, 0, 1]), 'y': ([0, 0, 1], [1, 0, 0]), 'z': ([1, 0, 0], [0, 1, 0])}
    a, b = for_axis[axis]
    same(np.dot(euler([90], order=axis), np.array(a)), np.array(b), 'a right angle takes each axis to the next')
    same(np.dot(euler(90, order=axis), np.array(a)), np.array(b), 'a right angle takes each axis to the next')


# --- rodrigues

SHAPES = ((3,), (1, 3), (3, 1))


def shaped(v, shape, how):
    v = v.reshape(shape)
    return v.tolist() if how == 'list' else v


def o_rodrigues(shape=SHAPES, how=('array', 'list'), jacobian=(False, True)):
    u, t = unit('u'), sym('t', '+')
    r = shaped(t * u, shape, how)
    before = freeze(r)
    R = rodrigues(r, calculate_jacobian=True)[0] if jacobian else rodrigues(r)
    unchanged(r, before, 'the vector')
    same(R.shape, (3, 3), 'a 3x3 matrix')
    same(R, about(u, np.cos(t), np.sin(t)), 'the rotation about the vector by its length')


def o_rodrigues_properties(shape=SHAPES):
    r = arr('r', (3,))
    R = rodrigues(r.reshape(shape))
    same(np.dot(R, r), r, 'the vector is the axis')
    same(np.dot(R, R.T), np.eye(3), 'a rotation')
    same(np.trace(R), 1 + 2 * np.cos(np.linalg.norm(r)), 'the angle is the length')
    same(rodrigues(-r), R.T, 'the opposite vector gives the inverse')
    if shape == (3,):
        same(as_rotation_matrix(r), R, 'as_rotation_matrix')
    else:
        same(as_rotation_matrix(r.reshape(shape)), R, 'as_rotation_matrix')


def o_rodrigues_axis(axis=(0, 1, 2), s=('+', '-')):
    r = np.zeros(3)
    t = sym('t', s)
    r[axis] = t
    R = rodrigues(r)
    same(R, turn('xyz'[axis], t), 'about a coordinate axis')
    same(euler([t], order='xyz'[axis], units='rad'), R, 'as euler')


def o_rodrigues_zero(shape=SHAPES, how=('array', 'list'), jacobian=(False, True)):
    r = shaped(np.zeros(3), shape, how)
    if jacobian:
        R, J = rodrigues(r, True)
        same(R, np.eye(3), 'no rotation')
        want = np.zeros((3, 9))
        for i in range(3):
            e = np.zeros(3)
            e[i] = 1
            want[i] = skew(e).ravel()
        same(J, want, 'the jacobian at no rotation')
    else:
        same(rodrigues(r), np.eye(3), 'no rotation')
        same(as_rotation_matrix(np.array(r)), np.eye(3), 'no rotation')


def o_rodrigues_small(u=((0., 1., 0.), (0., 0., -1.), (2. / 3, 1. / 3, -2. / 3), (.6, -.8, 0.)), t=(.03, 1e-3, 4e-5, 1e-7, 1e-11, 1e-15), shape=SHAPES, of=('rodrigues', 'as_rotation_matrix')):
    # A small rotation is no identity.
    u = np.array(u)
    r = t * u
    R = rodrigues(r.reshape(shape)) if of == 'rodrigues' else as_rotation_matrix(r.reshape(shape))
    same(R / t, about(u, np.cos(t), np.sin(t)) / t, 'a small rotation')


def o_rodrigues_jacobian(shape=SHAPES, wrt=(0, 1, 2)):
    r = arr('r', (3,))
    R, J = rodrigues(r.reshape(shape), calculate_jacobian=True)
    same(J.shape, (3, 9), 'three rows')
    same(J[wrt], derivative(R, r[wrt]).ravel(), 'the jacobian is the derivative of the matrix by each component')


def o_rodrigues_differentiable(shape=SHAPES, zero=(False, True)):
    r = np.zeros(3) if zero else arr('r', (3,))
    x = ch.Ch(r.reshape(shape))
    m = Rodrigues(rt=x)
    R, J = rodrigues(r, True)
    same(m.r, R, 'the matrix')
    same(m.dr_wrt(x), J.T, 'the jacobian')
    same(m.dr_wrt(ch.Ch(r)), None, 'does not depend on anything else')


def o_rodrigues_differentiable_set(ask=('r', 'dr', 'both', 'nothing'), how=('inside', 'anew')):
    r, s = arr('r', (3,)), arr('s', (3,))
    x = ch.Ch(r)
    m = Rodrigues(rt=x)
    if ask in ('r', 'both'):
        m.r
    if ask in ('dr', 'both'):
        m.dr_wrt(x)
    if how == 'inside':
        x.x = s
    else:
        x = ch.Ch(s)
        m.rt = x
    R, J = rodrigues(s, True)
    same(m.r, R, 'the matrix, after the vector is set')
    same(m.dr_wrt(x), J.T, 'the jacobian, after the vector is set')


def o_rodrigues_shape(shape=((2,), (4,), (2, 3), (3, 2), (4, 4), (1, 1))):
    raises(Exception, 'not a vector or a matrix', rodrigues, arr('r', shape))
    raises(Exception, 'not a vector or a matrix', as_rotation_matrix, arr('r', shape))


def by_half_angle():
    '''A unit vector, and the cosine and sine of an angle above 0 and under pi.'''
    h = sym('h', '+')
    return unit('u'), (1 - h * h) / (1 + h * h), 2 * h / (1 + h * h)


def o_rodrigues_inverse(how=('array', 'list'), scale=SCALES):
    at_scale(scale)
    u, c, s = by_half_angle()
    R = about(u, c, s)
    svd_is(R, np.ones(3), np.eye(3))
    given = R.tolist() if how == 'list' else R
    before = freeze(given)
    r = rodrigues(given)
    unchanged(given, before, 'the matrix')
    same(svd_of()[0], R, 'what is decomposed')
    same(r.shape, (3, 1), 'a column')
    same(r.ravel(), u * np.arccos(c), 'the axis times the angle')


def o_rodrigues_inverse_small(u=((0., 1., 0.), (0., 0., -1.), (2. / 3, 1. / 3, -2. / 3), (.6, -.8, 0.)), t=(.03, 1e-3, 4e-5), turn=(0, 1)):
    # Small rotations, and those of nearly half a turn, have an axis.
    u, t = np.array(u), np.pi - t if turn else t
    R = about(u, np.cos(t), np.sin(t))
    svd_is(R, np.ones(3), np.eye(3))
    near(rodrigues(R).ravel() / t, u, 'the axis')


def o_rodrigues_inverse_other_factors():
    # The factors of an orthogonal matrix are not unique; what they make is.
    u, c, s = by_half_angle()
    R = about(u, c, s)
    Q = np.array([[0., 1., 0.], [0., 0., 1.], [1., 0., 0.]])
    svd_is(np.dot(R, Q), np.ones(3), Q.T)
    same(rodrigues(R).ravel(), u * np.arccos(c), 'the axis times the angle')


def o_rodrigues_inverse_identity(jacobian=(False, True)):
    svd_is(np.eye(3), np.ones(3), np.eye(3))
    r = rodrigues(np.eye(3), jacobian)
    same(r[0] if jacobian else r, np.zeros((3, 1)), 'no rotation')


HALF = ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (.6, .8, 0.), (.6, -.8, 0.), (.6, 0., .8), (.6, 0., -.8), (0., .6, .8), (0., .6, -.8),
        (1. / 3, 2. / 3, 2. / 3), (1. / 3, -2. / 3, 2. / 3), (1. / 3, 2. / 3, -2. / 3), (1. / 3, -2. / 3, -2. / 3))


def o_rodrigues_inverse_half_turn(u=HALF):
    u = np.array(u)
    R = about(u, -1., 0.)
    svd_is(R, np.ones(3), np.eye(3))
    r = rodrigues(R).ravel()
    same(np.linalg.norm(r), np.pi, 'half a turn')
    same(np.outer(r, r), np.pi ** 2 * np.outer(u, u), 'about the axis, either way')


def o_rodrigues_inverse_half_turn_rounded(axis=(0, 1, 2), past=((0, 0, 0), (1, 1, 1), (1, -1, 1), (-1, 1, 1)), sign=(1., -1.)):
    # The diagonal comes out a rounding error off.
    u = np.zeros(3)
    u[axis] = sign
    R = about(u, -1., 0.) + np.diag(np.array(past) * -1e-16)
    svd_is(R, np.ones(3), np.eye(3))
    r = rodrigues(R).ravel()
    near(np.outer(r, r), np.pi ** 2 * np.outer(u, u), 'half a turn about the axis, either way')


def o_rodrigues_inverse_identity_rounded(past=((1, 1, 1), (1, 0, 0), (-1, -1, -1), (0, -1, 1))):
    R = np.eye(3) + np.diag(np.array(past) * 1e-16)
    svd_is(R, np.ones(3), np.eye(3))
    near(rodrigues(R), np.zeros((3, 1)), 'no rotation')


def o_rodrigues_inverse_jacobian(how=('positional', 'keyword')):
    # One undoes the other, and so do their jacobians.
    u, c, s = by_half_angle()
    R = about(u, c, s)
    svd_is(R, np.ones(3), np.eye(3))
    r, J = rodrigues(R, True) if how == 'positional' else rodrigues(R, calculate_jacobian=True)
    same(r.ravel(), u * np.arccos(c), 'the axis times the angle')
    same(J.shape, (9, 3), 'three columns')
    same(np.dot(rodrigues(r, True)[1], J), np.eye(3), 'the jacobians are inverse')


def o_rodrigues_inverse_jacobian_exact():
    # The axis is (m21 - m12, m02 - m20, m10 - m01) / (2 sin), times the angle, whose cosine is (trace - 1) / 2.
    u, c, s = by_half_angle()
    R = about(u, c, s)
    svd_is(R, np.ones(3), np.eye(3))
    J = rodrigues(R, True)[1]
    t = np.arccos(c)
    for i in range(3):
        e = np.zeros(3)
        e[i] = 1
        same(J[:, i], (t / (2 * s) * skew(e) - u[i] * (s - t * c) / (2 * s * s) * np.eye(3)).ravel(), 'the derivative by the entries of the matrix')


def o_rodrigues_inverse_jacobian_identity():
    svd_is(np.eye(3), np.ones(3), np.eye(3))
    r, J = rodrigues(np.eye(3), True)
    same(J.shape, (9, 3), 'three columns')
    same(np.dot(rodrigues(np.zeros(3), True)[1], J), np.eye(3), 'the jacobians are inverse')


def o_rotation_matrix_again():
    u, c, s = by_half_angle()
    R = about(u, c, s)
    svd_is(R, np.ones(3), np.eye(3))
    before = freeze(R)
    same(as_rotation_matrix(R), R, 'a rotation matrix stays as it is')
    unchanged(R, before, 'the matrix')


def o_nearly_a_rotation(of=('rodrigues', 'as_rotation_matrix')):
    # Stretched a little: it stands for the rotation nearest to it.
    u, c, s = by_half_angle()
    R = about(u, c, s)
    k = np.array([sym('k%d' % i, '+') for i in range(3)])
    M = np.dot(R, np.diag(k))
    svd_is(R, k, np.eye(3))
    before = freeze(M)
    if of == 'rodrigues':
        same(rodrigues(M).ravel(), u * np.arccos(c), 'the axis times the angle of the nearest rotation')
    else:
        same(as_rotation_matrix(M), R, 'the nearest rotation')
    unchanged(M, before, 'the matrix')
    same(svd_of()[0], M, 'what is decomposed')


# --- into the x-z plane

def o_xz(n=sizes(3, 4), normal=('any', 'given'), how=('keyword', 'positional')):
    p = arr('p', (n, 3))
    v = unit('v')
    before = freeze((p, v))
    r, R, p0 = rotate_to_xz_plane(p, v) if how == 'positional' else rotate_to_xz_plane(p, normal=v)
    unchanged((p, v), before, 'the points and the normal')
    same(p0, -np.mean(p, axis=0), 'the translation')
    same(np.dot(R, v), np.array([0., 1., 0.]), 'the normal goes to +y')
    same(R[1], v, 'the matrix is orthogonal: what goes to +y')
    same(r, np.dot(p + p0, R.T), 'the points, centered and rotated')


def o_xz_axes(normal=((0., 1., 0.), (0., -1., 0.), (1., 0., 0.), (0., 0., -1.), (.6, 0., .8), (0., .6, .8)), centered=(False, True)):
    v = np.array(normal)
    if centered:
        a, b = sym('a', '+'), sym('b', '+')
        p = np.array([[a, b, 0.], [-a, b, 0.], [0., -b, a], [0., -b, -a]])
    else:
        p = arr('p', (3, 3))
    before = freeze((p, v))
    r, R, p0 = rotate_to_xz_plane(p, normal=v)
    unchanged((p, v), before, 'the points and the normal')
    same(np.dot(R, R.T), np.eye(3), 'a rotation')
    same(np.linalg.det(R), 1., 'not a reflection')
    same(np.dot(R, v), np.array([0., 1., 0.]), 'the normal goes to +y')
    if centered:
        same(p0, None, 'centered points are not moved')
        same(r, np.dot(p, R.T), 'the points, rotated')
    else:
        same(p0, -np.mean(p, axis=0), 'the translation')
        same(r, np.dot(p + p0, R.T), 'the points, centered and rotated')
    apart(r, p, 'the points rotated')


def o_xz_rounded(normal=((0., 1., 0.), (0., -1., 0.)), long=(1., 1. + 1e-15, 1. - 1e-15)):
    # A normal a rounding error longer or shorter than one.
    v = np.array(normal) * long
    p = arr('p', (3, 3))
    r, R, p0 = rotate_to_xz_plane(p, normal=v)
    near(np.dot(R, R.T), np.eye(3), 'a rotation')
    near(np.dot(R, v), np.array([0., 1., 0.]), 'the normal goes to +y')


def o_xz_almost_axis(t=(.03, 1e-3, 9e-5, 2e-5), side=(1., -1.), d=((1., 0.), (0., -1.), (.6, .8)), centered=(False, True)):
    # A normal which is almost (not quite) +y or -y.
    y = side * (1 - t * t) / (1 + t * t)
    x = 2 * t / (1 + t * t)
    v = np.array([x * d[0], y, x * d[1]])
    p = np.array([[1., 2., 0.], [-1., 1., 3.], [0., -3., -3.]]) + (0. if centered else np.array([7., 1., -2.]))
    r, R, p0 = rotate_to_xz_plane(p, normal=v)
    same(np.dot(R, R.T), np.eye(3), 'a rotation')
    same((np.dot(R, v) - np.array([0., 1., 0.])) * 1e3, np.zeros(3), 'the normal goes to +y')
    same((r - np.dot(p - np.mean(p, axis=0), R.T)) / t, np.zeros((3, 3)), 'the points, centered and rotated')


def o_xz_almost_centered(e=(1., .03, 1e-3, 1e-4, 2e-5, 6e-6, 1e-8), normal=((0., 1., 0.), (0., -1., 0.), (.6, 0., .8), (0., .6, .8))):
    # 1e-5 is documented to be near enough.
    o = e * np.array([.6, .8, 0.])
    p = np.array([[1., 2., 0.], [-1., 1., 3.], [0., -3., -3.]]) + o
    r, R, p0 = rotate_to_xz_plane(p, normal=np.array(normal))
    if e > 1e-5:
        same(p0 / e, -o / e, 'the translation')
        same((r - np.dot(p - o, R.T)) / e, np.zeros((3, 3)), 'the points, centered and rotated')
    else:
        same(p0, None, 'centered points are not moved')
        same((r - np.dot(p, R.T)) / e, np.zeros((3, 3)), 'the points, rotated')


def o_estimated(n=sizes(4, 5), f=FRAMES, of=('estimate_normal', 'rotate_to_xz_plane'), form=('array', 'list'), scale=SCALES):
    # Points of a plane; the principal components are a frame whose last axis is its normal.
    at_scale(scale)
    u, w, k = frame(f)
    if of != 'estimate_normal' and (form == 'list' or scale != SCALES[0]):
        return      # (1e-5 is the documented tolerance of the center)
    o = arr('o', (3,))
    c = arr('c', (n, 2))
    p = np.array([o + x[0] * u + x[1] * w for x in c])
    PCA.pretend = (u, w, k)
    PCA.seen = None
    given = p.tolist() if form == 'list' else p
    before = freeze(given)
    if of == 'estimate_normal':
        m = rotation.estimate_normal(given)
    else:
        r, R, p0 = rotate_to_xz_plane(given)
        m = R[1]
    unchanged(given, before, 'the points')
    holds(isinstance(m, np.ndarray), 'a vector')
    same(m.shape, (3,), 'a vector of three')
    same(np.cross(m, k), np.zeros(3), 'along the direction in which the points vary least')
    same(np.dot(m, m), 1., 'of length one')
    if PCA.seen is not None:
        same(PCA.seen - PCA.seen[0], p - p[0], 'the points are what is analysed')
    if of != 'estimate_normal':
        same(p0, -np.mean(p, axis=0), 'the translation')
        same(np.dot(R, R.T), np.eye(3), 'a rotation')
        same(np.linalg.det(R), 1., 'not a reflection')
        same(r, np.dot(p + p0, R.T), 'the points, centered and rotated')
        same(r[:, 1], np.zeros(n), 'in the x-z plane')


def o_xz_nothing(points=(None, 'empty', 'list')):
    p = None if points is None else np.zeros((0, 3)) if points == 'empty' else []
    raises(ValueError, 'no points', rotate_to_xz_plane, p)
    raises(ValueError, 'no points', rotate_to_xz_plane, p, np.array([0., 1., 0.]))


# --- translation

def o_translation(n=sizes(1, 2, 3), d=(2, 3), factor=('given', 'default', 'zero', 'list')):
    p = arr('p', (n, d))
    f = np.zeros(d) if factor == 'zero' else arr('f', (d,))
    if factor == 'list':
        f = f.tolist()
    before = freeze((p, f))
    if factor == 'default':
        image, t = translation(p)
        same(t, -np.mean(p, axis=0), 'from the center to the origin')
        same(image, p - np.mean(p, axis=0), 'the points about the origin')
        back, again = translation(image, -t)
        same(back, p, 'translating back')
    else:
        image, t = translation(p, f)
        same(t, f, 'the factor')
        same(image, p + np.array(f), 'the points moved')
        same(translation(p, translation_factor=f)[0], p + np.array(f), 'by keyword')
    unchanged((p, f), before, 'the points and the factor')
    apart(image, p, 'the points moved')


# --- rigid alignment

def cloud(flat=False):
    '''Points which vary most along x, then y, then z (each pair on either side of the origin).'''
    g = sym('g', '+')
    b = g + sym('bb', '+')
    a = b + sym('aa', '+')
    if flat:
        return np.array([[a, -a, 0., 0.], [0., 0., b, -b], [0., 0., 0., 0.]]), np.array([2 * a * a, 2 * b * b, 0.])
    return np.array([[a, -a, 0., 0., 0., 0.], [0., 0., b, -b, 0., 0.], [0., 0., 0., 0., g, -g]]), np.array([2 * a * a, 2 * b * b, 2 * g * g])


TURNS = {
    'id': np.eye(3),
    'x': np.array([[1., 0., 0.], [0., 0., -1.], [0., 1., 0.]]),
    'cycle': np.array([[0., 1., 0.], [0., 0., 1.], [1., 0., 0.]]),
    'pair': np.array([[.6, -.8, 0.], [.8, .6, 0.], [0., 0., 1.]]),
}


def o_rigid(first=('id', 'cycle', 'pair'), shape=('3xN', 'Nx3', 'mixed'), flat=(False, True, 'rounded'), flip=(False, True)):
    q, s = cloud(flat)
    if flat == 'rounded':
        # What should vanish is a rounding error of the greatest.
        s = np.array([s[0], s[1], s[0] * 2e-16])
    Q = TURNS[first]
    R = some_rotation('q')
    here, there = arr('h', (3,)), arr('t', (3,))
    a0 = np.dot(Q, q)
    b0 = np.dot(R, a0)
    a = a0 + here[:, np.newaxis]
    b = b0 + there[:, np.newaxis]
    # a0 b0' = Q diag(s) (R Q)'; flat points say nothing about the last direction.
    u, vt = Q, np.dot(R, Q).T
    if flip:
        if not flat:
            return
        vt = np.dot(np.diag([1., 1., -1.]), vt)
    svd_is(u, s, vt)
    x = a.T if shape == 'Nx3' else a
    y = b.T if shape in ('Nx3', 'mixed') else b
    before = freeze((x, y))
    R2, T = find_rigid_transform(x, y)
    unchanged((x, y), before, 'the points')
    if flat != 'rounded':
        same(svd_of()[0], np.dot(np.dot(u, np.diag(s)), vt), 'what is decomposed')
    same(R2, R, 'the rotation')
    same(T.shape, (3, 1), 'a column')
    same(T.ravel(), there - np.dot(R, here), 'the translation')
    same(np.dot(R2, a) + T, b, 'the points are aligned')


def o_rigid_reflection(first=('id', 'cycle'), scale=SCALES):
    at_scale(scale)
    q, s = cloud()
    Q = TURNS[first]
    R = np.dot(some_rotation('q'), np.diag([1., 1., -1.]))
    svd_is(Q, s, np.dot(R, Q).T)
    a = np.dot(Q, q)
    raises(ValueError, 'a reflection is not a rigid transform', find_rigid_transform, a, np.dot(R, a))


def o_rigid_three_by_three():
    # Ambiguous shapes are taken as columns.
    a, b = arr('a', (3, 3)), arr('b', (3, 3))
    svd_is(np.eye(3), np.array([3., 2., 1.]), np.eye(3))
    R, T = find_rigid_transform(a, b)
    ac = a - np.mean(a, axis=1)[:, np.newaxis]
    bc = b - np.mean(b, axis=1)[:, np.newaxis]
    same(svd_of()[0], np.dot(ac, bc.T), 'what is decomposed')
    same(T.ravel(), np.mean(b, axis=1) - np.mean(a, axis=1), 'the translation')


def o_rigid_shape(shape=((2, 5), (4, 4))):
    raises(AssertionError, 'not points in space', find_rigid_transform, arr('a', shape), arr('b', shape))
    raises(AssertionError, 'not points in space', find_rigid_rotation, arr('a', shape), arr('b', shape))


def o_rotation_only(first=('id', 'cycle', 'pair'), scaling=(None, False, True), reflect=(False, True), k=('1', '+'), scale=SCALES):
    at_scale(scale)
    q, s = cloud()
    Q = TURNS[first]
    R = some_rotation('q')
    k = sym('k', k)
    a = np.dot(Q, q)
    mirror = np.diag([1., 1., -1.]) if reflect else np.eye(3)
    # What is best for a reflected cloud turns back its weakest direction.
    b = k * np.dot(R, np.dot(Q, np.dot(mirror, q)))
    svd_is(Q, k * s, np.dot(R, np.dot(Q, mirror)).T)
    before = freeze((a, b))
    got = find_rigid_rotation(a, b) if scaling is None else find_rigid_rotation(a, b, allow_scaling=scaling)
    unchanged((a, b), before, 'the points')
    same(svd_of()[0], np.dot(a, b.T), 'what is decomposed')
    same(got, R * k if scaling else R, 'the rotation')


def o_rotation_one_point(scaling=(False, True)):
    # One vector to another: both get the normal of the two as their second.
    a, b = arr('a', (3, 1)), arr('b', (3, 1))
    svd_is(np.eye(3), np.array([3., 2., 1.]), np.eye(3))
    before = freeze((a, b))
    R = find_rigid_rotation(a, b, scaling)
    unchanged((a, b), before, 'the points')
    n = np.cross(a.ravel(), b.ravel())
    same(svd_of()[0], np.outer(a.ravel(), b.ravel()) + np.outer(n, n), 'what is decomposed')


def o_rotation_two_points(first=('id', 'cycle', 'pair'), scaling=(False, True), mirrored=(False, True), scale=SCALES):
    # Two vectors say as much as a flat cloud.
    at_scale(scale)
    g = sym('g', '+')
    a = g + sym('aa', '+')
    q, s = np.array([[a, 0.], [0., g], [0., 0.]]), np.array([a * a, g * g, 0.])
    Q = TURNS[first]
    R = some_rotation('q')
    x = np.dot(Q, q)
    y = np.dot(R, x)
    vt = np.dot(R, Q).T
    if mirrored:
        vt = np.dot(np.diag([1., 1., -1.]), vt)
    svd_is(Q, s, vt)
    before = freeze((x, y))
    got = find_rigid_rotation(x, y, scaling)
    unchanged((x, y), before, 'the points')
    same(svd_of()[0], np.dot(x, y.T), 'what is decomposed')
    same(got, R, 'the rotation')


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    p = np.array([[i * k, (i % 3) * k, 2.] for i in range(n)])
    same(translation(p, np.array([k, 0., -1.]))[0], [[(i + 1.) * k, (i % 3) * k, 1.] for i in range(n)], 'many points moved')
    same(translation(p)[1], [-(n - 1) / 2. * k, -sum([i % 3 for i in range(n)]) / float(n) * k, -2.], 'from the center of many')
