'''Segments, lines, triangles and extreme points.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds, apart, assume
from spec_frames import SCALES
from blmath.geometry.barycentric import barycentric_coordinates_of_projection
from blmath.geometry.segment import partition, partition_segment, partition_segment_old, line_intersect, line_intersect3
from blmath.geometry.apex import apex, farthest, inflection_points
from blmath.geometry.surface_normals import surface_normal


# --- barycentric

def o_barycentric(n=sizes(None, 1, 2, 3), layout=('own', 'shared'), scale=SCALES):
    at_scale(scale)
    if n is None:
        p, q, u, v = arr('p', (3,)), arr('q', (3,)), arr('u', (3,)), arr('v', (3,))
    else:
        p = arr('p', (n, 3))
        q, u, v = arr('q', (n, 3)), arr('u', (n, 3)), arr('v', (n, 3))
    if layout == 'shared' and n == 3:
        return
    before = freeze((p, q, u, v))
    b = barycentric_coordinates_of_projection(p, q, u, v)
    unchanged((p, q, u, v), before, 'the arguments')
    if n is None:
        b = b.reshape(1, 3)
        p, q, u, v = p[np.newaxis], q[np.newaxis], u[np.newaxis], v[np.newaxis]
    same(b.shape, (len(p), 3), 'three coordinates of each point')
    for i in range(len(p)):
        same(b[i, 0] + b[i, 1] + b[i, 2], 1., 'the coordinates add up to one')
        at = q[i] + b[i, 1] * u[i] + b[i, 2] * v[i]
        same(np.dot(p[i] - at, u[i]), 0., 'the point is straight above where they say')
        same(np.dot(p[i] - at, v[i]), 0., 'the point is straight above where they say')


def o_barycentric_corners(n=(None, 2), scale=SCALES):
    at_scale(scale)
    q, u, v = arr('q', (3,)), arr('u', (3,)), arr('v', (3,))
    h = sym('h')
    k = h * np.cross(u, v)
    for p, want in ((q + k, [1., 0., 0.]), (q + u + k, [0., 1., 0.]), (q + v + k, [0., 0., 1.])):
        if n is None:
            same(barycentric_coordinates_of_projection(p, q, u, v).ravel(), np.array(want), 'above a corner')
        else:
            b = barycentric_coordinates_of_projection(np.array([p, q]), np.array([q, q]), np.array([u, u]), np.array([v, v]))
            same(b, np.array([want, [1., 0., 0.]]), 'above a corner')


def o_barycentric_degenerate(n=(None, 1, 2), scale=SCALES):
    # A triangle without area: no division by zero, and the coordinates still add up to one.
    at_scale(scale)
    p, q, u = arr('p', (3,)), arr('q', (3,)), np.array([sym('u'), 0., 0.])
    v = 2. * u
    if n is None:
        b = barycentric_coordinates_of_projection(p, q, u, v).reshape(1, 3)
    else:
        w = arr('w', (3,))
        ps, qs, us, vs = [np.array([x] * n) for x in (p, q, u, v)]
        if n == 2:
            vs[1] = w
        b = barycentric_coordinates_of_projection(ps, qs, us, vs)
        if n == 2:
            same(b[1], barycentric_coordinates_of_projection(p, q, u, w).ravel(), 'beside a triangle without area')
    same(np.sum(b[0]), 1., 'the coordinates add up to one')


def o_barycentric_nearly_degenerate(e=(1e-2, 1e-4, 1e-5), n=(None, 2)):
    # A sliver has an area.
    q, u, d = arr('q', (3,)), arr('u', (3,)), np.array([sym('d', '+'), 0., 0.])
    v = 2. * u + e * d
    b, c = sym('b'), sym('c')
    p = q + b * u + c * v + sym('h') * np.cross(u, d)
    if n is None:
        same(barycentric_coordinates_of_projection(p, q, u, v).ravel() * e, np.array([1 - b - c, b, c]) * e, 'the coordinates')
    else:
        r = barycentric_coordinates_of_projection(np.array([p, q]), np.array([q, q]), np.array([u, u]), np.array([v, v]))
        same(r * e, np.array([[1 - b - c, b, c], [1., 0., 0.]]) * e, 'the coordinates')


# --- partitions

def o_partition(n=sizes(1, 2, 3), d=(1, 2, 3, 4, 6), size=(None, 1, 2, 3, 5), how=('positional', 'keyword'), scale=SCALES):
    at_scale(scale)
    v = arr('v', (n, d))
    before = freeze(v)
    if size is None:
        r, size = partition(v), 5
    elif how == 'keyword':
        r = partition(v=v, partition_size=size)
    else:
        r = partition(v, size)
    unchanged(v, before, 'the points')
    apart(r, v, 'the points filled in')
    want = []
    for i in range(n - 1):
        for k in range(size):
            want.append(v[i] + (v[i + 1] - v[i]) * (float(k) / size))
    want.append(v[n - 1])
    same(r, np.array(want), 'equal parts of each segment, and the last point')


def o_partition_finely(size=sizes(7), n=(2, 3)):
    v = arr('v', (n, 2))
    want = [v[i] + (v[i + 1] - v[i]) * (float(k) / size) for i in range(n - 1) for k in range(size)] + [v[n - 1]]
    same(partition(v, size), np.array(want), 'equal parts of each segment, and the last point')


def o_partition_segment(n=sizes(2, 3, 4, 7), d=(1, 2, 3, 5), endpoint=(None, True, False), scale=SCALES):
    at_scale(scale)
    p, q = arr('p', (d,)), arr('q', (d,))
    before = freeze((p, q))
    r = partition_segment(p, q, n) if endpoint is None else partition_segment(p, q, n, endpoint=endpoint)
    unchanged((p, q), before, 'the ends')
    apart(r, (p, q), 'the samples')
    m = n if endpoint is False else n - 1
    same(r, np.array([p + (q - p) * (float(k) / m) for k in range(n)]), 'evenly from the first to the second')


def o_partition_segment_old(n=sizes(None, 2, 3, 5, 6), d=(1, 2, 3, 5), scale=SCALES):
    at_scale(scale)
    p, q = arr('p', (d,)), arr('q', (d,))
    before = freeze((p, q))
    r = partition_segment_old(p, q) if n is None else partition_segment_old(p, q, n)
    unchanged((p, q), before, 'the ends')
    m = 5 if n is None else n
    same(r, np.array([p + (q - p) * (float(k) / m) for k in range(1, m)]), 'the inner ends of equal parts')


def o_partition_repeated(d=(2, 3), size=(1, 2, 5), which=('all', 'first', 'middle', 'last'), scale=SCALES):
    # A segment between two points which are the same is filled with that point.
    at_scale(scale)
    p, q = arr('p', (d,)), arr('q', (d,))
    v = np.array({'all': [p, p], 'first': [p, p, q], 'middle': [q, p, p, q], 'last': [q, p, p]}[which])
    before = freeze(v)
    r = partition(v, size)
    unchanged(v, before, 'the points')
    want = []
    for i in range(len(v) - 1):
        for k in range(size):
            want.append(v[i] + (v[i + 1] - v[i]) * (float(k) / size))
    want.append(v[len(v) - 1])
    same(r, np.array(want), 'equal parts of each segment, and the last point')
    same(partition_segment(p, p, size + 1), np.array([p] * (size + 1)), 'the samples of a single point')
    if size > 1:
        same(partition_segment_old(p, p, size), np.array([p] * (size - 1)), 'the inner ends of the parts of a single point')


def o_partition_wrong(n=(1, 0, -1, -5, 2.0, 2.5, '3', None), scale=SCALES):
    at_scale(scale)
    p, q = arr('p', (3,)), arr('q', (3,))
    e = ValueError if isinstance(n, int) else TypeError
    raises(e, 'a wrong number of samples', partition_segment, p, q, n)
    raises(e, 'a wrong number of parts', partition_segment_old, p, q, n)


# --- lines in the plane

def o_lines(how=('array', 'list'), scale=SCALES):
    at_scale(scale)
    p0, q0, p1, q1 = arr('p', (2,)), arr('q', (2,)), arr('r', (2,)), arr('s', (2,))
    before = freeze((p0, q0, p1, q1))
    x = line_intersect(p0, q0, p1, q1) if how == 'array' else line_intersect(p0.tolist(), q0.tolist(), p1.tolist(), q1.tolist())
    unchanged((p0, q0, p1, q1), before, 'the points')
    same(x.shape, (2,), 'a point')
    for p, q in ((p0, q0), (p1, q1)):
        same((x[0] - p[0]) * (q[1] - p[1]), (x[1] - p[1]) * (q[0] - p[0]), 'on both lines')


def o_lines_axes(first=((1., 0.), (0., 1.)), back=(False, True), scale=SCALES):
    # Vertical and horizontal lines.
    at_scale(scale)
    a, b, k, m = arr('a', (2,)), arr('b', (2,)), sym('k'), sym('m')
    e = np.array(first)
    f = np.array([first[1], first[0]])
    x = line_intersect(a, a + k * e, b, b + m * f) if not back else line_intersect(b, b + m * f, a, a + k * e)
    same(np.dot(x, f), np.dot(a, f), 'on the first line')
    same(np.dot(x, e), np.dot(b, e), 'on the second line')


SHARED = ('pp', 'pq', 'qp', 'qq')


def o_lines_shared(which=SHARED, scale=SCALES):
    at_scale(scale)
    x, y, z = arr('x', (2,)), arr('y', (2,)), arr('z', (2,))
    l0 = (x, y) if which[0] == 'p' else (y, x)
    l1 = (x, z) if which[1] == 'p' else (z, x)
    same(line_intersect(l0[0], l0[1], l1[0], l1[1]), x, 'the point they share')


def o_lines_parallel(which=('parallel', 'same', 'vertical', 'horizontal', 'point'), scale=SCALES):
    at_scale(scale)
    p, q, r, k = arr('p', (2,)), arr('q', (2,)), arr('r', (2,)), sym('k')
    d = q - p
    if which == 'vertical':
        d = np.array([0., sym('d')])
    elif which == 'horizontal':
        d = np.array([sym('d'), 0.])
    elif which == 'point':
        d = np.zeros(2)
    elif which == 'same':
        r = p + sym('m') * d
    x = line_intersect(p, p + d, r, r + k * d)
    same(np.isnan(x), np.array([True, True]), 'parallel lines have no intersection')


NEXT = (1e-2, 1e-4, 1e-5)


def o_lines_nearly(which=('parallel', 'shared', 'along x', 'along y'), e=NEXT, turn=(1, -1)):
    # Lines almost parallel cross, far away; almost at an end which they do not share; almost along an axis.
    p, d, k, m = arr('p', (2,)), arr('d', (2,), '+'), sym('k', '+'), sym('m', '+')
    if which == 'parallel':
        r = p + np.array([0., sym('r', '+')])
        f = d + turn * e * np.array([0., m])
        x = p + d * ((r[1] - p[1]) * d[0] / (-turn * e * m * d[0]))
    elif which == 'shared':
        # The first line begins just beside a point of the second.
        r, f = p + e * turn * k * np.array([1., 2.]), np.array([m, -m])
        x = p + e * turn * k * d * (3. / (d[0] + d[1]))
    else:
        d = np.array([1., turn * e * k]) if which == 'along x' else np.array([turn * e * k, 1.])
        r, f = arr('r', (2,)), np.array([1., 1.])
        t = ((r[0] - p[0]) - (r[1] - p[1])) / (d[0] - d[1])
        x = p + t * d
    same((line_intersect(p, p + d, r, r + f) - p) * e, (x - p) * e, 'where they cross')
    same((line_intersect(r, r + f, p, p + d) - p) * e, (x - p) * e, 'where they cross')


# --- lines in space

SIDES = (('+', '+'), ('-', '+'), ('+', '-'), ('-', '-'))


def o_lines3(first=SIDES, second=SIDES, scale=SCALES):
    # The intersection is at x; each line is given by two points, on the same side of it or not.
    at_scale(scale)
    x, e, f = arr('x', (3,)), arr('e', (3,)), arr('f', (3,))
    a, b, c, d = sym('a', first[0]), sym('b', first[1]), sym('c', second[0]), sym('d', second[1])
    args = (x + a * e, x + b * e, x + c * f, x + d * f)
    before = freeze(args)
    r = line_intersect3(args[0], args[1], args[2], args[3])
    unchanged(args, before, 'the points')
    same(r, x, 'where they cross')


def o_lines3_nearly(which=('parallel', 'shared', 'both'), e=NEXT, first=SIDES, second=SIDES):
    # Almost parallel, or given by points almost where they cross.
    x, f = arr('x', (3,)), arr('e', (3,))
    d = arr('d', (3,))
    g = f + e * d if which != 'shared' else d
    k = e if which != 'parallel' else 1
    a, b, c, h = sym('a', first[0]), sym('b', first[1]), sym('c', second[0]), sym('d', second[1])
    same(line_intersect3(x + k * a * f, x + b * f, x + k * c * g, x + h * g), x, 'where they cross')
    same(line_intersect3(x + b * f, x + k * a * f, x + h * g, x + k * c * g), x, 'where they cross')


def o_lines3_inside(scale=SCALES):
    # A point of one line lies on the other.
    at_scale(scale)
    x, e, f = arr('x', (3,)), arr('e', (3,)), arr('f', (3,))
    a, b, c = sym('a'), sym('b'), sym('c')
    same(line_intersect3(x, x + c * f, x + a * e, x + b * e), x, 'where they cross')
    same(line_intersect3(x + c * f, x, x + a * e, x + b * e), x, 'where they cross')
    same(line_intersect3(x + a * e, x + b * e, x, x + c * f), x, 'where they cross')
    same(line_intersect3(x + a * e, x + b * e, x + c * f, x), x, 'where they cross')


def o_lines3_axes(e=((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)), f=((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)), first=SIDES, second=SIDES, scale=SCALES):
    at_scale(scale)
    if e == f:
        return
    x = arr('x', (3,))
    a, b, c, d = sym('a', first[0]), sym('b', first[1]), sym('c', second[0]), sym('d', second[1])
    e, f = np.array(e), np.array(f)
    same(line_intersect3(x + a * e, x + b * e, x + c * f, x + d * f), x, 'where they cross')


def o_lines3_shared(which=SHARED, scale=SCALES):
    at_scale(scale)
    x, y, z = arr('x', (3,)), arr('y', (3,)), arr('z', (3,))
    l0 = (x, y) if which[0] == 'p' else (y, x)
    l1 = (x, z) if which[1] == 'p' else (z, x)
    same(line_intersect3(l0[0], l0[1], l1[0], l1[1]), x, 'the point they share')


def o_lines3_parallel(which=('parallel', 'colinear', 'axis'), k=('+', '-'), scale=SCALES):
    at_scale(scale)
    p, r, k = arr('p', (3,)), arr('r', (3,)), sym('k', k)
    d = np.array([0., sym('d'), 0.])
    if which == 'axis':
        r = p + np.array([sym('m'), 0., sym('n')])
    elif which == 'colinear':
        p = np.array([0., sym('py'), 0.])
        r = np.array([0., sym('ry'), 0.])
    same(line_intersect3(p, p + d, r, r + k * d), None, 'no intersection')


# --- extreme points

def gap(r, p):
    '''Zero when r is one of p.'''
    k = 1.
    for q in p:
        k = k * np.sum((r - q) ** 2)
    return k


def o_apex(n=(1, 2, 3), d=(2, 3), how=('array', 'list'), scale=SCALES):
    at_scale(scale)
    p, axis = arr('p', (n, d)), arr('a', (d,))
    before = freeze((p, axis))
    r = apex(p, axis if how == 'array' else axis.tolist())
    unchanged((p, axis), before, 'the points and the axis')
    same(r.shape, (d,), 'a point')
    far = np.dot(r, axis)
    for i in range(n):
        holds(far >= np.dot(p[i], axis), 'no point is farther along the axis')
    same(gap(r, p), 0., 'one of the points')


def o_apex_order(order=((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)), axis=(0, 1, 2), s=('+', '-'), scale=SCALES):
    at_scale(scale)
    p = arr('p', (3, 3))
    h = [sym('h'), 0, 0]
    h[1] = h[0] + sym('x', '+')
    h[2] = h[1] + sym('y', '+')
    for i in range(3):
        p[i, axis] = h[order[i]]
    a = np.zeros(3)
    k = sym('k', s)
    a[axis] = k
    same(apex(p, a), p[order.index(2 if s == '+' else 0)], 'the farthest along the axis')


def o_farthest(n=(1, 2, 3), d=(2, 3), scale=SCALES):
    at_scale(scale)
    x, p = arr('x', (d,)), arr('p', (n, d))
    before = freeze((x, p))
    r, i = farthest(x, p)
    unchanged((x, p), before, 'the points')
    same(gap(r, p), 0., 'one of the points')
    if n == 1:
        same(i, 0, 'its index')
    for j in range(n):
        holds(np.linalg.norm(r - x) >= np.linalg.norm(p[j] - x), 'no point is farther')


def o_farthest_order(order=((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)), axis=(0, 1, 2), s=('+', '-', '?'), scale=SCALES):
    at_scale(scale)
    x = arr('x', (3,))
    a = sym('a', '+')
    h = [0., a, a + sym('b', '+')]
    p = np.array([x, x, x])
    for i in range(3):
        p[i, axis] = x[axis] + (-h[order[i]] if s == '-' or s == '?' and i % 2 else h[order[i]])
    r, i = farthest(x, p)
    same(i, order.index(2), 'the index of the farthest')
    same(r, p[order.index(2)], 'the farthest')


def o_nearly_as_far(of=('apex', 'farthest'), e=(1e-3, 1e-5, 1e-7, 1e-9), order=((0, 1, 2), (2, 1, 0), (1, 2, 0), (0, 2, 1))):
    # Which is farther counts, not by how much.
    x, s = arr('x', (3,)), sym('s', '+')
    h = [sym('h', '+')]
    h += [h[0] + e * s, h[0] + 2 * e * s]
    p = np.array([x + np.array([0., h[order[i]], 0.]) for i in range(3)])
    i = order.index(2)
    if of == 'apex':
        for k in (1., 5.):
            same(apex(p, np.array([0., k, 0.])), p[i], 'the farthest along the axis')
        same(apex(p, np.array([0., -1., 0.])), p[order.index(0)], 'the farthest along the axis')
    else:
        r, j = farthest(x, p)
        same(j, i, 'the index of the farthest')
        same(r, p[i], 'the farthest')


# --- inflection points

def frame(tilt):
    if not tilt:
        return np.array([1., 0., 0.]), np.array([0., 1., 0.])
    return np.array([.6, 0., .8]), np.array([0., 1., 0.])


CURVES = {
    # heights over -3..3 (7 samples) about each, and the points expected
    'cubic': ((-42.875, -15.625, -3.375, -.125, .125, 3.375, 15.625), (3,)),
    'cubic down': ((42.875, 15.625, 3.375, .125, -.125, -3.375, -15.625), (3,)),
    'parabola': ((9., 4., 1., 0., 1., 4., 9.), ()),
    'late': ((-7., 6., 7., 2., 3., -4., -8.), (5,)),
    'early': ((8., 2., -6., -7., -4., -4., 4.), (0,)),
    'both ends': ((-8., -3., 4., 4., 7., 0., -5.), (0, 5)),
    'cap': ((-9., -4., -1., 0., -1., -4., -9.), ()),
}


def o_inflection(curve=('cubic', 'cubic down', 'parabola', 'cap', 'late', 'early', 'both ends'), tilt=(False, True), moved=(False, True), scaled=(False, True), back=(False, True), scale=SCALES):
    at_scale(scale)
    span, axis = frame(tilt)
    ys, want = CURVES[curve]
    k = sym('k', '+') if scaled else 1.
    o = arr('o', (3,)) if moved else np.zeros(3)
    p = np.array([o + k * (float(i - 3) * span + y * axis) for i, y in enumerate(ys)])
    if back:
        p = p[::-1]
        want = tuple(sorted(len(ys) - 2 - i for i in want))
    before = freeze((p, span, axis))
    r = inflection_points(p, axis, span)
    unchanged((p, span, axis), before, 'the points and the axes')
    same(len(r), len(want), 'as many points as inflections')
    if len(want) == len(r):
        for a, i in zip(r, want):
            same(a, p[i], 'the point before the inflection')


def o_inflection_uneven(xs=((-4., -3., -1.5, -1., .5, 2., 3.), (0., 1., 3., 4., 6., 7.5, 8.)), curve=('cubic', 'parabola', 'late'), scaled=(False, True), scale=SCALES):
    at_scale(scale)
    k = sym('k', '+') if scaled else 1.
    m = sym('m', '+') if scaled else 1.
    c = -.25 if xs[0] < 0 else 5.
    p = np.array([[k * x, 0., m * (x * x if curve == 'parabola' else (x - c) ** 3)] for x in xs])
    r = inflection_points(p, np.array([0., 0., 1.]), np.array([1., 0., 0.]))
    if curve == 'parabola':
        same(len(r), 0, 'a parabola has no inflection')
    else:
        i = max(j for j, x in enumerate(xs) if x < c)
        same(r, p[[i]], 'the point before the inflection')


def o_inflection_at_a_vertex(n=(7, 9), sign=(1., -1.), tilt=(False, True), scale=SCALES):
    # The second difference is exactly zero at the middle vertex, and changes sign there.
    at_scale(scale)
    span, axis = frame(tilt)
    h = n // 2
    p = np.array([float(i - h) * span + sign * float(i - h) ** 3 * axis for i in range(n)])
    r = inflection_points(p, axis, span)
    holds(len(r) > 0, 'an inflection at a vertex is found')
    for a in r:
        holds(a.tolist() in [p[h - 1].tolist(), p[h].tolist()], 'the vertex itself, or the one before')


# --- normals of triangles

def o_surface_normal(shape=((), (1,), (2,), (3,), (2, 2)), normalize=(None, True, False), scale=SCALES):
    at_scale(scale)
    if len(shape) == 2 and normalize is not False:
        return
    p = arr('p', shape + (3, 3))
    before = freeze(p)
    r = surface_normal(p) if normalize is None else surface_normal(p, normalize=normalize)
    unchanged(p, before, 'the points')
    same(r.shape, shape + (3,), 'a vector of each triangle')
    flat, ps = r.reshape(-1, 3), p.reshape(-1, 3, 3)
    for i in range(len(ps)):
        n = np.cross(ps[i, 1] - ps[i, 0], ps[i, 2] - ps[i, 0])
        same(flat[i], n if normalize is False else n / np.linalg.norm(n), 'by the right hand rule')


def o_surface_normal_of_a_sliver(e=(1e-3, 1e-5, 1e-7), n=(None, 2)):
    a, u, d = arr('a', (3,)), arr('u', (3,)), np.array([0., sym('d', '+'), 0.])
    p = np.array([a, a + u, a + 3. * u + e * d])
    q = np.array([a, a + u, a + 3. * u + d])
    if n is None:
        same(surface_normal(p), surface_normal(q), 'the normal does not depend on how thin the triangle is')
        same(surface_normal(p, normalize=False) / e, surface_normal(q, normalize=False), 'but its length does')
    else:
        same(surface_normal(np.array([p, q])), [surface_normal(q), surface_normal(q)], 'the normal does not depend on how thin the triangle is')


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    x = np.array([float(i) for i in range(n)])
    q, u, v = [np.array([[y, 0., 0.] for y in x]), np.array([[k, 0. * k, 0. * k] for _ in x]), np.array([[0. * k, 2. * k, 0. * k] for _ in x])]
    p = q + np.array([[y * k, k, 5. + y] for y in x])
    same(barycentric_coordinates_of_projection(p, q, u, v), [[.5 - y, y, .5] for y in x], 'coordinates of many points')
    w = np.array([[y * y * k, -y] for y in x])
    same(partition(w, 2), np.array([r for i in range(n - 1) for r in (w[i], (w[i] + w[i + 1]) / 2.)] + [w[n - 1]]), 'parts of many segments')
    same(partition_segment(w[0], w[1], n), np.array([[y * k / (n - 1), -y / (n - 1)] for y in x]), 'many parts of a segment')
