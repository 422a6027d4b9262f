'''Plane: its equation, distances and projections.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds, apart, eig_is, eig_of
from blmath.geometry import Plane
from spec_frames import SCALES, FRAMES, NEXT_TO, frame, dot, cross, length

SIGNS = (('+', '+', '+'), ('-', '+', '0'), ('0', '-', '0'), ('?', '?', '?'))


def plane(s):
    p, n = arr('p', (3,)), arr('n', (3,), s, pure=True)
    return p, n, Plane(p, n)


def o_normal(s=SIGNS, scale=SCALES):
    at_scale(scale)
    p, n, plane_ = plane(s)
    same(plane_.normal, [x / length(n) for x in n], 'the normal is the given direction, of length 1')
    same(plane_.reference_point, p, 'the reference point')
    k = sym('k', '+', pure=True)
    same(Plane(p, k * n).normal, plane_.normal, 'the length of the given normal')
    same(Plane(p, -k * n).normal, -plane_.normal, 'the sense of the given normal')


def o_nearly(n=NEXT_TO, k=(1., -2.)):
    # Almost of length 1, almost along an axis: what is left of the plane still shows.
    p, n, q = arr('p', (3,)), k * np.array(n), arr('q', (3,))
    u = [x / length(n) for x in n]
    want = dot(q - p, u)
    a = cross(n, np.array([n[1], n[2], n[0]]))
    for plane_ in (Plane(p, n), Plane.from_points_and_vector(p, p + a, cross(n, a))):
        same(plane_.normal, u, 'the normal')
        same(plane_.equation, [u[0], u[1], u[2], -dot(p, u)], 'the equation')
        same(plane_.signed_distance(q), want, 'signed distance of one point')
        same(plane_.signed_distance(np.array([q, p, 2 * q])), [want, 0, want + dot(q, u)], 'signed distance')
        same(plane_.distance(q), abs(want), 'distance')
        same(plane_.project_point(q), [q[i] - want * u[i] for i in range(3)], 'project_point')
        same(plane_.canonical_point, [dot(p, u) * x for x in u], 'the canonical point')
        same(plane_.flipped().equation, [-u[0], -u[1], -u[2], dot(p, u)], 'the equation of a flipped plane')


def o_lists():
    same(Plane([1, 2, 3], np.array([0, 0, 2])).equation, [0, 0, 1, -3], 'an int point and normal')


def o_zero_normal(k=(1, 2)):
    raises(ValueError, 'a zero normal', Plane, arr('p', (3,)), np.zeros(3))
    raises(ValueError, 'an almost zero normal', Plane, arr('p', (3,)), np.array([1e-9, 0.0, -1e-9]))


def o_equation(s=SIGNS, scale=SCALES):
    at_scale(scale)
    p, n, plane_ = plane(s)
    u = [x / length(n) for x in n]
    same(plane_.equation, [u[0], u[1], u[2], -dot(p, u)], 'the equation')


def o_signed_distance(s=SIGNS, k=sizes(1, 2, 3, 4), scale=SCALES):
    at_scale(scale)
    p, n, plane_ = plane(s)
    q = arr('q', (k, 3))
    before = freeze((p, n, q))
    u = [x / length(n) for x in n]
    want = [dot(x - p, u) for x in q]
    d = plane_.signed_distance(q)
    same(d.shape, (k,), 'one distance per point')
    same(d, want, 'signed distance')
    same(plane_.distance(q), [abs(x) for x in want], 'distance')
    for i in range(k):
        same(plane_.signed_distance(q[i]), want[i], 'signed distance of one point')
        same(plane_.distance(q[i]), abs(want[i]), 'distance of one point')
    unchanged((p, n, q), before, 'the arguments')


def o_project(s=SIGNS, scale=SCALES):
    at_scale(scale)
    p, n, plane_ = plane(s)
    q = arr('q', (3,))
    before = freeze(q)
    r = plane_.project_point(q)
    n2 = dot(n, n)
    same(r, [q[i] - dot(q - p, n) * n[i] / n2 for i in range(3)], 'project_point')
    same(dot(r - p, n), 0, 'the projection is on the plane')
    same(cross(q - r, n), [0, 0, 0], 'the projection is along the normal')
    same(plane_.project_point(r), r, 'projecting twice')
    unchanged(q, before, 'the point')


def o_canonical(s=SIGNS, scale=SCALES):
    at_scale(scale)
    p, n, plane_ = plane(s)
    c = plane_.canonical_point
    same(dot(c - p, n), 0, 'the canonical point is on the plane')
    same(cross(c, n), [0, 0, 0], 'the canonical point is along the normal from the origin')


def o_flipped(s=SIGNS, scale=SCALES):
    at_scale(scale)
    p, n, plane_ = plane(s)
    q = arr('q', (2, 3))
    f = plane_.flipped()
    same(f.normal, -plane_.normal, 'the normal of a flipped plane')
    same(f.reference_point, p, 'the reference point of a flipped plane')
    same(f.signed_distance(q), -plane_.signed_distance(q), 'distances from a flipped plane')
    same(f.equation, -plane_.equation, 'the equation of a flipped plane')
    same(plane_.normal, [x / length(n) for x in n], 'the plane that was flipped')
    same(f.flipped().equation, plane_.equation, 'flipping twice')


def o_from_points(form=('array', 'list', 'int')):
    ps = [arr('p', (3,), integer=form == 'int'), arr('q', (3,), integer=form == 'int'), arr('r', (3,), integer=form == 'int')]
    p, q, r = ps
    given = [x.tolist() for x in ps] if form == 'list' else ps
    plane_ = Plane.from_points(*given)
    c = cross(q - p, r - p)
    same(plane_.normal, [x / length(c) for x in c], 'the normal points to who sees the points counterclockwise')
    same(plane_.reference_point, p, 'the reference point')
    same(plane_.signed_distance(np.array([p, q, r])), [0, 0, 0], 'the points are on the plane')


def o_from_points_and_vector(form=('array', 'list')):
    ps = [arr('p', (3,)), arr('q', (3,)), arr('v', (3,))]
    p, q, v = ps
    given = [x.tolist() for x in ps] if form == 'list' else ps
    plane_ = Plane.from_points_and_vector(*given)
    c = cross(q - p, v)
    same(plane_.normal, [x / length(c) for x in c], 'the normal')
    same(plane_.reference_point, p, 'the reference point')
    same(plane_.signed_distance(np.array([p, q, p + v])), [0, 0, 0], 'the points are on the plane')


def o_bad_points(bad=((2,), (4,), (1, 3), (3, 1))):
    p, q, b = arr('p', (3,)), arr('q', (3,)), arr('b', bad)
    raises(ValueError, 'a point of a wrong shape', Plane.from_points, b, p, q)
    raises(ValueError, 'a point of a wrong shape', Plane.from_points, p, b, q)
    raises(ValueError, 'a point of a wrong shape', Plane.from_points, p, q, b)
    raises(ValueError, 'a point of a wrong shape', Plane.from_points_and_vector, b, p, q)
    raises(ValueError, 'a point of a wrong shape', Plane.from_points_and_vector, p, b, q)
    raises(ValueError, 'a vector of a wrong shape', Plane.from_points_and_vector, p, q, b)
    raises(ValueError, 'no point', Plane.from_points, p, None, q)


def o_collinear_points():
    p, v = arr('p', (3,)), arr('v', (3,))
    k = sym('k')
    raises(ValueError, 'collinear points', Plane.from_points, p, p + v, p + k * v)
    raises(ValueError, 'repeated points', Plane.from_points, p, p, p + v)
    raises(ValueError, 'a vector along the points', Plane.from_points_and_vector, p, p + v, k * v)


def o_fit(f=FRAMES, order=((0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)), flat=(False, True), sign=('+++', '+-+')):
    # Spread most along u, less along w, least along k; the decomposition can list them in any order, with any sign.
    u, w, k = frame(f)
    m = arr('m', (3,))
    c = 0. if flat else sym('c', '+')
    b = c + sym('db', '+')
    a = b + sym('da', '+')
    points = np.array([m + 2 * a * u, m - a * u, m - a * u, m + 2 * b * w, m - b * w, m - b * w, m + 2 * c * k, m - c * k, m - c * k])
    axes = [u, w, k if sign == '+++' else -1 * k]
    spread = [6 * a * a / 8, 6 * b * b / 8, 6 * c * c / 8]
    eig_is(np.array([spread[i] for i in order]), np.array([axes[i] for i in order]).T)
    before = freeze(points)
    plane_ = Plane.fit_from_points(points)
    unchanged(points, before, 'the points')
    M = eig_of()[0]
    for i in range(3):
        same(cross(np.dot(M, axes[i]), axes[i]), [0, 0, 0], 'what is decomposed has the principal axes of the points')
    holds(dot(u, np.dot(M, u)) > dot(w, np.dot(M, w)), 'spread most along the first')
    holds(dot(w, np.dot(M, w)) > dot(k, np.dot(M, k)), 'spread least along the last')
    same(plane_.reference_point, m, 'centered on the centroid')
    same([dot(plane_.normal, u), dot(plane_.normal, w)], [0, 0], 'orthogonal to the two principal axes')
    same(dot(plane_.normal, plane_.normal), 1, 'a unit normal')
    apart(plane_, points, 'the plane')


def o_text():
    same(repr(Plane(np.array([1., 2., 3.]), np.array([0., 0., 2.]))), '<Plane of [0. 0. 1.] through [1. 2. 3.]>', 'repr()')


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    plane = Plane(np.array([0., k, 0.]), np.array([0., 2., 0.]))
    ys = [(i % 5 - 2.) * k for i in range(n)]
    q = np.array([[float(i), y, sym('z')] for i, y in enumerate(ys)])
    same(plane.signed_distance(q), [y - k for y in ys], 'signed distance of many')
    same(plane.distance(q), [abs(y - k) for y in ys], 'distance of many')
