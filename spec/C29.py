'''Convex hulls of planar curves, given what the hull of the plane points is.'''
import numpy as np
from scipy.spatial import ConvexHull
from sklearn.decomposition import PCA
from sa import at_scale, sym, arr, same, freeze, unchanged, holds, apart
from blmath.geometry import Polyline
from blmath.geometry import convexify
from blmath.geometry.convexify import convexify_planar_curve, convexify_and_flatten_planar_curve
from spec_frames import SCALES, FRAMES, FEW, frame, dot

# Which vertices the hull has, in its order.
HULLS = {3: ((0, 1, 2), (0, 2, 1), (2, 1, 0)), 4: ((0, 1, 2, 3), (3, 1, 0), (2, 0, 1)), 5: ((4, 2, 1), (0, 1, 2, 4))}


def planar(n, f, off=False):
    '''(vertices, coordinates in the plane, frame): any points of the plane (or near it).'''
    u, w, k = frame(f)
    o = arr('o', (3,))
    c = np.array([[sym('a%d' % i), sym('b%d' % i)] for i in range(n)])
    h = [sym('h%d' % i) if off else 0. for i in range(n)]
    return np.array([o + c[i, 0] * u + c[i, 1] * w + h[i] * k for i in range(n)]), c, (u, w, k)


def ways(p, normal, way, flatten):
    '''The entry points.'''
    if way == 'keywords':
        return convexify_planar_curve(p, flatten=flatten, want_vertices=True, normal=normal)
    if way == 'positional':
        return convexify_planar_curve(p, flatten, True, normal)
    return convexify_and_flatten_planar_curve(p, want_vertices=True, normal=normal)


def same_shape(seen, c):
    '''The points given to the hull are an affine image of the coordinates, and not degenerate.'''
    same(seen.shape, c.shape, 'two coordinates for each vertex')
    d, e = c[1] - c[0], c[2] - c[0]
    det = d[0] * e[1] - d[1] * e[0]
    s, t = seen[1] - seen[0], seen[2] - seen[0]
    holds(s[0] * t[1] - s[1] * t[0] != 0, 'the projection does not collapse the plane')
    for i in range(3, len(c)):
        f = c[i] - c[0]
        x, y = (f[0] * e[1] - f[1] * e[0]) / det, (d[0] * f[1] - d[1] * f[0]) / det
        same(seen[i] - seen[0], x * s + y * t, 'what is hulled is an affine image of the curve')


def o_hull(n=(3, 4, 5), hull=(0, 1, 2), f=FRAMES, closed=(False, True), normal=('given', 'estimated'), way=('keywords', 'positional'), scale=SCALES):
    at_scale(scale)
    if hull >= len(HULLS[n]):
        return
    hull = HULLS[n][hull]
    v, c, axes = planar(n, f)
    ConvexHull.pretend = hull
    PCA.pretend = axes
    ConvexHull.seen = None
    p = Polyline(v, closed=closed)
    before = freeze((p, v))
    r, ix = ways(p, axes[2] if normal == 'given' else None, way, False)
    unchanged((p, v), before, 'the curve')
    holds(isinstance(r, Polyline), 'a polyline')
    holds(r is not p, 'another polyline')
    same(r.v, v[list(hull)], 'the vertices of the hull, in its order')
    same(ix, np.array(hull), 'the indices of the vertices')
    same(r.closed, closed, 'closed as the curve is')
    same(len(r.e), len(hull) if closed else len(hull) - 1, 'and its edges')
    same_shape(ConvexHull.seen, c)
    apart(r, p, 'the hull')
    again = convexify_planar_curve(p, normal=axes[2]) if normal == 'given' else convexify_planar_curve(p)
    holds(isinstance(again, Polyline), 'only the polyline')
    same((again.v, again.closed), (r.v, r.closed), 'the same without the indices')


def o_flat(n=(3, 4, 5), hull=(0, 1, 2), f=FRAMES, closed=(False, True), normal=('given', 'estimated'), way=('keywords', 'positional', 'direct'), scale=SCALES):
    # The curve is in a plane: flattening loses nothing.
    at_scale(scale)
    if hull >= len(HULLS[n]) or (f not in FEW and n == 5):
        return
    hull = HULLS[n][hull]
    v, c, axes = planar(n, f)
    ConvexHull.pretend = hull
    PCA.pretend = axes
    ConvexHull.seen = None
    p = Polyline(v, closed=closed)
    before = freeze((p, v))
    r, ix = ways(p, axes[2] if normal == 'given' else None, way, True)
    unchanged((p, v), before, 'the curve')
    holds(isinstance(r, Polyline), 'a polyline')
    same(r.v, v[list(hull)], 'the vertices of the hull, where they were')
    same(ix, np.array(hull), 'the indices of the vertices')
    same(r.closed, closed, 'closed as the curve is')
    same_shape(ConvexHull.seen, c)
    apart(r, p, 'the hull')
    if way == 'direct':
        again = convexify_and_flatten_planar_curve(p, normal=axes[2])
    else:
        again = convexify_planar_curve(p, flatten=True, normal=axes[2])
    holds(isinstance(again, Polyline), 'only the polyline')
    same((again.v, again.closed), (r.v, r.closed), 'the same without the indices')


def o_flattened(n=(4, 5), f=FRAMES, closed=(False, True), way=('keywords', 'direct'), centered=(False, True), scale=SCALES):
    # The curve is only near a plane: its vertices move along the normal, to the plane through their center.
    at_scale(scale)
    v, c, (u, w, k) = planar(n, f, off=True)
    if centered:
        if f not in FEW or n == 5:
            return
        v = np.vstack([v[:2], 0 - v[:2]])
    hull = HULLS[n][1]
    ConvexHull.pretend = hull
    p = Polyline(v, closed=closed)
    before = freeze((p, v))
    r, ix = ways(p, k, way, True)
    unchanged((p, v), before, 'the curve')
    m = np.mean(v, axis=0)
    want = np.array([v[i] - dot(v[i] - m, k) * k for i in hull])
    same(r.v, want, 'projected along the normal to the plane through the center')
    same(ix, np.array(hull), 'the indices of the vertices')
    same(r.closed, closed, 'closed as the curve is')


def o_nearly_flat(e=(1e-2, 1e-4, 1e-6, 1e-8), f=FEW, closed=(False, True), way=('keywords', 'direct')):
    # A curve almost in a plane is flattened all the same; not when that was not asked for.
    u, w, k = frame(f)
    o = arr('o', (3,))
    c = np.array([[sym('a%d' % i), sym('b%d' % i)] for i in range(4)])
    h = [sym('h%d' % i) for i in range(4)]
    flat = np.array([o + c[i, 0] * u + c[i, 1] * w for i in range(4)])
    v = np.array([flat[i] + e * h[i] * k for i in range(4)])
    hull = (3, 1, 0)
    ConvexHull.pretend = hull
    p = Polyline(v, closed=closed)
    r, ix = ways(p, k, way, True)
    m = (h[0] + h[1] + h[2] + h[3]) / 4.
    same((r.v - flat[list(hull)]) / e, [m * k, m * k, m * k], 'projected along the normal to the plane through the center')
    r, ix = ways(p, k, 'keywords', False)
    same((r.v - flat[list(hull)]) / e, [h[i] * k for i in hull], 'the vertices of the hull')


def o_nearly_centered(e=(1e-2, 2e-5, 5e-6), f=FEW, closed=(False, True), way=('keywords', 'direct'), flatten=(False, True)):
    # A curve almost (not quite) around the origin.
    if way == 'direct' and not flatten:
        return
    u, w, k = frame(f)
    c = ((1., 2.), (-3., 1.), (1., -4.), (1., 1.))
    v = np.array([x * u + y * w + e * (u - w + 2. * k) for x, y in c])
    hull = (3, 1, 0)
    ConvexHull.pretend = hull
    r, ix = ways(Polyline(v, closed=closed), k, way, flatten)
    same((r.v - v[list(hull)]) / e, np.zeros((3, 3)), 'the vertices of the hull, where they were')


def o_nearly_unit_normal(e=(1e-2, -1e-3, 1e-5, -1e-7), f=FEW, closed=(False, True)):
    v, c, (u, w, k) = planar(4, f)
    hull = (3, 1, 0)
    ConvexHull.pretend = hull
    r, ix = ways(Polyline(v, closed=closed), (1 + e) * k, 'keywords', False)
    same(r.v, v[list(hull)], 'the vertices of the hull')
    same_shape(ConvexHull.seen, c)


def o_turned_normal(f=FEW, flatten=(False, True), length=('unit', 'twice'), scale=SCALES):
    # The direction and the length of the normal do not matter.
    at_scale(scale)
    if flatten and length == 'twice':
        return
    v, c, (u, w, k) = planar(4, f)
    ConvexHull.pretend = (3, 1, 0)
    p = Polyline(v, closed=True)
    normal = -k if length == 'unit' else -2. * k
    before = freeze(normal)
    r, ix = ways(p, normal, 'keywords', flatten)
    unchanged(normal, before, 'the normal')
    same(r.v, v[[3, 1, 0]], 'the vertices of the hull')


def o_nothing_to_do(n=(0, 1), closed=(False, True), want=(False, True), flatten=(False, True), direct=(False, True), normal=('none', 'given'), scale=SCALES):
    at_scale(scale)
    if n == 0 and closed:
        return
    v = arr('v', (n, 3))
    p = Polyline(v, closed=closed)
    before = freeze((p, v))
    k = np.array([0., 0., 1.]) if normal == 'given' else None
    if direct:
        got = convexify_and_flatten_planar_curve(p, want_vertices=want, normal=k)
    else:
        got = convexify_planar_curve(p, flatten=flatten, want_vertices=want, normal=k)
    unchanged((p, v), before, 'the curve')
    if want:
        same(len(got), 2, 'the polyline and the indices')
        got, ix = got
        same(ix, np.arange(n), 'every vertex')
    holds(isinstance(got, Polyline), 'a polyline')
    same((got.v, got.closed), (v.reshape((n, 3)), closed), 'the same polyline')
