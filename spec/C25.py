'''Differentiable normals: values and Jacobians, also after their inputs are set anew.'''
import numpy as np
import chumpy as ch
import scipy.sparse as sp
from sa import at_scale, sizes, sym, arr, same, freeze, unchanged, holds, derivative
from blmath.optimization.objectives import normals
from blmath.optimization.objectives.normals import NormalizedNx3, VertNormals, TriNormals, TriNormalsScaled, TriEdges, CrossProduct
from spec_frames import SCALES, NEXT_TO, cross

FACES = {
    'one': ((0, 1, 2),),
    'turned': ((2, 0, 1),),
    'two': ((0, 1, 2), (2, 1, 3)),
    'tetra': ((0, 1, 2), (0, 3, 1), (1, 3, 2), (2, 3, 0)),
    'apart': ((3, 1, 4), (2, 0, 5)),
}
USED = ('one', 'turned', 'two', 'apart')


def mesh(faces):
    f = np.array(FACES[faces])
    n = 1 + max(max(x) for x in FACES[faces])
    return arr('v', (n, 3)), f


def jacobian(x, wrt):
    d = x.dr_wrt(wrt)
    return None if d is None else d.toarray() if sp.issparse(d) else np.asarray(d)


def differentiated(value, x):
    '''The jacobian, by symbolic differentiation.'''
    return np.array([derivative(value, e).ravel() for e in x.ravel()]).T


def scaled(v, f):
    return np.array([cross(v[b] - v[a], v[c] - v[a]) for a, b, c in f.tolist()])


def rows_normalized(v):
    return np.array([r / (r[0] ** 2 + r[1] ** 2 + r[2] ** 2) ** .5 for r in v])


def about_vertices(v, f):
    '''The sum of the scaled normals of the faces at each vertex, and how many they are.'''
    s = scaled(v, f)
    at = [[i for i, x in enumerate(f.tolist()) if k in x] for k in range(len(v))]
    return np.array([sum([s[i] for i in ks], np.zeros(3)) for ks in at]), [len(ks) for ks in at]


def o_cross(n=sizes(1, 2, 3), shape=('flat', 'rows'), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', (n, 3)), arr('b', (n, 3))
    if shape == 'flat':
        a, b = a.ravel(), b.ravel()
    before = freeze((a, b))
    c = CrossProduct(a=ch.Ch(a), b=ch.Ch(b))
    want = np.array([cross(x, y) for x, y in zip(a.reshape((n, 3)), b.reshape((n, 3)))]).ravel()
    same(c.r.ravel(), want, 'the cross products')
    unchanged((a, b), before, 'the vectors')


def o_cross_jacobian(n=(1, 2), wrt=('a', 'b'), first=(False, True), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', (n, 3)), arr('b', (n, 3))
    x, y = ch.Ch(a), ch.Ch(b)
    c = CrossProduct(x, y)
    if first:
        c.r
    same(jacobian(c, x if wrt == 'a' else y), differentiated(c.r, a if wrt == 'a' else b), 'the jacobian')
    same(jacobian(c, ch.Ch(a)), None, 'does not depend on anything else')


def o_cross_set(which=('a', 'b', 'both', 'inside'), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', (2, 3)), arr('b', (2, 3))
    p, q = arr('p', (2, 3)), arr('q', (2, 3))
    x, y = ch.Ch(a), ch.Ch(b)
    c = CrossProduct(x, y)
    c.r, c.dr_wrt(x), c.dr_wrt(y)
    if which == 'inside':
        x.x = p
        a = p
    else:
        if which in ('a', 'both'):
            a = p
            x = ch.Ch(p)
            c.a = x
        if which in ('b', 'both'):
            b = q
            y = ch.Ch(q)
            c.b = y
    same(c.r.ravel(), np.array([cross(u, w) for u, w in zip(a, b)]).ravel(), 'the cross products of what was set')
    same(jacobian(c, x), differentiated(c.r, a), 'the jacobian of what was set')
    same(jacobian(c, y), differentiated(c.r, b), 'the jacobian of what was set')


def o_cross_size(scale=SCALES):
    at_scale(scale)
    c = CrossProduct(arr('a', (1, 3)), arr('b', (1, 3)))
    c.r, c.dr_wrt(c.a)
    a, b = arr('p', (2, 3)), arr('q', (2, 3))
    c.a, c.b = a, b
    same(c.r.ravel(), np.array([cross(u, w) for u, w in zip(a, b)]).ravel(), 'more vectors than before')
    same(jacobian(c, c.a), differentiated(c.r, a), 'the jacobian')
    same(jacobian(c, c.b), differentiated(c.r, b), 'the jacobian')


def o_edges(faces=tuple(sorted(FACES)), ends=((1, 0), (2, 0), (0, 2), (2, 1)), scale=SCALES):
    at_scale(scale)
    v, f = mesh(faces)
    before = freeze((v, f))
    x = ch.Ch(v)
    plus, minus = ends
    e = TriEdges(f, plus, minus, x)
    want = np.array([v[t[plus]] - v[t[minus]] for t in FACES[faces]])
    same(e.r.ravel(), want.ravel(), 'the edges, from the one end to the other')
    same(jacobian(e, x), differentiated(want, v), 'the jacobian')
    same(jacobian(e, ch.Ch(v)), None, 'does not depend on anything else')
    unchanged((v, f), before, 'the vertices and the faces')


def o_triangles_scaled(faces=tuple(sorted(FACES)), jac=(False, True), scale=SCALES):
    at_scale(scale)
    v, f = mesh(faces)
    before = freeze((v, f))
    x = ch.Ch(v)
    n = TriNormalsScaled(x, f)
    same(n.r.ravel(), scaled(v, f).ravel(), 'as long as twice the area, by the right hand rule')
    if jac:
        same(jacobian(n, x), differentiated(scaled(v, f), v), 'the jacobian')
    unchanged((v, f), before, 'the vertices and the faces')


def o_triangles(faces=tuple(sorted(FACES)), jac=(False, True), scale=SCALES):
    at_scale(scale)
    if jac and faces not in ('one', 'turned'):
        return
    v, f = mesh(faces)
    before = freeze((v, f))
    x = ch.Ch(v)
    n = TriNormals(x, f)
    want = rows_normalized(scaled(v, f))
    same(n.r.reshape((-1, 3)), want, 'unit normals, by the right hand rule')
    if jac:
        same(jacobian(n, x), differentiated(want, v), 'the jacobian')
    unchanged((v, f), before, 'the vertices and the faces')


def o_triangles_set(scale=SCALES):
    at_scale(scale)
    v, f = mesh('one')
    x = ch.Ch(v)
    n = TriNormals(x, f)
    n.r, n.dr_wrt(x)
    w = arr('w', v.shape)
    x.x = w
    same(n.r.reshape((-1, 3)), rows_normalized(scaled(w, f)), 'the normals of what was set')
    same(jacobian(n, x), differentiated(rows_normalized(scaled(w, f)), w), 'and their jacobian')


def o_normalized(n=sizes(1, 2, 3), shape=('flat', 'rows'), jac=(False, True), scale=SCALES):
    at_scale(scale)
    v = arr('v', (n, 3))
    given = v.ravel() if shape == 'flat' else v
    before = freeze(given)
    x = ch.Ch(given)
    u = NormalizedNx3(x)
    same(u.r.shape, given.shape, 'the shape')
    same(u.r.reshape((-1, 3)), rows_normalized(v), 'each row of length one')
    if jac:
        same(jacobian(u, x), differentiated(rows_normalized(v), v), 'the jacobian')
    same(jacobian(u, ch.Ch(v)), None, 'does not depend on anything else')
    unchanged(given, before, 'the vectors')


def o_normalized_zero(at=(0, 1), scale=SCALES):
    at_scale(scale)
    v = arr('v', (2, 3))
    v[at] = 0.
    before = freeze(v)
    u = NormalizedNx3(ch.Ch(v))
    same(u.r[at], np.zeros(3), 'zero stays zero')
    same(u.r[1 - at], rows_normalized(v[1 - at].reshape((1, 3)))[0], 'the other is normalized')
    unchanged(v, before, 'the vectors')


def by(p):
    return np.array([[0., -p[2], p[1]], [p[2], 0., -p[0]], [-p[1], p[0], 0.]])


def o_nearly_zero(of=('normalized', 'triangles', 'scaled', 'cross', 'vertices'), e=(1e-3, 1e-6, 1e-9), jac=(False, True)):
    # Small vectors and thin triangles have a direction, and a jacobian.
    if of == 'normalized':
        v = arr('v', (2, 3))
        given = np.array([v[0], e * v[1]])
        x = ch.Ch(given)
        u = NormalizedNx3(x)
        want = rows_normalized(v)
        same(u.r, want, 'each row of length one')
        if jac:
            d = differentiated(want, v)
            same(jacobian(u, x)[:, 3:] * e, d[:, 3:], 'the jacobian')
            same(jacobian(u, x)[:, :3], d[:, :3], 'the jacobian')
    elif of == 'cross':
        a, b = arr('a', (2, 3)), arr('b', (2, 3))
        x, y = ch.Ch(e * a), ch.Ch(b)
        c = CrossProduct(x, y)
        want = np.array([cross(p, q) for p, q in zip(a, b)])
        same(c.r.ravel() / e, want.ravel(), 'the cross products')
        if jac:
            same(jacobian(c, y) / e, differentiated(want, b), 'the jacobian')
            same(jacobian(c, x), differentiated(want, a), 'the jacobian')
    else:
        a, s, d = arr('a', (3,)), arr('s', (3,)), arr('d', (3,))
        f = np.array(FACES['one'])
        v = np.array([a, a + s, a + 2. * s + e * d])
        x = ch.Ch(v)
        want = cross(s, d)
        if of == 'scaled':
            n = TriNormalsScaled(x, f)
            same(n.r.ravel() / e, want, 'a thin triangle')
            if jac:
                p, q = v[1] - v[0], v[2] - v[0]
                same(jacobian(n, x), np.hstack([by(q) - by(p), -by(q), by(p)]), 'the jacobian')
        else:
            n = TriNormals(x, f) if of == 'triangles' else VertNormals(v=x, f=f)
            u = rows_normalized([want])[0]
            same(n.r.reshape((-1, 3)), np.array([u] if of == 'triangles' else [u, u, u]), 'a thin triangle')


def o_nearly_unit(b=NEXT_TO, f=(1, -1), jac=(False, True)):
    v = np.array([f * np.array(b), arr('v', (3,))])
    x = ch.Ch(v)
    u = NormalizedNx3(x)
    same(u.r[0] * 1e5, rows_normalized(v)[0] * 1e5, 'a row of length almost one')
    if jac:
        y, n = v[0], (v[0, 0] ** 2 + v[0, 1] ** 2 + v[0, 2] ** 2) ** .5
        want = (np.eye(3) - np.array([[p * q for q in y] for p in y]) / n ** 2) / n
        same(jacobian(u, x)[:3, :3] * 1e5, want * 1e5, 'the jacobian')


def o_normalized_set(how=('anew', 'inside'), scale=SCALES):
    at_scale(scale)
    u = NormalizedNx3(ch.Ch(arr('v', (1, 3))))
    u.r, u.dr_wrt(u.v)
    w = arr('w', (2, 3))
    if how == 'anew':
        u.v = ch.Ch(w)
    else:
        u.v.x = w
    same(u.r, rows_normalized(w), 'of what was set')
    same(jacobian(u, u.v), differentiated(rows_normalized(w), w), 'the jacobian of what was set')


def o_vertices(faces=tuple(sorted(FACES)), how=('default', 'positional', 'keyword'), array=(False, True), scale=SCALES):
    at_scale(scale)
    v, f = mesh(faces)
    before = freeze((v, f))
    given = v if array else ch.Ch(v)
    n = VertNormals(given, f) if how == 'positional' else VertNormals(v=given, f=f) if how == 'default' else VertNormals(v=given, f=f, normalized=True)
    total, count = about_vertices(v, f)
    same(n.r, rows_normalized(total), 'the direction of the sum of the normals of the faces at the vertex')
    unchanged((v, f), before, 'the vertices and the faces')


def o_vertices_jacobian(faces=('one', 'turned'), normalized=(True, False), scale=SCALES):
    at_scale(scale)
    v, f = mesh(faces)
    x = ch.Ch(v)
    n = VertNormals(v=x, f=f, normalized=normalized)
    total, count = about_vertices(v, f)
    want = rows_normalized(total) if normalized else about_as_long(total, count)
    same(jacobian(n, x), differentiated(want, v), 'the jacobian')
    same(jacobian(n, ch.Ch(v)), None, 'does not depend on anything else')


def about_as_long(total, count):
    out = []
    for t, k in zip(total, count):
        m = t / k
        out.append(m / (m[0] ** 2 + m[1] ** 2 + m[2] ** 2) ** .25)
    return np.array(out)


def o_vertices_long(faces=tuple(sorted(FACES)), scale=SCALES):
    at_scale(scale)
    v, f = mesh(faces)
    before = freeze((v, f))
    n = VertNormals(v=ch.Ch(v), f=f, normalized=False)
    same(n.r, about_as_long(*about_vertices(v, f)), 'the mean of the normals at the vertex, as long as the root of its length')
    unchanged((v, f), before, 'the vertices and the faces')


def o_vertices_set(normalized=(True, False), what=('inside', 'v', 'f', 'both', 'bigger'), scale=SCALES):
    at_scale(scale)
    v, f = mesh('two')
    x = ch.Ch(v)
    n = VertNormals(v=x, f=f, normalized=normalized)
    n.r
    if what == 'inside':
        v = arr('w', v.shape)
        x.x = v
    elif what == 'v':
        v = arr('w', v.shape)
        x = n.v = ch.Ch(v)
    elif what == 'f':
        f = np.array([[0, 2, 1], [3, 1, 0], [3, 2, 0]])
        n.f = f
    elif what == 'both':
        v, f = arr('w', v.shape), np.array([[0, 2, 1], [1, 3, 0]])
        n.f = f
        n.v = v
    else:
        v, f = arr('w', (6, 3)), np.array(FACES['apart'])
        n.set(v=v, f=f)
    total, count = about_vertices(v, f)
    same(n.r, rows_normalized(total) if normalized else about_as_long(total, count), 'of what was set')


def strip(n):
    k = sym('k', '+', pure=True)
    v = np.array([[i * k, (i % 2) * k, (i % 3) * k] for i in range(n + 2)])
    return v, np.array([(i, i + 1, i + 2) if i % 2 == 0 else (i + 1, i, i + 2) for i in range(n)])


def o_strip(n=sizes(3)):
    # As many faces as what is treated apart.
    v, f = strip(n)
    s, how = about_vertices(v, f)
    same(TriNormalsScaled(ch.Ch(v), f).r.reshape((-1, 3)), scaled(v, f), 'the scaled normals of many faces')
    same(TriNormals(ch.Ch(v), f).r.reshape((-1, 3)), rows_normalized(scaled(v, f)), 'the normals of many faces')
    same(VertNormals(ch.Ch(v), f).r.reshape((-1, 3)), rows_normalized(s), 'the normals at many vertices')
