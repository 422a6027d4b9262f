'''Lines and segments against a plane: single, stacked, and each other.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds
from blmath.geometry import Plane
from spec_frames import FRAMES, FEW, SCALES, frame, dot, cross

NAN = float('nan')


def at(f, o, name, s):
    u, w, n = frame(f)
    return o + sym('a' + name) * u + sym('b' + name) * w + sym('d' + name, s) * n


def o_line(f=FRAMES, s=('+', '-', '0'), scale=SCALES):
    at_scale(scale)
    u, w, n = frame(f)
    o = arr('o', (3,))
    plane = Plane(o, sym('k', '+', pure=True) * n)
    pt = at(f, o, 'p', '?')
    ray = sym('x') * u + sym('y') * w + sym('z', s) * n
    before = freeze((pt, ray))
    r = plane.line_xsection(pt, ray)
    if s == '0':
        same(r, None, 'a parallel line does not cross')
    else:
        same(dot(r - o, n), 0, 'the crossing is on the plane')
        same(cross(r - pt, ray), [0, 0, 0], 'the crossing is on the line')
        same(plane.line_xsection(pt.tolist(), ray.tolist()), r, 'lists')
        same(plane.line_xsection(pt.reshape((1, 3)), ray.reshape((1, 3))), r, '1 x 3 arrays')
    unchanged((pt, ray), before, 'the arguments')


def o_in_plane_line(f=FEW):
    # On the coordinate planes, where arithmetic is exact.
    o = np.zeros(3)
    plane = Plane(o, np.array([0.0, 0.0, 2.0]))
    same(plane.line_xsection(np.array([1.0, 2.0, 0.0]), np.array([1.0, 1.0, 0.0])), None, 'a line in the plane')
    same(plane.line_segment_xsection(np.array([1.0, 2.0, 0.0]), np.array([2.0, 5.0, 0.0])), None, 'a segment in the plane')


def o_nearly_parallel(f=FRAMES, z=('+', '-', '+-'), e=(1e-3, 1e-5, 3e-7)):
    # A line almost parallel to the plane crosses it, far away.
    u, w, n = frame(f)
    o = arr('o', (3,))
    plane = Plane(o, sym('k', '+', pure=True) * n)
    pts = np.array([at(f, o, 'p%d' % i, '+') for i in range(len(z))])
    rays = np.array([sym('x%d' % i) * u + sym('y%d' % i) * w + e * sym('z%d' % i, s) * n for i, s in enumerate(z)])
    r, valid = plane.line_xsections(pts, rays)
    same(valid, [True] * len(z), 'which lines cross')
    far = np.array([pts[i] - sym('dp%d' % i, '+') / (e * sym('z%d' % i, s)) * rays[i] for i, s in enumerate(z)])
    same(r, far, 'where they cross')
    for i in range(len(z)):
        same(plane.line_xsection(pts[i], rays[i]), far[i], 'where one crosses')


def o_nearly_in_plane(f=FRAMES, s=('-+', '+-', '++', '--'), e=(1e-3, 1e-5, 1e-7)):
    # A segment close to the plane, and almost along it, crosses it or does not.
    u, w, n = frame(f)
    o = arr('o', (3,))
    plane = Plane(o, sym('k', '+', pure=True) * n)
    if s in ('++', '--'):
        dp = sym('p', s[0], pure=True)
        dq = dp + sym('q', s[0], pure=True)
    else:
        dp, dq = sym('p', s[0], pure=True), sym('q', s[1], pure=True)
    a = o + sym('a') * u + sym('b') * w + e * dp * n
    b = a + sym('x', '+') * u + sym('y', '-') * w + e * (dq - dp) * n
    r = plane.line_segment_xsection(a, b)
    rs, valid = plane.line_segment_xsections(np.array([a, b]), np.array([b, a]))
    if s in ('++', '--'):
        same(r, None, 'a segment on one side')
        same(valid, [False, False], 'segments on one side')
    else:
        c = a + dp / (dp - dq) * (b - a)
        same(r, c, 'a segment across the plane')
        same(valid, [True, True], 'segments across the plane')
        same(rs, [c, c], 'segments across the plane')


# A segment is given by where its line crosses the plane, c, and how far along v its ends are from there.
SPANS = ('-+', '+-', '++', '--', '0+', '+0', '-0', '0-')
VS = (('+', '+', '+'), ('-', '+', '+'), ('+', '-', '+'), ('-', '-', '-'), ('0', '0', '+'), ('-', '+', '0'), ('0', '-', '-'), ('+', '0', '0'))


def parallel(f, vs):
    # Directions of those that are along the plane for that frame.
    n = frame(f)[2]
    return len([i for i in range(3) if vs[i] != '0' and n[i] != 0]) == 0


def ends(f, o, i, vs, s):
    u, w, n = frame(f)
    v = np.array([sym('v%d_%d' % (i, j), vs[j]) for j in range(3)])
    c = o + sym('a%d' % i) * u + sym('b%d' % i) * w
    p = sym('s%d' % i, s[0], pure=True)
    if s in ('++', '--'):
        # Keep them apart.
        q = p + sym('t%d' % i, s[0], pure=True)
    else:
        q = sym('t%d' % i, s[1], pure=True)
    return c, c + p * v, c + q * v


def o_segment(f=FRAMES, vs=VS, s=SPANS, scale=SCALES):
    at_scale(scale)
    if parallel(f, vs):
        return
    u, w, n = frame(f)
    o = arr('o', (3,))
    plane = Plane(o, sym('k', '+', pure=True) * n)
    c, p, q = ends(f, o, 0, vs, s)
    before = freeze((p, q))
    if s in ('++', '--'):
        same(plane.line_segment_xsection(p, q), None, 'a segment on one side')
        same(plane.line_segment_xsection(q, p), None, 'a segment on one side')
    else:
        same(plane.line_segment_xsection(p, q), c, 'a segment across the plane')
        same(plane.line_segment_xsection(q, p), c, 'the reversed segment')
        same(plane.line_segment_xsection(p.tolist(), q.tolist()), c, 'lists')
    unchanged((p, q), before, 'the arguments')


def o_lines(f=FRAMES, z=('+', '-', '0+', '+0', '-0+', '0', '+-'), scale=SCALES):
    at_scale(scale)
    u, w, n = frame(f)
    o = arr('o', (3,))
    plane = Plane(o, sym('k', '+', pure=True) * n)
    pts = np.array([at(f, o, 'p%d' % i, '?') for i in range(len(z))])
    rays = np.array([sym('x%d' % i) * u + sym('y%d' % i) * w + sym('z%d' % i, s) * n for i, s in enumerate(z)])
    before = freeze((pts, rays))
    r, valid = plane.line_xsections(pts, rays)
    same(valid, [s != '0' for s in z], 'which lines cross')
    same(r.shape, (len(z), 3), 'one row per line')
    for i, s in enumerate(z):
        if s == '0':
            same(r[i], [NAN, NAN, NAN], 'the row of a line that does not cross')
        else:
            same(r[i], plane.line_xsection(pts[i], rays[i]), 'the row of a line that crosses')
    unchanged((pts, rays), before, 'the arguments')


MIXES = (('-+',), ('++',), ('--', '+-'), ('0+', '++'), ('+-', '--', '-0', '00'), ('00', '+-'), ('++', '-+', '+-', '--'))


def o_segments(f=FRAMES, k=sizes(0, 1, 2, 3), z=MIXES, scale=SCALES):
    at_scale(scale)
    u, w, n = frame(f)
    o = arr('o', (3,))
    plane = Plane(o, sym('k', '+', pure=True) * n)
    cs, ps, qs = [], [], []
    for i in range(len(z)):
        s, vs = z[i], VS[(k + i) % 4]
        if s == '00':
            # Parallel to the plane.
            c = None
            p = o + sym('a%d' % i) * u + sym('b%d' % i) * w + sym('d%d' % i, '+') * n
            q = p + sym('x%d' % i, '+') * u + sym('y%d' % i, '-') * w
        else:
            c, p, q = ends(f, o, i, vs, s)
        cs.append(c)
        ps.append(p)
        qs.append(q)
    a, b = np.array(ps), np.array(qs)
    before = freeze((a, b))
    r, valid = plane.line_segment_xsections(a, b)
    crossed = [s not in ('++', '--', '00') for s in z]
    same(valid, crossed, 'which segments cross')
    same(r.shape, (len(z), 3), 'one row per segment')
    for i in range(len(z)):
        if crossed[i]:
            same(r[i], cs[i], 'the row of a segment that crosses')
            same(plane.line_segment_xsection(a[i], b[i]), cs[i], 'one segment')
        else:
            same(r[i], [NAN, NAN, NAN], 'the row of a segment that does not cross')
            same(plane.line_segment_xsection(a[i], b[i]), None, 'one segment')
    unchanged((a, b), before, 'the arguments')


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    plane = Plane(np.array([0., k, 0.]), np.array([0., 2., 0.]))
    turned = [(0., 1., 0.), (0., -2., 0.), (1., 1., 0.)]
    crossed = [i % 4 != 1 for i in range(n)]
    a = np.array([[i * k, 0. * k, sym('z')] for i in range(n)])
    r, valid = plane.line_xsections(a, np.array([turned[i % 3] if c else (1., 0., 0.) for i, c in enumerate(crossed)]))
    same(valid, crossed, 'which of many lines cross')
    at = [[i * k + (k if i % 3 == 2 else 0.), k, sym('z')] for i in range(n)]
    same(r, [p if c else [NAN, NAN, NAN] for p, c in zip(at, crossed)], 'where many lines cross')
    b = np.array([[i * k, 3. * k if c else -k, sym('z')] for i, c in enumerate(crossed)])
    r, valid = plane.line_segment_xsections(a, b)
    same(valid, crossed, 'which of many segments cross')
    same(r, [[i * k, k, sym('z')] if c else [NAN, NAN, NAN] for i, c in enumerate(crossed)], 'where many segments cross')
