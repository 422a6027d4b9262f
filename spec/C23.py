'''Generated shapes: closed, consistently oriented, and of the right size.'''
import numpy as np
from sa import at_scale, sym, arr, same, raises, freeze, unchanged, holds, apart, private
from spec_frames import SCALES
from blmath.geometry import Plane
from blmath.geometry.shapes import create_rectangular_prism, create_cube, create_triangular_prism, create_horizontal_plane


def edges(faces):
    out = []
    for f in faces:
        for i in range(3):
            out.append((int(f[i]), int(f[(i + 1) % 3])))
    return out


def closed_surface(faces, n, what):
    es = edges(faces)
    same(len(set(es)), len(es), what + ': no edge is walked twice in one direction')
    same(set((b, a) for a, b in es), set(es), what + ': every edge is shared by two triangles, walked in opposite directions')
    same(set(a for a, b in es), set(range(n)), what + ': every vertex is used')
    # One piece, without holes.
    same(n - len(es) // 2 + len(faces), 2, what + ': a sphere')


def volume(v, faces):
    s = 0.
    for f in faces:
        a, b, c = v[int(f[0])], v[int(f[1])], v[int(f[2])]
        s = s + np.dot(a, np.cross(b, c))
    return s / 6.


def flattened(make, args, v, f, kw):
    for kwargs in ({}, {'ret_unique_vertices_and_faces': False}):
        t = make(*args, **kwargs)
        same(t.shape, (len(f), 3, 3), 'three corners of each triangle')
        for i, x in enumerate(f):
            for j in range(3):
                same(t[i, j], v[int(x[j])], 'the corners of the triangles')
        apart(t, args, 'the triangles')


def given(x, how):
    return x if how == 'array' else x.tolist()


def o_prism(how=('array', 'list'), call=('positional', 'keyword'), sign=(('+', '+', '+'), ('-', '+', '+')), scale=SCALES):
    at_scale(scale)
    o, s = arr('o', (3,)), arr('s', (3,), sign)
    if call == 'keyword' and how == 'list':
        return
    args = (given(o, how), given(s, how))
    before = freeze(args)
    if call == 'keyword':
        v, f = create_rectangular_prism(origin=args[0], size=args[1], ret_unique_vertices_and_faces=True)
    else:
        v, f = create_rectangular_prism(args[0], args[1], True)
    same(v.shape, (8, 3), 'eight vertices')
    same(len(f), 12, 'two triangles of each side')
    closed_surface(f, 8, 'the box')
    same(volume(v, f), s[0] * s[1] * s[2], 'the volume inside')
    want = [[o[0] + i * s[0], o[1] + j * s[1], o[2] + k * s[2]] for j in (0, 1) for i, k in ((0, 0), (1, 0), (1, 1), (0, 1))]
    for w in want:
        n = 0.
        for x in v:
            n = n + (1. if np.all(x == np.array(w)) else 0.)
        same(n, 1., 'each corner of the box is there once')
    # Each side is flat.
    for a in f:
        t = np.array([v[int(i)] for i in a])
        flat = 0
        for d in range(3):
            if np.all(t[:, d] == o[d]) or np.all(t[:, d] == o[d] + s[d]):
                flat = flat + 1
        same(flat, 1, 'each triangle is in one side')
    flattened(create_rectangular_prism, args, v, f, call)
    unchanged(args, before, 'the origin and the size')
    apart((v, f), args, 'the shape')


def o_cube(how=('array', 'list'), size=('+', '1', 'int'), scale=SCALES):
    at_scale(scale)
    o = arr('o', (3,))
    s = 2 if size == 'int' else sym('s', size)
    args = (given(o, how), s)
    before = freeze(args)
    v, f = create_cube(args[0], s, ret_unique_vertices_and_faces=True)
    closed_surface(f, 8, 'the cube')
    same(volume(v, f), s * s * s * 1., 'the volume inside')
    for d in range(3):
        same(np.min(v[:, d]), o[d], 'from the origin')
        same(np.max(v[:, d]), o[d] + s, 'to the origin and the size')
    w, g = create_rectangular_prism(o, np.array([s, s, s]), True)
    same((v, f), (w, g), 'a box of equal sides')
    flattened(create_cube, args, v, f, None)
    unchanged(args, before, 'the origin and the size')


def o_triangular(how=('array', 'keyword'), height=('+', '-')):
    p, q, r, h = arr('p', (3,)), arr('q', (3,)), arr('r', (3,)), sym('h', height)
    args = (p, q, r, h)
    before = freeze(args)
    if how == 'keyword':
        v, f = create_triangular_prism(p1=p, p2=q, p3=r, height=h, ret_unique_vertices_and_faces=True)
    else:
        v, f = create_triangular_prism(p, q, r, h, True)
    same(v.shape, (6, 3), 'six vertices')
    closed_surface(f, 6, 'the prism')
    n = np.cross(q - p, r - p)
    down = -h * n / np.linalg.norm(n)
    same(v, np.array([p, q, r, p + down, q + down, r + down]), 'the triangle, and the triangle behind it')
    same(volume(v, f), h * np.linalg.norm(n) / 2, 'the volume inside')
    plane = Plane.from_points(p, q, r)
    same(plane.signed_distance(v), np.array([0., 0., 0., -h, -h, -h]), 'behind the triangle')
    flattened(create_triangular_prism, args, v, f, how)
    unchanged(args, before, 'the corners and the height')
    apart((v, f), args, 'the shape')


def o_whole_numbers(which=('origin', 'size'), shape=('box', 'cube')):
    # Integers in one argument don't make integers of what is in the other.
    o = arr('o', (3,), integer=which == 'origin')
    if shape == 'box':
        s = arr('s', (3,), '+', integer=which == 'size')
        v, f = create_rectangular_prism(o, s, True)
    else:
        s = sym('s', '+', integer=which == 'size')
        v, f = create_cube(o, s, True)
        s = np.array([s, s, s])
    for d in range(3):
        same(np.min(v[:, d]), o[d], 'from the origin')
        same(np.max(v[:, d]), o[d] + s[d], 'to the origin and the size')


def o_slivers(e=(1e-2, 1e-4, 1e-6), height=('+', '-')):
    # A thin triangle has a direction too, and a flat prism a height.
    p, u, d, h = arr('p', (3,)), arr('u', (3,)), arr('d', (3,)), sym('h', height)
    q, r = p + u, p + 2. * u + e * d
    n = np.cross(u, d)
    down = -h * n / np.linalg.norm(n)
    v, f = create_triangular_prism(p, q, r, h, True)
    same(v, np.array([p, q, r, p + down, q + down, r + down]), 'the triangle, and the triangle behind it')
    same(volume(v, f) / e, h * np.linalg.norm(n) / 2, 'the volume inside')
    v, f = create_triangular_prism(p, q, p + 2. * u + d, e * h, True)
    same((v[3:] - v[:3]) / e, np.array([down, down, down]), 'the triangle behind it')
    closed_surface(f, 6, 'the prism')


def o_flat_boxes(e=(1e-3, 1e-6, 1e-9, 1e-13), axis=(0, 1, 2), sign=('+', '-')):
    o, s = arr('o', (3,)), arr('s', (3,), '+')
    s[axis] = e * sym('t', sign)
    v, f = create_rectangular_prism(o, s, True)
    closed_surface(f, 8, 'the box')
    same(volume(v, f) / e, s[0] * s[1] * s[2] / e, 'the volume inside')
    same(np.sum((v[:, axis] - o[axis]) / e), 4 * s[axis] / e, 'the corners')


def o_triangular_whole_numbers(which=('corners', 'height', 'corner')):
    p, q, r = [arr(c, (3,), integer=which == 'corners' or which == 'corner' and c == 'p') for c in ('p', 'q', 'r')]
    h = sym('h', '+', integer=which == 'height')
    v, f = create_triangular_prism(p, q, r, h, True)
    n = np.cross(q - p, r - p)
    down = -h * n / np.linalg.norm(n)
    same(v, np.array([p, q, r, p + down, q + down, r + down]), 'the triangle, and the triangle behind it')


def o_horizontal(scale=SCALES):
    at_scale(scale)
    v, f = create_horizontal_plane(True)
    same(len(v), 4, 'four vertices')
    same(v[:, 1], np.zeros(4), 'horizontal')
    same(len(f), 2, 'two triangles')
    es = edges(f)
    same(len(set(es)), 6, 'the triangles are not walked in the same direction where they meet')
    inner = [e for e in es if (e[1], e[0]) in es]
    same(len(inner), 2, 'they meet in one edge')
    same(set(a for a, b in es), set([0, 1, 2, 3]), 'every vertex is used')
    area = [np.cross(v[b] - v[a], v[c] - v[a])[1] for a, b, c in f]
    holds(area[0] * area[1] > 0, 'both face the same way')
    same(abs(area[0]) + abs(area[1]), 4., 'a square')
    flattened(create_horizontal_plane, (), v, f, None)
    private((v, f), 'the shape is the caller\'s own')
    private(create_horizontal_plane(), 'the triangles are the caller\'s own')
