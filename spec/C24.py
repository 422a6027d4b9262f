'''Cross sections of meshes by a plane.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds, apart
from spec_frames import SCALES
from spec_mixed import MIXED
from blmath.geometry import Plane, Polyline


class Mesh(object):
    def __init__(self, v, f):
        self.v = v
        self.f = f


TETRA = ((0, 1, 2), (0, 3, 1), (1, 3, 2), (2, 3, 0))
OCTA = ((0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5))
TUBE = ((0, 1, 3), (1, 4, 3), (1, 2, 4), (2, 5, 4), (2, 0, 5), (0, 3, 5))
DOUBLE = TETRA + tuple((a + 4, b + 4, c + 4) for a, b, c in TETRA)
WITH_FLAP = TETRA + ((4, 5, 6), (5, 7, 6))


def torus(n=3, m=3):
    fs = []
    for i in range(n):
        for j in range(m):
            a, b = i * m + j, i * m + (j + 1) % m
            c, d = ((i + 1) % n) * m + j, ((i + 1) % n) * m + (j + 1) % m
            fs.append((a, b, c))
            fs.append((b, d, c))
    return tuple(fs)


# Each mesh with the side of the plane each vertex is on.
CASES = {
    'tetra corner': (TETRA, '+---'),
    'tetra other corner': (TETRA, '++-+'),
    'tetra middle': (TETRA, '++--'),
    'tetra other middle': (TETRA, '-+-+'),
    'octa tip': (OCTA, '----+-'),
    'octa side': (OCTA, '+--+-+'),
    'octa edge': (OCTA, '+-+---'),
    'octa belt': (OCTA, '+++-++'),
    'octa around': (OCTA, '+-++--'),
    'triangle': (((0, 1, 2),), '+--'),
    'triangle other': (((0, 1, 2),), '-+-'),
    'triangle third': (((0, 1, 2),), '--+'),
    'two triangles': (((0, 1, 2), (2, 1, 3)), '+---'),
    'strip': (((0, 1, 2), (2, 1, 3), (2, 3, 4), (4, 3, 5)), '+-+-+-'),
    'apart': (((0, 1, 2), (3, 4, 5)), '+----+'),
    'disc': (((0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 5, 1)), '+-----'),
    'disc open': (((0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 5, 1)), '+++---'),
    'tube across': (TUBE, '+++---'),
    'tube along': (TUBE, '+--+--'),
    'two tetras': (DOUBLE, '+---++--'),
    'one of two tetras': (DOUBLE, '+-------'),
    'tetra and flap': (WITH_FLAP, '+---+-+-'),
    'torus': (torus(), '+++------'),
    'torus other way': (torus(), '+--+--+--'),
    'torus tip': (torus(), '+--------'),
}

for n in sizes(3):
    FAN = tuple((0, i, i % n + 1) for i in range(1, n + 1))
    CASES['fan of %d' % n] = (FAN, '+' + '-' * n)
    CASES['long strip of %d' % n] = (tuple((i, i + 1, i + 2) if i % 2 == 0 else (i + 1, i, i + 2) for i in range(n)), ('+-' * n)[:n + 2])

NORMALS = {'y': ((0., 1., 0.), (1., 0., 0.), (0., 0., 1.)), '-z': ((0., 0., -1.), (1., 0., 0.), (0., 1., 0.)), 'tilted': ((.6, 0., .8), (0., 1., 0.), (.8, 0., -.6))}


def build(case, normal, order='as is', scale=1.):
    '''(plane, mesh, sides, heights): the vertices anywhere on their side of the plane.'''
    faces, sides = CASES[case]
    n, e1, e2 = [np.array(x) for x in NORMALS[normal]]
    at = arr('r', (3,))
    hs = [sym('h%d' % i, s) for i, s in enumerate(sides)]
    v = np.array([at + h * n + sym('a%d' % i) * e1 + sym('b%d' % i) * e2 for i, h in enumerate(hs)])
    fs = [tuple(f) for f in faces]
    if order == 'reversed':
        fs = [(c, b, a) for a, b, c in fs][::-1]
    elif order == 'turned':
        fs = [(f[(i + 1) % 3], f[(i + 2) % 3], f[i % 3]) for i, f in enumerate(fs)]
        fs = fs[1:] + fs[:1]
    elif order == 'mixed':
        fs = [f if i % 2 else (f[1], f[0], f[2]) for i, f in enumerate(fs)]
        fs = fs[::2] + fs[1::2]
    return Plane(at, n), Mesh(v, np.array(fs, dtype=np.uint32)), hs, fs


def crossings(hs, fs, sides, v):
    '''{edge: point} and the pairs of edges which share a face.'''
    points, links = {}, []
    for f in fs:
        cut = []
        for i in range(3):
            a, b = f[i], f[(i + 1) % 3]
            if sides[a] != sides[b]:
                e = (a, b) if a < b else (b, a)
                cut.append(e)
                t = hs[a] / (hs[a] - hs[b])
                points[e] = v[a] + t * (v[b] - v[a])
        if len(cut) == 2:
            links.append((cut[0], cut[1]))
    return points, links


def pieces(points, links):
    '''Sets of edges connected by faces.'''
    out = []
    left = list(points)
    while left:
        piece = [left[0]]
        for e in piece:
            for a, b in links:
                if a == e and b not in piece:
                    piece.append(b)
                if b == e and a not in piece:
                    piece.append(a)
        left = [e for e in left if e not in piece]
        out.append(piece)
    return out


def is_closed(piece, links):
    return all(sum(1 for a, b in links if e in (a, b)) == 2 for e in piece)


def which(p, points):
    '''The edges whose crossing this point is.'''
    return [e for e, x in points.items() if np.all(x == p)]


def check_piece(line, points, links, found):
    holds(isinstance(line, Polyline), 'a polyline')
    names = []
    for p in line.v:
        es = which(p, points)
        same(len(es), 1, 'each vertex is where one edge crosses the plane')
        if len(es) != 1:
            return
        names.append(es[0])
    same(len(set(names)), len(names), 'no crossing is visited twice')
    pairs = set(links) | set((b, a) for a, b in links)
    steps = list(zip(names[:-1], names[1:]))
    for s in steps:
        holds(s in pairs, 'consecutive vertices are in a common face')
    whole = [q for q in pieces(points, links) if names[0] in q][0]
    same(set(names), set(whole), 'the whole of a connected component')
    shut = is_closed(whole, links)
    same(line.closed, shut, 'closed when the mesh is closed there')
    if shut:
        holds((names[-1], names[0]) in pairs, 'the last vertex leads back to the first')
    found.append(tuple(sorted(whole)))


ORDERS = ('as is', 'reversed', 'turned', 'mixed')


def o_xsections(case=tuple(sorted(CASES)), normal=('y', '-z', 'tilted'), order=ORDERS, scale=SCALES):
    at_scale(scale)
    if case.startswith('torus') and (normal == 'tilted' or order in ('turned', 'mixed')):
        return
    if len(CASES[case][1]) > 50 and (scale != 1 or order != 'as is'):
        return
    if ' of ' in case and (normal != 'y' or order in ('turned', 'mixed')) and case != 'one of two tetras':
        return
    plane, m, hs, fs = build(case, normal, order)
    sides = CASES[case][1]
    points, links = crossings(hs, fs, sides, m.v)
    before = freeze((m, plane))
    lines = plane.mesh_xsections(m)
    unchanged((m, plane), before, 'the mesh and the plane')
    same(len(lines), len(pieces(points, links)), 'as many polylines as connected components')
    found = []
    for line in lines:
        check_piece(line, points, links, found)
    same(len(set(found)), len(found), 'each component once')
    apart(lines, m, 'the cross section')


def o_nearly_touching(case=('tetra corner', 'tetra middle', 'octa side', 'strip', 'triangle', 'disc', 'two tetras'), normal=('y', 'tilted'), which=('first', 'last', 'half'), e=(1e-4, 1e-8, 1e-12)):
    # Vertices almost in the plane are still on their side of it.
    faces, sides = CASES[case]
    n, e1, e2 = [np.array(x) for x in NORMALS[normal]]
    at = arr('r', (3,))
    hs = [sym('h%d' % i, s) for i, s in enumerate(sides)]
    close = [0] if which == 'first' else [len(sides) - 1] if which == 'last' else list(range(0, len(sides), 2))
    hs = [e * h if i in close else h for i, h in enumerate(hs)]
    v = np.array([at + h * n + sym('a%d' % i) * e1 + sym('b%d' % i) * e2 for i, h in enumerate(hs)])
    plane, m = Plane(at, n), Mesh(v, np.array(faces, dtype=np.uint32))
    points, links = crossings(hs, faces, sides, v)
    lines = plane.mesh_xsections(m)
    same(len(lines), len(pieces(points, links)), 'as many polylines as connected components')
    found = []
    for line in lines:
        check_piece(line, points, links, found)
    same(len(set(found)), len(found), 'each component once')
    same(plane.mesh_intersecting_faces(m), np.array([f for f in faces if len(set(sides[i] for i in f)) == 2]), 'the faces with vertices on both sides')


def o_one_polyline(case=('tetra middle', 'octa side', 'two tetras', 'tetra and flap', 'triangle', 'strip'), normal=('y', 'tilted'), scale=SCALES):
    at_scale(scale)
    plane, m, hs, fs = build(case, normal)
    lines = plane.mesh_xsections(m)
    before = freeze(m)
    one = plane.mesh_xsection(m)
    unchanged(m, before, 'the mesh')
    holds(isinstance(one, Polyline), 'one polyline')
    same(one.v, np.vstack([x.v for x in lines]), 'the vertices of the components, one after the other')
    same(one.closed, True, 'closed')


def o_no_intersection(case=('tetra corner', 'strip', 'two tetras', 'triangle'), side=('+', '-'), normal=('y', 'tilted'), neighborhood=(False, True), scale=SCALES):
    at_scale(scale)
    faces = CASES[case][0]
    n = 1 + max(max(f) for f in faces)
    axis, e1, e2 = [np.array(x) for x in NORMALS[normal]]
    at = arr('r', (3,))
    v = np.array([at + sym('h%d' % i, side) * axis + sym('a%d' % i) * e1 + sym('b%d' % i) * e2 for i in range(n)])
    plane, m = Plane(at, axis), Mesh(v, np.array(faces))
    near = arr('n', (2, 3)) if neighborhood else None
    same(plane.mesh_xsections(m, neighborhood=near), [], 'no polylines')
    one = plane.mesh_xsection(m, neighborhood=near)
    holds(isinstance(one, Polyline), 'an empty polyline')
    same(one.v, None, 'an empty polyline')
    same(len(plane.mesh_intersecting_faces(m)), 0, 'no faces')


def o_intersecting_faces(case=('tetra corner', 'tetra middle', 'octa tip', 'octa side', 'tube across', 'one of two tetras', 'tetra and flap', 'torus tip'), normal=('y', '-z', 'tilted'), order=ORDERS, scale=SCALES):
    at_scale(scale)
    plane, m, hs, fs = build(case, normal, order)
    sides = CASES[case][1]
    before = freeze((m, plane))
    got = plane.mesh_intersecting_faces(m)
    unchanged((m, plane), before, 'the mesh and the plane')
    same(got, np.array([f for f in fs if len(set(sides[i] for i in f)) == 2]), 'the faces with vertices on both sides, in order')
    apart(got, m, 'the faces')


def o_intersecting_faces_touching(sides=('0+-', '0--', '00+', '+0+', '-00', '0++', '--0'), scale=SCALES):
    # A face with vertices on the plane is not to one side of it.
    at_scale(scale)
    at = arr('r', (3,))
    n = np.array([0., 1., 0.])
    v = np.array([at + np.array([sym('a%d' % i), 0. if s == '0' else sym('h%d' % i, s), sym('b%d' % i)]) for i, s in enumerate(sides + '+++')])
    f = np.array([[0, 1, 2], [3, 4, 5]])
    same(Plane(at, n).mesh_intersecting_faces(Mesh(v, f)), f[:1], 'the face which touches the plane')


# --- the component nearest to given points

def two(kind):
    '''Two components, the first around x = 0 and the second around x = 10, cut by y = 0.'''
    if kind == 'uneven':
        # A tube cut in ten points, and a tetrahedron cut in three.
        ring = [(1., 0.), (.5, 1.), (-.5, 1.), (-1., 0.), (0., -1.)]
        base = [[x, y, z] for y in (-1., 1.) for x, z in ring] + [[10., 1., 0.], [11., -1., 0.], [9., -1., 1.], [9., -1., -1.]]
        return base, tuple(f for i in range(5) for f in ((i, (i + 1) % 5, i + 5), ((i + 1) % 5, (i + 1) % 5 + 5, i + 5))) + tuple(
            (a + 10, b + 10, c + 10) for a, b, c in TETRA)
    faces, sides = CASES['two tetras' if kind == 'closed' else 'tetra and flap']
    base = [[0., 1., 0.], [1., -1., 0.], [-1., -1., 1.], [-1., -1., -1.]]
    other = [[x + 10., y, z] for x, y, z in base] if kind == 'closed' else [[10., 1., 0.], [11., -1., 0.], [11., 1., 1.], [12., -1., 1.]]
    return base + other, faces


def o_neighborhood(kind=('closed', 'open', 'uneven'), near=(0, 1), n=(1, 2), first=(0, 1), one=(False, True), scale=SCALES):
    at_scale(scale)
    base, faces = two(kind)
    if first:
        faces = faces[-4:] + faces[:-4]
    k, at = sym('k', '+'), arr('r', (3,))
    v = np.array([at + k * np.array(x) for x in base])
    plane, m = Plane(at, np.array([0., 1., 0.])), Mesh(v, np.array(faces))
    spots = [[2., 0., .5], [3., 4., 0.]] if near == 0 else [[8., 0., .5], [13., -3., 1.]]
    if kind == 'uneven':
        spots = [[4., 0., .5], [4., 1., -.5]] if near == 0 else [[6., 0., .5], [13., -3., 1.]]
    close = np.array([at + k * np.array(s) for s in spots[:n]])
    before = freeze((m, plane, close))
    every = plane.mesh_xsections(m)
    same(len(every), 2, 'two components')
    want = [x for x in every if np.all(x.v[:, 0] < at[0] + 5 * k) == (near == 0)]
    same(len(want), 1, 'one of them is near')
    if one:
        got = plane.mesh_xsection(m, close)
        same(got.v, want[0].v, 'the nearest component')
        same(got.closed, True, 'closed')
    else:
        lines = plane.mesh_xsections(m, neighborhood=close)
        same(len(lines), 1, 'one component')
        same(lines[0].v, want[0].v, 'the nearest component')
        same(lines[0].closed, want[0].closed, 'closed as it is')
        same(lines[0].closed, kind != 'open' or near == 0, 'closed as it is')
    unchanged((m, plane, close), before, 'the mesh, the plane and the points')


def crossings_of_corner(tetra):
    (x, h, z) = tetra[0]
    return [[x + (b[0] - x) * h / (h - b[1]), 0., z + (b[2] - z) * h / (h - b[1])] for b in tetra[1:]]


def o_nearest_of_the_whole(near=(1, 2, 3, 5), i=(0, 1, 2, 3, 4, 5), order=('first', 'last'), faces=('as is', 'reversed')):
    tetras, spots = MIXED[near][i]
    both = tetras if order == 'first' else tetras[::-1]
    v = np.array(both[0] + both[1])
    fs = DOUBLE
    if faces == 'turned':
        fs = tuple((b, c, a) for a, b, c in fs[1:] + fs[:1])
    elif faces == 'reversed':
        fs = tuple((c, b, a) for a, b, c in fs)[::-1]
    plane, m = Plane(np.zeros(3), np.array([0., 1., 0.])), Mesh(v, np.array(fs))
    got = plane.mesh_xsections(m, neighborhood=np.array(spots))
    same(len(got), 1, 'one component')
    want = crossings_of_corner(tetras[0])
    same(len(got[0].v), 3, 'the nearest component')
    for p in want:
        holds(min(np.sum((q - np.array(p)) ** 2) for q in got[0].v) < 1e-18, 'the nearest component')
    one = plane.mesh_xsection(m, neighborhood=np.array(spots))
    same(one.v, got[0].v, 'the nearest component')


def o_neighborhood_one_component(case=('tetra middle', 'strip'), scale=SCALES):
    at_scale(scale)
    plane, m, hs, fs = build(case, 'y')
    lines = plane.mesh_xsections(m)
    got = plane.mesh_xsections(m, neighborhood=arr('n', (2, 3)))
    same(len(got), 1, 'the only component')
    same((got[0].v, got[0].closed), (lines[0].v, lines[0].closed), 'the only component')
