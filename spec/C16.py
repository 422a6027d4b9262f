'''Polyline: reindexing, subdivision, and what a plane does to it.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds
from blmath.geometry import Polyline, Plane
from spec_frames import SCALES, FRAMES, FEW, frame, dot, length
from spec_C04 import in_step

NUM = {'+': 1, '-': -1, '0': 0}
MANY = 50       # more than which are looked at in fewer ways


def o_reindexed(n=sizes(1, 2, 3, 5), i=sizes(0, 1, 2, 3, 4), scale=SCALES):
    at_scale(scale)
    if max(i, n) > MANY and (scale != 1 or 4 < i < MANY):
        return
    if i >= n:
        if i < 5 or n > 2:
            return
        n = i + n
    v = arr('v', (n, 3))
    before = freeze(v)
    p = Polyline(v, closed=True)
    want = [v[(i + j) % n] for j in range(n)]
    q = p.reindexed(i)
    in_step(q, np.array(want), True, 'reindexed')
    q, mapping = p.reindexed(i, ret_edge_mapping=True)
    in_step(q, np.array(want), True, 'reindexed')
    same(mapping, [(i + j) % n for j in range(n)], 'edge mapping')
    for j in range(n):
        same(q.segments[j], p.segments[mapping[j]], 'a mapped edge')
    in_step(p, v, True, 'the original')
    unchanged(v, before, 'the vertices given')


def o_reindexed_open(n=(1, 2, 3), scale=SCALES):
    at_scale(scale)
    p = Polyline(arr('v', (n, 3)))
    raises(ValueError, 'an open polyline', p.reindexed, 0)


# --- partition_by_length ------------------------------------------------------

STEPS = ((1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (3, 2), (0, 2), (2, 0, 1), (1, 3, 2))


def o_partition(steps=STEPS, closed=(False, True), ret=(False, True), exact=(False, True), scale=SCALES):
    # Axis-aligned edges of declared length: max_length * (k - 1/2), or k exactly.
    at_scale(scale)
    m = sym('m', '+')
    at = arr('o', (3,))
    if closed:
        # Out and back.
        if len(steps) != 1 or steps[0] == 0:
            return
        half = 0 if exact else 0.5
        v = np.array([at, at + np.array([m * (steps[0] - half), 0, 0])])
        counts = [steps[0], steps[0]]
    else:
        half = 0 if exact else 0.5
        pts = [at]
        axis = 0
        for k in steps:
            d = np.zeros(3)
            step = np.array([0.0, 0.0, 0.0]) if k == 0 else np.array([m * (k - half) if axis == j else 0 for j in range(3)])
            at = at + step
            pts.append(at)
            axis = (axis + 1) % 3
        v = np.array(pts)
        counts = list(steps)
    before = freeze(v)
    p = Polyline(v, closed)
    es = p.segments
    want, ix = [], []
    for (a, b), k in zip(es, counts):
        ix.append(len(want))
        n = max(k, 1)
        for j in range(n):
            want.append(a + (b - a) * j / n)
    if not closed:
        ix.append(len(want))
        want.append(v[-1])
    r = p.partition_by_length(m, ret_indices=ret)
    in_step(p, np.array(want), closed, 'partitioned')
    if ret:
        same(r, ix, 'the indices of the original vertices')
    else:
        holds(r is p, 'returns itself for chaining')
    unchanged(v, before, 'the vertices given')


def o_partition_many(n=sizes(2), closed=(False, True), cycle=((1, 2), (2, 0, 1)), ret=(False, True), scale=SCALES):
    # Many edges, or many parts of one.
    at_scale(scale)
    if n > MANY and (scale != 1 or cycle != (1, 2)):
        return
    if closed:
        o_partition((n,), True, ret, False, scale=scale)
    else:
        o_partition((cycle * n)[:n], False, ret, False, scale=scale)
        o_partition((n, 1), False, ret, True, scale=scale)


def o_partition_nearly(k=(1, 2, 3, 5), e=(1e-3, 1e-5, 1e-6, 1e-8), more=(False, True), closed=(False, True), scale=SCALES):
    # A little longer than so many times max_length takes one more; a little shorter does not.
    at_scale(scale)
    m, at = sym('m', '+'), arr('o', (3,))
    v = np.array([at, at + np.array([0, m * (k + e if more else k - e), 0])])
    p = Polyline(v, closed)
    n = k + 1 if more else k
    want = [v[0] + (v[1] - v[0]) * j / n for j in range(n + 1)]
    if closed:
        want += [v[1] + (v[0] - v[1]) * j / n for j in range(1, n)]
    same(p.partition_by_length(m, ret_indices=True), [0, n], 'the indices of the original vertices')
    in_step(p, np.array(want), closed, 'partitioned')


def o_partition_clustered(e=(1e-3, 1e-5, 1e-6), closed=(False, True)):
    # Vertices close to each other, as against how far they are from the origin, are as many.
    at, s = np.array([3., 4., 5.]), sym('s', '+')
    v = np.array([at, at + e * s * np.array([2., 3., 6.]), at + e * s * np.array([2., 5., 6.])])
    p = Polyline(v, closed)
    same(p.segment_lengths / e, [7 * s, 2 * s] + ([s * 65. ** .5] if closed else []), 'segment lengths')
    p.partition_by_length(3 * e * s)
    d = (v[1] - v[0])
    want = [v[0], v[0] + d / 3, v[0] + 2 * d / 3, v[1], v[2]]
    if closed:
        want += [v[2] + (v[0] - v[2]) / 3, v[2] + 2 * (v[0] - v[2]) / 3]
    same(p.v.shape, (len(want), 3), 'how many vertices')
    same((p.v - at) / e, (np.array(want) - at) / e, 'partitioned')


def o_partition_numbers(m=(.375, 2., 2.5, 3.5, 7., 20., 1e4), closed=(False, True), ret=(None, False, True), at=(0., 3.)):
    # Numbers all through.
    v = np.array([at, at, 0.]) + np.array([[0., 0., 0.], [2., 3., 6.], [2., 3., 6.], [4., 9., 3.], [4., 9., 3.25]])
    p = Polyline(v, closed)
    want, ix = [], []
    for a, b, l in zip(range(5 if closed else 4), (1, 2, 3, 4, 0), (7., 0., 7., .25, 10.378944069)):
        ix.append(len(want))
        n = max(1, int(np.ceil(l / m)))
        for j in range(n):
            want.append(v[a] + (v[b] - v[a]) * j / n)
    if not closed:
        ix.append(len(want))
        want.append(v[4])
    r = p.partition_by_length(m) if ret is None else p.partition_by_length(m, ret)
    in_step(p, np.array(want), closed, 'partitioned')
    if ret:
        same(r, ix, 'the indices of the original vertices')
    else:
        holds(r is p, 'returns itself for chaining')


def o_partition_diagonal(closed=(False, True), scale=SCALES):
    # A 2-3-6 triangle side: length 7.
    at_scale(scale)
    s = sym('s', '+')
    o = arr('o', (3,))
    v = np.array([o, o + s * np.array([2.0, 3.0, 6.0])])
    p = Polyline(v, closed)
    p.partition_by_length(3 * s)
    d = v[1] - v[0]
    want = [v[0], v[0] + d / 3, v[0] + 2 * d / 3, v[1]]
    if closed:
        want += [v[1] - d / 3, v[1] - 2 * d / 3]
    in_step(p, np.array(want), closed, 'partitioned')
    # Nothing is longer than max_length any more.
    lengths = p.segment_lengths
    for i in range(len(lengths)):
        holds(lengths[i] < 3 * s, 'no segment is longer than max_length')


def o_partition_none(n=(0, 1), closed=(False, True), scale=SCALES):
    at_scale(scale)
    if n == 0 and not closed:
        return
    v = arr('v', (n, 3))
    p = Polyline(v, closed)
    p.partition_by_length(sym('m', '+'))
    in_step(p, v, closed, 'nothing to partition')


# --- planes -------------------------------------------------------------------

def setup(f, pat, closed, e=1, close=()):
    u, w, n = frame(f)
    o = arr('o', (3,))
    d = [sym('d%d' % i, s) * (e if i in close else 1) for i, s in enumerate(pat)]
    v = np.array([o + sym('a%d' % i) * u + sym('b%d' % i) * w + d[i] * n for i in range(len(pat))])
    return Plane(o, sym('k', '+', pure=True) * n), Polyline(v, closed), v, d


def crossing(v, d, i, j):
    # d of different signs.
    t = d[i] / (d[i] - d[j])
    return v[i] + (v[j] - v[i]) * t


OPEN = ('+', '-', '+-', '-+', '++', '--', '+-+', '-+-', '++-', '--+', '-+--', '++--', '+-+-', '0+', '+0', '0-', '-0', '+0-', '0+-', '-+0', '+0+', '--0--')


def crossed(pat, closed):
    n = len(pat)
    out = []
    for i in range(n if closed else n - 1):
        j = (i + 1) % n
        if abs(NUM[pat[i]] + NUM[pat[j]]) != 2:
            out.append((i, j))
    return out


def o_intersect_many(f=FEW, n=sizes(3), cycle=('+-', '+--+', '++++-'), closed=(False, True), scale=SCALES):
    at_scale(scale)
    if n > MANY and (scale != 1 or f != FEW[0]):
        return
    o_intersect(f, (cycle * n)[:n], closed, scale=scale)


def o_cut_open_many(f=FEW, n=sizes(2), front=('first', 'last', 'half'), scale=SCALES):
    at_scale(scale)
    if n > MANY and (scale != 1 or f != FEW[0]):
        return
    k = {'first': 1, 'last': n - 1, 'half': n // 2}[front]
    o_cut_open(f, '+' * k + '-' * (n - k), scale=scale)
    o_cut_open(f, '-' * k + '+' * (n - k), scale=scale)


def o_cut_closed_many(f=FEW, n=sizes(2), front=('first', 'last', 'half'), scale=SCALES):
    at_scale(scale)
    if n > MANY and (scale != 1 or f != FEW[0]):
        return
    k = {'first': 1, 'last': n - 1, 'half': n // 2}[front]
    o_cut_closed(f, '+' * k + '-' * (n - k), scale=scale)
    o_cut_closed(f, '-' + '+' * k + '-' * (n - 1 - k) if n - 1 - k > 0 else '-' + '+' * k, scale=scale)


def o_intersect(f=FRAMES, pat=OPEN, closed=(False, True), scale=SCALES):
    at_scale(scale)
    plane, p, v, d = setup(f, pat, closed)
    if len(pat) == 1:
        return
    want = crossed(pat, closed)
    before = freeze((v, plane))
    pts, edges = p.intersect_plane(plane, ret_edge_indices=True)
    same(edges, [i for i, j in want], 'the edges that meet the plane')
    same(pts.shape, (len(want), 3), 'a point for each edge that meets the plane')
    if want:
        same(pts, [crossing(v, d, i, j) for i, j in want], 'where the edges meet the plane')
        same(p.intersect_plane(plane), pts, 'the points alone')
        same(plane.polyline_xsection(p), pts, 'Plane.polyline_xsection')
        a, b = plane.polyline_xsection(p, ret_edge_indices=True)
        same(a, pts, 'Plane.polyline_xsection')
        same(b, edges, 'Plane.polyline_xsection')
    unchanged((v, plane), before, 'the arguments')
    in_step(p, v, closed, 'the polyline')


CUT = ('+-', '-+', '++-', '+--', '--+', '-++', '++---', '---++')


def o_cut_open(f=FRAMES, pat=CUT, scale=SCALES):
    at_scale(scale)
    plane, p, v, d = setup(f, pat, False)
    before = freeze((v, plane))
    (i, j), = crossed(pat, False)
    x = crossing(v, d, i, j)
    if pat[0] == '+':
        want = [v[k] for k in range(i + 1)] + [x]
    else:
        want = [x] + [v[k] for k in range(j, len(v))]
    in_step(p.cut_by_plane(plane), np.array(want), False, 'the part in front')
    unchanged((v, plane), before, 'the arguments')
    in_step(p, v, False, 'the polyline')


def o_cut_open_touching(f=FRAMES, pat=('0+', '+0', '0++', '++0'), scale=SCALES):
    # It starts or ends on the plane: all of it is kept.
    at_scale(scale)
    plane, p, v, d = setup(f, pat, False)
    in_step(p.cut_by_plane(plane), v, False, 'the part in front')


def o_cut_open_touching_behind(f=FRAMES, pat=('0-', '-0', '0--', '--0'), scale=SCALES):
    # Only the point which touches the plane is not behind it.
    at_scale(scale)
    plane, p, v, d = setup(f, pat, False)
    r = p.cut_by_plane(plane)
    for x in r.v:
        same(x, v[pat.index('0')], 'the part in front')
    same(r.closed, False, 'the part in front is open')


CUT_CLOSED = ('+-', '-+', '++-', '+-+', '-++', '+--', '-+-', '--+', '++--', '+--+', '--++', '-++-', '+++-', '++-+', '---+', '+---+', '-+++-')


def o_cut_closed(f=FRAMES, pat=CUT_CLOSED, scale=SCALES):
    at_scale(scale)
    plane, p, v, d = setup(f, pat, True)
    before = freeze((v, plane))
    n = len(v)
    # The vertex in front that follows one in back.
    start = [i for i in range(n) if pat[i] == '+' and pat[i - 1] == '-'][0]
    keep = [start]
    while pat[(keep[-1] + 1) % n] == '+':
        keep.append((keep[-1] + 1) % n)
    want = [crossing(v, d, (start - 1) % n, start)]
    want += [v[i] for i in keep]
    want += [crossing(v, d, keep[-1], (keep[-1] + 1) % n)]
    in_step(p.cut_by_plane(plane), np.array(want), False, 'the part in front')
    unchanged((v, plane), before, 'the arguments')
    in_step(p, v, True, 'the polyline')


def o_cut_closed_touching_behind(f=FRAMES, pat=('0-', '-0', '0--', '-0-', '--0', '--0-'), scale=SCALES):
    # All but one vertex, which is on the plane, are behind.
    at_scale(scale)
    plane, p, v, d = setup(f, pat, True)
    i = pat.index('0')
    in_step(p.cut_by_plane(plane), v[i:i + 1], False, 'the part in front')


def o_close(f=FEW, pat=('+-', '-+', '++-', '--+', '-++', '+--'), close=((0,), (1,), (0, 1), (2,), (1, 2)), e=(1e-3, 1e-5, 1e-7), closed=(False, True)):
    # Vertices which are close to the plane are on neither side more than others are.
    if max(close) >= len(pat):
        return
    plane, p, v, d = setup(f, pat, closed, e, close)
    want = crossed(pat, closed)
    x = [crossing(v, d, i, j) for i, j in want]
    pts, edges = p.intersect_plane(plane, ret_edge_indices=True)
    same(edges, [i for i, j in want], 'the edges that meet the plane')
    same(pts, x, 'where the edges meet the plane')
    r = p.cut_by_plane(plane)
    if not closed:
        (i, j), = want
        kept = [v[k] for k in range(i + 1)] + x if pat[0] == '+' else x + [v[k] for k in range(j, len(v))]
    else:
        n = len(v)
        start = [i for i in range(n) if pat[i] == '+' and pat[i - 1] == '-'][0]
        keep = [start]
        while pat[(keep[-1] + 1) % n] == '+':
            keep.append((keep[-1] + 1) % n)
        kept = [crossing(v, d, (start - 1) % n, start)] + [v[i] for i in keep] + [crossing(v, d, keep[-1], (keep[-1] + 1) % n)]
    same(r.v.shape, (len(kept), 3), 'how many vertices are in front')
    same(r.v, kept, 'the part in front')
    same(r.closed, False, 'the part in front is open')


def o_cut_closed_through_vertices(f=FEW, pat=('+-0', '+0-', '0+-', '-0+', '0-+', '++-0', '+0--', '+-0-', '-+0-', '+0-0')):
    # A vertex on the plane counts for both of its edges: more than two.
    plane, p, v, d = setup(f, pat, True)
    raises(ValueError, 'the plane meets more than two edges', p.cut_by_plane, plane)
    in_step(p, v, True, 'the polyline')


def o_cut_none(f=FEW, pat=('++', '--', '+++', '---'), closed=(False, True), scale=SCALES):
    at_scale(scale)
    plane, p, v, d = setup(f, pat, closed)
    raises(ValueError, 'the plane does not meet the polyline', p.cut_by_plane, plane)
    in_step(p, v, closed, 'the polyline')


def o_cut_many(f=FEW, pat=('+-+', '-+-', '++--+', '-+-+'), scale=SCALES):
    at_scale(scale)
    plane, p, v, d = setup(f, pat, False)
    raises(ValueError, 'the plane meets the polyline more than once', p.cut_by_plane, plane)


def o_cut_many_closed(f=FEW, pat=('+-+-', '-+-+', '+-++-', '-+0+-'), scale=SCALES):
    at_scale(scale)
    plane, p, v, d = setup(f, pat, True)
    raises(ValueError, 'the plane meets the polyline more than twice', p.cut_by_plane, plane)


def o_apex(n=(1, 2, 3, 4), i=(0, 1, 2, 3), scale=SCALES):
    # One vertex is farther along the axis than each of the others.
    at_scale(scale)
    if i >= n:
        return
    v = arr('v', (n, 3))
    top = arr('t', (3,))
    e = [sym('e%d' % j, '+') for j in range(n)]
    v = np.array([top if j == i else np.array([sym('x%d' % j), top[1] - e[j], sym('z%d' % j)]) for j in range(n)])
    p = Polyline(v)
    same(p.apex(np.array([0.0, 1.0, 0.0])), top, 'apex')
    same(p.apex(np.array([0.0, 3.0, 0.0])), top, 'the length of the axis does not matter')


def o_huge(n=sizes(many=True), closed=(False, True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    v = np.array([[i * k, (-1.) ** i * k, 0. * k] for i in range(n)])
    p = Polyline(v, closed)
    if closed:
        m = n // 3
        same(p.reindexed(m).v, np.array([v[(m + i) % n] for i in range(n)]), 'many reindexed')
        same(p.reindexed(m).closed, True, 'many reindexed')
    else:
        plane = Plane(np.zeros(3), np.array([0., 1., 0.]))
        same(p.intersect_plane(plane), [[(i + .5) * k, 0., 0.] for i in range(n - 1)], 'where many edges cross a plane')
