'''Polyline: the edges, segments and lengths follow from the vertices and closedness, whatever happened before.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds, apart
from blmath.geometry import Polyline
from spec_frames import SCALES, length

N = sizes(0, 1, 2, 3, 5)


def edges(n, closed):
    if closed:
        return [[i, (i + 1) % n] for i in range(n)]
    return [[i, i + 1] for i in range(n - 1)]


def in_step(p, v, closed, msg):
    n = len(v)
    want = edges(n, closed)
    same(p.closed, closed, msg + ': closed')
    same(p.v.shape, (n, 3), msg + ': how many vertices')
    same(len(p), n, msg + ': len')
    if n:
        same(p.v, v, msg + ': vertices')
    same(p.e.shape, (len(want), 2), msg + ': how many edges')
    if want:
        same(p.e, want, msg + ': edges')
        segments = [[v[i], v[j]] for i, j in want]
        same(p.segments, segments, msg + ': segments')
        same(p.segment_vectors, [b - a for a, b in segments], msg + ': segment vectors')
        same(p.segment_lengths, [length(b - a) for a, b in segments], msg + ': segment lengths')
        same(p.total_length, sum([length(b - a) for a, b in segments]), msg + ': total length')
    else:
        same(p.segment_lengths.shape, (0,), msg + ': segment lengths')
        same(p.total_length, 0, msg + ': total length')


def points(name, n):
    return arr(name, (n, 3))


def o_new(n=N, closed=(False, True), scale=SCALES):
    at_scale(scale)
    v = points('v', n)
    before = freeze(v)
    in_step(Polyline(v, closed=closed), v, closed, 'a new polyline')
    in_step(Polyline(v, closed), v, closed, 'closed, positional')
    in_step(Polyline(v=v, closed=closed), v, closed, 'by keyword')
    if n:
        in_step(Polyline(v.tolist(), closed), v, closed, 'a list of vertices')
    if not closed:
        in_step(Polyline(v), v, False, 'open by default')
    unchanged(v, before, 'the vertices given')


def o_clustered(n=(2, 3, 4), e=(1e-3, 1e-5, 1e-6), closed=(False, True), last=(False, True)):
    # Vertices which almost coincide are vertices all the same, the last and the first of a closed polyline too.
    at, d = np.array([3., 4., 5.]), points('d', n)
    v = at + e * d
    if last:
        v = np.vstack([points('v', n), [[0., 0., 0.]]])
        v[n] = v[0] + e * d[0]
    m = len(v)
    p = Polyline(v, closed)
    want = edges(m, closed)
    same(p.v.shape, (m, 3), 'how many vertices')
    same((p.v - v[0]) / e, (v - v[0]) / e, 'vertices')
    same(p.e, want, 'edges')
    same(p.segment_vectors / e, [(v[j] - v[i]) / e for i, j in want], 'segment vectors')
    same(p.segment_lengths / e, [length((v[j] - v[i]) / e) for i, j in want], 'segment lengths')
    p.v = v[::-1]
    same(p.v.shape, (m, 3), 'how many vertices')
    p.v = v
    p.flip()
    same((p.v - v[0]) / e, (v[::-1] - v[0]) / e, 'vertices')
    same((p.copy().v - v[0]) / e, (v[::-1] - v[0]) / e, 'vertices')


def o_nearly_as_before(e=(1e-3, 1e-5, 1e-7), closed=(False, True)):
    # Vertices set again count, however little they differ from those before.
    v, d = points('v', 3), points('d', 3)
    p = Polyline(v, closed)
    lengths = p.segment_lengths
    p.v = v + e * d
    same((p.v - v) / e, d, 'vertices')
    same((p.total_length - np.sum(lengths)) / e, (Polyline(v + e * d, closed).total_length - np.sum(lengths)) / e, 'total length')


def o_written_to(closed=(False, True), whole=(False, True), i=(0, 1, 2), scale=SCALES):
    # The vertices are an array like any other: what is derived from them follows when one is written to.
    at_scale(scale)
    v = points('v', 3)
    p = Polyline(v, closed)
    p.segments, p.segment_vectors, p.segment_lengths, p.total_length, p.e, p.to_dict
    w = points('w', 3)
    if whole:
        p.v[:] = w
        now = w
    else:
        p.v[i] = w[i]
        now = np.array([w[j] if j == i else v[j] for j in range(3)])
    in_step(p, now, closed, 'after a vertex was moved')


def o_int_vertices(closed=(False, True), scale=SCALES):
    at_scale(scale)
    v = arr('v', (3, 3), integer=True)
    p = Polyline(v, closed)
    in_step(p, v, closed, 'int vertices')
    same(p.v.dtype == np.float64, True, 'vertices are floats')


def o_set_v(n=(0, 1, 2, 3, 5), m=N, closed=(False, True), scale=SCALES):
    at_scale(scale)
    p = Polyline(points('v', n), closed)
    w = points('w', m)
    before = freeze(w)
    p.v = w
    in_step(p, w, closed, 'after v was set')
    unchanged(w, before, 'the vertices given')


def o_set_closed(n=N, a=(False, True), b=(False, True), c=(False, True), scale=SCALES):
    at_scale(scale)
    v = points('v', n)
    p = Polyline(v, a)
    p.closed = b
    in_step(p, v, b, 'after closed was set')
    p.closed = c
    in_step(p, v, c, 'after closed was set again')


def o_history(a=(False, True), b=(False, True), steps=('vc', 'cv', 'fc', 'cf', 'vf', 'fv', 'cvc', 'vcf', 'p', 'pc', 'vp', 'pv', 'fpc'), scale=SCALES):
    at_scale(scale)
    v, w = points('v', 3), points('w', 4)
    p = Polyline(v, a)
    closed = a
    now = v
    for s in steps:
        if s == 'v':
            p.v = w
            now = w
        elif s == 'c':
            closed = b
            p.closed = b
        elif s == 'p':
            # Into halves, if all are as long.
            now = np.array([now[0], now[0] + np.array([sym('s', '+'), 0., 0.])])
            p.v = now
            p.partition_by_length(0.625 * sym('s', '+'))
            m = (now[0] + now[1]) / 2
            now = np.array([now[0], m, now[1]] + ([m] if closed else []))
        else:
            p.flip()
            now = now[::-1]
        in_step(p, now, closed, 'after ' + steps)


def o_none(a=(False, True), scale=SCALES):
    at_scale(scale)
    p = Polyline(points('v', 3), a)
    p.v = None
    same(p.v, None, 'no vertices')
    same(p.e, None, 'no edges')
    v = points('w', 2)
    p.v = v
    in_step(p, v, a, 'after vertices were set again')
    q = Polyline(None, a)
    same((q.v, q.e, q.closed), (None, None, a), 'a polyline with no vertices')
    q.closed = not a
    same((q.v, q.e, q.closed), (None, None, not a), 'a polyline with no vertices')
    r = q.copy()
    same((r.v, r.e, r.closed), (None, None, not a), 'a copy of a polyline with no vertices')
    q.v = v
    in_step(q, v, not a, 'after vertices were set')


def o_derived_only(closed=(False, True), scale=SCALES):
    # The edges can't be set, or written to.
    at_scale(scale)
    p = Polyline(points('v', 3), closed)
    raises(AttributeError, 'the edges are derived', setattr, p, 'e', p.e)
    e = p.e
    raises(ValueError, 'the edges are read-only', e.__setitem__, 0, 0)
    in_step(p, p.v, closed, 'after a failed change')


def o_bad_vertices(shape=((3,), (2, 2), (2, 4), (1, 2, 3), (2, 5)), scale=SCALES):
    at_scale(scale)
    v = points('v', 3)
    p = Polyline(v, True)
    raises(ValueError, 'vertices of a wrong shape', Polyline, arr('b', shape))
    raises(ValueError, 'vertices of a wrong shape', setattr, p, 'v', arr('b', shape))
    in_step(p, v, True, 'after a failed change')


def o_copy(n=N, closed=(False, True), scale=SCALES):
    at_scale(scale)
    v = points('v', n)
    p = Polyline(v, closed)
    q = p.copy()
    in_step(q, v, closed, 'a copy')
    apart(q.v, p.v, 'a copy has its own vertices')
    p.closed = not closed
    p.v = points('w', 4)
    in_step(q, v, closed, 'a copy, after the original changed')


def o_flip(n=N, closed=(False, True), scale=SCALES):
    at_scale(scale)
    v = points('v', n)
    before = freeze(v)
    p = Polyline(v, closed)
    p.flip()
    in_step(p, v[::-1], closed, 'a flipped polyline')
    p.flip()
    in_step(p, v, closed, 'flipped twice')
    unchanged(v, before, 'the vertices given')


def o_to_dict(n=sizes(1, 2, 3), closed=(False, True), scale=SCALES):
    at_scale(scale)
    v = np.array([[1.23456, -2.0, 0.00049], [0.0, 5.5555, 6.0]] + [[1.0, 1.0, 1.0]] * n)[:n]
    want = [[1.235, -2.0, 0.0], [0.0, 5.556, 6.0]] + [[1.0, 1.0, 1.0]] * n
    d = Polyline(v, closed).to_dict()
    same(d['vertices'], want[:n], 'rounded vertices')
    same(d['edges'], np.array(edges(n, closed)).reshape((-1, 2)), 'edges')
    same(Polyline(v, closed).to_dict(decimals=1)['vertices'], ([[1.2, -2.0, 0.0], [0.0, 5.6, 6.0]] + want[2:])[:n], 'decimals')
    same(sorted(d.keys()), ['edges', 'vertices'], 'keys')


def o_repr(closed=(False, True), scale=SCALES):
    at_scale(scale)
    kind = 'closed' if closed else 'open'
    same(repr(Polyline(points('v', 3), closed)), '<%s Polyline with 3 verts>' % kind, 'repr')
    same(repr(Polyline(points('v', 0), closed)), '<Polyline with no verts>', 'repr')
    same(repr(Polyline(None, closed)), '<Polyline with no verts>', 'repr')


def o_none_lengths(a=(False, True), scale=SCALES):
    at_scale(scale)
    q = Polyline(None, a)
    same(q.segment_lengths.shape, (0,), 'no segments')
    same(q.total_length, 0, 'no length')
    p = Polyline(points('v', 3), a)
    p.v = None
    same(p.total_length, 0, 'no length')


def o_lines(n=sizes(1, 2, 3), closed=(False, True), scale=SCALES):
    # For drawing: the same vertices and edges.
    at_scale(scale)
    v = points('v', n)
    p = Polyline(v, closed)
    lines = p.as_lines('red')
    same(lines.v, v, 'the vertices of the lines')
    same(lines.e, p.e, 'the edges of the lines')
    same(lines.vc, 'red', 'the color of the lines')
    same(p.as_lines().vc, None, 'no color')
    same(p.as_lines(vc='blue').vc, 'blue', 'the color of the lines')
    in_step(p, v, closed, 'the polyline')


def o_deleted(a=(False, True), n=(1, 2, 3), scale=SCALES):
    # Deleting the vertices leaves none, and they can be given again.
    at_scale(scale)
    p = Polyline(arr('v', (n, 3)), closed=a)
    del p.v
    same(p.v, None, 'no vertices')
    same(p.e, None, 'no edges')
    same(p.closed, a, 'as closed as before')
    w = arr('w', (2, 3))
    p.v = w
    in_step(p, w, a, 'after vertices were set again')


def o_huge(n=sizes(many=True), closed=(False, True)):
    # As many as what is done in parts.
    k = sym('k', '+', pure=True)
    v = np.array([[3. * i * k, (i % 2) * 4. * k, 0. * k] for i in range(n)])
    p = Polyline(v, closed)
    m = n if closed else n - 1
    to = [(i + 1) % n for i in range(m)]
    long = [5. * k] * (n - 1) + ([((3. * (n - 1)) ** 2 + ((n - 1) % 2 * 4.) ** 2) ** .5 * k] if closed else [])
    same(p.e, [[i, j] for i, j in enumerate(to)], 'many edges')
    same(p.segments, [[v[i], v[j]] for i, j in enumerate(to)], 'many segments')
    same(p.segment_lengths, long, 'their lengths')
    same(p.total_length, sum(long), 'the length of them all')
    same(p.copy().v, v, 'many vertices copied')
    p.flip()
    same(p.v, v[::-1], 'many vertices flipped')
    same(p.segment_lengths, long[:n - 1][::-1] + long[n - 1:], 'their lengths')
