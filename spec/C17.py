'''Box.'''
import numpy as np
from sa import at_scale, sym, arr, same, raises, freeze, unchanged, holds
from spec_frames import SCALES
from blmath.geometry import Box

ZERO = (('+', '+', '+'), ('0', '+', '+'), ('+', '0', '0'), ('0', '0', '0'))


def o_accessors(s=ZERO, form=('array', 'list', 'tuple', 'int'), scale=SCALES):
    at_scale(scale)
    o, d = arr('o', (3,), integer=form == 'int'), arr('d', (3,), s, integer=form == 'int')
    before = freeze((o, d))
    if form == 'list':
        b = Box(o.tolist(), d.tolist())
    elif form == 'tuple':
        b = Box(tuple(o.tolist()), tuple(d.tolist()))
    else:
        b = Box(o, d)
    same(b.origin, o, 'origin')
    same(b.shape, d, 'shape')
    same((b.min_x, b.min_y, b.min_z), o, 'minimums')
    same((b.max_x, b.max_y, b.max_z), o + d, 'maximums')
    same((b.mid_x, b.mid_y, b.mid_z), [o[i] + d[i] / 2 for i in range(3)], 'midpoints')
    same((b.width, b.height, b.depth), d, 'width, height, depth')
    same(b.center_point, [o[i] + d[i] / 2 for i in range(3)], 'center')
    same(b.floor_point, [o[0] + d[0] / 2, o[1], o[2] + d[2] / 2], 'floor point')
    same(b.volume, d[0] * d[1] * d[2], 'volume')
    same(b.surface_area, 2 * (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]), 'surface area')
    same(b.ranges, [[o[i], o[i] + d[i]] for i in range(3)], 'ranges')
    unchanged((o, d), before, 'the arguments')
    unchanged((b.origin, b.shape), before, 'the box after it was read')


def o_negative(s=(('-', '+', '+'), ('+', '-', '0'), ('0', '+', '-'), ('-', '-', '-')), scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'a negative dimension', Box, arr('o', (3,)), arr('d', (3,), s))


def agrees(b, o, d, what):
    same((b.origin, b.shape), (o, d), what + ': origin and shape')
    same((b.min_x, b.min_y, b.min_z), o, what + ': minimums')
    same((b.max_x, b.max_y, b.max_z), o + d, what + ': maximums')
    same((b.mid_x, b.mid_y, b.mid_z), [o[i] + d[i] / 2 for i in range(3)], what + ': midpoints')
    same((b.width, b.height, b.depth), d, what + ': width, height, depth')
    same(b.center_point, [o[i] + d[i] / 2 for i in range(3)], what + ': center')
    same(b.floor_point, [o[0] + d[0] / 2, o[1], o[2] + d[2] / 2], what + ': floor point')
    same(b.volume, d[0] * d[1] * d[2], what + ': volume')
    same(b.surface_area, 2 * (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]), what + ': surface area')
    same(b.ranges, [[o[i], o[i] + d[i]] for i in range(3)], what + ': ranges')


def o_moved(what=('origin', 'shape', 'both'), how=('set', 'written to', 'added to'), scale=SCALES):
    # Asked before and after.
    at_scale(scale)
    o, d, p, e = arr('o', (3,)), arr('d', (3,), '+'), arr('p', (3,)), arr('e', (3,), '+')
    b = Box(np.array(o), np.array(d))
    agrees(b, o, d, 'at first')
    if what != 'shape':
        if how == 'set':
            b.origin = o = p
        elif how == 'written to':
            b.origin[1] = p[1]
            o = np.array([o[0], p[1], o[2]])
        else:
            b.origin += p
            o = o + p
    if what != 'origin':
        if how == 'set':
            b.shape = d = e
        elif how == 'written to':
            b.shape[2] = e[2]
            d = np.array([d[0], d[1], e[2]])
        else:
            b.shape += e
            d = d + e
    agrees(b, o, d, 'moved')


def o_thin(axis=(0, 1, 2), e=(1e-3, 1e-6, 1e-9, 1e-14)):
    o, d = arr('o', (3,)), arr('d', (3,), '+')
    k = np.array([1., 1., 1.])
    k[axis] = e
    b = Box(o, k * d)
    same(b.shape / k, d, 'shape')
    same((np.array([b.width, b.height, b.depth])) / k, d, 'width, height, depth')
    same((np.array([b.max_x, b.max_y, b.max_z]) - o) / k, d, 'maximums')
    same((np.array([b.mid_x, b.mid_y, b.mid_z]) - o) / k, d / 2, 'midpoints')
    same((b.center_point - o) / k, d / 2, 'center')
    same((b.floor_point - o) / k, [d[0] / 2, 0., d[2] / 2], 'floor point')
    same((b.ranges[:, 1] - b.ranges[:, 0]) / k, d, 'ranges')
    same(b.volume / e, d[0] * d[1] * d[2], 'volume')
    k[axis] = -e
    raises(ValueError, 'a negative dimension', Box, o, k * d)


def o_bad(shape=((2,), (4,), (1, 3), (3, 1), (0,)), scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'an origin of a wrong shape', Box, arr('o', shape), arr('d', (3,), '+'))
    raises(ValueError, 'a shape of a wrong shape', Box, arr('o', (3,)), arr('d', shape, '+'))


def o_none(scale=SCALES):
    at_scale(scale)
    raises(ValueError, 'no origin', Box, None, arr('d', (3,), '+'))
    raises(ValueError, 'no shape', Box, arr('o', (3,)), None)
    raises(ValueError, 'a shape that is not a number', Box, arr('o', (3,)), [1.0, float('nan'), 1.0])
    raises(ValueError, 'an infinite origin', Box, [1.0, float('inf'), 1.0], arr('d', (3,), '+'))
