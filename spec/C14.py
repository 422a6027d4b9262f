'''Plane: which side points are on, and their selection.'''
import numpy as np
from sa import at_scale, sizes, sym, arr, same, raises, freeze, unchanged, holds
from blmath.geometry import Plane
from spec_frames import SCALES, FRAMES, FEW, frame

PATTERNS = ('+', '-', '0', '+-', '-+', '0+', '-0', '+0-', '-0+', '00-', '--+', '+++', '---', '000', '-+-+', '0+0-', '+--0', '--00++')
NUM = {'+': 1, '-': -1, '0': 0}


def setup(f, pat):
    u, w, n = frame(f)
    o = arr('o', (3,))
    pts = np.array([o + sym('a%d' % i) * u + sym('b%d' % i) * w + sym('d%d' % i, s) * n for i, s in enumerate(pat)])
    k = sym('k', '+', pure=True)
    return Plane(o, k * n), pts


def o_sign(f=FRAMES, pat=PATTERNS, scale=SCALES):
    at_scale(scale)
    plane, pts = setup(f, pat)
    before = freeze(pts)
    same(plane.sign(pts), [NUM[s] for s in pat], 'sign')
    same(plane.flipped().sign(pts), [-NUM[s] for s in pat], 'sign for the flipped plane')
    for i in range(len(pts)):
        same(plane.sign(pts[i]), NUM[pat[i]], 'sign of one point')
    unchanged(pts, before, 'the points')


def o_in_front(f=FRAMES, pat=PATTERNS, scale=SCALES):
    at_scale(scale)
    plane, pts = setup(f, pat)
    before = freeze(pts)
    front = [i for i, s in enumerate(pat) if s in '+0']
    back = [i for i, s in enumerate(pat) if s in '-0']
    same(plane.points_in_front(pts, ret_indices=True), front, 'the indices of the points in front')
    same(plane.points_in_front(pts, inverted=True, ret_indices=True), back, 'the indices of the points behind')
    same(plane.points_in_front(pts).shape, (len(front), 3), 'how many points are in front')
    same(plane.points_in_front(pts), pts[front] if front else np.zeros((0, 3)), 'the points in front')
    same(plane.points_in_front(pts, True), pts[back] if back else np.zeros((0, 3)), 'the points behind')
    same(plane.points_in_front(pts, False, True), front, 'positional arguments')
    same(plane.flipped().points_in_front(pts, ret_indices=True), back, 'the points in front of the flipped plane')
    unchanged(pts, before, 'the points')


def o_many(f=FEW, n=sizes(3), cycle=('+-0--+0', '+', '-'), scale=SCALES):
    at_scale(scale)
    if n > 50 and (scale != 1 or f != FEW[0]):
        return
    pat = (cycle * n)[:n]
    plane, pts = setup(f, pat)
    front = [i for i, s in enumerate(pat) if s in '+0']
    back = [i for i, s in enumerate(pat) if s in '-0']
    same(plane.sign(pts), [NUM[s] for s in pat], 'sign')
    same(plane.points_in_front(pts, ret_indices=True), front, 'the indices of the points in front')
    same(plane.points_in_front(pts, inverted=True, ret_indices=True), back, 'the indices of the points behind')
    same(plane.points_in_front(pts), pts[front] if front else np.zeros((0, 3)), 'the points in front')
    same(plane.points_in_front(pts, True), pts[back] if back else np.zeros((0, 3)), 'the points behind')


def o_close(f=FRAMES, pat=('+', '-', '+-', '-0+', '+-0-+'), e=(1e-3, 1e-5, 1e-7, 1e-9)):
    # Close to the plane is on neither side more than it is.
    u, w, n = frame(f)
    o = arr('o', (3,))
    pts = np.array([o + sym('a%d' % i) * u + sym('b%d' % i) * w + e * sym('d%d' % i, s) * n for i, s in enumerate(pat)])
    plane = Plane(o, sym('k', '+', pure=True) * n)
    front = [i for i, s in enumerate(pat) if s in '+0']
    back = [i for i, s in enumerate(pat) if s in '-0']
    same(plane.sign(pts), [NUM[s] for s in pat], 'sign')
    same(plane.points_in_front(pts, ret_indices=True), front, 'the indices of the points in front')
    same(plane.points_in_front(pts, inverted=True, ret_indices=True), back, 'the indices of the points behind')
    same(plane.points_in_front(pts), pts[front] if front else np.zeros((0, 3)), 'the points in front')
    for i in range(len(pts)):
        same(plane.sign(pts[i]), NUM[pat[i]], 'sign of one point')


def o_huge(n=sizes(many=True)):
    # As many as what is done in parts.
    o_many(FEW[0], n, '+-0--+0', scale=1)
