'''vx: the algebra of the vector shortcuts.'''
import math
import numpy as np
from sa import at_scale, slips, sym, arr, same, near, raises, freeze, unchanged, holds, private
from spec_frames import SCALES, NEXT_TO
from blmath.numerics import vx


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def cross(u, v):
    return np.array([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]])


def o_unit(s=(('+', '+', '+'), ('-', '+', '0'), ('0', '-', '0'), ('?', '?', '?')), scale=SCALES):
    at_scale(scale)
    a = arr('a', (3,), s)
    u = vx.normalize(a)
    same(dot(u, u), 1, 'a normalized vector has length 1')
    same(cross(u, a), [0, 0, 0], 'a normalized vector keeps its line')
    same(dot(u, a), dot(a, a) ** 0.5, 'a normalized vector keeps its direction')
    same(vx.magnitude(a) * u, a, 'magnitude times direction')
    k = sym('k', '+')
    same(vx.normalize(k * a), u, 'normalize does not depend on length')
    same(vx.magnitude(k * a), k * vx.magnitude(a), 'magnitude is homogeneous')
    same(vx.magnitude(-a), vx.magnitude(a), 'magnitude of the opposite')


def o_projection(s=(('+', '+', '+'), ('-', '+', '0'), ('0', '-', '0'), ('?', '?', '?')), scale=SCALES):
    at_scale(scale)
    a, b = arr('a', (3,)), arr('b', (3,), s)
    p, r = vx.proj(a, onto=b), vx.reject(a, from_v=b)
    same(p + r, a, 'projection plus rejection')
    same(cross(p, b), [0, 0, 0], 'the projection is along the vector')
    same(dot(r, b), 0, 'the rejection is perpendicular')
    same(vx.proj(p, onto=b), p, 'projecting twice')
    same(vx.proj(b, onto=b), b, 'projecting a vector on itself')
    same(vx.sproj(b, onto=b), dot(b, b) ** 0.5, 'scalar projection on itself')
    k = sym('k', '+')
    same(vx.proj(a, onto=k * b), p, 'the length of the vector projected on')
    same(vx.proj(a, onto=-b), p, 'the sense of the vector projected on')
    same(vx.sproj(a, onto=k * b), vx.sproj(a, onto=b), 'sproj: the length of the vector projected on')
    same(vx.sproj(a, onto=-b), -vx.sproj(a, onto=b), 'sproj: the sense of the vector projected on')


def o_nearly_unit(b=NEXT_TO, f=(1, -1), k=(1, 1e-3, 1e4)):
    # A vector almost of length one, or almost along an axis, is no special one.
    b = k * f * np.array(b)
    n = dot(b, b) ** .5
    a = arr('a', (3,))
    same(vx.magnitude(b), n, 'the magnitude')
    same((vx.magnitude(b) - k) * 1e6, (n - k) * 1e6, 'the magnitude')
    same(vx.normalize(b) * 1e6, b / n * 1e6, 'normalized')
    same(vx.sproj(a, onto=b), dot(a, b) / n, 'sproj')
    p = vx.proj(a, onto=b)
    same(p, dot(a, b) / (n * n) * b, 'proj')
    same(vx.reject(a, from_v=b), a - dot(a, b) / (n * n) * b, 'reject')
    t = np.array([dot(a, b) * b[0] / (n * n) * 1e6, dot(a, b) * b[1] / (n * n) * 1e6, dot(a, b) * b[2] / (n * n) * 1e6])
    same(p * 1e6, t, 'proj')


def o_nearly_perpendicular(e=(1e-3, 1e-5, 1e-7), f=(1, -1), turn=(1, -1)):
    # What is almost perpendicular has a small projection; what is almost parallel a small rejection.
    b, k, h = arr('b', (3,)), sym('k', '+'), sym('h', '+')
    c = cross(b, arr('c', (3,)))
    n = dot(b, b) ** .5
    a = turn * e * k * b + h * c
    same(vx.sproj(a, onto=f * b) / e, turn * f * k * n, 'a small projection')
    same(vx.proj(a, onto=f * b) / e, turn * k * b, 'a small projection')
    a = k * b + turn * e * h * c
    same(vx.reject(a, from_v=f * b) / e, turn * h * c, 'a small rejection')


def o_small_angle(ab=((0, 1, 2), (1, 2, 0), (2, 0, 1)), e=(3e-2, 1e-3, 2e-5), f=(1, -1), g=(1, -1), to=('itself', 'the opposite', 'a right angle')):
    # Small differences count.
    a, b, c = [np.array((X, Y, Z)[i]) for i in ab]
    p, q = sym('p', '+'), sym('q', '+')
    u, v = (a, f * b) if to == 'itself' else (-a, f * b) if to == 'the opposite' else (f * b, g * a)
    v = q * (np.cos(e) * u + np.sin(e) * v)
    degrees = 180 / math.pi * e
    base, sign = (0, f) if to == 'itself' else (180, -f) if to == 'the opposite' else (90, -f * g)
    angle = (base - degrees * (1 if to == 'the opposite' else 1)) if to != 'itself' else degrees
    if to == 'a right angle':
        angle = 90 - degrees * g
        turn = f
    else:
        turn = f
    near(vx.angle(p * a, v, c) / e, angle / e, 'almost %s' % to)
    near(vx.angle(v, p * a, c) / e, angle / e, 'almost %s' % to)
    for h in (1, -1):
        near(vx.signed_angle(p * a, v, h * c) / e, h * turn * angle / e, 'almost %s, signed' % to)
        near(vx.signed_angle(v, p * a, h * c) / e, -h * turn * angle / e, 'almost %s, signed' % to)


def o_angle(scale=SCALES):
    at_scale(scale)
    a, b, look = arr('a', (3,)), arr('b', (3,)), arr('l', (3,))
    want = math.degrees(math.acos(max(min(dot(a, b) / (dot(a, a) * dot(b, b)) ** 0.5, 1), -1)))
    same(vx.angle(a, b, look), want, 'angle')
    same(vx.angle(b, a, look), vx.angle(a, b, look), 'angle is symmetric')


X, Y, Z = (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)


def o_right_angles(ab=((X, Y, Z), (Y, Z, X), (Z, X, Y)), f=(1, -1), scale=SCALES):
    at_scale(scale)
    a, b, c = [np.array(v) for v in ab]
    p, q = sym('p', '+'), sym('q', '+')
    same(vx.angle(p * a, q * b, c), 90, 'a right angle')
    same(vx.angle(p * a, q * a, c), 0, 'the angle to itself')
    same(vx.angle(p * a, -q * a, c), 180, 'the angle to the opposite')
    same(vx.angle(p * a, q * (a + b), c), 45, 'half a right angle')
    same(vx.angle(p * a, q * (b - a), c), 135, 'one and a half right angles')
    same(vx.signed_angle(p * a, q * b, f * c), 90 * f, 'signed right angle')
    same(vx.signed_angle(q * b, p * a, f * c), -90 * f, 'signed right angle, reversed')
    same(vx.signed_angle(p * a, q * (b - a), f * c), 135 * f, 'signed obtuse angle')
    same(vx.signed_angle(p * a, q * a, f * c), 0, 'signed angle to itself')
    same(vx.signed_angle(p * a, -q * a, f * c), 180, 'signed angle to the opposite')


def o_signed_angle(scale=SCALES):
    at_scale(scale)
    a, b, look = arr('a', (3,)), arr('b', (3,)), arr('l', (3,))
    s = vx.signed_angle(a, b, look)
    t = vx.angle(a, b, look)
    d = dot(cross(a, b), look)
    if d > 0:
        same(s, t, 'signed angle, clockwise')
        same(vx.signed_angle(b, a, look), -t, 'signed angle, swapped')
        same(vx.signed_angle(a, b, -look), -t, 'signed angle, seen from behind')
    else:
        same(s, -t, 'signed angle, counterclockwise')
        same(vx.signed_angle(b, a, look), t, 'signed angle, swapped')
        same(vx.signed_angle(a, b, -look), t, 'signed angle, seen from behind')


def o_parallel_angle(f=(1, -1)):
    a = arr('a', (3,))
    k = sym('k', '+')
    near(vx.angle(a, f * k * a, a), 0 if f == 1 else 180, 'the angle between parallel vectors')


def o_parallel_angle_rounded(f=(1, -1, 3, -2)):
    # Rounding can push the cosine just past 1: no domain error.
    a, look = arr('a', (3,)), arr('l', (3,))
    slips('ones')
    want = 0 if f > 0 else 180
    near(vx.angle(a, f * a, look), want, 'the angle between parallel vectors')
    near(vx.angle(f * a, a, look), want, 'the angle between parallel vectors')
    near(abs(vx.signed_angle(a, f * a, look)), want, 'the signed angle between parallel vectors')


def o_almost_zero(scale=SCALES):
    at_scale(scale)
    same(vx.almost_zero(np.array([0.0, 0.0, 0.0])), True, 'zero')
    for i in range(3):
        for e, atol, want in ((1e-9, 1e-8, True), (-1e-9, 1e-8, True), (1e-7, 1e-8, False), (-1e-7, 1e-8, False),
                              (1e-3, 1e-2, True), (1e-3, 1e-4, False), (-1e-3, 1e-4, False)):
            v = [0.0, 0.0, 0.0]
            v[i] = e
            same(vx.almost_zero(np.array(v), atol=atol), want, 'almost_zero')
            if atol == 1e-8:
                same(vx.almost_zero(np.array(v)), want, 'almost_zero, default tolerance')


def o_almost_collinear(scale=SCALES):
    at_scale(scale)
    a = arr('a', (3,))
    k = sym('k')
    same(vx.almost_collinear(a, k * a), True, 'parallel vectors')
    same(vx.almost_collinear(a, np.zeros(3)), True, 'the zero vector')
    same(vx.almost_collinear(np.array(X), np.array(Y)), False, 'orthogonal vectors')
    same(vx.almost_collinear(np.array(X), np.array([1.0, 1e-7, 0.0])), False, 'beyond the default tolerance')
    same(vx.almost_collinear(np.array(X), np.array([1.0, 1e-9, 0.0])), True, 'within the default tolerance')
    same(vx.almost_collinear(np.array(X), np.array([1.0, -1e-3, 0.0]), atol=1e-2), True, 'within the tolerance')
    same(vx.almost_collinear(np.array(X), np.array([1.0, -1e-3, 0.0]), atol=1e-4), False, 'beyond the tolerance')


def o_almost_collinear_length(c=((1., 1., 1.), (1., -1., 1.), (-2., 1., 2.), (0., 3., 4.)), atol=(None, 1e-5, 1e-2), within=(True, False)):
    # How long the cross product is, not how large any part of it.
    u = np.array(c) / dot(c, c) ** .5
    e = np.array([c[1], -c[0], 0.]) / (c[0] * c[0] + c[1] * c[1]) ** .5
    f = np.array(cross(u, e))
    k = (.9 if within else 1.1) * (1e-8 if atol is None else atol)
    got = vx.almost_collinear(e, e + k * f) if atol is None else vx.almost_collinear(e, e + k * f, atol=atol)
    same(got, within, 'almost collinear')


def o_almost_zero_stack(k=(1, 2, 4), atol=(None, 1e-5, 1e-2), at=(0, 1, 2), within=(True, False), f=(1, -1)):
    # Every entry of a stack is within the tolerance.
    e = f * (.9 if within else 1.1) * (1e-8 if atol is None else atol)
    v = np.zeros((k, 3))
    v[k - 1, at] = e
    same(vx.almost_zero(v) if atol is None else vx.almost_zero(v, atol=atol), within, 'almost zero')
    same(vx.almost_zero(v[k - 1]) if atol is None else vx.almost_zero(v[k - 1], atol), within, 'almost zero')


def o_basis(scale=SCALES):
    at_scale(scale)
    b = vx.basis
    same((b.x, b.y, b.z), (X, Y, Z), 'basis vectors')
    same((b.neg_x, b.neg_y, b.neg_z), ([-1, 0, 0], [0, -1, 0], [0, 0, -1]), 'opposite basis vectors')
    for n in ('x', 'y', 'z', 'neg_x', 'neg_y', 'neg_z'):
        v = getattr(b, n)
        before = freeze(v)
        holds(isinstance(v, np.ndarray) and v.shape == (3,), 'basis vectors are vectors')
        same(2 * v + v, [3 * x for x in list(v)], 'basis vectors are vectors')
        v *= 3.0
        v += 1.0
        same(getattr(b, n), before, 'a basis vector after a caller changed its copy')
