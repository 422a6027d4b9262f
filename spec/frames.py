'''Orthonormal frames (u, w, n) with rational entries: n is the plane normal.'''
import numpy as np

_R = (
    ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    ((0, 1, 0), (0, 0, 1), (1, 0, 0)),
    ((1, 0, 0), (0, 0, 1), (0, -1, 0)),
    ((2 / 3, 1 / 3, -2 / 3), (2 / 3, -2 / 3, 1 / 3), (1 / 3, 2 / 3, 2 / 3)),
    ((2 / 7, 3 / 7, 6 / 7), (3 / 7, -6 / 7, 2 / 7), (-6 / 7, -2 / 7, 3 / 7)),
)
# Inputs of any size: the promises of the library which name no tolerance hold below it.
TINY = 1e-18
SCALES = (1, TINY)

FRAMES = (0, 1, 2, 3, 4)
FEW = (0, 3)


def frame(i):
    return [np.array([float(x) for x in v]) for v in _R[i]]


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def cross(u, v):
    return np.array([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]])


def length(u):
    return dot(u, u) ** 0.5


# Directions next to the special ones (a unit vector, an axis): whoever takes them for those is off by as much.
NEXT_TO = ((0., 1.0005, 0.), (0., .9995, 0.), (.6 * 1.00002, 0., .8 * 1.00002), (.6 * .99998, 0., .8 * .99998),
           (2 / 3 * (1 + 2e-6), 1 / 3 * (1 + 2e-6), -2 / 3 * (1 + 2e-6)), (0., 0., 1 - 5e-7),
           (5e-4, 1., 0.), (-1., 2e-5, 0.), (0., 3e-6, 1.), (0., -1., 6e-7))
