'''scipy.spatial: the hull is whatever the obligation says it is; nearest neighbours are computed.'''
import numpy as np


class ConvexHull(object):
    pretend = None
    seen = None

    def __init__(self, points, incremental=False, qhull_options=None):
        points = np.asarray(points)
        if points.ndim != 2 or points.shape[0] < points.shape[1] + 1:
            raise ValueError('QhullError: not enough points')
        ConvexHull.seen = points.copy()
        self.points = points
        self.vertices = np.array(ConvexHull.pretend, dtype=np.int32)


class cKDTree(object):
    def __init__(self, data, leafsize=16):
        self.data = np.asarray(data)
        if self.data.ndim != 2:
            raise ValueError('data must be 2 dimensions')

    def query(self, x, k=1):
        x = np.asarray(x)
        if x.ndim == 1:
            d = [np.linalg.norm(x - p) for p in self.data]
            return min(d), int(np.argmin(np.array(d)))
        both = [self.query(p) for p in x]
        return np.array([b[0] for b in both]), np.array([b[1] for b in both])
KDTree = cKDTree
