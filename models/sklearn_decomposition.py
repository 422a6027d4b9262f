'''sklearn's PCA: the components are whatever the obligation says they are.'''
import numpy as np


class PCA(object):
    pretend = None
    seen = None

    def __init__(self, n_components=None, copy=True, whiten=False):
        self.n_components = n_components

    def fit(self, X, y=None):
        PCA.seen = np.array(X)
        self.components_ = np.array(PCA.pretend)[:self.n_components]
        return self
