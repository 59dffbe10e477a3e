"""Exact neighbours behind the interface of pynndescent's index."""
import numpy as np


class NNDescent:
    def __init__(self, data, metric='euclidean', metric_kwds=None, n_neighbors=30, **kw):
        self.data, self.k = np.array(data, dtype='float64'), n_neighbors

    def update(self, xs_fresh=None, xs_updated=None, updated_indices=None):
        self.data = np.concatenate([self.data, np.array(xs_fresh, dtype='float64')])

    @property
    def neighbor_graph(self):
        d = np.linalg.norm(self.data[:, None] - self.data[None], axis=2)
        ids = np.argsort(d, axis=1, kind='stable')[:, :self.k]
        return ids, np.take_along_axis(d, ids, axis=1)
