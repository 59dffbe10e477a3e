"""Exact neighbours behind the interface of kgraph: other points only, half the squared distance, text files."""
import numpy as np


class KGraph:
    def __init__(self, data, metric):
        assert data.shape[1] % 4 == 0
        self.data = np.array(data, dtype='float64')

    def build(self, reverse=0, K=20, L=100, S=10, **kw):
        d = np.linalg.norm(self.data[:, None] - self.data[None], axis=2)
        np.fill_diagonal(d, np.inf)
        n = min(L, len(self.data) - 1)
        self.ids = np.argsort(d, axis=1, kind='stable')[:, :n]
        self.d = np.take_along_axis(d, self.ids, axis=1) ** 2 / 2

    def save_text(self, path):
        with open(path, 'w') as f:
            f.write('%d\n' % len(self.data))
            for i, row in enumerate(self.ids):
                f.write(' '.join(['%d' % len(row)] + ['%d %r' % (j, float(x)) for j, x in zip(row, self.d[i])]) + '\n')
