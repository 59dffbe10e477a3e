"""A small stand-in for the parts of pandas the experiment runners use."""
import csv
import numpy as np


class Series(list):
    def unique(self):
        out = []
        for x in self:
            if x not in out:
                out.append(x)
        return np.array(out)


class DataFrame:
    def __init__(self, data=None, columns=None):
        self.cols = {}
        if isinstance(data, dict):
            self.cols = {k: list(v) for k, v in data.items()}
            self.n = len(next(iter(self.cols.values()))) if self.cols else 0
        else:
            data = list(data or [])
            self.n = len(data)
            for r in data:
                assert len(r) == len(columns), '%d values for %d columns' % (len(r), len(columns))
            self.cols = {c: [r[i] for r in data] for i, c in enumerate(columns or [])}

    @property
    def columns(self):
        return list(self.cols)

    def __len__(self):
        return self.n

    def __getitem__(self, k):
        return Series(self.cols[k])

    def __setitem__(self, k, v):
        self.cols[k] = [v] * self.n if np.isscalar(v) else list(v)

    def rows(self):
        return [{c: self.cols[c][i] for c in self.cols} for i in range(self.n)]

    def to_csv(self, path, **kw):
        with open(path, 'w', newline='') as f:
            w = csv.writer(f)
            w.writerow([''] + list(self.cols))
            for i in range(self.n):
                w.writerow([i] + [self.cols[c][i] for c in self.cols])


def concat(frames, **kw):
    out = DataFrame()
    out.n = sum(f.n for f in frames)
    names = []
    for f in frames:
        names += [c for c in f.cols if c not in names]
    out.cols = {c: [x for f in frames for x in (f.cols.get(c) or [np.nan] * f.n)] for c in names}
    return out


def _value(x):
    for t in (int, float):
        try:
            return t(x)
        except ValueError:
            pass
    return x


def read_csv(path, index_col=None, **kw):
    with open(path, newline='') as f:
        r = list(csv.reader(f))
    out = DataFrame()
    head = r[0][1:] if index_col == 0 else r[0]
    body = [x[1:] if index_col == 0 else x for x in r[1:]]
    out.n = len(body)
    out.cols = {c: [_value(x[i]) for x in body] for i, c in enumerate(head)}
    return out
