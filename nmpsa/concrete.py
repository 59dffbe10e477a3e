"""arrays of known shape, element by element"""
import itertools
import numpy as np

from .arrays import Arr, ArrRef, Ax, to_arr
from .terms import FALSE, TRUE, T, ZERO, cval, fresh_var, num, subst
from .values import Tup

LIMIT = 4000


def grid(I, st, v):
    """an array of known shape as a grid of terms; None when the shape is not known"""
    a = to_arr(I, st, v)
    if not isinstance(a, Arr):
        its = I.static_items(st, v) if not isinstance(v, T) else None
        if its is None or not all(isinstance(x, T) for x in its):
            return None
        g = np.empty(len(its), dtype=object)
        g[:] = its
        return g
    axes = []
    for x in a.axes:
        if any(cval(s) is None for s in x.sizes):
            return None
        ms = []
        for p in itertools.product(*[range(int(cval(s))) for s in x.sizes]):
            m = dict(zip(x.vars, map(num, p)))
            g = subst(x.guard, m)
            if g is TRUE:
                ms.append(m)
            elif g is not FALSE:
                return None
        axes.append(ms)
    out = np.empty([len(x) for x in axes], dtype=object)
    if out.size > LIMIT:
        return None
    for at_ in np.ndindex(*out.shape):
        m = {}
        for x, k in zip(axes, at_):
            m.update(x[k])
        out[at_] = subst(a.body, m)
    return out


def make(I, st, g):
    """the array holding a grid of terms"""
    if g.ndim == 0:
        return g[()]
    if g.size == 0:
        return I.new_arr(st, [Ax([fresh_var()], [num(d)]) for d in g.shape], ZERO)

    def nest(x):
        return Tup([nest(y) for y in x]) if isinstance(x, np.ndarray) and x.ndim else x if not isinstance(x, np.ndarray) else x[()]
    return I.models.NP['array'](I, st, [nest(g)], {}, None)
