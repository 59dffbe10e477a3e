"""Stand-in for the parts of scipy that nonasymptotic.bound uses (scipy is not installed in this sandbox)."""
import math
import numpy as np


class special:
    @staticmethod
    def gamma(x):
        return math.gamma(x)

    @staticmethod
    def comb(n, k, exact=False):
        return math.comb(int(n), int(k)) if exact else float(math.comb(int(n), int(k)))


class stats:
    @staticmethod
    def entropy(pk, qk=None):
        p, q = np.asarray(pk, float), np.asarray(qk, float)
        p, q = p / p.sum(axis=0), q / q.sum(axis=0)
        with np.errstate(all='ignore'):
            t = np.where(p > 0, np.where(q > 0, p * np.log(p / q), np.inf), np.where(q >= 0, 0.0, np.inf))
        return t.sum(axis=0)
