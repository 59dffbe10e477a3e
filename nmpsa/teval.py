"""Random interpretations of value terms.

A refutation ("these two formulas differ") is only reported when some interpretation of the formulas' free symbols,
uninterpreted functions and arrays makes the two values differ.  Nothing of the analysed program is run: what is
evaluated are the normal forms the analysis extracted."""
import hashlib
import itertools
import math
import time
from fractions import Fraction
from .terms import *
from .terms import _mk, _walk

MAXTAB = 200


class Unev(Exception):
    pass


class Undefined(Exception):
    pass


def canon(v):
    if isinstance(v, bool):
        return ('n', float(v)) if False else v
    if isinstance(v, (int, Fraction)):
        return float(v)
    if isinstance(v, float):
        if v == 0:
            return 0.0
        return float('%.9g' % v)
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    return v


def _leaves(v):
    """the numbers an evaluated array holds"""
    if isinstance(v, tuple) and v and v[0] == 'lam':
        return [y for _, x in v[2] for y in _leaves(x)]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return [v]
    raise Unev()


class Interp:
    def __init__(self, seed):
        self.seed = seed
        self.memo = {}

    def h(self, *key):
        x = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(x, 'big')

    def real(self, *key):
        x = self.h('r', *key)
        if self.seed % 4 >= 2 and key[0] == 'at':
            return ((x >> 8) % 100003) / 100003 * 1.5 - 0.75
        g = (-1.5, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2)
        if x % 3 == 0:
            return g[(x >> 8) % len(g)]
        return ((x >> 8) % 100003) / 100003 * 5 - 2

    def typed(self, flags, *key):
        if flags == 'v':
            return self.h('v', key[1]) % 4
        x = self.h('t', *key)
        if 'b' in flags or 'B' in flags:
            m = self.seed % 4
            return bool(x & 1) if m < 2 else (x % 12 != 0) if m == 2 else (x % 12 == 0)
        if 'i' in flags:
            if 'p' in flags:
                return 1 + (x >> 4) % 5
            if 'n' in flags:
                return (x >> 4) % 5
            return (x >> 4) % 9 - 3
        if 'I' in flags:
            return (x >> 4) % 4
        if 'p' in flags:
            return abs(self.real(*key)) + (0.0 if self.real(*key) else 0.3)
        if 'n' in flags:
            return abs(self.real(*key))
        return self.real(*key)

    def ev(self, t, env=()):
        if not t.free and not any(True for _ in ()):
            pass
        key = (t, env) if t.h else t
        if key in self.memo:
            return self.memo[key]
        v = self._ev(t, dict(env), env)
        self.memo[key] = v
        return v

    def table(self, l, env):
        """list of (index, value) of the elements of a lam, row-major, and its sizes"""
        h, sizes, guard, body = l.args
        out = []
        ns = []

        def go(i, idx, e):
            if i == len(sizes):
                ek = tuple(sorted(e.items(), key=lambda kv: kv[0].args[0]))
                if self.ev(guard, ek) is True:
                    out.append((tuple(idx), self.ev(body, ek)))
                    if len(out) > MAXTAB:
                        raise Unev()
                return
            n = self.ev(sizes[i], tuple(sorted(e.items(), key=lambda kv: kv[0].args[0])))
            if isinstance(n, float) and n == int(n) if isinstance(n, float) and abs(n) < 1e9 else False:
                n = int(n)
            if not isinstance(n, int) or isinstance(n, bool):
                raise Unev()
            if n > 40:
                raise Unev()
            ns.append(max(0, n))
            for j in range(max(0, n)):
                go(i + 1, idx + [j], {**e, _mk('b', h + 1 + i): j})
        go(0, [], dict(env))
        return out, tuple(ns)

    def _ev(self, t, d, env):
        o = t.op
        A = t.args
        E = lambda x: self.ev(x, env)
        if o == 'c':
            return int(A[0]) if A[0].denominator == 1 else float(A[0])
        if o == 'b':
            if t not in d:
                raise Unev()
            return d[t]
        if o == 'v':
            return self.typed('v', 'v', A)
        if o == 'sym':
            return self.typed(A[1], 'sym', A[0])
        if o == 'pi':
            return math.pi
        if o == 'inf':
            return math.inf
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'and':
            r = True
            for a in A:
                if E(a) is False:
                    return False
            return r
        if o == 'or':
            return any(E(a) is True for a in A)
        if o == 'not':
            return not E(A[0])
        if o == 'ite':
            c = E(A[0])
            if not isinstance(c, bool):
                raise Unev()
            return E(A[1]) if c else E(A[2])
        if o == 'poly':
            s = 0
            for m, c in A[0]:
                x = int(c) if c.denominator == 1 else float(c)
                for a, e in m:
                    b = self.numv(E(a))
                    p = self.numv(E(e)) if isinstance(e, T) else (int(e) if e.denominator == 1 else float(e))
                    x = x * self.pw(b, p)
                s = s + x
            return s
        if o in ('pos', 'neg'):
            x = self.numv(E(A[0]))
            return x > 1e-9 if o == 'pos' else x < -1e-9
        if o == 'abs':
            return abs(self.numv(E(A[0])))
        if o == 'min2':
            return min(self.numv(E(a)) for a in A)
        if o == 'max2':
            return max(self.numv(E(a)) for a in A)
        if o == 'floor':
            return math.floor(self.numv(E(A[0])) + 1e-9)
        if o == 'ceil':
            return math.ceil(self.numv(E(A[0])) - 1e-9)
        if o == 'int':
            return math.trunc(self.numv(E(A[0])))
        if o == 'round':
            return round(self.numv(E(A[0])))
        if o == 'mod':
            b = self.numv(E(A[1]))
            if b == 0:
                raise Undefined()
            return self.numv(E(A[0])) % b
        if o == 'log':
            x = self.numv(E(A[0]))
            if x <= 0:
                raise Undefined()
            return math.log(x)
        if o == 'comb':
            a, b = E(A[0]), E(A[1])
            a, b = self.idx(a), self.idx(b)
            return math.comb(a, b) if a >= 0 and b >= 0 else 0
        if o == 'red':
            tab, ns = self.table(A[1], env)
            vs = [self.numv(v) for _, v in tab]
            if A[0] == '+':
                return sum(vs)
            if A[0] == '*':
                return math.prod(vs)
            if A[0] in ('min', 'max') and vs:
                return (min if A[0] == 'min' else max)(vs)
            raise Undefined()
        if o == 'count':
            return len(self.table(A[0], env)[0])
        if o == 'forall':
            h, sizes, guard, body = A[0].args
            tab, _ = self.table(A[0], env)
            return all(v is True for _, v in tab)
        if o == 'rank':
            tab, _ = self.table(A[0], env)
            idx = tuple(self.idx(E(x)) for x in A[1:])
            return sum(1 for i, _ in tab if i < idx)
        if o == 'nth':
            tab, _ = self.table(A[0], env)
            j = self.idx(E(A[1]))
            if not 0 <= j < len(tab):
                raise Undefined()
            return tab[j][1]
        if o == 'lam':
            tab, ns = self.table(t, env)
            return ('lam', ns, tuple(canon((i, v)) for i, v in tab))
        if o == 'at':
            idx = tuple(self.idx(E(x)) for x in A[1:])
            b = A[0]
            if b.op == 'sym':
                return self.typed(b.args[1], 'at', b.args[0], idx)
            if b.op == 'lam':
                tab = dict(self.table(b, env)[0])
                if idx in tab:
                    return tab[idx]
                raise Undefined()
            if b.op in ('phi', 'unk', 'last', 'misaligned', 'call?', 'scat'):
                raise Unev()
            return self.typed('x', 'at', canon(E(b)), idx)
        if o == 'tab':
            shape, data, ix = A
            k = 0
            for i, n in zip(ix, shape):
                j = self.idx(E(i))
                if not 0 <= j < n:
                    raise Undefined()
                k = k * n + j
            if len(ix) != len(shape):
                raise Unev()
            return E(data[k])
        if o == 'fn':
            name, args = A
            vs = [E(a) if isinstance(a, T) else a for a in args]
            if name == 'exp':
                return math.exp(self.numv(vs[0]))
            if name == 'quantile':
                xs = sorted(_leaves(vs[0]))
                q = self.numv(vs[1])
                if not xs or not 0 <= q <= 1:
                    raise Undefined()
                k = q * (len(xs) - 1)
                lo = math.floor(k)
                return xs[lo] + (k - lo) * (xs[min(lo + 1, len(xs) - 1)] - xs[lo])
            if name == 'gamma':
                x = self.numv(vs[0])
                if x <= 0:
                    raise Undefined()
                return math.gamma(x)
            if name in ('sin', 'cos', 'tan') and len(vs) == 1 and not isinstance(vs[0], (tuple, list, dict)):
                return getattr(math, name)(self.numv(vs[0]))
            return self.typed('n' if name == 'entropy' else 'x', 'fn', name, canon(tuple(vs)))
        if o == 'exp':
            return math.exp(self.numv(E(A[0])))
        if o == 'pred':
            return self.typed('b', 'pred', A[0], canon(tuple(E(a) if isinstance(a, T) else a for a in A[1])))
        if o == 'k':
            return ('k',) + tuple(A)
        if o == 'tup':
            return ('tup',) + tuple(canon(E(a)) for a in A)
        if o == 'isnone':
            return E(A[0]) == ('k', 'none')
        if o == 'eqk':
            return canon(E(A[0])) == canon(E(A[1]))
        if o in ('attr', 'call', 'obj', 'len', 'truth', 'isinst', 'cat'):
            vs = self.gen(A, env)
            if o in ('truth', 'isinst'):
                return self.typed('b', o, vs)
            if o == 'len':
                return self.typed('in', o, vs)
            return self.typed('x', o, vs)
        raise Unev()

    def gen(self, a, env):
        if isinstance(a, T):
            return canon(self.ev(a, env))
        if isinstance(a, tuple):
            return tuple(self.gen(x, env) for x in a)
        return repr(a)

    def idx(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float) and abs(v) < 1e12 and abs(v - round(v)) < 1e-9:
            return round(v)
        raise Unev()

    def numv(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        raise Unev()

    def pw(self, b, p):
        try:
            if b == 0 and p < 0:
                raise Undefined()
            if b < 0 and not (isinstance(p, int) or float(p).is_integer()):
                raise Undefined()
            if abs(p) > 60:
                raise Undefined()
            return b ** p
        except OverflowError:
            raise Undefined()


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * (1 + max(abs(a), abs(b)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def differ(a, b, assume=TRUE, tries=2400, limit=15.0, make=None):
    """True: some interpretation separates the two terms; False: none of those tried does; None: cannot be evaluated"""
    done = 0
    t0 = time.time()
    for s in range(tries):
        if s >= 240 and time.time() - t0 > limit:
            break
        I = make(s, {}) if make else Interp(s)
        try:
            if assume is not TRUE and I.ev(assume) is not True:
                continue
            x, y = I.ev(a), I.ev(b)
        except Undefined:
            continue
        except (Unev, OverflowError, RecursionError, ValueError, TypeError, ZeroDivisionError):
            if s > 40 and not done:
                return None
            continue
        done += 1
        if not close(x, y):
            return True
    return False if done >= 8 else None


class Guided(Interp):
    """an interpretation whose free choices can be revised, remembering which of them a value depended on"""

    def __init__(self, seed, override):
        Interp.__init__(self, seed)
        self.override = override
        self.trace = {}

    def typed(self, flags, *key):
        self.trace[key] = flags
        if key in self.override:
            return self.override[key]
        return Interp.typed(self, flags, *key)


ERR = (Undefined, Unev, OverflowError, RecursionError, ValueError, TypeError, ZeroDivisionError)


def _holds(G, lit):
    try:
        return G.ev(lit) is True
    except ERR:
        return False


def _step(rnd, seed, ov, lit, make):
    """one revised choice (key, value) that may make the failing literal hold"""
    G = make(seed, ov)
    for _ in range(6):
        neg = lit.op == 'not'
        x = lit.args[0] if neg else lit
        if x.op in ('and', 'or') and not neg or x.op in ('and', 'or') and neg:
            bad = [a for a in x.args if _holds(G, a) == neg] or list(x.args)
            a = rnd.choice(bad)
            lit = nott(a) if neg else a
            continue
        if x.op == 'ite':
            try:
                c = G.ev(x.args[0])
            except ERR:
                break
            if rnd.random() < 0.3:
                lit = nott(x.args[0]) if c else x.args[0]
            else:
                lit = x.args[1 if c else 2]
                lit = nott(lit) if neg else lit
            continue
        break
    G = make(seed, ov)
    neg = lit.op == 'not'
    x = lit.args[0] if neg else lit
    num_ = x.args[0] if x.op in ('pos', 'neg') else None
    try:
        v0 = G.ev(num_ if num_ is not None else lit)
    except ERR:
        v0 = None
    if not G.trace:
        return None
    key = rnd.choice(list(G.trace))
    fl = G.trace[key]
    cur = G.typed(fl, *key)
    if isinstance(cur, bool):
        return key, not cur
    integer = fl == 'v' or 'i' in fl or 'I' in fl
    low = 1 if 'i' in fl and 'p' in fl else 0 if ('n' in fl or fl == 'v' or 'p' in fl) else None
    new = None
    if isinstance(v0, (int, float)) and num_ is not None and rnd.random() < 0.8:
        H = make(seed, {**ov, key: cur + 1})
        try:
            sl = H.ev(num_) - v0
        except ERR:
            sl = 0
        if isinstance(sl, (int, float)) and sl and math.isfinite(sl) and math.isfinite(v0):
            root = cur - v0 / sl
            d = rnd.choice((0, 0, 1, -1, 0.5, -0.5, 2, -2))
            new = root + d
            new = round(new) if integer else int(new) if new == int(new) else new
    if new is None:
        new = rnd.randrange(0, 6) if integer else rnd.choice((-1, 0, 1, 0.5, 2, 3, 0.25, 1.5))
    if low is not None and new < low:
        new = low
    if 'p' in fl and new <= 0:
        new = 0.5
    if abs(new) > 1e6:
        return None
    return key, new


def witness(bad, starts=12, steps=160, limit=12.0, make=Guided):
    """an interpretation that makes every conjunct of the formula true, looked for by repairing failing conjuncts"""
    import random
    lits = list(bad.args) if bad.op == 'and' else [bad]
    rnd = random.Random(7)
    t0 = time.time()
    for s in range(starts):
        ov = {}

        def failing(o):
            G = make(s, o)
            return [l for l in lits if not _holds(G, l)]
        cur = failing(ov)
        for _ in range(steps):
            if not cur:
                G = make(s, ov)
                return G.ev(bad) is True
            if time.time() - t0 > limit:
                return False
            st = _step(rnd, s, ov, rnd.choice(cur), make)
            if st is None:
                continue
            o2 = {**ov, st[0]: st[1]}
            f2 = failing(o2)
            if len(f2) <= len(cur) or rnd.random() < 0.03:
                ov, cur = o2, f2
    return False


class Sorted(Guided):
    """interpretations in which the rows of a back end's distance tables are sorted and not negative"""

    def typed(self, flags, *key):
        if key[0] == 'at' and isinstance(key[1], str) and key[1].startswith('dists') and len(key[2]) == 2 and 0 <= key[2][1] < 60:
            i, j = key[2]
            return sum(Guided.typed(self, 'n', 'at', key[1], (i, q)) for q in range(j + 1))
        return Guided.typed(self, flags, *key)
