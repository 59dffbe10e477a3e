"""Hash-consed value terms of the static analyser.

A term denotes a value of the analysed program as a function of the inputs (parameters, fields, draws of random
generators, results of calls into code that is not part of the repository).  Constructors normalise: arithmetic is kept
as a polynomial over atoms (exponents may be fractions or terms), comparisons become sign atoms of a canonical
polynomial, boolean structure is flattened, binders are closed with height-numbered variables so that two terms that
differ only in the names of bound variables are the same object.
"""
from fractions import Fraction
from math import gcd
import hashlib

_table = {}
_uid = [0]


class T:
    __slots__ = ('op', 'args', 'h', '_sk', 'free')

    def __repr__(self):
        return show(self)


def _mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._sk = None
        h = 0
        fr = frozenset()
        if op == 'b':
            h = args[0]
        elif op == 'v':
            fr = frozenset([t])
        else:
            for a in _walk(args):
                if a.h > h:
                    h = a.h
                if a.free:
                    fr = fr | a.free
        t.h = h
        t.free = fr
        _table[key] = t
    return t


def _walk(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _walk(a)


def skey(t):
    if t._sk is None:
        s = '(' + t.op + ' ' + ' '.join(_sk(a) for a in t.args) + ')'
        if len(s) > 160:
            s = s[:60] + '#' + hashlib.sha1(s.encode()).hexdigest()
        t._sk = s
    return t._sk


def _sk(a):
    if isinstance(a, T):
        return skey(a)
    if isinstance(a, tuple):
        return '[' + ' '.join(_sk(x) for x in a) + ']'
    return repr(a)


# ---------------------------------------------------------------- constants

TRUE = _mk('true')
FALSE = _mk('false')
NONE = _mk('k', 'none')
INF = _mk('inf')
PI = _mk('pi')
NAN = _mk('nan')


def num(v):
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float('inf'),):
            return INF
        if v == float('-inf'):
            return neg(INF)
        v = Fraction(repr(v))
    return _mk('c', Fraction(v))


ZERO = num(0)
ONE = num(1)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return _mk('k', 'str', v)
    return _mk('k', type(v).__name__, repr(v))


def string(s):
    return _mk('k', 'str', s)


def sym(name, flags=''):
    """flags: i integer, p positive, n non-negative, b boolean, x real of unknown sign, o opaque (not None)"""
    return _mk('sym', name, flags)


def fresh_var():
    _uid[0] += 1
    return _mk('v', _uid[0])


def fresh_id():
    _uid[0] += 1
    return _uid[0]


def is_const(t):
    return t.op in ('c', 'k', 'true', 'false', 'inf', 'pi', 'nan')


def cval(t):
    """python value of a numeric constant or None"""
    return t.args[0] if t.op == 'c' else None


# ---------------------------------------------------------------- predicates

BOOL = {'true', 'false', 'and', 'or', 'not', 'neg', 'pos', 'eqk', 'isnone', 'pred', 'forall', 'in', 'isinst', 'truth'}


def is_bool(t):
    o = t.op
    if o in BOOL:
        return True
    if o == 'sym':
        return 'b' in t.args[1]
    if o == 'phi':
        return t.args[1] == 'b'
    if o == 'at':
        b = t.args[0]
        return (b.op == 'phi' and b.args[1] == 'b') or (b.op == 'sym' and 'B' in b.args[1]) or (
            b.op in ('scat',) and is_bool(b))
    if o == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if o == 'tab':
        return len(t.args[0]) == len(t.args[2]) and all(is_bool(x) for x in t.args[1])
    if o == 'lam':
        return False
    if o == 'first':
        return is_bool(t.args[0].args[-1])
    return False


def is_int(t):
    if t.op == 'c':
        return t.args[0].denominator == 1
    if t.op in ('v', 'b', 'count', 'len', 'floor', 'ceil', 'fdiv', 'comb', 'rank', 'round', 'int'):
        return True
    if t.op == 'sym':
        return 'i' in t.args[1]
    if t.op == 'poly':
        return all(c.denominator == 1 and all(isinstance(e, Fraction) and e.denominator == 1 and e > 0 and is_int(a)
                                              for a, e in m) for m, c in t.args[0])
    if t.op in ('min2', 'max2'):
        return all(is_int(a) for a in t.args)
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == 'mod':
        return is_int(t.args[0]) and is_int(t.args[1])
    if t.op == 'at':
        return t.args[0].op == 'sym' and 'I' in t.args[0].args[1]
    if t.op == 'red' and t.args[0] in ('+', '*', 'min', 'max'):
        return is_int(t.args[1].args[-1])
    if t.op == 'abs':
        return is_int(t.args[0])
    return False


def is_nonneg(t):
    if t.op == 'c':
        return t.args[0] >= 0
    if t.op in ('v', 'b', 'count', 'len', 'pi', 'inf', 'abs', 'comb', 'rank', 'exp', 'gamma'):
        return True
    if t.op == 'log':
        return is_pos(t)
    if t.op == 'sym':
        return 'p' in t.args[1] or 'n' in t.args[1]
    if t.op == 'poly':
        return all(c >= 0 and all((isinstance(e, Fraction) and (e % 2 == 0 or e.denominator % 2 == 0)) or is_nonneg(a) for a, e in m)
                   for m, c in t.args[0])
    if t.op == 'red':
        if t.args[0] in ('+', '*', 'min', 'max'):
            return is_nonneg(t.args[1].args[-1])
    if t.op == 'ite':
        return is_nonneg(t.args[1]) and is_nonneg(t.args[2])
    if t.op == 'max2':
        return any(is_nonneg(a) for a in t.args)
    if t.op in ('min2', 'floor', 'ceil', 'round', 'int'):
        return all(is_nonneg(a) for a in t.args if isinstance(a, T))
    if t.op == 'fn' and t.args[0] in ('gamma', 'entropy'):
        return True
    return False


def is_pos(t):
    if t.op == 'c':
        return t.args[0] > 0
    if t.op in ('pi', 'inf', 'exp', 'comb'):
        return True
    if t.op == 'log':
        return t.args[0].op == 'c' and t.args[0].args[0] > 1
    if t.op == 'fn' and t.args[0] == 'gamma':
        return True
    if t.op == 'sym':
        return 'p' in t.args[1]
    if t.op == 'poly':
        return is_nonneg(t) and any(all(is_pos(a) for a, e in m) for m, c in t.args[0])
    return False


# ---------------------------------------------------------------- polynomials

def poly_of(t):
    if t.op == 'c':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, Fraction(1)),): Fraction(1)}


def _mono_key(m):
    return tuple((skey(a), _sk(e)) for a, e in m)


def mk_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    return _mk('poly', tuple(items))


def _padd(d, e, k=Fraction(1)):
    r = dict(d)
    for m, c in e.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _norm_mono(exps):
    """exps: dict atom -> exponent (Fraction or T).  Returns (coef, mono, extra) where extra is a list of polys to be
    multiplied in (poly atoms whose exponent became a positive integer)."""
    coef = Fraction(1)
    out = []
    extra = []
    for a, e in exps.items():
        if isinstance(e, T):
            if e.op == 'c':
                e = e.args[0]
        if isinstance(e, Fraction):
            if e == 0:
                continue
            if a.op == 'c':
                if e.denominator == 1:
                    coef *= a.args[0] ** int(e)
                    continue
                ip = e.numerator // e.denominator
                if ip:
                    coef *= a.args[0] ** ip
                    e = e - ip
                v = a.args[0]
                r = _exact_root(v, e)
                if r is not None:
                    coef *= r
                    continue
                out.append((a, e))
                continue
            if a.op == 'poly' and e.denominator == 1 and 0 < e <= 6:
                extra.append((a, int(e)))
                continue
            if a.op == 'abs' and e.denominator == 1 and e % 2 == 0:
                extra.append((power(a.args[0], num(e)), 1))
                continue
        out.append((a, e))
    out.sort(key=lambda p: (skey(p[0]), _sk(p[1])))
    return coef, tuple(out), extra


def _exact_root(v, e):
    if v < 0:
        return None
    q = e.denominator
    for cand in (v.numerator, v.denominator):
        r = round(cand ** (1.0 / q))
        if r ** q != cand:
            return None
    n = round(v.numerator ** (1.0 / q))
    d = round(v.denominator ** (1.0 / q))
    return Fraction(n, d) ** e.numerator


def _pmul(d, e):
    r = {}
    for m1, c1 in d.items():
        for m2, c2 in e.items():
            if not m1:
                exps = None
                mono, coef, extra = m2, Fraction(1), []
            elif not m2:
                mono, coef, extra = m1, Fraction(1), []
            else:
                exps = {}
                for a, x in m1 + m2:
                    if a in exps:
                        exps[a] = _eadd(exps[a], x)
                    else:
                        exps[a] = x
                coef, mono, extra = _norm_mono(exps)
            term = {mono: c1 * c2 * coef}
            for p, k in extra:
                pp = poly_of(p)
                for _ in range(k):
                    term = _pmul(term, pp)
            r = _padd(r, term)
    return r


def _eadd(x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x + y
    r = add(_et(x), _et(y))
    return r.args[0] if r.op == 'c' else r


def _et(x):
    return num(x) if isinstance(x, Fraction) else x


LIFT = 5


def _conds(t, acc):
    if t.op == 'ite':
        acc.add(t.args[0])
        _conds(t.args[1], acc)
        _conds(t.args[2], acc)
    return acc


def _lift2(f, a, b):
    """apply f under top-level ites of a, b when the result stays small; None when it does not apply"""
    if a.op != 'ite' and b.op != 'ite':
        return None
    if len(_conds(a, set()) | _conds(b, set())) > LIFT:
        return None
    if a.op == 'ite':
        c = a.args[0]
        return ite(c, f(a.args[1], restrict(b, c, True)), f(a.args[2], restrict(b, c, False)))
    c = b.args[0]
    return ite(c, f(restrict(a, c, True), b.args[1]), f(restrict(a, c, False), b.args[2]))


def _b2n(t):
    if is_bool(t):
        return ite_raw(t, ONE, ZERO)
    return t


def add(*ts):
    r = ZERO
    for t in ts:
        r = _add2(r, t)
    return r


def _add2(a, b):
    a, b = _b2n(a), _b2n(b)
    l = _lift2(_add2, a, b)
    if l is not None:
        return l
    if a is INF or b is INF:
        if _hasinf(a) or _hasinf(b):
            o = b if a is INF else a
            if not _hasinf(o):
                return INF
    return mk_poly(_padd(poly_of(a), poly_of(b)))


def _hasinf(t):
    return t is INF or (t.op == 'poly' and any(a is INF for m, c in t.args[0] for a, e in m))


def sub(a, b):
    return add(a, mul(num(-1), b))


def neg(a):
    return mul(num(-1), a)


def mul(*ts):
    r = ONE
    for t in ts:
        r = _mul2(r, t)
    return r


def _mul2(a, b):
    a, b = _b2n(a), _b2n(b)
    l = _lift2(_mul2, a, b)
    if l is not None:
        return l
    return mk_poly(_pmul(poly_of(a), poly_of(b)))


def div(a, b):
    return mul(a, power(b, num(-1)))


def power(b, e):
    b, e = _b2n(b), _b2n(e)
    if b.op == 'ite' and len(_conds(b, set())) <= LIFT:
        return ite(b.args[0], power(b.args[1], restrict(e, b.args[0], True)),
                   power(b.args[2], restrict(e, b.args[0], False)))
    if e.op == 'ite' and len(_conds(e, set())) <= LIFT:
        return ite(e.args[0], power(b, e.args[1]), power(b, e.args[2]))
    if e is ZERO:
        return ONE
    if e is ONE:
        return b
    if b is ONE:
        return ONE
    p = poly_of(b)
    if e.op == 'c':
        ev = e.args[0]
        if b.op == 'c':
            if b.args[0] == 0:
                return ZERO if ev > 0 else _mk('fn', 'div0', (b,))
            if ev.denominator == 1:
                return num(b.args[0] ** int(ev))
        if ev.denominator == 1 and 0 < ev <= 4 and len(p) > 1:
            r = {(): Fraction(1)}
            for _ in range(int(ev)):
                r = _pmul(r, p)
            return mk_poly(r)
    else:
        ev = e
    if len(p) == 1:
        (m, c), = p.items()
        exps = {}
        isint = isinstance(ev, Fraction) and ev.denominator == 1
        for a, x in m:
            nx = mul(_et(x), e)
            nx = nx.args[0] if nx.op == 'c' else nx
            base = a
            if not isint and isinstance(x, Fraction) and x.denominator == 1 and x % 2 == 0 and not is_nonneg(a):
                base = absv(a)
            if base.op == 'poly' and base is not a:
                pass
            exps[base] = _eadd(exps[base], nx) if base in exps else nx
        if c != 1:
            if c < 0 and not isint:
                return _mk_pow_atom(b, ev)
            ca = num(c)
            exps[ca] = _eadd(exps[ca], ev) if ca in exps else ev
        coef, mono, extra = _norm_mono(exps)
        r = {mono: coef}
        for q, k in extra:
            for _ in range(k):
                r = _pmul(r, poly_of(q))
        return mk_poly(r)
    # content
    lead = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))[0][1]
    g = None
    for c in p.values():
        g = abs(c) if g is None else _fgcd(g, abs(c))
    isint = isinstance(ev, Fraction) and ev.denominator == 1
    if lead < 0 and isint:
        g = -g
    if g != 1:
        base = mk_poly({m: c / g for m, c in p.items()})
        return mul(power(num(g), e), power(base, e))
    return _mk_pow_atom(b, ev)


def _fgcd(a, b):
    return Fraction(gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


def _mk_pow_atom(b, ev):
    coef, mono, extra = _norm_mono({b: ev})
    return mk_poly({mono: coef})


def absv(t):
    if is_nonneg(t):
        return t
    if t.op == 'c':
        return num(abs(t.args[0]))
    if t.op == 'ite':
        return ite(t.args[0], absv(t.args[1]), absv(t.args[2]))
    p = poly_of(t)
    if all(c <= 0 for c in p.values()) and is_nonneg(neg(t)):
        return neg(t)
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    if items[0][1] < 0:
        t = neg(t)
    return _mk('abs', t)


def fn(name, *args):
    """an uninterpreted, pure, understood function"""
    return _mk('fn', name, tuple(args))


def log(t):
    if t is ONE:
        return ZERO
    if t.op == 'ite':
        return ite(t.args[0], log(t.args[1]), log(t.args[2]))
    p = poly_of(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and (len(m) > 1 or c != 1 or (m and m[0][1] != 1)):
            r = ZERO
            if c != 1:
                r = _logc(c)
            for a, e in m:
                r = add(r, mul(_et(e), _mk('log', a)))
            return r
    if t.op == 'c' and t.args[0] > 0:
        return _logc(t.args[0])
    return _mk('log', t)


def _logc(c):
    r = ZERO
    if c.numerator != 1:
        r = add(r, _primelog(c.numerator))
    if c.denominator != 1:
        r = sub(r, _primelog(c.denominator))
    return r


def _primelog(n):
    r = {}
    k = 2
    while k * k <= n and k < 100000:
        while n % k == 0:
            r[k] = r.get(k, 0) + 1
            n //= k
        k += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return mk_poly({((_mk('log', num(q)), Fraction(1)),): Fraction(e) for q, e in r.items()})


def min2(*ts):
    return _minmax('min2', ts)


def max2(*ts):
    return _minmax('max2', ts)


def _minmax(op, ts):
    flat = []
    for t in ts:
        if t.op == op:
            flat.extend(t.args)
        elif t.op == 'ite' and len(_conds(t, set())) <= LIFT:
            c = t.args[0]
            rest = list(ts)
            rest.remove(t)
            return ite(c, _minmax(op, [restrict(x, c, True) for x in rest] + [t.args[1]]),
                       _minmax(op, [restrict(x, c, False) for x in rest] + [t.args[2]]))
        else:
            flat.append(t)
    cs = [t for t in flat if t.op == 'c']
    rest = [t for t in flat if t.op != 'c']
    if INF in rest and op == 'min2' and len(rest) + len(cs) > 1:
        rest = [r for r in rest if r is not INF]
    if cs:
        v = (min if op == 'min2' else max)(c.args[0] for c in cs)
        if op == 'max2' and v <= 0 and any(is_nonneg(r) for r in rest):
            pass
        else:
            rest.append(num(v))
    rest = sorted(set(rest), key=skey)
    if 1 < len(rest) <= 4:
        # an argument that another one never exceeds (or falls below) does not matter
        for a in list(rest):
            if any(b is not a and (is_nonneg(sub(a, b)) if op == 'min2' else is_nonneg(sub(b, a))) for b in rest):
                rest.remove(a)
    if len(rest) == 1:
        return rest[0]
    return _mk(op, *rest)


def _whole(t):
    """the integer terms of a sum, when there are any besides others"""
    p = poly_of(t)
    whole = {}
    for m, c in p.items():
        if m and is_int(mk_poly({m: c})):
            whole[m] = c
        elif not m and c.denominator == 1 and len(p) > 1:
            whole[m] = c
        elif not m and abs(c) > 1:
            whole[m] = Fraction(int(c))
    return mk_poly(whole) if whole and mk_poly(whole) is not t else None


def floor(t):
    if t.op == 'c':
        return num(t.args[0].__floor__())
    if is_int(t):
        return t
    if t.op == 'ite':
        return ite(t.args[0], floor(t.args[1]), floor(t.args[2]))
    w = _whole(t)
    if w is not None:
        return add(w, floor(sub(t, w)))
    return _mk('floor', t)


def ceil(t):
    if t.op == 'c':
        return num(t.args[0].__ceil__())
    if is_int(t):
        return t
    if t.op == 'ite':
        return ite(t.args[0], ceil(t.args[1]), ceil(t.args[2]))
    w = _whole(t)
    if w is not None:
        return add(w, ceil(sub(t, w)))
    return _mk('ceil', t)


def toint(t):
    """int(t): truncation"""
    if t.op == 'ite':
        return ite(t.args[0], toint(t.args[1]), toint(t.args[2]))
    if is_bool(t):
        return _b2n(t)
    if is_int(t):
        return t
    if t.op in ('c',):
        return num(int(t.args[0]))
    if is_nonneg(t):
        return floor(t)
    return _mk('int', t)


def mod(a, b):
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if b.op == 'c' and b.args[0] > 0 and b.args[0].denominator == 1 and (a.op == 'poly' or a.op == 'sym' and b is ONE):
        k = b.args[0]
        r = ZERO
        changed = False
        for m, c in poly_of(a).items():
            t = num(c)
            for x, e in m:
                t = mul(t, power(x, num(e)))
            if c.denominator == 1 and is_int(t) and c % k != c:
                changed = True
                t = num(c % k)
                for x, e in m:
                    t = mul(t, power(x, num(e)))
            r = add(r, t)
        if changed:
            return mod(r, b)
    return _mk('mod', a, b)


def fdiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE and is_int(a):
        return a
    if is_int(a) and is_int(b):
        return floor(div(a, b))
    return floor(div(a, b))


# ---------------------------------------------------------------- formulas

def nott(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op in ('and', 'or', 'ite'):
        r = _nots.get(t)
        if r is None:
            if t.op == 'and':
                r = orr(*[nott(a) for a in t.args])
            elif t.op == 'or':
                r = andd(*[nott(a) for a in t.args])
            else:
                r = ite(t.args[0], nott(t.args[1]), nott(t.args[2]))
            _nots[t] = r
        return r
    return _mk('not', t)


_nots = {}


def andd(*ts):
    return _nary('and', 'or', TRUE, FALSE, ts)


def orr(*ts):
    return _nary('or', 'and', FALSE, TRUE, ts)


def _nary(op, dual, unit, zero, ts):
    s = set()
    for t in ts:
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            s.update(t.args)
        else:
            s.add(t)
    for t in list(s):
        if nott(t) in s:
            return zero
    # absorption:  a and (a or b) = a ; a and (not a or b) = a and b
    changed = True
    while changed:
        changed = False
        for t in list(s):
            if t.op == dual:
                if any(x in s for x in t.args):
                    s.discard(t)
                    changed = True
                    break
                red = tuple(x for x in t.args if nott(x) not in s)
                if len(red) != len(t.args):
                    s.discard(t)
                    n = _nary(dual, op, zero, unit, red)
                    if n is zero:
                        return zero
                    if n.op == op:
                        s.update(n.args)
                    elif n is not unit:
                        s.add(n)
                    changed = True
                    break
    for t in list(s):
        if nott(t) in s:
            return zero
    # sign theory for conjunction / disjunction of sign atoms
    if op == 'and':
        for t in s:
            if t.op == 'neg' and _mk('pos', t.args[0]) in s:
                return FALSE
        for t in list(s):
            if t.op == 'neg':
                s.discard(_mk('not', _mk('pos', t.args[0])))
            elif t.op == 'pos':
                s.discard(_mk('not', _mk('neg', t.args[0])))
    else:
        for t in list(s):
            if t.op == 'not' and t.args[0].op in ('neg', 'pos'):
                o = _mk('pos' if t.args[0].op == 'neg' else 'neg', t.args[0].args[0])
                if _mk('not', o) in s:
                    return TRUE
                s.discard(o)
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s))
    return _mk(op, *sorted(s, key=skey))


def implies_t(a, b):
    return orr(nott(a), b)


def iff(a, b):
    return orr(andd(a, b), andd(nott(a), nott(b)))


def neg_(a):
    return mul(num(-1), a)


def _surd_sign(p):
    """sign of a + b*sqrt(c) for numbers a, b, c; None for anything else"""
    ms = [m for m in p if m]
    if len(ms) != 1 or len(p) > 2:
        return None
    b, sq = p[ms[0]], Fraction(1)
    for a, x in ms[0]:
        if not isinstance(a, T) or a.op != 'c' or not isinstance(x, Fraction) or x.denominator != 2 or a.args[0] <= 0:
            return None
        sq *= a.args[0] ** int(2 * x)
    a = p.get((), Fraction(0))
    lo, hi = (1 if b > 0 else -1), (1 if a > 0 else -1 if a < 0 else 0)
    if hi in (0, lo):
        return lo
    d = b * b * sq - a * a
    return 0 if d == 0 else lo if d > 0 else hi


def _sign_atom(which, e):
    """which in neg/pos; e a numeric term"""
    if e.op == 'c':
        v = e.args[0]
        return TRUE if (v < 0 if which == 'neg' else v > 0) else FALSE
    if e.op == 'ite' and len(_conds(e, set())) <= LIFT:
        return ite(e.args[0], _sign_atom(which, e.args[1]), _sign_atom(which, e.args[2]))
    if e is INF:
        return TRUE if which == 'pos' else FALSE
    p = poly_of(e)
    if any(a is INF for m in p for a, x in m):
        cs = [c for m, c in p.items() if len(m) == 1 and m[0][0] is INF]
        if len(cs) == 1:
            return TRUE if (cs[0] > 0) == (which == 'pos') else FALSE
    ext = [(m[0][0], c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], T) and m[0][0].op == 'red'
           and m[0][0].args[0] in ('min', 'max')]
    if len(ext) == 1 and sum(1 for m in p for a, x in m if isinstance(a, T) and any(y is ext[0][0] for y in [a])) == 1:
        # comparing an extremum is comparing all, or some, of the elements
        r, c = ext[0]
        rest = add(e, neg_(mul(num(c), r)))
        vs, szs, g, b = open_lam(r.args[1])
        f = _sign_atom(which, add(mul(num(c), b), rest))
        every = (which == 'pos') == ((c > 0) == (r.args[0] == 'min'))
        return forall(lam(vs, szs, g, f)) if every else nott(forall(lam(vs, szs, g, nott(f))))
    if p and all(len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], T) and m[0][0].op == 'count' for m in p) and len({c > 0 for c in p.values()}) == 1:
        # there are any exactly if there is one
        if (next(iter(p.values())) > 0) != (which == 'pos'):
            return FALSE
        some = []
        for m in p:
            vs, szs, g, _ = open_lam(m[0][0].args[0])
            some.append(nott(forall(lam(vs, szs, TRUE, nott(g)))))
        return orr(*some)
    sg = _surd_sign(p)
    if sg is not None:
        return TRUE if sg != 0 and (sg > 0) == (which == 'pos') else FALSE
    two = [(m[0][0], c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], T) and m[0][0].op in ('min2', 'max2')]
    if len(two) == 1 and sum(1 for m in p for a, x in m if a is two[0][0]) == 1:
        r, c = two[0]
        rest = add(e, neg_(mul(num(c), r)))
        fs = [_sign_atom(which, add(mul(num(c), b), rest)) for b in r.args]
        every = (which == 'pos') == ((c > 0) == (r.op == 'min2'))
        return andd(*fs) if every else orr(*fs)
    if len(p) == 1:
        # a product: only the sign of the factors of unknown sign matters
        (m, c), = p.items()
        rest = [(a, x) for a, x in m if not is_pos(a)]
        if not rest:
            return TRUE if (c > 0) == (which == 'pos') else FALSE
        if len(rest) == 1 and rest[0][1] != 1 and isinstance(rest[0][1], Fraction) and rest[0][1].denominator == 1 \
                and is_nonneg(rest[0][0]):
            rest = [(rest[0][0], Fraction(1))]
        if len(rest) != len(m):
            e = mk_poly({tuple(rest): Fraction(1 if c > 0 else -1)})
            p = poly_of(e)
    else:
        # common positive monomial factor
        common = None
        for m in p:
            d = {a: x for a, x in m if isinstance(x, Fraction) and is_pos(a)}
            common = d if common is None else {a: min(common[a], d[a]) if (common[a] > 0) == (d[a] > 0) else None
                                               for a in common if a in d}
            common = {a: x for a, x in common.items() if x is not None}
            if not common:
                break
        negs = {}
        for m in p:
            for a, x in m:
                if isinstance(x, Fraction) and x < 0 and is_pos(a):
                    negs[a] = min(negs.get(a, 0), x)
        f = {}
        for a, x in (common or {}).items():
            if x > 0:
                f[a] = -x
        for a, x in negs.items():
            f[a] = -x
        if f:
            coef, mono, extra = _norm_mono(f)
            q = {mono: Fraction(1)}
            for pp, k in extra:
                for _ in range(k):
                    q = _pmul(q, poly_of(pp))
            e = mk_poly(_pmul(p, q))
            if e.op == 'ite' or e.op == 'c':
                return _sign_atom(which, e)
            p = poly_of(e)
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda mc: _mono_key(mc[0]))
    if not items:
        return _sign_atom(which, num(p.get((), 0)))
    lead = items[0][1]
    if lead < 0:
        which = 'pos' if which == 'neg' else 'neg'
    e = mk_poly({m: c / abs(lead) * (1 if lead > 0 else -1) for m, c in p.items()})
    if is_nonneg(e) and which == 'neg':
        return FALSE
    if is_nonneg(neg(e)) and which == 'pos':
        return FALSE
    if is_pos(e) and which == 'pos':
        return TRUE
    if is_int(e):
        # canonical: use only 'pos(e)' with e integer: e<0 <=> not e+1>0
        if which == 'neg':
            e1 = add(e, ONE)
            return nott(_posint(e1))
        return _posint(e)
    return _mk(which, e)


def _posint(e):
    if e.op == 'c':
        return TRUE if e.args[0] > 0 else FALSE
    if is_pos(e):
        return TRUE
    if is_nonneg(neg(e)):
        return FALSE
    return _mk('pos', e)


def lt(a, b):
    if a is b:
        return FALSE
    return _sign_atom('neg', sub(a, b))


def gt(a, b):
    return lt(b, a)


def le(a, b):
    if a is b:
        return TRUE
    return nott(lt(b, a))


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'ite' and len(_conds(a, set())) <= LIFT:
        return ite(a.args[0], eq(a.args[1], restrict(b, a.args[0], True)), eq(a.args[2], restrict(b, a.args[0], False)))
    if b.op == 'ite' and len(_conds(b, set())) <= LIFT:
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if is_bool(a) and is_bool(b):
        return iff(a, b)
    if a.op == 'k' and b.op == 'k':
        return FALSE
    ka, kb = a.op in ('k', 'true', 'false'), b.op in ('k', 'true', 'false')
    if ka or kb:
        if a.op == 'c' or b.op == 'c' or (ka and b.op in ('poly',)) or (kb and a.op in ('poly',)):
            return FALSE
        if kb:
            a, b = b, a
        if a is NONE:
            return isnone(b)
        if a in (TRUE, FALSE) and is_bool(b):
            return b if a is TRUE else nott(b)
        return _mk('eqk', a, b)
    if a.op in ('tup', 'obj') or b.op in ('tup', 'obj'):
        if a.op == 'tup' and b.op == 'tup':
            if len(a.args) != len(b.args):
                return FALSE
            return andd(*[eq(x, y) for x, y in zip(a.args, b.args)])
        x, y = sorted([a, b], key=skey)
        return _mk('eqk', x, y)
    if a is INF or b is INF:
        o = b if a is INF else a
        if is_const(o):
            return FALSE
    return andd(le(a, b), le(b, a))


def ne(a, b):
    return nott(eq(a, b))


_isnone = {}


def isnone(t):
    if t is NONE:
        return TRUE
    if t.op == 'ite':
        r = _isnone.get(t)
        if r is None:
            r = _isnone[t] = ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
        return r
    if t.op == 'sym' and 'N' in t.args[1]:
        return _mk('isnone', t)
    if t.op in ('unk', 'call', 'attr', 'first') or (t.op == 'phi' and not t.args[1]) or (
            t.op == 'at' and t.args[0].op in ('unk', 'call', 'attr')):
        return _mk('isnone', t)
    return FALSE


def truth(t):
    """bool(t)"""
    if is_bool(t):
        return t
    if t.op == 'c':
        return TRUE if t.args[0] != 0 else FALSE
    if t is NONE:
        return FALSE
    if t.op == 'obj' and (t.args[0].startswith('numpy.random.') or t.args[0].startswith('networkit.')):
        return TRUE
    if t.op == 'k':
        return TRUE if t.args[-1] else FALSE
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ('poly', 'count', 'len', 'v', 'b', 'floor', 'ceil', 'mod', 'red', 'min2', 'max2') or (t.op == 'phi' and t.args[1] == 'x') or (
            t.op == 'sym' and any(f in t.args[1] for f in 'ipnx') and 'N' not in t.args[1]):
        return ne(t, ZERO)
    return _mk('truth', t)


def pred(name, *args):
    if name == 'isnan' and len(args) == 1 and isinstance(args[0], T):
        x = args[0]
        if x is NAN:
            return TRUE
        if x.op == 'c' or x.op == 'len':
            return FALSE
        if x.op == 'poly' and all(a.op in ('len', 'c') for m in poly_of(x) for a, _ in m):
            return FALSE
        if x.op == 'ite':
            return orr(andd(x.args[0], pred(name, x.args[1])), andd(nott(x.args[0]), pred(name, x.args[2])))
    return _mk('pred', name, tuple(args))


def ite_raw(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    return _mk('ite', c, a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return orr(andd(c, a), andd(nott(c), b))
    return _mk('ite', c, a, b)


def restrict(t, c, val):
    """t under the assumption that formula c has truth value val"""
    if t.op in ('c', 'k', 'sym', 'v', 'b'):
        if t is c:
            return TRUE if val else FALSE
        return t
    m = {}
    if c.op == 'and' and val:
        for a in c.args:
            _assume(m, a, True)
    elif c.op == 'or' and not val:
        for a in c.args:
            _assume(m, a, False)
    else:
        _assume(m, c, val)
    if not _occurs(t, m):
        return t
    return subst(t, m)


def _assume(m, c, val):
    if c.op == 'not':
        c, val = c.args[0], not val
    m[c] = TRUE if val else FALSE
    if c.op in ('neg', 'pos') and val:
        m[_mk('pos' if c.op == 'neg' else 'neg', c.args[0])] = FALSE


def _occurs(t, m, seen=None):
    if seen is None:
        seen = {}
    if t in m:
        return True
    r = seen.get(t)
    if r is None:
        r = any(_occurs(a, m, seen) for a in _walk(t.args))
        seen[t] = r
    return r


# ---------------------------------------------------------------- binders

def lam(vs, sizes, guard, body):
    """close body over the variables vs (terms 'v'), in order, with the given sizes and guard"""
    h = max([0, guard.h, body.h] + [s.h for s in sizes])
    m = {v: _mk('b', h + 1 + i) for i, v in enumerate(vs)}
    # iterate until heights are stable: re-normalisation cannot raise heights above h+len(vs)
    return _mk('lam', h, tuple(subst(s, m) for s in sizes), subst(guard, m), subst(body, m))


def open_lam(t, args=None):
    """(vars, sizes, guard, body) with fresh variables (or the given terms) for the bound ones"""
    h, sizes, guard, body = t.args
    vs = args if args is not None else [fresh_var() for _ in sizes]
    m = {_mk('b', h + 1 + i): v for i, v in enumerate(vs)}
    return vs, [subst(s, m) for s in sizes], subst(guard, m), subst(body, m)


def red(op, l):
    h, sizes, guard, body = l.args
    if op == 'all':
        return forall(l)
    if op == 'any':
        return nott(forall(_mk('lam', h, sizes, guard, nott(body))))
    if guard is FALSE or any(s is ZERO for s in sizes):
        if op in ('+', 'count'):
            return ZERO
        if op == '*':
            return ONE
    n = 1
    for s in sizes:
        c = cval(s)
        n = n * int(c) if c is not None and n is not None else None
    if n is not None and 0 < n <= 4:
        terms = []
        for env in _enum([int(cval(s)) for s in sizes]):
            m = {_mk('b', h + 1 + i): num(v) for i, v in enumerate(env)}
            terms.append((subst(guard, m), subst(body, m)))
        if op == '+':
            return add(*[ite(g, b, ZERO) for g, b in terms])
        if op == '*':
            return mul(*[ite(g, b, ONE) for g, b in terms])
        if all(g is TRUE for g, b in terms):
            if op == 'min':
                return min2(*[b for g, b in terms])
            if op == 'max':
                return max2(*[b for g, b in terms])
    bs = {_mk('b', h + 1 + i) for i in range(len(sizes))}
    if guard is TRUE and not _occurs(body, {b: 1 for b in bs}) and not any(_occurs(s, {b: 1 for b in bs}) for s in sizes):
        if op == '+':
            return mul(body, *sizes)
        if op == '*':
            return power(body, mul(*sizes))
        if op in ('min', 'max'):
            return body
    if op in ('+', '*') and body.op == 'ite' and guard is TRUE and len(sizes) == 1:
        # split off single points: sum over j<n of ite(j==k, a, b) for a constant k inside the range
        b0 = _mk('b', h + 1)
        if body.args[0].op == 'pos' and body.args[0].args[0] is b0:
            pt = subst(body.args[2], {b0: ZERO})
            rest = body.args[1]
            if not _occurs(rest, {b0: 1}):
                if op == '+':
                    return add(pt, mul(rest, sub(sizes[0], ONE)))
                return mul(pt, power(rest, sub(sizes[0], ONE)))
    return _mk('red', op, l)


def _enum(ns):
    if not ns:
        yield ()
        return
    for i in range(ns[0]):
        for r in _enum(ns[1:]):
            yield (i,) + r


_TAB = {}


def _has_tab(t):
    r = _TAB.get(t)
    if r is None:
        r = _TAB[t] = t.op == 'tab' or any(_has_tab(x) for x in _walk(t.args))
    return r


def forall(l):
    h, sizes, guard, body = l.args
    if guard is not TRUE:
        body = orr(nott(guard), body)
        guard = TRUE
    if body is TRUE:
        return TRUE
    n = 1
    for s in sizes:
        c = cval(s)
        n = n * int(c) if c is not None and n is not None else None
    if n is not None and n <= (16 if _has_tab(body) else 4):
        return andd(*[subst(body, {_mk('b', h + 1 + i): num(v) for i, v in enumerate(env)})
                      for env in _enum([int(cval(s)) for s in sizes])])
    bs = {_mk('b', h + 1 + i): 1 for i in range(len(sizes))}
    if not _occurs(body, bs) and all(is_pos(s) for s in sizes):
        return body
    if body.op == 'and':
        # re-close every conjunct: heights may drop
        out = []
        vs = [fresh_var() for _ in sizes]
        m = {_mk('b', h + 1 + i): v for i, v in enumerate(vs)}
        szs = [subst(s, m) for s in sizes]
        for a in body.args:
            out.append(forall(lam(vs, szs, TRUE, subst(a, m))))
        return andd(*out)
    return _mk('forall', _mk('lam', h, sizes, guard, body))


def count(l):
    h, sizes, guard, body = l.args
    if guard is TRUE:
        bs = {_mk('b', h + 1 + i): 1 for i in range(len(sizes))}
        if not any(_occurs(s, bs) for s in sizes):
            return mul(*sizes)
    if guard is FALSE:
        return ZERO
    return _mk('count', _mk('lam', h, sizes, guard, TRUE))


def at(base, *idx):
    """element of an (opaque or closed) array"""
    idx = tuple(idx)
    if base.op == 'lam' and len(base.args[1]) <= len(idx) and base.args[2] is TRUE:
        k = len(base.args[1])
        _, _, _, body = open_lam(base, list(idx[:k]))
        if k == len(idx):
            return body
        return at(body, *idx[k:])
    if base.op == 'at':
        return at(base.args[0], *(base.args[1:] + idx))
    if base.op == 'ite':
        return ite(base.args[0], at(base.args[1], *idx), at(base.args[2], *idx))
    if base.op == 'tab':
        return tab(base.args[0], base.args[1], base.args[2] + idx)
    return _mk('at', base, *idx)


def tab(shape, data, idx):
    """element of a literal table: data flat tuple of terms, shape tuple of ints"""
    if len(idx) == len(shape) and all(cval(i) is not None for i in idx):
        k = 0
        for i, n in zip(idx, shape):
            k = k * n + int(cval(i))
        return data[k]
    if len(set(data)) == 1 and len(idx) == len(shape):
        return data[0]
    return _mk('tab', shape, data, tuple(idx))


# ---------------------------------------------------------------- substitution

def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        if not t.args or t.op in ('c', 'k', 'sym', 'v', 'b'):
            r = t
        else:
            if t.op == 'lam':
                h, k = t.args[0], len(t.args[1])
                own = [b for b in m if b.op == 'b' and h < b.args[0] <= h + k]
                if own:
                    # the array binds this level again: the outer one is not visible inside
                    m = {a: b for a, b in m.items() if a not in own}
                    r = subst(t, m)
                    memo[t] = r
                    return r
            na = _suba(t.args, m, memo)
            r = t if na == t.args else rebuild(t.op, na)
    memo[t] = r
    return r


def _suba(args, m, memo):
    out = []
    for a in args:
        if isinstance(a, T):
            out.append(_subst(a, m, memo))
        elif isinstance(a, tuple):
            out.append(_suba(a, m, memo))
        else:
            out.append(a)
    return tuple(out)


def nth_at(dom, j):
    """element j of a listed sequence; a constant position of an unfiltered one is read off row by row"""
    i = cval(j)
    if dom.op == 'lam' and dom.args[2] is TRUE and i is not None and i == int(i) and i >= 0:
        sizes = [cval(s) for s in dom.args[1]]
        if all(s is not None and s > 0 for s in sizes[1:]):
            ix = []
            i = int(i)
            for s in reversed(sizes[1:]):
                ix.append(num(i % int(s)))
                i //= int(s)
            return open_lam(dom, [num(i)] + ix[::-1])[3]
    if dom.op == 'lam' and dom.args[2] is not TRUE and i is not None and i == int(i) and i >= 0 and len(dom.args[1]) == 1:
        # elements picked out of a few
        n = cval(dom.args[1][0])
        if n is not None and n <= 8:
            k = int(i)
            for x in range(int(n)):
                o = open_lam(dom, [num(x)])
                if o[2] is TRUE:
                    if k == 0:
                        return o[3]
                    k -= 1
                elif o[2] is not FALSE:
                    break
    return _mk('nth', dom, j)


def rebuild(op, a):
    if op == 'nth':
        return nth_at(*a)
    if op == 'poly':
        r = {}
        hard = False
        for mono, c in a[0]:
            for at_, e in mono:
                if at_.op in ('c', 'poly', 'ite', 'inf') or is_bool(at_) or isinstance(e, T):
                    hard = True
        if hard:
            terms = []
            for mono, c in a[0]:
                t = num(c)
                for at_, e in mono:
                    t = mul(t, power(at_, _et(e)))
                terms.append(t)
            return add(*terms)
        for mono, c in a[0]:
            exps = {}
            for at_, e in mono:
                exps[at_] = _eadd(exps[at_], e) if at_ in exps else e
            coef, mm, extra = _norm_mono(exps)
            term = {mm: c * coef}
            for p, k in extra:
                for _ in range(k):
                    term = _pmul(term, poly_of(p))
            r = _padd(r, term)
        return mk_poly(r)
    if op == 'and':
        return andd(*a)
    if op == 'or':
        return orr(*a)
    if op == 'not':
        return nott(a[0])
    if op in ('neg', 'pos'):
        return _sign_atom(op, a[0])
    if op == 'pred':
        return pred(a[0], *a[1])
    if op == 'ite':
        return ite(*a)
    if op == 'red':
        return red(a[0], a[1])
    if op == 'forall':
        return forall(a[0])
    if op == 'count':
        return count(a[0])
    if op == 'lam':
        h, sizes, guard, body = a
        nh = max([0] + [_outer(x, h, len(sizes)) for x in tuple(sizes) + (guard, body)])
        if nh != h:
            tmp = {_mk('b', h + 1 + i): fresh_var() for i in range(len(sizes))}
            vs = list(tmp.values())
            return lam(vs, [subst(s, tmp) for s in sizes], subst(guard, tmp), subst(body, tmp))
        return _mk('lam', h, sizes, guard, body)
    if op == 'at':
        return at(*a)
    if op == 'tab':
        return tab(*a)
    if op == 'abs':
        return absv(a[0])
    if op == 'log':
        return log(a[0])
    if op in ('min2', 'max2'):
        return _minmax(op, a)
    if op == 'floor':
        return floor(a[0])
    if op == 'ceil':
        return ceil(a[0])
    if op == 'int':
        return toint(a[0])
    if op == 'mod':
        return mod(*a)
    if op == 'eqk':
        return eq(*a)
    if op == 'isnone':
        return isnone(a[0])
    if op == 'truth':
        return truth(a[0])
    if op == 'rank':
        return _mk('rank', *a)
    return _mk(op, *a)


def _outer(t, h, n):
    """height of t apart from the bound variables h+1..h+n"""
    return _out(t, h, n, {})


def _out(t, h, n, memo):
    if t.h <= h:
        return t.h
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'b':
        r = 0 if h < t.args[0] <= h + n else t.args[0]
    else:
        r = max([0] + [_out(a, h, n, memo) for a in _walk(t.args)])
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in _walk(t.args):
        yield from subterms(a, seen)


def contains(t, p):
    return any(p(x) for x in subterms(t))


def fvs(t):
    """free variables"""
    return {x for x in subterms(t) if x.op == 'v'}


def has_unknown(t):
    return any(x.op in ('unk', 'phi', 'last', 'misaligned') for x in subterms(t))


# ---------------------------------------------------------------- display

def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 14:
        return '…'
    d = depth + 1
    o, a = t.op, t.args
    if o == 'c':
        v = a[0]
        return str(v) if v.denominator == 1 or abs(v.denominator) > 10 ** 6 else str(v)
    if o == 'k':
        return repr(a[1]) if a[0] == 'str' else ('None' if a[0] == 'none' else str(a[-1]))
    if o in ('true', 'false', 'inf', 'pi', 'nan'):
        return o
    if o == 'sym':
        return a[0]
    if o in ('v',):
        return 'v%d' % a[0]
    if o == 'b':
        return 'i%d' % a[0]
    if o == 'poly':
        out = []
        for m, c in a[0]:
            s = '*'.join(show(x, d) + ('' if e == 1 else '^' + (str(e) if not isinstance(e, T) else '(' + show(e, d) + ')'))
                         if x.op != 'poly' else '(' + show(x, d) + ')' + ('' if e == 1 else '^' + str(e)) for x, e in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = str(c) + '*' + s
            out.append(s)
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')'
    if o in ('neg', 'pos'):
        return show(a[0], d) + (' < 0' if o == 'neg' else ' > 0')
    if o == 'not':
        if a[0].op in ('neg', 'pos'):
            return show(a[0].args[0], d) + (' >= 0' if a[0].op == 'neg' else ' <= 0')
        return 'not ' + show(a[0], d)
    if o in ('and', 'or'):
        return '(' + (' ' + o + ' ').join(show(x, d) for x in a) + ')'
    if o == 'ite':
        return '[%s if %s else %s]' % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == 'at':
        return show(a[0], d) + '[' + ', '.join(show(x, d) for x in a[1:]) + ']'
    if o == 'lam':
        vs = ', '.join('i%d<%s' % (a[0] + 1 + i, show(s, d)) for i, s in enumerate(a[1]))
        g = '' if a[2] is TRUE else ' | ' + show(a[2], d)
        return '<%s%s: %s>' % (vs, g, show(a[3], d))
    if o == 'red':
        return a[0] + show(a[1], d)
    if o == 'forall':
        return 'all' + show(a[0], d)
    if o in ('pred', 'fn'):
        return a[0] + '(' + ', '.join(show(x, d) for x in a[1]) + ')'
    return o + '(' + ', '.join(_sh(x, d) for x in a) + ')'


def _sh(x, d):
    if isinstance(x, T):
        return show(x, d)
    if isinstance(x, tuple):
        return '(' + ', '.join(_sh(y, d) for y in x) + ')'
    return str(x)
