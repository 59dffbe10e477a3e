"""Deciding equality and implication of terms.

Three-valued: True (equal / valid), False (distinct: a distinguishing sign assignment that is linearly consistent, or
distinct normal forms over understood operators), None (not decided)."""
from fractions import Fraction
import os
from itertools import product
import random
from .terms import *
from .terms import _mk, _walk, _mono_key

MAXASSIGN = 40000
UNKNOWN_OPS = {'unk', 'phi', 'last', 'misaligned', 'call?'}


def understood(t):
    return not any(x.op in UNKNOWN_OPS for x in subterms(t))


# ---------------------------------------------------------------- boolean atoms

def atoms(f, acc=None):
    if acc is None:
        acc = {}
    if f.op in ('true', 'false'):
        return acc
    if f.op in ('and', 'or', 'not'):
        for a in f.args:
            atoms(a, acc)
        return acc
    if f.op == 'ite':
        for a in f.args:
            atoms(a, acc)
        return acc
    acc[f] = True
    return acc


def linpart(e):
    """(linear part without constant, constant)"""
    p = poly_of(e)
    c = p.pop((), Fraction(0))
    return mk_poly(p), c


class Assign:
    def __init__(self, vals, regions):
        self.vals = vals          # bool atom -> bool
        self.regions = regions    # L -> region (lo, lo_strict, hi, hi_strict) ; point: lo==hi

    def get(self, a):
        if a.op in ('neg', 'pos'):
            L, c = linpart(a.args[0])
            lo, hi = self.regions[L]
            # region: point (lo==hi) or open interval (lo,hi)
            if a.op == 'pos':   # L + c > 0  <=> L > -c
                return lo is not None and (lo > -c if lo == hi else lo >= -c)
            return hi is not None and (hi < -c if lo == hi else hi <= -c)
        return self.vals[a]


def ev(f, s):
    o = f.op
    if o == 'true':
        return True
    if o == 'false':
        return False
    if o == 'and':
        return all(ev(a, s) for a in f.args)
    if o == 'or':
        return any(ev(a, s) for a in f.args)
    if o == 'not':
        return not ev(f.args[0], s)
    if o == 'ite':
        return ev(f.args[1], s) if ev(f.args[0], s) else ev(f.args[2], s)
    return s.get(f)


def regions_for(L, consts):
    bps = sorted(set(-c for c in consts))
    nonneg = is_nonneg(L)
    nonpos = is_nonneg(neg(L))
    pos_ = is_pos(L)
    integer = is_int(L)
    regs = []
    regs.append((None, bps[0]))
    for i, b in enumerate(bps):
        regs.append((b, b))
        regs.append((b, bps[i + 1] if i + 1 < len(bps) else None))
    out = []
    for lo, hi in regs:
        if lo is not None and lo == hi:
            if integer and lo.denominator != 1:
                continue
            if (nonneg and lo < 0) or (nonpos and lo > 0) or (pos_ and lo <= 0):
                continue
        else:
            if nonneg and hi is not None and hi <= 0:
                continue
            if nonpos and lo is not None and lo >= 0:
                continue
            if integer and lo is not None and hi is not None:
                import math
                first = math.floor(lo) + 1
                if not first < hi:
                    continue
        out.append((lo, hi))
    return out


def assignments(fs, limit=MAXASSIGN):
    """all theory-consistent (per linear part) assignments of the atoms of formulas fs; None when too many"""
    at_ = {}
    for f in fs:
        atoms(f, at_)
    groups = {}
    bools = []
    for a in at_:
        if a.op in ('neg', 'pos'):
            L, c = linpart(a.args[0])
            groups.setdefault(L, set()).add(c)
        else:
            bools.append(a)
    regs = {L: regions_for(L, cs) for L, cs in groups.items()}
    n = 2 ** len(bools)
    for r in regs.values():
        n *= max(1, len(r))
    if n > limit:
        return None
    bools.sort(key=skey)
    Ls = sorted(regs, key=skey)
    theory = _bool_theory(bools)

    def gen():
        for rv in product(*[regs[L] for L in Ls]):
            for bv in product((False, True), repeat=len(bools)):
                vals = dict(zip(bools, bv))
                if any(vals[a] and not vals[b] for a, b in theory):
                    continue
                s = Assign(vals, dict(zip(Ls, rv)))
                yield s
    return gen()


def _bool_theory(bools):
    """pairs (a, b) of quantified atoms with a => b"""
    out = []
    fa = [b for b in bools if b.op == 'forall']
    for a in fa:
        for b in fa:
            if a is not b and _lam_dom(a.args[0]) == _lam_dom(b.args[0]):
                vs, _, _, ba = open_lam(a.args[0])
                _, _, _, bb = open_lam(b.args[0], vs)
                if implies(TRUE, implies_t(ba, bb)) is True:
                    out.append((a, b))
    return out


def _lam_dom(l):
    return (l.args[0], l.args[1])


def feasible(s):
    """linear consistency of an assignment (monomials as independent reals, with sign facts): Fourier-Motzkin"""
    cons = []   # (coeffs dict, const, strict): sum + const >= 0 (or > 0)
    monos = set()
    for L, (lo, hi) in s.regions.items():
        p = poly_of(L)
        monos.update(p)
        if lo is not None:
            cons.append((dict(p), -lo, lo != hi))
        if hi is not None:
            cons.append(({m: -c for m, c in p.items()}, hi, lo != hi))
    for m in monos:
        t = mk_poly({m: Fraction(1)})
        if is_nonneg(t):
            cons.append(({m: Fraction(1)}, Fraction(0), is_pos(t)))
    return _fm(cons)


def _fm(cons):
    while True:
        vs = {}
        for c, k, st in cons:
            for m in c:
                if c[m]:
                    vs.setdefault(m, [0, 0])
                    vs[m][0 if c[m] > 0 else 1] += 1
        for c, k, st in cons:
            if not any(c.values()) and (k < 0 or (st and k == 0)):
                return False
        if not vs:
            return True
        m = min(vs, key=lambda v: vs[v][0] * vs[v][1])
        pos = [c for c in cons if c[0].get(m, 0) > 0]
        ng = [c for c in cons if c[0].get(m, 0) < 0]
        rest = [c for c in cons if not c[0].get(m, 0)]
        if len(pos) * len(ng) > 400:
            return True
        for p in pos:
            for q in ng:
                a, b = p[0][m], -q[0][m]
                d = {}
                for v in set(p[0]) | set(q[0]):
                    if v != m:
                        d[v] = p[0].get(v, 0) * b + q[0].get(v, 0) * a
                rest.append((d, p[1] * b + q[1] * a, p[2] or q[2]))
        # dedupe
        seen = {}
        for c, k, st in rest:
            key = tuple(sorted(((_mono_key(v), x) for v, x in c.items() if x), key=repr))
            seen[(key, k, st)] = (c, k, st)
        cons = list(seen.values())


def ev3(f, vals):
    """three-valued evaluation; (value, first undetermined atom)"""
    o = f.op
    if o == 'true':
        return True, None
    if o == 'false':
        return False, None
    if o in ('and', 'or'):
        stop = o == 'or'
        und = None
        for a in f.args:
            v, u = ev3(a, vals)
            if v is stop:
                return stop, None
            if v is None and und is None:
                und = u
        return (None, und) if und is not None else (not stop, None)
    if o == 'not':
        v, u = ev3(f.args[0], vals)
        return (None if v is None else not v), u
    if o == 'ite':
        v, u = ev3(f.args[0], vals)
        if v is None:
            x, _ = ev3(f.args[1], vals)
            y, _ = ev3(f.args[2], vals)
            if x is not None and x is y:
                return x, None
            return None, u
        return ev3(f.args[1 if v else 2], vals)
    v = vals.get(f)
    return v, (f if v is None else None)


def _constraint(a, val):
    """linear constraint of sign atom a having truth value val: (coeffs, const, strict), sum + const >= 0 (> 0)"""
    e = a.args[0]
    if (a.op == 'pos') == val:
        q = e
    else:
        q = neg(e)
    strict = val
    p = poly_of(q)
    c = p.pop((), Fraction(0))
    if strict and is_int(e) and all(x.denominator == 1 for x in p.values()) and c.denominator == 1:
        return p, c - 1, False
    return p, c, strict


def _mono_facts(cons):
    out = []
    for m in {m for c, k, s in cons for m in c}:
        t = mk_poly({m: Fraction(1)})
        if is_nonneg(t):
            if is_pos(t) and is_int(t):
                out.append(({m: Fraction(1)}, Fraction(-1), False))
            else:
                out.append(({m: Fraction(1)}, Fraction(0), is_pos(t)))
        for a, e in m:
            if len(m) == 1 and e == 1 and a.op in ('max2', 'min2'):
                pass
    return out


NODES = 6000


SKOLEM = [0]


def _skolem(vals):
    """is the assignment impossible because an element for which one quantified fact fails contradicts the others"""
    if SKOLEM[0]:
        return False
    yes = [a for a, v in vals.items() if v is True and a.op == 'forall']
    no = [a for a, v in vals.items() if v is False and a.op == 'forall']
    if not yes or not no:
        return False
    ground = [a if v else nott(a) for a, v in vals.items() if a.op in ('neg', 'pos')]
    SKOLEM[0] += 1
    try:
        for b in no:
            vs, sz, g, body = open_lam(b.args[0])
            inst = [x for a in yes if _lam_dom(a.args[0]) == _lam_dom(b.args[0]) for x in [open_lam(a.args[0], vs)]]
            if inst and valid(nott(andd(*ground, g, nott(body), *[implies_t(x[2], x[3]) for x in inst]))) is True:
                return True
    finally:
        SKOLEM[0] -= 1
    return False


def counterexample(f):
    """sign cases in which f is false and which are linearly consistent: an assignment, False (none), None (gave up)"""
    at_ = atoms(f)
    bools = [a for a in at_ if a.op not in ('neg', 'pos')]
    theory = _bool_theory(sorted(bools, key=skey))
    budget = [NODES]
    memo = {}

    def ok(cons):
        key = len(cons)
        cs = [c for _, c in cons]
        return _fm([(dict(p), k, s) for p, k, s in cs] + _mono_facts(cs))

    def go(vals, cons):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        v, u = ev3(f, vals)
        if v is True:
            return False
        if v is False:
            return False if _skolem(vals) else dict(vals)
        gave = False
        for val in (True, False):
            n = dict(vals)
            n[u] = val
            if u.op in ('neg', 'pos'):
                c2 = cons + [(u, _constraint(u, val))]
                if not ok(c2):
                    continue
            else:
                c2 = cons
                if any(n.get(a) is True and n.get(b) is False for a, b in theory):
                    continue
            r = go(n, c2)
            if r is None:
                gave = True
                if budget[0] < 0:
                    return None
            elif r is not False:
                return r
        return None if gave else False
    return go({}, [])


def valid(f):
    """is formula f true in every sign case?  True / False / None"""
    if f is TRUE:
        return True
    r = counterexample(f)
    if r is None:
        return None
    if r is False:
        return True
    return False if understood(f) else None


def implies(a, b):
    return valid(implies_t(a, b))


def facts(vs_sizes):
    out = []
    for v, n in vs_sizes:
        out.append(lt(v, n))
    return andd(*out)


def equiv(a, b, assume=TRUE):
    """equivalence of formulas, after merging atoms that are equal up to algebra"""
    if a is b:
        return True
    a2, b2, unsure = merge_atoms(a, b)
    r = valid(implies_t(assume, iff(a2, b2)))
    if r is not True:
        fa, fb = fuse(a), fuse(b)
        if fa is not a or fb is not b:
            a2, b2, unsure2 = merge_atoms(fa, fb)
            r2 = valid(implies_t(assume, iff(a2, b2)))
            if r2 is True:
                return True
            unsure = unsure or unsure2
    if r is False and (unsure or not understood(a) or not understood(b)):
        return None
    return r


def fuse(f):
    """join the quantified conjuncts (and the negated quantified disjuncts) over one domain into one quantified formula"""
    if f.op not in ('and', 'or', 'not', 'ite'):
        return f
    if f.op == 'not':
        return nott(fuse(f.args[0]))
    if f.op == 'ite':
        return ite(*[fuse(x) for x in f.args])
    out = []
    groups = {}
    for x in f.args:
        y = x if f.op == 'and' else (x.args[0] if x.op == 'not' else None)
        if y is not None and y.op == 'forall':
            groups.setdefault(y.args[0].args[1], []).append(y)
        else:
            out.append(fuse(x))
    for ys in groups.values():
        if len(ys) == 1:
            q = ys[0]
        else:
            vs, sz, _, _ = open_lam(ys[0].args[0])
            body = andd(*[open_lam(y.args[0], vs)[3] for y in ys])
            q = _mk('forall', lam(vs, sz, TRUE, body))
        out.append(q if f.op == 'and' else nott(q))
    return andd(*out) if f.op == 'and' else orr(*out)


def merge_atoms(a, b):
    """rewrite atoms of b to atoms of a that are provably equal; report whether some pair stayed undecided"""
    A = [x for x in atoms(a) if x not in atoms(b)]
    B = [x for x in atoms(b) if x not in atoms(a)]
    m = {}
    unsure = False
    for y in B:
        for x in A:
            if x.op != y.op:
                continue
            r = eq_atom(x, y)
            if r is True:
                m[y] = x
                break
            if r is None:
                unsure = True
    if m:
        b = subst(b, m)
    return a, b, unsure


def eq_atom(x, y):
    if x is y:
        return True
    if x.op in ('neg', 'pos'):
        return equal(x.args[0], y.args[0])
    return eq_args(x, y)


def eq_args(x, y):
    if x is y:
        return True
    if len(x.args) != len(y.args):
        return False
    res = True
    for a, b in zip(x.args, y.args):
        r = _eqany(a, b)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def _eqany(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return equal(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        res = True
        for x, y in zip(a, b):
            r = _eqany(x, y)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    return a == b


_eqmemo = {}


def equal(a, b):
    """equality of two terms"""
    if a is b:
        return True
    k = (a, b)
    if k in _eqmemo:
        return _eqmemo[k]
    _eqmemo[k] = None
    r = _equal(a, b)
    if r is False and not (understood(a) and understood(b)):
        r = None
    _eqmemo[k] = r
    _eqmemo[(b, a)] = r
    return r


def _ite_conds(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == 'lam':
        # conditions without bound variables could be hoisted; leave them to the comparison under the binder
        return
    if t.op == 'ite':
        acc[t.args[0]] = True
    for a in _walk(t.args):
        _ite_conds(a, acc, seen)


def _equal(a, b):
    if is_bool(a) and is_bool(b):
        return equiv(a, b)
    if a.op == 'lam' and b.op == 'lam':
        return eq_lam(a, b)
    conds = {}
    _ite_conds(a, conds, set())
    _ite_conds(b, conds, set())
    if conds:
        at_ = {}
        for c in conds:
            atoms(c, at_)
        g = assignments(list(conds))
        if g is None:
            return None
        res = True
        seen = set()
        for s in g:
            m = {}
            for x in at_:
                m[x] = TRUE if s.get(x) else FALSE
            key = tuple(sorted((skey(x), v is TRUE) for x, v in m.items()))
            if key in seen:
                continue
            seen.add(key)
            # points: substitute equalities of plain variables
            eqs = {}
            for L, (lo, hi) in s.regions.items():
                if lo is not None and lo == hi and L.op in ('v', 'sym', 'b'):
                    eqs[L] = num(lo)
            a1, b1 = subst(a, m), subst(b, m)
            if eqs:
                a1, b1 = subst(a1, eqs), subst(b1, eqs)
            r = _eq_core(a1, b1) if a1 is not b1 else True
            if r is not True and not feasible(s):
                continue
            if r is False:
                return False
            if r is None:
                res = None
        return res
    return _eq_core(a, b)


def eq_lam(a, b):
    if len(a.args[1]) != len(b.args[1]):
        return False
    vs, sa, ga, ba = open_lam(a)
    _, sb, gb, bb = open_lam(b, vs)
    res = True
    for x, y in zip(sa, sb):
        r = equal(x, y)
        if r is False:
            return False
        if r is None:
            res = None
    assume = facts(list(zip(vs, sa)))
    r = equiv(ga, gb, assume)
    if r is False:
        return False
    if r is None:
        res = None
    if is_bool(ba) and is_bool(bb):
        r = equiv(ba, bb, andd(assume, ga))
    else:
        r = equal(restrict(ba, andd(assume, ga), True), restrict(bb, andd(assume, ga), True))
    if r is False:
        return False
    return None if r is None else res


NUMERIC = {'c', 'poly', 'sym', 'v', 'b', 'at', 'red', 'count', 'min2', 'max2', 'abs', 'log', 'floor', 'ceil', 'pi', 'inf',
           'fn', 'mod', 'int', 'rank', 'tab', 'ite', 'len'}


def _eq_core(a, b):
    if a is b:
        return True
    if a.op in ('k', 'true', 'false', 'tup', 'obj') or b.op in ('k', 'true', 'false', 'tup', 'obj'):
        if a.op == b.op:
            return eq_args(a, b)
        if is_const(a) and is_const(b):
            return False
        if {a.op, b.op} & {'tup', 'obj', 'k'} and understood(a) and understood(b):
            return False
        return None
    if a.op == 'lam' or b.op == 'lam':
        if a.op == b.op:
            return eq_lam(a, b)
        return False if understood(a) and understood(b) else None
    d = sub(a, b)
    if d is ZERO:
        return True
    if d.op == 'c':
        return False
    # merge atoms that are equal by congruence
    aa, ab = set(), set()
    _num_atoms(a, aa)
    _num_atoms(b, ab)
    unsure = False
    m = {}
    for y in sorted(ab - aa, key=skey):
        for x in sorted(aa - ab, key=skey):
            if x.op == y.op and x.args and x.op not in ('sym', 'v', 'b', 'c'):
                r = eq_args(x, y) if x.op != 'red' or x.args[0] == y.args[0] else False
                if r is True:
                    m[y] = x
                    break
                if r is None:
                    unsure = True
    if m:
        b2 = subst(b, m)
        d = sub(a, b2)
        if d is ZERO:
            return True
        if d.op == 'c':
            return False
        b = b2
    if a.op == b.op == 'red' and a.args[0] != b.args[0]:
        return None if unsure else False
    r = sympy_equal(a, b)
    if r is False and unsure:
        return None
    return r


def _num_atoms(t, acc):
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                _num_atoms(a, acc)
                if isinstance(e, T):
                    _num_atoms(e, acc)
        return
    if t.op in ('log', 'abs', 'min2', 'max2', 'floor', 'ceil'):
        for a in t.args:
            _num_atoms(a, acc)
        return
    acc.add(t)


# ---------------------------------------------------------------- algebra

def sympy_equal(a, b):
    import sympy as sp
    table = {}

    def S(t):
        r = table.get(t)
        if r is None:
            i = len(table)
            if is_pos(t):
                r = sp.Symbol('p%d' % i, positive=True)
            elif is_nonneg(t):
                r = sp.Symbol('n%d' % i, nonnegative=True)
            else:
                r = sp.Symbol('x%d' % i, real=True)
            table[t] = r
        return r

    def conv(t):
        o = t.op
        if o == 'c':
            return sp.Rational(t.args[0].numerator, t.args[0].denominator)
        if o == 'pi':
            return sp.pi
        if o == 'inf':
            return sp.oo
        if o == 'poly':
            r = sp.Integer(0)
            for m, c in t.args[0]:
                x = sp.Rational(c.numerator, c.denominator)
                for a_, e in m:
                    x = x * conv(a_) ** (conv(e) if isinstance(e, T) else sp.Rational(e.numerator, e.denominator))
                r = r + x
            return r
        if o == 'log':
            return sp.log(conv(t.args[0]))
        if o == 'abs':
            return sp.Abs(conv(t.args[0]))
        if o == 'min2':
            return sp.Min(*[conv(x) for x in t.args])
        if o == 'max2':
            return sp.Max(*[conv(x) for x in t.args])
        if o == 'fn' and t.args[0] == 'exp':
            return sp.exp(conv(t.args[1][0]))
        return S(t)

    try:
        x, y = conv(a), conv(b)
        d = sp.expand(x - y)
        if d == 0:
            return True
        if any(o in _ops(a) | _ops(b) for o in ('inf',)):
            return False if x != y else True
        # a point of the domain at which the two formulas take different values proves them different
        syms = sorted(x.free_symbols | y.free_symbols, key=str)
        rnd = random.Random(7)
        differ = 0
        for _ in range(6):
            pt = {s: sp.Rational(rnd.randint(3, 97), rnd.randint(11, 37)) for s in syms}
            v = complex(d.subs(pt).evalf(30))
            w = complex(x.subs(pt).evalf(30))
            if v != v:
                continue
            if abs(v) > 1e-9 * (1 + abs(w)):
                differ += 1
        if differ:
            return False
        d2 = sp.simplify(sp.together(d))
        if d2 == 0:
            return True
        d2 = sp.simplify(sp.logcombine(sp.powsimp(d2, force=True), force=True))
        return True if d2 == 0 else None
    except Exception:
        if os.environ.get('NMP_DEBUG'):
            import traceback
            traceback.print_exc()
        return None


def _ops(t):
    return {x.op for x in subterms(t)}
