"""Comparison of extracted values with reference values; invariant inference over loop summaries; shared helpers."""
from .run import *
from . import logic, teval
from .terms import _mk, _walk

ARITH_OPS = {'c', 'poly', 'sym', 'v', 'b', 'ite', 'true', 'false', 'and', 'or', 'not', 'neg', 'pos', 'k', 'tup', 'lam', 'log', 'pi',
             'inf', 'abs', 'min2', 'max2', 'floor', 'ceil', 'at', 'tab', 'int', 'isnone', 'eqk', 'forall', 'red', 'count'}


def vocab(t):
    out = set()
    for x in subterms(t):
        if x.op in ('fn', 'pred', 'call', 'call?', 'obj'):
            out.add((x.op, x.args[0]))
        elif x.op not in ARITH_OPS:
            out.add((x.op,))
    return out


def same(code, ref):
    """is the extracted value the reference value?  Different vocabularies of uninterpreted functions leave it open"""
    r = logic.equal(code, ref)
    return confirm(r, code, ref)


def confirm(r, code, ref, assume=TRUE):
    """a difference is reported only when an interpretation of the free symbols separates the two"""
    if r is True:
        return True
    if not (logic.understood(code) and logic.understood(ref)):
        return None
    w = teval.differ(code, ref, assume)
    if w is False:
        return None
    if r is None and w is not True:
        return None
    if not (vocab(code) - KNOWN_FN <= vocab(ref)):
        return None
    return False


# functions the interpretations evaluate as they are
KNOWN_FN = {('fn', x) for x in ('exp', 'gamma', 'sin', 'cos', 'tan')}


def same_formula(code, ref, assume=TRUE):
    return confirm(logic.equiv(code, ref, assume), code, ref, assume)


def floor_facts(*fs):
    out = []
    seen = set()
    for f in fs:
        for x in subterms(f):
            if x.op == 'floor' and x not in seen:
                seen.add(x)
                e = x.args[0]
                d = 1
                p = poly_of(e)
                for m, c in p.items():
                    if c.denominator > d:
                        d = c.denominator
                out.append(le(x, e))
                if all(is_int(mk_poly({m: c * d})) or m == () for m, c in p.items()):
                    # e = integer / d
                    out.append(le(sub(e, div(num(d - 1), num(d))), x))
                else:
                    out.append(lt(sub(e, ONE), x))
    return andd(*out)


def lift(f, depth=12):
    """hoist conditionals nested inside atoms of a formula"""
    if depth == 0:
        return f
    for x in subterms(f):
        if x.op in ('and', 'or', 'not', 'true', 'false') or is_bool(x) and x.op != 'ite':
            continue
        if x.op == 'ite' and not is_bool(x):
            cnd = x.args[0]
            if any(y.op in ('b', 'lam') for y in subterms(cnd)):
                continue
            atom, yes, no = (cnd.args[0], FALSE, TRUE) if cnd.op == 'not' else (cnd, TRUE, FALSE)
            ma, mb = {x: x.args[1]}, {x: x.args[2]}
            if atom.op in ('isnone', 'truth', 'pred', 'sym'):
                # the same condition decides every other conditional over it
                return ite(cnd, lift(subst(subst(f, ma), {atom: yes}), depth - 1), lift(subst(subst(f, mb), {atom: no}), depth - 1))
            return ite(cnd, lift(subst(f, ma), depth - 1), lift(subst(f, mb), depth - 1))
    return f


def imp(*pc_and_goal):
    """conjunction of all but the last implies the last"""
    *pre, goal = pc_and_goal
    a = lift(andd(*pre))
    goal = lift(goal)
    a = andd(a, floor_facts(a, goal))
    return logic.valid(implies_t(a, goal))


def fdef(rp, mod, qual):
    m = rp.module(mod)
    n = m.functions.get(qual)
    return '%s:%d in %s' % (m.rel, n.lineno, qual) if n is not None else m.rel


def houdini(w, cands, extra=TRUE):
    """largest inductive subset of candidate formulas over the loop's variables.
    cands: list of functions env -> formula, env maps a loop key to a term"""
    keys = list(w.phis)
    pre = {k: w.pre[k] for k in keys}
    phi = dict(w.phis)
    post = {k: w.post.cells[k] for k in keys} if w.post is not None else None
    live = []
    for c in cands:
        f = c(pre)
        if f is TRUE or imp(w.pc, extra, f) is True:
            live.append(c)
    if post is None:
        return live
    while True:
        inv = andd(*[c(phi) for c in live])
        nxt = [c for c in live if imp(inv, w.post.pc, extra, c(post)) is True]
        if len(nxt) == len(live):
            return live
        live = nxt


def scalar_keys(w):
    return [k for k in w.phis if isinstance(w.phis[k], T) and isinstance(w.pre[k], T) and not is_bool(w.phis[k])]


_DANG = {}


def dangling(t):
    """bound-variable levels of t that no array inside t binds"""
    r = _DANG.get(t)
    if r is None:
        if t.op == 'b':
            r = frozenset([t.args[0]])
        else:
            r = frozenset().union(*[dangling(a) for a in _walk(t.args)])
            if t.op == 'lam':
                r = r - frozenset(range(t.args[0] + 1, t.args[0] + 1 + len(t.args[1])))
        _DANG[t] = r
    return r


def under(t, facts):
    """resolve conditionals the facts decide"""
    for _ in range(40):
        for x in subterms(t):
            if x.op == 'ite' and not dangling(x.args[0]):
                if logic.valid(implies_t(facts, x.args[0])) is True:
                    t = subst(t, {x: x.args[1]})
                    break
                if logic.valid(implies_t(facts, nott(x.args[0]))) is True:
                    t = subst(t, {x: x.args[2]})
                    break
        else:
            break
    return t
