"""X08: what the experiment trials measure: roadmaps, settings, queries, tolerances."""
import ast

from .checks import *
from .terms import _mk, power, red
from .npmodels import sqrt_
from .values import Bound
from .rules_exps import TYPES
from .rules_trials import Trial, Schedule, Search, Frame, variants, cases, the, PRMS, ENVS, key_of, settings

PRM = 'nonasymptotic.prm'


def adjustable(cls):
    """attributes of a planner class its set_... methods assign"""
    c = repo().module(PRM).classes.get(cls)
    out = set()
    for f in c.body if c is not None else ():
        if isinstance(f, ast.FunctionDef) and f.name.startswith('set_'):
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == f.args.args[0].arg:
                    out.add(x.attr)
    return out


class Measure(Trial):
    """a trial in which changing a setting really changes the planner"""

    def prepare(self, I):
        def count(I, st, args, kw, node):
            a = list(args) + [None] * 3
            r = sym('within', 'in')
            I.event(st, 'within', None, [a[0], a[1] if a[1] is not None else kw.get('v'), kw.get('side', a[2])], {}, node, r)
            return r
        I.contract_funcs['numpy.searchsorted'] = count

    def look(self, I, st, name, args):
        if name == 'sample':
            return None
        o = args[0] if args else None
        cls = getattr(o, 'cls', None)
        cls = getattr(cls, 'name', None) or next((c for c in PRMS if isinstance(o, T) and c in show(o)), None)
        if name == 'grow' and cls is not None:
            out = {}
            for a in adjustable(cls):
                try:
                    out[a] = I.closed(st, I.get_attr(st, o, a, None))
                except Exception:
                    out[a] = None
            return cls, out
        if name == 'set' and cls is not None:
            for a in adjustable(cls):
                I.set_attr(st, o, a, I.call_term('setting'), None)
        return None


def X08(rep):
    rep.rule('planner', 'the roadmap measured is built on the trial\'s environment and limit, and is cut to the certified radius only where radii are measured')
    rep.rule('full', 'every growth connects at the configured maximum, whatever setting the search before it ended on')
    rep.rule('ladder', 'the settings searched are, ascending, those the roadmap just grown offers')
    rep.rule('bracket', 'the search starts at the outermost settings')
    rep.rule('progress', 'every setting tested lies strictly between the two bounds; the search ends only when none does')
    rep.rule('query', 'the path asked for runs from one corner of the free space to the opposite one, inset by the clearance')
    rep.rule('tolerance', 'the tolerance tested is the one at which the tested radius is exactly long enough')
    rep.rule('samples', 'a neighbour graph is built over as many samples of the environment as scheduled')
    rep.rule('neighbours', 'the graph has as many neighbours as the largest scheduled number below the number of samples, and only those are reported')
    for kind in TYPES:
        def go():
            S = Schedule(kind, False)
            rep.files.add(S.m.rel)
            for fx in variants(S):
                t = Measure(kind, fx)
                rep.saw(t.R.I)
                label = ' '.join([kind] + [v.args[-1] for v in fx.values() if isinstance(v, T) and v.op == 'k'])
                RULES.get(kind, lambda *a: None)(rep, label, t)
        rep.guard('planner', kind, go)


def one(t, name):
    es = [e for e in t.events if e.name == name]
    return es[0] if len(es) == 1 else None


def judged(rep, rule, key, ok, where, detail=''):
    rep.ob(rule, key, ok, where, '' if ok else detail)


# ------------------------------------------------------------------------------------------------ planner

def built(rep, label, t, cut):
    es = [e for e in t.events if e.name.startswith('new:' + PRM)]
    if len(es) != 1 or len(t.envs) != 1:
        judged(rep, 'planner', label, None, t.m.rel, 'the planner or the environment a trial builds was not recognised')
        return None
    e = es[0]
    cls = e.name.rsplit('.', 1)[-1]
    init = repo().module(PRM).functions.get(cls + '.__init__')
    names = [a.arg for a in init.args.args][1:]
    dflt = dict(zip([a.arg for a in init.args.args][-len(init.args.defaults):], init.args.defaults)) if init.args.defaults else {}
    args = dict(zip(names, e.args))
    args.update(e.kw)
    limit = [v for n, v in t.params.items() if 'max' in n]
    judged(rep, 'planner', label + ' limit', True if t.c(args.get(names[0])) in limit else (None if args.get(names[0]) is None or has_unknown(t.c(args[names[0]])) else False),
           e.where(), 'built with %s' % show(t.c(args[names[0]]))[:80] if args.get(names[0]) is not None else 'no limit')
    for i, m in enumerate(('is_motion_valid', 'sample_from_env', 'distance_to_path')):
        if len(names) <= i + 1 or i == 2 and cls != PRMS[0]:
            continue
        v = args.get(names[i + 1])
        d = show(t.c(v)) if v is not None else ''
        ok = None
        if isinstance(v, Bound):
            ok = v.self is t.envs[0].result and (getattr(v.func, 'name', None) or getattr(v.func, 'qual', None) or str(v.func)).split('.')[-1] == m
        elif isinstance(v, T) and (v in t.params.values() or v.op in ('k', 'c')):
            ok = False
        judged(rep, 'planner', '%s %s' % (label, m), ok, e.where(), 'is given %s' % d[:120])
    if cls == PRMS[0]:
        v = args.get('truncate_to_eff_rad')
        if v is None and isinstance(dflt.get('truncate_to_eff_rad'), ast.Constant):
            v = TRUE if dflt['truncate_to_eff_rad'].value else FALSE
        v = t.c(v) if v is not None else None
        judged(rep, 'planner', label + ' cut', True if v is (TRUE if cut else FALSE) else False if v in (TRUE, FALSE) else None, e.where(),
               'the roadmap is%s cut to the certified radius' % (' not' if cut else ''))
    return e


def full(rep, label, t):
    for e in t.events:
        if e.name != 'grow':
            continue
        shot = t.seen.get(e.seq)
        if shot is None:
            judged(rep, 'full', label, None, e.where(), 'planner that grows')
            continue
        cls, at_ = shot
        b = next((x for x in t.events if x.name.startswith('new:' + PRM)), None)
        limit = t.c(b.args[0]) if b is not None and b.args else next((v for n, v in t.params.items() if 'max' in n), None)
        held = [a for a in sorted(at_) if a in initial(cls)]
        for a in held:
            v = at_[a]
            ok = True if v is limit else None if v is None or has_unknown(v) and not stale(v) else False
            judged(rep, 'full', '%s %s' % (label, a), ok, e.where(), 'grows with %s of %s left by the search' % (a, show(v)[:80] if v is not None else '?'))
        if not held:
            judged(rep, 'full', label, None, e.where(), 'the setting a planner grows with')


def stale(v):
    return any(x.op == 'call' and x.args[0] == 'setting' or x.op == 'phi' or x.op == 'sym' and '~' in str(x.args[0]) for x in subterms(v))


def initial(cls):
    """attributes the constructor sets straight from its first parameter"""
    init = repo().module(PRM).functions.get(cls + '.__init__')
    first = init.args.args[1].arg
    return {t_.attr for s in ast.walk(init) if isinstance(s, ast.Assign) for t_ in s.targets
            if isinstance(t_, ast.Attribute) and isinstance(s.value, ast.Name) and s.value.id == first}


# ------------------------------------------------------------------------------------------------ narrow passage

def narrow(rep, label, t):
    built(rep, label, t, cut=False)
    full(rep, label, t)
    s = Search(t)
    limits = [v for n, v in t.params.items() if 'max' in n]
    limit = limits[0] if len(limits) == 1 else None
    knn = any(e.name.endswith(PRMS[0]) for e in t.events if e.name.startswith('new:' + PRM))
    w = s.loops[0] if len(s.loops) == 1 else None
    if w is None or limit is None:
        judged(rep, 'ladder', label, None, t.m.rel, 'the search loop was not recognised')
        return
    grow = one(t, 'grow')
    here = {}
    # the position tested, and the setting it stands for
    tested = [e for e in t.events if e.name == 'set' and w.id in [getattr(y, 'id', y) for y in e.whiles] and settings(t.c(e.args[-1]))]
    if not tested:
        judged(rep, 'ladder', label, None, t.m.rel, 'no setting is tested')
        return
    for e in tested:
        v = t.c(e.args[-1])
        pos, top = None, None
        if knn:
            # 2^(2 + position)
            p = position_in(v, lambda x: pow2(add(num(2), x)))
            if p is None:
                m = list(poly_of(v).items())
                e2 = m[0][0][0][1] if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1 and cval(m[0][0][0][0]) == 2 else None
                e2 = e2 if isinstance(e2, T) else None
                p = sub(e2, num(2)) if e2 is not None and settings(e2) else None
            want_top = top_power(limit)
            judged(rep, 'ladder', label + ' settings', None if p is None and (has_unknown(v)) else p is not None, e.where(), 'tests %s, expected a power of two from 4 up' % show(v)[:120])
            pos, top = p, want_top
        else:
            u = [x for x in subterms(v) if x.op == 'call' and x.args[0] == 'numpy.unique']
            raw = [x for x in subterms(v) if x.op == 'call' and x.args[0] == 'radii']
            if v.op == 'at' and v.args[0] in u:
                ue = next((x for x in t.events if x.name == 'unique' and isinstance(x.result, T) and x.result.args[:2] == v.args[0].args[:2]), None)
                src = t.c(ue.args[0]) if ue is not None else None
                mine = src is not None and any(x.op == 'call' and x.args[0] == 'radii' for x in subterms(src)) and src.op == 'call'
                judged(rep, 'ladder', label + ' settings', True if mine else None, e.where(), 'tests the distinct values of %s' % (show(src)[:80] if src is not None else '?'))
                pos, top = v.args[1], sub(_mk('len', v.args[0]), ONE)
            else:
                judged(rep, 'ladder', label + ' settings', False if raw and v.op == 'at' and v.args[0] in raw else None, e.where(),
                       'tests %s, expected the distinct edge lengths in ascending order' % show(v)[:120])
        if pos is not None:
            search(rep, label, t, w, pos, top, e, ZERO)
    for q in sorted({x.seq: x for x in s.queries.values()}.values(), key=lambda e: e.seq):
        corners(rep, label, t, q)


def pow2(x):
    return power(num(2), x)


def position_in(v, form):
    """the p for which v is form(p)"""
    for x in sorted(subterms(v), key=lambda x: -len(show(x))):
        if x.op in ('phi', 'sym', 'floor', 'int', 'round', 'fn', 'poly') and settings(x) and form(x) is v:
            return x
    return None


def top_power(limit):
    from .extmodels import log_base
    return sub(_mk('round', log_base(2)(limit)), num(2))


def corners(rep, label, t, q):
    delta = next((v for n, v in t.params.items() if 'delta' in n or 'clear' in n), None)
    dim = t.params.get('dim')
    if delta is None or dim is None or len(q.args) < 2:
        judged(rep, 'query', label, None, q.where(), 'end points of the query')
        return
    half = sub(div(ONE, num(2)), delta)
    i = fresh_var()
    for name, sign, v in (('start', -1, t.c(q.args[0])), ('goal', 1, t.c(q.args[1]))):
        vs = [i]
        far = mul(num(sign), add(half, ONE))
        near = mul(num(sign), half)
        ref = _lam([i], [dim], ite(gt(i, ZERO), near, far))
        judged(rep, 'query', '%s %s %d' % (label, name, q.seq), same(v, ref), q.where(), 'asks from %s' % show(v)[:160])


def search(rep, label, t, w, pos, top, e, low):
    ks = {p: k for k, p in w.phis.items()}
    ps = [p for p in settings(pos) if p in ks]
    if len(ps) == 1:
        ps += [p for p in {y for x in w.exits for c in conj_of(x[1].pc) if any(z is ps[0] for z in subterms(c)) for y in subterms(c)} if p in ks and p is not ps[0]]
    if len(ps) != 2:
        judged(rep, 'progress', label, None, e.where(), 'the positions tested between')
        return
    pres = {p: t.c(w.pre[ks[p]]) for p in ps}
    lo = [p for p in ps if cval(pres[p]) is not None]
    if len(lo) != 1:
        judged(rep, 'bracket', label, None if all(not isinstance(x, T) or has_unknown(x) for x in pres.values()) else None, e.where(), 'starting positions %s' % [show(x)[:60] for x in pres.values()])
        return
    lo, hi = lo[0], [p for p in ps if p is not lo[0]][0]
    judged(rep, 'bracket', label + ' lower', pres[lo] is low, e.where(), 'starts at position %s' % show(pres[lo]))
    if top is not None:
        ok = top(pres[hi]) if callable(top) else same(pres[hi], top)
        judged(rep, 'bracket', label + ' upper', ok, e.where(), 'starts at position %s' % show(pres[hi])[:120])
    # while the loop goes on, the tested position is strictly inside
    m = {lo: sym('lower', 'in'), hi: sym('upper', 'i')}
    c = relevant(subst(e.pc, m), set(m.values()))
    p, l, h = subst(pos, m), m[lo], m[hi]
    p, facts = whole(p)
    ok = imp(andd(c, facts), andd(lt(l, p), lt(p, h)))
    if ok is False and any(x.op not in ('poly', 'sym', 'floor', 'c') for x in subterms(p)):
        ok = None
    judged(rep, 'progress', label + ' inside', ok, e.where(), 'tests %s when %s' % (show(p)[:80], show(c)[:120]))
    for j, x in enumerate(w.exits):
        c = relevant(subst(x[1].pc, m), set(m.values()))
        ok = imp(c, ge(add(l, ONE), h))
        judged(rep, 'progress', '%s end %d' % (label, j), ok, '%s:%d' % (t.m.rel, w.node.lineno), 'the search may end while a setting between is untested')
    rep.count('searches')


def conj_of(c):
    return list(c.args) if c.op == 'and' else [c]


def whole(p):
    """a position with its rounding made explicit: positions are not negative, so cutting is rounding down"""
    facts = TRUE
    for _ in range(4):
        x = next((x for x in subterms(p) if x.op in ('int', 'round', 'ceil') and not any(y.op in ('int', 'round', 'ceil') for y in subterms(x.args[0]))), None)
        if x is None:
            break
        if x.op == 'int':
            p = subst(p, {x: floor(x.args[0])})
            continue
        r = sym('rounded', 'i')
        p = subst(p, {x: r})
        d = mul(num(2), sub(r, x.args[0]))
        facts = andd(facts, le(d, ONE), ge(d, num(-1))) if x.op == 'round' else andd(facts, ge(d, ZERO), lt(d, num(2)))
    return p, facts


def relevant(c, ps):
    """conjuncts that speak of the positions"""
    cs = list(c.args) if c.op == 'and' else [c]
    return andd(*[x for x in cs if any(y in ps for y in subterms(x))]) if cs else TRUE


def _lam(vs, sizes, body):
    return lam(vs, sizes, TRUE, body)



# ------------------------------------------------------------------------------------------------ straight line

def line(rep, label, t):
    built(rep, label, t, cut=True)
    full(rep, label, t)
    e = one(t, 'complete')
    tol = t.c(e.kw['tol']) if e is not None and 'tol' in e.kw else t.c(e.args[1]) if e is not None and len(e.args) > 1 else None
    ws = [w for w in t.R.I.whiles if e is not None and w.id in [getattr(y, 'id', y) for y in e.whiles]]
    delta = next((v for n, v in t.params.items() if 'delta' in n or 'clear' in n), None)
    if tol is None or len(ws) != 1 or delta is None:
        judged(rep, 'tolerance', label, None, t.m.rel, 'the completeness test of the search was not recognised')
        return
    w = ws[0]
    rads = {x for x in subterms(tol) if x.op == 'at' and x.args[0].op == 'call' and x.args[0].args[0] == 'radii'}
    if len(rads) != 1:
        judged(rep, 'tolerance', label, False if not rads and not has_unknown(tol) else None, e.where(), 'tests %s' % show(tol)[:160])
        return
    rad = list(rads)[0]
    r, d = sym('r', 'p'), sym('d', 'p')
    y = div(div(r, num(2)), d)
    ref = div(sub(ONE, sqrt_(sub(mul(num(2), mul(y, y)), mul(mul(y, y), mul(y, y))))), sub(mul(y, y), ONE))
    got = subst(subst(tol, {rad: r}), {delta: d})
    judged(rep, 'tolerance', label, same(got, ref), e.where(), 'tests %s' % show(got)[:200])
    o = e.args[0] if e.args else e.kw.get('prm')
    mine = next((x.result for x in t.events if x.name.startswith('new:' + PRM)), None)
    judged(rep, 'tolerance', label + ' roadmap', True if o is mine else None, e.where(), 'tests another planner')

    def top(v):
        ins = [x for x in t.events if x.name == 'within']
        if len(ins) != 1:
            n = [x for x in subterms(v) if x.op == 'len']
            return False if not ins and v.op == 'poly' and len(n) == 1 and same(v, sub(n[0], ONE)) is True else None
        i = ins[0]
        a, x, side = (t.c(z) if z is not None else None for z in i.args)
        if not (isinstance(a, T) and isinstance(x, T)) or has_unknown(a) or has_unknown(x):
            return None
        ok = a.op == 'call' and a.args[0] == 'radii' and x.op == 'call' and x.args[0] == 'effective'
        if not ok or not (isinstance(side, T) and side.op == 'k' and side.args[-1] == 'right'):
            return False
        n = next((y for y in subterms(v) if y.op == 'len' and call_of(y.args[0], 'radii')), None)
        if n is None:
            return same(v, sub(i.result, ONE))
        return same_formula(subst(v, {n: sym('all', 'in')}), sub(i.result, ONE), ge(sym('all', 'in'), i.result)) if v.op == 'b' else \
            same(subst(v, {n: sym('all', 'in')}), sub(min2(i.result, sym('all', 'in')), ONE))
    judged(rep, 'ladder', label + ' settings', True, e.where())
    search(rep, label, t, w, rad.args[1], top, e, ONE)


def call_of(x, name):
    return isinstance(x, T) and x.op == 'call' and x.args[0] == name


# ------------------------------------------------------------------------------------------------ neighbour graphs

def knn(rep, label, t):
    g = one(t, 'graph')
    if g is None or len(g.binders) != 1 or len(g.args) < 2:
        judged(rep, 'samples', label, None, t.m.rel, 'the graph of a trial was not recognised')
        return
    v, z = g.binders[0]
    ss = next((p for n, p in t.params.items() if 'sample' in n), None)
    ns = next((p for n, p in t.params.items() if 'neigh' in n), None)
    dim = t.params.get('dim')
    if ss is None or ns is None or dim is None:
        judged(rep, 'samples', label, None, g.where(), 'schedules of the trial')
        return
    s = at(ss, v)
    judged(rep, 'samples', label + ' schedule', same(z, _mk('len', ss)), g.where(), 'graphs are built for %s sizes' % show(z)[:80])
    data = t.c(g.args[0])
    ok, why = None, 'data %s' % show(data)[:160]
    if isinstance(data, T) and data.op == 'lam':
        vs, sizes, gd, b = open_lam(data)
        if b.op == 'lam':
            v2, z2, g2, b = open_lam(b)
            vs, sizes = vs + v2, sizes + z2
        n = sizes[0].args[0] if sizes and sizes[0].op in ('int', 'fn') and len(sizes[0].args) == 1 else sizes[0] if sizes else None
        ok = same(n, s) if n is not None else None
        if ok and len(vs) == 2:
            inside = restrict_to(b, lt(vs[0], s))
            ds = [x for x in subterms(inside) if call_of(x, 'draw')]
            if len(ds) == 1 and inside.op == 'at' and inside.args[0] is ds[0] and inside.args[-1] is vs[1]:
                ok = any(x is vs[0] for x in subterms(ds[0])) or None
                ev = next((x for x in t.events if x.name == 'sample' and x.binders), None)
                mine = ev is not None and len(ev.binders) == 2
                ok = True if ok and mine else None if not ok else ok
                if not any(x is vs[0] for x in subterms(ds[0])):
                    ok, why = False, 'every row is the same sample'
            else:
                ok = None if has_unknown(inside) else False
    judged(rep, 'samples', label, ok, g.where(), why)
    k = t.c(g.args[1])
    j = fresh_var()
    ref = red('max', lam([j], [_mk('len', ns)], lt(at(ns, j), s), at(ns, j)))
    judged(rep, 'neighbours', label + ' graph', same(k, ref), g.where(), 'has %s neighbours' % show(k)[:120])
    fr = Frame(t)
    if not fr.understood or 'n_neighbors' not in fr.names or 'n_samples' not in fr.names:
        judged(rep, 'neighbours', label + ' rows', None, t.m.rel, 'rows of a trial')
        return
    i, m = fr.names.index('n_neighbors'), fr.names.index('n_samples')
    for vs, sizes, c, leaf in fr.rows:
        ok = None
        if leaf.op == 'tup' and len(leaf.args) > max(i, m):
            ok = imp(completed(c), lt(leaf.args[i], leaf.args[m]))
            if ok is False and any(x.op == 'pred' for x in subterms(completed(c))):
                ok = None
        judged(rep, 'neighbours', label + ' rows', ok, fr.where, 'a row is reported when %s' % show(c)[:160])


def completed(c):
    """an entry that is kept was made in a round that did not stop its loop"""
    out = []
    for x in (c.args if c.op == 'and' else [c]):
        if x.op == 'pred' and x.args[0] == 'notbroken':
            a = x.args[1:] if not isinstance(x.args[1], tuple) else x.args[1]
            vs, sizes, g, b = open_lam(a[0], list(a[1:]))
            x = nott(andd(g, b)) if g is not TRUE else nott(b)
        out.append(x)
    return andd(*out) if out else TRUE


def restrict_to(t, fact):
    """a value with the conditionals a fact decides resolved"""
    for _ in range(6):
        x = next((x for x in subterms(t) if x.op == 'ite' and not dangling(x) and imp(fact, x.args[0]) is True), None)
        if x is None:
            return t
        t = restrict(t, x.args[0], True)
    return t


RULES = {'narrow': narrow, 'line': line, 'knn': knn}
