"""B01-B06: closed forms and searches of nonasymptotic/bound.py"""
from .checks import *
from .terms import _mk

MOD = 'nonasymptotic.bound'
d = sym('dim', 'pi')
m = sym('m', 'pi')
k = sym('k', 'pi')
c = sym('clearance', 'p')
V = sym('vol_env', 'p')
r = sym('radius', 'p')
tol = sym('tol', 'p')
tolN = sym('tol', 'pN')
gam = sym('gamma', 'p')
rho = sym('rho', 'p')
vc = sym('vc', 'pi')
LN2 = log(num(2))


def ball(dd):
    return div(power(PI, div(dd, num(2))), fn('gamma', add(div(dd, num(2)), ONE)))


def sqrt(x):
    return power(x, num(0.5))


def alpha(t):
    return div(t, sqrt(add(ONE, mul(t, t))))


def value(rep, name, *args, **kw):
    R = Run(MOD)
    n = R.mark()
    v = R.call(MOD, name, *args, **kw)
    rep.saw(R.I)
    rep.count('functions_called')
    t = R.closed(v)
    R.value = t
    R.ev = R.since(n)
    return R


def formula(rep, rule, name, ref, *args, item=None, key=None):
    where = fdef(repo(), MOD, name)

    def go():
        R = value(rep, name, *args)
        t = R.value
        if item is not None:
            t = t.args[item] if t.op == 'tup' else at(t, num(item))
        s = same(t, ref)
        rep.ob(rule, key or name, s, where, '' if s else 'computes %s, expected %s' % (show(t), show(ref)))
        return R
    repo().func(MOD, name)
    return rep.guard(rule, key or name, go, where)


def B01(rep):
    rep.rule('volume', 'the d-ball volume is pi^(d/2)/Gamma(d/2+1)')
    rep.rule('radius', 'covering radius is clearance*tol/sqrt(1+tol^2), the clearance without a tolerance')
    rep.rule('measure', 'normalised measure is ball volume * radius^d / environment volume')
    rep.rule('blumer', 'Blumer bound is max(4/mu log2(2/gamma), 8(d+1)/mu log2(13/mu))')
    formula(rep, 'volume', 'compute_vol_unit_sphere', ball(d), d)
    formula(rep, 'radius', 'compute_epsilon_net_radius', mul(alpha(tol), c), c, tol, key='with a tolerance')
    formula(rep, 'radius', 'compute_epsilon_net_radius', c, c, NONE, key='without a tolerance')
    formula(rep, 'measure', 'compute_rho', div(mul(ball(d), power(mul(alpha(tol), c), d)), V), c, tol, d, V,
            key='with a tolerance')
    formula(rep, 'measure', 'compute_rho', div(mul(ball(d), power(c, d)), V), c, NONE, d, V, key='without a tolerance')
    mu = div(mul(ball(d), power(r, d)), V)
    ref = max2(mul(div(num(4), mu), div(log(div(num(2), gam)), LN2)),
               mul(div(mul(num(8), add(d, ONE)), mu), div(log(div(num(13), mu)), LN2)))
    formula(rep, 'blumer', 'compute_blumer_bound', ref, r, d, gam, V)


P = sym('success_prob', 'x')


def B02(rep):
    rep.rule('closed form', 'sufficient connection radius is 2*clearance*(tol+1)/sqrt(1+tol^2)')
    rep.rule('agreement', 'the sample-size computation reports the same radius for the same clearance and tolerance')
    rep.rule('existence', 'without a tolerance the reported radius is 2*clearance')
    ref = div(mul(num(2), c, add(tol, ONE)), sqrt(add(ONE, mul(tol, tol))))
    formula(rep, 'closed form', 'compute_connection_radius', ref, c, tol)
    formula(rep, 'agreement', 'compute_numerical_bound', ref, c, P, V, d, tol, item=1)
    formula(rep, 'existence', 'compute_numerical_bound', mul(num(2), c), c, P, V, d, NONE, item=1)


def comb_sum(mm, v):
    i = fresh_var()
    return red('+', lam([i], [add(v, ONE)], TRUE, _mk('comb', mul(num(2), mm), i)))


def log2_bound(mm, rh, v):
    return add(div(log(comb_sum(mm, v)), LN2), mul(num(-0.5), rh, mm), ONE)


def no_float(rep, R, key, where):
    evs = [e for e in R.ev if e.name == 'float-conversion']
    rep.ob('exact', key, not evs, evs[0].where() if evs else where,
           'the exact binomial sum is converted to floating point by %s' % show(evs[0].kw.get('by', ONE)) if evs else '')


def B03(rep):
    rep.rule('sum', 'the Sauer-Shelah sum is the exact sum of C(2m,i), i=0..vc')
    rep.rule('bound', 'log2 bound is log2(sum) - rho*m/2 + 1')
    rep.rule('exact', 'no floating-point conversion of the exact sum before its logarithm')
    rep.rule('vc', 'the bound searched for a whole environment is the bound for VC dimension d+1 and its normalised measure')
    rep.rule('inverse', 'the net radius is the one at which the bound equals the failure probability')
    R = formula(rep, 'sum', 'compute_ss_comb_sum', comb_sum(m, vc), m, vc)
    if R:
        no_float(rep, R, 'compute_ss_comb_sum', fdef(repo(), MOD, 'compute_ss_comb_sum'))
    R = formula(rep, 'bound', 'compute_sauer_shelah_bound_log2', log2_bound(m, rho, vc), m, rho, vc)
    if R:
        no_float(rep, R, 'compute_sauer_shelah_bound_log2', fdef(repo(), MOD, 'compute_sauer_shelah_bound_log2'))
    mu1 = div(ball(d), V)
    inner = mul(div(num(2), mul(m, mu1)), sub(add(div(log(comb_sum(m, add(d, ONE))), LN2), ONE), div(log(gam), LN2)))
    R = formula(rep, 'inverse', 'compute_net_radius_from_prob', power(inner, div(ONE, d)), d, m, gam, V)
    if R:
        no_float(rep, R, 'compute_net_radius_from_prob', fdef(repo(), MOD, 'compute_net_radius_from_prob'))
    where = fdef(repo(), MOD, 'compute_numerical_bound')
    name = 'doubling_sample_search_over_log2_prob_bound'

    def env():
        for t, rr in ((tol, mul(alpha(tol), c)), (NONE, c)):
            R = Run(MOD)
            got = []

            def search(I, st, args, kw, node):
                a = list(args) + [kw[x] for x in ('samples_to_log2_prob', 'success_prob') if x in kw]
                mark = len(I.events)
                got.append((I.closed(st, I.call(st, a[0], [m], {}, node)), a[1] if len(a) > 1 else None))
                R.ev = I.events[mark:]
                return sym('found', 'pi')
            R.I.contract_funcs[(MOD, name)] = search
            R.call(MOD, 'compute_numerical_bound', c, P, V, d, t)
            rep.saw(R.I)
            key = 'compute_numerical_bound ' + ('with a tolerance' if t is tol else 'without a tolerance')
            if not got:
                rep.ob('vc', key, None, where, 'the bound is not handed to the search function')
                continue
            ref = log2_bound(m, div(mul(ball(d), power(rr, d)), V), add(d, ONE))
            s = same(got[0][0], ref)
            rep.ob('vc', key, s, where, '' if s else 'searches %s, expected %s' % (show(got[0][0]), show(ref)))
            s = same(got[0][1], P) if got[0][1] is not None else None
            rep.ob('vc', key + ', requested probability', s, where, '' if s else 'searches for %s' % got[0][1])
            no_float(rep, R, key, where)
    rep.guard('vc', 'compute_numerical_bound', env, where)


def B04(rep):
    rep.rule('hoeffding', 'log m - 2(m-1)*max(k/(m-1) - p, 0)^2 for ball measure p')
    rep.rule('hoeffding mean', 'log m - 2(m-1)*(p*max(k/((m-1)p) - 1, 0))^2: the same bound')
    rep.rule('chernoff generic', 'log m - mu + k(1 + log mu - log k), mu=(m-1)p, p clamped at one')
    rep.rule('chernoff kl', 'log m - (m-1)*KL(p+t || p), t = max(k/m - p, 0), p clamped at one; without log m when disabled')
    rep.rule('effective radius', '((k - sqrt(2k(log m - log gamma)))/((m-1)*min(ball/V,1)))^(1/d)')
    p = div(mul(ball(d), power(r, d)), V)
    m1 = sub(m, ONE)
    t = max2(sub(div(k, m1), p), ZERO)
    base = 'compute_tail_knn_radius_log_prob_'
    formula(rep, 'hoeffding', base + 'hoeffding', sub(log(m), mul(num(2), m1, t, t)), m, k, r, d, V)
    t2 = max2(sub(div(div(k, m1), p), ONE), ZERO)
    formula(rep, 'hoeffding mean', base + 'hoeffding_mean_variant', sub(log(m), mul(num(2), m1, t2, t2, p, p)), m, k, r, d, V)
    pc = min2(p, ONE)
    mu = mul(m1, pc)
    formula(rep, 'chernoff generic', base + 'chernoff_generic',
            add(log(m), neg(mu), mul(k, sub(add(ONE, log(mu)), log(k)))), m, k, r, d, V)
    tv = max2(sub(div(k, m), pc), ZERO)

    def two(a, b):
        x = fresh_var()
        return lam([x], [num(2)], TRUE, ite(lt(x, ONE), a, b))
    kl = fn('entropy', two(add(pc, tv), sub(sub(ONE, pc), tv)), _mk('tup', string('qk'), two(pc, sub(ONE, pc))))
    # entropy(pk, qk) may be given its second distribution by position
    kl_pos = fn('entropy', kl.args[1][0], two(pc, sub(ONE, pc)))

    def chern(args, ref, key):
        where = fdef(repo(), MOD, base + 'chernoff_kl')

        def go():
            R = value(rep, base + 'chernoff_kl', *args)
            v = subst(R.value, {kl_pos: kl})
            s = same(v, ref)
            rep.ob('chernoff kl', key, s, where, '' if s else 'computes %s, expected %s' % (show(v), show(ref)))
        rep.guard('chernoff kl', key, go, where)
    repo().func(MOD, base + 'chernoff_kl')
    chern([m, k, r, d, V], sub(log(m), mul(kl, m1)), 'with the union factor')
    chern([m, k, r, d, V, FALSE], neg(mul(kl, m1)), 'without the union factor')
    num_ = sub(k, sqrt(mul(num(2), k, sub(log(m), log(gam)))))
    formula(rep, 'effective radius', 'compute_eff_conn_rad_bound',
            power(div(num_, mul(m1, min2(div(ball(d), V), ONE))), div(ONE, d)), m, k, d, V, gam)


# ---------------------------------------------------------------- searches

def oracle(name):
    return PyVal(name, lambda I, st, args, kw, node: fn(name, I.closed(st, args[0])))


lb0, ub0 = sym('rad_lb', 'p'), sym('rad_ub', 'p')
SEARCH_S = 'doubling_sample_search_over_log2_prob_bound'
SEARCH_R = 'halving_radius_search_over_log_prob_bound'
SEARCH_L = 'linear_radius_search_over_prob_bound'


def pairs(ks):
    return [(a, b) for a in ks for b in ks if a != b]


def searches():
    out = {}
    R = Run(MOD)
    R.value = R.call(MOD, SEARCH_S, oracle('logp'), P)
    out[SEARCH_S] = R
    R = Run(MOD)
    R.value = R.call(MOD, SEARCH_R, oracle('logp'), lb0, ub0, P, tol)
    out[SEARCH_R] = R
    R = Run(MOD)
    R.value = R.call(MOD, SEARCH_L, oracle('logp'), lb0, ub0, P, tol)
    out[SEARCH_L] = R
    return out


def returns(R):
    """(value, path condition, innermost loop) at every place the call can return from"""
    outs = []
    for w in R.I.whiles:
        for kind, s, v in w.exits:
            if kind == 'return' and not s.dead:
                outs.append((v, s.pc, w))
    return outs


def B05(rep):
    rep.rule('meets', 'the returned sample count meets the failure probability and the bound is no longer rising there')
    rep.rule('tight', 'the count just below the returned one (unless it is one) does not')
    rep.rule('radius', 'the radius search returns the lower end of a bracket at most tol wide; it was only ever moved to radii '
                       'that meet the probability')
    rep.rule('tested', 'the upper end is only ever moved to a tested radius')
    rep.rule('falls', 'the lower end is only moved to a radius at which the bound is above its value at a smaller radius within the tolerance')
    rep.rule('whole', 'the counts asked about and returned are integers')
    rep.rule('linear', 'the linear search returns the first of the radii it steps through whose successor exceeds the failure probability')
    S = searches()
    R = S[SEARCH_S]
    rep.saw(R.I)
    T_ = div(log(sub(ONE, P)), LN2)
    where = fdef(repo(), MOD, SEARCH_S)

    def lp(x):
        return fn('logp', x)

    def ok(x):
        return andd(le(lp(x), T_), le(lp(add(x, ONE)), lp(x)))

    def samples():
        pc = R.st.pc
        inv = TRUE
        used = 0
        for w in R.I.whiles:
            ks = [q for q in scalar_keys(w) if is_int(w.pre[q])]
            cands = []
            for q in ks:
                cands.append(lambda e, q=q: ok(e[q]))
                cands.append(lambda e, q=q: orr(nott(ok(e[q])), eq(e[q], ONE)))
                for q2 in ks:
                    if q2 != q:
                        cands.append(lambda e, q=q, q2=q2: lt(e[q], e[q2]))
            live = houdini(w, cands, inv)
            inv = andd(inv, *[x(w.phis) for x in live])
            used += len(live)
        rep.count('loop_invariants_inferred', used)
        v = R.closed(R.value)
        s = imp(inv, pc, le(lp(v), T_))
        rep.ob('meets', 'requested probability', s, where, 'returned %s' % show(v))
        s = imp(inv, pc, le(lp(add(v, ONE)), lp(v)))
        rep.ob('meets', 'no longer rising', s, where, 'returned %s' % show(v))
        b = sub(v, ONE)
        s = imp(inv, pc, orr(nott(ok(b)), eq(b, ONE)))
        if s is not True:
            # the predecessor is another loop variable
            for w in R.I.whiles:
                for q in scalar_keys(w):
                    x = w.phis[q]
                    if imp(inv, pc, eq(x, b)) is True:
                        s = imp(inv, pc, orr(nott(ok(x)), eq(x, ONE)))
        rep.ob('tight', 'count below', s, where, 'returned %s' % show(v))
        whole(rep, R, where, v)
    rep.guard('meets', SEARCH_S, samples, where)

    R2 = S[SEARCH_R]
    rep.saw(R2.I)
    where2 = fdef(repo(), MOD, SEARCH_R)
    T2 = log(sub(ONE, P))

    def radius():
        pc = R2.st.pc
        inv = TRUE
        for w in R2.I.whiles:
            ks = scalar_keys(w)
            cands = []
            for q in ks:
                cands.append(lambda e, q=q: orr(le(lp(e[q]), T2), eq(e[q], w.pre[q])))
            for a, b in pairs(ks):
                cands.append(lambda e, a=a, b=b: lt(e[a], e[b]))
            live = houdini(w, cands, inv)
            inv = andd(inv, *[x(w.phis) for x in live])
        v = R2.closed(R2.value)
        s = imp(inv, pc, orr(le(lp(v), T2), eq(v, lb0)))
        rep.ob('radius', 'lower end meets the probability', s, where2, 'returned %s' % show(v))
        width = None
        res = False
        for w in R2.I.whiles:
            for q in scalar_keys(w):
                y = w.phis[q]
                if w.pre[q] is ub0:
                    res = imp(inv, pc, le(sub(y, v), tol))
                    width = y
        rep.ob('radius', 'bracket width', res if width is not None else None, where2, 'returned %s' % show(v))
        for w in R2.I.whiles:
            if w.post is None:
                continue
            asked = {x for t in [w.post.pc] for x in subterms(t) if x.op == 'fn' and x.args[0] == 'logp'}
            pts = {x.args[1][0] for x in asked}
            for q in scalar_keys(w):
                if w.pre[q] not in (lb0, ub0):
                    continue
                new = w.post.cells[q]
                alts = leaves(new)
                for a in alts:
                    if a is w.phis[q]:
                        continue
                    s = a in tested_points(R2, w)
                    if w.pre[q] is lb0 and s:
                        g = reaching(new, a)
                        near = [r for r in tested_points(R2, w) if r is not a and imp(andd(lt(r, a), le(sub(a, tol), r))) is True]
                        f = imp(inv, w.post.pc, g, orr(*[lt(lp(r), lp(a)) for r in near]))
                        rep.ob('falls', 'move of the lower end', f, where2, '' if f else 'moved to %s, compared with %s' % (show(a)[:60], [show(r)[:60] for r in tested_points(R2, w) if r is not a]))
                    rep.ob('tested', 'move of the ' + ('lower' if w.pre[q] is lb0 else 'upper') + ' end', s, where2,
                           'moved to %s' % show(a))
    rep.guard('radius', SEARCH_R, radius, where2)
    R3 = S[SEARCH_L]
    rep.saw(R3.I)
    where3 = fdef(repo(), MOD, SEARCH_L)
    rep.guard('linear', SEARCH_L, lambda: linear(rep, R3, where3, lp), where3)


def reaching(t, leaf):
    """condition under which a conditional value is the leaf"""
    if t is leaf:
        return TRUE
    if t.op == 'ite':
        return orr(andd(t.args[0], reaching(t.args[1], leaf)), andd(nott(t.args[0]), reaching(t.args[2], leaf)))
    return FALSE


def whole(rep, R, where, v):
    bad = None
    und = False
    for w in R.I.whiles:
        ks = scalar_keys(w)
        m = {}
        for q in ks:
            if is_int(w.pre[q]) or w.phis[q] in subterms(v):
                m[w.phis[q]] = sym('whole~%s' % (q,), 'ip')
        ts = [w.pre[q] for q in ks if w.phis[q] in m] + ([w.post.cells[q] for q in ks if w.phis[q] in m] if w.post is not None else [])
        pcs = [w.post.pc] if w.post is not None else []
        ts += [x.args[1][0] for t in pcs for x in subterms(t) if x.op == 'fn' and x.args[0] == 'logp']
        for t in ts:
            for a in leaves(t):
                a = subst(a, m)
                if not is_int(a):
                    free = [x for x in subterms(a) if x.op in ('sym', 'fn', 'call', 'phi', 'unk') and not is_int(x)]
                    if free or has_unknown(a):
                        und = True
                    else:
                        bad = a
    rep.ob('whole', SEARCH_S, False if bad is not None else None if und else True, where, '' if bad is None else 'asks for %s samples' % show(bad)[:80])


def linear(rep, R, where, lp):
    fail = sub(ONE, P)
    outs = returns(R)
    if len(R.I.whiles) != 1 or not outs:
        rep.ob('linear', 'loop', None, where, '%d loops' % len(R.I.whiles))
        return
    for v, pc, w in outs:
        v = R.closed(v)
        s = imp(pc, lt(fail, lp(add(v, tol))))
        rep.ob('linear', 'next exceeds', s, where, 'returned %s' % show(v)[:80])
        ks = [q for q in scalar_keys(w) if w.phis[q] is v]
        if not ks or w.post is None:
            rep.ob('linear', 'candidate', None, where, 'returned %s' % show(v)[:80])
            continue
        q = ks[0]
        rep.ob('linear', 'first candidate', same(w.pre[q], lb0), where, 'starts at %s' % show(w.pre[q])[:80])
        rep.ob('linear', 'step', same(sub(w.post.cells[q], v), tol), where, 'goes on to %s' % show(w.post.cells[q])[:80])
        rep.ob('linear', 'earlier ones do not', imp(w.post.pc, le(lp(add(v, tol)), fail)), where, 'goes on when %s' % show(w.post.pc)[:120])
        rep.ob('linear', 'within the range', imp(pc, le(v, ub0)), where, 'returned when %s' % show(pc)[:120])


def leaves(t):
    if t.op == 'ite':
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def tested_points(R, w):
    out = set()
    terms_ = [w.post.pc] + [v for v in w.post.cells.values() if isinstance(v, T)]
    for t in terms_:
        for x in subterms(t):
            if x.op == 'fn' and x.args[0] == 'logp':
                out.add(x.args[1][0])
    return out


def B06(rep):
    rep.rule('progress', 'every iteration that goes on shrinks the bracket or advances the candidate')
    rep.rule('bounded', 'an advancing candidate is limited by an explicit failure')
    rep.rule('integer', 'integer candidates are not passed through floating point')
    rep.rule('ends', 'the radius search goes on only while its bracket is at least as wide as the tolerance')
    rep.rule('refuse', 'success probabilities outside (0,1) are refused before searching')
    S = searches()
    nloops = 0
    for name, R in S.items():
        rep.saw(R.I)
        where = fdef(repo(), MOD, name)
        for i, w in enumerate(R.I.whiles):
            nloops += 1
            rep.guard('progress', '%s loop %d' % (name, i + 1), lambda: progress(rep, R, w, '%s loop %d' % (name, i + 1)), where)
        ev = [e for e in R.I.events if e.name == 'int-of-real' and e.whiles]
        bad = [e for e in ev if all(is_int(x) for x in int_atoms(e.args[0]))]
        rep.ob('integer', name, not bad, bad[0].where() if bad else where,
               'an integer candidate is computed through floating point: it stops moving beyond 2^53' if bad else '')
    rep.guard('ends', SEARCH_R, lambda: ends(rep, S[SEARCH_R]), fdef(repo(), MOD, SEARCH_R))
    rep.guard('bounded', SEARCH_S, lambda: refusal(rep, S[SEARCH_S]), fdef(repo(), MOD, SEARCH_S))
    rep.count('loops', nloops)
    if nloops == 0:
        rep.ob('progress', 'loops', None, MOD, 'no search loops found')
    name = 'compute_numerical_bound'
    where = fdef(repo(), MOD, name)

    def refuse():
        R = Run(MOD)
        called = []

        def search(I, st, args, kw, node):
            called.append(st.pc)
            return sym('found', 'pi')
        R.I.contract_funcs[(MOD, SEARCH_S)] = search
        R.call(MOD, name, c, P, V, d, tol)
        pcs = called or [R.st.pc]
        for pc in pcs:
            s = logic.implies(pc, andd(lt(ZERO, P), lt(P, ONE)))
            rep.ob('refuse', name, s, where, 'search is reached when %s' % show(pc))
        s = logic.implies(andd(lt(ZERO, P), lt(P, ONE)), orr(*pcs))
        rep.ob('refuse', 'accepts the open interval', s, where, '')
    rep.guard('refuse', name, refuse, where)


def ends(rep, R):
    where = fdef(repo(), MOD, SEARCH_R)
    for w in R.I.whiles:
        if w.post is None:
            continue
        lo = [q for q in scalar_keys(w) if w.pre[q] is lb0]
        hi = [q for q in scalar_keys(w) if w.pre[q] is ub0]
        if len(lo) != 1 or len(hi) != 1:
            rep.ob('ends', SEARCH_R, None, where, 'the bracket was not recognised')
            continue
        a, b = w.phis[lo[0]], w.phis[hi[0]]
        s = imp(w.post.pc, lt(ZERO, a), lt(a, b), le(tol, sub(b, a)))
        rep.ob('ends', SEARCH_R, s, where, '' if s else 'goes on when %s' % show(w.post.pc)[:160])


LARGE = num(2 ** 53)


def refusal(rep, R):
    """the failure that limits a growing candidate is out of the way of representable counts"""
    where = fdef(repo(), MOD, SEARCH_S)
    for w in R.I.whiles:
        if w.post is None:
            for e in R.I.events:
                if e.name == 'raise' and e.whiles[-1:] == (w.id,) and not has_unknown(e.pc):
                    rep.ob('bounded', 'failure of ' + SEARCH_S, False, e.where(), 'fails before a candidate has grown, when %s' % show(e.pc)[:120])
            continue
        for q in scalar_keys(w):
            x, y = w.phis[q], w.post.cells.get(q)
            if not isinstance(y, T) or imp(w.post.pc, le(ONE, x), lt(x, y)) is not True:
                continue
            for e in R.I.events:
                if e.name != 'raise' or e.whiles[-1:] != (w.id,):
                    continue
                if has_unknown(e.pc):
                    rep.ob('bounded', 'failure of ' + SEARCH_S, None, e.where(), '')
                    continue
                s = imp(e.pc, lt(ZERO, x), orr(le(LARGE, x), le(LARGE, y)))
                rep.ob('bounded', 'failure of ' + SEARCH_S, s, e.where(), '' if s else 'fails when %s' % show(e.pc)[:120])


def int_atoms(t):
    return [a for mm in poly_of(t) for a, e in mm]


def progress(rep, R, w, key):
    where = '%s:%d in %s' % (w.file, w.node.lineno, w.func)
    if w.post is None:
        rep.ob('progress', key, True, where, 'never repeats')
        return
    ks = scalar_keys(w)
    post, phi = w.post.cells, w.phis
    pc = w.post.pc
    best = False
    for a, b in pairs(ks):
        if a in post and b in post and isinstance(post[a], T) and isinstance(post[b], T):
            d0 = sub(phi[b], phi[a])
            d1 = sub(post[b], post[a])
            if d0 is d1:
                continue
            if is_int(phi[a]) and is_int(phi[b]):
                goal = lt(d1, d0)
                low = [imp(pc, lt(phi[a], phi[b]))]
            else:
                goal = le(d1, mul(num(0.75), d0))
                low = [imp(pc, lt(phi[a], phi[b])), imp(pc, le(phi[a], phi[b]))]
            if True not in low:
                continue
            s = imp(pc, lt(phi[a], phi[b]), goal)
            if s is True:
                rep.ob('progress', key, True, where, 'bracket %s' % show(d0))
                return
            if s is None:
                best = None
    fixed = lambda t: not any(x in t_sub(t) for x in phi.values() if isinstance(x, T))
    for a in ks:
        if a not in post or not isinstance(post[a], T):
            continue
        st_ = sub(post[a], phi[a])
        s = imp(pc, lt(ZERO, st_))
        if s is True and (fixed(st_) or imp(pc, le(mul(num(2), phi[a]), post[a])) is True):
            # limited: going on requires the candidate to stay below something fixed
            lim = [x for x in subterms(pc) if x.op in ('neg', 'pos') and phi[a] in t_sub(x)]
            okl = any(limited(pc, x, phi[a], post[a]) for x in lim)
            rep.ob('progress', key, True, where, 'candidate advances by %s' % show(st_))
            rep.ob('bounded', key, okl or False, where, 'no failure limits the candidate' if not okl else '')
            return
        if s is None:
            best = None
    rep.ob('progress', key, best, where, 'no bracket provably shrinks and no candidate provably advances')


def t_sub(t):
    return set(subterms(t))


def limited(pc, atom, x, nx):
    """does going on imply an upper limit on the candidate (old or new value)?"""
    e = atom.args[0]
    p = poly_of(e)
    if any(len(mm) != 1 or mm[0][1] != 1 for mm in p if mm != ()):
        return False
    if set(mm[0][0] for mm in p if mm != ()) & set() or ((x, 1),) not in [tuple((a, int(q)) for a, q in mm) for mm in p if mm]:
        return False
    others = [mm[0][0] for mm in p if mm != () and mm[0][0] is not x]
    if any(o.op == 'fn' or (o.op == 'sym' and '~' in o.args[0]) for o in others):
        return False
    coef = [cc for mm, cc in p.items() if mm and mm[0][0] is x][0]
    # coef*x + rest (<|>) 0
    upper = (lt(e, ZERO), le(e, ZERO)) if coef > 0 else (lt(ZERO, e), le(ZERO, e))
    return any(logic.implies(pc, u) is True for u in upper)
