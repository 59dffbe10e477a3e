"""E01-E06: environments, polygon sampler, segment intersection"""
import ast
from .checks import *
from .terms import _mk, floor, open_lam
from .arrays import to_arr, elementwise, index_arr

MOD = 'nonasymptotic.envs'
UTIL = 'nonasymptotic.util'
SAMP = 'nonasymptotic.sampler'
d = sym('dim', 'pi')
n = sym('n', 'pi')
dl = sym('delta', 'n')
cl = sym('clearance', 'n')
L = sym('length', 'p')
sd = sym('seed', 'x')
HALF = num(0.5)
UNIFORM = ('.uniform', '.random', '.random_sample', '.rand')
DRAWS = {'.' + x for x in ('uniform random random_sample rand randn normal standard_normal choice integers randint permutation shuffle '
                           'exponential beta gamma triangular multivariate_normal dirichlet permuted bytes sample '
                           'standard_exponential lognormal poisson binomial laplace').split()}


def new_env(cls, *args):
    R = Run(MOD)
    R.obj = R.call(MOD, cls, *args)
    return R


def vec(size, body):
    v = fresh_var()
    return lam([v], [size], TRUE, body(v))


def at0(v, a, b):
    """a at index 0, b elsewhere"""
    return ite(eq(v, ZERO), a, b)


def box_ref(lo0, lo, hi0, hi, row):
    """row(j) lies in the box"""
    x = fresh_var()
    f = andd(le(at0(x, lo0, lo), row(x)), le(row(x), at0(x, hi0, hi)))
    return forall(lam([x], [d], TRUE, f))


def entry(name, *idx, flags='x'):
    return at(sym(name, flags), *idx)


def verdict(rep, rule, key, code, ref, where):
    s = same(code, ref)
    rep.ob(rule, key, s, where, '' if s else 'computes %s, expected %s' % (show(code)[:600], show(ref)[:400]))
    return s


def formula_verdict(rep, rule, key, code, ref, where, assume=TRUE):
    """arrays of truth values / single truth values"""
    s = same(code, ref)
    rep.ob(rule, key, s, where, '' if s else 'computes %s, expected %s' % (show(code)[:600], show(ref)[:400]))


def uniform_box(rep, rule, key, R, ev, sample, lo, hi, where):
    """sample (closed vector) is lo + (hi - lo) * standard uniform draw, one draw per coordinate"""
    draws = [e for e in ev if e.name in DRAWS]
    bad = [e for e in draws if e.name not in UNIFORM + ('.choice', '.integers')]
    if bad:
        rep.ob(rule, key, False, bad[0].where(), 'the point is built from %s draws' % bad[0].name)
        return
    us = [e for e in draws if e.name in UNIFORM]
    if len(us) != 1:
        rep.ob(rule, key, None, where, '%d uniform draws' % len(us))
        return
    u = us[0].result
    x = fresh_var()
    ref = lam([x], [d], TRUE, add(lo(x), mul(sub(hi(x), lo(x)), at(u, x))))
    s = same(sample, ref)
    rep.ob(rule, key, s, where, '' if s else 'samples %s, expected %s' % (show(sample)[:400], show(ref)[:400]))


def E02(rep):
    rep.rule('motion', 'a motion is valid exactly if both endpoints lie in the closed box, singly and row by row')
    rep.rule('sample', 'samples are uniform over that box')
    rep.rule('volume', 'the volume is the product of the side lengths')
    repo().module(MOD)
    C = 'StraightLine'
    w = lambda m: fdef(repo(), MOD, C + '.' + m)
    lo = lambda x: neg(dl)
    hi = lambda x: at0(x, add(L, dl), dl)

    def inbox(row):
        return box_ref(neg(dl), neg(dl), add(L, dl), dl, row)

    def motion1():
        R = new_env(C, d, dl, L, sd)
        a, b = R.array('S', d), R.array('G', d)
        v = R.closed(R.method(R.obj, 'is_motion_valid', a, b))
        rep.saw(R.I)
        ref = andd(inbox(lambda x: entry('S', x)), inbox(lambda x: entry('G', x)))
        verdict(rep, 'motion', 'one motion', v, ref, w('is_motion_valid'))
    rep.guard('motion', 'one motion', motion1, w('is_motion_valid'))

    def motion2():
        R = new_env(C, d, dl, L, sd)
        a, b = R.array('S', n, d), R.array('G', n, d)
        v = R.closed(R.method(R.obj, 'is_motion_valid', a, b))
        rep.saw(R.I)
        r = fresh_var()
        ref = lam([r], [n], TRUE, andd(inbox(lambda x: entry('S', r, x)), inbox(lambda x: entry('G', r, x))))
        verdict(rep, 'motion', 'batch of motions', v, ref, w('is_motion_valid'))
    rep.guard('motion', 'batch of motions', motion2, w('is_motion_valid'))

    def sample():
        R = new_env(C, d, dl, L, sd)
        k = R.mark()
        v = R.closed(R.method(R.obj, 'sample_from_env'))
        rep.saw(R.I)
        uniform_box(rep, 'sample', 'sample_from_env', R, R.since(k), v, lo, hi, w('sample_from_env'))
    rep.guard('sample', 'sample_from_env', sample, w('sample_from_env'))

    def volume():
        R = new_env(C, d, dl, L, sd)
        v = R.closed(R.attr(R.obj, 'volume'))
        rep.saw(R.I)
        two = mul(num(2), dl)
        verdict(rep, 'volume', 'volume', v, mul(add(L, two), power(two, sub(d, ONE))), w('volume'))
    rep.guard('volume', 'volume', volume, w('volume'))


def clip(x, lo, hi):
    return min2(max2(x, lo), hi)


def E03(rep):
    rep.rule('curve', 'the curve point at t (clipped to [0,1]) is the segment start plus t times its length along the first axis')
    rep.rule('distance', 'the distance to the path is the Euclidean distance to exactly that segment')
    t = sym('t', 'x')
    for C, args, start, length in (('StraightLine', (d, dl, L, sd), ZERO, L), ('NarrowPassage', (d, cl, sd), num(-0.5), ONE)):
        w = lambda m: fdef(repo(), MOD, C + '.' + m)

        def curve():
            R = new_env(C, *args)
            v = R.closed(R.method(R.obj, 'arclength_to_curve_point', t))
            rep.saw(R.I)
            ref = vec(d, lambda x: at0(x, add(start, mul(clip(t, ZERO, ONE), length)), ZERO))
            verdict(rep, 'curve', C, v, ref, w('arclength_to_curve_point'))
        rep.guard('curve', C, curve, w('arclength_to_curve_point'))

        def dist():
            R = new_env(C, *args)
            a = R.array('X', n, d)
            v = R.closed(R.method(R.obj, 'distance_to_path', a))
            rep.saw(R.I)
            r, x = fresh_var(), fresh_var()
            diff = sub(entry('X', r, x), at0(x, clip(entry('X', r, ZERO), start, add(start, length)), ZERO))
            ref = lam([r], [n], TRUE, power(red('+', lam([x], [d], TRUE, mul(diff, diff))), HALF))
            verdict(rep, 'distance', C, v, ref, w('distance_to_path'))
        rep.guard('distance', C, dist, w('distance_to_path'))


# ---------------------------------------------------------------- E04

def cross(a, b):
    return sub(mul(a[0], b[1]), mul(a[1], b[0]))


def meets_ref(p1, p2, q1, q2):
    s1 = [sub(p2[i], p1[i]) for i in (0, 1)]
    s2 = [sub(q2[i], q1[i]) for i in (0, 1)]
    o = [sub(q1[i], p1[i]) for i in (0, 1)]
    c, a, b = cross(s1, s2), cross(o, s2), cross(o, s1)
    proper = orr(andd(lt(ZERO, c), le(ZERO, a), le(a, c), le(ZERO, b), le(b, c)),
                 andd(lt(c, ZERO), le(a, ZERO), le(c, a), le(b, ZERO), le(c, b)))
    over = andd(*[andd(le(min2(p1[i], p2[i]), max2(q1[i], q2[i])), le(min2(q1[i], q2[i]), max2(p1[i], p2[i]))) for i in (0, 1)])
    col = andd(eq(c, ZERO), eq(a, ZERO), eq(b, ZERO), over)
    return orr(proper, col)


def E04(rep):
    rep.rule('exact', 'the reported predicate is "the two closed segments share a point", row by row, for every broadcast shape; '
                      'the reference is symmetric under reversing or exchanging the segments')
    F = 'detect_intersect'
    repo().func(UTIL, F)
    where = fdef(repo(), UTIL, F)

    def row(name, r):
        return [entry(name, r, num(i)) if r is not None else entry(name, num(i)) for i in (0, 1)]

    cases = [('row against one segment', (n, 2), (1, 2)), ('one segment against rows', (1, 2), (n, 2)),
             ('row against row', (n, 2), (n, 2)), ('single segments', (2,), (2,)), ('rows against a plain segment', (n, 2), (2,))]
    for key, sh1, sh2 in cases:
        def go():
            R = Run(UTIL)
            mk = lambda nm, sh: R.array(nm, *[x if isinstance(x, T) else num(x) for x in sh])
            v = R.closed(R.call(UTIL, F, mk('P', sh1), mk('Q', sh1), mk('A', sh2), mk('B', sh2)))
            rep.saw(R.I)
            r = fresh_var()
            idx = lambda sh: r if sh[0] is n else (ZERO if len(sh) == 2 else None)
            f = meets_ref(row('P', idx(sh1)), row('Q', idx(sh1)), row('A', idx(sh2)), row('B', idx(sh2)))
            ref = lam([r], [n if n in (sh1[0], sh2[0]) else ONE], TRUE, f)
            s = same(v, ref)
            if s is None:
                s = False if witness(v, ref) else None
            rep.ob('exact', key, s, where, '' if s else 'computes %s' % show(v)[:800])
        rep.guard('exact', key, go, where)


def witness(a, b):
    ok = vocab(a) - {('pred', 'infsign')} <= vocab(b)
    return ok and logic.understood(a) and teval.differ(a, b) is True


# ---------------------------------------------------------------- E05

def choice_contract(rec, ix):
    def choice(I, st, args, kw, node):
        a = args[1] if len(args) > 1 else kw.get('a')
        size = args[2] if len(args) > 2 else kw.get('size', NONE)
        p = kw.get('p', args[4] if len(args) > 4 else NONE)
        if a is None or size is not NONE:
            return None
        i = ix[min(len(rec), len(ix) - 1)]
        parr = to_arr(I, st, p, node) if p is not NONE else None
        rec.append((I.events[-1] if I.events else None, st.pc, a, parr.closed() if parr is not None else None, i, I.closed(st, args[0]),
                    a if isinstance(a, T) else I.length(st, a)))
        if isinstance(a, T) and not is_array_like(a):
            return i
        from . import models
        arr = to_arr(I, st, a, node)
        if arr is None:
            return models.get_item(I, st, a, [i], node)
        return models.get_item(I, st, I.new_arr(st, arr.axes, arr.body), [i], node)
    return choice


def is_array_like(t):
    return False


def meets_contract(I, st, args, kw, node):
    names = ('s1e1', 's1e2', 's2e1', 's2e2')
    args = list(args) + [kw[x] for x in names[len(args):] if x in kw]
    cols = []
    for a in args:
        arr = to_arr(I, st, a, node)
        ref = I.new_arr(st, arr.axes, arr.body)
        from . import models
        if len(arr.axes) == 1:
            ref = models.get_item(I, st, ref, [NONE], node)
        for i in (0, 1):
            cols.append(models.get_item(I, st, ref, [SliceVal(NONE, NONE, NONE), num(i)], node))
    return elementwise(I, st, lambda *v: meets_pred(v), cols, node)


def meets_pred(v):
    segs = []
    for k in (0, 4):
        segs.append(tuple(sorted([_mk('tup', v[k], v[k + 1]), _mk('tup', v[k + 2], v[k + 3])], key=skey)))
    segs.sort(key=lambda s: (skey(s[0]), skey(s[1])))
    return pred('meets', *[x for s in segs for x in s])


def E05(rep):
    rep.rule('volume', 'total volume is two unit boxes plus the corridor, 2 + (2c)^(d-1)')
    rep.rule('sample', 'each region is drawn with probability proportional to its volume and sampled uniformly over its own box')
    rep.rule('regions', 'the drawn boxes are the two end boxes and the corridor, each once')
    rep.rule('motion', 'a motion is valid exactly if both endpoints lie in the union of the boxes and no wall edge is met in any plane '
                       'of the first and another axis')
    C = 'NarrowPassage'
    w = lambda m: fdef(repo(), MOD, C + '.' + m)
    m = sub(d, ONE)
    V = add(num(2), power(mul(num(2), cl), m))
    boxes = [('left end', (num(-1.5), num(-0.5)), (num(-0.5), HALF), ONE),
             ('right end', (HALF, num(-0.5)), (num(1.5), HALF), ONE),
             ('corridor', (num(-0.5), neg(cl)), (HALF, cl), power(mul(num(2), cl), m))]

    def volume():
        R = new_env(C, d, cl, sd)
        v = R.closed(R.attr(R.obj, 'volume'))
        rep.saw(R.I)
        verdict(rep, 'volume', 'volume', v, V, w('volume'))
    rep.guard('volume', 'volume', volume, w('volume'))

    def sample():
        R = new_env(C, d, cl, sd)
        rec = []
        ix = sym('region', 'in')
        R.I.contract_methods[('*', 'choice')] = choice_contract(rec, [ix])
        k = R.mark()
        v = R.closed(R.method(R.obj, 'sample_from_env'))
        rep.saw(R.I)
        where = w('sample_from_env')
        if len(rec) != 1:
            rep.ob('sample', 'region draw', None, where, '%d weighted draws' % len(rec))
            return
        _, pc, a, p, i, _, size = rec[0]
        N = cval(size)
        if N is None or p is None:
            rep.ob('sample', 'region draw', False if p is None and N is not None else None, where,
                   'regions are drawn without volume weights' if p is None else 'number of regions is not fixed')
            return
        us = [e for e in R.since(k) if e.name in DRAWS and e.name != '.choice']
        bad = [e for e in us if e.name not in UNIFORM]
        if bad or len(us) != 1:
            rep.ob('sample', 'point draw', False if bad else None, where, 'draws %s' % [e.name for e in us])
            return
        u = us[0].result
        found = {}
        for j in range(int(N)):
            pj = at(p, num(j))
            sj = subst(v, {ix: num(j)})
            hit = None
            und = False
            for name, lo, hi, vol in boxes:
                x = fresh_var()
                ref = lam([x], [d], TRUE, add(at0(x, lo[0], lo[1]), mul(at0(x, sub(hi[0], lo[0]), sub(hi[1], lo[1])), at(u, x))))
                s = same(sj, ref)
                if s is True:
                    hit = name
                    found[name] = found.get(name, 0) + 1
                    verdict(rep, 'sample', 'weight of ' + name, pj, div(vol, V), where)
                und = und or s is None
            if hit is None:
                rep.ob('regions', 'region %d' % j, None if und else False, where, 'samples %s' % show(sj)[:400])
        for name, *_ in boxes:
            rep.ob('regions', name, found.get(name, 0) == 1 or (None if any(o.status is None for o in rep.obs) else False), where,
                   'drawn %d times' % found.get(name, 0))
    rep.guard('sample', 'sample_from_env', sample, w('sample_from_env'))

    def motion():
        R = new_env(C, d, cl, sd)
        R.I.contract_funcs[(UTIL, 'detect_intersect')] = meets_contract
        a, b = R.array('S', n, d), R.array('G', n, d)
        v = R.closed(R.method(R.obj, 'is_motion_valid', a, b))
        rep.saw(R.I)
        r = fresh_var()

        def inside(nm):
            return orr(*[box_ref(lo[0], lo[1], hi[0], hi[1], lambda x: entry(nm, r, x)) for _, lo, hi, _ in boxes])
        h = num(-0.5)
        lines = [((h, cl), (h, HALF)), ((h, neg(cl)), (h, h)), ((h, cl), (HALF, cl)), ((h, neg(cl)), (HALF, neg(cl))),
                 ((HALF, cl), (HALF, HALF)), ((HALF, neg(cl)), (HALF, h))]
        i = fresh_var()
        free = []
        for e1, e2 in lines:
            j = add(i, ONE)
            free.append(nott(meets_pred([entry('S', r, ZERO), entry('S', r, j), entry('G', r, ZERO), entry('G', r, j), *e1, *e2])))
        ref = lam([r], [n], TRUE, andd(inside('S'), inside('G'), forall(lam([i], [m], TRUE, andd(*free)))))
        verdict(rep, 'motion', 'is_motion_valid', v, ref, w('is_motion_valid'))
    rep.guard('motion', 'is_motion_valid', motion, w('is_motion_valid'))


# ---------------------------------------------------------------- E01

GLOBAL_OK = {'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'PCG64DXSM', 'Philox', 'MT19937', 'SFC64', 'BitGenerator', 'RandomState'}
ENTROPY = ('time.', 'uuid.', 'os.urandom', 'os.getpid', 'secrets.', 'datetime.')
RNG_CTOR = ('numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'random.Random')


def live_nodes(body):
    """nodes of statements that are not behind an unconditional raise or return in their own block"""
    for s in body:
        for f, v in ast.iter_fields(s):
            vs = v if isinstance(v, list) else [v]
            if vs and isinstance(vs[0], (ast.stmt, ast.excepthandler)):
                if isinstance(vs[0], ast.excepthandler):
                    for h in vs:
                        yield from live_nodes(h.body)
                else:
                    yield from live_nodes(vs)
            else:
                for x in vs:
                    if isinstance(x, ast.AST):
                        yield from ast.walk(x)
        yield s
        if isinstance(s, (ast.Raise, ast.Return, ast.Continue, ast.Break)):
            return


def import_names(m):
    """local name -> dotted origin"""
    out = {}
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(x, ast.ImportFrom) and x.module and not x.level:
            for a in x.names:
                out[a.asname or a.name] = x.module + '.' + a.name
    return out


def dotted(e, names):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name) and e.id in names:
        return '.'.join([names[e.id]] + parts[::-1])
    return None


def qual_at(m, node):
    while node is not None:
        q = getattr(node, '_qual', None)
        if q:
            return q
        node = getattr(node, '_parent', None)
    return 'module level'


def E01(rep):
    rep.rule('seeded', 'the generator every draw of an environment uses is created while that environment is constructed, from its seed')
    rep.rule('global', 'no process-wide generator is drawn from')
    rep.rule('sampler', 'the polygon sampler draws only from the generator it is given')
    rep.rule('forward', 'environment code hands its own generator to the polygon sampler')
    seed2 = sym('seed2', 'x')
    envs = [('StraightLine', (d, dl, L)), ('NarrowPassage', (d, cl)), ('GrayCodeWalls', (d, sym('len', 'pi'), sym('thickness', 'n')))]
    for C, args in envs:
        where = fdef(repo(), MOD, C + '.sample_from_env')

        def one(C=C, args=args, where=where):
            repo().func(MOD, C + '.sample_from_env')
            R = Run(MOD)
            m0 = R.mark()
            o1 = R.call(MOD, C, *args, seed=sd)
            m1 = R.mark()
            R.call(MOD, C, *args, seed=seed2)
            m2 = R.mark()
            v = R.closed(R.method(o1, 'sample_from_env'))
            rep.saw(R.I)
            own = [e for e in R.I.events[m0:m1] if e.name in RNG_CTOR]
            made = {id(e.result): e for e in own}
            draws = [e for e in R.since(m2) if e.name in DRAWS or e.name.rsplit('.', 1)[0] in ('random', 'numpy.random')
                     and e.name not in RNG_CTOR]
            if not draws:
                rep.ob('seeded', C, None, where, 'no draw found in sample_from_env')
                return
            st = True
            why = ''
            for e in draws:
                if e.recv is None:
                    st, why = False, '%s at %s draws from a process-wide generator' % (e.name, e.where())
                    break
                src = [c for c in own if c.result is e.recv or c.result == e.recv]
                if not src:
                    other = [c for c in R.I.events if c.name in RNG_CTOR and (c.result is e.recv or c.result == e.recv)]
                    if other:
                        st, why = False, 'the draw at %s uses the generator created at %s, which is not the one this environment was ' \
                                         'constructed with' % (e.where(), other[0].where())
                        break
                    st, why = None, 'generator of the draw at %s is not known' % e.where()
                    continue
                a = [R.closed(x) for x in src[0].args] + [R.closed(x) for x in src[0].kw.values()]
                if not any(contains(x, lambda y: y is sd) for x in a):
                    if all(not has_unknown(x) for x in a):
                        st, why = False, 'the generator created at %s is not seeded with the environment seed (%s)' % (
                            src[0].where(), ', '.join(show(x) for x in a) or 'no argument')
                        break
                    st, why = None, 'seed of the generator created at %s' % src[0].where()
                    continue
                twin = [c for c in R.I.events[m1:m2] if c.name in RNG_CTOR]
                if not any([subst(R.closed(x), {seed2: sd}) for x in c.args] + [subst(R.closed(x), {seed2: sd}) for x in c.kw.values()] == a
                           for c in twin):
                    st, why = (False if not any(has_unknown(x) for x in a) else None), \
                        'the generator of a second environment with the same seed is created differently (%s)' % src[0].where()
            ent = [x for x in subterms(v) if x.op in ('call', 'call?') and str(x.args[0]).startswith(ENTROPY)]
            if st is True and ent:
                st, why = False, 'samples depend on %s' % show(ent[0])
            rep.count('draw_events', len(draws))
            rep.ob('seeded', C, st, where, why)
        rep.guard('seeded', C, one, where)

    w = fdef(repo(), SAMP, 'random_point_in_mpolygon')

    def sampler():
        repo().func(SAMP, 'random_point_in_mpolygon')
        R = Run(SAMP)
        rng = R.I.new_obj('numpy.random.default_rng', [sym('given', 'x')], {}, None, R.st)
        k = R.mark()
        R.call(SAMP, 'random_point_in_mpolygon', sym('polygon', 'x'), rng=rng)
        rep.saw(R.I)
        ev = R.since(k)
        draws = [e for e in ev if e.name in DRAWS or e.name.rsplit('.', 1)[0] in ('random', 'numpy.random') and e.name not in RNG_CTOR]
        bad = [e for e in draws if e.recv is None or (e.recv is not rng and e.recv != rng)]
        rep.count('draw_events', len(draws))
        known = [e for e in bad if e.recv is None or isinstance(e.recv, T) and e.recv.op == 'obj']
        rep.ob('sampler', 'draws', True if draws and not bad else (False if known else None), bad[0].where() if bad else w,
               'the draw uses another generator than the one given' if bad else '')
        fresh = [e for e in ev if e.name in RNG_CTOR and logic.valid(nott(e.pc)) is not True]
        rep.ob('sampler', 'no fresh generator', not fresh or (False if known else None), fresh[0].where() if fresh else w,
               'a generator is created although one was given' if fresh else '')
    rep.guard('sampler', 'draws', sampler, w)

    for name in (MOD, SAMP, UTIL):
        m = repo().module(name)
        names = import_names(m)
        bad = []
        n_calls = 0
        for x in live_nodes(m.tree.body):
            if not isinstance(x, ast.Call):
                continue
            n_calls += 1
            dn = dotted(x.func, names)
            if dn and (dn.startswith('random.') or dn.startswith('numpy.random.')):
                last = dn.split('.')[-1]
                if last not in GLOBAL_OK and last != 'Random':
                    bad.append((x, dn))
        rep.count('call_sites', n_calls)
        rep.ob('global', name, not bad, '%s:%d in %s' % (m.rel, bad[0][0].lineno, qual_at(m, bad[0][0])) if bad else m.rel,
               'calls %s' % bad[0][1] if bad else '')
    m = repo().module(MOD)
    names = import_names(m)
    for x in live_nodes(m.tree.body):
        if isinstance(x, ast.Call) and dotted(x.func, names) == SAMP + '.random_point_in_mpolygon':
            rng = [k.value for k in x.keywords if k.arg == 'rng'] + x.args[1:2]
            ok = bool(rng) and not (isinstance(rng[0], ast.Constant) and rng[0].value is None)
            rep.ob('forward', qual_at(m, x), ok, '%s:%d in %s' % (m.rel, x.lineno, qual_at(m, x)),
                   '' if ok else 'the polygon sampler is called without the environment generator')


# ---------------------------------------------------------------- E06

def solve_for(S, N):
    """a substitution under which the size S equals the term N, or None"""
    p = poly_of(S)
    for m, c in p.items():
        if len(m) == 1 and m[0][0].op in ('count', 'len', 'sym') and m[0][1] == 1:
            x = m[0][0]
            rest = sub(S, mul(num(c), x))
            if contains(rest, lambda y: y is x):
                continue
            return {x: div(sub(N, rest), num(c))}
    if len(p) == 1:
        (m, c), = p.items()
        for x, e in m:
            if x.op in ('count', 'len') and e == 1:
                return {x: div(mul(N, x), S)}
    return None


def cell_item(x):
    """(list, position) of an item of a list"""
    if x.op == 'fn' and x.args[0] == 'mixed item':
        return x.args[1]
    return x.args[:2] if x.op == 'nth' else None


def E06(rep):
    rep.rule('cells', 'cell weights are cell volume over total volume, end cells first and last, middle cells between')
    rep.rule('regions', 'within-cell region weights are region volume over cell volume, in the order the drawn index is interpreted')
    rep.rule('tables', 'end cells use the end-cell table, all other cells the middle-cell table')
    rep.rule('place', 'the sampled point is transformed into the drawn cell; the centre region is the cube shrunk by the thickness, a passage the slab behind the face that is passed through')
    C = 'GrayCodeWalls'
    w = lambda m: fdef(repo(), MOD, C + '.' + m)
    th = sym('thickness', 'n')
    ln = sym('length', 'pi')
    where = w('sample_from_env')
    TR = '_transform_sample_to_global_frame'
    side = sub(ONE, mul(num(2), th))
    vc = power(side, d)
    vo = mul(th, power(side, sub(d, ONE)))
    VC = {'CENTER': vc, 'PASSAGE': vo, 'PASSAGE1': vo, 'PASSAGE2': vo}
    big = le(num(2), d)

    def region_name(t):
        x = show(t)
        return x.split('.')[-1]

    def run():
        repo().func(MOD, C + '.sample_from_env')
        R = new_env(C, d, ln, th, sd)
        rec, cap = [], []
        ix = [sym(x, 'in') for x in ('cell', 'region1', 'region2', 'region3')]
        R.I.contract_methods[('*', 'choice')] = choice_contract(rec, ix)

        def tr(I, st, args, kw, node):
            f = repo().func(MOD, C + '.' + TR)
            a = list(args[1:]) + [None] * 3
            for i, p in enumerate([x.arg for x in f.args.args][1:4]):
                if p in kw:
                    a[i] = kw[p]
            cap.append(([I.closed(st, x) for x in a[:3]], st.pc))
            return sym('POINT', 'x')
        R.I.contract_methods[(C, TR)] = tr
        k = R.mark()
        R.method(R.obj, 'sample_from_env')
        rep.saw(R.I)
        if not rec or not cap:
            rep.ob('cells', 'draws', None, where, 'the cell draw or the transformation was not recognised')
            return
        _, pc0, a0, p0, cell, _, S = rec[0]
        if p0 is None:
            rep.ob('cells', 'weights', False, where, 'cells are drawn without volume weights')
            return
        k2 = sym('others', 'in')
        mid, rest = sym('before', 'pi'), sym('after', 'pi')
        def item_facts(ts, *more):
            items = sorted({x for t in ts for x in subterms(t) if cell_item(x)}, key=skey)
            facts = [big, *more]
            for i, x in enumerate(items):
                for y in items[i + 1:]:
                    (a, m), (b, n) = cell_item(x), cell_item(y)
                    if a is b:
                        facts.append(orr(eq(m, n), ne(x, y)))
            return andd(*facts)

        def example():
            """a small instance in which a cell provably uses the other kind of table"""
            for N in (4, 8):
                sm = solve_for(S, num(N))
                for at_ix in range(N):
                    end = at_ix in (0, N - 1)
                    pcs = [subst(subst(r[1], {cell: num(at_ix)}), sm) for r in rec[1:]]
                    facts = item_facts(pcs)
                    for r, pc in zip(rec[1:], pcs):
                        m = cval(r[6])
                        if m in (2, 3) and (m == 2) != end and logic.valid(implies_t(facts, pc)) is True:
                            return 'with %d cells, cell %d uses the table with %d regions' % (N, at_ix, m)
            return None

        cases = [('first cell', add(num(2), k2), ZERO, True), ('last cell', add(num(2), k2), add(ONE, k2), True),
                 ('middle cell', add(mid, add(rest, ONE)), mid, False)]
        for name, N, at_ix, is_end in cases:
            sm = solve_for(S, N)
            if sm is None:
                rep.ob('cells', name, None, where, 'number of cells is %s' % show(S))
                continue
            sm2 = dict(sm)
            sm2[cell] = at_ix

            def sb(t):
                return subst(subst(t, {cell: at_ix}), sm)
            tot = add(mul(sub(N, num(2)), add(vc, mul(num(2), vo))), mul(num(2), add(vc, vo)))
            vcell = add(vc, vo if is_end else mul(num(2), vo))
            verdict(rep, 'cells', name, under(sb(at(p0, cell)), andd(big, le(num(2), N))), div(vcell, tot), where)
            # facts: different positions hold different cells
            facts = item_facts([sb(r[1]) for r in rec] + [sb(y) for c in cap for y in c[0]],
                               le(num(2), N), le(ZERO, at_ix), lt(at_ix, N))
            act = []
            und = False
            for j, r in enumerate(rec[1:]):
                pc = sb(r[1])
                if logic.valid(implies_t(facts, nott(pc))) is True:
                    continue
                if logic.valid(implies_t(facts, pc)) is True:
                    act.append((j + 1, r))
                else:
                    und = True
            if und or len(act) != 1:
                ex = example()
                rep.ob('tables', name, False if ex else None, where, ex or 'which region draw applies is not determined')
                continue
            j, r = act[0]
            m = cval(r[6])
            if m is None or r[3] is None:
                rep.ob('tables', name, None if m is None else False, where, 'regions are drawn without weights' if m is not None else '')
                continue
            live = [c for c in cap if logic.valid(implies_t(facts, nott(sb(c[1])))) is not True]
            if len(live) != 1:
                rep.ob('tables', name, None, where, '%d transformations' % len(live))
                continue
            (u, coords, reg), pc = live[0]
            if u is not None:
                shaped = u.op == 'lam' and len(u.args[1]) == 1 and same(u.args[1][0], d) is True
                e = next((e for e in R.since(k) if e.result is u), None)
                if e is not None and e.name in ('.uniform', '.random'):
                    names = ('low', 'high', 'size') if e.name == '.uniform' else ('size',)
                    a = {x: R.closed(y) for x, y in list(zip(names, e.args)) + list(e.kw.items())}
                    size = a.get('size')
                    size = size.args[0] if size is not None and size.op == 'tup' and len(size.args) == 1 else size
                    shaped = size is not None and size is not NONE and same(size, d) is True and a.get('low', ZERO) is ZERO and a.get('high', ONE) is ONE
                rep.ob('place', name + ', draws', True if shaped else None if e is None and (has_unknown(u) or u.op == 'call') else False, where,
                       'the point is placed from %s' % show(u)[:200])
            rsym = ix[min(j, len(ix) - 1)]
            names = []
            for q in range(int(m)):
                t = under(subst(sb(reg), {rsym: num(q)}), facts)
                nm = region_name(t)
                names.append(nm)
                if nm not in VC:
                    rep.ob('regions', '%s index %d' % (name, q), None, where, 'region %s' % show(t)[:300])
                    continue
                verdict(rep, 'regions', '%s, %s' % (name, nm), subst(sb(at(r[3], rsym)), {rsym: num(q)}), div(VC[nm], vcell), where)
            want = {'CENTER', 'PASSAGE'} if is_end else {'PASSAGE1', 'CENTER', 'PASSAGE2'}
            if any(x not in VC for x in names):
                rep.ob('tables', name, None, where, 'regions %s' % names)
            else:
                rep.ob('tables', name, sorted(names) == sorted(want), where, 'the drawn index selects %s' % ', '.join(names))
            ci = sb(coords)
            if cell_item(ci):
                pos = cell_item(ci)[1]
                rep.ob('place', name, same(pos, at_ix), where, 'the point is placed in the cell at position %s' % show(pos))
            else:
                rep.ob('place', name, None, where, 'cell %s' % show(ci)[:200])
    rep.guard('cells', 'sample_from_env', run, where)

    def centre():
        repo().func(MOD, C + '.' + TR)
        R = new_env(C, d, ln, th, sd)
        for enum in ('EndCuboidRegions', 'MidCuboidRegions'):
            reg = R.get(MOD, enum + '.CENTER')
            u, c = R.array('U', d), R.array('CELL', d, flags='I')
            v = R.closed(R.method(R.obj, TR, u, c, reg))
            x = fresh_var()
            ref = lam([x], [d], TRUE, add(at(sym('CELL', 'I'), x), add(th, mul(side, at(sym('U', 'x'), x)))))
            verdict(rep, 'place', enum + '.CENTER', v, ref, w(TR))
        rep.saw(R.I)
    rep.guard('place', 'centre', centre, w(TR))

    def passages(n):
        """points drawn for the opening of a wall lie in it"""
        c = [sym('C%d' % i, 'i') for i in range(n)]
        u = [sym('U%d' % i, 'n') for i in range(n)]
        sides = [(k, s) for k in range(n) for s in (-1, 1)]
        cases = [('first cell', (), (a,), 'EndCuboidRegions.PASSAGE', a) for a in sides] + [('last cell', (a,), (), 'EndCuboidRegions.PASSAGE', a) for a in sides] + \
                [('middle cell', (a,), (b,), 'MidCuboidRegions.PASSAGE%d' % q, (a, b)[q - 1]) for a in sides for b in sides if a != b for q in (1, 2)]
        cases += [('end cell', (), (sides[0],), 'EndCuboidRegions.CENTER', (None, 1)), ('middle cell', (sides[0],), (sides[1],), 'MidCuboidRegions.CENTER', (None, 1))]
        for kind, before, after, region, (k, s) in cases:
            R = Run(MOD)
            I = R.I

            def beside(which):
                def f(I, st, a, kw, node):
                    asked.append(I.closed(st, a[1]))
                    return I.list_of(st, [Tup([add(y, num(t)) if i == j else y for i, y in enumerate(c)]) for j, t in which])
                return f
            asked = []
            I.contract_methods[('*', 'predecessors')] = beside(before)
            I.contract_methods[('*', 'successors')] = beside(after)
            obj = R.call(MOD, C, num(n), ln, th, sd)
            U = I.models.NP['array'](I, R.st, [Tup(u)], {}, None)
            n0 = R.mark()
            v = R.method(obj, TR, U, Tup(c), R.get(MOD, region))
            rep.saw(I)
            lost = [e for e in R.since(n0) if e.name == 'raise' and e.pc is TRUE]
            ok, free, bad = True, set(u), ''
            if lost:
                ok, bad = False, 'raises'
            elif any(x is not _mk('tup', *c) and not has_unknown(x) for x in asked):
                ok, bad = False, 'neighbours of another cell are used'
            for i in range(n if ok else 0):
                t = I.closed(R.st, index_arr(I, R.st, v, [num(i)], None)) if isinstance(v, ArrRef) else I.unk('sample')
                by = [x for x in u if any(y is x for y in subterms(t))]
                lo, width = (add(c[i], sub(ONE, th) if s > 0 else ZERO), th) if i == k else (add(c[i], th), side)
                hit = any(same(t, add(lo, mul(width, f))) is True for x in by[:1] for f in (x, sub(ONE, x)))
                if hit and by[0] in free:
                    free.remove(by[0])
                elif hit or not has_unknown(t):
                    ok = False
                    bad = 'coordinate %d is %s' % (i, show(t)[:150])
                elif ok:
                    ok, bad = None, 'coordinate %d' % i
            name = '%s, %d dimensions, opening towards %s%s, %s' % (kind, n, k, '+' if s > 0 else '-', region.rpartition('.')[2])
            if kind == 'middle cell' and k is not None:
                name += ', the other towards %d%s' % ((after if region.endswith('1') else before)[0][0], '+' if (after if region.endswith('1') else before)[0][1] > 0 else '-')
            rep.ob('place', name, ok, w(TR), '' if ok else bad)
    for n in (2, 3) if rep.tier == 'quick' else (2, 3, 4):
        rep.guard('place', 'passages in %d dimensions' % n, lambda n=n: passages(n), w(TR))


# ---------------------------------------------------------------- E07

def pt(I, st, args, kw, node):
    """shapely.Point as the tuple of its coordinates"""
    from . import models
    if len(args) == 2:
        return Tup([args[0], args[1]])
    if len(args) == 1:
        return Tup([models.get_item(I, st, args[0], [num(i)], node) for i in (0, 1)])
    return None


def affine(I, st, args, kw, node):
    """shapely.affinity.affine_transform of a point: [a, b, d, e, xoff, yoff]"""
    from . import models
    a = list(args) + [kw[k] for k in ('geom', 'matrix')[len(args):] if k in kw]
    if len(a) != 2:
        return None
    try:
        x, y = [models.get_item(I, st, a[0], [num(i)], node) for i in (0, 1)]
        m = [models.get_item(I, st, a[1], [num(i)], node) for i in range(6)]
        x, y, *m = [I.closed(st, v) for v in [x, y] + m]
    except Exception:
        return None
    if any(not isinstance(v, T) for v in [x, y] + m) or I.length(st, a[1]) is not num(6):
        return None
    return Tup([add(add(mul(m[0], x), mul(m[1], y)), m[4]), add(add(mul(m[2], x), mul(m[3], y)), m[5])])


def translated(I, st, args, kw, node):
    """shapely.affinity.translate of a point"""
    from . import models
    a = list(args) + [kw[k] for k in ('geom', 'xoff', 'yoff')[len(args):] if k in kw]
    if len(a) != 3:
        return None
    return Tup([add(I.closed(st, models.get_item(I, st, a[0], [num(i)], node)), I.closed(st, a[i + 1])) for i in (0, 1)])


def E07(rep):
    import itertools
    rep.rule('area', 'triangles are drawn with probability proportional to their areas')
    rep.rule('point', 'the point is uniform in the triangle drawn: a corner plus two uniform fractions of its sides, reflected into the triangle')
    rep.rule('triangles', 'every triangle of the triangulation, and nothing else, can be drawn')
    rep.rule('holes', 'the triangulation keeps to the boundary segments and has a hole marker from inside every interior ring')
    where = fdef(repo(), SAMP, 'random_point_in_mpolygon')
    for kind in ('Polygon', 'MultiPolygon'):
        def go(kind=kind):
            repo().func(SAMP, 'random_point_in_mpolygon')
            R = Run(SAMP)
            I = R.I
            rec, asked = [], []
            ix, V, N = sym('tri', 'in'), sym('V', 'pi'), sym('T', 'pi')
            verts, tris = sym('verts', 'n'), sym('tris', 'I')

            def tri(I, st, args, kw, node):
                asked.append((args, kw, I.call_stack[-1] if I.call_stack else None))
                a, b, x, y = [fresh_var() for _ in range(4)]
                vs = I.new_arr(st, [Ax([a], [V]), Ax([b], [num(2)])], at(verts, a, b))
                ts = I.new_arr(st, [Ax([x], [N]), Ax([y], [num(3)])], at(tris, x, y))
                return I.new_dict(st, [(_mk('k', 'str', 'vertices'), vs, TRUE), (_mk('k', 'str', 'triangles'), ts, TRUE)])
            I.contract_funcs['triangle.triangulate'] = tri
            I.contract_funcs['shapely.Point'] = I.contract_funcs['shapely.geometry.Point'] = pt
            I.contract_funcs['shapely.affinity.affine_transform'] = affine
            I.contract_funcs['shapely.affinity.translate'] = translated
            I.contract_methods[('*', 'choice')] = choice_contract(rec, [ix])
            rng = I.new_obj('numpy.random.default_rng', [sym('given', 'x')], {}, None, R.st)
            k = R.mark()
            v = R.call(SAMP, 'random_point_in_mpolygon', I.new_obj('shapely.' + kind, [], {}, None, R.st), rng=rng)
            rep.saw(I)
            if len(rec) != 1 or len(asked) != 1:
                rep.ob('area', kind, None, where, '%d weighted draws, %d triangulations' % (len(rec), len(asked)))
                return
            _, pc, a, p, i, _, size = rec[0]
            q = fresh_var()

            def corner(j, t=ix):
                return [at(verts, at(tris, t, num(j)), num(c)) for c in (0, 1)]

            def twice(t):
                (x1, y1), (x2, y2), (x3, y3) = [corner(j, t) for j in range(3)]
                return absv(add(add(mul(x1, sub(y2, y3)), mul(x2, sub(y3, y1))), mul(x3, sub(y1, y2))))
            rep.ob('triangles', kind, True if size is N else None if size is None or has_unknown(size) else False, where, 'draws from %s triangles' % show(size))
            if p is None:
                rep.ob('area', kind, False, where, 'triangles are drawn without area weights')
            else:
                z = fresh_var()
                rs = [same(p, lam([q], [N], TRUE, div(mul(f, twice(q)), red('+', lam([z], [N], TRUE, mul(f, twice(z))))))) for f in (HALF, ONE)]
                rep.ob('area', kind, True if True in rs else None if None in rs else False, where, 'weights %s' % show(p)[:500])
            us = [e for e in R.since(k) if e.name in DRAWS and e.name != '.choice']
            frac = []
            for e in us:
                if e.name not in UNIFORM or e.pc is not us[0].pc:
                    rep.ob('point', kind, False if e.name not in UNIFORM else None, e.where(), 'draws %s' % e.name)
                    return
                r = e.result
                sz = e.kw.get('size', e.args[0] if e.args and e.name != '.uniform' else e.args[2] if len(e.args) > 2 else NONE)
                n_ = cval(I.length(R.st, sz)) if isinstance(sz, Tup) else None
                c = cval(sz.items[0]) if isinstance(sz, Tup) and n_ == 1 else cval(sz) if isinstance(sz, T) and sz is not NONE else None
                frac += [r] if sz is NONE else [at(r, num(j)) for j in range(int(c))] if c is not None else [None]
            t = R.closed(v)
            got = [R.closed(x) for x in t.items] if isinstance(t, Tup) else split(t)
            if len(frac) != 2 or None in frac or got is None:
                rep.ob('point', kind, None, where, 'draws %s, returns %s' % ([show(f) if f is not None else '?' for f in frac], show(t)[:200] if isinstance(t, T) else t))
                return
            x, y = frac
            seen = []
            for o in itertools.permutations(range(3)):
                P = [corner(j) for j in o]

                def at_(X, Y, c):
                    return add(P[0][c], add(mul(X, sub(P[1][c], P[0][c])), mul(Y, sub(P[2][c], P[0][c]))))
                for over in (lt(ONE, add(x, y)), le(ONE, add(x, y))):
                    for X, Y in ((sub(ONE, x), sub(ONE, y)), (sub(ONE, y), sub(ONE, x))):
                        seen.append(tuple(ite(over, at_(X, Y, c), at_(x, y, c)) for c in (0, 1)))
                s_ = power(x, HALF)
                seen.append(tuple(add(mul(sub(ONE, s_), P[0][c]), add(mul(mul(s_, sub(ONE, y)), P[1][c]), mul(mul(s_, y), P[2][c]))) for c in (0, 1)))
            st_ = False
            for ref in seen:
                r = [same(got[c], ref[c]) for c in (0, 1)]
                if r == [True, True]:
                    st_ = True
                    break
                if False not in r:
                    st_ = None
            rep.ob('point', kind, st_, where, 'returns (%s, %s)' % tuple(show(g)[:300] for g in got))
            data = asked[0][0][0] if asked[0][0] else asked[0][1].get('tri')
            opts = asked[0][0][1] if len(asked[0][0]) > 1 else asked[0][1].get('opts', NONE)
            o = opts.args[1] if isinstance(opts, T) and opts.op == 'k' and opts.args[0] == 'str' else '' if opts is NONE else None
            rep.ob('holes', kind + '.segments', None if o is None else 'p' in o, where, 'triangulates with options %r' % o)
            dv = I.resolve(data, R.st.pc)
            items = {kk.args[1]: R.closed(vv) for kk, vv, g in R.st.cells[('D', dv.id)].items if kk.op == 'k'} if hasattr(dv, 'id') and ('D', dv.id) in R.st.cells else None
            if items is None:
                rep.ob('holes', kind + '.markers', None, where, 'triangulation input')
                return
            h = items.get('holes')
            if h is None:
                rep.ob('holes', kind + '.markers', False, where, 'no hole markers are given')
                return
            which = {x: TRUE if str(x.args[1]).endswith(kind) and not (kind == 'Polygon' and 'MultiPolygon' in str(x.args[1])) else FALSE
                     for x in subterms(h) if x.op in ('isinst', 'pred') and 'shapely.' in str(x.args[1])}
            parts = history(R, subst(h, which))
            src = {str(x.args[0]).split(':')[0] for x in parts if x.op in ('call', 'call?')}
            inner = any('interior' in nm for nm in src) or any(x.op == 'attr' and x.args[1] == 'interiors' for x in parts)
            ok = inner and 'shapely.point_on_surface' in src
            murky = any(x.op in ('unk', 'phi') for x in parts)
            rep.ob('holes', kind + '.markers', True if ok else False if not murky or not inner and not src - KNOWN_SHAPELY else None, where,
                   'markers from %s' % sorted(src)[:6])
        rep.guard('point', kind, go, where)


KNOWN_SHAPELY = {'concatenate', 'shapely.get_coordinates', 'shapely.get_exterior_ring', 'shapely.get_interior_ring', 'shapely.point_on_surface',
                 'shapely.get_num_interior_rings', 'shapely.get_num_points', 'vstack', 'hstack', 'shapely.centroid'}


def history(R, t):
    """every term t was made from, through constructors of objects"""
    out, todo, seen = set(), [t], set()
    while todo:
        for x in subterms(todo.pop()):
            out.add(x)
            if x.op == 'obj' and x not in seen:
                seen.add(x)
                for e in R.I.events:
                    if e.result is x:
                        todo += [v for v in (R.closed(a) for a in list(e.args) + list(e.kw.values())) if isinstance(v, T)]
    return out


def split(t):
    """the two coordinates of a closed point"""
    if isinstance(t, T) and t.op == 'tup' and len(t.args[0] if isinstance(t.args[0], tuple) else t.args) == 2:
        return list(t.args[0] if isinstance(t.args[0], tuple) else t.args)
    if isinstance(t, T) and t.op == 'ite':
        a, b = split(t.args[1]), split(t.args[2])
        return None if a is None or b is None else [ite(t.args[0], p, q) for p, q in zip(a, b)]
    return None


# ---------------------------------------------------------------- E08

def settle(t, f):
    """t with the roundings of P + a*f + b decided for every 0 < f < 1/2 (P integer valued); None when one is not decided"""
    for _ in range(12):
        todo = [x for x in subterms(t) if x.op in ('ceil', 'floor', 'mod') and any(y is f for y in subterms(x))
                and not any(y is not x and y.op in ('ceil', 'floor', 'mod') and any(z is f for z in subterms(y)) for y in subterms(x))]
        if not todo:
            return t
        m = {}
        for x in todo:
            v = rounded(x, f)
            if v is None:
                return t
            m[x] = v
        t = subst(t, m)
    return t


def decided(t, facts, f):
    """t with the extrema, roundings and conditionals that the facts decide"""
    F = andd(*facts)
    for _ in range(30):
        old = t
        t = under(settle(t, f), F)
        for x in subterms(t):
            if x.op in ('min2', 'max2') and not dangling(x):
                a, b = x.args
                if logic.valid(implies_t(F, le(a, b))) is True:
                    t = subst(t, {x: a if x.op == 'min2' else b})
                    break
                if logic.valid(implies_t(F, le(b, a))) is True:
                    t = subst(t, {x: b if x.op == 'min2' else a})
                    break
        if t is old:
            return t
    return t


def rounded(x, f):
    from fractions import Fraction
    import math
    if x.op == 'mod':
        return None
    a = b = Fraction(0)
    P = ZERO
    for mono, c in poly_of(x.args[0]).items():
        if not mono:
            b += c
        elif mono == ((f, 1),):
            a += c
        elif any(y is f for y, _ in mono):
            return None
        elif Fraction(c).denominator == 1 and all(y.op == 'sym' and 'i' in y.args[1] and e > 0 for y, e in mono):
            t = num(c)
            for y, e in mono:
                t = mul(t, power(y, num(e)))
            P = add(P, t)
        else:
            return None
    lo, hi = sorted((b, b + a / 2))
    if a == 0:
        return add(P, num(math.floor(b) if x.op == 'floor' else math.ceil(b)))
    k = math.floor(lo)
    if hi > k + 1:
        return None
    return add(P, num(k if x.op == 'floor' else k + 1))


def E08(rep):
    C = 'GrayCodeWalls'
    rep.rule('length', 'the length of the curve is the number of steps between consecutive cells')
    rep.rule('curve', 'the curve point at arclength s lies on the segment between the centres of the cells floor(s) and floor(s)+1, at the fraction left over')
    rep.rule('clip', 'normalised arclengths outside [0, 1] give the ends of the curve')
    rep.rule('ends', 'start and end point are the centres of the first and the last cell')
    where = fdef(repo(), MOD, C + '.arclength_to_curve_point')
    N, A, m, f, S = sym('N', 'pi'), sym('A', 'p'), sym('m', 'pi'), sym('f', 'n'), sym('s', 'n')
    cell = sym('cell', 'I')
    t = sym('t', 'x')

    def length():
        R = new_env(C, d, sym('len', 'pi'), sym('thick', 'n'), sd)
        rep.saw(R.I)
        got, nodes = R.closed(R.attr(R.obj, 'curve_arclength')), R.I.length(R.st, R.attr(R.obj, 'no_walls_linear_list'))
        verdict(rep, 'length', 'curve_arclength', got, sub(nodes, ONE), fdef(repo(), MOD, C + '.__init__'))
        v = R.closed(R.method(R.obj, 'get_curve_arclength'))
        verdict(rep, 'length', 'get_curve_arclength', v, got, fdef(repo(), MOD, C + '.get_curve_arclength'))
    rep.guard('length', 'curve_arclength', length, fdef(repo(), MOD, C + '.__init__'))

    def abstract():
        R = new_env(C, d, sym('len', 'pi'), sym('thick', 'n'), sd)
        I, st = R.I, R.st
        i, x = fresh_var(), fresh_var()
        row = I.new_arr(st, [Ax([x], [d])], at(cell, i, x))
        cells = I.new_list(st, [Seg([i], [N], TRUE, row)])
        I.set_attr(st, R.obj, 'no_walls_linear_list', cells, None)
        I.set_attr(st, R.obj, 'curve_arclength', A, None)
        I.set_attr(st, R.obj, 'n_nodes', N, None)

        def index(I, st, c):
            a = to_arr(I, st, c, None)
            hit = None
            for y in subterms(a.body) if a is not None else ():
                if y.op == 'at' and y.args[0] is cell:
                    if hit is not None and hit is not y.args[1]:
                        return None
                    hit = y.args[1]
            return hit

        def beside(step):
            def g(I, st, args, kw, node):
                j = index(I, st, args[1])
                if j is None:
                    return None
                z = fresh_var()
                return I.list_of(st, [I.new_arr(st, [Ax([z], [d])], at(cell, add(j, num(step)), z))])
            return g
        I.contract_methods[('*', 'predecessors')] = beside(-1)
        I.contract_methods[('*', 'successors')] = beside(1)
        I.one_shot = True
        return R

    z = fresh_var()
    last = sub(N, ONE)

    def centre(j, y):
        return add(at(cell, j, y), HALF)

    def known(v):
        """the facts of a Gray code: the first cell is the origin and the second lies next to it along the last axis"""
        mp = {}
        for y in subterms(v):
            if y.op == 'at' and y.args[0] is cell and len(y.args) == 3:
                if y.args[1] is ZERO:
                    mp[y] = ZERO
                elif y.args[1] is ONE:
                    mp[y] = ite(eq(y.args[2], sub(d, ONE)), ONE, ZERO)
        return subst(v, mp) if mp else v

    def curve():
        R = abstract()
        v = R.closed(R.method(R.obj, 'arclength_to_curve_point', t))
        rep.saw(R.I)
        if not isinstance(v, T) or v.op != 'lam':
            rep.ob('curve', 'value', None, where, 'returns %s' % (show(v)[:200] if isinstance(v, T) else v))
            return
        v = known(at(v, z))
        clips = [x for x in (max2(ZERO, min2(ONE, t)), min2(ONE, max2(ZERO, t)), max2(min2(t, ONE), ZERO)) if any(y is x for y in subterms(v))]
        w = v
        for c in clips:
            w = subst(w, {c: mul(S, power(A, num(-1)))})
        loose = any(y is t for y in subterms(w))
        rep.ob('clip', 'arclength', True if clips and not loose else None if has_unknown(w) else False, where, 'computes %s' % show(w)[:300])
        if not clips:
            return
        w = subst(w, {A: last})
        for name, s, j, extra in (('first cell', f, ZERO, {}), ('entering', sub(m, f), sub(m, ONE), {}), ('leaving', add(m, f), m, {}),
                                  ('last cell', sub(last, f), sub(last, ONE), {}), ('start', ZERO, ZERO, {}), ('end', last, sub(last, ONE), {}),
                                  ('at a centre', m, m, {}), ('between cells', add(m, HALF), m, {})):
            g = settle(subst(w, {S: s}), f)
            ref = known(add(centre(j, z), mul(sub(s, j), sub(at(cell, add(j, ONE), z), at(cell, j, z)))))
            facts = [le(num(3), N), lt(ZERO, f), lt(f, HALF), le(ONE, m), le(m, sub(N, num(2))), le(ZERO, z), lt(z, d)]
            if name in ('at a centre', 'between cells', 'start', 'end'):
                facts = facts[:1] + facts[3:]
            if name == 'between cells':
                facts.append(le(m, sub(N, num(3))))
            g = known(decided(g, facts, f))
            r = same(g, under(ref, andd(*facts)))
            if r is False and any(x.op in ('min2', 'max2', 'ceil', 'floor', 'mod') for x in subterms(g)):
                r = None
            rep.ob('curve', name, r, where, '' if r is True else 'computes %s, expected %s' % (show(g)[:500], show(ref)[:300]))
    rep.guard('curve', 'value', curve, where)

    def ends():
        R = abstract()
        rep.saw(R.I)
        for nm, ref in (('start_point', centre(ZERO, z)), ('end_point', centre(last, z))):
            v = R.closed(R.method(R.obj, nm))
            v = known(at(v, z)) if isinstance(v, T) and v.op == 'lam' else v
            verdict(rep, 'ends', nm, v, known(ref), fdef(repo(), MOD, C + '.' + nm))
    rep.guard('ends', 'points', ends, where)


def E09(rep):
    """the corridor through the cells, and the walls it leaves open"""
    C = 'GrayCodeWalls'
    rep.rule('cells', 'the corridor visits every cell once, starting at the origin')
    rep.rule('steps', 'cells visited one after the other share a face')
    rep.rule('graph', 'the graph has the cells as nodes and exactly the steps of the corridor, in its direction, as edges')
    rep.rule('walls', 'the distance to the walls is the distance to the nearest face of the cell that is not passed through, less the wall thickness')
    init = fdef(repo(), MOD, C + '.__init__')
    W, bit, ln = sym('W', 'pi'), sym('bit', 'I'), sym('len', 'pi')

    def words(I, st, a, k, node):
        i = I.obj_info(a[0])
        n = I.closed(st, i[1][0])
        u, v = fresh_var(), fresh_var()
        return I.new_list(st, [Seg((u,), (W,), TRUE, I.new_list(st, [Seg((v,), (n,), TRUE, at(bit, u, v))]))])

    def corridor():
        R = Run(MOD)
        I = R.I
        I.contract_methods[('*', 'generate_gray')] = words
        n0 = R.mark()
        obj = R.call(MOD, C, d, ln, sym('thick', 'n'), sd)
        rep.saw(I)
        gray = [e for e in R.since(n0) if e.name.endswith('GrayCode')]
        rep.ob('cells', 'code', same(R.closed(gray[0].args[0]), sub(d, ONE)) if len(gray) == 1 and len(gray[0].args) == 1 else None, init,
               'the code is not over all coordinates but the first')
        v = R.closed(R.attr(obj, 'no_walls_linear_list'))
        ok = v.op == 'list' and len(v.args) == 1 and v.args[0].op == 'lam' and len(v.args[0].args[1]) == 2
        if not ok:
            rep.ob('cells', 'sweeps', None, init, 'cells are %s' % show(v)[:200])
            return
        L = v.args[0]
        rep.ob('cells', 'sweeps', same(L.args[1][0], ln), init, 'the first coordinate does not run through the length')
        rep.ob('cells', 'words', True if L.args[2] is TRUE and L.args[1][1] is W else False, init, 'not every word of the code is visited in a sweep')
        q = sym('q', 'ni')

        def row(i, j):
            """first coordinate of a cell and the word of the code it stands at"""
            t = open_lam(L, [i, j])[3]
            z = sym('z', 'ni')
            if t.op != 'list' or not t.args or t.args[0].op != 'lam' or t.args[0].args[1] or len(t.args) != 2 or len(t.args[1].args[1]) != 1:
                return None
            rest = open_lam(t.args[1], [z])
            b = settle(rest[3], z)
            full = rest[2] is TRUE and same(rest[1][0], sub(d, ONE)) is True
            return t.args[0].args[3], b.args[1] if full and b.op == 'at' and b.args[0] is bit and b.args[2] is z else None
        a, b = sym('a', 'ni'), sym('b', 'ni')
        last = sub(W, ONE)
        sweeps = {}
        for name, i in (('even', mul(num(2), q)), ('odd', add(mul(num(2), q), ONE))):
            r = row(i, a)
            if r is None or r[1] is None:
                rows = [row(num(c), a) for c in range(6)]
                ks = [0 if x is None or x[1] is None else 1 if same(x[1], a) is True else -1 if same(x[1], sub(last, a)) is True else 0 for x in rows]
                rep.ob('steps', name + ' sweeps', False if any(x and x == y for x, y in zip(ks, ks[1:])) else None, init, 'consecutive sweeps run through the code in the same direction')
                return
            rep.ob('cells', name + ' sweeps', same(r[0], i), init, 'the first coordinate is %s in sweep %s' % (show(r[0])[:80], show(i)))
            k = 1 if same(r[1], a) is True else -1 if same(r[1], sub(last, a)) is True else 0
            rep.ob('steps', name + ' sweeps', True if k else False, init, 'a sweep visits word %s at its %s' % (show(r[1])[:100], 'step a'))
            sweeps[name] = k
        if 0 in sweeps.values():
            return
        # the turn at the end of a sweep keeps the word, and the first sweep starts at word zero
        rep.ob('steps', 'turns', sweeps['even'] == -sweeps['odd'], init, 'the first cell of a sweep is not next to the last one of the sweep before')
        first = row(ZERO, ZERO)
        rep.ob('cells', 'origin', None if first is None or first[1] is None else same(first[0], ZERO) is True and same(first[1], ZERO) is True, init, 'the corridor does not start at the origin')
        # the graph
        ev = R.since(n0)
        graphs = [e for e in ev if e.name.rpartition('.')[2] in ('DiGraph',)]
        G = R.closed(R.attr(obj, 'no_walls_graph'))
        rep.ob('graph', 'directed', True if any(e.result is G for e in graphs) or G.op == 'obj' and G.args[0].endswith('DiGraph') else None, init, 'the graph has no directions')
        edges = [e for e in ev if e.recv is G and e.name in ('.add_edges_from', '.add_edge')]
        nodes = [e for e in ev if e.recv is G and e.name in ('.add_nodes_from', '.add_node')]
        rep.ob('graph', 'nodes', None if len(nodes) > 1 or nodes and nodes[0].name != '.add_nodes_from' else same(R.closed(nodes[0].args[0]), v) if nodes else True, init,
               'the nodes are not the cells')
        if not edges:
            rep.ob('graph', 'edges', False, init, 'the graph has no edges')
        elif len(edges) > 1 or edges[0].name != '.add_edges_from':
            rep.ob('graph', 'edges', None, init, 'edges of the graph')
        else:
            E = R.closed(edges[0].args[0])
            ok = E.op == 'list' and len(E.args) == 1 and len(E.args[0].args[1]) == 1
            e = sym('e', 'ni')
            o = open_lam(E.args[0], [e]) if ok else None
            t = o[3] if ok else None
            if not ok or t.op != 'tup' or len(t.args) != 2 or any(x.op != 'nth' or x.args[0] is not L for x in t.args):
                rep.ob('graph', 'edges', None, init, 'edges of the graph')
            else:
                rep.ob('graph', 'edges', same(t.args[0].args[1], e) is True and same(t.args[1].args[1], add(e, ONE)) is True, init,
                       'edge e joins cells %s and %s' % (show(t.args[0].args[1]), show(t.args[1].args[1])))
                rep.ob('graph', 'all edges', same(o[1][0], sub(mul(W, ln), ONE)), init, 'the graph has %s edges' % show(o[1][0]))
    rep.guard('cells', 'corridor', corridor, init)

    def walls(n):
        fd = fdef(repo(), MOD, C + '.distance_to_wall')
        th = sym('thick', 'n')
        x = [sym('x%d' % i, 'x') for i in range(n)]
        sides = [(k, s) for k in range(n) for s in (-1, 1)]
        cases = [((), (b,)) for b in sides] + [((a,), ()) for a in sides] + [((a,), (b,)) for a in sides for b in sides if a != b]
        for before, after in cases:
            R = Run(MOD)
            I = R.I

            def beside(which, sgn):
                def f(I, st, a, k, node):
                    c = [index_arr(I, st, a[1], [num(i)], node) if isinstance(a[1], ArrRef) else I.models.get_item(I, st, a[1], [num(i)], node) for i in range(n)]
                    asked.append([I.closed(st, y) for y in c])
                    return I.list_of(st, [Tup([add(y, num(s)) if i == k else y for i, y in enumerate(c)]) for k, s in which])
                return f
            asked = []
            I.contract_methods[('*', 'predecessors')] = beside(before, -1)
            I.contract_methods[('*', 'successors')] = beside(after, 1)
            obj = R.call(MOD, C, num(n), ln, th, sd)
            X = I.models.NP['array'](I, R.st, [Tup(x)], {}, None)
            v = R.closed(R.method(obj, 'distance_to_wall', X))
            rep.saw(I)
            faces = [(k, s) for k in range(n) for s in (-1, 1) if (k, s) not in before + after]
            ds = [sub(x[k], floor(x[k])) if s < 0 else sub(add(floor(x[k]), ONE), x[k]) for k, s in faces]
            ref = ds[0]
            for y in ds[1:]:
                ref = min2(ref, y)
            name = ', '.join('%s face %d%s' % (w, k, '+' if s > 0 else '-') for w, l in (('from', before), ('to', after)) for k, s in l)
            r = same(v, sub(ref, th))
            if r is False and (has_unknown(v) or any(y.op == 'truth' for y in subterms(v))):
                r = None
            rep.ob('walls', '%d dimensions, %s' % (n, name), r, fd, '' if r is True else 'computes %s' % show(v)[:300])
            rep.count('cells', 1)
    for n in (2, 3) + ((4,) if rep.tier == 'thorough' else ()):
        rep.guard('walls', '%d dimensions' % n, lambda n=n: walls(n), fdef(repo(), MOD, C + '.distance_to_wall'))
