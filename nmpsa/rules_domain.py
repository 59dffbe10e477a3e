"""The sampling domain and the ground footprints of the environments the TAMP experiments plan motions in."""
from fractions import Fraction

from . import teval
from .checks import *
from .npmodels import sqrt_
from .rules_env import verdict
from .rules_tamp import BASE, MotionProblem, motions, worlds
from .terms import _mk, subterms
from .values import *

UTILS = 'pybullet_tools.utils.'
BAG = 'BagOfBoundingBoxes'
V, BOXES, NB = sym('corner', 'x'), sym('boxes', 'oL'), sym('obstacles', 'ip')
START = [sym('start ' + c, 'x') for c in 'xyz']
MARGIN = sym('margin', 'p')
MM = num(Fraction(1, 1000))
ORDERS = {'vertical neighbours': (0, 0, 1, 1, 2, 2, 3, 3), 'floor first': (0, 1, 2, 3, 0, 1, 2, 3), 'by side': (0, 1, 0, 1, 2, 3, 2, 3), 'around': (2, 0, 0, 2, 3, 1, 3, 1)}
TURN = (2, 0, 3, 1)


def T10(rep):
    rep.rule('bounds', 'on every axis the domain runs from the smallest to the largest coordinate of all corners of all obstacles')
    rep.rule('sample', 'every coordinate of a sample is a uniform draw of its own between the bounds of its own axis')
    rep.rule('outline', 'the outline of a box has each of its four ground corners once')
    rep.rule('hull', 'the hull lists the corners in the order of the convex hull of these corners')
    rep.rule('adaptive', 'the adaptive budget is the sample bound for the dimension that is planned in and a clearance that shrinks as the moving body widens')
    for W in worlds():
        rep.guard('adaptive', W.dir, lambda: adaptive(rep, W), W.dir)
    done = 0
    for m in sorted(repo().modules.values(), key=lambda m: m.rel):
        if m.rel.startswith(BASE) and BAG in m.classes:
            done += 1
            rep.guard('bounds', m.rel, lambda: domain(rep, m), m.rel)
            if BAG + '.oobb_flat_vertices' in m.functions:
                rep.guard('outline', m.rel, lambda: outline(rep, m), m.rel)
            if 'hull' in m.functions:
                rep.guard('hull', m.rel, lambda: in_order(rep, m), m.rel)
    rep.ob('bounds', 'worlds', True if done >= 2 else None, BASE, '%d worlds found' % done)


def unit_draws(I, made):
    """global draws: low + (high - low) * standard uniform"""
    def draw(I, st, node, lo, hi, n=None):
        e = I.event(st, 'unit draw', None, [], {}, node, I.call_term('unit draw'))
        made.append(e)
        u = e.result
        return add(lo, mul(sub(hi, lo), u))

    def uniform(I, st, a, k, node):
        d = dict(zip(('a', 'b'), a))
        d.update(k)
        return draw(I, st, node, I.closed(st, d['a']), I.closed(st, d['b']))
    I.contract_funcs['random.uniform'] = uniform
    I.contract_funcs['random.random'] = lambda I, st, a, k, node: draw(I, st, node, ZERO, ONE)


def environment(m, corners):
    R = Run(m.name)
    I = R.I
    cls = m.classes[BAG]
    params = [a.arg for a in next(f for f in cls.body if getattr(f, 'name', '') == '__init__').args.args][1:]
    I.contract_funcs[UTILS + 'get_oobb_vertices'] = corners

    def part(I, st, o, name, node):
        if isinstance(o, Tup) and len(o.items) == 2 and name in ('aabb', 'pose'):
            return o.items[name == 'pose']
        return None
    I.attr_hook = part
    v = fresh_var()
    kw = {}
    for p in params:
        kw[p] = I.new_list(R.st, [Seg([v], [NB], TRUE, at(BOXES, v))]) if 'obstacle' in p else MARGIN if p == 'theta_margin' \
            else Tup([sym('start box', 'o'), Tup([Tup(START), sym('start turn', 'o')])]) if p == 'start_oobb' else sym(p, 'i' if p == 'seed' else 'o')
    return R, kw, params


def made_without_outlines(R, m, kw):
    I = R.I
    I.contract_methods[(BAG, 'oobb_flat_vertices')] = lambda I, st, a, k, n: sym('outline', 'o')
    I.contract_funcs[(m.name, 'hull')] = lambda I, st, a, k, n: sym('hull', 'o')
    env = R.call(m.name, BAG, **kw)
    del I.contract_methods[(BAG, 'oobb_flat_vertices')], I.contract_funcs[(m.name, 'hull')]
    return env


def domain(rep, m):
    def corners(I, st, a, k, node):
        o, v = I.closed(st, a[0]), fresh_var()
        return I.new_list(st, [Seg((v,), (num(8),), TRUE, Tup([at(V, o, v, num(j)) for j in range(3)]))])
    R, kw, params = environment(m, corners)
    I = R.I
    made = []
    unit_draws(I, made)
    env = made_without_outlines(R, m, kw)
    n0 = R.mark()
    s = R.method(env, 'sample_from_env')
    rep.saw(I)
    f = m.functions.get(BAG + '.sample_from_env')
    where = '%s:%d' % (m.rel, f.lineno if f else m.classes[BAG].lineno)
    b, k = fresh_var(), fresh_var()
    refs = []
    for j in range(3):
        lo = red('min', lam((b, k), (NB, num(8)), TRUE, at(V, at(BOXES, b), k, num(j))))
        hi = red('max', lam((b, k), (NB, num(8)), TRUE, at(V, at(BOXES, b), k, num(j))))
        if 'start_oobb' in params:
            lo, hi = min2(lo, START[j]), max2(hi, START[j])
        refs.append((lo, hi))
    refs = refs + [(neg(MARGIN), MARGIN)] * 3 if 'start_oobb' in params else refs[:2]
    names = ['x', 'y', 'z', 'roll', 'pitch', 'yaw']
    n = I.length(R.st, s)
    verdict(rep, 'sample', '%s coordinates' % m.rel, R.closed(n), num(len(refs)), where)
    if cval(R.closed(n)) != len(refs):
        return
    used = []
    for j, (lo, hi) in enumerate(refs):
        x = R.closed(I.models.get_item(I, R.st, s, [num(j)], None))
        key = '%s %s' % (m.rel, names[j])
        us = draws(x, R.since(n0))
        if len(us) != 1:
            rep.ob('sample', key, False if not us and logic.understood(x) else None, where, 'not one draw: %s' % show(x)[:300])
            continue
        u = us[0]
        U = sym('fraction', 'x')
        y = subst(x, {u: U})
        z0, z1 = subst(y, {U: ZERO}), subst(y, {U: ONE})
        verdict(rep, 'bounds', key + ' lower', z0, lo, where)
        verdict(rep, 'bounds', key + ' upper', z1, hi, where)
        verdict(rep, 'sample', key + ' uniform', y, add(z0, mul(sub(z1, z0), U)), where)
        if u in used:
            rep.ob('sample', key + ' own draw', False, where, 'shares its draw with another coordinate')
        else:
            rep.ob('sample', key + ' own draw', True, where, '')
        used.append(u)


def draws(x, ev):
    """the draws a value is built from, vector draws with their index"""
    rs = {e.result for e in ev if isinstance(e.result, T) and (e.name == 'unit draw' or e.name.endswith(('.uniform', '.random', '.random_sample', '.rand')))}
    out = []
    for y in subterms(x):
        if y in rs and not any(z.op == 'at' and z.args[0] is y for z in subterms(x)) or y.op == 'at' and y.args[0] in rs:
            if y not in out:
                out.append(y)
    return out


SHAPES = {'2 m by 1 m': ((-1, Fraction(-1, 2)), (-1, Fraction(1, 2)), (1, Fraction(-1, 2)), (1, Fraction(1, 2))),
          'turned': ((0, 0), (Fraction(3, 5), Fraction(4, 5)), (Fraction(-4, 5), Fraction(3, 5)), (Fraction(-1, 5), Fraction(7, 5))),
          '4 mm by 2 m': ((0, 0), (0, 2), (Fraction(4, 1000), 0), (Fraction(4, 1000), 2)),
          '30 m by 2 m': ((0, 0), (0, 2), (30, 0), (30, 2))}


def listed(R, m, kw, points):
    """[(guard, point)] of the outline of a box with these corners"""
    I = R.I
    I.contract_funcs[UTILS + 'get_oobb_vertices'] = lambda I, st, a, k, node: I.list_of(
        st, [Tup([p[0], p[1], p[2] if len(p) > 2 else sym('z%d' % i, 'x')]) for i, p in enumerate(points)])
    env = made_without_outlines(R, m, kw)
    v = R.method(env, 'oobb_flat_vertices', sym('box', 'o'))
    if R.closed(v).op == 'unk' and R.closed(v).args[0] == 'does not return':
        return ()
    ps = I.domains(R.st, v, None)
    if ps is None or any(p[0] for p in ps):
        return None
    return [(p[2], R.closed(p[3])) for p in ps]


def apart(p, q):
    return le(MM, sqrt_(add(mul(sub(p[0], q[0]), sub(p[0], q[0])), mul(sub(p[1], q[1]), sub(p[1], q[1])))))


def outline(rep, m):
    f = m.functions[BAG + '.oobb_flat_vertices']
    where = '%s:%d' % (m.rel, f.lineno)
    # four corners anywhere more than a millimetre apart, and one corner of the other side of the box above one of them
    corner = [[sym('%s%d' % (c, i), 'x') for c in 'xy'] for i in range(4)]
    above = [sym(c + ' above', 'x') for c in 'xy']
    for twin, place in ((0, 1), (0, 4), (2, 3), (2, 4), (3, 4)):
        R, kw, params = environment(m, None)
        pts = corner[:place] + [above] + corner[place:]
        got = listed(R, m, kw, pts)
        rep.saw(R.I)
        key = '%s corner above corner %d, listed as %d' % (m.rel, twin, place)
        if got is None:
            rep.ob('outline', key, None, where, 'not resolved')
            continue
        facts = [apart(corner[i], corner[j]) for i in range(4) for j in range(i)]
        facts += [nott(apart(above, corner[i])) if i == twin else apart(above, corner[i]) for i in range(4)]
        known = {a: v for x in facts for a, v in ((x, TRUE), (nott(x), FALSE))}
        ok = True
        kept = []
        for g, p in got:
            g = subst(g, known)
            if g is FALSE:
                continue
            ok = ok and (True if g is TRUE else None)
            kept.append(p)
        ok = ok and (True if same_points(kept, corner) else None)
        rep.ob('outline', key, ok, where, 'kept: %s' % [(show(subst(g, known))[:400], show(p)[:60]) for g, p in got])
    # boxes of given shapes anywhere: all eight corners
    cx = sym('x', 'x')
    cy, cz = add(cx, num(17)), add(cx, num(-23))
    for name, shape in SHAPES.items():
        for oname, order in ORDERS.items():
            pts, seen = [], set()
            for g in order:
                j = num(Fraction(1, 100000)) if g in seen else ZERO
                pts.append([add(cx, num(shape[g][0]), j), add(cy, num(shape[g][1])), add(cz, ONE if g in seen else ZERO)])
                seen.add(g)
            R, kw, params = environment(m, None)
            got = listed(R, m, kw, pts)
            key = '%s box %s, corners %s' % (m.rel, name, oname)
            if got == ():
                rep.ob('outline', key, False, where, 'no outline is returned for this box')
                continue
            if got is None or any(g not in (TRUE, FALSE) for g, p in got):
                rep.ob('outline', key, None, where, 'not resolved')
                continue
            kept = [p for g, p in got if g is TRUE]
            want = [[add(cx, num(x)), add(cy, num(y))] for x, y in shape]
            ok = same_points(kept, want, Fraction(1, 10000))
            rep.ob('outline', key, ok, where, 'the outline is %s' % [show(p) for p in kept])


def same_points(kept, want, tol=0):
    """the same points, each once, in any order; None when they cannot be compared"""
    left = list(want)
    for p in kept:
        if p.op not in ('tup', 'lam'):
            return None
        xs = list(p.args[:2]) if p.op == 'tup' else [at(p, num(j)) for j in range(2)]
        hit = None
        for w in left:
            d = [sub(a, b) for a, b in zip(xs, w)]
            if all(cval(z) is not None and abs(cval(z)) <= tol for z in d):
                hit = w
                break
        if hit is None:
            return False
        left.remove(hit)
    return not left


def in_order(rep, m):
    f = m.functions['hull']
    where = '%s:%d' % (m.rel, f.lineno)
    R = Run(m.name)
    I = R.I
    pts = [Tup([sym('x%d' % i, 'x'), sym('y%d' % i, 'x')]) for i in range(4)]
    R_ = R

    def convex(I, st, a, k, node):
        ps = I.domains(st, a[0], None)
        if ps is None or len(ps) != 4 or any(I.closed(st, p[3]) is not I.closed(st, q) for p, q in zip(ps, pts)):
            return I.unk('hull of other points', node)
        return sym('convex hull', 'o')
    I.contract_funcs['scipy.spatial.ConvexHull'] = convex
    I.attr_hook = lambda I, st, o, name, node: I.models.NP['array'](I, st, [Tup([num(i) for i in TURN])], {}, None) \
        if isinstance(o, T) and o is sym('convex hull', 'o') and name == 'vertices' else None
    v = R.call(m.name, 'hull', I.list_of(R.st, pts))
    rep.saw(I)
    n = I.length(R.st, v)
    verdict(rep, 'hull', '%s corners' % m.rel, R.closed(n), num(4), where)
    if cval(R.closed(n)) != 4:
        return
    for i, t in enumerate(TURN):
        x = I.models.get_item(I, R.st, v, [num(i)], None)
        for j in range(2):
            verdict(rep, 'hull', '%s corner %d %s' % (m.rel, i, 'xy'[j]), R.closed(I.models.get_item(I, R.st, x, [num(j)], None)), R.closed(pts[t].items[j]), where)


def adaptive(rep, W):
    P = MotionProblem(W)
    R, I = P.R, P.I
    names = {x.name for _, _, _, x in motions(W).values()}
    found = 0
    for s in W.streams:
        for nme, ad, impl, c in P.stream_map() or ():
            if nme != s.name or nme not in names or not isinstance(impl, (FuncVal, Bound)):
                continue
            st = R.fork()
            n0 = R.mark()
            I.call(st, impl, [sym('in:' + x.lstrip('?'), 'o') for x in s.inputs], {'fluents': I.list_of(st, [])} if s.fluents else {}, None)
            rep.saw(I)
            for e in R.since(n0):
                if e.name != 'bound':
                    continue
                found += 1
                pars = [x.arg for x in repo().modules['nonasymptotic.bound'].functions['compute_numerical_bound'].args.args]
                a = dict(zip(pars, [I.closed(st, x) for x in e.args]))
                a.update({k: I.closed(st, x) for k, x in e.kw.items()})
                clearance, prob, volume, dim = [a.get(p) for p in pars[:4]]
                key = '%s stream %s' % (W.dir, s.name)
                verdict(rep, 'adaptive', key + ' dimension', dim, num(P.dim), e.where())
                ok = None if prob is None or cval(prob) is None else 0 < cval(prob) < 1
                rep.ob('adaptive', key + ' probability', ok, e.where(), 'success probability %s' % (show(prob) if prob is not None else '?'))
                if clearance is not None:
                    shrinks(rep, key, clearance, e.where())
                over = [x for x in subterms(volume) if x.op == 'red' and len(x.args[1].args[1]) == 1] if volume is not None else []
                box = [x for x in subterms(volume) if x.op == 'attr' and x.args[1] == 'bounds'] if over else []
                if len(set(box)) == 1 and len(over) == 1:
                    v = fresh_var()
                    ref = red('*', lam((v,), (over[0].args[1].args[1][0],), TRUE, sub(at(box[0], v, ONE), at(box[0], v, ZERO))))
                    verdict(rep, 'adaptive', key + ' volume', volume, ref, e.where())
    rep.ob('adaptive', W.dir, True if found else None, W.dir, '%d sample bounds' % found)


def shrinks(rep, key, t, where):
    """the clearance is linear, falls with the extent of one body and grows with the recorded gap"""
    coef = {}
    for m, c in poly_of(t).items():
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], T):
            coef[m[0][0]] = c
    side = {}
    for a, c in coef.items():
        if a.op == 'at' and len(a.args) == 2 and a.args[0].op == 'attr' and a.args[0].args[1] in ('upper', 'lower'):
            side.setdefault((a.args[0].args[0], a.args[1]), {})[a.args[0].args[1]] = c
    wide = [d for d in side.values() if len(d) == 2 and d['upper'] == -d['lower']]
    ok = wide[0]['upper'] < 0 if len(wide) == 1 else None
    if ok is None and side and all(len(d) == 2 and d['upper'] == d['lower'] for d in side.values()):
        ok = False
    rep.ob('adaptive', key + ' body', ok, where, 'the clearance is %s' % show(t)[:300])
    gap = [c for a, c in coef.items() if a.op == 'attr' and 'gap' in str(a.args[1])]
    if gap:
        rep.ob('adaptive', key + ' gap', gap[0] > 0, where, 'the clearance is %s' % show(t)[:300])
