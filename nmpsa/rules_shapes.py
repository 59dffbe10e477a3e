"""Collision tests of the TAMP experiments: separating axes and the motions checked with them."""
import itertools
import os
from fractions import Fraction
from math import gcd

from .checks import *
from . import teval
from .terms import _mk, open_lam, subterms, poly_of, mk_poly
from .values import *

BASE = 'exps/tamp_environment'
BATCH = sym('batch', 'pi')


# ------------------------------------------------------------------------------------------------ canonical literals

def extreme(t, op):
    """the terms a maximum (minimum) ranges over, None when unknown"""
    if t.op == op + '2':
        out = []
        for a in t.args:
            x = extreme(a, op)
            if x is None:
                return None
            out += x
        return out
    if t.op == 'red' and t.args[0] == op:
        l = t.args[1]
        sizes = [cval(s) for s in l.args[1]]
        if l.args[2] is not TRUE or any(s is None or s > 64 for s in sizes):
            return None
        return [open_lam(l, [num(i) for i in ix])[3] for ix in itertools.product(*[range(int(s)) for s in sizes])]
    if t.op in ('max2', 'min2') or t.op == 'red':
        return None
    return [t]


def spread(f):
    """conjuncts of a formula, finite conjunctions written out"""
    if f.op == 'and':
        return [x for a in f.args for x in spread(a)]
    if f.op == 'forall':
        l = f.args[0]
        sizes = [cval(s) for s in l.args[1]]
        if all(s is not None and s <= 64 for s in sizes):
            out = []
            for ix in itertools.product(*[range(int(s)) for s in sizes]):
                _, _, g, b = open_lam(l, [num(i) for i in ix])
                out += spread(orr(nott(g), b))
            return out
    if f.op == 'not' and f.args[0].op == 'or':
        return [x for a in f.args[0].args for x in spread(nott(a))]
    return [f] if f is not TRUE else []


def branches(t):
    """conditions of the case distinctions of a term"""
    return {z.args[0] for z in subterms(t) if z.op == 'ite'}


def choose(t, c, v):
    """the term with a condition decided"""
    return under(t, c if v else nott(c))


def stripped(es):
    """terms without the common positive factor 1/sqrt(d), and d"""
    gone = []
    while True:
        common = None
        for e in es:
            for m in poly_of(e):
                ds = {x for x, p in m if p == Fraction(-1, 2)}
                common = ds if common is None else common & ds
        if not common:
            return es, gone
        d = sorted(common, key=show)[0]
        gone.append(d)
        es = [mk_poly({tuple(z for z in m if z != (d, Fraction(-1, 2))): c for m, c in poly_of(e).items()}) for e in es]


def scaled(es):
    """terms divided by their common rational content"""
    cs = [abs(c) for e in es for c in poly_of(e).values()]
    if not cs:
        return es
    n = 0
    d = 1
    for c in cs:
        n = gcd(n, c.numerator)
        d = d * c.denominator // gcd(d, c.denominator)
    k = Fraction(d, n)
    return [mk_poly({m: c * k for m, c in poly_of(e).items()}) for e in es]


def canon(s1, s2):
    """the literal max s1 >= min s2, up to positive scale and reflection of the axis"""
    es = scaled(list(s1) + list(s2))
    a, b = frozenset(es[:len(s1)]), frozenset(es[len(s1):])
    na, nb = frozenset(sub(ZERO, e) for e in b), frozenset(sub(ZERO, e) for e in a)
    return min((a, b), (na, nb), key=lambda p: (sorted(map(id, p[0])), sorted(map(id, p[1]))))


def literal(f):
    """[(condition, canonical literal, strict, divisors)] of `maximum of a projection >= minimum of the other`, None when not of that form"""
    neg = f.op == 'not'
    g = f.args[0] if neg else f
    if g.op not in ('pos', 'neg'):
        return None
    p = g.args[0]
    # f: p > 0 (pos), p < 0 (neg) or their negations
    strict = not neg
    up = (g.op == 'pos') != neg          # f says p is (at least) positive
    ms = poly_of(p)
    ext = {}
    rest = {}
    for m, c in ms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('red', 'max2', 'min2') and abs(c) == 1:
            ext[m[0][0]] = c if up else -c
        else:
            rest[m] = c
    if len(ext) != 2 or rest:
        return None
    hi = next((t for t, c in ext.items() if c > 0), None)
    lo = next((t for t, c in ext.items() if c < 0), None)
    if hi is None or lo is None:
        return None
    # maximum of one set is at least the minimum of the other
    s1, s2 = extreme(hi, 'max'), extreme(lo, 'min')
    if s1 is None or s2 is None:
        return None
    conds = set()
    for e in s1 + s2:
        conds |= branches(e)
    cases = [(TRUE, s1, s2)]
    for c in conds:
        cases = [(andd(g, c if v else nott(c)), [choose(e, c, v) for e in a], [choose(e, c, v) for e in b]) for g, a, b in cases for v in (True, False)]
    out = []
    for g, a, b in cases:
        if g is FALSE:
            continue
        es, ds = stripped(a + b)
        out.append((g, canon(es[:len(a)], es[len(a):]), strict, ds))
    return out


def positive(g, d):
    """a case in which the square length d of an axis is positive; None when the case speaks of it in another way"""
    r = power(d, num(Fraction(1, 2)))
    if imp(g, lt(ZERO, d)) or imp(g, lt(ZERO, r)) or imp(g, nott(eq(d, ZERO))) or imp(g, nott(eq(r, ZERO))):
        return True
    return False if not ({d, r} | set(z for z in subterms(d) if z.op == 'at')) & set(subterms(g)) else None


def leaves(f):
    return [x for a in f.args for x in leaves(a)] if f.op in ('and', 'or') else [f]


def decide(rep, key, where, body, axes, vanish):
    """body is the conjunction of the overlaps on the axes (name, points of one shape, points of the other)"""
    seen = {}
    clear = True
    for f in spread(body):
        ls = literal(f)
        if ls is None and f.op == 'or' and all(literal(x) is not None for x in leaves(f)):
            rep.ob('axes', '%s condition' % key, False, where, 'shapes overlap although they are apart on an axis, if they overlap on another: %s' % show(f)[:150])
            continue
        if ls is None:
            clear = False
            rep.ob('axes', '%s condition' % key, None, where, 'a condition that is no overlap: %s' % show(f)[:150])
            continue
        for g, l, strict, ds in ls:
            seen.setdefault(l, []).append((g, strict, ds))
    want = {}
    for name, s1, s2 in axes:
        for s, t in ((s1, s2), (s2, s1)):
            want.setdefault(canon(s, t), set()).add(name)
    for l, names in want.items():
        n = sorted(names)[0]
        got = seen.get(l, [])
        ok = bool(got)
        rep.ob('axes', '%s %s' % (key, n), True if ok else False if clear else None, where, 'the projections on the axis %s are not compared' % n)
        if not ok:
            continue
        rep.ob('touching', '%s %s' % (key, n), not any(s for _, s, _ in got), where, 'shapes that touch on the axis %s count as apart' % n)
        for g, _, ds in got:
            if ds and any(x in vanish for x in names):
                d = ds[0]
                rep.ob('vanishing', '%s %s' % (key, n), positive(g, d), where, 'the axis %s is scaled to length one even if it vanishes' % n)
        cs = [g for g, _, _ in got]
        if TRUE not in cs:
            rep.ob('axes', '%s %s always' % (key, n), bool(imp(TRUE, orr(*cs))), where, 'the axis %s is compared only if %s' % (n, show(orr(*cs))[:100]))
    for l, got in seen.items():
        if l not in want:
            rep.ob('axes', '%s other' % key, None, where, 'a comparison on an unknown axis')


# ------------------------------------------------------------------------------------------------ T05

def modules_with(name):
    return [(m, m.functions[name]) for m in sorted(repo().modules.values(), key=lambda m: m.rel) if m.rel.startswith(BASE) and name in m.functions]


def T05(rep):
    rep.rule('axes', 'projections are compared on every edge or face normal of both shapes and, for boxes, on every cross product of their edges')
    rep.rule('touching', 'projections that touch overlap')
    rep.rule('vanishing', 'a vanishing cross product is not scaled to length one')
    rep.rule('vertices', 'the vertices of a box are its centre plus or minus every half extent along its own axis')
    rep.rule('layout', 'a box is stored as centre, half extents and orientation, as the test reads it')
    done = 0
    for m, f in modules_with('vec_separating_axis_theorem'):
        done += 1
        rep.guard('axes', m.rel, lambda: polygons(rep, m, f), m.rel)
    for m, f in modules_with('separating_axis_theorem'):
        if len(f.args.args) == 2 and 'compute_vertices_vectorized' in m.functions:
            done += 1
            rep.guard('axes', m.rel, lambda: boxes(rep, m, f), m.rel)
            rep.guard('vertices', m.rel, lambda: corners(rep, m), m.rel)
            rep.guard('layout', m.rel, lambda: layout(rep, m), m.rel)
    rep.ob('axes', 'collision tests', True if done >= 2 else None, BASE, '%d collision tests found' % done)


def body_of(R, v):
    b = R.closed(v)
    if b.op != 'lam' or len(b.args[1]) != 1 or b.args[2] is not TRUE:
        return None
    return open_lam(b, [sym('entry', 'in')])[3]


def polygons(rep, m, f):
    where = '%s:%d' % (m.rel, f.lineno)
    e = sym('entry', 'in')
    for n in (3, 4, 5, 6, 7) if rep.tier == 'thorough' else (3, 4, 5):
        R = Run(m.name)
        v = R.call(m.name, f.name, R.array('A', BATCH, num(n), num(2)), R.array('B', BATCH, num(n), num(2)))
        rep.saw(R.I)
        body = body_of(R, v)
        key = '%s %d vertices' % (m.rel, n)
        if body is None:
            rep.ob('axes', key, None, where, 'result not resolved')
            continue
        pts = {}
        for x in 'AB':
            A = open_array(R, x)
            pts[x] = [[at(A, e, num(i), num(c)) for c in range(2)] for i in range(n)]
        axes = []
        for x in 'AB':
            for i in range(n):
                p, q = pts[x][i], pts[x][(i + 1) % n]
                d = [sub(q[c], p[c]) for c in range(2)]
                a = [d[1], sub(ZERO, d[0])]
                pr = lambda P: [add(mul(v[0], a[0]), mul(v[1], a[1])) for v in P]
                axes.append(('normal of edge %d of polygon %s' % (i, x), pr(pts['A']), pr(pts['B'])))
        decide(rep, key, where, body, axes, set())
        rep.count('axes', len(axes))


def open_array(R, name):
    return sym(name, 'x')


def boxes(rep, m, f):
    where = '%s:%d' % (m.rel, f.lineno)
    R = Run(m.name)
    v = R.call(m.name, f.name, R.array('A', BATCH, num(15)), R.array('B', BATCH, num(15)))
    rep.saw(R.I)
    body = body_of(R, v)
    if body is None:
        rep.ob('axes', m.rel, None, where, 'result not resolved')
        return
    e = sym('entry', 'in')
    col, pts = {}, {}
    for x in 'AB':
        A = open_array(R, x)
        g = lambda i: at(A, e, num(i))
        col[x] = [[g(6 + 3 * r + c) for r in range(3)] for c in range(3)]
        pts[x] = [[add(g(r), *[mul(num(s[c]), g(3 + c), col[x][c][r]) for c in range(3)]) for r in range(3)] for s in itertools.product((-1, 1), repeat=3)]
    axes = []
    for x in 'AB':
        for c in range(3):
            axes.append(('face normal %d of box %s' % (c, x), col[x][c]))
    crosses = set()
    for i in range(3):
        for j in range(3):
            a, b = col['A'][i], col['B'][j]
            n = 'cross product of edges %d and %d' % (i, j)
            crosses.add(n)
            axes.append((n, [sub(mul(a[(k + 1) % 3], b[(k + 2) % 3]), mul(a[(k + 2) % 3], b[(k + 1) % 3])) for k in range(3)]))
    pr = lambda P, a: [add(*[mul(v[k], a[k]) for k in range(3)]) for v in P]
    decide(rep, m.rel, where, body, [(n, pr(pts['A'], a), pr(pts['B'], a)) for n, a in axes], crosses)
    rep.count('axes', len(axes))


def corners(rep, m):
    f = m.functions['compute_vertices_vectorized']
    where = '%s:%d' % (m.rel, f.lineno)
    R = Run(m.name)
    v = R.call(m.name, f.name, R.array('C', BATCH, num(3)), R.array('H', BATCH, num(3)), R.array('O', BATCH, num(3), num(3)))
    rep.saw(R.I)
    b = R.closed(v)
    e = sym('entry', 'in')
    C, H, O = (open_array(R, x) for x in 'CHO')
    want = {tuple(add(at(C, e, num(r)), *[mul(num(s[c]), at(H, e, num(c)), at(O, e, num(r), num(c))) for c in range(3)]) for r in range(3))
            for s in itertools.product((-1, 1), repeat=3)}
    try:
        x = open_lam(b, [e])[3]
        n = cval(open_lam(x, [ZERO])[1][0])
        got = [tuple(open_lam(open_lam(x, [num(i)])[3], [num(r)])[3] for r in range(3)) for i in range(int(n))]
    except Exception:
        rep.ob('vertices', m.rel, None, where, 'vertices not resolved: %s' % show(b)[:200])
        return
    if any(z.op in ('unk', 'call?') for g in got for t in g for z in subterms(t)):
        rep.ob('vertices', m.rel, None, where, 'vertices not resolved')
        return
    rep.ob('vertices', '%s count' % m.rel, len(got) == 8, where, '%d vertices' % len(got))
    odd = [g for g in got if g not in want]
    rep.ob('vertices', '%s every corner' % m.rel, not want - set(got), where, 'computes the vertex %s' % (', '.join(show(t) for t in odd[0])[:300] if odd else 'of some corner twice'))


def layout(rep, m):
    """a box written as a vector by OBB is read back as the same box"""
    if 'OBB' not in m.classes:
        rep.ob('layout', m.rel, None, m.rel, 'class of boxes not found')
        return
    where = '%s:%d' % (m.rel, m.classes['OBB'].lineno)
    R = Run(m.name)
    I = R.I
    c, h, o = R.array('C', num(3)), R.array('H', num(3)), R.array('O', num(3), num(3))
    b = R.call(m.name, 'OBB', center=c, half_extents=h, orientation=o)
    v = R.closed(R.method(b, 'to_vectorized'))
    rep.saw(I)
    C, H, O = (open_array(R, x) for x in 'CHO')
    want = [at(C, num(i)) for i in range(3)] + [at(H, num(i)) for i in range(3)] + [at(O, num(i), num(j)) for i in range(3) for j in range(3)]
    if v.op != 'lam':
        rep.ob('layout', m.rel, None, where, 'vector not resolved')
        return
    n = open_lam(v, [ZERO])[1][0]
    rep.ob('layout', '%s length' % m.rel, same(n, num(15)), where, 'a box has %s numbers' % show(n))
    for i, w in enumerate(want):
        x = open_lam(v, [num(i)])[3]
        rep.ob('layout', '%s entry %d' % (m.rel, i), same(x, w), where, 'entry %d of a box is %s' % (i, show(x)[:100]))
    # from an oriented bounding box: extents are halved, the rotation is that of the pose
    R = Run(m.name)
    I = R.I
    I.contract_funcs['pybullet_tools.utils.get_aabb_extent'] = lambda I, st, args, kw, node: vec(I, st, 3, lambda i: at(fn('extent', I.closed(st, args[0])), i))
    I.contract_funcs['pybullet_tools.utils.matrix_from_quat'] = lambda I, st, args, kw, node: fn('rotation', I.closed(st, args[0]))
    pos, quat, box = sym('position', 'o'), sym('quaternion', 'o'), sym('aabb', 'o')
    b = I.call(R.st, I.get_attr(R.st, R.get(m.name, 'OBB'), 'from_oobb', None), [Tup([box, Tup([pos, quat])])], {}, None)
    rep.saw(I)
    for a, w in (('center', pos), ('half_extents', None), ('orientation', fn('rotation', quat))):
        x = R.closed(R.attr(b, a))
        if w is None:
            y = open_lam(x, [sym('axis', 'in')])[3] if x.op == 'lam' else at(x, sym('axis', 'in'))
            ok = same(y, div(at(fn('extent', box), sym('axis', 'in')), num(2)))
        else:
            ok = same(x, w)
        rep.ob('layout', '%s %s of a bounding box' % (m.rel, a), ok, where, '%s is %s' % (a, show(x)[:150]))


def vec(I, st, k, f):
    v = fresh_var()
    return I.new_arr(st, [Ax([v], [num(k)])], f(v))


# ------------------------------------------------------------------------------------------------ T07

UTILS = 'pybullet_tools.utils.'
STEP = {2: Fraction(8, 100), 6: Fraction(3, 100)}


def contracts(I):
    """what is assumed of the libraries: boxes and poses are pairs, interpolation lists its poses evenly from the first to the last, the overlap test decides rows"""
    def term(n):
        return lambda I, st, a, k, node: fn(n, *[I.closed(st, x) for x in a], *[I.closed(st, k[x]) for x in sorted(k)])

    def overlap(I, st, args, kw, node):
        a, b = [I.closed(st, x) for x in args[:2]]
        if kw or len(args) != 2 or not all(x.op == 'lam' and len(x.args[1]) == 1 and x.args[2] is TRUE for x in (a, b)):
            return I.unk('overlap of unknown shapes', node)
        e = fresh_var()
        x, y = open_lam(a, [e]), open_lam(b, [e])
        if x[1][0] is not y[1][0]:
            return I.unk('overlap of unknown shapes', node)
        return I.new_arr(st, [Ax([e], [x[1][0]])], pred('overlap', x[3], y[3]))

    def between(I, st, a, k, node):
        n = k.get('num_steps')
        if set(k) != {'num_steps'} or len(a) != 2:
            return I.call_term(UTILS + 'interpolate_poses')
        s, g, n = [I.closed(st, x) for x in list(a) + [n]]
        v, w = fresh_var(), fresh_var()
        return I.new_list(st, [Seg([v], [n], TRUE, _mk('tup', lam((w,), (num(3),), TRUE, at(fn('between position', s, g, v, n), w)), fn('between rotation', s, g, v, n)))])

    def rotation(I, st, args, kw, node):
        v, w = fresh_var(), fresh_var()
        return I.new_arr(st, [Ax([v], [num(3)]), Ax([w], [num(3)])], fn('rotation', I.closed(st, args[0]), v, w))

    def hull(I, st, args, kw, node):
        v, c = fresh_var(), fresh_var()
        return I.new_arr(st, [Ax([v], [num(4)]), Ax([c], [num(2)])], fn('hull', I.closed(st, args[-1]), v, c))

    def part(I, st, o, name, node):
        if name in ('aabb', 'pose'):
            i = 0 if name == 'aabb' else 1
            if isinstance(o, Tup) and len(o.items) == 2:
                return o.items[i]
            if isinstance(o, T) and o.op == 'tup' and len(o.args) == 2:
                return o.args[i]
            if isinstance(o, T) and o.op in ('sym', 'at'):
                return at(o, num(i))
        return None

    for n in ('Pose', 'Point', 'Euler'):
        I.contract_funcs[UTILS + n] = term(n)
    I.contract_funcs[UTILS + 'OOBB'] = lambda I, st, a, k, n: Tup(list(a) + [k[x] for x in ('aabb', 'pose') if x in k])
    I.contract_funcs[UTILS + 'interpolate_poses'] = between
    I.contract_funcs[UTILS + 'get_aabb_extent'] = lambda I, st, a, k, n: vec(I, st, 3, lambda i: fn('extent', I.closed(st, a[0]), i))
    I.contract_funcs[UTILS + 'matrix_from_quat'] = rotation
    I.contract_funcs['tqdm.tqdm'] = lambda I, st, a, k, n: a[0]
    for name in ('vec_separating_axis_theorem', 'separating_axis_theorem'):
        for m, f in modules_with(name):
            I.contract_funcs[(m.name, name)] = overlap
    for m, f in modules_with('hull'):
        I.contract_funcs[(m.name, 'hull')] = hull
    I.contract_methods[(BAG, 'oobb_flat_vertices')] = lambda I, st, a, k, n: fn('outline', I.closed(st, a[-1]))
    I.attr_hook = part


BAG = 'BagOfBoundingBoxes'
NB = sym('obstacles', 'pi')


def obstacle(o):
    w = fresh_var()
    return _mk('tup', at(sym('aabb', 'o'), o), _mk('tup', lam((w,), (num(3),), TRUE, at(sym('position', 'o'), o, w)), at(sym('rotation', 'o'), o)))


def T07(rep):
    rep.rule('every obstacle', 'a motion is free exactly if no obstacle overlaps the moving shape at any checked position')
    rep.rule('obstacle shape', 'the shape tested for an obstacle is the obstacle')
    rep.rule('moving shape', 'the shape tested for the moving body is the body at the checked position of this motion')
    rep.rule('ends', 'the first and the last checked position are the ends of the motion')
    rep.rule('step', 'successive checked positions are at most the step apart: %s' % ', '.join('%s in %d coordinates' % (float(v), k) for k, v in STEP.items()))
    rep.rule('surroundings', 'the environment a motion is planned in holds all obstacles and moves the shape of the moving body')
    from .rules_tamp import worlds
    for W in worlds():
        rep.guard('surroundings', W.dir, lambda: surroundings(rep, W), W.dir)
    done = 0
    for m in sorted(repo().modules.values(), key=lambda m: m.rel):
        if m.rel.startswith(BASE) and BAG in m.classes:
            done += 1
            rep.guard('every obstacle', m.rel, lambda: free(rep, m), m.rel)
    rep.ob('every obstacle', 'worlds', True if done >= 2 else None, BASE, '%d worlds found' % done)


KNOWN = {('fn', n) for n in ('hull', 'outline', 'Pose', 'Point', 'Euler', 'extent', 'rotation', 'between position', 'between rotation')}


def alike(code, ref):
    """equality in which the contracts' functions are free constructors"""
    r = same(code, ref)
    if r is None and logic.understood(code) and vocab(code) <= vocab(ref) | KNOWN and teval.differ(code, ref, TRUE) is True:
        return False
    return r


def clauses(f):
    """[(variables, sizes, guard, atom)] of a conjunction of quantified literals"""
    out = []
    for x in ([f] if f.op != 'and' else f.args):
        if x.op == 'and':
            out += clauses(x)
        elif x.op == 'forall':
            vs, sz, g, b = open_lam(x.args[0])
            out += [(list(vs) + v, list(sz) + s, andd(g, h), a) for v, s, h, a in clauses(b)]
        else:
            out.append(([], [], TRUE, x))
    return out


def free(rep, m):
    cls = m.classes[BAG]
    R = Run(m.name)
    I = R.I
    contracts(I)
    params = [a.arg for a in next(f for f in cls.body if getattr(f, 'name', '') == '__init__').args.args][1:]
    kw = {}
    v = fresh_var()
    boxes = I.new_list(R.st, [Seg([v], [NB], TRUE, obstacle(v))])
    flat = 'robot_shape' in params
    for p in params:
        kw[p] = boxes if 'obstacle' in p else sym(p, 'i' if p == 'seed' else 'o')
    if not any('obstacle' in p for p in params) or not flat and 'start_oobb' not in params:
        rep.ob('every obstacle', m.rel, None, m.rel, 'parameters of the obstacles not recognised')
        return
    env = R.call(m.name, BAG, **kw)
    dim = 2 if flat else 6
    f = m.functions.get(BAG + '.is_motion_valid')
    where = '%s:%d' % (m.rel, f.lineno if f else cls.lineno)
    res = R.method(env, 'is_motion_valid', R.array('S', BATCH, num(dim)), R.array('G', BATCH, num(dim)))
    rep.saw(I)
    b = R.closed(res)
    e = sym('motion', 'in')
    if b.op != 'lam' or len(b.args[1]) != 1:
        rep.ob('every obstacle', m.rel, None, where, 'result not resolved: %s' % show(b)[:200])
        return
    rep.ob('every obstacle', '%s one verdict for every motion' % m.rel, b.args[2] is TRUE and same(open_lam(b, [e])[1][0], BATCH), where, 'not one verdict per motion')
    body = open_lam(b, [e])[3]
    cs = clauses(body)
    S, G = sym('S', 'x'), sym('G', 'x')
    box = sym('obstacle', 'in')
    found = False
    single = all(a.op == 'not' and a.args[0].op == 'pred' and a.args[0].args[0] == 'overlap' and len(vs) < 2 for vs, sz, g, a in cs)
    for vs, sz, g, a in cs:
        if single:
            break
        if a.op != 'not' or a.args[0].op != 'pred' or a.args[0].args[0] != 'overlap' or len(vs) != 2 or NB not in sz:
            rep.ob('every obstacle', '%s condition' % m.rel, None if not wrong(body) else False, where, 'a motion is free if %s' % show(a)[:200])
            continue
        found = True
        o = vs[sz.index(NB)]
        k, n = next((v, s) for v, s in zip(vs, sz) if v is not o)
        ok = imp(andd(lt(o, NB), lt(k, n)), g)
        rep.ob('every obstacle', '%s at every position' % m.rel, True if ok else False if teval.witness(andd(lt(o, NB), lt(k, n), le(ZERO, o), le(ZERO, k), nott(g))) else None, where, 'checked only if %s' % show(g)[:200])
        kk = sym('position', 'in')
        x, y = [subst(z, {o: box, k: kk}) for z in a.args[0].args[1]]
        if box in set(subterms(x)) and box not in set(subterms(y)):
            x, y = y, x
        steps(rep, m, where, n, S, G, e, dim)
        (planar if flat else spatial)(rep, m, where, x, y, n, kk, S, G, e, box)
    rep.ob('every obstacle', m.rel, True if found else False if single or wrong(body) else None, where, 'the verdict does not quantify over obstacles and positions: %s' % show(body)[:200])


def wrong(body):
    """a verdict that speaks of overlaps but is none that they must be absent everywhere"""
    ps = [z for z in subterms(body) if z.op == 'pred' and z.args[0] == 'overlap']
    return bool(ps) and all(z.op in ('unk', 'call?', 'call') for z in subterms(body) if z.op in ('unk', 'call?', 'call')) and not any(z.op in ('unk', 'call?') for z in subterms(body)) or body.op in ('true', 'false')


def written(t):
    """sums of known length written out"""
    for _ in range(8):
        for z in subterms(t):
            if z.op == 'red' and z.args[0] == '+' and z.args[1].args[2] is TRUE and not dangling(z):
                sizes = [cval(s) for s in z.args[1].args[1]]
                if all(s is not None and s <= 16 for s in sizes):
                    t = subst(t, {z: add(*[open_lam(z.args[1], [num(i) for i in ix])[3] for ix in itertools.product(*[range(int(s)) for s in sizes])])})
                    break
        else:
            break
    return t


def steps(rep, m, where, n, S, G, e, dim):
    """n positions, the ends included, are at most the step apart"""
    facts = [le(ZERO, e), lt(e, BATCH)]
    tops = {}
    for z in subterms(n):
        if z.op == 'red' and z.args[0] == 'max':
            sizes = z.args[1].args[1]
            top = sym('maximum%d' % len(tops), 'x')
            tops[z] = top
            for c in range(dim):
                ix = [e if s is BATCH else num(c) for s in sizes]
                if all(s is BATCH or cval(s) is not None and c < cval(s) for s in sizes):
                    facts.append(le(written(open_lam(z.args[1], ix)[3]), top))
    short = subst(n, tops)
    d = [sub(at(G, e, num(c)), at(S, e, num(c))) for c in range(dim)]
    step = num(STEP[dim])
    lengths = [absv(x) for x in d] if dim == 2 else [power(add(*[mul(x, x) for x in d]), num(Fraction(1, 2)))]
    for i, l in enumerate(lengths):
        goal = le(l, mul(step, sub(n, ONE)))
        ok = imp(*facts, le(l, mul(step, sub(short, ONE))))
        if ok is not True:
            ok = False if teval.witness(andd(*facts[:2], nott(goal))) else None
        rep.ob('step', '%s coordinate %d' % (m.rel, i) if dim == 2 else m.rel, ok, where, '%s positions are further apart than %s on a long motion' % (show(n)[:150], float(STEP[dim])))
    ok = imp(*facts, *[le(ZERO, t) for z, t in tops.items() if is_nonneg(z)], le(num(2), short))
    if ok is not True:
        ok = False if teval.witness(andd(*facts[:2], lt(n, num(2)))) else None
    rep.ob('ends', '%s both' % m.rel, ok, where, 'fewer than two positions are checked: %s' % show(n)[:150])


def planar(rep, m, where, x, y, n, k, S, G, e, box):
    v, c = sym('vertex', 'in'), sym('coordinate', 'in')
    px, py = [entry(t, v, c) for t in (x, y)]
    if px is None or py is None:
        rep.ob('moving shape', m.rel, None, where, 'outlines not resolved')
        return
    shape = fn('hull', fn('outline', _mk('tup', sym('robot_shape', 'o'), fn('Pose'))), v, c)
    rep.ob('obstacle shape', m.rel, alike(py, fn('hull', fn('outline', obstacle(box)), v, c)), where, 'an obstacle is tested with the outline %s' % show(py)[:200])
    s, g = at(S, e, c), at(G, e, c)
    for name, i, w in (('first', ZERO, s), ('last', sub(n, ONE), g)):
        rep.ob('ends', '%s %s position' % (m.rel, name), alike(subst(px, {k: i}), add(shape, w)), where, 'the %s position checked is %s' % (name, show(subst(px, {k: i}))[:250]))
    rep.ob('moving shape', m.rel, alike(px, add(shape, s, mul(div(k, sub(n, ONE)), sub(g, s)))), where, 'position checked: %s' % show(px)[:250])


def entry(t, *ix):
    for i in ix:
        if t.op == 'lam' and len(t.args[1]) == 1 and t.args[2] is TRUE:
            t = open_lam(t, [i])[3]
        else:
            return None
    return t


def spatial(rep, m, where, x, y, n, k, S, G, e, box):
    def pose(P):
        g = [at(P, e, num(i)) for i in range(6)]
        return fn('Pose', fn('Point', *g[:3]), fn('Euler', *g[3:]))

    def vector(aabb, pos, rot):
        return [pos(i) for i in range(3)] + [div(fn('extent', aabb, num(i)), num(2)) for i in range(3)] + [fn('rotation', rot, num(i), num(j)) for i in range(3) for j in range(3)]
    ends = [pose(S), pose(G)]
    want = {'obstacle shape': (y, vector(at(sym('aabb', 'o'), box), lambda i: at(sym('position', 'o'), box, num(i)), at(sym('rotation', 'o'), box))),
            'moving shape': (x, vector(at(sym('start_oobb', 'o'), ZERO), lambda i: at(fn('between position', *ends, k, n), num(i)), fn('between rotation', *ends, k, n)))}
    for rule, (t, ws) in want.items():
        for i, w in enumerate(ws):
            z = entry(t, num(i))
            ok = None if z is None else True if z is w else alike(z, w)
            rep.ob(rule, '%s entry %d' % (m.rel, i), ok, where, 'entry %d of the box tested is %s' % (i, show(z)[:250] if z is not None else '?'))
    # interpolation lists both its ends: contract of interpolate_poses; the poses interpolated are those of the motion, checked entry by entry


def surroundings(rep, W):
    """the environment a motion is planned in holds every obstacle, and the shape of what moves"""
    from .rules_tamp import MotionProblem, bound_to, motions
    P = MotionProblem(W)
    R, I = P.R, P.I
    names = {x.name for _, _, _, x in motions(W).values()}
    for s in W.streams:
        for nme, adapter, impl, c in P.stream_map() or ():
            if nme != s.name or s.name not in names or not isinstance(impl, (FuncVal, Bound)):
                continue
            key = '%s stream %s' % (W.dir, s.name)
            st = R.fork()
            n0 = R.mark()
            ins = {x: sym('in:' + x.lstrip('?'), 'o') for x in s.inputs}
            held = next((ins[l.args[0]] for l in s.domain if l.pred.lower() in ('grasp', 'target', 'graspable') and l.args[0] in ins), None)
            I.call(st, impl, list(ins.values()), {'fluents': I.list_of(st, [])} if s.fluents else {}, None)
            ev = R.since(n0)
            for B in [e for e in ev if e.name == 'make:environment']:
                rep.saw(I)
                args = bound_to(W, BAG, B)
                obs = next((v for k, v in args.items() if 'obstacle' in k), None)
                if obs is None:
                    rep.ob('surroundings', key, None, B.where(), 'obstacles of the environment not resolved')
                    continue
                t = I.closed(st, obs)
                ok, why = all_of(I, st, ev, t, ins)
                rep.ob('surroundings', '%s every obstacle' % key, ok, B.where(), why)
                shape = next((v for k, v in args.items() if k in ('robot_shape', 'start_oobb')), None)
                src = source(I, st, ev, I.closed(st, shape)) if shape is not None else None
                want = held if held is not None else next(iter(ins.values()))
                rep.ob('surroundings', '%s shape' % key, None if src is None else src is want, B.where(), 'the shape moved is that of %s' % (show(src) if src is not None else '?'))


def origin(I, st, ev, t):
    """the event that produced a value, and the binders' values in it"""
    for e in ev:
        r = e.result
        if not isinstance(r, T):
            continue
        vs = [v for b in e.binders for v in (b if isinstance(b, (list, tuple)) else [b]) if isinstance(v, T)]
        if r is t:
            return e, {}
        if r.op == t.op and r.op in ('obj', 'call') and r.args[:2] == t.args[:2]:
            p, q = r.args[2:], t.args[2:]
            p = p[0] if p and isinstance(p[0], tuple) else p
            q = q[0] if q and isinstance(q[0], tuple) else q
            if len(p) == len(q):
                return e, {x: y for x, y in zip(p, q) if isinstance(x, T)}
    return None, {}


def source(I, st, ev, t):
    """the body whose extent or bounding box this is"""
    for _ in range(6):
        if t.op == 'sym':
            return t
        e, m = origin(I, st, ev, t)
        if e is None or not e.args:
            return None
        t = subst(I.closed(st, e.args[0]), m)
    return None


def all_of(I, st, ev, t, ins):
    """the obstacles are those known for this body, or one bounding box for each of the problem's obstacles"""
    x = t
    if x.op == 'list' and len(x.args) == 1:
        x = x.args[0]
    if x.op == 'lam':
        vs, sz, g, b = open_lam(x)
        if len(vs) != 1:
            return None, 'obstacles not resolved'
        e, m = origin(I, st, ev, b)
        b = subst(I.closed(st, e.args[0]), m) if e is not None and e.args else b
        if b.op != 'at':
            return None, 'obstacles not resolved: %s' % show(b)[:150]
        full = at(b.args[0], *b.args[1:-1]) if len(b.args) > 2 else b.args[0]
        n = _mk('len', full)
        whole = same(sz[0], n)
        if (b.args[-1] is vs[0] or b.args[-1] is sub(sub(n, ONE), vs[0])) and whole is True and g is TRUE:
            return ('obstacle' in show(full)) or None, 'all of %s' % show(full)[:150]
        if 'obstacle' in show(full) and logic.understood(g):
            return False, 'not every obstacle is in the environment: %s of %s%s' % (show(sz[0])[:100], show(full)[:100], '' if g is TRUE else ' if %s' % show(g)[:100])
        return None, 'obstacles not resolved: %s' % show(t)[:150]
    if x.op == 'at' and x.args[0].op == 'fn' and x.args[0].args[0] == 'mapping':
        return (x.args[-1] in ins.values() and len(x.args) == 2) or None, 'obstacles of %s' % show(x.args[-1])[:150]
    return None, 'obstacles not resolved: %s' % show(t)[:150]
