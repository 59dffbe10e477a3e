"""Placements and arm configurations offered to the TAMP planners."""
from fractions import Fraction

from . import teval
from .checks import *
from .rules_env import verdict
from .rules_tamp import BASE, Problem, worlds
from .terms import _mk, open_lam, subterms
from .values import *

UTILS = 'pybullet_tools.utils.'
MOVES = {'set_pose', 'set_joint_positions', 'set_joint_position', 'set_configuration', 'assign'}


class Sim:
    """contracts of the simulator calls placements are built on; what is where is the result of the last call that moved something"""

    def __init__(self, I):
        self.I, self.last = I, fn('as found')
        self.tests = []
        for name in ('sample_placement', 'inverse_kinematics'):
            I.contract_funcs[UTILS + name] = self.solver(name)
        for name in ('set_pose', 'set_joint_positions'):
            I.contract_funcs[UTILS + name] = self.mover(name)
        I.contract_funcs[UTILS + 'pairwise_collision'] = self.collision

    def solver(self, name):
        def f(I, st, a, k, node):
            r = I.call_term(name, 'oN') if False else I.call_term(name)
            I.event(st, name, None, a, k, node, r)
            self.last = r
            return r
        return f

    def mover(self, name):
        def f(I, st, a, k, node):
            e = I.event(st, name, None, a, k, node, I.call_term(name))
            self.last = fn('moved', e.result, *[I.closed(st, x) for x in a])
            return NONE
        return f

    def collision(self, I, st, a, k, node):
        d = I.closed(st, k.get('max_distance', a[2] if len(a) > 2 else ZERO))
        t = pred('touch', I.closed(st, a[0]), I.closed(st, a[1]), self.last, *(() if cval(d) == 0 else (d,)))
        self.tests.append(t)
        return t


def primitives():
    return [m for m in sorted(repo().modules.values(), key=lambda m: m.rel) if m.rel.startswith(BASE) and 'get_ik_fn' in m.functions]


def T09(rep):
    rep.rule('clear', 'a placement is offered only if one was found and the body, put there, touches no fixed body and no obstacle given')
    rep.rule('placed', 'the placement offered is the one sampled for that body on that surface, on the link of the surface')
    rep.rule('reachable', 'a configuration is returned only for a solved attempt in which the robot touches no fixed body, and none only if every attempt failed')
    rep.rule('configuration', 'it is the solution for the tool link of the grasp at the approach of that grasp of the object in that pose')
    for m in primitives():
        for name in ('get_fixed_stable_gen', 'get_stable_gen'):
            if name in m.functions:
                rep.guard('clear', '%s %s' % (m.rel, name), lambda: generator(rep, m, name), m.rel)
        rep.guard('reachable', m.rel, lambda: reachable(rep, m), m.rel)
    rep.rule('resting', 'a body sampled onto a box is centred over the box shrunk by half its extent, with its underside just above the top of the box')
    rep.rule('each clear', 'bodies placed one after the other are each left where they touch neither obstacles nor what was placed before, within the distance asked for')
    for m in sorted(repo().modules.values(), key=lambda m: m.rel):
        if m.rel.startswith(BASE) and 'sample_placement_on_aabb' in m.functions:
            rep.guard('resting', m.rel, lambda: resting(rep, m), m.rel)
        if m.rel.startswith(BASE) and 'sample_placements' in m.functions:
            rep.guard('each clear', m.rel, lambda: each(rep, m), m.rel)
    rep.rule('start', 'every movable body of the scene starts where a placement clear of the fixed bodies and of those placed before was found, and was reachable there')
    for m in sorted(repo().modules.values(), key=lambda m: m.rel):
        if m.rel.startswith(BASE) and 'load_world' in m.functions and m.rel.endswith('/run.py'):
            rep.guard('start', m.rel, lambda: start(rep, m), m.rel)
    rep.rule('standing', 'the configuration certified to reach an object of the hallway is a copy of the initial one at the ground position of the object')
    W = next(W for W in worlds() if W.name.startswith('turtlebot'))
    rep.guard('standing', W.dir, lambda: standing(rep, W), W.dir)
    rep.ob('reachable', 'modules', True if primitives() else None, BASE, 'no primitives found')


NF, NO = sym('number fixed', 'in'), sym('number of obstacles', 'in')


def several(R, name, n):
    v = fresh_var()
    return R.I.new_list(R.st, [Seg((v,), (n,), TRUE, at(sym(name, 'oL'), v))])


def clear(what, here, groups):
    """what touches none of the bodies where it is put by here"""
    out = []
    for name, n in groups:
        v = fresh_var()
        out.append(forall(lam((v,), (n,), TRUE, nott(pred('touch', what, at(sym(name, 'oL'), v), here)))))
    return andd(*out)


def positional(f, skip, e):
    """arguments of a call by the names of the parameters of what is called"""
    a = f.args
    names = [x.arg for x in a.posonlyargs + a.args][skip:]
    d = dict(zip(names, e.args))
    d.update(e.kw)
    return d


def record(R, m, cls, fields):
    """objects of a class as terms of the given constructor parameters"""
    f = m.functions.get(cls + '.__init__')

    def make(I, st, a, k, node):
        names = [x.arg for x in f.args.args][1:] if f is not None else list(fields)
        d = dict(zip(names, a))
        d.update(k)
        r = fn(cls, *[I.closed(st, d[x]) if x in d else NONE for x in fields])
        I.event(st, 'made ' + cls, None, a, k, node, r)
        return r
    R.I.contract_funcs[(m.name, cls)] = make


def generator(rep, m, name):
    f = m.functions[name]
    where = '%s:%d' % (m.rel, f.lineno)
    key = '%s %s' % (m.rel, name)
    R = Run(m.name)
    I = R.I
    Sim(I)
    record(R, m, 'BodyPose', ('body', 'pose'))
    body, surface = sym('body', 'o'), sym('surface', 'o')
    links = I.new_dict(R.st, [(surface, sym('link', 'o'), TRUE)])
    gen = R.call(m.name, name, several(R, 'fixed', NF), links)
    n0 = R.mark()
    I.call(R.st, gen, [body, surface, several(R, 'obstacle', NO)], {}, None)
    rep.saw(I)
    ev = R.since(n0)
    sampled = [e for e in ev if e.name == 'sample_placement']
    ys = [e for e in ev if e.name == 'yield']
    for j, e in enumerate(ys):
        k = '%s %d' % (key, j)
        v = e.args[0]
        b = I.closed(R.st, v.items[0] if isinstance(v, Tup) and len(v.items) == 1 else v)
        if b.op != 'fn' or b.args[0] != 'BodyPose':
            rep.ob('placed', k, None, e.where(), 'offers %s' % show(b)[:200])
            continue
        who, pose = b.args[1]
        src = [x for x in sampled if x.result is pose]
        rep.ob('placed', k, who is body and bool(src) if logic.understood(b) else None, e.where(), 'offers %s' % show(b)[:200])
        if not src:
            continue
        a = dict(zip(('top_body', 'bottom_body', 'bottom_link'), [I.closed(R.st, x) for x in src[0].args]))
        a.update({x: I.closed(R.st, y) for x, y in src[0].kw.items()})
        link = a.get('bottom_link', NONE)
        on = a.get('top_body') is body and a.get('bottom_body') is surface
        rep.ob('placed', k + ' surface', on, src[0].where(), 'sampled for %s on %s' % (show(a.get('top_body')), show(a.get('bottom_body'))))
        verdict(rep, 'placed', k + ' link', link, sym('link', 'o'), src[0].where())
        found = nott(isnone(pose))
        goal = andd(found, clear(body, pose, (('fixed', NF), ('obstacle', NO))))
        holds(rep, 'clear', k, e, goal, src[0].pc)
    rep.ob('clear', key, True if ys else None, where, 'nothing is offered')


def holds(rep, rule, key, e, goal, before=TRUE):
    """the event happens exactly under the condition (given that what it is about was reached)"""
    r = imp(e.pc, goal)
    rep.ob(rule, key + ' only if', r, e.where(), 'happens if %s' % show(e.pc)[:300])
    q = imp(andd(before, goal), e.pc)
    rep.ob(rule, key + ' whenever', q, e.where(), 'happens only if %s' % show(e.pc)[:300])


def reachable(rep, m):
    f = m.functions['get_ik_fn']
    where = '%s:%d' % (m.rel, f.lineno)
    key = '%s get_ik_fn' % m.rel
    R = Run(m.name)
    I = R.I
    Sim(I)
    record(R, m, 'BodyConf', ('body', 'configuration'))
    for n in ('end_effector_from_body', 'approach_from_grasp'):
        I.contract_funcs[UTILS + n] = lambda I, st, a, k, node, n=n: fn(n, *[I.closed(st, x) for x in a])
    robot, body, pose, grasp, num_ = sym('robot', 'o'), sym('body', 'o'), sym('pose', 'o'), sym('grasp', 'o'), sym('attempts', 'in')
    for randomize in (TRUE, FALSE):
        n0 = R.mark()
        v = R.closed(R.call(m.name, 'get_ik_fn', robot, body, pose, grasp, fixed=several(R, 'fixed', NF), num_attempts=num_, randomize=randomize))
        rep.saw(I)
        ev = R.since(n0)
        k = '%s %s' % (key, 'random starts' if randomize is TRUE else 'one start')
        confs = [e for e in ev if e.name == 'made BodyConf']
        iks = {e.result: e for e in ev if e.name == 'inverse_kinematics'}
        if len(confs) != 1 or len(iks) != 1:
            rep.ob('configuration', k, False if not confs and logic.understood(v) else None, where, '%d configurations, %d solutions' % (len(confs), len(iks)))
            continue
        C, (q, K) = confs[0], next(iter(iks.items()))
        verdict(rep, 'configuration', k + ' solution', C.result, fn('BodyConf', robot, q), C.where())
        for x, y, n in zip(K.args, (robot, at_attr(grasp, 'link'), fn('approach_from_grasp', at_attr(grasp, 'approach_pose'), fn(
                'end_effector_from_body', at_attr(pose, 'pose'), at_attr(grasp, 'grasp_pose')))), ('robot', 'link', 'target')):
            verdict(rep, 'configuration', '%s %s' % (k, n), I.closed(R.st, x), y, K.where())
        goal = andd(nott(isnone(q)), clear(robot, q, (('fixed', NF),)))
        holds(rep, 'reachable', k, C, goal, K.pc)
        b = [x for x in K.binders]
        if len(b) != 1 or not logic.understood(v):
            rep.ob('reachable', k + ' none', None, where, 'result %s' % show(v)[:300])
            continue
        w = fresh_var()
        verdict(rep, 'reachable', k + ' attempts', b[0][1], num_, K.where())
        verdict(rep, 'reachable', k + ' none', subst(isnone(v), {isnone(x): FALSE for x in subterms(v) if x.op not in ('ite',) and made_of(x)}), forall(lam((w,), (num_,), TRUE, subst(nott(goal), {b[0][0]: w}))), where)
        outs = [x for x in subterms(v) if x.op == 'fn' and x.args[0] == 'BodyConf']
        rep.ob('configuration', k + ' returned', True if outs else False, where, 'returns %s' % show(v)[:300])


def at_attr(o, name):
    return _mk('attr', o, name)


def made_of(x):
    """an element chosen among objects that are never None"""
    return x.op == 'first' and [y for y in subterms(x) if y.op == 'fn' and y.args[0] == 'BodyConf'] and open_lam(x.args[0], [fresh_var() for _ in x.args[0].args[1]])[3].op == 'fn'


BOX = [[sym('%s %s' % (n, c), 'x') for c in 'xyz'] for n in ('lower', 'upper')]


class Table(Sim):
    """one body with a box around it, put on the top of another box"""

    def __init__(self, I):
        super().__init__(I)
        self.pose = None
        C = I.contract_funcs
        C[UTILS + 'unit_pose'] = lambda I, st, a, k, n: fn('pose', ZERO, ZERO, ZERO, fn('turn', ZERO))
        C[UTILS + 'Euler'] = lambda I, st, a, k, n: fn('turn', I.closed(st, k.get('yaw', a[2] if len(a) > 2 else ZERO))) \
            if all(cval(I.closed(st, x)) == 0 for x in [y for z, y in k.items() if z != 'yaw'] + list(a[:2])) else I.unk('turn', n)
        C[UTILS + 'Point'] = lambda I, st, a, k, n: Tup([dict(zip('xyz', a), **k).get(c, ZERO) for c in 'xyz'])
        C[UTILS + 'Pose'] = self.make
        C[UTILS + 'multiply'] = self.compose
        C[UTILS + 'set_pose'] = self.put
        C[UTILS + 'get_point'] = lambda I, st, a, k, n: self.vec(I, st, [self.part(j) for j in range(3)])
        C[UTILS + 'get_center_extent'] = lambda I, st, a, k, n: Tup([self.vec(I, st, [self.centre(j) for j in range(3)]), self.vec(I, st, [self.extent(j) for j in range(3)])])
        C[UTILS + 'AABB'] = lambda I, st, a, k, n: Tup(list(a) + [k[x] for x in ('lower', 'upper') if x in k])
        C[UTILS + 'aabb_empty'] = lambda I, st, a, k, n: self.test(I, st, a[0])
        C[UTILS + 'sample_aabb'] = self.draw
        I.attr_hook = lambda I, st, o, name, n: o.items[name == 'upper'] if isinstance(o, Tup) and len(o.items) == 2 and name in ('lower', 'upper') else None

    def vec(self, I, st, xs):
        return I.models.NP['array'](I, st, [Tup(xs)], {}, None)

    def coords(self, I, st, v):
        n = cval(I.closed(st, I.length(st, v)))
        return [I.closed(st, I.models.get_item(I, st, v, [num(j)], None)) for j in range(int(n))] if n is not None else None

    def make(self, I, st, a, k, n):
        d = dict(zip(('point', 'euler'), a))
        d.update(k)
        p = d.get('point')
        xs = [ZERO] * 3 if p is None or p is NONE else self.coords(I, st, p)
        t = d.get('euler')
        t = fn('turn', ZERO) if t is None or t is NONE else I.closed(st, t)
        return fn('pose', *xs, t) if xs is not None and len(xs) == 3 else I.unk('pose', n)

    def compose(self, I, st, a, k, n):
        p, q = [I.closed(st, x) for x in a]
        if any(x.op != 'fn' or x.args[0] != 'pose' for x in (p, q)):
            return fn('composed', p, q)
        (*px, pt), (*qx, qt) = p.args[1], q.args[1]
        level = fn('turn', ZERO)
        if pt is level:
            return fn('pose', *[add(x, y) for x, y in zip(px, qx)], qt)
        if qt is level and all(x is ZERO for x in qx):
            return p
        return fn('composed', p, q)

    def put(self, I, st, a, k, n):
        self.pose = I.closed(st, a[1])
        I.event(st, 'put', None, a, k, n, NONE)
        return NONE

    def part(self, j):
        p = self.pose
        return p.args[1][j] if p is not None and p.op == 'fn' and p.args[0] == 'pose' else fn('position', num(j), p if p is not None else fn('as found'))

    def turn(self):
        p = self.pose
        return p.args[1][3] if p is not None and p.op == 'fn' and p.args[0] == 'pose' else fn('turn of', p if p is not None else fn('as found'))

    def centre(self, j):
        return add(self.part(j), fn('offset', self.turn(), num(j)))

    def extent(self, j):
        return fn('extent', self.turn(), num(j))

    def test(self, I, st, box):
        xs = [self.coords(I, st, x) for x in box.items] if isinstance(box, Tup) else [None]
        return pred('empty', *[y for x in xs for y in x]) if None not in xs else I.unk('box', None)

    def draw(self, I, st, a, k, n):
        box = a[0]
        xs = [self.coords(I, st, x) for x in box.items] if isinstance(box, Tup) else [None]
        if None in xs or len(xs) != 2:
            return I.unk('draw from an unknown box', n)
        e = I.event(st, 'drawn', None, [], {}, n, I.call_term('drawn'))
        return self.vec(I, st, [fn('within', lo, hi, at(e.result, num(j))) for j, (lo, hi) in enumerate(zip(*xs))])


def resting(rep, m):
    f = m.functions['sample_placement_on_aabb']
    where = '%s:%d' % (m.rel, f.lineno)
    key = '%s sample_placement_on_aabb' % m.rel
    eps, part = sym('epsilon', 'p'), sym('percent', 'p')
    R = Run(m.name)
    I = R.I
    T_ = Table(I)
    body = sym('body', 'o')
    T_.pose = fn('pose', *[sym('old ' + c, 'x') for c in 'xyz'], fn('turn', sym('old turn', 'x')))
    box = Tup([T_.vec(I, R.st, x) for x in BOX])
    n0 = R.mark()
    tilt = fn('turn', sym('tilt', 'x'))
    v = R.call(m.name, 'sample_placement_on_aabb', body, box, top_pose=fn('pose', ZERO, ZERO, ZERO, tilt), max_attempts=ONE, epsilon=eps, percent=part)
    rep.saw(I)
    v = R.closed(v)
    poses = {x for x in subterms(v) if x.op == 'fn' and x.args[0] == 'pose'}
    if len(poses) != 1 or not logic.understood(v):
        rep.ob('resting', key, None, where, 'returns %s' % show(v)[:300])
        return
    pose = poses.pop()
    *at_, turn = pose.args[1]
    verdict(rep, 'resting', key + ' orientation', turn, tilt, where)
    if turn is not tilt:
        return
    half = [mul(part, mul(num(Fraction(1, 2)), fn('extent', tilt, num(j)))) for j in range(3)]
    lo, hi = [add(BOX[0][j], half[j]) for j in range(2)], [sub(BOX[1][j], half[j]) for j in range(2)]
    for j in range(2):
        c = add(at_[j], fn('offset', tilt, num(j)))
        ws = {x for x in subterms(c) if x.op == 'fn' and x.args[0] == 'within'}
        if len(ws) != 1:
            rep.ob('resting', '%s %s drawn' % (key, 'xy'[j]), None if ws else False, where, 'the centre is at %s' % show(c)[:300])
            continue
        w = ws.pop()
        verdict(rep, 'resting', '%s %s drawn' % (key, 'xy'[j]), at_[j], sub(w, fn('offset', tilt, num(j))), where)
        verdict(rep, 'resting', '%s %s from' % (key, 'xy'[j]), w.args[1][0], lo[j], where)
        verdict(rep, 'resting', '%s %s to' % (key, 'xy'[j]), w.args[1][1], hi[j], where)
    rest = sub(mul(num(Fraction(1, 2)), fn('extent', tilt, num(2))), fn('offset', tilt, num(2)))
    verdict(rep, 'resting', key + ' underside', at_[2], add(BOX[1][2], eps, rest), where)
    puts = [e for e in R.since(n0) if e.name == 'put']
    last = puts[-1] if puts else None
    got = I.closed(R.st, last.args[1]) if last is not None else NONE
    verdict(rep, 'resting', key + ' left there', got, pose, last.where() if last is not None else where)
    rep.ob('resting', key + ' body', last is not None and I.closed(R.st, last.args[0]) is body, where, 'another body is moved')
    empty = pred('empty', *lo, *hi)
    verdict(rep, 'resting', key + ' none', isnone(v), empty, where)


def each(rep, m):
    f = m.functions['sample_placements']
    where = '%s:%d' % (m.rel, f.lineno)
    key = '%s sample_placements' % m.rel
    R = Run(m.name)
    I = R.I
    sim = Sim(I)
    I.contract_funcs[(m.name, 'sample_placement')] = sim.solver('sample_placement')
    bs, ss = [num(11 + i) for i in range(3)], [sym('surface %d' % i, 'o') for i in range(3)]
    ds = [sym('distance %d' % i, 'p') for i in range(3)]
    d = I.new_dict(R.st, [(b, s, TRUE) for b, s in zip(bs, ss)])
    dist = I.new_dict(R.st, list(zip(bs, ds, [TRUE] * 3)))
    n0 = R.mark()
    v = R.closed(R.call(m.name, 'sample_placements', d, obstacles=several(R, 'obstacle', NO), min_distances=dist))
    rep.saw(I)
    tries = [e for e in R.since(n0) if e.name == 'sample_placement']
    who = [tuple(I.closed(R.st, x) for x in e.args[:2]) for e in tries]
    ok = who == list(zip(bs, ss))
    rep.ob('each clear', key + ' bodies', ok if len(tries) == 3 else None, where, 'sampled in turn: %s' % [[show(y) for y in x] for x in who])
    if not ok:
        return
    spots = [e.result for e in tries]
    verdict(rep, 'each clear', key + ' result', v, andd(*[nott(isnone(x)) for x in spots]), where)
    for k in range(2):
        after = tries[k + 1]
        free = []
        o = fresh_var()
        ob = at(sym('obstacle', 'oL'), o)
        free.append(forall(lam((o,), (NO,), TRUE, orr(eq(ob, bs[k]), eq(ob, ss[k]), nott(pred('touch', bs[k], ob, spots[k], ds[k]))))))
        for i in range(k):
            free.append(orr(eq(bs[i], bs[k]), eq(bs[i], ss[k]), nott(pred('touch', bs[k], bs[i], spots[k], ds[k]))))
        for g, what in [(nott(isnone(spots[k])), 'found')] + [(x, 'clear of %s' % ('the obstacles' if j == 0 else 'body %d' % (j - 1))) for j, x in enumerate(free)]:
            rep.ob('each clear', '%s body %d %s' % (key, k, what), imp(after.pc, g), after.where(), 'the next body is placed once %s' % show(after.pc)[:400])


def standing(rep, W):
    P = Problem(W)
    R, I = P.R, P.I
    POSE, XYZ = sym('in:pose', 'o'), [sym('object ' + c, 'x') for c in 'xyz']
    old = I.attr_hook

    def hook(I, st, o, name, node):
        if o is POSE and name in ('pose', 'value'):
            return Tup([Tup(XYZ), sym('object turn', 'o')])
        return old(I, st, o, name, node) if old else None
    I.attr_hook = hook
    done = 0
    for s in W.streams:
        confs = [x for x in s.outputs if any(l.pred == 'conf' and l.args[-1] == x for l in s.certified)]
        poses = [l.args[-1] for l in s.domain if l.pred == 'pose']
        if len(confs) != 1 or len(poses) != 1:
            continue
        for nme, ad, impl, c in P.stream_map() or ():
            if nme != s.name:
                continue
            done += 1
            key = '%s stream %s' % (W.dir, s.name)
            st = R.fork()
            n0 = R.mark()
            I.call(st, impl, [POSE if x == poses[0] else sym('in:' + x.lstrip('?'), 'o') for x in s.inputs], {}, None)
            rep.saw(I)
            ev = R.since(n0)
            outs = [e for e in ev if e.name.endswith('.Output')]
            if len(outs) != 1 or len(outs[0].args) != 1:
                rep.ob('standing', key, None, W.stream_rel, '%d outputs' % len(outs))
                continue
            E = outs[0]
            q = I.closed(st, E.args[0])
            sets = [e for e in ev if e.name == 'setattr:values' and I.closed(st, e.recv) is q]
            copies = {e.result: I.closed(st, e.args[0]) for e in ev if e.name == 'copy'}
            init = at_attr(sym('problem', 'o'), 'init_conf')
            own = q in copies
            rep.ob('standing', key + ' copy', True if own else False if q.op == 'attr' else None, E.where(), 'returns %s' % show(q)[:200])
            if len(sets) != 1:
                rep.ob('standing', key + ' position', False if not sets and own and not any(e.name.startswith('setattr') for e in ev) else None, E.where(), 'position set %d times' % len(sets))
                continue
            v = sets[0].args[0]
            n = cval(I.closed(st, I.length(st, v)))
            rep.ob('standing', key + ' coordinates', None if n is None else n == 2, sets[0].where(), '%s coordinates' % n)
            if n == 2:
                for j in range(2):
                    verdict(rep, 'standing', '%s %s' % (key, 'xy'[j]), I.closed(st, I.models.get_item(I, st, v, [num(j)], None)), XYZ[j], sets[0].where())
    rep.ob('standing', W.dir, True if done else None, W.stream_rel, 'no stream that certifies a configuration for an object found')


def start(rep, m):
    f = m.functions['load_world']
    where = '%s:%d' % (m.rel, f.lineno)
    key = '%s load_world' % m.rel
    R = Run(m.name)
    I = R.I
    sim = Sim(I)
    gens = []

    def stable(I, st, a, k, n):
        d = dict(zip(('fixed', 'links'), a))
        d.update(k)
        name = 'placement generator %d' % len(gens)
        gens.append((I.closed(st, d.get('fixed', NONE)), I.closed(st, d.get('links', NONE))))

        def gen(I, st, a, k, n, g=len(gens) - 1):
            d = dict(zip(('body', 'surface', 'obstacles'), a))
            d.update(k)
            obs = I.static_items(st, d['obstacles']) if d.get('obstacles') is not None else []
            return_ = I.call_term('placements')
            I.event(st, 'stable', None, [num(g), I.closed(st, d['body']), Tup([I.closed(st, x) for x in obs]) if obs is not None else NONE], {}, n, return_)
            return return_
        I.contract_funcs['placements.g%d' % (len(gens) - 1)] = gen
        return Ext('placements.g%d' % (len(gens) - 1))

    def ik(I, st, a, k, n):
        d = dict(zip(('robot', 'body', 'pose', 'grasp', 'fixed'), a))
        d.update(k)
        r = I.call_term('arm configuration')
        I.event(st, 'ik', None, [I.closed(st, d[x]) if x in d else NONE for x in ('robot', 'body', 'pose', 'grasp', 'fixed')], {}, n, r)
        return r
    for p in primitives():
        for n in ('get_stable_gen', 'get_fixed_stable_gen'):
            I.contract_funcs[(p.name, n)] = stable
        I.contract_funcs[(p.name, 'get_ik_fn')] = ik
    v = R.call(m.name, 'load_world', min_gap=sym('gap', 'p'))
    rep.saw(I)
    if not isinstance(v, Tup) or len(v.items) != 6:
        rep.ob('start', key, None, where, 'the scene returned is not resolved')
        return
    movable = I.static_items(R.st, v.items[2])
    fixed = I.closed(R.st, v.items[4])
    links = I.closed(R.st, v.items[5])
    if movable is None:
        rep.ob('start', key, None, where, 'the movable bodies are not resolved')
        return
    movable = [I.closed(R.st, x) for x in movable]
    ev = sorted(R.since(0), key=lambda e: e.seq)
    rounds = [e for e in ev if e.name == 'stable']
    bins = [e.result for e in ev if e.name.endswith('.createMultiBody') and not e.binders]
    held = I.static_items(R.st, v.items[4])
    if held is not None and bins:
        out = [x for x in bins if x not in [I.closed(R.st, y) for y in held]]
        rep.ob('start', key + ' bins are fixed', not out, where, 'bins that nothing is kept clear of: %s' % [show(x) for x in out])
    ok = [e.args[1] for e in rounds] == movable
    rep.ob('start', key + ' every body', ok if logic.understood(_mk('tup', *[e.args[1] for e in rounds])) else None, where,
           'placed in turn: %s; movable: %s' % ([show(e.args[1]) for e in rounds], [show(x) for x in movable]))
    if not ok:
        return
    for j, e in enumerate(rounds):
        k = '%s body %d' % (key, j)
        until = rounds[j + 1].seq if j + 1 < len(rounds) else 10 ** 9
        mine = [x for x in ev if e.seq < x.seq < until]
        nxt = next((x for x in mine if x.name == 'next'), None)
        sets = [x for x in mine if x.name == 'set_pose']
        iks = [x for x in mine if x.name == 'ik']
        obs = e.args[2]
        if isinstance(obs, Tup):
            missing = [x for x in movable[:j] if x not in obs.items]
            rep.ob('start', k + ' clear of the others', not missing, e.where(), 'not kept clear of %s' % [show(x) for x in missing])
        else:
            rep.ob('start', k + ' clear of the others', None, e.where(), 'obstacles not resolved')
        g = gens[int(cval(e.args[0]))]
        verdict(rep, 'start', k + ' fixed bodies', g[0], fixed, e.where())
        verdict(rep, 'start', k + ' surface links', g[1], links, e.where())
        if nxt is None or len(sets) != 1 or len(iks) != 1:
            rep.ob('start', k, None, e.where(), '%d poses set, %d configurations sought' % (len(sets), len(iks)))
            continue
        pose = at(nxt.result, ZERO)
        S, K = sets[0], iks[0]
        verdict(rep, 'start', k + ' put there', _mk('tup', *[I.closed(R.st, x) for x in S.args[:2]]), _mk('tup', movable[j], _mk('attr', pose, 'value')), S.where())
        verdict(rep, 'start', k + ' reached there', _mk('tup', *K.args[1:3]), _mk('tup', movable[j], pose), K.where())
        verdict(rep, 'start', k + ' reached past the fixed bodies', K.args[4], fixed, K.where())
        rep.ob('start', k + ' put before it is reached', S.seq < K.seq, K.where(), 'the reach is tested before the body is put')
        if j + 1 < len(rounds):
            rep.ob('start', k + ' reachable', imp(rounds[j + 1].pc, nott(isnone(K.result))), rounds[j + 1].where(), 'the next body is placed once %s' % show(rounds[j + 1].pc)[:300])
