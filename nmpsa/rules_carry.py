"""T11: grasps and the motions of the carrying robot: what holds an object, what moves, what a motion hits."""
import ast

from .checks import *
from .rules_env import verdict
from .rules_tamp import BASE
from .rules_place import UTILS, record, several
from .terms import _mk, open_lam, subterms
from .values import *

BODY, ROBOT, LINK = sym('body', 'o'), sym('robot', 'o'), sym('tool link', 'o')
CENTRE = [sym('centre %s' % c, 'x') for c in 'xyz']
SIZE = [sym('size %s' % c, 'p') for c in 'xyz']
ID = ((1, 0, 0), (0, 1, 0), (0, 0, 1))


def primitives():
    return [m for m in sorted(repo().modules.values(), key=lambda m: m.rel) if m.rel.startswith(BASE) and 'get_grasp_gen' in m.functions]


def T11(rep):
    rep.rule('above', 'every grasp holds the object from straight above: hand pointing down, over the centre of the object, at its top')
    rep.rule('turns', 'the grasps are the four quarter turns about the vertical, each once')
    rep.rule('offered', 'every grasp is offered for that body, on the tool link of the robot, with a straight retreat upwards')
    rep.rule('attached', 'a grasp attaches its body to the link of its robot at its pose')
    rep.rule('reverse', 'a reversed command plays every configuration of every path backwards, with the same body, joints and attachments, and detaches what was attached')
    rep.rule('refine', 'a refined command keeps every step in order, each path refined for its own body and joints with the stated number of steps, holding what it held')
    rep.rule('moving', 'the bodies a motion moves are its own body and every attached one')
    rep.rule('hit', 'a motion hits an object exactly if at some configuration a body it moves touches the object in the given pose; what it moves it cannot hit')
    rep.rule('state', 'poses and configurations put their own body where they say, and default to where it is')
    for m in primitives():
        for rule, f in (('above', grasps), ('attached', attached), ('reverse', reverse), ('refine', refine), ('hit', hits), ('state', states)):
            rep.guard(rule, m.rel, lambda: f(rep, m), m.rel)
    rep.ob('above', 'modules', True if primitives() else None, BASE, 'no grasps found')


# ------------------------------------------------------------------------------------------------ rigid motions

class Rigid:
    """poses as a rotation by quarter turns and a translation"""

    def __init__(self, I):
        self.poses = {}
        self.record = record_class('GraspInfo')
        C = I.contract_funcs
        self.I = I
        C[UTILS + 'Pose'] = self.make
        C[UTILS + 'unit_pose'] = lambda I, st, a, k, n: self.term(ID, [ZERO] * 3)
        C[UTILS + 'Point'] = lambda I, st, a, k, n: self.vec(I, st, [dict(zip('xyz', a), **k).get(c, ZERO) for c in 'xyz'])
        C[UTILS + 'Euler'] = lambda I, st, a, k, n: Tup([dict(zip(('roll', 'pitch', 'yaw'), a), **k).get(c, ZERO) for c in ('roll', 'pitch', 'yaw')])
        C[UTILS + 'multiply'] = self.compose
        C[UTILS + 'point_from_pose'] = lambda I, st, a, k, n: self.vec(I, st, self.poses[I.closed(st, a[0])][1]) if I.closed(st, a[0]) in self.poses else I.unk('point', n)
        C[UTILS + 'approximate_as_prism'] = lambda I, st, a, k, n: Tup([self.vec(I, st, CENTRE), Tup(SIZE)])
        C[UTILS + 'GraspInfo'] = self.info
        C[UTILS + 'get_body_name'] = lambda I, st, a, k, n: string('iiwa14')
        C[UTILS + 'link_from_name'] = lambda I, st, a, k, n: fn('link', *[I.closed(st, x) for x in a])

    def info(self, I, st, a, k, n):
        o = Obj(fresh_id(), self.record)
        for x, v in dict(zip(('get_grasps', 'approach_pose'), a), **k).items():
            I.set_attr(st, o, x, v, None)
        return o

    def vec(self, I, st, xs):
        return I.models.NP['array'](I, st, [Tup(list(xs))], {}, None)

    def coords(self, I, st, v):
        n = cval(I.closed(st, I.length(st, v)))
        return [I.closed(st, I.models.get_item(I, st, v, [num(j)], None)) for j in range(int(n))] if n is not None else None

    def term(self, rot, t):
        r = fn('rigid', *[num(x) for row in rot for x in row], *t)
        self.poses[r] = (rot, list(t))
        return r

    def make(self, I, st, a, k, n):
        d = dict(zip(('point', 'euler'), a))
        d.update(k)
        p, e = d.get('point'), d.get('euler')
        t = [ZERO] * 3 if p is None or p is NONE else self.coords(I, st, p)
        rot = ID
        if e is not None and e is not NONE:
            es = self.coords(I, st, e)
            q = [quarter(x) for x in es] if es is not None else [None]
            if None in q or len(q) != 3:
                return I.unk('rotation', n)
            rot = mul3(mul3(about(2, q[2]), about(1, q[1])), about(0, q[0]))
        return self.term(rot, t) if t is not None and len(t) == 3 else I.unk('pose', n)

    def compose(self, I, st, a, k, n):
        rot, t = ID, [ZERO] * 3
        for x in a:
            x = I.closed(st, x)
            if x not in self.poses:
                return I.unk('composed with %s' % show(x)[:40], n)
            r2, t2 = self.poses[x]
            t = [add(t[i], turned(rot, t2)[i]) for i in range(3)]
            rot = mul3(rot, r2)
        return self.term(rot, t)


def record_class(name):
    """a class without code of its own, to hold plain fields"""
    return ClassVal(ast.parse('class %s: pass' % name).body[0], primitives()[0], name, [])


def quarter(x):
    c = cval(div(x, PI)) if x is not ZERO else 0
    return int(2 * c) % 4 if c is not None and (2 * c) % 1 == 0 else None


def about(axis, q):
    c, s = ((1, 0), (0, 1), (-1, 0), (0, -1))[q]
    i, j = ((1, 2), (2, 0), (0, 1))[axis]
    m = [list(r) for r in ID]
    m[i][i], m[i][j], m[j][i], m[j][j] = c, -s, s, c
    return tuple(map(tuple, m))


def mul3(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def turned(rot, t):
    out = []
    for i in range(3):
        s = ZERO
        for k in range(3):
            s = add(s, mul(num(rot[i][k]), t[k]))
        out.append(s)
    return out


def grasps(rep, m):
    f = m.functions['get_grasp_gen']
    where = '%s:%d' % (m.rel, f.lineno)
    R = Run()
    I = R.I
    G = Rigid(I)
    record(R, m, 'BodyGrasp', ('body', 'grasp_pose', 'approach_pose', 'robot', 'link'))
    I.load(R.st, m.name)
    gen = R.call(m.name, 'get_grasp_gen', ROBOT)
    n0 = R.mark()
    I.call(R.st, gen, [BODY], {}, None)
    rep.saw(I)
    ys = [e for e in R.since(n0) if e.name == 'yield']
    made = []
    for e in ys:
        v = e.args[0]
        b = I.closed(R.st, v.items[0] if isinstance(v, Tup) and len(v.items) == 1 else v)
        made.append((e, b))
    if not made or any(b.op != 'fn' or b.args[0] != 'BodyGrasp' for _, b in made):
        rep.ob('offered', m.rel, None if made else False, where, 'offers %s' % [show(b)[:100] for _, b in made])
        return
    seen = []
    for j, (e, b) in enumerate(made):
        body, pose, back, robot, link = b.args[1]
        key = '%s grasp %d' % (m.rel, j)
        w = e.where()
        verdict(rep, 'offered', key + ' body', body, BODY, w)
        verdict(rep, 'offered', key + ' robot', robot, ROBOT, w)
        verdict(rep, 'offered', key + ' link', link, fn('link', ROBOT, string('iiwa_link_ee_kuka')), w) if link.op == 'fn' and link.args[0] == 'link' \
            else rep.ob('offered', key + ' link', None if has_unknown(link) else False, w, 'on link %s' % show(link)[:80])
        if back in G.poses:
            rot, t = G.poses[back]
            z = cval(t[2])
            rep.ob('offered', key + ' retreat', False if rot != ID else None if z is None else t[0] is ZERO and t[1] is ZERO and z > 0, w, 'retreats by %s' % show(back))
        else:
            rep.ob('offered', key + ' retreat', None, w, 'retreats by %s' % show(back)[:100])
        ok = e.pc is TRUE or widest(e.pc)
        rep.ob('offered', key + ' always', ok, w, 'offered only if %s' % show(e.pc)[:200])
        if pose not in G.poses:
            rep.ob('above', key, None, w, 'holds at %s' % show(pose)[:200])
            continue
        rot, t = G.poses[pose]
        rep.ob('above', key + ' downwards', rot[2] == (0, 0, -1), w, 'the vertical axis of the object is turned to %s' % (tuple(r[2] for r in rot),))
        at_ = [add(a, b_) for a, b_ in zip(turned(rot, CENTRE), t)]
        for c, x, y in zip(('x', 'y', 'z'), at_, (ZERO, ZERO, div(SIZE[2], num(2)))):
            verdict(rep, 'above', '%s centre %s' % (key, c), x, y, w)
        seen.append((rot[0][0], rot[1][0]))
    if len(seen) == len(made):
        rep.ob('turns', m.rel, len(seen) == 4 and len(set(seen)) == 4, where, 'turned to %s' % sorted(seen))
    rep.count('grasps', len(made))


def exact(rep, rule, key, x, y, where):
    """values that are only passed along"""
    ok = True if x is y else None if has_unknown(x) or any(z.op in ('ite', 'call') for z in subterms(x)) and not has_none(x) else False
    rep.ob(rule, key, ok, where, '' if ok else 'is %s, expected %s' % (show(x)[:200], show(y)[:200]))


def has_none(x):
    return x is NONE


def widest(c):
    """true for objects of every width: the width allowed is unbounded"""
    inf = [x for x in subterms(c) if x.op == 'inf' or x.op == 'sym' and 'INF' in str(x.args[0]) or x.op == 'ext']
    if imp(andd(*[lt(s, i) for s in SIZE for i in inf]), c) is True:
        return True
    return False if not inf and logic.understood(c) else None


# ------------------------------------------------------------------------------------------------ what holds

def attached(rep, m):
    f = m.functions['BodyGrasp.attachment']
    where = '%s:%d' % (m.rel, f.lineno)
    R = Run(m.name)
    I = R.I
    I.contract_funcs[UTILS + 'Attachment'] = lambda I, st, a, k, n: fn('attachment', *[I.closed(st, dict(zip(('parent', 'parent_link', 'grasp_pose', 'child'), a), **k).get(x, NONE)) for x in ('parent', 'parent_link', 'grasp_pose', 'child')])
    pose, back = sym('grasp pose', 'o'), sym('approach', 'o')
    g = R.call(m.name, 'BodyGrasp', BODY, pose, back, ROBOT, LINK)
    ref = fn('attachment', ROBOT, LINK, pose, BODY)
    exact(rep, 'attached', m.rel, R.closed(R.method(g, 'attachment')), ref, where)
    for n, x in (('value', pose), ('approach', back)):
        if 'BodyGrasp.' + n in m.functions:
            exact(rep, 'attached', '%s %s' % (m.rel, n), R.closed(R.attr(g, n)), x, where)
    n0 = R.mark()
    R.method(g, 'assign')
    rep.saw(I)
    es = [e for e in R.since(n0) if e.name == '.assign']
    ok = len(es) == 1 and es[0].pc is TRUE and same(R.closed(es[0].recv), ref) is True
    rep.ob('attached', m.rel + ' assign', True if ok else False if not es else None, where, 'assigning a grasp moves %s' % [show(R.closed(e.recv))[:80] for e in es])


def states(rep, m):
    R = Run(m.name)
    I = R.I
    C = I.contract_funcs
    for n in ('set_pose', 'set_joint_positions'):
        C[UTILS + n] = lambda I, st, a, k, node, n=n: (I.event(st, n, None, a, k, node, NONE), NONE)[1]
    for n in ('get_pose', 'get_movable_joints', 'get_joint_positions'):
        C[UTILS + n] = lambda I, st, a, k, node, n=n: fn(n, *[I.closed(st, x) for x in list(a) + list(k.values())])
    pose, conf, joints = sym('some pose', 'o'), sym('some configuration', 'o'), sym('joints', 'o')
    free = fn('get_movable_joints', BODY)
    for cls, args, call, want in (
            ('BodyPose', (BODY, pose), 'set_pose', (BODY, pose)),
            ('BodyPose', (BODY,), 'set_pose', (BODY, fn('get_pose', BODY))),
            ('BodyConf', (BODY, conf, joints), 'set_joint_positions', (BODY, joints, conf)),
            ('BodyConf', (BODY, conf), 'set_joint_positions', (BODY, free, conf)),
            ('BodyConf', (BODY, NONE, joints), 'set_joint_positions', (BODY, joints, fn('get_joint_positions', BODY, joints))),
            ('BodyConf', (BODY,), 'set_joint_positions', (BODY, free, fn('get_joint_positions', BODY, free)))):
        f = m.functions.get(cls + '.assign')
        where = '%s:%d' % (m.rel, f.lineno) if f is not None else m.rel
        key = '%s %s of %s' % (m.rel, cls, ', '.join(map(show, args)))
        o = R.call(m.name, cls, *args)
        n0 = R.mark()
        r = R.closed(R.method(o, 'assign'))
        es = [e for e in R.since(n0) if e.name in ('set_pose', 'set_joint_positions')]
        if len(es) != 1 or es[0].name != call or len(es[0].args) != len(want):
            rep.ob('state', key, False if not es else None, where, 'assigning sets %s' % [e.name for e in es])
            continue
        for i, (x, y) in enumerate(zip(es[0].args, want)):
            exact(rep, 'state', '%s argument %d' % (key, i), R.closed(x), y, es[0].where())
        exact(rep, 'state', key + ' value', r, want[-1], where)
    rep.saw(I)
    # attaching and detaching on the real robot
    for n in ('add_fixed_constraint', 'remove_fixed_constraint'):
        C[UTILS + n] = lambda I, st, a, k, node, n=n: (I.event(st, n, None, a, k, node, NONE), NONE)[1]
    for cls, call in (('Attach', 'add_fixed_constraint'), ('Detach', 'remove_fixed_constraint')):
        f = m.functions.get(cls + '.control')
        where = '%s:%d' % (m.rel, f.lineno) if f is not None else m.rel
        o = R.call(m.name, cls, BODY, ROBOT, LINK)
        n0 = R.mark()
        R.method(o, 'control')
        es = [e for e in R.since(n0) if e.name.endswith('fixed_constraint')]
        ok = len(es) == 1 and es[0].name == call and [R.closed(x) for x in es[0].args[:3]] == [BODY, ROBOT, LINK]
        rep.ob('state', '%s %s' % (m.rel, cls), ok if ok or all(logic.understood(R.closed(x)) for e in es for x in e.args) else None, where, '%s calls %s' % (cls, [e.name for e in es]))


# ------------------------------------------------------------------------------------------------ commands

def part(i):
    return lambda k: sym('%s%d' % (k, i), 'oL' if k == 'path' else 'o')


def count_(i):
    return sym('configurations %d' % i, 'in')


def command(R, m, attach=True):
    I = R.I
    ps = []
    for i in range(2):
        s = part(i)
        grasp = [sym('grasp%d' % i, 'o')] if i == 0 else []
        ps.append(R.call(m.name, 'BodyPath', s('body'), several(R, 'path%d' % i, count_(i)), joints=s('joints'), attachments=I.list_of(R.st, grasp)))
    if attach:
        ps.insert(1, R.call(m.name, 'Attach', BODY, ROBOT, LINK))
        ps.append(R.call(m.name, 'Detach', BODY, ROBOT, LINK))
    return R.call(m.name, 'Command', I.list_of(R.st, ps))


def reverse(rep, m):
    f = m.functions['Command.reverse']
    where = '%s:%d' % (m.rel, f.lineno)
    R = Run(m.name)
    I = R.I
    back = R.method(command(R, m), 'reverse')
    rep.saw(I)
    its = I.static_items(R.st, I.resolve(R.attr(back, 'body_paths'), R.st.pc)) if isinstance(back, Obj) else None
    if its is None or not all(isinstance(x, Obj) for x in its):
        rep.ob('reverse', m.rel, None, where, 'reversed command not resolved')
        return
    kinds = [x.cls.name if hasattr(x.cls, 'name') else str(x.cls).split('.')[-1] for x in its]
    ok = kinds == ['Attach', 'BodyPath', 'Detach', 'BodyPath']
    rep.ob('reverse', m.rel + ' order', ok, where, 'reversed to %s' % kinds)
    if not ok:
        return
    for x, i in ((its[1], 1), (its[3], 0)):
        s = part(i)
        for k in ('body', 'joints'):
            verdict(rep, 'reverse', '%s path %d %s' % (m.rel, i, k), R.closed(R.attr(x, k)), s(k), where)
        at_ = R.closed(R.attr(x, 'attachments'))
        verdict(rep, 'reverse', '%s path %d attachments' % (m.rel, i), at_, R.closed(I.list_of(R.st, [sym('grasp0', 'o')] if i == 0 else [])), where)
        p = R.attr(x, 'path')
        j = fresh_var()
        n = count_(i)
        ln = I.closed(R.st, I.length(R.st, p))
        verdict(rep, 'reverse', '%s path %d length' % (m.rel, i), ln, n, where)
        item = I.closed(R.st, I.models.get_item(I, R.st, p, [j], None))
        verdict(rep, 'reverse', '%s path %d' % (m.rel, i), item, at(s('path'), sub(sub(n, ONE), j)), where)
    for x in (its[0], its[2]):
        for k, y in (('body', BODY), ('robot', ROBOT), ('link', LINK)):
            verdict(rep, 'reverse', '%s %s %s' % (m.rel, kinds[its.index(x)], k), R.closed(R.attr(x, k)), y, where)


def refine(rep, m):
    f = m.functions.get('Command.refine')
    if f is None:
        return
    where = '%s:%d' % (m.rel, f.lineno)
    R = Run(m.name)
    I = R.I
    steps = sym('steps', 'in')
    I.contract_funcs[UTILS + 'refine_path'] = lambda I, st, a, k, n: fn('refined', *[I.closed(st, dict(zip(('body', 'joints', 'waypoints', 'num_steps'), a), **k).get(x, NONE)) for x in ('body', 'joints', 'waypoints', 'num_steps')])
    c = command(R, m)
    old = [R.closed(R.attr(x, 'path')) if isinstance(x, Obj) and x.cls.name == 'BodyPath' else None for x in R.I.static_items(R.st, I.resolve(R.attr(c, 'body_paths'), R.st.pc))]
    new = R.method(c, 'refine', num_steps=steps)
    rep.saw(I)
    its = I.static_items(R.st, I.resolve(R.attr(new, 'body_paths'), R.st.pc)) if isinstance(new, Obj) else None
    if its is None or not all(isinstance(x, Obj) for x in its):
        rep.ob('refine', m.rel, None, where, 'refined command not resolved')
        return
    kinds = [x.cls.name for x in its]
    ok = kinds == ['BodyPath', 'Attach', 'BodyPath', 'Detach']
    rep.ob('refine', m.rel + ' order', ok, where, 'refined to %s' % kinds)
    if not ok:
        return
    for x, i, path in ((its[0], 0, old[0]), (its[2], 1, old[2])):
        s = part(i)
        for k in ('body', 'joints'):
            verdict(rep, 'refine', '%s path %d %s' % (m.rel, i, k), R.closed(R.attr(x, k)), s(k), where)
        exact(rep, 'refine', '%s path %d' % (m.rel, i), R.closed(R.attr(x, 'path')), fn('refined', s('body'), s('joints'), path, steps), where)
        verdict(rep, 'refine', '%s path %d attachments' % (m.rel, i), R.closed(R.attr(x, 'attachments')), R.closed(I.list_of(R.st, [sym('grasp0', 'o')] if i == 0 else [])), where)


def members(R, v):
    """the elements of a set or list made of single values, as terms; None when not known"""
    v = R.I.resolve(v, R.st.pc)
    if isinstance(v, ListRef):
        lv = R.st.cells[('L', v.id)]
        if lv.phi is None and all(s.unit() for s in lv.segs):
            return {R.closed(s.value) for s in lv.segs}
    its = R.I.static_items(R.st, v)
    return {R.closed(x) for x in its} if its is not None else None


G0 = sym('grasp0', 'o')
HELD = _mk('attr', G0, 'body')


def hits(rep, m):
    flat = lambda I, st, a, k, n: I.flattened(st, a[0], n)
    # what a motion moves
    R = Run(m.name)
    R.I.contract_funcs[UTILS + 'flatten'] = flat
    c = command(R, m, False)
    f = m.functions.get('Command.bodies')
    where = '%s:%d' % (m.rel, f.lineno) if f is not None else m.rel
    ps = R.I.static_items(R.st, R.I.resolve(R.attr(c, 'body_paths'), R.st.pc))
    for key, o, want in (('path with an object', ps[0], {part(0)('body'), HELD}), ('path', ps[1], {part(1)('body')}), ('command', c, {part(0)('body'), part(1)('body'), HELD})):
        if o is c:
            R.I.contract_methods[('BodyPath', 'bodies')] = lambda I, st, a, k, n: I.list_of(st, [part(0)('body'), HELD] if I.closed(st, I.get_attr(st, a[0], 'body', None)) is part(0)('body') else [part(1)('body')])
        got = members(R, R.method(o, 'bodies'))
        rep.ob('moving', '%s %s' % (m.rel, key), None if got is None or any(has_unknown(x) for x in got) else got == want, where, 'moves %s' % (sorted(map(show, got)) if got is not None else '?'))
    rep.saw(R.I)
    # where it stands when a position is handed out
    f = m.functions.get('BodyPath.iterator')
    R = Run(m.name)
    n0 = R.mark()
    c = command(R, m, False)
    o = R.I.static_items(R.st, R.I.resolve(R.attr(c, 'body_paths'), R.st.pc))[0]
    R.method(o, 'iterator')
    ev = R.since(n0)
    ys = [e for e in ev if e.name == 'yield']
    moves = [e for e in ev if e.name in (UTILS + 'set_joint_positions', '.assign')]
    if f is not None:
        w = '%s:%d' % (m.rel, f.lineno)
        rep.ob('hit', m.rel + ' complete', None if not ys or len(moves) < 2 else all(e.seq > x.seq for e in ys for x in moves), w, 'a position is handed out before everything carried is there')
    # what it hits
    f = m.functions.get('get_movable_collision_test')
    if f is None:
        return
    where = '%s:%d' % (m.rel, f.lineno)
    R = Run(m.name)
    I = R.I
    state = [fn('as found')]
    C = I.contract_funcs
    order = []

    def posed(I, st, a, k, n):
        state[0] = fn('posed', *[I.closed(st, x) for x in a])
        return NONE

    def assign(I, st, a, k, n):
        o = I.closed(st, a[0])
        if o is POSE:
            order.append(('pose', st.pc))
        else:
            state[0] = fn('with', o, state[0])
        return NONE

    def touch(I, st, a, k, n):
        x, y = [I.closed(st, z) for z in a[:2]]
        order.append(('touch', st.pc))
        x, y = (y, x) if x is BODY else (x, y)
        return pred('touch', x, y, state[0])
    C[UTILS + 'set_joint_positions'] = posed
    C[UTILS + 'pairwise_collision'] = touch
    C[UTILS + 'flatten'] = flat
    I.contract_methods[('*', 'assign')] = assign
    c = command(R, m, False)

    def bodies(I, st, a, k, n):
        o = a[0]
        if o is c or 'Command' in show(I.closed(st, o)):
            return I.list_of(st, [part(0)('body'), HELD, part(1)('body')])
        b = I.closed(st, I.get_attr(st, o, 'body', None))
        return I.list_of(st, [b, HELD] if b is part(0)('body') else [b])
    for cls in ('Command', 'BodyPath'):
        I.contract_methods[(cls, 'bodies')] = bodies
    test = R.call(m.name, 'get_movable_collision_test')
    v = R.closed(I.call(R.st, test, [c, BODY, POSE], {}, None))
    rep.saw(I)
    out = []
    for i in (0, 1):
        s = part(i)
        j = fresh_var()
        here = fn('posed', s('body'), s('joints'), at(s('path'), j))
        here = fn('with', G0, here) if i == 0 else here
        both = [s('body')] + ([HELD] if i == 0 else [])
        out.append(nott(forall(lam((j,), (count_(i),), TRUE, andd(*[nott(pred('touch', x, BODY, here)) for x in both])))))
    ref = andd(orr(*out), *[nott(eq(BODY, x)) for x in (part(0)('body'), HELD, part(1)('body'))])
    v = rebound(v)
    ok = same_formula(v, ref)
    rep.ob('hit', m.rel, ok, where, '' if ok else 'reports a hit if %s' % show(v)[:600])
    first = [k for k, pc in order]
    rep.ob('hit', m.rel + ' pose', True if first[:1] == ['pose'] else False if 'touch' in first and 'pose' not in first else None if not first else False, where, 'the object is not put where it is tested')


def rebound(v):
    """the position a generator stands at, seen by the loop that drives it, is that loop's own"""
    for x in [x for x in subterms(v) if x.op == 'forall' or x.op == 'red' or x.op == 'all']:
        l = next((a for a in x.args if isinstance(a, T) and a.op == 'lam'), None)
        if l is None or len(l.args[1]) != 1 or dangling(l.args[1][0]):
            continue
        vs, sizes, g, b = open_lam(l)
        loose = {y for y in subterms(b) if y.op == 'v' and y not in vs}
        if len(loose) == 1 and vs[0] not in set(subterms(b)):
            w = lam(vs, sizes, g, subst(b, {list(loose)[0]: vs[0]}))
            v = subst(v, {x: _mk(x.op, *[w if a is l else a for a in x.args])})
    return v


POSE = sym('object pose', 'o')
