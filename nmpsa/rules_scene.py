"""Scenes of the TAMP experiments: geometry of what is built, what the planner is told of it, and sampled placements."""
import ast
from fractions import Fraction

from . import teval
from .checks import *
from .rules_tamp import worlds, members
from .terms import _mk, fresh_id, open_lam, subterms
from .values import *

UTILS = 'pybullet_tools.utils.'
HALF = num(Fraction(1, 2))


def vector(R, v):
    """components of a point value: keyword/positional Point, tuple, list or array"""
    v = R.closed(v) if not isinstance(v, T) else v
    if v.op == 'fn' and v.args[0] == 'point':
        return list(v.args[1])
    if v.op == 'tup' and len(v.args) == 3:
        return list(v.args)
    return None


def contracts(I):
    """points are records of their coordinates; poses of a point and a rotation"""
    def point(I, st, a, k, node):
        d = dict(zip(('x', 'y', 'z'), a))
        d.update(k)
        return fn('point', *[I.closed(st, d.get(c, ZERO)) for c in 'xyz'])

    def pose(I, st, a, k, node):
        d = dict(zip(('point', 'euler'), a))
        d.update(k)
        if 'quat' in d or set(d) - {'point', 'euler'}:
            return I.unk('pose', node)
        p = d.get('point')
        p = fn('point', ZERO, ZERO, ZERO) if p is None or p is NONE else p
        return Tup([p, fn('euler', I.closed(st, d['euler'])) if d.get('euler') is not None and d['euler'] is not NONE else fn('euler')])
    I.contract_funcs[UTILS + 'Point'] = point
    I.contract_funcs[UTILS + 'Pose'] = pose


class Box:
    def __init__(self, e, size):
        self.e, self.id, self.size, self.at = e, e.result, size, [ZERO] * 3

    def face(self, k, s):
        """coordinate of the face on side s (-1, 1) of axis k"""
        return add(self.at[k], mul(mul(num(s), HALF), self.size[k]))


def boxes_of(R, ev):
    """boxes a function creates, with size and final position; None for a box whose placement is not understood"""
    out, odd = {}, []
    for e in ev:
        short = e.name.rpartition('.')[2]
        if e.name == UTILS + 'create_box':
            d = dict(zip(('w', 'l', 'h'), e.args))
            d.update({k: v for k, v in e.kw.items() if k in ('w', 'l', 'h')})
            size = [R.closed(d[k]) for k in ('w', 'l', 'h') if k in d]
            if len(size) != 3 or e.binders or e.pc is not TRUE:
                odd.append(e)
            else:
                out[e.result] = Box(e, size)
        elif short in ('set_point', 'set_pose') and e.args and R.closed(e.args[0]) in out:
            b = out[R.closed(e.args[0])]
            p = e.args[1] if len(e.args) > 1 else e.kw.get('point', e.kw.get('pose'))
            if short == 'set_pose' and isinstance(p, Tup):
                if R.closed(p.items[1]) is not fn('euler'):
                    odd.append(e)
                p = p.items[0]
            b.at = vector(R, p) if p is not None and e.pc is TRUE and not e.binders else None
            if b.at is None:
                odd.append(e)
    return out, odd


def scene_function(W):
    """(module, function, class, gap field, obstacle field) of the scene with a recorded gap that the world's program plans in"""
    run = next((m for m in repo().modules.values() if m.rel == W.dir + '/run.py'), None)
    for m in sorted(repo().modules.values(), key=lambda m: m.rel):
        if not m.rel.startswith(W.dir + '/'):
            continue
        for cname, c in m.classes.items():
            fields = [s.target.id for s in getattr(c, 'body', getattr(getattr(c, 'node', None), 'body', [])) if isinstance(s, ast.AnnAssign)]
            gap = [f for f in fields if 'gap' in f]
            obs = [f for f in fields if 'obstacle' in f]
            if not gap or not obs or run is None:
                continue
            called = {x.func.id for x in ast.walk(run.tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
            for name, f in m.functions.items():
                if name in called and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == cname and
                                          any(k.arg == gap[0] for k in x.keywords) for x in ast.walk(f)):
                    return m, name, f, cname, gap[0], obs[0]
    raise AnchorMissing('a scene with a recorded gap in %s' % W.dir)


def T08(rep):
    rep.rule('gap', 'the strip of half the recorded gap either side of the line through the passage is free, and walls bound it there')
    rep.rule('widest object', 'the recorded gap is the requested margin more than the diameter of the widest object created')
    rep.rule('listed', 'every box above the floor is an obstacle of the problem and meets two others; every object created is a target')
    rep.rule('start', 'the robot is put at the start configuration of the problem, in one of the rooms')
    rep.rule('two rooms', 'each object gets a start and a goal pose, in that order of the targets, in rooms on either side of the passage, clear of the walls')
    rep.rule('bins', 'the obstacle boxes of a bin are those of its links, placed with the bin')
    rep.rule('container', 'the links of a bin are its floor and four walls, each over its whole side, standing on the plane it is put on, with room for the widest object')
    rep.rule('own bin', 'the obstacle boxes used for an object are those of the bin it is inserted in')
    turtle = next(W for W in worlds() if W.dir.endswith('turtlebot_move'))
    rep.guard('gap', turtle.dir, lambda: hallway(rep, turtle), turtle.dir)
    kuka = next(W for W in worlds() if W.dir.endswith('kuka_carry'))
    rep.guard('bins', kuka.dir, lambda: bins(rep, kuka), kuka.dir)


def hallway(rep, W):
    m, name, f, cname, gapf, obsf = scene_function(W)
    where = '%s:%d in %s' % (m.rel, f.lineno, name)
    key = '%s %s' % (m.rel, name)
    R = Run(m.name)
    I = R.I
    contracts(I)

    def placed(I, st, a, k, node):
        d = dict(zip(('body_surfaces', 'obstacles', 'min_distances'), a))
        d.update(k)
        I.event(st, 'placements', None, [I.closed(st, d['body_surfaces']), I.closed(st, d.get('obstacles', NONE))], {}, node)
        return TRUE
    I.contract_funcs[(m.name, 'sample_placements')] = placed
    pars = [a.arg for a in f.args.args]
    vals = {p: sym(p, 'ip' if p.startswith(('num', 'n_')) else 'p') for p in pars}
    n0 = R.mark()
    v = R.call(m.name, name, **vals)
    ev = R.since(n0)
    rep.saw(I)
    if not isinstance(v, Obj):
        rep.ob('gap', key, False if v is NONE else None, where, 'the scene returned is not understood')
        return

    def field(x):
        y = R.attr(v, x)
        return y if isinstance(y, T) else R.closed(y)
    gap = field(gapf)
    boxes, odd = boxes_of(R, ev)
    for e in odd:
        rep.ob('gap', '%s box %s' % (key, e.where()), None, e.where(), 'size or place of a box is not understood')
    if odd or any(b.at is None for b in boxes.values()):
        for b in boxes.values():
            if b.at is None and not odd:
                rep.ob('gap', '%s box %s' % (key, b.e.where()), None, b.e.where(), 'a box without a place')
        return
    obs = field(obsf)
    walls = [b for b in boxes.values() if any(x is b.id for x in subterms(obs))]
    others = [b for b in boxes.values() if b not in walls]
    # ---- objects
    made = [e for e in ev if e.name == UTILS + 'create_cylinder']
    radii, M = [], None
    for e in made:
        r = R.closed(e.args[0] if e.args else e.kw.get('radius', NONE))
        x = r
        if e.binders:
            x = red('max', lam([b for b, _ in e.binders], [s for _, s in e.binders], TRUE, r))
        radii.append((e, r))
        M = x if M is None else max2(M, x)
    if M is None:
        rep.ob('widest object', key, None, where, 'no object is created')
        return
    res = [(p, same(gap, add(mul(num(2), M), vals[p]))) for p in pars if not p.startswith(('num', 'n_'))]
    margin = next((p for p, r in res if r is True), None)
    rep.ob('widest object', key, True if margin else False if all(r is False for p, r in res) else None, where,
           'recorded gap %s, widest object %s' % (show(gap), show(M)))
    tg = field('targets')
    for e in made:
        rep.ob('listed', '%s object %s' % (key, e.where()), any(x.op == 'call' and x.args[:2] == e.result.args[:2] for x in subterms(tg)), e.where(),
               'an object that is not among the targets')
    # ---- geometry, the gap as one quantity
    G = sym('gap', 'p')
    if margin is not None:
        W2 = sym('widest', 'p')
        ab = {M: W2}
        gapv = subst(gap, ab)
    else:
        ab, gapv = {}, gap
    geo = {b: Box(b.e, [subst(x, ab) for x in b.size]) for b in boxes.values()}
    for b, g in geo.items():
        g.at = [subst(x, ab) for x in b.at]
    init = R.attr(v, 'init_conf')
    if not isinstance(init, Obj):
        rep.ob('start', key, False if init is NONE else None, where, 'the problem has no start configuration')
        return
    start = R.closed(R.attr(init, 'values'))
    if start.op != 'tup' or len(start.args) < 2:
        rep.ob('gap', key, None, where, 'start of the robot')
        return
    x0, yc = start.args[0], start.args[1]
    floors = [geo[b] for b in others]
    room = [cval(g.size[1]) for g in floors if cval(g.size[1]) is not None]
    F = TRUE
    if room:
        F = le(gapv, num(Fraction(min(room)) / 2))

    def holds(p):
        """True, False (some scene violates it) or None"""
        if imp(F, p) is True:
            return True
        return False if teval.witness(andd(F, nott(p))) else None
    # floor and walls
    for b in others:
        g = geo[b]
        r = holds(le(g.face(2, 1), ZERO))
        rep.ob('listed', '%s box %s' % (key, b.e.where()), r, b.e.where(), 'a box that rises above the floor is no obstacle')
    W_ = [geo[b] for b in walls]
    for g in W_:
        rep.ob('listed', '%s foot of %s' % (key, g.e.where()), holds(andd(le(g.face(2, -1), ZERO), lt(ZERO, g.face(2, 1)))), g.e.where(),
               'a wall does not stand on the floor')
    n = R.closed(R.I.length(R.st, R.attr(v, 'targets')))
    want = [vals[p] for p in pars if p.startswith(('num', 'n_'))]
    rep.ob('listed', '%s number of objects' % key, same(n, want[0]) if len(want) == 1 else None, where, 'not as many objects as asked for')
    meets = {}
    for a in W_:
        for b in W_:
            if a is b:
                continue
            meets[a, b] = holds(andd(*[andd(le(a.face(k, -1), b.face(k, 1)), le(b.face(k, -1), a.face(k, 1))) for k in (0, 1)]))
    for a in W_:
        rs = [meets[a, b] for b in W_ if b is not a]
        r = True if rs.count(True) >= 2 else False if len(rs) - rs.count(False) < 2 else None
        rep.ob('listed', '%s wall %s' % (key, a.e.where()), r, a.e.where(), 'a wall that meets fewer than two others leaves the rooms open')
    # rooms: the floors objects are put on
    sets = [e for e in ev if e.name == 'placements']
    surf = []
    for e in sets:
        on = [g for b, g in zip(others, floors) if any(x is b.id for x in subterms(e.args[0]))]
        surf.append(on[0] if len(on) == 1 else None)
        o = e.args[1]
        missing = [b for b in walls if o is not NONE and not any(x is b.id for x in subterms(o))]
        rep.ob('two rooms', '%s obstacles %s' % (key, e.where()), not missing, e.where(), 'objects are placed regardless of %d walls' % len(missing))
        n = sum(1 for k in made if any(x.op == 'call' and x.args[:2] == k.result.args[:2] for x in subterms(e.args[0])))
        rep.ob('two rooms', '%s objects %s' % (key, e.where()), n == len(made), e.where(), 'not every object is placed')
    ends = {}
    for what in ('target_init_poses', 'target_goal_poses'):
        r = posed(R, v, what, ev)
        which = {max([i for i, e in enumerate(sets) if e.seq < g.seq], default=None) for g in r[1]} if r else set()
        if which == {None}:
            rep.ob('two rooms', '%s %s' % (key, what), False, where, '%s are read before the objects are placed' % what)
            return
        ends[what] = which.pop() if len(which) == 1 else None
        rep.ob('two rooms', '%s %s' % (key, what), None if r is None else same(r[0], tg), where,
               '%s are not the poses of the targets, in their order' % what)
    a, b = ends['target_init_poses'], ends['target_goal_poses']
    if a is None or b is None or surf[a] is None or surf[b] is None:
        rep.ob('two rooms', '%s rooms' % key, None, where, 'rooms of the start and goal poses are not understood')
        return
    ca, cb = surf[a].at[0], surf[b].at[0]
    rep.ob('two rooms', '%s rooms' % key, False if a == b or surf[a] is surf[b] else True, where, 'start and goal poses are in one room')
    # the strip
    far = [c for c in (ca, cb) if holds(eq(c, x0)) is not True] or [ca]
    lo, hi = min2(x0, min2(ca, cb)), max2(x0, max2(ca, cb))
    half = mul(HALF, gapv)
    above, below = [], []
    for g in W_:
        yl, yu = g.face(1, -1), g.face(1, 1)
        out_x = orr(le(g.face(0, 1), lo), le(hi, g.face(0, -1)))
        if holds(le(yc, yl)) is True:
            near, side = sub(yl, yc), above
        elif holds(le(yu, yc)) is True:
            near, side = sub(yc, yu), below
        else:
            rep.ob('gap', '%s wall %s' % (key, g.e.where()), holds(out_x), g.e.where(), 'a wall stands in the passage')
            continue
        r = holds(orr(le(half, near), out_x))
        rep.ob('gap', '%s wall %s' % (key, g.e.where()), r, g.e.where(), 'a wall is %s from the middle of a passage %s wide' % (show(near), show(gapv)))
        if holds(le(near, half)) is True:
            side.append(g)
    for what, side in (('left', above), ('right', below)):
        n = len(side)
        rep.ob('gap', '%s %s side' % (key, what), True if n else False, where, 'no wall stands half the gap from the middle of the passage')
        for g in side:
            la, lb = min2(ca, cb), max2(ca, cb)
            rep.ob('two rooms', '%s between %s' % (key, g.e.where()), holds(andd(le(la, g.face(0, -1)), le(g.face(0, 1), lb))), g.e.where(),
                   'the walls of the passage do not stand between the rooms')
    inside = [holds(andd(*[andd(le(g.face(k, -1), start.args[k]), le(start.args[k], g.face(k, 1))) for k in (0, 1)])) for g in (surf[a], surf[b])]
    rep.ob('start', '%s room' % key, True if True in inside else False if inside == [False, False] else None, where, 'the robot starts outside the rooms')
    put = [e for e in ev if e.name == UTILS + 'set_joint_positions' and e.pc is TRUE and not e.binders and len(e.args) == 3 and
           R.closed(e.args[0]) is R.closed(R.attr(v, 'rover'))]
    rep.ob('start', '%s position' % key, (same(R.closed(put[-1].args[2]), start) if put else False), where, 'the robot is not put at its start configuration')
    # both sides bound the same stretch between the rooms
    for g in above:
        twin = [h for h in below if holds(andd(eq(h.face(0, -1), g.face(0, -1)), eq(h.face(0, 1), g.face(0, 1)))) is True]
        rep.ob('gap', '%s opposite %s' % (key, g.e.where()), True if twin else None, g.e.where(), 'no wall bounds the passage opposite this one')
    rep.count('boxes', len(boxes))
    rep.count('objects', len(made))


def posed(R, v, what, ev):
    """(list of the bodies whose poses a field lists, events reading the poses), None when not understood"""
    y = R.attr(v, what)
    if not isinstance(y, ListRef):
        return None
    lv = R.st.cells[('L', y.id)]
    if lv.phi is not None or lv.mixed:
        return None
    segs, evs = [], []
    for s in lv.segs:
        p = R.attr(s.value, 'pose') if isinstance(s.value, Obj) else s.value
        p = p if isinstance(p, T) else R.closed(p)
        e = next((e for e in ev if e.name == UTILS + 'get_pose' and e.result.op == 'call' and p.op == 'call' and
                  e.result.args[:2] == p.args[:2]), None)
        if e is None:
            return None
        segs.append(Seg(s.vars, s.sizes, s.guard, subst(R.closed(e.args[0]), dict(zip(e.result.args[2], p.args[2])))))
        evs.append(e)
    return R.closed(R.I.new_list(R.st, segs)), evs


def entries(R, v, n=3):
    """the n numbers of a vector, None when not understood"""
    t = v if isinstance(v, T) else R.closed(v)
    if t.op == 'fn' and t.args[0] == 'point':
        return list(t.args[1])
    if t.op == 'tup':
        return list(t.args) if len(t.args) == n else None
    if t.op == 'list' and len(t.args) == 1:
        t = t.args[0]
    if t.op == 'lam' and len(t.args[1]) == 1 and cval(t.args[1][0]) == n and t.args[2] is TRUE:
        return [open_lam(t, [num(i)])[3] for i in range(n)]
    return None


def box_info(R, t):
    """(lower, upper, pose) of an oriented box record, None when not understood"""
    def args_of(o, names):
        i = R.I.obj_info(o)
        if i is None:
            return None
        d = dict(zip(names, i[1]))
        d.update(i[2])
        return [d.get(k) for k in names]
    o = args_of(t, ('aabb', 'pose'))
    if not o or None in o:
        return None
    a = o[0] if isinstance(o[0], T) else R.closed(o[0])
    b = args_of(a, ('lower', 'upper'))
    if not b or None in b:
        return None
    lo, hi = entries(R, b[0]), entries(R, b[1])
    p = o[1] if isinstance(o[1], T) else R.closed(o[1])
    return None if lo is None or hi is None else (lo, hi, p)


def bins(rep, W):
    run = next((m for m in repo().modules.values() if m.rel == W.dir + '/run.py'), None)
    if run is None or 'load_world' not in run.functions or 'pddlstream_from_problem' not in run.functions or 'main' not in run.functions:
        raise AnchorMissing('scene of %s' % W.dir)
    where = '%s:%d in load_world' % (run.rel, run.functions['load_world'].lineno)
    R = Run(run.name)
    I = R.I
    contracts(I)

    def body(I, st, a, k, node):
        return string('body%d' % fresh_id())

    def geometry(I, st, a, k, node):
        d = dict(zip(('width', 'length', 'height'), a))
        d.update(k)
        return I.new_dict(st, [(string('halfExtents'), I.list_of(st, [mul(HALF, I.closed(st, d[x])) for x in ('width', 'length', 'height')]), TRUE)])

    def built(I, st, a, k, node):
        r = body(I, st, a, k, node)
        I.event(st, 'multibody', None, a, k, node, r)
        return r

    def box(I, st, a, k, node):
        r = body(I, st, a, k, node)
        I.event(st, UTILS + 'create_box', None, a, k, node, r)
        return r
    I.contract_funcs[UTILS + 'load_model'] = body
    I.contract_funcs[UTILS + 'create_box'] = box
    I.contract_funcs[UTILS + 'get_box_geometry'] = geometry
    I.contract_funcs['pybullet.createMultiBody'] = built
    I.contract_funcs[UTILS + 'multiply'] = lambda I, st, a, k, node: fn('multiply', *[I.closed(st, x) for x in a])

    def opaque(name):
        def f(I, st, a, k, node):
            I.event(st, 'call:' + name, None, a, k, node)
            return fn(name, num(fresh_id()))
        return f
    made = ('get_grasp_gen', 'get_stable_gen', 'get_fixed_stable_gen', 'get_ik_fn', 'get_free_motion_gen', 'get_holding_motion_gen', 'get_insert_motion_gen')
    for m in repo().modules.values():
        if m.rel.startswith(W.dir + '/'):
            for f in made:
                if f in m.functions:
                    I.contract_funcs[(m.name, f)] = opaque(f)
    n0 = R.mark()
    f = run.functions['load_world']
    out = R.call(run.name, 'load_world', **{a.arg: sym(a.arg, 'p') for a in f.args.args})
    # what the program does with the scene
    main = run.functions['main']
    names, call = None, None
    for x in ast.walk(main):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == 'load_world' and \
                isinstance(x.targets[0], ast.Tuple):
            names = [t.id if isinstance(t, ast.Name) else None for t in x.targets[0].elts]
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'pddlstream_from_problem':
            call = x
    if not names or call is None or not isinstance(out, Tup) or len(out.items) != len(names):
        rep.ob('own bin', run.rel, None, where, 'use of the scene is not understood')
        return
    scene = dict(zip(names, out.items))
    args = [scene.get(a.id) if isinstance(a, ast.Name) else None for a in call.args]
    kw = {k.arg: scene[k.value.id] for k in call.keywords if isinstance(k.value, ast.Name) and k.value.id in scene}
    if None in args:
        rep.ob('own bin', run.rel, None, where, 'use of the scene is not understood')
        return
    R.call(run.name, 'pddlstream_from_problem', *args, **kw)
    rep.saw(I)
    ev = R.since(n0)
    # ---- bins: the boxes of their links, at the pose they are put at
    placed = {}
    for e in ev:
        if e.name == UTILS + 'set_pose' and len(e.args) == 2 and e.pc is TRUE and not e.binders:
            placed[R.closed(e.args[0])] = R.closed(e.args[1])
    links, hulls = {}, {}
    size = widest_box(R, ev)
    for e in ev:
        if e.name != 'multibody':
            continue
        key = '%s bin %d' % (run.rel, len(links))
        shapes = R.closed(e.kw['linkCollisionShapeIndices']) if 'linkCollisionShapeIndices' in e.kw else None
        pos, rot = (R.closed(e.kw[k]) if k in e.kw else None for k in ('linkPositions', 'linkOrientations'))
        P = placed.get(e.result)
        if P is None:
            rep.ob('bins', key, None, e.where(), 'pose of the bin')
            continue
        ls = []
        for i in range(len(shapes.args) if shapes is not None and shapes.op == 'tup' else 0):
            s = next((x for x in ev if x.result is shapes.args[i]), None)
            h = entries(R, s.kw['halfExtents']) if s is not None and 'halfExtents' in s.kw else None
            at_ = entries(R, pos.args[i]) if pos is not None and pos.op == 'tup' and i < len(pos.args) else None
            r = rot.args[i] if rot is not None and rot.op == 'tup' and i < len(rot.args) else None
            ls.append((h, at_, r))
        if not ls or any(None in l for l in ls):
            rep.ob('bins', key, None, e.where(), 'links of the bin are not understood')
            continue
        links[e.result] = (e, P, ls)
        hulls[e.result] = container(rep, R, key, e, ls, size)
    apart(rep, R, run, links, hulls)
    ins = [e for e in ev if e.name == 'call:get_insert_motion_gen']
    gens = [e for e in ev if e.name == '()' and isinstance(e.recv, T) and e.recv.op == 'fn' and e.recv.args[0] == 'get_fixed_stable_gen']
    into = {}
    for e in gens:
        if len(e.args) >= 2:
            into.setdefault(R.closed(e.args[0]), set()).add(R.closed(e.args[1]))
    maps = [v for e in ins for k, v in e.kw.items() if 'obstacle' in k and isinstance(v, DictRef)] + [a for e in ins for a in e.args if isinstance(a, DictRef)]
    om = None
    for v in maps:
        d = R.closed(v)
        if d.op == 'dict' and all(x.args[2] is TRUE for x in d.args) and (om is None or 'OOBB' in repr(d)):
            om = {x.args[0]: x.args[1] for x in d.args}
    movable = [x for x in into]
    if om is None or not movable or not links:
        rep.ob('own bin', run.rel, None, where, 'obstacles of the insertions are not understood')
        return
    rep.count('bins', len(links))
    rep.count('objects', len(movable))
    for n, b in enumerate(movable):
        key = '%s object %d' % (run.rel, n)
        sinks = into[b]
        sink = next(iter(sinks))
        if len(sinks) != 1 or sink not in links:
            rep.ob('own bin', key, None, where, 'bin of the object')
            continue
        e, P, ls = links[sink]
        if b not in om:
            rep.ob('own bin', key, False, where, 'an object that is inserted has no obstacles')
            continue
        t = om[b]
        infos = [box_info(R, x) for x in t.args] if t.op == 'tup' else [None]
        if t.op in ('tup', 'list') and not t.args:
            rep.ob('own bin', key, False, where, 'an object that is inserted has no obstacles')
            continue
        if None in infos:
            rep.ob('own bin', key, None, where, 'obstacle boxes are not understood')
            continue
        owner = None
        for s, (e2, P2, l2) in links.items():
            if any(y is P2 for lo, hi, p in infos[:1] for y in subterms(p)):
                owner = s
        rep.ob('own bin', key, True if owner is sink else False if owner is not None else None, where,
               'the obstacle boxes of an object are those of another bin than the one it is inserted in')
        if owner is None:
            continue
        e, P, ls = links[owner]
        left = list(infos)
        for i, (h, a, r) in enumerate(ls):
            pose = fn('multiply', P, _mk('tup', _mk('tup', *a), r))
            hit, open_ = None, False
            for x in left:
                lo, hi, p = x
                q = normal_pose(R, p)
                res = [same(u, neg(v)) for u, v in zip(lo, h)] + [same(u, v) for u, v in zip(hi, h)]
                want = normal_pose(R, pose)
                res += [q[0] is want[0]] + [same(u, v) for u, v in zip(q[1], want[1])] + [q[2] is want[2]] if q and want else [None]
                if all(y is True for y in res):
                    hit = x
                    break
                open_ = open_ or False not in res
            if hit is not None:
                left.remove(hit)
            rep.ob('bins', '%s link %d' % (key, i), True if hit is not None else None if open_ else False, e.where(),
                   'no obstacle box of the bin is the box of its link %d where that link is' % i)
        rep.ob('bins', '%s boxes' % key, len(infos) <= len(ls) if len(infos) <= len(ls) else None, e.where(), 'more obstacle boxes than links')
    # ---- the link objects are placed on is the floor of the bin
    gen = [e for e in ev if e.name == 'call:get_fixed_stable_gen']
    maps = {R.closed(a) for e in gen for a in list(e.args) + list(e.kw.values()) if isinstance(a, DictRef)}
    if len(maps) == 1:
        d = {x.args[0]: x.args[1] for x in next(iter(maps)).args}
        for n, (s, (e, P, ls)) in enumerate(links.items()):
            k = cval(d[s]) if s in d and isinstance(d[s], T) else None
            if k is None:
                r = None
            else:
                k = int(k)
                F = andd(*[lt(num(Fraction(1, 25)), x) for x in {y for h, a, _ in ls for z in h for y in subterms(z) if y.op == 'sym'}])
                tops = [add(a[2], h[2]) for h, a, _ in ls]
                r = False if not 0 <= k < len(ls) else imp(F, andd(*[le(tops[k], x) for x in tops]))
            rep.ob('bins', '%s floor of bin %d' % (run.rel, n), r, e.where(), 'objects are placed on a link of the bin that is not its floor')
    else:
        rep.ob('bins', '%s floors' % run.rel, None, where, 'placement links are not understood')


def widest_box(R, ev):
    """largest side along x and y of the boxes created, a number; None when not understood"""
    made = [e for e in ev if e.name == UTILS + 'create_box']
    ws = [R.closed(x) for e in made for x in e.args[:2]]
    ws = [cval(w) if isinstance(w, T) else None for w in ws]
    return max(ws) if ws and None not in ws and len(ws) == 2 * len(made) else None


def container(rep, R, key, e, ls, size):
    """the links of a bin make an open box that stands on the ground and has room for an object"""
    syms = {y for h, a, _ in ls for z in list(h) + list(a) for y in subterms(z) if y.op == 'sym'}
    F = andd(*[lt(num(Fraction(1, 25)), x) for x in syms])

    def both(h, a):
        return [sub(x, y) for x, y in zip(a, h)], [add(x, y) for x, y in zip(a, h)]
    L = [both(h, a) for h, a, _ in ls]
    turned = [r for _, _, r in ls if not (r.op == 'fn' and r.args[0] == 'euler' and not r.args[1])]

    def hull(k, s):
        """outermost face, the one of a link that lies outside all others"""
        c = [x[s][k] for x in L]
        return next((x for x in c if all(imp(F, le(y, x) if s else le(x, y)) is True for y in c)), None)
    H = [[hull(k, s) for k in range(3)] for s in (0, 1)]
    if turned or None in H[0] + H[1]:
        rep.ob('container', key, None, e.where(), 'shape of the bin')
        return
    rep.ob('container', key + ' stands', same(H[0][2], ZERO), e.where(), 'the bin does not stand on the plane it is put on')
    for k in range(2):
        rep.ob('container', '%s middle %s' % (key, 'xy'[k]), same(add(H[0][k], H[1][k]), ZERO), e.where(), 'the bin is not centred at its pose along %s' % 'xy'[k])
    rest = list(range(len(L)))
    for name, k, s in (('floor', 2, 0), ('wall -x', 0, 0), ('wall +x', 0, 1), ('wall -y', 1, 0), ('wall +y', 1, 1)):
        o = [j for j in range(3) if j != k]

        def spans(x):
            return [same(x[s][k], H[s][k])] + [same(x[t][j], H[t][j]) for t in (0, 1) for j in o]
        res = {i: spans(L[i]) for i in rest}
        hit = [i for i in rest if all(y is True for y in res[i])]
        rep.ob('container', '%s %s' % (key, name), True if hit else False if all(False in y for y in res.values()) else None, e.where(),
               'the bin has no %s over its whole side' % name)
        for i in hit:
            # what the wall leaves free on its side
            rep.ob('container', '%s inside of %s' % (key, name),
                   None if size is None else imp(F, lt(mul(num(2), sub(L[i][1][k], L[i][0][k])), sub(sub(H[1][k], H[0][k]), num(size)))) if k < 2 else
                   imp(F, lt(L[i][1][k], H[1][k])), e.where(), 'the wall leaves no room for an object in the bin')
            rest.remove(i)
    rep.ob('container', key + ' open', not rest, e.where(), 'the bin has a part besides its floor and its walls')
    base = e.kw.get('baseCollisionShapeIndex')
    at_ = e.kw.get('basePosition')
    b = entries(R, at_) if at_ is not None else [ZERO] * 3
    rep.ob('container', key + ' base', True if base is None else same(R.closed(base), num(-1)), e.where(), 'the base of the bin is a shape of its own')
    rep.ob('container', key + ' origin', None if b is None else all(same(x, ZERO) is True for x in b), e.where(), 'the bin is not built around its origin')
    up = R.closed(e.kw['linkParentIndices']) if 'linkParentIndices' in e.kw else None
    ok = None if up is None else _eqs(up, len(ls))
    rep.ob('container', key + ' parents', ok, e.where(), 'a link of the bin is placed relative to another link than the base')
    return F, H


def apart(rep, R, run, links, hulls):
    """no two bins overlap"""
    ids = [b for b in links if hulls[b] is not None]
    for i, a in enumerate(ids):
        for j in range(i):
            b = ids[j]
            pts = []
            for x in (a, b):
                P = links[x][1]
                ok = P.op == 'tup' and len(P.args) == 2 and P.args[1].op == 'fn' and P.args[1].args[0] == 'euler' and not P.args[1].args[1]
                pts.append(entries(R, P.args[0]) if ok else None)
            if None in pts:
                r = None
            else:
                F = andd(hulls[a][0], hulls[b][0])
                G = [g for k in range(2) for (s, A), (t, B) in (((pts[0], hulls[a][1]), (pts[1], hulls[b][1])), ((pts[1], hulls[b][1]), (pts[0], hulls[a][1])))
                     for g in [le(add(s[k], A[1][k]), add(t[k], B[0][k]))]]
                res = [imp(F, g) for g in G]
                r = True if True in res else False if all(x is False for x in res) else None
            rep.ob('container', '%s bins %d and %d' % (run.rel, j, i), r, links[a][0].where(), 'two bins overlap')


def _eqs(t, n):
    if t.op == 'tup':
        return len(t.args) == n and all(same(x, ZERO) is True for x in t.args)
    return None


def normal_pose(R, p):
    """(bin pose, link position entries, link rotation) of a composed pose"""
    if p.op == 'fn' and p.args[0] == 'multiply' and len(p.args[1]) == 2:
        a, b = p.args[1]
        if b.op == 'tup' and len(b.args) == 2:
            v = entries(R, b.args[0])
            return None if v is None else (a, v, b.args[1])
    return None
