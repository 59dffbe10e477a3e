"""Execution of plans: post-processing of planned actions, refinement and playback of motions."""
import itertools

from .checks import *
from .terms import _mk, open_lam, subterms
from .values import *
from .rules_tamp import worlds, motions

UTILS = 'pybullet_tools.utils.'
PR2 = 'pybullet_tools.pr2_primitives.'


def motion_of(W, a):
    """the parameter of an action that is the planned motion (None: it moves nothing)"""
    mot = motions(W)
    for l in a.pre:
        if l.pred in mot:
            s = mot[l.pred][3]
            c = next(x for x in s.certified if x.pred == l.pred)
            return l.args[c.args.index(s.outputs[0])]
    return None


def body_of(W, a):
    """(picked, placed) object of an action"""
    held = W.role('atgrasp', 'holding')
    up = next((l.args[0] for l in a.add if l.pred == held), None)
    down = next((l.args[0] for l in a.dele if l.pred == held), None)
    return up, down


def robot_of(W, a):
    conf = W.role('atconf')
    l = next((l for l in a.pre if l.pred == conf), None)
    return l.args[0] if l is not None and len(l.args) == 2 else None


def T06(rep):
    rep.rule('motions', "post-processing emits every action's own motion, in the order of the plan")
    rep.rule('attach', 'what is picked is attached after the motion that picks it, and that object detached after the motion that places it')
    rep.rule('refine', 'refining a command keeps every path, in order, with its body, joints and attachments')
    rep.rule('playback', 'a command plays every configuration of every path in order, and moves the attached objects along')
    done = 0
    for W in worlds():
        for m in sorted(repo().modules.values(), key=lambda m: m.rel):
            if not m.rel.startswith(W.dir + '/'):
                continue
            for name, f in sorted(m.functions.items()):
                params = [a.arg for a in f.args.args]
                if '.' not in name and 'post' in name and 'process' in name and 'plan' in params:
                    done += 1
                    rep.guard('motions', m.rel, lambda: processing(rep, W, m, name, f, params), m.rel)
            if 'Command' in m.classes and 'BodyPath' in m.classes:
                rep.guard('refine', m.rel, lambda: commands(rep, m), m.rel)
    rep.ob('motions', 'post-processing', True if done >= 2 else None, 'exps/tamp_environment', '%d post-processing functions found' % done)


def plan_of(W, acts, share):
    """a plan of the actions: [(action, {parameter: term})]; share: the object parameters every step has in common with the one before"""
    out = []
    for i, a in enumerate(acts):
        out.append((a, {p: sym('step%d:%s' % (i, p[1:]), 'o') for p in a.params}))
    rob = sym('robot', 'o')
    last = None
    for a, ps in out:
        r = robot_of(W, a)
        if r in ps:
            ps[r] = rob
        up, down = body_of(W, a)
        if down in ps and last is not None:
            ps[down] = last
        if up in ps:
            last = ps[up]
    return out


def processing(rep, W, m, name, f, params):
    where = '%s:%d' % (m.rel, f.lineno)
    acts = W.actions
    pick = [a for a in acts if body_of(W, a)[0]]
    place = [a for a in acts if body_of(W, a)[1]]
    moving = [a for a in acts if motion_of(W, a)]
    rep.files.add(W.domain_rel)
    carried = any(a in moving for a in pick + place)      # picking and placing move the robot themselves
    if carried:
        plans = [list(p) * k for p in itertools.product(pick, place) for k in ((1, 2, 3) if rep.tier == 'thorough' else (1, 2))] + [[a] for a in pick]
    else:
        plans = [[a] for a in acts] + [list(p) for k in ((2, 3) if rep.tier == 'thorough' else (2,)) for p in itertools.product(acts, repeat=k)]
    for acts in plans:
        key = '%s plan %s' % (W.dir, ' '.join(a.name for a in acts))
        rep.guard('motions', key, lambda: process(rep, W, m, name, params, where, key, acts, carried), where)
    # no plan
    rep.count('plans', len(plans))


def process(rep, W, m, name, params, where, key, acts, carried):
    R = Run(m.name)
    I = R.I

    def command(n, names):
        def f(I, st, a, k, node):
            d = dict(zip(names, a))
            d.update(k)
            return fn(n, I.closed(st, d.get('robot', NONE)), I.closed(st, d.get('body', NONE)))
        return f
    I.contract_funcs[PR2 + 'Attach'] = command('attach', ('robot', 'arm', 'grasp', 'body'))
    I.contract_funcs[PR2 + 'Detach'] = command('detach', ('robot', 'arm', 'body'))

    def listed(I, st, o, name, node):
        # the paths of a motion are a list
        if name == 'body_paths' and isinstance(o, T) and o.op == 'sym':
            x = fresh_var()
            t = _mk('attr', o, name)
            return I.new_list(st, [Seg([x], [_mk('len', t)], TRUE, at(t, x))])
        return None
    I.attr_hook = listed
    steps = plan_of(W, acts, carried)
    plan = I.list_of(R.st, [Tup([string(a.name), Tup([ps[p] for p in a.params])]) for a, ps in steps])
    n0 = R.mark()
    v = R.call(m.name, name, **{p: plan if p == 'plan' else sym(p, 'o') for p in params})
    rep.saw(I)
    ev = R.since(n0)
    raised = [e for e in ev if e.name == 'raise' and e.pc is TRUE]
    if raised:
        rep.ob('motions', key, False, raised[0].where(), 'a planned action is refused')
        return
    if R.st.pc is FALSE:
        rep.ob('motions', key, None, where, 'no result')
        return
    want = []
    for a, ps in steps:
        t = motion_of(W, a)
        up, down = body_of(W, a)
        if t is not None:
            want.append(ps[t])
        if carried:
            r = ps.get(robot_of(W, a), NONE)
            if up:
                want.append(fn('attach', r, ps[up]))
            if down:
                want.append(fn('detach', r, ps[down]))
    if carried:
        got = I.static_items(R.st, I.resolve(v, R.st.pc))
        if got is None:
            rep.ob('motions', key, None, where, 'commands not resolved')
            return
        got = [R.closed(x) for x in got]
        if any(z.op in ('unk', 'call?') for t in got for z in subterms(t)):
            rep.ob('motions', key, None, where, 'commands not resolved: %s' % '; '.join(show(t)[:80] for t in got))
            return
        is_cmd = lambda t: t.op == 'fn' and t.args[0] in ('attach', 'detach')
        mg, mw = [t for t in got if not is_cmd(t)], [t for t in want if not is_cmd(t)]
        rep.ob('motions', key, mg == mw, where, 'commands %s' % '; '.join(show(t)[:80] for t in got))
        rep.ob('attach', key, got == want, where, 'commands %s instead of %s' % ('; '.join(show(t)[:80] for t in got), '; '.join(show(t)[:80] for t in want)))
        return
    paths = I.resolve(R.attr(v, 'body_paths'), R.st.pc) if isinstance(v, Obj) else None
    if isinstance(paths, T) and paths.op == 'attr':
        paths = I.new_list(R.st, [Seg([x], [_mk('len', paths)], TRUE, at(paths, x)) for x in [fresh_var()]])
    if not isinstance(paths, ListRef):
        rep.ob('motions', key, None, where, 'paths of the command not resolved')
        return
    lv = R.st.cells[('L', paths.id)]
    got = []
    for s in lv.segs:
        val = s.value
        if lv.phi is not None or lv.mixed or len(s.vars) != 1 or not isinstance(val, T):
            rep.ob('motions', key, None, where, 'paths of the command not resolved')
            return
        whole = val.op == 'at' and val.args[-1] is s.vars[0] and len(val.args) == 2 and same(s.sizes[0], _mk('len', val.args[0])) is True and s.guard is TRUE
        got.append(val.args[0] if whole else val)
    want = [_mk('attr', t, 'body_paths') for t in want]
    if any(z.op in ('unk', 'call?') for t in got for z in subterms(t)):
        rep.ob('motions', key, None, where, 'paths of the command not resolved: %s' % '; '.join(show(t)[:80] for t in got))
        return
    rep.ob('motions', key, got == want, where, 'the command runs through %s instead of %s' % ('; '.join(show(t)[:80] for t in got) or 'nothing', '; '.join(show(t)[:80] for t in want) or 'nothing'))


# ------------------------------------------------------------------------------------------------ commands

def paths(R, m, n=2):
    out = []
    for i in range(n):
        s = lambda k: sym('%s%d' % (k, i), 'o')
        out.append(R.call(m.name, 'BodyPath', s('body'), s('path'), joints=s('joints'), attachments=s('attachments')))
    return out


def fields(R, o):
    return [R.closed(R.attr(o, k)) for k in ('body', 'path', 'joints', 'attachments')]


def commands(rep, m):
    cls = m.classes['Command']
    R = Run(m.name)
    I = R.I

    def refined(I, st, a, k, node):
        d = dict(zip(('body', 'joints', 'waypoints', 'num_steps'), a))
        d.update(k)
        return fn('refined', *[I.closed(st, d.get(x, NONE)) for x in ('body', 'joints', 'waypoints')])
    I.contract_funcs[UTILS + 'refine_path'] = refined
    cmd = R.call(m.name, 'Command', I.list_of(R.st, paths(R, m)))
    f = m.functions.get('Command.refine')
    where = '%s:%d' % (m.rel, f.lineno if f else cls.lineno)
    fine = R.method(cmd, 'refine', num_steps=sym('steps', 'pi'))
    rep.saw(I)
    its = I.static_items(R.st, I.resolve(R.attr(fine, 'body_paths'), R.st.pc)) if isinstance(fine, Obj) else None
    if its is None or not all(isinstance(x, Obj) for x in its):
        rep.ob('refine', m.rel, None, where, 'refined command not resolved')
    else:
        rep.ob('refine', '%s number of paths' % m.rel, len(its) == 2, where, '%d paths from 2' % len(its))
        for i, o in enumerate(its[:2]):
            b, p, j, a = fields(R, o)
            s = lambda k: sym('%s%d' % (k, i), 'o')
            want = {'body': (b, s('body')), 'joints': (j, s('joints')), 'attachments': (a, s('attachments')), 'path': (p, fn('refined', s('body'), s('joints'), s('path')))}
            for k, (x, w) in want.items():
                rep.ob('refine', '%s path %d %s' % (m.rel, i, k), same(x, w), where, 'the %s of path %d is %s' % (k, i, show(x)[:200]))
    # playback
    for meth in ('execute', 'step'):
        f = m.functions.get('Command.' + meth)
        if f is None:
            continue
        where = '%s:%d' % (m.rel, f.lineno)
        R = Run(m.name)
        I = R.I
        cmd = R.call(m.name, 'Command', I.list_of(R.st, paths(R, m)))
        n0 = R.mark()
        R.method(cmd, meth)
        rep.saw(I)
        ev = [e for e in R.since(n0) if e.name == UTILS + 'set_joint_positions' or e.name == '.assign']
        sets = [e for e in ev if e.name != '.assign']
        key = '%s %s' % (m.rel, meth)
        rep.ob('playback', '%s every path' % key, len(sets) == 2, where, '%d of 2 paths are played' % len(sets))
        for i, e in enumerate(sets[:2]):
            s = lambda k: sym('%s%d' % (k, i), 'o')
            args = [I.closed(R.st, a) for a in e.args]
            bs = flat_binders(e)
            ok = len(args) == 3 and args[0] is s('body') and args[1] is s('joints') and len(bs) == 1 and args[2] is at(s('path'), bs[0][0])
            rep.ob('playback', '%s path %d configurations' % (key, i), bool(ok) if not any(z.op in ('unk', 'call?') for a in args for z in subterms(a)) else None, e.where(),
                   'sets %s' % ', '.join(show(a)[:80] for a in args))
            if len(bs) == 1:
                rep.ob('playback', '%s path %d whole' % (key, i), same(bs[0][1], _mk('len', s('path'))) is True and e.pc is TRUE, e.where(), 'not every configuration is played')
            nxt = sets[i + 1].seq if i + 1 < len(sets) else None
            moved = [x for x in ev if x.name == '.assign' and x.seq > e.seq and (nxt is None or x.seq < nxt)]
            ok = False
            for x in moved:
                b2 = flat_binders(x)
                r = I.closed(R.st, x.recv)
                if len(b2) == 2 and b2[0][0] is bs[0][0] and r is at(s('attachments'), b2[1][0]) and x.pc is TRUE and same(b2[1][1], _mk('len', s('attachments'))) is True:
                    ok = True
            rep.ob('playback', '%s path %d attached objects' % (key, i), ok if ok or not any(z.op in ('unk', 'call?') for x in moved for z in subterms(I.closed(R.st, x.recv))) else None, e.where(), 'the attached objects do not follow every configuration')


def flat_binders(e):
    return [(v, s) for v, s in e.binders]
