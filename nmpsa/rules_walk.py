"""E11: the walk of a motion through the cells of the Gray-code corridor"""
from .arrays import index_arr
from .checks import *
from .rules_env import MOD
from .terms import _mk, subterms
from .values import *

C = 'GrayCodeWalls'
WALL = 'wall distance'


def coordinates(I, st, v, n, node=None):
    v = I.resolve(v, st.pc)
    if isinstance(v, (ArrRef, Arr)):
        return [I.closed(st, index_arr(I, st, v, [num(i)], node)) for i in range(n)]
    its = I.static_items(st, v)
    if its is None and isinstance(v, T):
        return [at(v, num(i)) for i in range(n)]
    return None if its is None or len(its) != n else [I.closed(st, x) for x in its]


def floors(xs):
    return [floor(x) for x in xs]


def wall(cell, p):
    return fn(WALL, *cell, *p)


def E11(rep):
    rep.rule('step', 'a motion walks on through the corridor when the goal lies ahead and back otherwise: from where it meets the opening to the next cell, in that cell')
    rep.rule('reject', 'a motion is refused in a cell exactly if it moves away from the opening, or if its entry or its exit is too close to a wall of that cell')
    rep.rule('stop', 'the walk ends in the cell of the goal')
    rep.rule('accept', 'a motion that reaches the cell of the goal is valid exactly if its entry keeps clear of the walls of that cell and the goal keeps clear of the walls')
    where = fdef(repo(), MOD, C + '.is_motion_valid')
    for n in (2, 3) + ((4,) if rep.tier == 'thorough' else ()):
        sides = [(k, s) for k in range(n) for s in (-1, 1)]
        for a in sides:
            for b in [(a[0], -a[1]), ((a[0] + 1) % n, a[1])] + ([((a[0] + 1) % n, -a[1])] if rep.tier == 'thorough' else []):
                for ahead in (True, False):
                    key = '%d dimensions, %s through face %d%s, the other opening at face %d%s' % (
                        n, 'on' if ahead else 'back', a[0], '+' if a[1] > 0 else '-', b[0], '+' if b[1] > 0 else '-')
                    rep.guard('step', key, lambda: walk(rep, n, a, b, ahead, key, where), where)


class Corridor:
    """the graph of cells around any cell: the next on one side, the previous on the other"""

    def __init__(self, I, n, nxt, prv, ahead, start, goal):
        self.n, self.ahead, self.start, self.goal = n, ahead, floors(start), floors(goal)
        self.asked = []
        M, F = I.contract_methods, I.contract_funcs
        M[('*', 'successors')] = M[('*', 'neighbors')] = M[('*', 'adj')] = lambda I, st, a, k, node: self.beside(I, st, a[1], nxt, node)
        M[('*', 'predecessors')] = lambda I, st, a, k, node: self.beside(I, st, a[1], prv, node)
        F['networkx.dfs_successors'] = lambda I, st, a, k, node: self.reach(I, st, a, k, node, 'dict')
        F['networkx.bfs_successors'] = lambda I, st, a, k, node: I.unk('successors', node)
        F['networkx.descendants'] = lambda I, st, a, k, node: self.reach(I, st, a, k, node, 'list')
        F['networkx.ancestors'] = lambda I, st, a, k, node: self.reach(I, st, a, k, node, 'back')
        F['networkx.has_path'] = self.path
        M[(C, '_distance_to_wall_in_cube')] = self.wall

    def cell(self, I, st, v, node):
        return coordinates(I, st, v, self.n, node)

    def beside(self, I, st, v, side, node):
        c = self.cell(I, st, v, node)
        if c is None:
            return I.unk('cell', node)
        return I.list_of(st, [Tup([add(y, num(side[1])) if i == side[0] else y for i, y in enumerate(c)])])

    def which(self, c):
        return 'start' if c == self.start else 'goal' if c == self.goal else None

    def reach(self, I, st, a, k, node, kind):
        w = self.which(self.cell(I, st, a[1] if len(a) > 1 else k.get('source', NONE), node))
        self.asked.append((kind, w))
        if w is None:
            return I.unk('descendants', node)
        seen = (w == 'start') == self.ahead
        if kind == 'back':
            seen = not seen
        other = Tup(self.goal if w == 'start' else self.start)
        if kind == 'dict':
            here = Tup(self.start if w == 'start' else self.goal)
            o = I.new_dict(st, [(I.closed(st, here), I.list_of(st, [other]), TRUE)] if seen else [])
            return o
        return I.list_of(st, [other] if seen else [])

    def path(self, I, st, a, k, node):
        x, y = [self.which(self.cell(I, st, v, node)) for v in (list(a[1:]) + [k[z] for z in ('source', 'target') if z in k])[:2]]
        self.asked.append(('path', x, y))
        if {x, y} != {'start', 'goal'}:
            return I.unk('path', node)
        return TRUE if (x == 'start') == self.ahead else FALSE

    def wall(self, I, st, a, k, node):
        v = list(a[1:]) + [k[z] for z in ('cube_coords', 'x') if z in k]
        c, p = [self.cell(I, st, z, node) for z in v[:2]]
        if c is None or p is None:
            return I.unk('wall distance', node)
        return wall(c, p)


def walk(rep, n, nxt, prv, ahead, key, where):
    R = Run(MOD)
    I = R.I
    I.one_shot = True
    A = [sym('start %d' % i, 'x') for i in range(n)]
    B = [sym('goal %d' % i, 'x') for i in range(n)]
    Corridor(I, n, nxt if ahead else prv, prv if ahead else nxt, ahead, A, B)
    obj = R.call(MOD, C, num(n), sym('len', 'pi'), sym('thick', 'n'), sym('seed', 'x'))
    x0, x1 = [I.models.NP['array'](I, R.st, [Tup(v)], {}, None) for v in (A, B)]
    del I.whiles[:]
    v = R.closed(R.method(obj, 'is_motion_valid', x0, x1))
    rep.saw(I)
    ws = list(I.whiles)
    if len(ws) != 1 or ws[0].post is None or any(k not in ('cond', 'break', 'return') for k, _, _ in ws[0].exits):
        rep.ob('step', key, None, where, '%d walks' % len(ws))
        return
    w = ws[0]
    conds = [e for e in w.exits if e[0] != 'return' and e[1].pc is not FALSE]
    if len(conds) != 1:
        rep.ob('step', key, None, where, 'the end of the walk is not resolved')
        return
    o = conds[0][1]
    cell = place = None
    wrong = []
    for q in w.phis:
        p0 = coordinates(I, R.st, w.pre[q], n) if not isinstance(w.pre[q], T) else None
        if p0 == floors(A):
            cell = q
        elif p0 == A:
            place = q
        elif p0 is not None and all(z.op in ('ceil', 'floor', 'round', 'int', 'fn') and set(subterms(z)) & set(A + B) for z in p0):
            wrong.append((q, p0))
    if cell is None and place is not None and len(wrong) == 1:
        rep.ob('step', key + ' begins', False, where, 'begins in cell (%s)' % ', '.join(map(show, wrong[0][1])))
        return
    if cell is None or place is None:
        rep.ob('step', key, None, where, 'the walk is not followed by cell and position')
        return
    c, x = [coordinates(I, o, w.phis[q], n) for q in (cell, place)]
    c2, x2 = [coordinates(I, w.post, w.post.cells[q], n) for q in (cell, place)]
    k, s = nxt
    plane = add(c[k], ONE) if s > 0 else c[k]
    t = div(sub(plane, x[k]), sub(B[k], x[k]))
    moves = nott(eq(B[k], x[k]))
    step = [add(c[i], num(s)) if i == k else c[i] for i in range(n)]
    cross_ = [add(x[i], mul(t, sub(B[i], x[i]))) for i in range(n)]
    end = andd(*[eq(c[i], floor(B[i])) for i in range(n)])
    wf = '%s:%d' % (w.file, w.node.lineno)
    clean = lambda f: subst(f, {y: FALSE for y in subterms(f) if y.op == 'pred' and y.args[0] == 'isnan' or y.op == 'isnan'})

    def put(rule, name, ok, detail, *ts):
        if ok is False and any(has_unknown(z) or set(A) & set(subterms(known(z))) for z in ts if isinstance(z, T)):
            ok = None
        rep.ob(rule, '%s%s' % (key, name), ok, wf, '' if ok else detail)
    going = andd(moves, nott(end))
    put('stop', '', same_formula(o.pc, end), 'ends if %s' % show(o.pc)[:300], o.pc)
    differ = orr(*[nott(eq(a_, b_)) for a_, b_ in zip(floors(A), floors(B))])
    known = lambda t_: entered(t_, differ, set(A + B))
    bad = orr(*[e[1].pc for e in w.exits if e[0] == 'return'])
    vals = [I.closed(e[1], e[2]) for e in w.exits if e[0] == 'return']
    put('reject', ' answers', True if all(z is FALSE for z in vals) else False if any(z is TRUE or z is NONE for z in vals) else None, 'answers %s on the way' % [show(z)[:80] for z in vals], *vals)
    code = known(clean(bad))
    names = {wall(c, x): sym('at the entry', 'x'), wall(c, cross_): sym('at the exit', 'x')}
    refs = list(names)
    for y in subterms(code):
        if y.op == 'fn' and y.args[0] == WALL and y not in names and all(False in [same(p_, q_) for p_, q_ in zip(y.args[1], r_.args[1])] for r_ in refs):
            names[y] = sym('elsewhere', 'x')
    infinite = {y: FALSE for y in subterms(code) if 'infsign' in (y.op, y.args[0] if y.args else None)}
    near = orr(lt(wall(c, x), ZERO), lt(wall(c, cross_), ZERO))
    d, e = sub(B[k], x[k]), sub(plane, x[k])
    for dn, df in (('forwards', lt(ZERO, d)), ('backwards', lt(d, ZERO))):
        for en, ef in (('ahead of', lt(ZERO, e)), ('at', eq(e, ZERO)), ('behind', lt(e, ZERO))):
            facts = andd(df, ef)
            off = en == 'at' or (dn == 'forwards') != (en == 'ahead of')
            got = given(code, facts, names, infinite)
            want_ = TRUE if off else orr(lt(names[wall(c, x)], ZERO), lt(names[wall(c, cross_)], ZERO))
            ok = same_formula(got, want_, andd(facts, nott(end)))
            if ok is None and not [y for y in subterms(got) if y.op == 'sym' and y not in names.values()] and not has_unknown(got):
                ok = logic.equiv(got, want_, TRUE)
            put('reject', ', %s with the opening %s it' % (dn, en), ok, 'refused if %s' % show(got)[:500], got)
    ref = orr(le(t, ZERO), near)
    put('step', ' cell', whole(same(known(settled(a, going)), b) for a, b in zip(c2, step)), 'goes on in cell (%s)' % ', '.join(show(z)[:80] for z in c2), *c2)
    put('step', ' position', whole(same(known(settled(a, going)), b) for a, b in zip(x2, cross_)), 'goes on from (%s)' % ', '.join(show(z)[:120] for z in x2), *x2)
    out = andd(le(ZERO, wall(c, x)), le(ZERO, wall(floors(B), B)))
    facts = andd(end, nott(bad), nott(ref))
    got = subst(v, {y: FALSE for y in subterms(v) if y.op == 'pred' and y.args[0] == 'isnan'})
    parts = list(got.args) if got.op == 'and' else [got]
    rest = [z for z in parts if imp(andd(end, nott(clean(bad))), z) is not True]
    got = at_end(andd(*rest), c, floors(B))
    put('accept', '', same_formula(got, at_end(out, c, floors(B))), 'accepted if %s' % show(andd(*rest))[:400], got)


def given(t, facts, names, infinite):
    """t with everything the facts decide"""
    t = subst(subst(t, infinite), names)
    for _ in range(20):
        old = t
        for y in sorted({y for y in subterms(t) if y.op in ('neg', 'pos') and not dangling(y)}, key=show):
            if any(z in names.values() for z in subterms(y)):
                continue
            v = TRUE if imp(facts, y) is True else FALSE if imp(facts, nott(y)) is True else None
            if v is not None:
                t = subst(t, {y: v})
        if t is old:
            return t
    return t


def entered(t, differ, ends):
    """t for a walk that has begun, which it does only between two cells"""
    known = {}
    for y in subterms(t):
        if y.op in ('or', 'and', 'neg', 'pos') and y not in known:
            ss = {z for z in subterms(y) if z.op == 'sym'}
            if ss and ss <= ends:
                v = TRUE if imp(differ, y) is True else FALSE if imp(differ, nott(y)) is True else None
                if v is not None:
                    known[y] = v
    return subst(t, known) if known else t


def at_end(t, c, g):
    """with the cell reached being the cell of the goal"""
    return subst(t, dict(zip(c, g)))


def whole(rs):
    rs = list(rs)
    return False if False in rs else None if None in rs else True


def settled(t, facts):
    return subst(t, {y: FALSE for y in subterms(t) if y.op == 'pred' and y.args[0] == 'isnan'})
