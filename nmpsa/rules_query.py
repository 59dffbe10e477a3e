"""R04-R06: what a query leaves behind and returns; how samples grow."""
from .rules_roadmap import *
from .terms import _mk

# calls that change a graph
CHANGES = {'.addNode', '.addNodes', '.addEdge', '.addEdges', '.removeEdge', '.removeNode', '.removeAllEdges', '.removeEdgesFromIsolatedSet',
           '.setWeight', '.increaseWeight', '.swapEdge', '.merge', '.restoreNode', '.removeMultiEdges', '.removeSelfLoops',
           '.removeAdjacentEdges', '.compactEdges', '.sortEdges', '.append', '.transpose'}


def fields(P):
    """every field of the planner and its value"""
    out = {}
    for k in P.R.st.cells:
        if k[0] == 'f' and k[1] == P.obj.id:
            out[k[2]] = P.closed(P.R.st.cells[k])
    return out


def graph_of(P, e):
    return P.closed(e.recv) if e.recv is not None else None


def certain(P, e, when=TRUE):
    """does the event happen whenever the query returns normally (and the given condition holds)"""
    if e.binders or e.whiles:
        return None
    return implies3(andd(P.R.st.pc, when), e.pc)


def missed(P, cond, when):
    """an outcome of the search (a path, or none) for which the condition never holds"""
    for found in (True, False):
        m = {}
        for x in set(subterms(cond)) | set(subterms(when)):
            if x.op == 'pred' and x.args[0] == 'reached' or x.op == 'p' and x.args[0] == 'reached':
                m[x] = TRUE if found else FALSE
            elif x.op == 'call' and x.args[0] == '.getDistance':
                m[x] = sym('distance', 'n') if found else INF
            elif x.op == 'len' and any(y.op == 'call' and y.args[0] == '.getPath' for y in subterms(x)):
                m[x] = sym('passed', 'pi') if found else ZERO
        if not any(x.op in ('pred', 'p', 'len') for x in m):
            continue
        if subst(cond, m) is FALSE or implies3(subst(when, m), nott(subst(cond, m))) is True:
            return 'found a path' if found else 'found no path'
    return None


def roots(t, names):
    return {x.args[0] for x in subterms(t) if x.op == 'sym'} & set(names)


def each_query(rep, rule, f):
    for cls in CLASSES:
        def go(cls=cls):
            P = built(cls)
            P.fields0 = fields(P)
            asked(P)
            rep.saw(P.R.I)
            try:
                f(P, cls, where(cls, 'query_best_solution'))
            except Unclear as u:
                rep.ob(rule, cls, None, where(cls, 'query_best_solution'), str(u))
        rep.guard(rule, cls, go, where(cls, 'query_best_solution'))


def R04(rep):
    rep.rule('terminals', 'the search runs between two distinct vertices the query itself added')
    rep.rule('own', 'each terminal is linked only to samples chosen for its own point, and only terminals get links')
    rep.rule('removed', 'both terminals are removed again on every path that returns or raises')
    rep.rule('state', 'nothing else of the planner or its roadmap changes')

    def q(P, cls, w):
        evs = P.R.since(P.k)
        ends = search_ends(P)
        if ends is None:
            rep.ob('terminals', cls, None, w, 'no search is run')
            return
        s, t, se = ends
        ts = terminals(P)
        tv = [x for x, _ in ts]
        rep.ob('terminals', cls + '.distinct', True if s in tv and t in tv and s is not t else False if s is t else None, se.where(), 'searches from %s to %s' % (show(s), show(t)))
        for nm, x in (('start', s), ('goal', t)):
            ok = x in tv
            rep.ob('terminals', '%s.%s' % (cls, nm), True if ok else False if is_new(P, x) is False else None, se.where(),
                   'vertex %s, added: %s' % (show(x), ', '.join(show(y) for y in tv)))
        rep.ob('terminals', cls + '.count', True if len(ts) == 2 else False, w, '%d vertices added' % len(ts))
        # links
        S = samples(P)
        N = P.R.I.length(P.R.st, P.attr('prm_samples'))
        ls, _ = links(P)
        for i, v, e in ls:
            pt = 'START' if tv[i] is s else 'GOAL' if tv[i] is t else None
            other = {'START': 'GOAL', 'GOAL': 'START'}.get(pt)
            if v in tv:
                rep.ob('own', '%s.%s' % (cls, pt), False, e.ev.where(), 'links the two terminals to each other')
                continue
            foreign = roots(e.cond, [other]) | roots(v, [other]) if pt else set()
            inr = implies3(andd(P.R.st.pc, bounds(e.binders), e.cond), andd(le(ZERO, v), lt(v, N)))
            rep.ob('own', '%s.%s' % (cls, pt), inr if pt and not foreign else None if pt is None else own(P, pt, v, e, N, ts[i][1].pc), e.ev.where(),
                   'terminal of %s linked to %s when %s' % (pt, show(v)[:80], show(e.cond)[:250]))
        # removal
        g = P.before
        last = max([e.seq for e in evs if e.name in ('.getPath', '.run', '.getDistance', '.addEdge', '.addNodes', '.addNode')] or [0])
        for x, ae in ts:
            rm = [e for e in evs if e.name == '.removeNode' and argn(P, e, 0, 'u') is x]
            nm = 'start' if x is s else 'goal' if x is t else show(x)
            if graph_of(P, ae) is not g:
                copy = not any(graph_of(P, ae) is l for c, l in leaves(g))
                rep.ob('removed', '%s.%s' % (cls, nm), True if copy and is_graph(graph_of(P, ae)) else None, ae.where(), 'added to %s' % show(graph_of(P, ae))[:80])
                continue
            sure = [certain(P, e, ae.pc) for e in rm]
            v = True if True in sure else None if None in sure or any(e.binders for e in evs if e.name == '.removeNode') else False
            if v is True:
                ok = [e for e, c in zip(rm, sure) if c is True]
                v = True if ok[0].seq > last else False if ok[0].seq < se.seq else None
            elif v is None and not any(e.binders or e.whiles for e in rm):
                v = False if missed(P, orr(*[e.pc for e in rm]), andd(P.R.st.pc, ae.pc)) else None
            rep.ob('removed', '%s.%s' % (cls, nm), v, (rm[0] if rm else ae).where(),
                   'removed when %s' % (show(orr(*[e.pc for e in rm]))[:300] if rm else 'never'))
            for r in P.R.I.raises:
                if r.seq > ae.seq and not any(e.seq < r.seq and implies3(r.pc, e.pc) is True for e in rm):
                    c = implies3(r.pc, FALSE)
                    rep.ob('removed', '%s.%s.raise' % (cls, nm), c, r.where(), 'raises %s with the terminal still in the roadmap' % r.vals)
        # everything else
        for e in evs:
            if e.name not in CHANGES or not any(graph_of(P, e) is l for c, l in leaves(g)):
                continue
            if e.name in ('.addNode', '.addNodes', '.addEdge'):
                continue
            if e.name == '.removeNode':
                x = argn(P, e, 0, 'u')
                rep.ob('state', '%s.removeNode' % cls, True if x in tv else False if is_new(P, x) is False else None, e.where(), 'removes %s' % show(x)[:80])
                continue
            rep.ob('state', '%s%s' % (cls, e.name), None if e.name in ('.sortEdges', '.compactEdges') else False, e.where(), 'changes the roadmap')
        f1 = fields(P)
        for a in sorted(set(f1) | set(P.fields0)):
            o, m = P.fields0.get(a), f1.get(a)
            if o is m:
                r = True
            elif o is None or m is None:
                r = None if read_later(a) is False else False
            else:
                r = same(m, o)
                if r is False and not read_later(a):
                    r = True
            if r is not True:
                rep.ob('state', '%s.%s' % (cls, a), r, w, 'field was %s, is %s' % (show(o)[:80] if o is not None else None, show(m)[:80] if m is not None else None))
        rep.ob('state', cls, True, w, '%d fields compared' % len(f1))
    each_query(rep, 'terminals', q)


def own(P, pt, v, e, N, pc):
    """the terminal's links mention the other point: is there a situation where the other point decides them?"""
    other = {'START': 'GOAL', 'GOAL': 'START'}[pt]
    m = {x: sym(other + "'", *x.args[1:]) for t in (e.cond, v, pc) for x in subterms(t) if x.op == 'sym' and x.args[0] == other}
    f = reindex(e, [v], [A_])
    if f is None:
        return None
    return implies3(andd(P.R.st.pc, le(ZERO, A_), lt(A_, N), pc, subst(pc, m), f.cond), subst(f.cond, m))


def is_new(P, x):
    """False when x is certainly an ordinary vertex number"""
    return None if x is None or any(y.op == 'call' and y.args[0] in ('.addNodes', '.addNode') for y in subterms(x)) else False


_READ = {}


def read_later(a):
    """is the attribute read anywhere in the module, other than where it is written"""
    if a not in _READ:
        _READ[a] = any(isinstance(nd, ast.Attribute) and nd.attr == a and isinstance(nd.ctx, ast.Load)
                       for m in repo().modules.values() for nd in ast.walk(m.tree))
    return _READ[a]


# ---------------------------------------------------------------- R05

SEARCH = {'networkit.distance.BidirectionalDijkstra'}
OTHER = {'networkit.distance.BidirectionalBFS', 'networkit.distance.BFS'}


def R05(rep):
    rep.rule('search', 'one weighted shortest-path search from the start vertex to the goal vertex of the linked roadmap is run to completion')
    rep.rule('distance', 'the returned distance is that search\'s distance')
    rep.rule('path', 'the returned path is the coordinates of the vertices that search visited, in order')

    def q(P, cls, w):
        evs = P.R.since(P.k)
        ans = P.answer
        ret = ans.items if isinstance(ans, Tup) else None
        if ret is None or len(ret) != 2:
            rep.ob('distance', cls, None, w, 'returns %s' % show(P.closed(ans))[:100])
            return
        se = [e for e in evs if e.name.startswith('networkit.distance.')]
        if not se:
            rep.ob('search', cls, None, w, 'no search is run')
            return
        D, path = P.closed(ret[0]), P.closed(ret[1])
        S = samples(P)
        by = {e.result: e for e in se}
        gd = {e.result: e for e in evs if e.name == '.getDistance'}
        gp = {e.result: e for e in evs if e.name == '.getPath'}
        src, when, vd = found(P, D, gd, links(P)[0])
        rep.ob('distance', cls, vd, src.where() if src else w, 'returns %s' % show(D)[:200])
        # the path
        used = [x for x in subterms(path) if x in gp]
        pe = gp[used[0]] if used else None
        if pe is None:
            rep.ob('path', cls, None, w, 'returns %s' % show(path)[:200])
        else:
            rep.ob('path', cls, path_is(P, path, pe.result, S, when), pe.where(), 'returns %s' % show(path)[:200])
        # the search
        objs = {P.closed(e.recv) for e in (src, pe) if e is not None}
        if len(objs) != 1:
            rep.ob('search', cls, False if len(objs) == 2 else None, w, 'distance and path come from %s' % ', '.join(show(o)[:60] for o in objs))
            return
        ob = by.get(objs.pop())
        if ob is None:
            rep.ob('search', cls, None, w, 'the search object is not understood')
            return
        ends = (argn(P, ob, 1, 'source'), argn(P, ob, 2, 'target'))
        g = argn(P, ob, 0, 'G')
        rep.ob('search', cls + '.kind', True if ob.name in SEARCH else False if ob.name in OTHER else None, ob.where(), ob.name)
        ls, ts = links(P)
        rep.ob('search', cls + '.graph', True if g is P.before and all(graph_of(P, e.ev) is g for _, _, e in ls)
               else None, ob.where(), 'searches %s' % show(g)[:80])
        rep.ob('search', cls + '.order', True if all(e.ev.seq < ob.seq for _, _, e in ls) else
               False if any(e.ev.seq > run_of(P, evs, ob) for _, _, e in ls) else None, ob.where(), 'constructed before every link is made')
        # which terminal is whose: by the point that decides its links
        for nm, vtx, pt in (('start', ends[0], 'START'), ('goal', ends[1], 'GOAL')):
            about = set()
            for i, v, e in ls:
                if ts[i][0] is vtx:
                    about |= roots(e.cond, ['START', 'GOAL']) | (roots(e.w, ['START', 'GOAL']) if e.w is not None else set())
            rep.ob('search', '%s.%s' % (cls, nm), True if about == {pt} else False if about == {'START', 'GOAL'} - {pt} else None, ob.where(),
                   'searches with %s end %s, linked by %s' % (nm, show(vtx), sorted(about)))
        runs = [e for e in evs if e.name == '.run' and P.closed(e.recv) is ob.result]
        sure = [certain(P, e, when) for e in runs]
        reads = [e for e in (src, pe) if e is not None]
        ok = [e for e, c in zip(runs, sure) if c is True]
        v = None if None in sure else False
        if ok:
            v = True if all(ok[0].seq < e.seq for e in reads) else False
        rep.ob('search', cls + '.run', v, (runs[0] if runs else ob).where(), 'run before its results are read')
        rm = [e for e in evs if e.name in ('.removeNode', '.removeEdge', '.removeAllEdges') and graph_of(P, e) is g]
        if ok:
            rep.ob('search', cls + '.linked', True if all(e.seq > ok[0].seq for e in rm) else False if any(e.seq < ob.seq for e in rm) else None,
                   ob.where(), 'run while the terminals are in the roadmap')
    each_query(rep, 'search', q)


def run_of(P, evs, ob):
    s = [e.seq for e in evs if e.name == '.run' and P.closed(e.recv) is ob.result]
    return min(s) if s else ob.seq


def found(P, D, gd, ls):
    """(getDistance event, condition under which the returned distance is its result, verdict)"""
    src, when, verdict = None, FALSE, True
    for c, x in leaves(D):
        if x in gd:
            if src is not None and src is not gd[x]:
                return src, TRUE, None
            src, when = gd[x], orr(when, c)
            continue
    if src is None:
        calls = [x for x in subterms(D) if x in gd]
        if calls:
            src, when = gd[calls[0]], TRUE
    if src is None:
        return None, TRUE, None
    r = src.result
    when = orr(when, nott(pred('reached', r)))
    for c, x in leaves(D):
        if x is r:
            # the search's number stands for a length only when it reached its target
            v = True
        elif x is INF:
            # no search result: right when the search found nothing, or when a terminal has no link at all
            v = True if implies3(c, nott(pred('reached', r))) is True else None
            if v is None and any(c2 is not c for c2, _ in leaves(D)):
                when = andd(when, nott(c))
        elif not has_unknown(D) and vocab(x) <= ALLOWED:
            v = implies3(andd(P.R.st.pc, c), eq(x, r))
        else:
            v = None
        verdict = both(verdict, v)
    return src, when, verdict


def path_is(P, t, p0, S, when):
    """is t the rows S[p0[i]], i = 0 .. len-1, in order (whenever the search is what the query returns)"""
    v = True
    for c, x in leaves(t):
        if implies3(andd(P.R.st.pc, when, c), FALSE) is True:
            continue
        v = both(v, path_rows(x, p0, S))
    return v


def path_rows(t, p0, S):
    i, x = sym('i*', 'in'), sym('x*', 'in')
    if t.op == 'lam' and len(t.args[1]) in (1, 2) and t.args[2] is TRUE:
        if t.args[1][0] is not _mk('len', p0):
            return len_differs(t.args[1][0], p0)
        got = at(t, i, x)
        want = at(S, at(p0, i), x)
        if got is want or logic.equal(got, want) is True:
            return True
        return implies3(andd(le(ZERO, i), lt(i, _mk('len', p0)), le(ZERO, x), lt(x, d)), eq(got, want))
    return None


def len_differs(n1, p0):
    return implies3(TRUE, eq(n1, _mk('len', p0)))


# ---------------------------------------------------------------- R10, R11

def rows_of(v):
    """the rows an evaluated array holds, in order"""
    if isinstance(v, tuple) and v and v[0] == 'lam':
        return tuple(rows_of(x) for _, x in v[2])
    if isinstance(v, tuple) and v and v[0] == 'tup':
        return tuple(rows_of(x) for x in v[1:])
    return v


def refuted_by(test, *ts, tries=300, make=None):
    """some interpretation of the extracted arrays makes the test on their values fail"""
    if any(entangled(t) or has_unknown(t) or not logic.understood(t) or not vocab(t) <= ALLOWED for t in ts):
        return False
    hits = 0
    import time
    t0 = time.time()
    for s in range(tries):
        if time.time() - t0 > 40:
            return False
        I = make(s, {}) if make else teval.Interp(s)
        try:
            if test(*[rows_of(I.ev(t)) for t in ts]) is False:
                return True
            hits += 1
        except teval.ERR:
            if s > 60 and not hits:
                return False
    return False


def mp(cls):
    P = Planner(cls)
    P.set_attr('in_mp_exp_mode', TRUE)
    P.grow()
    return P


def linked(P, vertex_term_of):
    """condition under which a sample A_ is linked to each end by a best-path query on the same roadmap"""
    asked(P)
    ls, ts = links(P)
    ends = search_ends(P)
    if ends is None:
        raise Unclear('no search is run')
    out = []
    for t in ends[:2]:
        fam = []
        for i, s, e in ls:
            if ts[i][0] is t:
                f = reindex(e, [s], [A_])
                if f is None:
                    raise Unclear('links do not enumerate samples')
                fam.append(f.cond)
        out.append(orr(*fam))
    return out


def R10(rep):
    rep.rule('pairs', 'every combination of a start-side and a goal-side vertex is listed exactly once, start side first')
    rep.rule('rows', 'coordinates, distances and ids of a row describe the same combination')
    for cls in (KNN, RADIUS):
        def go(cls=cls):
            w = where(cls, 'query_all_graph_connections')
            P = mp(cls)
            gs, gg = linked(P, None)
            S = samples(P)
            N = P.R.I.length(P.R.st, P.attr('prm_samples'))
            ans = P.R.method(P.obj, 'query_all_graph_connections', P.start, P.goal)
            rep.saw(P.R.I)
            if not isinstance(ans, Tup) or len(ans.items) != 3:
                rep.ob('rows', cls, False if P.closed(ans) is NONE else None, w, 'returns %s' % show(P.closed(ans))[:100])
                return
            C, D, E = [P.closed(x) for x in ans.items]
            sa, sb = sym('s*', 'I'), sym('g*', 'I')
            i0, i1, x = fresh_var(), fresh_var(), fresh_var()
            # reference: goal vertex major, start vertex minor (any order will do: compared as sets)
            cs = subst(gs, {A_: i0})
            cg = subst(gg, {A_: i1})
            rs = lam((i0,), (N,), cs, i0)
            rg = lam((i1,), (N,), cg, i1)
            pre = P.R.st.pc
            ok = None
            o = open_lam(E, None) if E.op == 'lam' else None
            if o is not None and len(o[0]) == 2:
                vs, sz, g, body = o
                p = [at(body, num(q)) for q in (0, 1)]
                if set(p) == set(vs) and all(z is N for z in sz):
                    m = {p[0]: A_, p[1]: B_}
                    code = andd(le(ZERO, A_), lt(A_, N), le(ZERO, B_), lt(B_, N), subst(g, m))
                    ref = andd(le(ZERO, A_), lt(A_, N), le(ZERO, B_), lt(B_, N), gs, subst(gg, {A_: B_}))
                    a, b = implies3(andd(pre, code), ref), implies3(andd(pre, ref), code)
                    ok = both(a, b)
                    rep.ob('pairs', cls, ok, w, 'lists (%s, %s) when %s' % (show(p[0]), show(p[1]), show(g)[:300]))
            if ok is None:
                def test(e, s, g):
                    return sorted(map(tuple, e)) == sorted((float(a), float(b)) for b in g for a in s)
                bad = refuted_by(lambda e, s, g: sorted(tuple(map(float, r)) for r in e) == sorted((float(a), float(b)) for b in g for a in s), E, rs, rg)
                rep.ob('pairs', cls, False if bad else None, w, 'lists %s' % show(E)[:300])
            # rows
            for nm, T0 in (('coordinates', C), ('distances', D)):
                r = None
                o2 = open_lam(T0, None) if T0.op == 'lam' else None
                if o is not None and o2 is not None and len(o2[0]) == len(o[0]):
                    m = dict(zip(o2[0], o[0]))
                    vs, sz, g, body = o
                    g2, b2 = subst(o2[2], m), subst(o2[3], m)
                    if [subst(z, m) for z in o2[1]] == list(sz) and (g2 is g or logic.equiv(g2, g) is True):
                        if nm == 'coordinates':
                            r = True
                            for q in (0, 1):
                                cq = sym('x*', 'in')
                                r = both(r, same(at(b2, num(q), cq), at(S, at(body, num(q)), cq)))
                        else:
                            want = lookup(P, at(body, ZERO), at(body, ONE))
                            r = True if want is not None and (b2 is want or logic.equal(b2, want) is True) else None
                            if r is None and want is not None:
                                r = same(b2, want)
                if r is None:
                    if nm == 'coordinates':
                        Sl = S
                        bad = refuted_by(lambda e, c, s: len(e) == len(c) and all(
                            teval.close(c[i][q], s[int(e[i][q])]) for i in range(len(e)) for q in (0, 1)), E, C, S)
                    else:
                        bad = False
                        if o is not None:
                            want = lookup(P, at(o[3], ZERO), at(o[3], ONE))
                            if want is not None:
                                bad = refuted_by(lambda a, b: len(a) == len(b) and all(teval.close(p, q) for p, q in zip(a, b)),
                                                 D, lam(o[0], o[1], o[2], want))
                    r = False if bad else None
                rep.ob('rows', '%s.%s' % (cls, nm), r, w, '%s rows %s' % (nm, show(T0)[:300]))
        rep.guard('pairs', cls, go, where(cls, 'query_all_graph_connections'))


def lookup(P, a, b):
    """what the planner's distance look-up returns for one start and one goal vertex"""
    va, vb = fresh_var(), fresh_var()
    A = P.R.I.new_arr(P.R.st, [Ax([va], [ONE])], sym('s*', 'I'))
    B = P.R.I.new_arr(P.R.st, [Ax([vb], [ONE])], sym('g*', 'I'))
    r = P.closed(P.R.method(P.obj, '_distance_in_graph', A, B))
    if r.op != 'lam':
        return None
    return subst(at(r, ZERO), {sym('s*', 'I'): a, sym('g*', 'I'): b})


def R11(rep):
    rep.rule('table', 'the table is computed between exactly the samples within the radius in force of the reference path, on the roadmap in force')
    rep.rule('lookup', 'a look-up reads the row of its start vertex and the column of its goal vertex, and is out of range for any other vertex')

    def check(P, name, w):
        evs = P.R.I.events
        S = samples(P)
        N = P.R.I.length(P.R.st, P.attr('prm_samples'))
        pre = P.R.st.pc
        v = lookup(P, sym('s*', 'I'), sym('g*', 'I'))
        if v is None:
            rep.ob('lookup', name, None, w, 'no table')
            return
        s, g = sym('s*', 'I'), sym('g*', 'I')
        r = P.closed(P.attr('conn_r'))
        if r is NONE:
            r = P.closed(P.attr('certified_max_conn_r'))
        for c, leaf in leaves(v):
            hit = [t for t, _ in P.tables if leaf.op == 'at' and leaf.args[0] is t and len(leaf.args) == 3]
            if not hit:
                dead = implies3(andd(pre, c), FALSE)
                if dead is not True:
                    rep.ob('lookup', name, None, w, 'reads %s' % show(leaf)[:200])
                continue
            t = hit[0]
            ob = [o for q, o in P.tables if q is t][0]
            made = [e for e in evs if e.result is ob]
            tg = [e for e in evs if e.name == '.setTargets' and e.recv is ob]
            runs = [e for e in evs if e.name == '.run' and e.recv is ob]
            got = [e for e in evs if e.name == '.getDistances' and e.recv is ob]
            src = argn(P, made[0], 1, 'sources')
            tgt = argn(P, tg[-1], 0, 'targets') if tg else None
            if tgt is None:
                rep.ob('table', name + '.targets', None, made[0].where(), 'no targets are set')
                continue
            rep.ob('table', name + '.targets', True if src is tgt or logic.equal(src, tgt) is True else False if refuted_by(lambda a, b: a == b, src, tgt) else None, tg[-1].where(), 'targets %s' % show(tgt)[:200])
            rep.ob('table', name + '.run', True if runs and runs[0].seq < got[0].seq and tg[-1].seq < runs[0].seq else False, made[0].where(),
                   'run after its targets are set and before it is read')
            graph = argn(P, made[0], 0, 'G')
            cur = P.closed(P.attr('prm_graph'))
            now = any(graph is l or graph is cur for _, l in leaves(cur)) or graph is cur
            rep.ob('table', name + '.graph', True if now else False if is_graph(graph) and all(is_graph(l) for _, l in leaves(cur)) else None,
                   made[0].where(), 'computed on %s, the roadmap is %s' % (show(graph)[:60], show(cur)[:60]))
            late = [e for e in evs if e.name in CHANGES and e.seq > (runs[0].seq if runs else made[0].seq) and any(graph_of(P, e) is l for _, l in leaves(graph))]
            rep.ob('table', name + '.fresh', not late, (late[0] if late else made[0]).where(), 'the roadmap does not change after the table is computed')
            mem = member(src, N)
            if mem is None:
                rep.ob('table', name + '.sources', None, made[0].where(), 'sources %s' % show(src)[:200])
                continue
            inr = lambda x: andd(le(ZERO, x), lt(x, N))
            ref = le(fn('sdf', row(S, A_)), r)
            x = andd(pre, c, inr(A_))
            rep.ob('table', name + '.sources', both(implies3(andd(x, mem(A_)), ref), implies3(andd(x, ref), mem(A_))), made[0].where(),
                   'sources %s' % show(src)[:250])
            rank = lambda y: _mk('rank', lam(*src_lam(src)), y)
            for q, y in ((0, s), (1, g)):
                p = leaf.args[1 + q]
                x = andd(pre, c, inr(s), inr(g))
                a = implies3(andd(x, mem(y)), eq(p, rank(y)))
                many = count(lam(*src_lam(src)))
                b = implies3(andd(x, nott(mem(y)), le(many, N)), le(many, p))
                rep.ob('lookup', '%s.%s' % (name, 'row' if q == 0 else 'column'), both(a, b), w, 'index %s' % show(p)[:250])

    def each(name, make, w):
        def go():
            P = make()
            rep.saw(P.R.I)
            try:
                check(P, name, w)
            except Unclear as u:
                rep.ob('lookup', name, None, w, str(u))
        rep.guard('lookup', name, go, w)

    def tuned():
        P = mp(KNN)
        P.R.method(P.obj, 'set_connection_radius', sym('r_new', 'n'))
        return P

    def tuned_k():
        P = tuned()
        P.R.method(P.obj, 'set_nearest_neighbors', sym('k_new', 'pi'))
        return P

    def grown():
        P = mp(RADIUS)
        P.grow(n2)
        return P
    each('%s.build' % KNN, lambda: mp(KNN), where(KNN, 'grow_to_n_samples'))
    each('%s.radius' % KNN, tuned, where(KNN, 'set_connection_radius'))
    each('%s.neighbors' % KNN, tuned_k, where(KNN, 'set_nearest_neighbors'))
    each('%s.build' % RADIUS, lambda: mp(RADIUS), where(RADIUS, 'grow_to_n_samples'))
    each('%s.grow' % RADIUS, grown, where(RADIUS, 'grow_to_n_samples'))


def src_lam(src):
    vs, sz, g, b = open_lam(src, None)
    return vs, sz, g, TRUE


def member(src, N):
    """membership test of a vertex list that enumerates its members in increasing order"""
    if src.op != 'lam':
        return None
    vs, sz, g, b = open_lam(src, None)
    if len(vs) != 1 or b is not vs[0] or sz[0] is not N:
        return None
    return lambda x: subst(g, {vs[0]: x})


# ---------------------------------------------------------------- R06

def draws_of(rep, rule, key, P, S, lo, hi, w):
    """are the rows lo..hi-1 separate draws from the sampler"""
    pre = andd(P.R.st.pc, le(lo, A_), lt(A_, hi), le(lo, B_), lt(B_, hi))
    x = sym('x*', 'in')
    e = at(S, A_, x)
    made = {v.result.args[1]: v for v in P.R.I.events if v.name == 'draw' and v.result is not None}
    ids = []
    v = True
    for c, leaf in leaves(lift(e)):
        if implies3(andd(pre, c), FALSE) is True:
            continue
        if not (leaf.op == 'at' and leaf.args[0].op == 'call' and leaf.args[0].args[0] == 'draw' and leaf.args[1] is x and len(leaf.args) == 2):
            if has_unknown(leaf) or not vocab(leaf) <= ALLOWED:
                v = both(v, None)
            else:
                v = both(v, implies3(andd(pre, c), FALSE))
            continue
        t = leaf.args[0]
        ids.append((c, t))
        ev = made.get(t.args[1])
        # drawn while the condition holds
        args = t.args[2]
        same_ = andd(*[eq(a, subst(a, {A_: B_})) for a in args])
        v = both(v, implies3(andd(pre, c, subst(c, {A_: B_}), same_), eq(A_, B_)))
        if ev is None:
            v = both(v, None)
        elif len(args) == len(ev.binders):
            m = {b[0]: a for b, a in zip(ev.binders, args)}
            v = both(v, implies3(andd(pre, c), andd(*[andd(le(ZERO, a), lt(a, b[1])) for b, a in zip(ev.binders, args)])))
    # different draws on different branches are different calls; the same call on two branches must not repeat
    for i, (c1, t1) in enumerate(ids):
        for c2, t2 in ids[i + 1:]:
            if t1.args[1] == t2.args[1]:
                s = andd(*[eq(a, subst(b, {A_: B_})) for a, b in zip(t1.args[2], t2.args[2])])
                v = both(v, implies3(andd(pre, c1, subst(c2, {A_: B_}), s), FALSE))
    rep.ob(rule, key, v, w, 'rows %s' % show(e)[:300])


def nrows(P, S):
    """number of samples"""
    if S.op == 'ite':
        return ite(S.args[0], nrows(P, S.args[1]), nrows(P, S.args[2]))
    if S.op == 'lam' and len(S.args[1]) == 1:
        vs, sz, g, b = open_lam(S)
        return count(lam(vs, sz, g, TRUE))
    raise Unclear('samples are %s' % show(S)[:100])


def R06(rep):
    rep.rule('count', 'a roadmap grown to n samples holds exactly n samples')
    rep.rule('draws', 'every added sample is a separate draw from the supplied sampler')
    rep.rule('kept', 'every earlier sample keeps its row and its coordinates')
    rep.rule('shrink', 'asking for fewer samples than there are is refused')
    for cls in CLASSES:
        def go(cls=cls):
            w = where(cls, 'grow_to_n_samples')
            P = built(cls)
            S = samples(P)
            N = nrows(P, S)
            rep.saw(P.R.I)
            rep.ob('count', cls + '.build', implies3(P.R.st.pc, eq(N, n)), w, '%s rows' % show(N))
            draws_of(rep, 'draws', cls + '.build', P, S, ZERO, n, w)
            P = regrown(cls)
            S = samples(P)
            N = nrows(P, S)
            rep.saw(P.R.I)
            pre = P.R.st.pc
            # reaching the end without one of its allocations having a negative size
            evs = P.R.since(P.k)
            alloc = andd(*[orr(nott(e.pc), le(ZERO, a)) for e in evs if e.name == 'alloc' and not e.binders for a in e.args])
            pre2 = andd(pre, alloc)
            rep.ob('shrink', cls, implies3(pre2, le(n, n2)), w, 'returns when %s' % show(pre2)[:300])
            fine = andd(pre, lt(n, n2))
            rep.ob('shrink', cls + '.grows', True if implies3(lt(n, n2), nott(pre)) is not True else False, w, 'larger roadmaps are accepted')
            for e in evs:
                if e.name == 'raise' and e.pc is not FALSE:
                    sized = {x for x in subterms(e.pc) if x.op == 'sym'} <= {n, n2}
                    r = implies3(e.pc, le(n2, n))
                    rep.ob('shrink', cls + '.refuses', r if r is True or sized else None, e.where(), 'refuses when %s' % show(e.pc)[:200])
            rep.ob('count', cls + '.grow', implies3(fine, eq(N, n2)), w, '%s rows' % show(N))
            x = sym('x*', 'in')
            old, new = at(P.old, A_, x), at(S, A_, x)
            f = andd(fine, le(ZERO, A_), lt(A_, n), le(ZERO, x), lt(x, d))
            r = implies3(f, eq(new, old))
            rep.ob('kept', cls, r, w, 'row i becomes %s' % show(new)[:300])
            P.R.st.pc = fine
            draws_of(rep, 'draws', cls + '.grow', P, S, n, n2, w)
        def safe():
            try:
                go()
            except Unclear as u:
                rep.ob('count', cls, None, where(cls, 'grow_to_n_samples'), str(u))
        rep.guard('count', cls, safe, where(cls, 'grow_to_n_samples'))
