"""R01-R12: the roadmap planners.

The planners are run abstractly through protocol scenarios (build, grow again, query, retune, reset) against opaque
collaborators; what they do to networkit graphs, files and back ends shows up as events with path conditions."""
import ast
import math
from .scenario import *

GRAPH = 'networkit.Graph'
CLASSES = (FULL, KNN, RADIUS)
n2 = sym('n2', 'pi')
k1 = sym('k1', 'pi')
PASSIVE = {'.addNodes', '.addNode', '.indexEdges', '.hasEdge', '.iterEdges', '.iterEdgesWeights', '.iterNodes', '.numberOfNodes',
           '.numberOfEdges', '.removeEdge', '.removeNode', '.weight', '.degree', '.hasNode', '.isWeighted', '.neighbors',
           '.iterNeighbors', '.iterNeighborsWeights', '.isDirected', '.upperNodeIdBound', '.upperEdgeIdBound', '.totalEdgeWeight'}


class Edge:
    def __init__(self, ev, u, v, w, cond, binders):
        self.ev, self.u, self.v, self.w, self.cond, self.binders = ev, u, v, w, cond, binders

    def at(self, m, cond):
        return Edge(self.ev, subst(self.u, m), subst(self.v, m), None if self.w is None else subst(self.w, m), cond, ())


def argn(P, ev, i, name):
    if len(ev.args) > i:
        return P.closed(ev.args[i])
    if name in ev.kw:
        return P.closed(ev.kw[name])
    return None


def is_graph(t):
    return isinstance(t, T) and t.op == 'obj' and t.args[0] == GRAPH


class Unclear(Exception):
    pass


def path_files(P, evs):
    """graph objects written to a file: path -> [(graph, event)]"""
    out = {}
    for e in evs:
        if e.name == 'networkit.writeGraph':
            out.setdefault(P.closed(e.args[1]) if len(e.args) > 1 else None, []).append((P.closed(e.args[0]), e))
    return out


def edges_of(P, g, evs, cond=TRUE, seen=()):
    """every way the graph object g got an edge: [Edge]; raises Unclear for a source that is not understood"""
    out = []
    if g in seen:
        return out
    seen = seen + (g,)
    for e in evs:
        recv = P.closed(e.recv) if e.recv is not None else None
        if recv is g:
            if e.name == '.addEdge':
                out.append(Edge(e, argn(P, e, 0, 'u'), argn(P, e, 1, 'v'), argn(P, e, 2, 'w'), andd(cond, e.pc), tuple(e.binders)))
            elif e.name not in PASSIVE:
                raise Unclear('%s may add edges (%s)' % (e.name, e.where()))
        elif e.name in ('.merge', 'networkit.graphtools.GraphTools.merge') and len(e.args) == 2 and P.closed(e.args[0]) is g:
            other = P.closed(e.args[1])
            if not is_graph(other):
                raise Unclear('merges %s (%s)' % (show(other)[:60], e.where()))
            out += edges_of(P, other, evs, andd(cond, e.pc), seen)
        elif e.result is g and e.name == GRAPH:
            if e.args and is_graph(P.closed(e.args[0])):
                out += edges_of(P, P.closed(e.args[0]), evs, andd(cond, e.pc), seen)
        elif e.result is g and e.name == 'networkit.readGraph':
            w = path_files(P, evs).get(P.closed(e.args[0]) if e.args else None)
            if not w:
                raise Unclear('reads a graph from a file nothing wrote (%s)' % e.where())
            for h, we in w:
                out += edges_of(P, h, evs, cond, seen)
    return out


def creations(P):
    """constructor calls of the graphs that end up in the roadmap, copies of other graphs aside"""
    evs = P.R.I.events
    out, todo, seen = [], [g for _, g in leaves(P.closed(P.attr('prm_graph'))) if is_graph(g)], set()
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        for e in evs:
            if e.name in ('.merge', 'networkit.graphtools.GraphTools.merge') and len(e.args) == 2 and P.closed(e.args[0]) is g:
                todo += [h for _, h in leaves(P.closed(e.args[1])) if is_graph(h)]
            elif e.result is g and e.name == GRAPH:
                if e.args and is_graph(P.closed(e.args[0])):
                    todo.append(P.closed(e.args[0]))
                    if len(e.args) + len(e.kw) < 2:
                        continue
                out.append(e)
            elif e.result is g and e.name == 'networkit.readGraph':
                todo += [h for h, _ in path_files(P, evs).get(P.closed(e.args[0]) if e.args else None, ()) if is_graph(h)]
    return out


def leaves(t, cond=TRUE):
    """[(condition, leaf)] of a conditional value"""
    if isinstance(t, T) and t.op == 'ite':
        return leaves(t.args[1], andd(cond, t.args[0])) + leaves(t.args[2], andd(cond, nott(t.args[0])))
    return [(cond, t)]


def roadmap_edges(P, evs=None):
    """edges of the roadmap in force"""
    evs = P.R.I.events if evs is None else evs
    out = []
    for c, g in leaves(P.closed(P.attr('prm_graph'))):
        if g is NONE or g.op == 'k':
            continue
        if not is_graph(g):
            raise Unclear('the roadmap is %s' % show(g)[:80])
        out += [Edge(e.ev, e.u, e.v, e.w, andd(c, e.cond), e.binders) for e in edges_of(P, g, evs)]
    return out


def samples(P):
    s = P.closed(P.attr('prm_samples'))
    return s


def row(S, u):
    """coordinates of vertex u as an array"""
    x = fresh_var()
    return lam((x,), (d,), TRUE, at(S, u, x))


def valid(a, b):
    return pred('valid', a, b)


ALLOWED = {('pred', 'valid'), ('pred', 'reached'), ('call', 'draw'), ('fn', 'sdf'), ('fn', 'quantile'), ('nth',), ('len',), ('rank',), ('call', '.getDistance'), ('call', '.addNodes'), ('call', '.addNode'),
           ('call', 'path'), ('call', 'spsp')}


def entangled(t):
    """values carried by a loop whose relation to each other is not known: arrays, flags, or several of one loop"""
    loops = {}
    for x in subterms(t):
        if x.op == 'sym' and '~' in x.args[0]:
            if 'i' not in x.args[1] or x.args[0].startswith('len~'):
                return True
            loops.setdefault(x.args[0].split('~')[1].split('.')[0], set()).add(x.args[0])
    return any(len(v) > 1 for v in loops.values())


def cases(t):
    """minima and maxima of two values as conditional values"""
    for _ in range(4):
        for x in subterms(t):
            if x.op in ('min2', 'max2') and not dangling(x) and len(x.args) == 2:
                a, b = x.args
                t = subst(t, {x: ite(le(a, b), a, b) if x.op == 'min2' else ite(le(a, b), b, a)})
                break
        else:
            break
    return t


def rounding(*ts):
    """what is known of rounded values"""
    fs = []
    for x in sorted({x for t in ts for x in subterms(t) if x.op in ('ceil', 'floor') and not dangling(x)}, key=skey):
        y = x.args[0]
        fs += [le(y, x), lt(x, add(y, ONE))] if x.op == 'ceil' else [le(x, y), lt(y, add(x, ONE))]
        D = 1
        for c in poly_of(y).values():
            D = D * c.denominator // math.gcd(D, c.denominator)
        if 1 < D <= 64 and is_int(mul(num(D), y)):
            gap = num(Fraction(D - 1, D))
            fs.append(le(x, add(y, gap)) if x.op == 'ceil' else le(y, add(x, gap)))
    for x in sorted({x for t in ts for x in subterms(t) if x.op == 'mod' and not dangling(x)}, key=skey):
        if is_pos(x.args[1]):
            fs += [le(ZERO, x), lt(x, x.args[1])]
    return andd(*fs)


def implies3(p, q, make=None):
    """does p imply q: True / False (some interpretation of the inputs separates them) / None"""
    p, q = lift(p), lift(q)
    if logic.valid(implies_t(p, q)) is True:
        return True
    p2, q2 = lift(cases(p)), lift(cases(q))
    if (p2 is not p or q2 is not q) and logic.valid(implies_t(p2, q2)) is True:
        return True
    rf = rounding(p2, q2)
    if rf is not TRUE and logic.valid(implies_t(andd(rf, p2), q2)) is True:
        return True
    bad = andd(p, nott(q))
    m = {}
    for x in subterms(bad):
        # an optional argument: given or not, and then of any value
        if x.op in ('isnone', 'truth') and x.args[0].op == 'sym':
            none = sym('%s?' % x.args[0].args[0], 'b')
            m[x] = none if x.op == 'isnone' else andd(nott(none), sym('%s??' % x.args[0].args[0], 'b'))
    bad = subst(bad, m)
    if not logic.understood(bad) or has_unknown(bad):
        return None
    if not vocab(bad) <= ALLOWED or entangled(bad):
        return None
    return False if teval.differ(bad, FALSE, TRUE, 400, 6.0, make) is True or teval.witness(bad, make=make or teval.Guided) else None


def bounds(binders):
    """facts 0 <= v < size"""
    return andd(*[andd(le(ZERO, v), lt(v, s)) for v, s in binders])


def in_range(P, *ts):
    """vertex ids a back end reports are rows of the data it was given (its contract, A01)"""
    fs = []
    for t in ts:
        for b, x in tables(P, t):
            if not dangling(x):
                fs += [le(ZERO, x), lt(x, b[3])]
    return andd(*fs)


def solve(t, v, val):
    """value of the variable v for which the (linear) term t equals val"""
    p = poly_of(t)
    for m, c in p.items():
        if len(m) == 1 and m[0] == (v, 1) and abs(c) == 1:
            rest = sub(t, mul(num(c), v))
            if v in fvs(rest):
                return None
            return mul(num(c), sub(val, rest)) if c == 1 else sub(rest, val)
    return None


def reindex(e, terms, vals):
    """the edge family e with its binders chosen so that terms equal vals; None when they do not determine the binders"""
    m = {}
    todo = list(zip(terms, vals))
    left = [v for v, _ in e.binders]
    for _ in range(len(todo) + 1):
        for t, x in list(todo):
            t2 = subst(t, m)
            un = [v for v in left if v in fvs(t2)]
            if not un:
                continue
            if len(un) == 1:
                s = solve(t2, un[0], x)
                if s is None:
                    return None
                m[un[0]] = s
                left.remove(un[0])
                todo.remove((t, x))
    if left:
        return None
    cond = andd(subst(e.cond, m), *[andd(le(ZERO, m[v]), lt(m[v], subst(s, m))) for v, s in e.binders],
                *[eq(subst(t, m), x) for t, x in todo])
    return e.at(m, cond)


def tables(P, t):
    """look-ups ids[a, b] of a neighbour back end's answers in t"""
    out = []
    for b in P.ann.builds:
        for x in subterms(t):
            if x.op == 'at' and x.args[0] is b[1] and len(x.args) == 3:
                out.append((b, x))
    return out


# ---------------------------------------------------------------- scenarios

def built(cls, **over):
    P = Planner(cls, **over)
    P.grow()
    return P


def regrown(cls, **over):
    P = built(cls, **over)
    P.k = P.R.mark()
    P.old = samples(P)
    P.grow(n2)
    return P


def asked(P):
    P.start, P.goal = P.R.array('START', d), P.R.array('GOAL', d)
    P.before = P.closed(P.attr('prm_graph'))
    P.k = P.R.mark()
    P.answer = P.R.method(P.obj, 'query_best_solution', P.start, P.goal)
    return P


def queried(cls, tuned=False):
    P = built(cls)
    if tuned:
        P.R.method(P.obj, 'set_connection_radius', sym('r_new', 'n'))
    return asked(P)


def where(cls, m):
    m0 = repo().module(PRM)
    for q in (cls + '.' + m, 'SimplePRM.' + m):
        if q in m0.functions:
            return fdef(repo(), PRM, q)
    return m0.rel


def scen(rep, rule, f):
    """the scenarios of every planner class"""
    for cls in CLASSES:
        for name, make in (('build', built), ('grow', regrown)):
            def go(cls=cls, name=name, make=make):
                P = make(cls)
                rep.saw(P.R.I)
                try:
                    f(P, cls, '%s.%s' % (cls, name), where(cls, 'grow_to_n_samples'))
                except Unclear as u:
                    rep.ob(rule, '%s.%s' % (cls, name), None, where(cls, 'grow_to_n_samples'), str(u))
            rep.guard(rule, '%s.%s' % (cls, name), go, where(cls, 'grow_to_n_samples'))


def terminals(P):
    """vertex ids the query added, in the order they were created, from its addNodes events"""
    out = []
    for e in P.R.since(P.k):
        if e.name == '.addNode':
            out.append((e.result, e))
        elif e.name == '.addNodes':
            c = cval(argn(P, e, 0, 'numberOfNewNodes'))
            if c is None:
                raise Unclear('addNodes of an unknown count')
            for i in range(int(c)):
                out.append((sub(e.result, num(int(c) - 1 - i)), e))
    return out


def links(P):
    """[(terminal index, sample vertex, Edge)] of the query's own edges"""
    ts = terminals(P)
    out = []
    for e in P.R.since(P.k):
        if e.name != '.addEdge':
            continue
        u, v, w = argn(P, e, 0, 'u'), argn(P, e, 1, 'v'), argn(P, e, 2, 'w')
        ed = Edge(e, u, v, w, e.pc, tuple(e.binders))
        for i, (t, _) in enumerate(ts):
            if u is t:
                out.append((i, v, ed))
                break
            if v is t:
                out.append((i, u, ed))
                break
        else:
            raise Unclear('links %s to %s' % (show(u)[:60], show(v)[:60]))
    return out, ts


def search_ends(P):
    """(source, target) vertex terms of the search the query runs"""
    for e in P.R.since(P.k):
        if e.name.startswith('networkit.distance.') and len(e.args) + len(e.kw) >= 2:
            s = argn(P, e, 1, 'source')
            t = argn(P, e, 2, 'target')
            if s is not None:
                return s, t, e
    return None


# ---------------------------------------------------------------- R01

def R01(rep):
    rep.rule('edge', 'every edge of the roadmap joins two samples whose straight motion the checker accepted')
    rep.rule('link', 'every link of a query joins its own point to a sample with an accepted motion between them')
    rep.rule('extern', 'no other code adds edges to a roadmap')

    def build(P, cls, name, w):
        es = roadmap_edges(P)
        S = samples(P)
        if not es:
            rep.ob('edge', name, None, w, 'no edge is ever added')
        for e in es:
            ok = orr(valid(row(S, e.u), row(S, e.v)), valid(row(S, e.v), row(S, e.u)))
            r = implies3(andd(bounds(e.binders), in_range(P, e.u, e.v), e.cond), ok)
            rep.ob('edge', name, r, e.ev.where(), 'edge (%s, %s) is added when %s' % (show(e.u)[:80], show(e.v)[:80], show(e.cond)[:300]))
    scen(rep, 'edge', build)

    for cls in CLASSES:
        def q(cls=cls):
            P = queried(cls)
            S = samples(P)
            w = where(cls, 'query_best_solution')
            try:
                ls, ts = links(P)
                ends = search_ends(P)
            except Unclear as u:
                rep.ob('link', cls, None, w, str(u))
                return
            if not ls or ends is None:
                rep.ob('link', cls, None, w, 'no link is made')
                return
            for i, s, e in ls:
                t = ts[i][0]
                pt = P.closed(P.start) if t is ends[0] else P.closed(P.goal) if t is ends[1] else None
                if pt is None:
                    rep.ob('link', cls, None, e.ev.where(), 'vertex %s is not an end of the search' % show(t))
                    continue
                x = fresh_var()
                a = lam((x,), (d,), TRUE, at(pt, x))
                ok = orr(valid(a, row(S, s)), valid(row(S, s), a))
                rep.ob('link', '%s.%s' % (cls, 'start' if t is ends[0] else 'goal'), implies3(andd(bounds(e.binders), e.cond), ok),
                       e.ev.where(), 'links when %s' % show(e.cond)[:300])
        rep.guard('link', cls, q, where(cls, 'query_best_solution'))
    extern(rep)


ADDERS = {'addEdge', 'addEdges', 'merge', 'setWeight', 'increaseWeight', 'swapEdge', 'append'}


def extern(rep):
    """call sites that could change a roadmap's edges, and whether a scenario above covers them"""
    seen = set()
    for cls in CLASSES:
        P = queried(cls)
        seen |= {(e.file, e.line) for e in P.R.I.events if e.name.split('.')[-1] in ADDERS}
        P = regrown(cls)
        seen |= {(e.file, e.line) for e in P.R.I.events if e.name.split('.')[-1] in ADDERS}
    for m in repo().modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ADDERS - {'append'}:
                ok = (m.rel, node.lineno) in seen
                rep.ob('extern', '%s' % node.func.attr, True if ok else None, '%s:%d' % (m.rel, node.lineno),
                       'covered by the scenarios' if ok else 'not reached by any scenario')


# ---------------------------------------------------------------- R02

def dist(a, b):
    """Euclidean distance of two points given as functions of the coordinate"""
    x = fresh_var()
    df = sub(a(x), b(x))
    return power(red('+', lam((x,), (d,), TRUE, mul(df, df))), HALF)


HALF = div(ONE, num(2))


def pair_dist(S, u, v):
    return dist(lambda x: at(S, u, x), lambda x: at(S, v, x))


def by_contract(P, S, t):
    """reported distances replaced by what they are by the back end's contract (A01): the distance to that neighbour"""
    for b in P.ann.builds:
        m = {}
        for x in subterms(t):
            if x.op == 'at' and x.args[0] is b[2] and len(x.args) == 3 and not dangling(x):
                m[x] = pair_dist(S, x.args[1], at(b[1], x.args[1], x.args[2]))
        if m:
            t = subst(t, m)
    return t


def weight(rep, rule, key, P, e, pre, want, S):
    if e.w is None:
        rep.ob(rule, key, False, e.ev.where(), 'the edge is added without a weight (it counts as 1)')
        return
    wt = by_contract(P, S, e.w)
    if wt is want or logic.equal(wt, want) is True:
        r = True
    else:
        r = implies3(pre, eq(wt, want))
        if r is not True and not P_understood(wt):
            r = None
    rep.ob(rule, key, r, e.ev.where(), 'weight %s of edge (%s, %s)' % (show(e.w)[:200], show(e.u)[:60], show(e.v)[:60]))


def P_understood(t):
    return logic.understood(t) and not has_unknown(t)


def R02(rep):
    rep.rule('edge', 'every edge of the roadmap is weighted with the distance of its own endpoints')
    rep.rule('link', 'every link of a query is weighted with the distance of the query point to that very sample')
    rep.rule('weighted', 'every graph a roadmap is made from keeps the weights of its edges')

    def build(P, cls, name, w):
        es = roadmap_edges(P)
        for e in creations(P):
            a = argn(P, e, 1, 'weighted')
            rep.ob('weighted', name, False if a is None else implies3(e.pc, truth(a)), e.where(), 'weighted=%s' % (show(a) if a is not None else 'default'))
        S = samples(P)
        if not es:
            rep.ob('edge', name, None, w, 'no edge is ever added')
        for e in es:
            pre = andd(bounds(e.binders), in_range(P, e.u, e.v), e.cond)
            weight(rep, 'edge', name, P, e, pre, pair_dist(S, e.u, e.v), S)
    scen(rep, 'edge', build)

    for cls in CLASSES:
        def q(cls=cls):
            P = queried(cls)
            S = samples(P)
            try:
                ls, ts = links(P)
                ends = search_ends(P)
            except Unclear as u:
                rep.ob('link', cls, None, where(cls, 'query_best_solution'), str(u))
                return
            for i, s, e in ls:
                t = ts[i][0]
                pt = P.closed(P.start) if ends and t is ends[0] else P.closed(P.goal) if ends and t is ends[1] else None
                if pt is None:
                    rep.ob('link', cls, None, e.ev.where(), 'vertex %s is not an end of the search' % show(t))
                    continue
                want = dist(lambda x: at(pt, x), lambda x: at(S, s, x))
                weight(rep, 'link', '%s.%s' % (cls, 'start' if t is ends[0] else 'goal'), P, e, andd(bounds(e.binders), e.cond), want, S)
        rep.guard('link', cls, q, where(cls, 'query_best_solution'))


# ---------------------------------------------------------------- R03

A_, B_ = sym('a', 'i'), sym('b', 'i')


def by_table(P, es):
    """edges grouped by the back end answer they enumerate: {build: [(edge over row A_ and position B_)]}, plus the others"""
    out, rest = {}, []
    for e in es:
        hit = None
        for b, x in tables(P, e.v) + tables(P, e.u):
            other = e.u if x is e.v else e.v if x is e.u else None
            if other is not None and x.args[1] is other:
                r = reindex(e, [x.args[1], x.args[2]], [A_, B_])
                if r is not None:
                    hit = (b, r)
                break
        if hit:
            out.setdefault(hit[0][1], (hit[0], []))[1].append(hit[1])
        else:
            rest.append(e)
    return out, rest


def lower_table(P, S, b, es, lo, r, pre):
    """every reported neighbour (within r) of rows lo.. with an accepted motion is linked"""
    v = at(b[1], A_, B_)
    # self links aside
    want = [le(lo, A_), lt(A_, b[3]), le(ZERO, B_), lt(B_, b[4]), le(ZERO, v), lt(v, b[3]), nott(eq(v, A_)), pre,
            valid(row(S, A_), row(S, v)), valid(row(S, v), row(S, A_))]
    if r is not None:
        want.append(le(at(b[2], A_, B_), r))
    return implies3(andd(*want), orr(*[e.cond for e in es]))


def both(a, b):
    return False if a is False or b is False else None if a is None or b is None else True


def once(rep, P, name, es):
    """no pair of samples is linked by two parallel edges"""
    for e in es:
        ev = e.ev
        a = argn(P, ev, 4, 'checkMultiEdge')
        if a is not None and implies3(ev.pc, truth(a)) is True:
            r = True
        elif any(absent_edge(P, ev, h, e) for h in P.R.I.events):
            r = True
        elif any(h.name == '.hasEdge' and h.recv is ev.recv and h.seq < ev.seq and mentions(ev.pc, h.result) for h in P.R.I.events):
            r = None
        else:
            v = implies3(andd(bounds(e.binders), in_range(P, e.u, e.v), e.cond), lt(e.u, e.v))
            w = True if v is True else implies3(andd(bounds(e.binders), in_range(P, e.u, e.v), e.cond), lt(e.v, e.u))
            r = True if w is True else None if v is None or w is None else False
            same = [x for x in es if x.ev.recv is ev.recv]
            if len(same) > 1 and r is True:
                r = None
        rep.ob('once', name, r, ev.where(), 'edge (%s, %s)' % (show(e.u)[:60], show(e.v)[:60]))


def absent_edge(P, ev, h, e):
    """h asked the graph for that very edge, and the edge is added only when it was absent"""
    return h.name == '.hasEdge' and h.recv is ev.recv and h.seq < ev.seq and isinstance(h.result, T) and len(h.args) == 2 \
        and {P.closed(x) for x in h.args} == {e.u, e.v} and h.binders == ev.binders and implies3(ev.pc, nott(truth(h.result))) is True


def mentions(t, x):
    return isinstance(x, T) and any(y is x for y in subterms(t))


def linked_within(rep, P, cls, name, w):
    """the roadmap holds exactly the pairs the radius in force (or the lists) asks for"""
    S = samples(P)
    r = P.closed(P.attr('conn_r'))
    radius = None if r is NONE else r
    pre = P.R.st.pc
    N = P.R.I.length(P.R.st, P.attr('prm_samples'))
    evs = P.R.I.events
    for c, g in leaves(P.closed(P.attr('prm_graph'))):
        if not is_graph(g):
            raise Unclear('the roadmap is %s' % show(g)[:80])
        es = edges_of(P, g, evs)
        once(rep, P, name, es)
        # a pair left out because the graph has that edge already is linked all the same
        for e in es:
            for h in evs:
                if h.name == '.hasEdge' and absent_edge(P, e.ev, h, e):
                    e.cond = subst(e.cond, {truth(h.result): FALSE})
        if radius is not None:
            for e in es:
                far = by_contract(P, S, andd(bounds(e.binders), in_range(P, e.u, e.v), pre, c, e.cond))
                rep.ob('within', name, implies3(far, le(pair_dist(S, e.u, e.v), radius)), e.ev.where(),
                       'edge (%s, %s) when %s' % (show(e.u)[:60], show(e.v)[:60], show(e.cond)[:200]))
        groups, rest = by_table(P, es)
        if groups:
            cover = []
            verdict = False
            for b, le_ in groups.values():
                full = lower_table(P, S, b, le_, ZERO, radius, andd(pre, c))
                part = full if full is True else lower_table(P, S, b, le_, n, radius, andd(pre, c)) if name.endswith('grow') else full
                cover.append((b, full, part))
            for b, full, part in cover:
                if b[3] is N and full is True:
                    verdict = True
                elif b[3] is N and part is True and any(q[1] is True and q[0][3] is n for q in cover):
                    verdict = True
            if verdict is False and any(None in q[1:] for q in cover):
                verdict = None
            if verdict is False and rest:
                verdict = None
            rep.ob('all', name, verdict, w, 'tables %s' % ', '.join('%s rows of %s: all %s, new %s' % (show(b[3]), show(b[1]), f, q)
                                                                    for b, f, q in cover))
        else:
            fam = []
            for e in es:
                for x, y in ((A_, B_), (B_, A_)):
                    q = reindex(e, [e.u, e.v], [x, y])
                    if q is None:
                        raise Unclear('edge (%s, %s) does not enumerate pairs' % (show(e.u)[:60], show(e.v)[:60]))
                    fam.append(q.cond)
            want = [pre, c, le(ZERO, A_), lt(A_, N), le(ZERO, B_), lt(B_, N), nott(eq(A_, B_)),
                    valid(row(S, A_), row(S, B_)), valid(row(S, B_), row(S, A_))]
            if radius is not None:
                want.append(le(pair_dist(S, A_, B_), radius))
            rep.ob('all', name, implies3(andd(*want), orr(*fam)), w, 'pairs linked when %s' % show(orr(*fam))[:300])


def R03(rep):
    rep.rule('within', 'no roadmap edge joins samples farther apart than the radius in force')
    rep.rule('all', 'every pair of samples within the radius in force (every reported neighbour without one) with an accepted motion is linked')
    rep.rule('query', 'a query point is linked to exactly the samples within the radius in force (the certified one when none is) with an accepted motion')
    rep.rule('once', 'no pair of samples is linked by parallel edges')
    rep.rule('depth', 'a nearest-neighbour roadmap is built from the k nearest others of every sample, or all others when there are fewer')

    def build(P, cls, name, w):
        linked_within(rep, P, cls, name, w)
    scen(rep, 'all', build)

    def retuned(cls):
        P = built(cls)
        P.R.method(P.obj, 'set_nearest_neighbors', k1)
        P.ann.builds.clear()
        P.grow(n2)
        return P

    for tag, make, K in (('build', built, k0), ('grow', regrown, k0), ('tuned', retuned, k1)):
        def depth(tag=tag, make=make, K=K):
            P = make(KNN)
            w = where(KNN, 'grow_to_n_samples')
            N = P.R.I.length(P.R.st, P.attr('prm_samples'))
            live = {b[1] for b, x in [y for e in roadmap_edges(P) for y in tables(P, e.v) + tables(P, e.u)]}
            for b in P.ann.builds:
                if b[1] in live:
                    rows = N if tag == 'build' or b[3] is N else b[3]
                    want = ite(lt(K, sub(rows, ONE)), K, sub(rows, ONE))
                    rep.ob('depth', tag, implies3(andd(P.R.st.pc, b[5], le(ONE, rows)), eq(b[4], want)), w, '%s neighbours of %s samples' % (show(b[4])[:80], show(rows)))
            if not live:
                rep.ob('depth', tag, None, w, 'no neighbour lists')
        rep.guard('depth', tag, depth, where(KNN, 'grow_to_n_samples'))

    for cls, tuned in [(c, c == KNN) for c in CLASSES] + [(KNN, False)]:
        def q(cls=cls, tuned=tuned):
            P = queried(cls, tuned=tuned)
            S = samples(P)
            w = where(cls, '_query_samples')
            N = P.R.I.length(P.R.st, P.attr('prm_samples'))
            radius = P.closed(P.attr('conn_r' if tuned or cls != KNN else 'certified_max_conn_r'))
            try:
                ls, ts = links(P)
                ends = search_ends(P)
            except Unclear as u:
                rep.ob('query', cls, None, w, str(u))
                return
            if ends is None:
                rep.ob('query', cls, None, w, 'no search is run')
                return
            for side, t, pt in (('start', ends[0], P.closed(P.start)), ('goal', ends[1], P.closed(P.goal))):
                fam = []
                ok = True
                dd = dist(lambda x: at(pt, x), lambda x: at(S, A_, x))
                for i, s, e in ls:
                    if ts[i][0] is not t:
                        continue
                    f = reindex(e, [s], [A_])
                    if f is None:
                        raise Unclear('links do not enumerate samples')
                    fam.append(f.cond)
                    ok = both(ok, implies3(andd(P.R.st.pc, f.cond), le(dd, radius)))
                x = fresh_var()
                a = lam((x,), (d,), TRUE, at(pt, x))
                want = andd(P.R.st.pc, le(ZERO, A_), lt(A_, N), le(dd, radius), valid(a, row(S, A_)), valid(row(S, A_), a))
                side = side if tuned or cls != KNN else 'certified.' + side
                rep.ob('query', '%s.%s.within' % (cls, side), ok, w, 'links when %s' % show(orr(*fam))[:300])
                rep.ob('query', '%s.%s.all' % (cls, side), implies3(want, orr(*fam)), w, 'links when %s' % show(orr(*fam))[:300])
        rep.guard('query', cls, q, where(cls, '_query_samples'))
