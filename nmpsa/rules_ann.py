"""Neighbour back ends: what they hand to the library, how they read its answer, selection and update."""
from .rules_query import *
from .rules_query import _mk
from .arrays import plain_ax

BASE = 'ApproximateNearestNeighbor'
i_, j_ = sym('row', 'in'), sym('col', 'in')
k1 = sym('k_again', 'pi')
INDEX = {'kgraph.KGraph', 'pynndescent.NNDescent'}


def backends():
    """the concrete back ends of the module"""
    m = repo().module(ANN)
    out = []
    for x in m.tree.body:
        if isinstance(x, ast.ClassDef) and any(isinstance(b, ast.Name) and b.id == BASE for b in x.bases):
            out.append(x.name)
    if not out:
        raise AnchorMissing('classes of ' + BASE)
    return out


def spot(q):
    m = repo().module(ANN)
    return fdef(repo(), ANN, q) if q in m.functions else m.rel


class Back:
    """one back end under analysis"""

    def __init__(self, cls):
        self.R = Run(ANN)
        self.R.I.len_hook = self.len_of
        self.R.I.watch_attrs = {'neighbor_graph'}
        self.sizes = {}
        self.cls = cls
        self.o = self.R.call(ANN, cls)

    def closed(self, t):
        return self.R.closed(t)

    def indexes(self):
        return [e for e in self.R.I.events if e.name in INDEX]

    def fed(self, e, pos, kw):
        return e.args[pos] if len(e.args) > pos else e.kw.get(kw)

    # -- text files written by kgraph: a header line, then per row: count, and id and distance of each neighbour in turn

    def saved(self, f):
        """the save event of the index a text file was written from"""
        op = [e for e in self.R.I.events if e.name == 'open' and e.result is f]
        if not op:
            return None, None
        path = self.closed(op[0].args[0])
        w = [e for e in self.R.I.events if e.name == '.save_text' and e.seq < op[0].seq and self.closed(e.args[0]) is path]
        return (w[-1] if w else None), op[0]

    def index_of(self, obj):
        return next((e for e in self.indexes() if e.result is self.closed(obj)), None)

    def len_of(self, t):
        if t.op == 'fn' and t.args[0] == 'lines':
            w, op = self.saved(t.args[1][0])
            ix = self.index_of(w.recv) if w else None
            if ix is not None:
                a = self.R.I.resolve(self.fed(ix, 0, 'data'), self.R.st.pc)
                return add(ONE, self.R.I.length(self.R.st, a))
        if t.op == 'fn' and t.args[0] == 'tokens':
            line = t.args[1][0]
            fs = [x for x in subterms(line) if x.op == 'fn' and x.args[0] == 'lines']
            w, op = self.saved(fs[0].args[1][0]) if fs else (None, None)
            if w is not None:
                b = [e for e in self.R.I.events if e.name == '.build' and e.recv is w.recv and e.seq < w.seq]
                k = b[-1].kw.get('K') if b else None
                if isinstance(k, T):
                    # the library keeps at least the number of neighbours asked for
                    return add(ONE, mul(num(2), add(self.closed(k), _mk('len', fn('surplus', line)))))
        return None


def table(B, v):
    """(rows, columns, element at (row, col)) of a table"""
    v = B.R.I.resolve(v, B.R.st.pc)
    a = B.R.I.arr(B.R.st, v)
    if a is not None and len(a.axes) == 2 and all(plain_ax(x) for x in a.axes):
        x, y = a.axes
        m = {x.vars[0]: i_, y.vars[0]: j_}
        return x.sizes[0], subst(y.sizes[0], m), subst(a.body, m)
    t = B.closed(v)
    if t.op == 'lam':
        vs, sz, g, body = open_lam(t)
        if len(vs) == 1 and g is not TRUE:
            vs, sz, g, body = shifted(vs, sz, g, body)
        if g is TRUE and len(vs) == 1 and body.op == 'lam':
            v2, s2, g2, b2 = open_lam(body)
            if g2 is TRUE and len(v2) == 1:
                return sz[0], subst(s2[0], {vs[0]: i_}), subst(b2, {vs[0]: i_, v2[0]: j_})
    return None


def shifted(vs, sz, g, body):
    """elements filtered by a lower bound, counted from the first one kept"""
    for c in (ONE, num(2)):
        if logic.valid(iff(g, le(c, vs[0]))) is True:
            v = fresh_var()
            return (v,), (sub(sz[0], c),), TRUE, subst(body, {vs[0]: add(v, c)})
    return vs, sz, g, body


def pairs(B, res):
    """the (condition, ids, distances) results of a call"""
    res = B.R.I.resolve(res, B.R.st.pc)
    if isinstance(res, Choice):
        raise Unclear('the answer depends on %s' % show(res.cond)[:80])
    if isinstance(res, T) and res.op == 'tup':
        return list(res.args)
    if isinstance(res, T) and res.op in ('call', 'attr'):
        return [at(res, ZERO), at(res, ONE)]
    items = getattr(res, 'items', None)
    if items is None or len(items) != 2:
        raise Unclear('the answer is %s' % (show(res) if isinstance(res, T) else type(res).__name__))
    return list(items)


def nothing(B, res):
    return B.closed(B.R.I.resolve(res, B.R.st.pc)) is NONE


def untabled(B, t):
    """something that is not a table of rows and columns: known to be flat?"""
    t = B.closed(t)
    if has_unknown(t):
        return None
    if t.op == 'lam':
        vs, sz, g, body = open_lam(t)
        body = subst(body, {x: sym('entry', 'n') for x in subterms(body) if x.op == 'at' and x.args[0].op == 'fn' and x.args[0].args[0] in ('tokens', 'lines')})
        # a flat row of values
        return None if any(x.op in ('lam', 'call', 'fn', 'unk', 'phi', 'attr') for x in subterms(body)) else False
    return None


def slices(parts):
    """(name, first row, rows) of the concatenation of the parts"""
    off = ZERO
    out = []
    for name, rows in parts:
        out.append((name, off, rows))
        off = add(off, rows)
    return out


def judge(rep, B, key, res, parts, k, since, w, seed=None):
    """the answer is about the given data, computed after the event number since"""
    if nothing(B, res):
        rep.ob('pair', key, False, w, 'nothing is returned')
        return
    try:
        ids, dists = pairs(B, res)
    except Unclear as u:
        rep.ob('pair', key, None, w, str(u))
        return
    n_rows = add(*[r for _, r in parts])
    ids, dists = B.closed(ids), B.closed(dists)
    lines = {x.args[1][0] for t in (ids, dists) for x in subterms(t) if x.op == 'fn' and x.args[0] == 'lines'}
    reads = [e for e in B.R.I.events if e.name == 'attr:neighbor_graph' and any(e.result in set(subterms(t)) for t in (ids, dists))]
    if lines and not reads:
        text(rep, B, key, ids, dists, lines, parts, n_rows, k, since, w)
    elif reads and not lines:
        graph(rep, B, key, ids, dists, reads, parts, n_rows, k, since, w, seed)
    else:
        rep.ob('pair', key, None, w, 'ids %s, distances %s' % (show(ids)[:120], show(dists)[:120]))


def data_ok(rep, B, key, ix, parts, n_rows, multiple):
    E = B.R.I.resolve(B.fed(ix, 0, 'data'), B.R.st.pc)
    T_ = table(B, E)
    if T_ is None:
        rep.ob('data', key, None, ix.where(), 'the index holds %s' % show(B.closed(E))[:200])
        return
    rows, cols, el = T_
    pc = B.R.st.pc
    inside = andd(pc, lt(i_, n_rows), le(ZERO, i_), le(ZERO, j_))
    rep.ob('data', key + '.rows', implies3(pc, eq(rows, n_rows)), ix.where(), 'the index holds %s rows' % show(rows))
    rep.ob('data', key + '.coordinates', implies3(pc, le(d, cols)), ix.where(), 'the index holds %s coordinates' % show(cols))
    for name, off, num_rows in slices(parts):
        f = andd(inside, lt(j_, d), le(off, i_), lt(i_, add(off, num_rows)))
        got = under(el, f)
        rep.ob('data', key + '.values.' + name, implies3(f, eq(got, at(sym(name, 'x'), sub(i_, off), j_))), ix.where(), 'row r, coordinate c is %s' % show(got)[:200])
    if eq(cols, d) is not TRUE:
        junk = {x: sym('memory', 'x') for x in subterms(el) if x.op == 'at' and x.args[0].op == 'call' and x.args[0].args[0] == 'uninitialised'}
        rep.ob('data', key + '.padding', implies3(andd(inside, le(d, j_), lt(j_, cols)), eq(under(subst(el, junk), andd(inside, le(d, j_), lt(j_, cols))), ZERO)), ix.where(), 'row r, coordinate c is %s' % show(el)[:200])
    if multiple:
        q = div(cols, num(multiple))
        rep.ob('data', key + '.multiple', True if is_int(q) else False if teval_nonint(q) else None, ix.where(), 'the index holds %s coordinates' % show(cols))


def whole(q, m):
    """is the quotient an integer for every remainder of the dimension"""
    x = sym('q', 'in')
    return is_int(q) or all(is_int(subst(q, {d: add(mul(num(m), x), num(r))})) for r in range(m))


def teval_nonint(q):
    """some dimension makes the number of coordinates no multiple"""
    for x in range(1, 9):
        v = cval(subst(q, {d: num(x)}))
        if v is None:
            return False
        if v.denominator != 1:
            return True
    return False


def metric_ok(rep, B, key, ix, pos, default):
    m = B.fed(ix, pos, 'metric')
    name = default if m is None else m.args[1] if isinstance(m, T) and m.op == 'k' and m.args[0] == 'str' else None
    rep.ob('distance', key + '.metric', None if name is None else name in ('euclidean', 'l2'), ix.where(), 'metric %s' % name)


def text(rep, B, key, ids, dists, lines, parts, n_rows, k, since, w):
    if len(lines) != 1:
        rep.ob('pair', key, False if len(lines) == 2 else None, w, 'ids and distances are read from different files')
        return
    f = list(lines)[0]
    sv, op = B.saved(f)
    ix = B.index_of(sv.recv) if sv else None
    for e in B.R.I.events:
        if e.name in ('.sort', '.reverse', '.pop', '.insert', '.append', '.remove', '.clear', '.extend') and isinstance(e.recv, T) and any(
                x.op == 'fn' and x.args[0] in ('lines', 'tokens') for x in [B.closed(e.recv)]):
            rep.ob('pair', key + '.lines', False if e.name in ('.sort', '.reverse') else None, e.where(), 'the lines read are changed: %s' % e.name)
    if ix is None:
        rep.ob('order', key, None, w, 'reads a file the index was not saved to')
        return
    bl = [e for e in B.R.I.events if e.name == '.build' and e.recv is sv.recv]
    rep.ob('order', key, ix.seq >= since and bool(bl) and bl[-1].seq < sv.seq < op.seq and len(bl) == 1, sv.where(), 'index made, built, saved and read in order')
    rep.ob('order', key + '.text', sv.name == '.save_text', sv.where(), 'saved as text')
    if bl:
        K = bl[-1].kw.get('K')
        rep.ob('count', key, (False if None not in bl[-1].kw and not bl[-1].args else None) if K is None else implies3(B.R.st.pc, eq(B.closed(K), k)), bl[-1].where(), 'asks for %s neighbours' % (show(B.closed(K)) if K is not None else '?'))
    metric_ok(rep, B, key, ix, 1, None)
    data_ok(rep, B, key, ix, parts, n_rows, 4)
    for name, t, first in (('ids', ids, 1), ('distances', dists, 2)):
        T_ = table(B, t)
        if T_ is None:
            rep.ob('pair', key + '.' + name, untabled(B, t), w, show(t)[:200])
            continue
        rows, cols, el = T_
        extra = {x: sym('surplus', 'in') for x in subterms(cols) if x.op == 'len' and x.args[0].op == 'fn' and x.args[0].args[0] == 'surplus'}
        cols = subst(cols, extra)
        pc = andd(B.R.st.pc, lt(i_, n_rows), lt(j_, k))
        rep.ob('pair', key + '.%s.rows' % name, implies3(B.R.st.pc, eq(rows, n_rows)), w, '%s rows' % show(rows)[:200])
        rep.ob('pair', key + '.%s.columns' % name, implies3(pc, eq(cols, k)), w, '%s columns' % show(cols)[:200])
        tk = [x for x in subterms(el) if x.op == 'at' and x.args[0].op == 'fn' and x.args[0].args[0] == 'tokens']
        if len(tk) != 1 or tk[0].args[0].args[1][0].op != 'at':
            rep.ob('pair', key + '.' + name, None, w, show(el)[:200])
            continue
        line = tk[0].args[0].args[1][0]
        rep.ob('pair', key + '.%s.line' % name, implies3(pc, eq(line.args[1], add(ONE, i_))), w, 'row r is read from line %s' % show(line.args[1]))
        rep.ob('pair', key + '.%s.token' % name, implies3(pc, eq(tk[0].args[1], add(num(first), mul(num(2), j_)))), w, 'entry c is item %s of the line' % show(tk[0].args[1]))
        # the items of a line are text until they are converted
        if name == 'ids':
            rep.ob('pair', key + '.ids.integer', True if is_int(el) else None if any(x.op in ('call', 'unk') for x in subterms(el)) else False, w, 'an id is %s' % show(el)[:100])
        x = sym('token', 'n')
        got = subst(el, {tk[0]: x})
        got = subst(got, {toint(x): x, fn('float', x): x})
        exp = x if name == 'ids' else power(mul(num(2), x), num(Fraction(1, 2)))
        if name == 'ids':
            rep.ob('pair', key + '.ids.value', implies3(TRUE, eq(got, exp)), w, 'an id is %s' % show(got)[:100])
        else:
            # the library reports half the squared distance
            rep.ob('distance', key, implies3(TRUE, eq(got, exp)), w, 'a distance is %s of the stored value' % show(got)[:100])


def seeded(rep, B, key, ix, seed):
    """the library takes unpredictable numbers unless it is given a seed"""
    if None in ix.kw or len(ix.args) > 4:
        rep.ob('seeded', key, None, ix.where(), '')
        return
    x = ix.kw.get('random_state')
    x = None if x is None else B.closed(B.R.I.resolve(x, B.R.st.pc))
    if x is None or x is NONE:
        rep.ob('seeded', key, False, ix.where(), 'no seed is given')
    elif seed is not None:
        rep.ob('seeded', key, same(x, seed), ix.where(), 'the seed is %s' % show(x)[:80])
    else:
        rep.ob('seeded', key, not (set(subterms(x)) & {y for y in subterms(x) if y.op in ('sym', 'call', 'fn', 'unk', 'attr', 'at', 'phi')}) or None, ix.where(), 'the seed is %s' % show(x)[:80])


def graph(rep, B, key, ids, dists, reads, parts, n_rows, k, since, w, seed=None):
    for name, t, pos in (('ids', ids, ZERO), ('distances', dists, ONE)):
        el, e = t, next((e for e in reads if e.result in set(subterms(t))), None)
        if e is None:
            rep.ob('pair', key + '.' + name, None, w, show(t)[:200])
            continue
        src = at(e.result, pos)
        ok = True if t is src else None
        if t.op == 'at' and t.args[0] is e.result and len(t.args) == 2:
            ok = t.args[1] is pos
            rep.ob('pair', key + '.' + name, ok, w, '%s are part %s of the neighbour graph' % (name, show(t.args[1])))
        else:
            T_ = table(B, t)
            body = T_[2] if T_ else None
            if body is not None and body is at(e.result, pos, i_, j_):
                rep.ob('pair', key + '.' + name, True, w, 'element by element')
            else:
                other = at(e.result, ONE if pos is ZERO else ZERO)
                bad = body is not None and vocab(body) <= ALLOWED | {'call'} and {x for x in subterms(body) if x.op == 'at' and x.args[0] is e.result}
                rep.ob('pair', key + '.' + name, verdict_graph(body, e.result, pos), w, show(t)[:200])
        obj = e.recv
        ix = B.index_of(obj)
        if ix is None:
            rep.ob('order', key, None, w, 'not an index: %s' % show(obj)[:100])
            continue
        ups = [q for q in B.R.I.events if q.name == '.update' and q.recv is not None and B.closed(q.recv) is ix.result]
        last = max([ix.seq] + [q.seq for q in ups])
        rep.ob('order', key + '.' + name, e.seq > last and last >= since, e.where(), 'the answer is read after the index last changed')
        if name == 'ids':
            metric_ok(rep, B, key, ix, 1, 'euclidean')
            seeded(rep, B, key, ix, seed)
            nn = B.fed(ix, 3, 'n_neighbors')
            rep.ob('count', key, None if nn is None and len(ix.args) > 1 else False if nn is None else implies3(B.R.st.pc, eq(B.closed(nn), k)), ix.where(),
                   'asks for %s neighbours' % (show(B.closed(nn)) if nn is not None else 'the default number of'))
            got = [B.fed(ix, 0, 'data')] + [B.fed(q, 0, 'xs_fresh') for q in ups]
            if any(g is None for g in got):
                rep.ob('data', key, False, ix.where(), 'an update without new data')
            elif len(ups) == 0:
                data_ok(rep, B, key, ix, parts, n_rows, None)
            else:
                rep.ob('data', key + '.updates', len(got) == len(parts), ix.where(), '%d updates' % len(ups))
                for (nm, rows), g in zip(parts, got):
                    T_ = table(B, B.R.I.resolve(g, B.R.st.pc))
                    if T_ is None:
                        rep.ob('data', key + '.' + nm, None, w, show(B.closed(g))[:100])
                        continue
                    rep.ob('data', key + '.' + nm, andor(implies3(B.R.st.pc, eq(T_[0], rows)), implies3(andd(lt(i_, rows), lt(j_, d)), eq(T_[2], at(sym(nm, 'x'), i_, j_))),
                                                         implies3(B.R.st.pc, eq(T_[1], d))), ix.where(), 'rows %s, element %s' % (show(T_[0]), show(T_[2])[:100]))


def verdict_graph(body, g, pos):
    """a table computed from a part of the neighbour graph: the same numbers?"""
    if body is None or has_unknown(body):
        return None
    x = sym('entry', 'n')
    b = subst(body, {at(g, pos, i_, j_): x})
    if any(t is g for t in subterms(b)):
        return None
    return implies3(TRUE, eq(subst(b, {toint(x): x}), x))


def andor(*vs):
    return False if False in vs else None if None in vs else True


def A01(rep):
    rep.rule('pair', 'one row of ids and one of distances per data row, in order, of the same neighbours')
    rep.rule('count', 'as many neighbours are asked for as requested')
    rep.rule('distance', 'the distances are Euclidean')
    rep.rule('data', 'the index holds the given data, padded with zeros only')
    rep.rule('order', 'the answer is read from the index of this data after it was built')
    rep.rule('seeded', 'the randomised index is built with the seed asked for, or a fixed one')
    for cls in backends():
        def go(cls=cls):
            B = Back(cls)
            w = spot(cls + '.new_graph_from_data')
            s = B.R.mark()
            r = B.R.method(B.o, 'new_graph_from_data', B.R.array('DATA', n, d), k0)
            rep.saw(B.R.I)
            judge(rep, B, cls, r, [('DATA', n)], k0, s, w)
            rep.ob('order', cls + '.answers', implies3(TRUE, B.R.st.pc), w, 'answers when %s' % show(B.R.st.pc)[:100])
            s = B.R.mark()
            m = repo().module(ANN)
            takes = any('seed' == a.arg for q in (cls + '.new_graph_from_data',) if q in m.functions for a in m.functions[q].args.args)
            z = sym('SEED', 'i') if takes else None
            r = B.R.method(B.o, 'new_graph_from_data', B.R.array('OTHER', n2, d), k1, **({'seed': z} if takes else {}))
            judge(rep, B, cls + '.again', r, [('OTHER', n2)], k1, s, w, z)
            rep.count('index constructions', len(B.indexes()))
        rep.guard('pair', cls, go, spot(cls))


def A02(rep):
    rep.rule('selected', 'a name gives the back end of that name')
    rep.rule('fallback', 'the fallback is used only when the named back end is not installed')
    rep.rule('unknown', 'unknown names are rejected')
    rep.rule('refused', 'an update before any build is refused')
    rep.rule('pair', 'one row of ids and one of distances per row of the old and the new data')
    rep.rule('count', 'an update keeps the number of neighbours')
    rep.rule('data', 'an update indexes the old data followed by the new data')
    rep.rule('order', 'the answer is read after the index was updated')
    rep.rule('seeded', 'the randomised index is built with a fixed seed')
    rep.rule('distance', 'the distances are Euclidean')
    KIND = {'kgraph': 'kgraph.KGraph', 'pynndescent': 'pynndescent.NNDescent'}

    def library(cls):
        """the library a back end builds its index with"""
        B = Back(cls)
        B.R.method(B.o, 'new_graph_from_data', B.R.array('DATA', n, d), k0)
        return {e.name for e in B.indexes()}

    def choose(name):
        def go():
            R = Run(ANN)
            r = R.call(ANN, 'get_ann', *([string(name)] if name else []))
            rep.saw(R.I)
            w = spot('get_ann')
            rep.ob('selected', str(name), implies3(TRUE, R.st.pc) if not R.st.dead else False, w, 'returns when %s' % show(R.st.pc)[:100])
            lv = choices(R, r)
            for c, o in lv:
                cls = getattr(getattr(o, 'cls', None), 'name', None)
                if cls is None:
                    rep.ob('selected', '%s.%s' % (name, 'value'), False if o is NONE else None, w, 'returns %s' % type(o).__name__)
                    continue
                lib = library(cls)
                here = orr(*[pred('installed', string(x)) for x in ('kgraph',)])
                if name is None:
                    rep.ob('selected', 'default.' + cls, lib == {KIND['pynndescent']}, w, 'the default is %s' % cls)
                elif lib == {KIND[name]}:
                    rep.ob('selected', '%s.%s' % (name, cls), True, w, '%s gives %s' % (name, cls))
                    if name == 'kgraph':
                        rep.ob('fallback', '%s.%s' % (name, cls), installed(R, c, True), w, '%s chosen when %s' % (cls, show(c)))
                elif name == 'pynndescent':
                    rep.ob('selected', '%s.%s' % (name, cls), False, w, '%s gives %s when %s' % (name, cls, show(c)))
                else:
                    rep.ob('fallback', '%s.%s' % (name, cls), installed(R, c, False), w, '%s chosen when %s' % (cls, show(c)))
        rep.guard('selected', str(name), go, spot('get_ann'))
    for name in ('pynndescent', 'kgraph', None):
        choose(name)

    def unknown():
        R = Run(ANN)
        nm = sym('NAME', 's')
        R.call(ANN, 'get_ann', nm)
        w = spot('get_ann')
        known = orr(*[eq(string(x), nm) for x in KIND])
        rep.ob('unknown', 'get_ann', accepts(R.st.pc, known), w, 'returns when %s' % show(R.st.pc)[:200])
    rep.guard('unknown', 'get_ann', unknown, spot('get_ann'))

    for cls in backends():
        def go(cls=cls):
            w = spot(cls + '.update_graph_with_data')
            B = Back(cls)
            s = B.R.mark()
            B.R.method(B.o, 'update_graph_with_data', B.R.array('FRESH', n2, d))
            rep.saw(B.R.I)
            stop = [x for x in B.R.I.raises if x.pc is TRUE and x.name == 'raise']
            rep.ob('refused', cls, True if B.R.st.dead and stop else False if not B.R.st.dead and B.R.st.pc is TRUE else None, w,
                   'returns when %s' % (show(B.R.st.pc) if not B.R.st.dead else 'never'))
            acted = [e for e in B.R.since(s) if e.name in INDEX or e.name in ('.update', '.build')]
            rep.ob('refused', cls + '.before', not acted, w, 'nothing is indexed before the refusal')
            B = Back(cls)
            B.R.method(B.o, 'new_graph_from_data', B.R.array('DATA', n, d), k0)
            parts = [('DATA', n)]
            for nm, rows in (('FRESH', n2), ('MORE', sym('n3', 'pi'))):
                s = B.R.mark()
                r = B.R.method(B.o, 'update_graph_with_data', B.R.array(nm, rows, d))
                parts.append((nm, rows))
                judge(rep, B, '%s.%s' % (cls, nm), r, list(parts), k0, s, w)
                rep.ob('refused', '%s.%s.built' % (cls, nm), False if B.R.st.dead else implies3(TRUE, B.R.st.pc), w, 'a built index is updated when %s' % show(B.R.st.pc)[:100])
        rep.guard('refused', cls, go, spot(cls))


def choices(R, v, c=TRUE):
    v = R.I.resolve(v, R.st.pc)
    if isinstance(v, Choice):
        return choices(R, v.a, andd(c, v.cond)) + choices(R, v.b, andd(c, nott(v.cond)))
    return [(c, v)]


def installed(R, c, yes):
    """is this choice taken exactly when the library is (not) installed"""
    ps = [x for x in subterms(c) if x.op == 'p' or x.op == 'pred']
    flag = [x for x in subterms(c) if 'installed' in show(x) and is_bool(x) and x.op not in ('and', 'or', 'not')]
    if not flag:
        return False if c is TRUE else None
    want_ = flag[0] if yes else nott(flag[0])
    return True if imp(c, want_) else False if logic.valid(implies_t(c, nott(want_))) is True else None


def accepts(pc, known):
    if logic.valid(implies_t(pc, known)) is True:
        return True
    return False if pc is TRUE or logic.valid(implies_t(known, pc)) is True and logic.understood(pc) else None
