"""R07-R09, R12: reset, retuning, scratch files and certified radii."""
import posixpath
from .rules_query import *
from .rules_query import _READ

SCRATCH = '/repo/temp'
PLAIN = {'os.path.exists', 'os.path.join', 'uuid', 'raise', 'alloc', 'check_motion', 'draw', 'sdf', 'print'}
READS = {'networkit.readGraph', 'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', '.read_text', '.read_bytes'}
FILE_CALLS = {'networkit.writeGraph', 'networkit.readGraph', 'open', '.save_text', 'os.remove'}
REMOVES = {'os.remove', '.unlink', 'shutil.rmtree'}


# ---------------------------------------------------------------- file names

def path_text(t):
    """the path a term spells, with every uuid a token; None when it is not understood"""
    if not isinstance(t, T):
        return None
    if t.op == 'k' and t.args[0] == 'str':
        return t.args[1]
    if t.op == 'c':
        return str(t.args[0])
    if t.op == 'sym':
        return '/repo/' + t.args[0].split(':', 1)[1] if t.args[0].startswith('__file__:') else '<%s>' % t.args[0]
    if t.op == 'k' and str(t.args[0]).startswith('__file__:'):
        return '/repo/' + t.args[0].split(':', 1)[1]
    if t.op == 'cat':
        xs = [path_text(x) for x in _flat(t)]
        return None if None in xs else ''.join(xs)
    if t.op == 'call' and t.args[0] in ('uuid', 'counter'):
        return '<%s %s>' % (t.args[0], t.args[1])
    if t.op == 'attr' and isinstance(t.args[0], T):
        x = path_text(t.args[0])
        if x is None:
            return None
        if t.args[1] == 'parent':
            return posixpath.dirname(x)
        if t.args[1] == 'name':
            return posixpath.basename(x)
        return '<%s %s>' % (t.args[1], x.strip('<>'))
    if t.op == 'fn':
        xs = [path_text(x) for x in t.args[1]]
        if None in xs:
            return None
        if t.args[0] in ('path.join', 'Path'):
            return posixpath.join(*xs)
        if t.args[0] == 'str' and len(xs) == 1:
            return xs[0]
        if t.args[0] == 'path.op':
            f = {'realpath': posixpath.normpath, 'abspath': posixpath.normpath, 'normpath': posixpath.normpath, 'dirname': posixpath.dirname,
                 'basename': posixpath.basename, 'expanduser': str, 'fspath': str}.get(xs[0])
            return f(xs[1]) if f and len(xs) == 2 else None
        if t.args[0] in ('process', 'id', 'hash', 'hex'):
            return '<%s %s>' % (t.args[0], ' '.join(x.strip('<>') for x in xs))
        if t.args[0] == 'strop' and xs[0] in ('replace', 'lower', 'upper', 'strip', 'format', 'join', 'zfill', '+'):
            return '<%s>' % ' '.join(x.strip('<>') for x in xs)
    return None


def _flat(t):
    for a in t.args:
        if isinstance(a, tuple):
            yield from a
        else:
            yield a


def place(t):
    """normal form of a path, for comparing paths"""
    x = path_text(t)
    return posixpath.normpath(x) if x else t


def private(t):
    """can no other object of any process spell the same path: True / False / None"""
    if not isinstance(t, T):
        return None
    if t.op in ('k', 'c', 'sym', 'poly', 'true', 'false'):
        return False
    if t.op == 'call':
        return True if t.args[0] == 'uuid' else False if t.args[0] == 'counter' else None  # each process counts from the start
    if t.op == 'attr' and isinstance(t.args[0], T):
        x = private(t.args[0])
        if x is True:
            return True if t.args[1] in ('hex', 'int', 'urn', 'bytes') else None
        return x
    if t.op == 'cat' or t.op == 'fn' and t.args[0] in ('path.join', 'Path', 'str', 'path.op'):
        xs = [private(x) for x in (_flat(t) if t.op == 'cat' else t.args[1])]
        return True if True in xs else None if None in xs else False
    if t.op == 'fn' and t.args[0] in ('process', 'id', 'hash'):
        return False
    if t.op == 'fn' and t.args[0] == 'strop':
        xs = [private(x) for x in t.args[1]]
        if True not in xs:
            return None if None in xs else False
        name = t.args[1][0].args[1]
        if name == 'getitem':
            c = [y for y in t.args[1][2:]]
            w = cut(c[0]) if len(c) == 1 else None
            return False if w is not None and w < 8 else None
        if name in ('replace', 'lower', 'upper', 'format', '%', 'join', 'strip', 'zfill'):
            return True
        return None
    return None


def cut(t):
    """number of characters an index or a constant prefix slice keeps"""
    if t.op == 'c':
        return 1
    xs = [x for x in _flat(t) if isinstance(x, T)]
    if len(xs) == 3 and xs[0] in (NONE, ZERO) and cval(xs[1]) is not None and xs[2] in (NONE, ONE) and cval(xs[1]) >= 0:
        return int(cval(xs[1]))
    return None


def touches(P):
    """[(kind, path term, event)] of the files the scenario touches; kind is 'w', 'r' or 'd'"""
    out = []
    for e in P.R.I.events:
        if e.name in PLAIN or e.name.startswith(('new:', 'os.path.')):
            continue
        for a in list(e.args) + list(e.kw.values()):
            t = P.closed(a)
            if not isinstance(t, T) or not stringy(t):
                continue
            x = path_text(t)
            if e.name == 'open' and a is not e.args[0] or e.name.startswith('networkit.') and t.op != 'fn' and t.op == 'k' and 'Format' in str(t.args):
                continue
            if x is not None and '<uuid' in x or e.name in FILE_CALLS:
                pass
            elif x is None and not any(y.op == 'fn' and y.args[0] in ('path.join', 'Path') for y in subterms(t)) or x is not None and '/' not in x:
                continue
            kind = 'd' if e.name in REMOVES else 'r' if e.name in READS else 'w'
            if e.name == 'open':
                m = argn(P, e, 1, 'mode')
                m = 'r' if m is None else m.args[1] if m.op == 'k' and m.args[0] == 'str' else 'w'
                kind = 'w' if set(m) & set('wax+') else 'r'
            out.append((kind, t, e))
    return out


def stringy(t):
    return t.op in ('k', 'cat', 'fn', 'attr', 'ite') and not (t.op == 'k' and t.args[0] != 'str')


def there(P, t, paths):
    """the facts that the given paths exist"""
    fs = []
    for x in subterms(t):
        if x.op == 'pred' and x.args[0] == 'exists' and place(x.args[1][0]) in paths:
            fs.append(x)
    return andd(*fs)


def guarded(mod, node):
    """is the call inside a try or a suppress block, or told to ignore a missing file"""
    if node is None:
        return False
    if isinstance(node, ast.Call) and any(k.arg in ('missing_ok', 'ignore_errors') for k in node.keywords):
        return True
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.Try) and x.handlers or isinstance(x, (ast.With,)) and any('suppress' in ast.unparse(i.context_expr) for i in x.items):
            if any(y is node for s in x.body for y in ast.walk(s)):
                return True
    return False


def removal(rep, rule, key, P, since, w):
    """every file written before `since` is removed after it"""
    ts = touches(P)
    seen = {}
    for kind, t, e in ts:
        if kind == 'w' and e.seq < since:
            seen.setdefault(place(t), []).append(e)
    for p, es in seen.items():
        later = [(k, e) for k, t, e in ts if place(t) == p and e.seq >= since]
        rm = [e for k, e in later if k == 'd']
        if not rm:
            odd = any(e.name in REMOVES for k, t, e in ts if e.seq >= since and path_text(t) is None)
            rep.ob(rule, key, None if odd else False, es[0].where(), 'the file %s written here is never removed' % p)
            continue
        got = None
        for e in rm:
            got = implies3(andd(P.R.st.pc, orr(*[x.pc for x in es]), there(P, e.pc, {p})), e.pc) if not e.whiles and not e.binders else None
            if got is True:
                break
        again = [e for k, e in later if k == 'w' and e.seq > rm[0].seq]
        rep.ob(rule, key, got if not again else False, rm[0].where(), 'removed when %s' % show(rm[0].pc)[:300])
    for k, t, e in ts:
        if k == 'd' and e.seq >= since:
            p = place(t)
            ok = True if p in seen else None
            rep.ob(rule, key + '.own', ok, e.where(), 'removes %s, which the planner wrote' % p if ok else 'removes %s' % show(t)[:120])
    rep.count('files written', len(seen))


# ---------------------------------------------------------------- R07

OPS = {
    'grown': lambda P: P.grow(),
    'grown twice': lambda P: (P.grow(), P.grow(n2)),
    'retuned': lambda P: retune(P),
    'queried': lambda P: (P.grow(), P.R.method(P.obj, 'query_best_solution', P.R.array('START', d), P.R.array('GOAL', d))),
}


def retune(P):
    P.grow()
    if P.cls != RADIUS:
        P.R.method(P.obj, 'set_connection_radius', sym('r_new', 'n'))
    if P.cls == KNN:
        P.R.method(P.obj, 'set_nearest_neighbors', sym('k_new', 'pi'))
        P.R.method(P.obj, 'set_connection_radius', sym('r_next', 'n'))
        P.R.method(P.obj, 'set_nearest_neighbors', sym('k_next', 'pi'))


def defaulted(a):
    """is the attribute looked up where it may be missing"""
    for m in repo().modules.values():
        for nd in ast.walk(m.tree):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id in ('hasattr', 'getattr') and len(nd.args) > 1 \
                    and isinstance(nd.args[1], ast.Constant) and nd.args[1].value == a:
                return True
    return False


def unlike(o, m):
    """can two values never be equal"""
    if o is m:
        return False
    if is_graph(o) or is_graph(m) or o is NONE or m is NONE or o.op == 'obj' or m.op == 'obj':
        return True
    if o.op in ('dict', 'list') and m.op == o.op:
        # one of them certainly has more entries
        if o.op == 'dict':
            n, k = [len([x for x in t.args if x.args[2] is TRUE]) for t in (o, m)]
            return n > len(m.args) or k > len(o.args)
        return len(o.args) == 0 and any(x.op == 'lam' and not x.args[1] for x in m.args)
    return same(m, o) is False


def restored(P, o, m):
    if o is m:
        return True
    if not isinstance(o, T) or not isinstance(m, T):
        return None
    if o.op not in ('ite',) and m.op != 'ite' and not has_unknown(o) and not has_unknown(m):
        r = same(m, o)
        if r is True:
            return True
    if has_unknown(m) or has_unknown(o):
        return None
    for c, l in leaves(m):
        if l is o:
            continue
        dead = implies3(P.R.st.pc, nott(c))
        if dead is True or same(l, o) is True:
            continue
        if dead is None and c is not TRUE:
            return None
        return False if unlike(o, l) else None
    return True


def R07(rep):
    rep.rule('state', 'after a reset every field that is read anywhere has its value from right after construction')
    rep.rule('file', 'a reset removes every scratch file the planner wrote')
    rep.rule('again', 'a reset does not depend on a scratch file being there')
    for cls in CLASSES:
        for name, op in OPS.items():
            for mode in (FALSE, TRUE):
                if mode is TRUE and cls == FULL:
                    continue
                key = '%s.%s%s' % (cls, name, '.mp' if mode is TRUE else '')

                def go(cls=cls, op=op, mode=mode, key=key):
                    P = Planner(cls)
                    if mode is TRUE:
                        P.set_attr('in_mp_exp_mode', TRUE)
                    f0 = fields(P)
                    op(P)
                    P.k = P.R.mark()
                    since = max([e.seq for e in P.R.I.events] or [0]) + 1
                    P.R.method(P.obj, 'reset')
                    rep.saw(P.R.I)
                    w = where(cls, 'reset')
                    f1 = fields(P)
                    for a in sorted(set(f0) | set(f1)):
                        if a not in f0:
                            v = True if not read_later(a) and not defaulted(a) else None
                            if v is None and f1[a] is not NONE and defaulted(a):
                                v = False
                        elif a not in f1:
                            v = False if read_later(a) else True
                        else:
                            v = restored(P, f0[a], f1[a])
                            if v is not True and not read_later(a) and not defaulted(a):
                                v = True
                        rep.ob('state', '%s.%s' % (key, a), v, w, '%s: at construction %s, after the reset %s' % (
                            a, show(f0[a])[:150] if a in f0 else 'missing', show(f1[a])[:250] if a in f1 else 'missing'))
                    removal(rep, 'file', key, P, since, w)
                rep.guard('state', key, go, where(cls, 'reset'))

        def fresh(cls=cls):
            P = Planner(cls)
            k = P.R.mark()
            P.R.method(P.obj, 'reset')
            m = repo().module(PRM)
            ev = [e for e in P.R.since(k) if e.name in REMOVES]
            for e in ev:
                t = P.closed(e.args[0])
                none = andd(*[nott(x) for x in subterms(e.pc) if x.op == 'pred' and x.args[0] == 'exists' and place(x.args[1][0]) == place(t)])
                ok = True if guarded(m, e.node) else implies3(andd(none, e.pc), FALSE)
                if e.pc is TRUE and not guarded(m, e.node):
                    ok = False
                rep.ob('again', cls, ok, e.where(), 'removes a file when %s' % show(e.pc)[:200])
            if not ev:
                rep.ob('again', cls, True, where(cls, 'reset'), 'removes nothing from a planner that wrote nothing')
        rep.guard('again', cls, fresh, where(cls, 'reset'))


# ---------------------------------------------------------------- R09

class Holder:
    """a scenario of some other object, with the interface touches() needs"""

    def __init__(self, R, obj):
        self.R, self.obj = R, obj

    def closed(self, v):
        return self.R.closed(v)


def names_ok(rep, key, P, w, finished):
    ts = touches(P)
    written = {}
    for kind, t, e in ts:
        for c, l in leaves(t):
            p = place(l)
            x = path_text(l)
            if kind == 'w':
                written.setdefault(p, []).append(e)
                rep.ob('unique', key, private(l), e.where(), 'writes %s' % (x or show(l)[:160]))
                ok = None
                if x is not None:
                    y = posixpath.normpath(x)
                    ok = y.startswith(SCRATCH + '/') if x.startswith('/') else False if not x.startswith('<') or x.startswith('<uuid') else None
                rep.ob('place', key, ok, e.where(), 'writes %s' % (x or show(l)[:160]))
            elif kind == 'r':
                prior = [f for f in written.get(p, ()) if f.seq < e.seq]
                ok = True if prior else False if private(l) is not None and all(private(q) is not None for k, q, f in ts) else None
                gone = [f for k, q, f in ts if k == 'd' and place(q) == p and f.seq < e.seq]
                if gone and ok and not any(f.seq > gone[-1].seq for f in prior):
                    ok = False if gone[-1].pc is TRUE else None
                rep.ob('own', key, ok, e.where(), 'reads %s' % (x or show(l)[:160]))
            else:
                rep.ob('own', key, True if p in written else False if x is not None and private(l) is False else None, e.where(), 'removes %s' % (x or show(l)[:160]))
    rep.count('file accesses', len(ts))
    return written, ts


def R09(rep):
    rep.rule('unique', 'the name of every intermediate file contains an identifier made for that object alone')
    rep.rule('place', 'every intermediate file lies under the scratch directory')
    rep.rule('own', 'only files the object wrote itself are read or removed')
    rep.rule('removed', 'planners remove their file on reset, the back end once it has read its file')
    rep.rule('apart', 'two objects never share a file name')
    for cls, seed in [(c, z) for c in CLASSES for z in (NONE, sym('SEED', 'o'))]:
        def go(cls=cls, seed=seed):
            P = Planner(cls, seed=seed)
            retune(P)
            P.grow(n2)
            since = max([e.seq for e in P.R.I.events] or [0]) + 1
            P.R.method(P.obj, 'reset')
            rep.saw(P.R.I)
            names_ok(rep, cls, P, where(cls, 'grow_to_n_samples'), None)
            removal(rep, 'removed', cls, P, since, where(cls, 'reset'))
            # two planners of one process
            mine = {place(t) for k, t, e in touches(P) if k == 'w'}
            m = P.R.mark()
            Q = P.twin()
            Q.grow()
            theirs = {place(t): e for k, t, e in touches(P) if k == 'w' and e.seq > since}
            both = mine & set(theirs)
            rep.ob('apart', cls, not both, list(theirs.values())[0].where() if theirs else where(cls, '__init__'),
                   'both planners write %s' % both.pop() if both else 'a second planner writes another file')
        rep.guard('unique', cls, go, where(cls, 'grow_to_n_samples'))
    for cls in ('KGraphANN', 'PyNNDescentANN'):
        def go(cls=cls):
            R = Run(ANN)
            P = Holder(R, R.call(ANN, cls))
            R.method(P.obj, 'new_graph_from_data', R.array('DATA', n, d), k0)
            w = fdef(repo(), ANN, cls + '.new_graph_from_data')
            for again in (False, True):
                if again:
                    R.method(P.obj, 'update_graph_with_data', R.array('FRESH', n2, d))
                rep.saw(R.I)
                key = cls + ('.update' if again else '')
                names_ok(rep, key, P, w, None)
                gone(rep, key, P)
            mine = {place(t) for k, t, e in touches(P) if k == 'w'}
            last = max(e.seq for e in R.I.events)
            o2 = R.call(ANN, cls)
            R.method(o2, 'new_graph_from_data', R.array('DATA', n, d), k0)
            theirs = {place(t): e for k, t, e in touches(P) if k == 'w' and e.seq > last}
            both = mine & set(theirs)
            rep.ob('apart', cls, not both, list(theirs.values())[0].where() if theirs else w,
                   'both back ends write %s' % both.pop() if both else 'a second back end writes another file')
        rep.guard('unique', cls, go, fdef(repo(), ANN, cls + '.new_graph_from_data'))


def gone(rep, key, P):
    """at the end every file written has been removed, after its last read"""
    ts = touches(P)
    last = {}
    for k, t, e in ts:
        if k == 'w':
            last[place(t)] = e
    for p, we in last.items():
        rm = [e for k, t, e in ts if k == 'd' and place(t) == p and e.seq > we.seq]
        if not rm:
            rep.ob('removed', key, False, we.where(), 'the file written here is not removed afterwards')
            continue
        ok = None
        for e in rm:
            if not e.whiles and not e.binders:
                ok = implies3(andd(P.R.st.pc, we.pc, there(P, e.pc, {p})), e.pc)
                if ok is True:
                    break
        rep.ob('removed', key, ok, rm[0].where(), 'removed when %s' % show(rm[0].pc)[:200])


# ---------------------------------------------------------------- R12

def deepest(b):
    """smallest k-th neighbour distance over all rows of a back end's answer"""
    i = fresh_var()
    return red('min', lam((i,), (b[3],), TRUE, at(b[2], i, sub(b[4], ONE))))


def equals(P, code, want, pre=TRUE):
    """are two numbers equal in every run (rows of distance tables being sorted)"""
    code = P.closed(code)
    if not isinstance(code, T):
        return None
    if code.op == 'k':
        return False if code is NONE else None
    c = under(code, andd(P.R.st.pc, pre))
    if c is want or same(c, want) is True:
        return True
    if implies3(andd(P.R.st.pc, pre), eq(c, want), teval.Sorted) is True:
        return True
    if P.R.st.pc is TRUE and pre is TRUE:
        return False if refuted_by(lambda x, y: x == y if isinstance(x, (int, float)) else None, c, want, make=teval.Sorted) else None
    return implies3(andd(P.R.st.pc, pre), eq(c, want), teval.Sorted)


def reaches(b, r, kmax):
    """do the lists of an answer reach the radius at every sample, or cannot get any deeper"""
    i = fresh_var()
    return orr(le(kmax, b[4]), le(b[3], b[4]), forall(lam((i,), (b[3],), TRUE, le(r, at(b[2], i, sub(b[4], ONE))))))


def used(P, es):
    """answers whose entries became edges of the roadmap"""
    out = {}
    for e in es:
        for x in [e.u, e.v] + ([e.w] if e.w is not None else []):
            for y in subterms(x):
                for b in P.ann.builds:
                    if y is b[1] or y is b[2]:
                        out.setdefault(b[1], (b, []))[1].append(e)
    return out


def R12(rep):
    rep.rule('certified', 'the certified radius is the smallest k-th neighbour distance over all samples of the lists in use')
    rep.rule('in force', 'after a truncating build the certified radius is in force and is what the build reports')
    rep.rule('reach', 'lists that become a radius roadmap reach its radius at every sample, or are as deep as allowed or possible')
    for name, make in (('build', built), ('grow', regrown)):
        for trunc in (TRUE, FALSE):
            def go(name=name, make=make, trunc=trunc):
                P = Planner(KNN, truncate_to_eff_rad=trunc)
                ans = P.grow()
                if name == 'grow':
                    P.old = samples(P)
                    ans = P.grow(n2)
                rep.saw(P.R.I)
                w = where(KNN, 'grow_to_n_samples')
                key = 'KNN.%s.%s' % (name, 'truncated' if trunc is TRUE else 'plain')
                use = used(P, roadmap_edges(P))
                if len(use) != 1:
                    rep.ob('certified', key, None, w, '%d answers of the back end become edges' % len(use))
                    return
                b = list(use.values())[0][0]
                want = deepest(b)
                c = P.attr('certified_max_conn_r')
                rep.ob('certified', key, equals(P, c, want), w, 'certified %s' % show(P.closed(c))[:200])
                rep.ob('certified', key + '.rows', implies3(P.R.st.pc, eq(b[3], n if name == 'build' else n2)), w, 'lists of %s samples' % show(b[3]))
                if trunc is TRUE:
                    f = P.attr('conn_r')
                    rep.ob('in force', key, equals(P, f, want), w, 'radius in force %s' % show(P.closed(f))[:200])
                    a = P.R.I.resolve(ans, P.R.st.pc)
                    if isinstance(a, Tup) and a.items:
                        rep.ob('in force', key + '.reported', equals(P, a.items[0], want), w, 'reports %s' % show(P.closed(a.items[0]))[:200])
                    else:
                        rep.ob('in force', key + '.reported', False if a is NONE else None, w, 'the build reports %s' % type(a).__name__)
            rep.guard('certified', 'KNN.%s' % name, go, where(KNN, 'grow_to_n_samples'))
    kmax = sym('k_max', 'pi')
    for name, make in (('build', built), ('grow', regrown)):
        def go(name=name, make=make):
            P = make(RADIUS, max_k_connection_neighbors=kmax)
            rep.saw(P.R.I)
            w = where(RADIUS, 'grow_to_n_samples')
            use = used(P, roadmap_edges(P))
            if not use:
                rep.ob('reach', 'RADIUS.%s' % name, None, w, 'no answer of the back end becomes edges')
            for b, es in use.values():
                for e in es:
                    v = implies3(andd(P.R.st.pc, bounds(e.binders), e.cond), reaches(b, rad, kmax), teval.Sorted)
                    rep.ob('reach', 'RADIUS.%s.%s' % (name, b[0]), v, e.ev.where(), 'lists of depth %s become edges when %s' % (show(b[4])[:60], show(e.cond)[:300]))
            rep.count('back end answers', len(P.ann.builds))
        rep.guard('reach', 'RADIUS.%s' % name, go, where(RADIUS, 'grow_to_n_samples'))




# ---------------------------------------------------------------- R08

U_, V_ = sym('u', 'in'), sym('v', 'in')
PU, PV = sym('place of v in the list of u', 'in'), sym('place of u in the list of v', 'in')
W_ = sym('w', 'n')


def saved(P, b, path, seq):
    """the event that wrote the graph a read of this path at this point returns"""
    w = [(t, e) for e in P.R.I.events if e.name == 'networkit.writeGraph' and e.seq < seq for t in [P.closed(e.args[1])] if place(t) == place(path)]
    return w[-1][1] if w else None


def instances(P, e, b):
    """conditions under which the edge event e happens for the edge (u, v) of weight w, one per way it can name that edge"""
    x, y = argn(P, e, 0, 'u'), argn(P, e, 1, 'v')
    g = P.closed(e.recv)
    ed = Edge(e, x, y, None, asked_of(P, e.pc, x, y), tuple(e.binders))
    out = []
    hit = [t for t in (x, y) if t.op == 'at' and t.args[0] is b[1] and len(t.args) == 3 and (y if t is x else x) is t.args[1]]
    if hit:
        t = hit[0]
        for me, other, pos in ((U_, V_, PU), (V_, U_, PV)):
            f = reindex(ed, [t.args[1], t.args[2]], [me, pos])
            if f is None:
                raise Unclear('the loop does not enumerate the lists (%s)' % e.where())
            out.append(('list', simplify(P, f.cond, b), e))
        return out
    if x.op == 'at' and y.op == 'at' and x.args[0] is y.args[0] and len(x.args) == 3 and x.args[1] is y.args[1]:
        src = x.args[0]
        call = src.args[1][0] if src.op == 'fn' and src.args[0] in ('list', 'tuple') else src.args[0] if src.op in ('list', 'tuple') else src
        ev = [q for q in P.R.I.events if q.result is call and q.name in ('.iterEdges', '.iterEdgesWeights')]
        if ev and P.closed(ev[0].recv) is g:
            i = x.args[1]
            for me, other in ((U_, V_), (V_, U_)):
                m = {at(src, i, num(0)): me, at(src, i, num(1)): other, at(src, i, num(2)): W_}
                bad = [v for v, s in e.binders if v is not i and v is not x.args[1]]
                c = subst(asked_of(P, e.pc, x, y), m)
                if bad or i in fvs(c):
                    raise Unclear('the loop does not enumerate the edges (%s)' % e.where())
                out.append(('edges', simplify(P, c, b), e))
            return out
    raise Unclear('edge (%s, %s) (%s)' % (show(x)[:80], show(y)[:80], e.where()))


def simplify(P, f, b):
    """the condition in terms of the places of u and v in each other's lists"""
    m = {at(b[1], U_, PU): V_, at(b[1], V_, PV): U_, at(b[2], U_, PU): W_, at(b[2], V_, PV): W_}
    f = subst(f, m)
    for x in list(subterms(f)):
        if x.op == 'forall':
            vs, szs, g, body = open_lam(x.args[0])
            if len(vs) != 1 or g is not TRUE:
                continue
            for me, other, pos in ((U_, V_, PU), (V_, U_, PV)):
                if body is nott(eq(at(b[1], me, vs[0]), other)):
                    f = subst(f, {x: le(szs[0], pos)})
    return f


def asked_of(P, c, x, y):
    """what the graph says of the edge (x, y) it holds: it is there, its weight is w"""
    for q in P.R.I.events:
        if q.name in ('.hasEdge', '.weight') and q.result is not None and {P.closed(a) for a in q.args[:2]} == {x, y}:
            c = subst(c, {truth(q.result): TRUE, q.result: TRUE} if q.name == '.hasEdge' else {q.result: W_})
    return c


def checks_edge(P, e):
    """does the condition of a removal ask whether the edge is there"""
    return any(x.op == 'call' and x.args[0] == '.hasEdge' for x in subterms(e.pc))


def live(e):
    """does the loop around a removal walk the graph's own iterator"""
    m = [x for x in repo().modules.values() if x.rel == e.file or e.file.endswith(x.rel)]
    if not m or e.node is None:
        return False
    tree = m[0].tree
    fn_ = [f for f in ast.walk(tree) if isinstance(f, (ast.FunctionDef, ast.Lambda)) and any(y is e.node for y in ast.walk(f))]
    loops = [f for f in ast.walk(tree) if isinstance(f, ast.For) and any(y is e.node for s in f.body for y in ast.walk(s))]
    return any(lazy(f.iter, fn_[-1] if fn_ else tree, 0) for f in loops)


def lazy(x, scope, depth):
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith('iter'):
        return True
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('enumerate', 'zip', 'filter', 'map', 'iter', 'reversed'):
        return any(lazy(a, scope, depth) for a in x.args)
    if isinstance(x, ast.GeneratorExp):
        return lazy(x.generators[0].iter, scope, depth)
    if isinstance(x, ast.Name) and depth < 3:
        vals = [s.value for s in ast.walk(scope) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in s.targets)]
        return len(vals) == 1 and lazy(vals[0], scope, depth + 1)
    return False


def member_of(P, g, b, since, cut=None):
    """conditions (per orientation networkit may list it in) under which the edge (u, v) of the complete roadmap is in graph g,
    and the events that shaped it; cut = (seq, condition): what was proved of g at that point"""
    evs = P.R.I.events
    maker = [e for e in evs if e.result is g]
    if cut is not None:
        base, first = cut[1], cut[0]
    elif maker and maker[0].name == 'networkit.readGraph':
        e = maker[0]
        w = saved(P, b, P.closed(e.args[0]), e.seq)
        if w is None:
            raise Unclear('reads a file nothing wrote (%s)' % e.where())
        h = P.closed(w.args[0])
        if [q for q in evs if q.recv is not None and P.closed(q.recv) is h and (q.name == '.removeEdge' and q.seq < w.seq or q.name == '.addEdge' and q.seq > w.seq)]:
            return FALSE, [w]
        if h is not P.full:
            return None, [w]
        base, first = TRUE, e.seq
    elif g is P.full:
        base, first = TRUE, since
    elif maker and maker[0].name == GRAPH and not (maker[0].args and is_graph(P.closed(maker[0].args[0]))) and maker[0].seq > since:
        base, first = FALSE, maker[0].seq
    else:
        raise Unclear('the roadmap is %s' % show(g))
    shape = []
    adds, rems = [FALSE, FALSE], [FALSE, FALSE]
    for e in evs:
        if e.seq < first or e.recv is None or P.closed(e.recv) is not g or e.name not in CHANGES:
            continue
        if e.name in ('.sortEdges', '.compactEdges'):
            continue
        if e.name not in ('.removeEdge', '.addEdge'):
            raise Unclear('%s (%s)' % (e.name, e.where()))
        ins = instances(P, e, b)
        shape.append(e)
        acc = rems if e.name == '.removeEdge' else adds
        if ins[0][0] == 'list':
            for o in (0, 1):
                acc[o] = orr(acc[o], *[c for _, c, _ in ins])
        else:
            # networkit lists an undirected edge once, in either orientation
            for o in (0, 1):
                acc[o] = orr(acc[o], ins[o][1])
    return [andd(orr(base, adds[o]), nott(rems[o])) for o in (0, 1)], shape


# an exact roadmap with settings (k, r) is where every further setting starts from, so sequences of three close the induction
SEQUENCES = ['k', 'r', 'kk', 'kr', 'rk', 'rr', 'kkr', 'krk', 'krr', 'rkk', 'rkr', 'rrk']


def total(P):
    return P.R.I.length(P.R.st, P.attr('prm_samples'))


def exact(rep, P, key, b, want, since, w, before=None):
    pc = P.R.st.pc
    ok = True
    K = b[4]
    facts = andd(pc, le(num(0), PU), le(num(0), PV), le(PU, K), le(PV, K), orr(lt(PU, K), lt(PV, K)), nott(eq(U_, V_)),
                 *[andd(le(num(0), x), lt(x, b[3]), lt(x, total(P))) for x in (U_, V_)])
    for c, g in leaves(P.closed(P.attr('prm_graph'))):
        if not is_graph(g):
            rep.ob('exact', key, False if g is NONE else None, w, 'the roadmap is %s' % show(g)[:100])
            ok = False
            continue
        try:
            cut = None
            for c0, g0 in (before[1] if before else ()):
                if g0 is g and imp(andd(pc, c), c0):
                    cut = (before[0], before[2])
            got, shape = member_of(P, g, b, since, cut)
        except Unclear as u:
            rep.ob('exact', key, None, w, str(u))
            ok = False
            continue
        if got is None:
            rep.ob('exact', key, None, w, 'made from a graph that is not understood')
            ok = False
            continue
        if got is FALSE:
            rep.ob('saved', key, False, shape[0].where(), 'the saved roadmap is not the complete one')
            ok = False
            continue
        at_ = shape[-1].where() if shape else w
        for o in (0, 1):
            if o and got[1] is got[0]:
                continue
            more = implies3(andd(facts, c, got[o]), want)
            less = implies3(andd(facts, c, want), got[o])
            ok = ok and more is True and less is True
            rep.ob('exact', key + '.keeps only allowed', more, at_, 'edge kept when %s' % show(under(got[o], andd(facts, c)))[:400])
            rep.ob('exact', key + '.keeps all allowed', less, at_, 'edge kept when %s' % show(under(got[o], andd(facts, c)))[:400])
        for e in shape:
            if e.name != '.removeEdge':
                continue
            walk = live(e)
            rep.ob('snapshot', key, not walk, e.where(), 'removes edges while walking the graph\'s own iterator' if walk else 'walks a snapshot')
            x = argn(P, e, 0, 'u')
            if not any(q.op == 'call' for q in subterms(x)) and not any(q.op == 'call' for q in subterms(argn(P, e, 1, 'v'))):
                rep.ob('present', key, True if checks_edge(P, e) else False if not repo_try(e) else None, e.where(), 'removes (%s, %s)' % (show(x)[:60], show(argn(P, e, 1, 'v'))[:60]))
    return ok


def repo_try(e):
    m = [x for x in repo().modules.values() if e.file.endswith(x.rel)]
    return bool(m) and guarded(m[0], e.node)


def setting(P, attr, want):
    v = P.closed(P.attr(attr))
    if v is want:
        return True
    if v is NONE or want is NONE:
        return False
    return implies3(P.R.st.pc, eq(v, want))


def allowed(k, r):
    return andd(orr(lt(PU, k), lt(PV, k)) if k is not None else TRUE, le(W_, r) if r is not None else TRUE)


def tune(P, ops, tag='', k=None, r=None, first=1):
    """apply k/r settings in order; returns the (k, r) asked for last"""
    for i, o in enumerate(ops, first - 1):
        if o == 'k':
            k = sym('k%s%d' % (tag, i + 1), 'pi')
            P.R.method(P.obj, 'set_nearest_neighbors', k)
        else:
            r = sym('r%s%d' % (tag, i + 1), 'n')
            P.R.method(P.obj, 'set_connection_radius', r)
    return k, r


def R08(rep):
    rep.rule('exact', 'after setting k and r in any order the roadmap holds exactly the saved edges both settings allow')
    rep.rule('saved', 'the file read back holds the complete roadmap of the last build')
    rep.rule('snapshot', 'no edge is removed while the graph is being walked')
    rep.rule('present', 'only edges that are there are removed')
    rep.rule('settings', 'the settings asked for last are the ones in force')
    rep.rule('refused', 'a count above the built maximum raises, a smaller one does not')
    rep.rule('all pairs', 'setting a radius on the all-pairs roadmap rebuilds it for that radius')

    proved = {}

    def run(ops, trunc, again):
        key = 'KNN.%s%s%s' % ('.'.join(ops), '.truncated' if trunc is TRUE else '', '.regrown' if again else '')

        def go():
            P = Planner(KNN, truncate_to_eff_rad=trunc)
            P.grow()
            if again:
                tune(P, 'kr', 'old')
                P.grow(n2)
            rep.saw(P.R.I)
            w = where(KNN, 'set_nearest_neighbors' if ops[-1] == 'k' else 'set_connection_radius')
            b = P.ann.builds[-1]
            wr = [e for e in P.R.I.events if e.name == 'networkit.writeGraph']
            fullg = [g for c, g in leaves(P.closed(P.attr('prm_graph')))]
            # the graph built last is the complete roadmap until something is removed from it
            P.full = P.closed(wr[-1].args[0]) if wr else fullg[0]
            since = max([e.seq for e in P.R.I.events if e.name == '.addEdge' and P.closed(e.recv) is P.full] or [0]) + 1
            if wr and wr[-1].seq < since:
                rep.ob('saved', key, False, wr[-1].where(), 'edges are added after the roadmap was saved')
            start = len(P.R.I.events)
            r0 = P.closed(P.attr('conn_r'))
            r0 = None if r0 is NONE else r0
            k, r = tune(P, ops[:-1])
            before = None
            if len(ops) > 1 and proved.get((ops[:-1], trunc, again)):
                before = (len(P.R.I.events), leaves(P.closed(P.attr('prm_graph'))), allowed(k, r or r0))
            k, r = tune(P, ops[-1], k=k, r=r, first=len(ops))
            r = r or r0
            proved[(ops, trunc, again)] = exact(rep, P, key, b, allowed(k, r), since, w, before)
            if k is not None:
                rep.ob('settings', key + '.k', setting(P, 'k_neighbors', k), w, 'k in force %s' % show(P.closed(P.attr('k_neighbors')))[:100])
                rep.ob('refused', key, implies3(P.R.st.pc, le(k, k0)), w, 'returns when %s' % show(P.R.st.pc)[:200])
                for x in P.R.I.raises:
                    if x.seq >= start and len(ops) == 1:
                        rep.ob('refused', key + '.allowed', implies3(x.pc, lt(k0, k)), x.where(), 'raises when %s' % show(x.pc)[:200])
            if r is not None:
                rep.ob('settings', key + '.r', setting(P, 'conn_r', r), w, 'radius in force %s' % show(P.closed(P.attr('conn_r')))[:100])
        rep.guard('exact', key, go, where(KNN, 'set_connection_radius'))
    for ops in SEQUENCES:
        run(ops, FALSE, False)
        if len(ops) < 3:
            run(ops, TRUE, False)
            run(ops, FALSE, True)

    def full():
        P = built(FULL)
        S0 = samples(P)
        r = sym('r_new', 'n')
        P.R.method(P.obj, 'set_connection_radius', r)
        rep.saw(P.R.I)
        w = where(FULL, 'set_connection_radius')
        rep.ob('settings', 'FULL', setting(P, 'conn_r', r), w, 'radius in force %s' % show(P.closed(P.attr('conn_r')))[:100])
        S = samples(P)
        x = fresh_var()
        N = P.R.I.length(P.R.st, P.attr('prm_samples'))
        rep.ob('all pairs', 'FULL.samples', implies3(P.R.st.pc, eq(N, n)), w, '%s samples' % show(N))
        same_rows = at(S, A_, sym('x', 'in'))
        rep.ob('all pairs', 'FULL.rows', implies3(andd(P.R.st.pc, lt(A_, n), lt(sym('x', 'in'), d)), eq(same_rows, at(S0, A_, sym('x', 'in')))), w, 'samples stay')
        rr = Renamed(rep, {'within': 'all pairs', 'all': 'all pairs'})
        try:
            linked_within(rr, P, FULL, 'FULL.retuned', w)
        except Unclear as u:
            rep.ob('all pairs', 'FULL', None, w, str(u))
    rep.guard('all pairs', 'FULL', full, where(FULL, 'set_connection_radius'))


class Renamed:
    def __init__(self, rep, m):
        self.rep, self.m = rep, m

    def ob(self, rule, key, *a):
        self.rep.ob(self.m.get(rule, rule), key + '.' + rule, *a)


# ---------------------------------------------------------------- R13

# ids are not given back when nodes or edges are removed, so their bounds are not counts
OTHER_COUNTS = ('.numberOfNodes', '.numberOfEdges', '.upperEdgeIdBound', '.upperNodeIdBound', '.numberOfSelfLoops', '.totalEdgeWeight')


def counts(rep, P, key, w):
    """num_vertices and num_edges ask the graph in force"""
    graphs = leaves(P.closed(P.attr('prm_graph')))
    N = P.R.I.length(P.R.st, P.attr('prm_samples'))
    for m, ask in (('num_vertices', '.numberOfNodes'), ('num_edges', '.numberOfEdges')):
        k = P.R.mark()
        pre = P.R.st.pc
        v = P.closed(P.R.method(P.obj, m))
        asked = {e.result: P.closed(e.recv) for e in P.R.since(k) if e.name == ask and e.recv is not None}
        for c, x in leaves(v):
            c = andd(pre, c)
            if implies3(c, FALSE) is True:
                continue
            if x not in asked and x in {e.result for e in P.R.since(k) if e.name in OTHER_COUNTS}:
                r = False
            elif x in asked:
                r = all(g is asked[x] or implies3(andd(c, h), FALSE) is True for h, g in graphs)
            elif x is NONE or x.op in ('c', 'k'):
                r = False
            elif m == 'num_vertices':
                r = implies3(c, eq(x, N))
                r = r if r is True else None
            else:
                r = None
            rep.ob('counts', '%s.%s' % (key, m), r, w(m), 'answers %s' % show(x)[:120])


def R13(rep):
    rep.rule('counts', 'the vertex and edge counts reported are those of the roadmap in force, and zero before there is one')
    rep.rule('save', 'saving writes the roadmap in force to the path given plus .nkb and its samples to the same path plus .npy')
    rep.rule('refuse', 'saving before there is a roadmap raises instead of writing')
    for cls in CLASSES:
        w = lambda m, cls=cls: where(cls, m)

        def fresh(cls=cls, w=w):
            P = Planner(cls)
            for m in ('num_vertices', 'num_edges'):
                v = P.closed(P.R.method(P.obj, m))
                rep.ob('counts', '%s.fresh.%s' % (cls, m), True if v is ZERO else False if logic.understood(v) and not has_unknown(v) else None, w(m), 'answers %s' % show(v)[:80])
            k = P.R.mark()
            pc = P.R.st.pc
            P.R.method(P.obj, 'save', sym('PATH', 'o'))
            evs = P.R.since(k)
            rep.saw(P.R.I)
            up = [e for e in evs if e.name == 'raise']
            out = [e for e in evs if e.name in ('networkit.writeGraph', 'numpy.save')]
            r = implies3(pc, orr(*[e.pc for e in up]))
            rep.ob('refuse', cls, r, w('save'), 'raises when %s' % show(orr(*[e.pc for e in up]))[:120])
            for e in out:
                first = any(x.seq < e.seq and implies3(e.pc, x.pc) is True for x in up)
                rep.ob('refuse', cls + '.writes', True if first or implies3(e.pc, FALSE) is True else False, e.where(), 'writes a roadmap there is not')
        rep.guard('refuse', cls, fresh, w('save'))

        for tag, make in (('build', built), ('grow', regrown)) + ((('tuned', lambda c: tuned(c)),) if cls == KNN else ()):
            def go(cls=cls, w=w, tag=tag, make=make):
                P = make(cls)
                counts(rep, P, '%s.%s' % (cls, tag), w)
                g = P.closed(P.attr('prm_graph'))
                S = samples(P)
                k = P.R.mark()
                pre = P.R.st.pc
                P.R.method(P.obj, 'save', sym('PATH', 'o'))
                evs = P.R.since(k)
                rep.saw(P.R.I)
                for e in evs:
                    if e.name == 'raise':
                        rep.ob('save', '%s.%s.refused' % (cls, tag), implies3(andd(pre, e.pc), FALSE), e.where(), 'refuses when %s' % show(e.pc)[:100])
                for what, fn_, suffix, order in (('graph', 'networkit.writeGraph', '.nkb', (0, 1)), ('samples', 'numpy.save', '.npy', (1, 0))):
                    ws = [e for e in evs if e.name == fn_]
                    key = '%s.%s.%s' % (cls, tag, what)
                    if not ws:
                        other = [e for e in evs if e.name not in ('networkit.writeGraph', 'numpy.save') and e.name not in PLAIN]
                        rep.ob('save', key, None if other else False, w('save'), 'nothing writes the %s' % what)
                        continue
                    rep.ob('save', key, implies3(pre, orr(*[e.pc for e in ws])), ws[0].where(), 'written when %s' % show(orr(*[e.pc for e in ws]))[:100])
                    for e in ws:
                        names = {'networkit.writeGraph': ('G', 'path'), 'numpy.save': ('file', 'arr')}[fn_]
                        pair = [argn(P, e, i, nm) for i, nm in enumerate(names)]
                        val, path = pair[order[0]], pair[order[1]]
                        if val is None or path is None:
                            rep.ob('save', key + '.what', None, e.where(), 'arguments')
                            continue
                        if what == 'graph':
                            fmt = argn(P, e, 2, 'fileformat')
                            t = show(fmt) if fmt is not None else ''
                            rep.ob('save', key + '.format', True if t.endswith('NetworkitBinary') else False if 'Format.' in t else None, e.where(), 'as %s' % t)
                            r = implies3(andd(pre, e.pc), FALSE) is True or val is g
                            r = True if r else False if is_graph(val) or not is_graph_like(val) else None
                        else:
                            r = True if val is S or same(val, S) is True else False if understood_value(val) else None
                        rep.ob('save', key + '.what', r, e.where(), 'writes %s' % show(val)[:120])
                        t = path_text(path)
                        plain = fn_ == 'numpy.save' and t == '<PATH>'         # numpy adds .npy itself
                        rep.ob('save', key + '.path', True if t == '<PATH>' + suffix or plain else None if t is None else False, e.where(), 'to %s' % (t or show(path)[:80]))
            rep.guard('save', '%s.%s' % (cls, tag), go, w('save'))


def tuned(cls):
    P = built(cls)
    P.R.method(P.obj, 'set_connection_radius', sym('r_new', 'n'))
    P.R.method(P.obj, 'set_connection_radius', sym('r_back', 'n'))
    return P


def is_graph_like(t):
    return isinstance(t, T) and t.op in ('ite', 'obj', 'call', 'unk', 'attr')


def understood_value(t):
    return isinstance(t, T) and logic.understood(t) and not has_unknown(t)
