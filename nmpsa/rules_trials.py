"""Experiment trials: partition of the trials over tasks, resuming, seeds, records, submission."""
import ast
import itertools
import json
import os

from .checks import *
from .loader import AnchorMissing
from .terms import _mk, _walk
from .extmodels import to_arr
from .models import cat
from .values import Seg
from .interp import State
from .rules_exps import runner, TYPES

ENVS = 'nonasymptotic.envs'


# ------------------------------------------------------------------------------------------------ scenario of a runner

def called_names(f):
    return {n.func.id if isinstance(n.func, ast.Name) else n.func.attr for n in ast.walk(f)
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))}


def trial_function(m):
    """the largest function of a runner that builds an environment and neither reads the command line, writes the results
    nor draws a seed"""
    env = set(repo().module(ENVS).classes)
    fs = {n.name: n for n in m.tree.body if isinstance(n, ast.FunctionDef)}
    calls = {k: called_names(f) for k, f in fs.items()}

    def reach(k, seen):
        seen.add(k)
        for c in calls[k]:
            if c in fs and c not in seen:
                reach(c, seen)
        return seen
    ok = []
    for k in fs:
        r = reach(k, set())
        names = set().union(*[calls[x] for x in r])
        if not names & env or names & {'to_csv', 'integers', 'randint', 'default_rng', 'read_csv'}:
            continue
        if any(isinstance(n, ast.Attribute) and n.attr == 'argv' for x in r for n in ast.walk(fs[x])):
            continue
        ok.append(k)
    top = [k for k in ok if not any(k in reach(j, set()) for j in ok if j != k)]
    if len(top) != 1:
        raise AnchorMissing('trial function of %s' % m.rel)
    return fs[top[0]]


def bind(f, args, kw):
    """parameter -> argument of a call of f (keyword and positional parameters)"""
    ps = [a.arg for a in f.args.posonlyargs + f.args.args]
    out = dict(zip(ps, args))
    out.update(kw)
    return out


CONFIG = sym('config', 'o')
DISTINCT, ROWS = sym('distinct seeds', 'in'), sym('rows', 'in')


class Schedule:
    """the task loop of a runner, with the trial left out"""

    def __init__(self, kind, resumed):
        self.kind, self.resumed = kind, resumed
        self.m = m = runner(kind)
        self.f = f = trial_function(m)
        self.R = R = Run()
        I = R.I
        I.script_main = True
        self.reads, self.prev = [], None

        def trial(I, st, args, kw, node):
            r = I.new_obj('pandas.DataFrame', [], {}, node, st)
            I.event(st, 'trial', None, args, kw, node, r)
            return r

        def exists(I, st, args, kw, node):
            I.event(st, 'exists', None, args, kw, node)
            return TRUE if resumed else FALSE

        def exists_m(I, st, args, kw, node):
            return exists(I, st, args, kw, node)

        def read(I, st, args, kw, node):
            r = I.call_term('pandas.read_csv')
            self.prev = r
            I.event(st, 'read', None, args, kw, node, r)
            return r

        def load(I, st, args, kw, node):
            I.event(st, 'json.load', None, args, kw, node, CONFIG)
            return CONFIG

        def is_seeds(I, st, b):
            return isinstance(b, T) and b.op == 'at' and b.args[0] is self.prev and len(b.args) == 2 and b.args[1] == string('seed')

        def column(I, st, b):
            if isinstance(b, T) and b.op == 'at' and b.args[0] is self.prev and len(b.args) == 2 and b.args[1].op == 'k':
                return b.args[1].args[-1]
            return None

        def distinct(c):
            return DISTINCT if c == 'seed' else sym('distinct ' + c, 'in')

        def unique(I, st, args, kw, node):
            c = column(I, st, args[0])
            if c is None:
                return None
            v = fresh_var()
            return I.new_arr(st, [Ax([v], [distinct(c)])], at(sym(c, 'o'), v))

        def assign(I, st, args, kw, node):
            if not (isinstance(args[0], T) and any(e.name == 'trial' and e.result is args[0] for e in I.events)) or len(args) > 1:
                return None
            for k, x in kw.items():
                I.event(st, 'setitem', args[0], [string(k), x], {}, node)
            return args[0]

        def nunique(I, st, args, kw, node):
            c = column(I, st, args[0])
            return None if c is None else distinct(c)

        def rows(I, st, o, name, node):
            if o is self.prev and self.prev is not None or is_seeds(I, st, o):
                if name == 'shape':
                    return Tup([ROWS] + ([sym('columns', 'in')] if o is self.prev else []))
                if name == 'index':
                    return o
                if name == 'size' and o is not self.prev:
                    return ROWS
            return None
        I.contract_funcs[(m.name, f.name)] = trial
        for n in ('os.path.exists', 'os.path.isfile'):
            I.contract_funcs[n] = exists
        I.contract_methods[('*', 'exists')] = exists_m
        I.contract_methods[('*', 'is_file')] = exists_m
        I.contract_funcs['pandas.read_csv'] = read
        I.contract_funcs['json.load'] = load
        I.contract_methods[('*', 'unique')] = unique
        I.contract_methods[('*', 'nunique')] = nunique
        I.contract_methods[('*', 'assign')] = assign
        I.attr_hook = rows

        def exc(n, names, events):
            if any(e.name == 'read' for e in events):
                if names is None or names & {'FileNotFoundError', 'OSError', 'IOError', 'Exception'}:
                    return FALSE if resumed else TRUE
            return None
        I.exc_hook = exc
        I.load_module(R.st, m, main=True)
        self.trials = [e for e in I.events if e.name == 'trial']
        self.rngs = [e for e in I.events if e.name == 'numpy.random.default_rng']
        self.draws = [e for e in I.events if e.name == '.integers' and any(e.recv is r.result for r in self.rngs)]
        self.writes = [e for e in I.events if e.name == '.to_csv']

    def c(self, v):
        r = self.R.closed(v)
        return self.norm(r) if isinstance(r, T) else r

    def norm(self, t):
        if self.prev is None:
            return t
        m = {}
        for x in subterms(t):
            if x.op == 'len' and len(x.args) == 1 and (x.args[0] is self.prev or x.args[0] == at(self.prev, string('seed'))):
                m[x] = ROWS
        return subst(t, m) if m else t

    def args(self, e):
        return {k: self.c(v) for k, v in bind(self.f, e.args, e.kw).items()}


def argv_of(t):
    """positions of the command line a value is made of"""
    out = set()
    for x in subterms(t):
        if x.op == 'at' and x.args[0] == sym('sys.argv', 'o'):
            i = cval(x.args[1]) if len(x.args) == 2 else None
            out.add(int(i) if i is not None else None)
        if x.op == 'sym' and str(x.args[0]).startswith('int(argv['):
            out.add(int(x.args[0][9:-2]))
    return out


def roles(s):
    """command line position of task id, task count, configuration and output directory"""
    R = s.R
    out = {}
    opens = {e.result: e for e in R.I.events if e.name == 'open'}
    for e in R.I.events:
        if e.name == 'json.load' and e.args and e.args[0] in opens:
            a = argv_of(s.c(opens[e.args[0]].args[0]))
            if len(a) == 1:
                out['config'] = a.pop()
    ints, texts = set(), set()
    for e in s.writes:
        for x in subterms(s.c(e.args[0])) if e.args else ():
            if x.op == 'sym' and str(x.args[0]).startswith('int(argv['):
                ints |= argv_of(x)
            if x.op == 'at' and x.args[0] == sym('sys.argv', 'o'):
                texts |= argv_of(x)
    if len(ints) == 1:
        out['task'] = ints.pop()
    else:
        for e in s.rngs:
            v = e.args[0] if e.args else e.kw.get('seed')
            a = argv_of(s.c(v)) if v is not None else set()
            if len(a) == 1:
                out['task'] = a.pop()
    texts.discard(out.get('task'))
    if len(texts) == 1:
        out['save'] = texts.pop()
    for e in s.trials:
        a = set()
        for _, size in e.binders:
            a |= argv_of(s.c(size))
        for v in s.args(e).values():
            if isinstance(v, T):
                a |= argv_of(v)
        a -= {out.get('task')}
        if len(a) == 1:
            out['count'] = a.pop()
    return out


def argv_int(i):
    return sym('int(argv[%d])' % i, 'in')


# ------------------------------------------------------------------------------------------------ X02

def parts_of(s, e):
    """the lists of combinations a trial's arguments are taken from, each with the position read"""
    out = {}
    vals = list(s.args(e).values()) + [s.c(x.args[1]) for x in s.R.I.events
                                       if x.name == 'setitem' and x.recv is e.result and len(x.args) > 1]
    for t in vals:
        if not isinstance(t, T):
            continue
        for x in subterms(t):
            if x.op == 'nth' and x.args[0].op == 'lam' and not dangling(x):
                if x.args[0] in out and out[x.args[0]] is not x.args[1]:
                    return None
                out[x.args[0]] = x.args[1]
    return out


def size_of(l):
    _, sizes, g, _ = open_lam(l)
    if g is not TRUE or any(contains(z, lambda x: x.op == 'v') for z in sizes):
        return None
    return mul(*sizes)


def position(parts):
    """(position in the list of all combinations, lists in order, length of the whole)"""
    for order in itertools.permutations(parts):
        off, ok = ZERO, True
        first = parts[order[0]]
        for l in order:
            n = size_of(l)
            if n is None:
                return None
            if sub(first, parts[l]) is not off:
                ok = False
                break
            off = add(off, n)
        if ok:
            return first, list(order), off
    return None


def small(t, atoms, vals):
    r = subst(t, {a: num(x) for a, x in zip(atoms, vals)})
    return cval(r)


def partition_fails(P, v, size, total, task, count):
    """a small number of combinations and tasks for which the positions visited are not each visited once"""
    atoms = sorted({x for y in (P, size, total) for m in poly_atoms(y) for x in m}, key=skey)
    names = [x for x in atoms if x not in (task, count, v)]
    for ns in itertools.product((1, 2, 3), repeat=min(len(names), 3)):
        ns = list(ns) + [2] * (len(names) - len(ns))
        T_ = small(total, names, ns)
        if T_ is None:
            continue
        for N in (1, 2, 3):
            seen, open_ = [], False
            for t in range(N):
                sz = small(size, names + [task, count], ns + [t, N])
                ps = [small(P, names + [task, count, v], [*ns, t, N, i]) for i in range(int(max(0, sz)))] if sz is not None else [None]
                if None in ps:
                    open_ = True
                else:
                    seen += [int(p) for p in ps]
            if len(set(seen)) < len(seen) or not set(seen) <= set(range(int(T_))) or not open_ and len(seen) != T_:
                return 'with %d combinations and %d tasks the positions %s are run' % (T_, N, sorted(seen))
    return None


def poly_atoms(t):
    """the free integers a size or position is computed from"""
    out = set()

    def go(x):
        if x.op == 'poly':
            for m in poly_of(x):
                for a, _ in m:
                    go(a)
        elif x.op in ('ceil', 'floor', 'min2', 'max2', 'ite', 'abs'):
            for a in x.args:
                if isinstance(a, T):
                    go(a)
        elif x.op in ('neg', 'pos', 'zero', 'and', 'or', 'not'):
            for a in _walk(x.args):
                go(a)
        elif x.op != 'c':
            out.add(x)
    go(t)
    return [tuple(out)]


def config_key(t):
    """key of a value read from the configuration"""
    if t.op == 'at' and t.args[0] is CONFIG and len(t.args) >= 2 and t.args[1].op == 'k':
        return t.args[1].args[-1]
    return None


def partitioned(P, v, size, total, task, count, pc):
    """True when the form of position and size makes the tasks a partition, False with a counterexample, None otherwise"""
    if pc is TRUE:
        c = sub(subst(P, {v: add(v, ONE)}), P)
        base = subst(P, {v: ZERO})
        if c is count and base is task and size is ceil(div(sub(total, task), count)):
            return True, ''
        if c is ONE and base is not ZERO:
            end = add(base, size)
            if subst(base, {task: ZERO}) is ZERO and subst(base, {task: count}) is total and same(end, subst(base, {task: add(task, ONE)})):
                return True, ''
        w = partition_fails(P, v, size, total, task, count)
        if w:
            return False, w
        return None, 'position %s of %s' % (show(P)[:120], show(size)[:120])
    m = [x for x in subterms(pc) if x.op == 'mod' or x.op == 'fn' and x.args[0] == 'mod']
    if P is v and size is total and pc is eq(mod(v, count), task):
        return True, ''
    return None, 'trials under the condition %s' % show(pc)[:160]


def tokens(name):
    out = set()
    for w in str(name).lower().lstrip('_').split('_'):
        out.add(w)
        if len(w) > 3 and w.endswith('s'):
            out.add(w[:-1])
    return out


def keys_in(t):
    return {k for k in (config_key(x) for x in subterms(t)) if k} if isinstance(t, T) else set()


def selected(t, parts, order, l, P):
    """t with the conditionals on the position resolved for list l"""
    lo = ZERO
    for o in order:
        n = size_of(o)
        if o is l:
            break
        lo = add(lo, n)
    facts = andd(ge(P, lo), lt(P, add(lo, n)))
    m = {}
    for y in subterms(t):
        if y.op == 'at' and y.args[0].op == 'nth' and y.args[0].args[0] in parts and len(y.args) == 2 and cval(y.args[1]) is not None:
            body = open_lam(y.args[0].args[0])[3]
            i = int(cval(y.args[1]))
            if body.op == 'tup' and 0 <= i < len(body.args) and body.args[i].op in ('k', 'c'):
                m[y] = body.args[i]
    return under(subst(t, m), facts)


def X02(rep):
    rep.rule('complete', 'the list of combinations runs through every value of every configured list and every trial index, and each reaches the trial')
    rep.rule('pairing', 'the trial receives the configured values of its own parameters and of its own kind')
    rep.rule('partition', 'the tasks visit each position of the list of combinations exactly once')
    rep.rule('skip', 'a resumed task starts after as many combinations as its output file has distinct seeds')
    rep.rule('seeds', 'a resumed task first makes the draws of the combinations it skips, from the same generator')
    rep.rule('file', 'results are looked for, read from and written to the same file, named after the task')
    rep.rule('keep', 'every write contains the previously written results and the new ones')
    for kind in TYPES:
        rep.guard('partition', kind, lambda: schedule_rules(rep, kind), '')


def schedule_rules(rep, kind):
    S = Schedule(kind, False)
    Q = Schedule(kind, True)
    rep.saw(S.R.I)
    rep.files.add(S.m.rel)
    rep.count('schedules interpreted', 2)
    ro = roles(S)
    where = S.m.rel
    if len(S.trials) != 1 or not {'task', 'count', 'config', 'save'} <= set(ro):
        for r in ('complete', 'pairing', 'partition', 'skip', 'seeds', 'file', 'keep'):
            rep.ob(r, kind, None, where, 'the task loop was not recognised (%d trial calls, roles %s)' % (len(S.trials), ro))
        return
    e = S.trials[0]
    task, count = argv_int(ro['task']), argv_int(ro['count'])
    w = e.where()
    parts = parts_of(S, e)
    pos = position(parts) if parts else None
    args = S.args(e)
    if pos is None or len(e.binders) != 1:
        for r in ('complete', 'pairing', 'partition', 'skip'):
            rep.ob(r, kind, None, w, 'the combination of a trial is not recognised as an element of one list')
    else:
        P, order, total = pos
        v, size = e.binders[0]
        size = S.c(size)
        ok, why = partitioned(P, v, size, total, task, count, e.pc)
        rep.ob('partition', kind, ok, w, why)
        complete(rep, kind, S, e, P, parts, order, args, w)
        resumed(rep, kind, Q, P, v, size, order, w)
    draws(rep, kind, S, Q)
    files(rep, kind, S, Q, ro)


def shipped(kind):
    """the configurations of this kind in the repository"""
    out = []
    for rel in repo().glob('exps/config', '.json'):
        try:
            c = json.loads(repo().read(rel))
        except ValueError:
            continue
        if isinstance(c, dict) and os.path.basename(rel).split('_')[0] == kind:
            out.append(c)
    return out


def complete(rep, kind, S, e, P, parts, order, args, w):
    consts = []
    for l in order:
        body = open_lam(l)[3]
        consts.append([x.args[1] for x in (body.args if body.op == 'tup' else [body]) if x.op == 'k' and x.args[0] == 'str'])
    reach = set()
    for n, l in enumerate(order):
        name = '%s list %s' % (kind, '/'.join(consts[n]) or n)
        vs, sizes, g, body = open_lam(l)
        bad, und = [], []
        for x, z in zip(vs, sizes):
            k = config_key(z.args[0]) if z.op == 'len' else config_key(z)
            direct = z.op in ('len', 'at') and k is not None
            if not direct:
                (bad if keys_in(z) else und).append('index over %s' % show(z)[:80])
            elif z.op == 'len':
                els = [y for y in subterms(body) if y.op == 'at' and y.args[0] is CONFIG and len(y.args) == 3 and y.args[1] == z.args[0].args[1]]
                if not any(y.args[2] is x for y in els):
                    und.append('elements of %s' % k)
        rep.ob('complete', name, False if bad else None if und else True, w, '; '.join(bad + und))
        used = set()
        frame = [S.c(x.args[1]) for x in S.R.I.events if x.name == 'setitem' and x.recv is e.result and len(x.args) > 1]
        at_part = {}
        for p, t in list(args.items()) + [(None, t) for t in frame]:
            if isinstance(t, T):
                t2 = selected(t, parts, order, l, P)
                if any(y.op == 'nth' and y.args[0] is not l for y in subterms(t2)):
                    t2 = None
                else:
                    x = _mk('nth', l, parts[l])
                    m = {}
                    for y in subterms(t2):
                        if y.op == 'at' and y.args[0] is x and len(y.args) == 2 and cval(y.args[1]) is not None and body.op == 'tup':
                            i = int(cval(y.args[1]))
                            m[y] = body.args[i]
                    t2 = subst(t2, m)
                    used |= {y for y in subterms(t2) if y.op == 'v'}
                at_part[p] = t2
        if any(t is None for t in at_part.values()):
            rep.ob('pairing', name, None, w, 'the choice between the lists is not resolved')
            continue
        missing = [i for i, x in enumerate(vs) if x not in used]
        rep.ob('complete', name + ' used', not missing, w, '' if not missing else 'index over %s does not reach the trial' % ', '.join(
            show(sizes[i])[:60] for i in missing))
        fixed = [y for p, t in at_part.items() for y in subterms(t) if y.op == 'at' and y.args[0] is CONFIG and len(y.args) == 3 and
                 cval(y.args[2]) is not None]
        others = {c for m, cs in enumerate(consts) if m != n for c in cs} - set(consts[n])
        wrong = []
        for p, t in at_part.items():
            for k in keys_in(t):
                if tokens(k) & others and not tokens(k) & set(consts[n]):
                    wrong.append('%s receives %s in a %s trial' % (p, k, '/'.join(consts[n])))
        one = {p: list(keys_in(t))[0] for p, t in at_part.items() if p and len(keys_in(t)) == 1}
        for a, b in itertools.combinations(sorted(one), 2):
            if one[a] != one[b] and not tokens(a) & tokens(one[a]) and not tokens(b) & tokens(one[b]) and \
                    tokens(a) & tokens(one[b]) and tokens(b) & tokens(one[a]):
                wrong.append('%s receives %s and %s receives %s' % (a, one[a], b, one[b]))
        rep.ob('pairing', name, not wrong, w, '; '.join(wrong))
        for k in sorted({y.args[1].args[-1] for y in fixed}):
            n_ = max([len(c[k]) for c in shipped(kind) if isinstance(c.get(k), list)], default=0)
            rep.ob('complete', name + ' fixed ' + k, False if n_ > 1 else None, w, 'a trial always uses the same element of %s (a shipped configuration lists %d)' % (k, n_))
        reach |= set(keys_in(S.c(e.binders[0][1]))).union(*[keys_in(z) for z in sizes], *[keys_in(t) for t in at_part.values()])
    if reach:
        vague = any(y.op == 'at' and y.args[0] is CONFIG and config_key(y) is None for x in S.R.I.events for a in [*x.args, *x.kw.values()]
                    if isinstance(a, T) for y in subterms(a)) or any(y.op == 'at' and y.args[0] is CONFIG and config_key(y) is None for t in args.values()
                                                                     if isinstance(t, T) for y in subterms(t)) or any(
            isinstance(t, T) and has_unknown(t) for t in args.values())
        for k in sorted({k for c in shipped(kind) for k, x in c.items() if isinstance(x, list)}):
            rep.ob('complete', '%s configured %s' % (kind, k), True if k in reach else None if vague else False, w, '' if k in reach else 'the configured list %s reaches no trial' % k)


def resumed(rep, kind, Q, P, v, size, order, w):
    if len(Q.trials) != 1 or len(Q.trials[0].binders) != 1:
        rep.ob('skip', kind, None, w, 'the resumed task loop was not recognised')
        return
    e = Q.trials[0]
    parts = parts_of(Q, e)
    pos = position(parts) if parts else None
    if pos is None:
        rep.ob('skip', kind, None, e.where(), 'the resumed position is not recognised')
        return
    P2, order2, _ = pos
    v2, size2 = e.binders[0]
    P2 = subst(P2, {v2: v})
    size2 = Q.c(size2)
    if order2 != order:
        rep.ob('skip', kind, None, e.where(), 'a resumed task uses other lists of combinations')
        return
    facts = gt(size2, ZERO)
    ok1 = same(P2, subst(P, {v: add(v, DISTINCT)}))
    ok2 = same(size2, sub(size, DISTINCT))
    if ok2 is not True and e.pc is TRUE:
        ok2 = True if size2 is max2(ZERO, sub(size, DISTINCT)) else ok2
    if e.pc is not TRUE and not (ok1 and ok2):
        rep.ob('skip', kind, None, e.where(), 'trials under the condition %s' % show(e.pc)[:120])
        return
    ok = False if False in (ok1, ok2) else None if None in (ok1, ok2) else True
    rep.ob('skip', kind, ok, e.where(), '' if ok else 'position %s of %s, without resuming %s of %s' % (
        show(P2)[:160], show(size2)[-60:], show(P)[:160], show(size)[-60:]))


def draws(rep, kind, S, Q):
    q = Q.trials[0] if len(Q.trials) == 1 else None
    if q is None or len(S.rngs) != 1 or len(Q.rngs) != 1 or not q.binders:
        rep.ob('seeds', kind, None, S.m.rel, 'one generator and one trial call expected')
        return
    tv = q.binders[0][0]
    inl = [d for d in Q.draws if d.binders and d.binders[0][0] is tv]
    pre = [d for d in Q.draws if d not in inl and d.seq < q.seq]
    w = q.where()
    if not inl or any(len(d.binders) != 1 or d.pc != q.pc for d in inl):
        rep.ob('seeds', kind, None, w, 'the draws of a trial were not recognised')
        return
    other = [x for x in Q.R.I.events if x.recv is Q.rngs[0].result and x not in Q.draws and x.seq < q.seq]
    sigs = {str([Q.c(a) for a in d.args]) + str(sorted((k, str(Q.c(z))) for k, z in d.kw.items())) for d in inl}
    if len(sigs) != 1 or other:
        rep.ob('seeds', kind, None, w, 'several kinds of draws')
        return
    n = ZERO
    for d in pre:
        kw = {k: z for k, z in d.kw.items() if k != 'size'}
        sig = str([Q.c(a) for a in d.args]) + str(sorted((k, str(Q.c(z))) for k, z in kw.items()))
        sz = Q.c(d.kw['size']) if 'size' in d.kw else ONE
        if sig not in sigs or d.pc is not TRUE or not isinstance(sz, T) or len(d.binders) > 1:
            rep.ob('seeds', kind, False if sig not in sigs and len(d.args) == 2 and not d.kw else None, d.where(),
                   'a skipped draw %s differs from those of the trials %s' % (sig, sorted(sigs)))
            return
        k = sz
        for _, z in d.binders:
            k = mul(k, Q.c(z))
        n = add(n, k)
    ok = same(n, mul(num(len(inl)), DISTINCT))
    rep.ob('seeds', kind, ok, (pre[0] if pre else q).where(), '' if ok else '%s draws are skipped for %s completed trials of %d draws each' % (
        show(n)[:80], show(DISTINCT), len(inl)))


def path_text(s, e, i=0):
    v = e.args[i] if len(e.args) > i else e.kw.get('path_or_buf', e.kw.get('filepath_or_buffer'))
    return s.c(v) if v is not None else None


def files(rep, kind, S, Q, ro):
    ex = [e for e in Q.R.I.events if e.name == 'exists']
    rd = [e for e in Q.R.I.events if e.name == 'read']
    writes = Q.writes
    if not rd or not writes:
        rep.ob('file', kind, None, Q.m.rel, 'no reading of earlier results or no writing was found')
        return
    paths = [(e, path_text(Q, e)) for e in ex + rd + writes] + [(e, path_text(S, e)) for e in S.writes]
    for e, p in paths:
        if not isinstance(p, T):
            rep.ob('file', kind, None, e.where(), 'path of %s' % e.name)
            continue
        known = not has_unknown(p)
        ok = True if p is paths[0][1] else (False if known and isinstance(paths[0][1], T) else None)
        rep.ob('file', '%s %s' % (kind, e.name), ok, e.where(), '' if ok else '%s and %s' % (show(p), show(paths[0][1])))
        a = argv_of(p)
        ok = True if {ro['task'], ro['save']} <= a else (False if known else None)
        rep.ob('file', '%s %s names the task' % (kind, e.name), ok, e.where(), '' if ok else 'path %s' % show(p))
    for e in rd:
        ic = e.kw.get('index_col')
        reads_index = ic is not None and cval(Q.c(ic)) == 0 if ic is None or isinstance(Q.c(ic), T) else None
        for x in writes:
            wi = x.kw.get('index')
            writes_index = True if wi is None else (Q.c(wi) is not FALSE)
            if wi is None and reads_index is not None or wi is not None and Q.c(wi) in (TRUE, FALSE):
                rep.ob('keep', kind + ' index column', reads_index == writes_index, e.where(), '' if reads_index == writes_index else
                       'the row labels are %s but %s' % ('written' if writes_index else 'not written', 'read as a label' if reads_index else 'read back as a column'))
    for s, tag in ((S, 'fresh'), (Q, 'resumed')):
        for x in s.writes:
            kept(rep, kind, s, tag, x)


def kept(rep, kind, s, tag, x):
    key = '%s %s write' % (kind, tag)
    if len(s.trials) != 1 or s.trials[0].binders != x.binders:
        rep.ob('keep', key, None, x.where(), 'write outside the trial loop')
        return
    mode = x.kw.get('mode')
    if mode is not None:
        rep.ob('keep', key, None, x.where(), 'written with a mode')
        return
    frame = s.trials[0].result
    recv = s.c(x.recv)
    cat = {c.result: c for c in s.R.I.events if c.name == 'pandas.concat'}
    if recv is frame:
        # only the new results: right only while there are no earlier ones
        acc = [y.args[0] for y in subterms(x.pc) if y.op == 'isnone' and y.args[0].op == 'phi']
        if len(acc) == 1 and imp(x.pc, isnone(acc[0])) is True:
            rep.ob('keep', key + ' first', carried(s, acc[0], frame, cat), x.where(), 'accumulated results %s' % show(acc[0]))
            return
        rep.ob('keep', key, False if not any(y.op == 'phi' for y in subterms(x.pc)) or tag == 'resumed' and x.pc is TRUE else None, x.where(),
               'only the results of the last trial are written')
        return
    if recv in cat:
        c = cat[recv]
        a = s.R.closed(c.args[0]) if c.args else None
        els = list(a.args) if isinstance(a, T) and a.op == 'tup' else None
        if els is None:
            rep.ob('keep', key, None, x.where(), 'concatenation of %s' % (a,))
            return
        phis = [y for y in els if y.op == 'phi']
        if len(phis) == 1 and frame in els:
            ok = carried(s, phis[0], frame, cat)
            rep.ob('keep', key, ok, x.where(), 'accumulated results start as %s' % (s.R.I.phi_info.get(phis[0].args[0], ('?',))[0],))
            return
        if frame not in els and not any(has_unknown(y) or y.op in ('phi', 'ite') for y in els):
            rep.ob('keep', key, False, x.where(), 'the new results are not written')
            return
        if frame in els and not phis and not any(has_unknown(y) or y.op == 'ite' for y in els):
            rep.ob('keep', key, False, x.where(), 'the accumulated results are not written')
            return
    rep.ob('keep', key, None, x.where(), 'what is written was not recognised: %s' % show(recv)[:80] if isinstance(recv, T) else '')


def carried(s, phi, frame, cat):
    """does the loop-carried value start as the earlier results and become what was written?"""
    info = s.R.I.phi_info.get(phi.args[0])
    if info is None:
        return None
    pre, post, cells, _, _ = info
    pre = s.R.closed(pre)
    start = s.prev if s.resumed else NONE
    if pre is not start:
        return False if pre is NONE or s.prev is not None and pre is s.prev else None
    post = s.R.I.closed(State(cells), post) if not isinstance(post, T) else post
    outs = leaves_of(post)
    good = []
    for cond, t in outs:
        if t is frame:
            good.append(imp(cond, isnone(phi)))
        elif t in cat:
            a = s.R.closed(cat[t].args[0])
            good.append(isinstance(a, T) and a.op == 'tup' and phi in a.args and frame in a.args)
        elif t is phi:
            good.append(False if cond is TRUE else None)
        else:
            good.append(None)
    return False if False in good else None if None in good else True


def leaves_of(t, cond=TRUE):
    if isinstance(t, T) and t.op == 'ite':
        return leaves_of(t.args[1], andd(cond, t.args[0])) + leaves_of(t.args[2], andd(cond, nott(t.args[0])))
    return [(cond, t)]


# ------------------------------------------------------------------------------------------------ one trial

PRMS = ('SimpleNearestNeighborRadiusPRM', 'SimpleFullConnRadiusPRM')


class Trial:
    """one trial with planner, neighbour search and completeness test left abstract"""

    def __init__(self, kind, fixed=()):
        self.kind = kind
        self.seen = {}
        self.m = m = runner(kind)
        self.f = f = trial_function(m)
        self.R = R = Run()
        I = R.I
        I.contract_funcs[(m.name, f.name)] = lambda I, st, a, kw, n: I.new_obj('pandas.DataFrame', [], {}, n, st)
        I.load(R.st, m.name)
        del I.contract_funcs[(m.name, f.name)]
        envs = repo().module(ENVS)

        def note(name, result):
            def go(I, st, args, kw, node):
                seen = self.look(I, st, name, args)
                r = result(I, st, args, kw)
                I.event(st, name, args[0] if args else None, args[1:], kw, node, r)
                self.seen[I.events[-1].seq] = seen
                return r
            return go

        def grow(cls):
            def go(I, st, args, kw):
                v = fresh_var()
                rads = I.new_arr(st, [Ax([v], [_mk('len', I.call_term('radii'))])], at(I.call_term('radii'), v))
                return Tup([I.call_term('effective'), rads]) if cls == PRMS[0] else rads
            return go

        def graph(I, st, args, kw):
            data = args[1] if len(args) > 1 else kw.get('data')
            k = args[2] if len(args) > 2 else list(kw.values())[-1] if kw else None
            a = to_arr(I, st, data, None)
            n = a.axes[0].sizes[0] if isinstance(a, Arr) else _mk('len', I.call_term('data'))
            i, j = fresh_var(), fresh_var()
            d = I.call_term('dist')
            kt = k if isinstance(k, T) else num(0)
            mk = lambda b: I.new_arr(st, [Ax([i], [n]), Ax([j], [kt])], at(b, i, j))
            return Tup([mk(I.call_term('index')), mk(d)])
        for c in PRMS:
            I.contract_methods[(c, 'grow_to_n_samples')] = note('grow', grow(c))
            I.contract_methods[(c, 'set_nearest_neighbors')] = note('set', lambda I, st, a, kw: NONE)
            I.contract_methods[(c, 'set_connection_radius')] = note('set', lambda I, st, a, kw: NONE)
            I.contract_methods[(c, 'reset')] = note('reset', lambda I, st, a, kw: NONE)
            I.contract_methods[(c, 'query_best_solution')] = note('query', lambda I, st, a, kw: Tup([I.call_term('solution'), I.call_term('path')]))
        for c in envs.classes:
            I.contract_methods[(c, 'is_prm_epsilon_delta_complete')] = note('complete', lambda I, st, a, kw: Tup(
                [I.call_term('verdict'), I.call_term('verdict_info')]))
            I.contract_methods[(c, 'sample_from_env')] = note('sample', lambda I, st, a, kw: self.draw(I, st))
        I.contract_funcs[('nonasymptotic.ann', 'get_ann')] = note('ann', lambda I, st, a, kw: sym('ann', 'o'))
        I.contract_methods[('*', 'new_graph_from_data')] = note('graph', graph)

        def unique(I, st, args, kw, node):
            a = args[0]
            r = I.call_term('numpy.unique')
            v = fresh_var()
            I.event(st, 'unique', None, args, kw, node, r)
            return I.new_arr(st, [Ax([v], [_mk('len', r)])], at(r, v))
        I.contract_funcs['numpy.unique'] = unique
        self.params = {}
        for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
            self.params[a.arg] = sym(a.arg, 'in' if a.arg in ('dim', 'dims') else 'o' if 'seed' in a.arg else '')
        self.params.update(fixed)
        self.prepare(I)
        self.st0 = len(I.events)
        self.result = R.call(m.name, f.name, **self.params)
        self.events = I.events[self.st0:]
        self.frame = R.closed(self.result)
        self.envs = [e for e in self.events if e.name.startswith('new:' + ENVS)]

    def look(self, I, st, name, args):
        return None

    def prepare(self, I):
        pass

    def draw(self, I, st):
        v = fresh_var()
        d = self.params.get('dim', sym('dim', 'in')) if hasattr(self, 'params') else sym('dim', 'in')
        return I.new_arr(st, [Ax([v], [d])], at(I.call_term('draw'), v))

    def c(self, v):
        return self.R.closed(v)

    def env_args(self, e):
        """constructor parameter -> argument of an environment construction"""
        c = e.name.rsplit('.', 1)[-1]
        cls = repo().module(ENVS).classes[c]
        init = next((n for n in cls.body if isinstance(n, ast.FunctionDef) and n.name == '__init__'), None)
        if init is None:
            return None
        a = [x.arg for x in init.args.posonlyargs + init.args.args][1:]
        out = dict(zip(a, e.args))
        out.update(e.kw)
        return {k: self.c(v) for k, v in out.items()}


# ------------------------------------------------------------------------------------------------ X03

def X03(rep):
    rep.rule('generator', 'the seeds of a task are drawn from a generator seeded by the task id')
    rep.rule('draw', 'each trial receives, as its seed, one draw made for that trial')
    rep.rule('environment', 'the environment of a trial is built with the seed of the trial')
    rep.rule('record', 'the seed recorded with a trial is the seed it received')
    for kind in TYPES:
        rep.guard('draw', kind, lambda: seeds(rep, kind))


def seed_param(rep, t, kind):
    """parameter of the trial that seeds its environments"""
    ps = set()
    for e in t.envs:
        a = t.env_args(e)
        key = '%s %s' % (kind, e.name.rsplit('.', 1)[-1])
        v = a.get('seed') if a is not None else None
        if v is None:
            rep.ob('environment', key, False if a is not None and 'seed' not in a else None, e.where(), 'built without a seed')
            continue
        p = [k for k, x in t.params.items() if x is v]
        if p:
            ps.add(p[0])
            rep.ob('environment', key, 'seed' in tokens(p[0]) or None, e.where(), 'seed is parameter %s' % p[0])
        else:
            free = {x for x in subterms(v) if x.op == 'sym'}
            rep.ob('environment', key, None if has_unknown(v) else False, e.where(), 'seeded with %s' % show(v)[:120])
    if not t.envs:
        rep.ob('environment', kind, None, t.m.rel, 'no environment is built in the trial')
    return ps.pop() if len(ps) == 1 else None


def seeds(rep, kind):
    S = Schedule(kind, False)
    Q = Schedule(kind, True)
    ts = [Trial(kind, fx) for fx in variants(S)]
    t = ts[0]
    rep.saw(S.R.I)
    rep.files.add(S.m.rel)
    ro = roles(S)
    p = None
    for t in ts:
        rep.saw(t.R.I)
        p = seed_param(rep, t, kind)
    for s, tag in ((S, 'fresh'), (Q, 'resumed')):
        key = '%s %s' % (kind, tag)
        if len(s.rngs) != 1:
            rep.ob('generator', key, None, s.m.rel, '%d generators' % len(s.rngs))
        for r in s.rngs:
            v = r.args[0] if r.args else r.kw.get('seed')
            v = s.c(v) if v is not None else NONE
            if 'task' not in ro or not isinstance(v, T):
                rep.ob('generator', key, None, r.where(), 'seed %s' % (v,))
                continue
            task = argv_int(ro['task'])
            k = sub(v, task) if v.op in ('c', 'poly', 'sym') else None
            if v is task or k is not None and cval(k) is not None:
                ok = True
            elif v is NONE or not has_unknown(v) and (argv_of(v) != {ro['task']} or contains(v, lambda x: x.op in ('call', 'at'))):
                ok = False
            else:
                ok = None
            rep.ob('generator', key, ok, r.where(), 'seeded with %s' % show(v)[:100])
        if p is None or not s.trials:
            rep.ob('draw', key, None, s.m.rel, 'the seed parameter of the trial was not identified')
            continue
        for e in s.trials:
            v = s.args(e).get(p)
            if v is None:
                rep.ob('draw', key, False if p in defaults(s.f) else None, e.where(), 'the trial receives no seed')
                continue
            d = [x for x in s.draws if x.result is v]
            inl = [x for x in s.draws if x.binders and e.binders and x.binders[0][0] is e.binders[0][0]]
            if d and d[0].binders == e.binders and len(inl) == 1 and d[0].pc == e.pc:
                rep.ob('draw', key, True, e.where(), '')
            elif d and not d[0].binders and e.binders:
                rep.ob('draw', key, False, e.where(), 'one draw (%s) serves every trial' % d[0].where())
            elif d and d[0].binders == e.binders and len(inl) > 1:
                rep.ob('draw', key, False if all(x.pc is TRUE for x in inl) else None, e.where(), '%d draws per trial' % len(inl))
            elif not d and isinstance(v, T) and not has_unknown(v) and not any(x.result is y for x in s.draws for y in subterms(v)):
                rep.ob('draw', key, False, e.where(), 'the seed %s is not a draw' % show(v)[:100])
            elif not d and isinstance(v, T) and not has_unknown(v) and contains(v, lambda x: any(y.result is x for y in s.draws)):
                rep.ob('draw', key, False if v.op in ('poly', 'mod', 'floor') else None, e.where(), 'the seed is %s' % show(v)[:100])
            else:
                rep.ob('draw', key, None, e.where(), 'seed %s' % (show(v)[:100] if isinstance(v, T) else v,))
    if p is not None:
        for t in ts:
            fr = Frame(t)
            n = 0
            for val, where, cond in fr.column('seed'):
                n += 1
                ok = True if val is t.params[p] else (None if not isinstance(val, T) or has_unknown(val) else False)
                rep.ob('record', kind, ok, where, '' if ok else 'records %s' % (show(val)[:100] if isinstance(val, T) else val,))
            if not n:
                rep.ob('record', kind, False if fr.understood and fr.names and 'seed' not in fr.names else None, t.m.rel, 'no column named seed')
        for s in (S, Q):
            for x in s.R.I.events:
                if x.name == 'setitem' and s.trials and x.recv is s.trials[0].result and x.args and s.c(x.args[0]) is string('seed'):
                    a = s.args(s.trials[0]).get(p)
                    rep.ob('record', kind + ' task', s.c(x.args[1]) is a or None, x.where(), 'overwritten')


def variants(S):
    """parameters of the trial that are a fixed text in each of the schedule's lists of combinations"""
    if len(S.trials) == 1:
        parts = parts_of(S, S.trials[0])
        pos = position(parts) if parts else None
        if pos:
            out = []
            for l in pos[1]:
                fx = {}
                for k, v in S.args(S.trials[0]).items():
                    if isinstance(v, T):
                        v = selected(v, parts, pos[1], l, pos[0])
                        if v.op == 'k':
                            fx[k] = v
                out.append(fx)
            return out
    return [{}]


def defaults(f):
    a = f.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    return set(ps[len(ps) - len(a.defaults):]) | {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}


# ------------------------------------------------------------------------------------------------ records

class Frame:
    """columns of the data frame a trial returns: name -> [(row variables, value, where)]"""

    def __init__(self, t):
        self.t = t
        self.names, self.rows, self.understood = None, [], False
        self.lists, self.sets = [], {}
        f = t.frame
        if not (isinstance(f, T) and f.op == 'obj'):
            return
        ev = [e for e in t.events if isinstance(e.result, T) and e.result.op == 'obj' and e.result.args[1] == f.args[1]]
        if len(ev) != 1 or not ev[0].name.endswith('DataFrame'):
            return
        self.e = e = ev[0]
        self.where = e.where()
        data = e.args[0] if e.args else e.kw.get('data')
        cols = e.args[2] if len(e.args) > 2 else e.kw.get('columns')
        data = t.c(data) if data is not None else None
        if cols is not None:
            cols = t.c(cols)
            if not (isinstance(cols, T) and cols.op in ('tup', 'list') and all(x.op == 'k' for x in cols.args)):
                return
            self.names = [x.args[-1] for x in cols.args]
        if isinstance(data, T) and data.op == 'list' and all(x.op in ('lam', 'tup') for x in data.args):
            for l in data.args:
                if l.op == 'lam':
                    vs, sizes, g, b = open_lam(l)
                else:
                    vs, sizes, g, b = [], [], TRUE, l
                for cond, leaf in leaves_of(b):
                    self.rows.append((vs, sizes, andd(g, cond), leaf))
            self.understood = self.names is not None
        elif isinstance(data, T) and data.op == 'dict' and cols is None:
            self.names = []
            for x in data.args:
                if x.op != 'tup' or x.args[0].op != 'k' or x.args[2] is not TRUE:
                    return
                self.names.append(x.args[0].args[-1])
                self.lists.append((x.args[0].args[-1], x.args[1]))
            self.understood = True
        for x in t.events:
            if x.name == 'setitem' and isinstance(x.recv, T) and x.recv.op == 'obj' and x.recv.args[1] == f.args[1]:
                k = t.c(x.args[0])
                if isinstance(k, T) and k.op == 'k' and x.pc == t.R.st.pc and not x.binders:
                    self.sets[k.args[-1]] = (t.c(x.args[1]), x.where())
                else:
                    self.understood = False

    def column(self, name):
        """[(value, where, condition)] of a column, over the rows"""
        return [(v, w, c) for vs, z, v, w, c in self.values(name)]

    def values(self, name):
        out = []
        if name in self.sets:
            v, w = self.sets[name]
            return [([], [], v, w, TRUE)]
        for k, l in self.lists:
            if k != name:
                continue
            if l.op == 'list' and len(l.args) == 1 and l.args[0].op == 'lam':
                vs, sizes, g, b = open_lam(l.args[0])
                out.append((vs, sizes, b, self.where, g))
            elif l.op in ('sym', 'at'):
                v = fresh_var()
                out.append(([v], [_mk('len', l)], at(l, v), self.where, TRUE))
            elif l.op == 'lam':
                vs, sizes, g, b = open_lam(l)
                out.append((vs, sizes, b, self.where, g))
            else:
                out.append(([], [], None, self.where, TRUE))
        if self.names and name in self.names and not self.lists:
            i = self.names.index(name)
            for vs, sizes, c, leaf in self.rows:
                ok = leaf.op == 'tup' and i < len(leaf.args)
                out.append((vs, sizes, leaf.args[i] if ok else None, self.where, c))
        return out


# ------------------------------------------------------------------------------------------------ X01

class Rows:
    """what the values of one row of a trial mean"""

    def __init__(self, t, vs, sizes):
        self.t, self.vs, self.sizes = t, vs, sizes

    def inst(self, e, x):
        """a term of event e, in the row's iteration"""
        m = {}
        for (b, z), v in zip(e.binders, self.vs):
            m[b] = v
        return subst(x, m) if isinstance(x, T) else x

    def here(self, *names):
        """events of the iteration that emits the row"""
        out = []
        for e in self.t.events:
            if e.name in names:
                if e.binders and len(self.vs) >= 1 and self.inst(e, e.binders[0][1]) is not self.sizes[0]:
                    continue
                out.append(e)
        return out


def cases(t, cond=TRUE, depth=10):
    """[(condition, value)] with every conditional resolved, however deep it is nested"""
    if depth and isinstance(t, T):
        for x in sorted((x for x in subterms(t) if x.op == 'ite' and not dangling(x)), key=lambda x: len(show(x))):
            c = x.args[0]
            if contains(c, lambda y: y.op == 'ite'):
                continue
            out = []
            for cc, val in ((c, True), (nott(c), False)):
                n = andd(cond, cc)
                if n is FALSE or logic.valid(nott(n)) is True:
                    continue
                out += cases(restrict(t, c, val), n, depth - 1)
            return out
    return [(cond, t)]


def call_named(x, name):
    return isinstance(x, T) and x.op == 'call' and x.args[0] == name


RADII = ('radii', 'numpy.unique')


def X01(rep):
    rep.rule('width', 'every row has exactly one value for each declared column')
    rep.rule('column', 'each column holds the quantity it names')
    rep.rule('entries', 'every list a frame is made of has one entry per element of the schedule')
    for kind in TYPES:
        def go():
            S = Schedule(kind, False)
            rep.files.add(S.m.rel)
            for fx in variants(S):
                t = Trial(kind, fx)
                rep.saw(t.R.I)
                label = kind + ''.join(' ' + show(v) for v in fx.values())
                records(rep, label, t)
            trial_column(rep, kind, S)
        rep.guard('column', kind, go)


def trial_column(rep, kind, S):
    """columns the task loop adds to the frame of a trial"""
    for e in S.trials:
        parts = parts_of(S, e)
        pos = position(parts) if parts else None
        for x in S.R.I.events:
            if x.name != 'setitem' or x.recv is not e.result or S.c(x.args[0]) is not string('trial') or pos is None:
                continue
            v = S.c(x.args[1])
            for l in pos[1]:
                w = selected(v, parts, pos[1], l, pos[0])
                vs, sizes, g, b = open_lam(l)
                if w.op == 'at' and w.args[0] is _mk('nth', l, parts[l]) and b.op == 'tup' and len(w.args) == 2 and cval(w.args[1]) is not None:
                    w = b.args[int(cval(w.args[1]))]
                    i = [k for k, y in enumerate(vs) if y is w]
                    keys = [config_key(sizes[k]) for k in i]
                    ok = True if keys and keys[0] and 'trial' in tokens(keys[0]) else (False if keys_in(w) else None)
                    rep.ob('column', '%s trial' % kind, ok, x.where(), '' if ok else 'holds %s' % show(w)[:80])
                else:
                    rep.ob('column', '%s trial' % kind, None, x.where(), 'holds %s' % show(w)[:80])


def records(rep, kind, t):
    fr = Frame(t)
    if not fr.understood:
        rep.ob('width', kind, None, getattr(fr, 'where', t.m.rel), 'the frame a trial returns was not recognised')
        return
    w = fr.where
    if len(set(fr.names)) != len(fr.names):
        rep.ob('width', kind + ' names', False, w, 'a column is named twice')
    for vs, sizes, c, leaf in fr.rows:
        n = len(leaf.args) if leaf.op == 'tup' else None
        rep.ob('width', kind, None if n is None else n == len(fr.names), w, '' if n == len(fr.names) else '%s values for %d columns' % (n, len(fr.names)))
    grows = [e for e in t.events if e.name in ('grow', 'graph')]
    for k, l in fr.lists:
        for vs, sizes, v, where, g in fr.values(k):
            ok = None
            if v is not None and grows and grows[0].binders:
                full = grows[0].binders[0][1]
                ok = True if len(sizes) == 1 and same(sizes[0], full) is True and g is TRUE else \
                    (False if len(sizes) == 1 and same(sizes[0], full) is False and g is TRUE or g is not TRUE and len(sizes) == 1 and cval(sizes[0]) is None and not has_unknown(g) else None)
            rep.ob('entries', '%s %s' % (kind, k), ok, where, '' if ok else 'entries over %s' % [show(z)[:60] for z in sizes])
    for name in fr.names + [x for x in fr.sets if x not in fr.names]:
        f = COLUMNS.get(name)
        vals = fr.values(name)
        if f is None:
            rep.ob('column', '%s %s' % (kind, name), None, w, 'no rule says what this column holds')
            continue
        for vs, sizes, v, where, cond in vals:
            if v is None:
                continue
            r = Rows(t, vs, sizes)
            r.row = {n: fr.values(n) for n in fr.names}
            r.name = name
            ok = f(r, v, cond, fr)
            rep.ob('column', '%s %s' % (kind, name), ok, where, '' if ok else 'holds %s' % show(v)[:200])


def decided(v, ok):
    """a value that is not what the column names is reported when it is fully known"""
    return True if ok else (None if not isinstance(v, T) or has_unknown(v) else False)


def col_env(*ps):
    def f(r, v, cond, fr):
        if not r.t.envs:
            return None
        out = []
        for e in r.t.envs:
            a = r.t.env_args(e)
            x = next((a[p] for p in ps if p in a), None)
            out.append(None if x is None else decided(v, v is x))
        return False if False in out else None if None in out else True
    return f


def col_param(p):
    def f(r, v, cond, fr):
        x = r.t.params.get(p)
        return None if x is None else decided(v, v is x)
    return f


def col_samples(r, v, cond, fr):
    es = r.here('grow')
    if len(es) == 1 and es[0].args:
        x = r.inst(es[0], r.t.c(es[0].args[0]))
        return decided(v, v is x or same(toint(v), toint(x)) is True)
    es = r.here('graph')
    if len(es) == 1:
        d = r.t.c(es[0].args[0])
        if isinstance(d, T) and d.op == 'lam':
            x = r.inst(es[0], open_lam(d)[1][0])
            return decided(v, v is x or toint(v) is x or x is toint(v))
    return None


def min_over_rows(r, v):
    """(neighbour column, distances) when v is the least entry, over all points, of one column of the distances"""
    if v.op == 'red' and v.args[0] == 'min' and v.args[1].op == 'lam':
        vs, sizes, g, b = open_lam(v.args[1])
        if len(vs) == 1 and g is TRUE and b.op == 'at' and call_named(b.args[0], 'dist') and len(b.args) == 3 and b.args[1] is vs[0]:
            return b.args[2], b.args[0], sizes[0]
    return None


def the(fr, name, r):
    """value of another column in the same row"""
    if name not in fr.names:
        return None
    i = fr.names.index(name)
    for vs, sizes, c, leaf in fr.rows:
        if leaf.op == 'tup' and len(vs) == len(r.vs) and i < len(leaf.args):
            return subst(leaf.args[i], dict(zip(vs, r.vs)))
    return None


def col_radius(r, v, cond, fr):
    es = r.here('graph')
    if len(es) != 1:
        return None
    m = min_over_rows(r, v)
    nn = the(fr, 'n_neighbors', r)
    if m is None or nn is None:
        return decided(v, False) if not contains(v, lambda x: x.op in ('call?', 'fn')) and nn is not None else None
    k, d, n = m
    mine = r.inst(es[0], es[0].result.items[1] if isinstance(es[0].result, Tup) else NONE)
    dist = r.inst(es[0], r.t.c(mine)) if not isinstance(mine, T) else mine
    ok = same(add(k, ONE), nn)
    if ok is not True:
        return ok
    if isinstance(dist, T) and dist.op == 'lam':
        b = open_lam(dist)[3]
        while b.op == 'lam':
            b = open_lam(b)[3]
        if b.op == 'at' and r.inst(es[0], b.args[0]) is not d:
            return False
        return same(n, r.inst(es[0], open_lam(dist)[1][0]))
    data = r.t.c(es[0].args[0])
    if isinstance(dist, T) and dist.op == 'call' and d.op == 'call':
        if dist is not d:
            return False
        return same(n, r.inst(es[0], open_lam(data)[1][0])) if isinstance(data, T) and data.op == 'lam' else None
    return None


def col_neighbors(r, v, cond, fr):
    e = the(fr, 'eff_rad', r)
    m = min_over_rows(r, e) if e is not None else None
    if m is None:
        return None
    return same(add(m[0], ONE), v)


def times(v):
    """(earlier, later) when v is the difference of two clock readings"""
    p = poly_of(v) if v.op == 'poly' else {}
    pos = [m for m, c in p.items() if c == 1]
    neg_ = [m for m, c in p.items() if c == -1]
    if len(p) == 2 and len(pos) == 1 and len(neg_) == 1:
        a, b = pos[0], neg_[0]
        if len(a) == 1 and len(b) == 1:
            x, y = a[0][0], b[0][0]
            if isinstance(x, T) and isinstance(y, T) and x.op == y.op == 'call' and x.args[0] in CLOCKS and y.args[0] in CLOCKS:
                return y, x
    return None


CLOCKS = ('time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time')


def col_time(*work):
    def f(r, v, cond, fr):
        out = []
        for c, x in cases(v):
            if cval(x) == 0:
                # no time is right only where nothing was done
                did = [e for e in r.here(*work) if logic.valid(nott(andd(c, cond, r.inst(e, e.pc)))) is not True]
                out.append(True if not did else None)
                continue
            p = times(x)
            if p is None:
                out.append(False if not has_unknown(x) and not contains(x, lambda y: y.op in ('ite', 'call?')) and (
                    x.op in ('k', 'c') or call_named(x, 'time.time') or x.op == 'poly') else None)
                continue
            es = {r.inst(e, e.result): e for e in r.here(*CLOCKS) if isinstance(e.result, T)}
            a, b = es.get(p[0]), es.get(p[1])
            if a is None or b is None:
                out.append(None)
                continue
            ws = r.here(*work)
            if not ws:
                out.append(None)
            else:
                out.append(a.seq < min(e.seq for e in ws) and b.seq > max(e.seq for e in ws))
                others = [e for e in r.here('grow', 'graph', 'query', 'complete') if e.name not in work]
                if any(a.seq < e.seq < b.seq for e in others):
                    out.append(False)
        return False if False in out else None if None in out or not out else True
    return f


def settings(x):
    """loop-carried positions a setting is looked up at"""
    return {y for y in subterms(x) if y.op == 'phi' or y.op == 'sym' and '~' in str(y.args[0])}


def moves(t, phi):
    """outcomes under which a loop-carried position moves: {'found', 'none'}"""
    out = set()
    for w in t.R.I.whiles:
        for k, p in w.phis.items():
            if p is phi and w.post is not None:
                post = t.R.I.closed(w.post, w.post.cells[k])
                for c, x in cases(post):
                    if x is not phi:
                        o = outcome(c)
                        out.add(o)
    return out


def outcome(c):
    """what a condition says about the last query: 'found', 'none' or None"""
    for x in conjuncts(c):
        neg1 = x.op == 'not'
        y = x.args[0] if neg1 else x
        if y.op == 'truth' and contains(y, lambda z: call_named(z, 'verdict')):
            return 'none' if neg1 else 'found'
        if contains(y, lambda z: call_named(z, 'path')):
            n = [z for z in subterms(y) if z.op == 'len' and call_named(z.args[0], 'path')]
            if n:
                if logic.valid(implies_t(x, gt(n[0], ZERO))) is True:
                    return 'found'
                if logic.valid(implies_t(x, le(n[0], ZERO))) is True:
                    return 'none'
    return None


def conjuncts(c):
    return list(_walk(c.args)) if c.op == 'and' else [c]


def col_bound(which):
    def f(r, v, cond, fr):
        seen = []
        for c, x in cases(v):
            ps = settings(x)
            for p in ps:
                m = moves(r.t, p)
                if m == {which}:
                    seen.append(True)
                elif m and None not in m:
                    seen.append(False)
                else:
                    seen.append(None)
            if not ps and x.op == 'call' or x.op in ('k',) and x is not NAN:
                seen.append(False)
        return False if False in seen else None if None in seen or not seen else True
    return f



def col_query(i):
    """a part of the result of a query: its length (0) or the number of points of its path (1)"""
    def f(r, v, cond, fr):
        sol = set()
        for e in r.here('query'):
            sol.add(r.inst(e, e.result.items[0] if i == 0 else _mk('len', e.result.items[1])))
        other = {r.inst(e, e.result.items[0] if i == 1 else _mk('len', e.result.items[1])) for e in r.here('query')}
        seen, todo, done = [], [x for _, x in cases(v)], set()
        while todo:
            x = todo.pop()
            if x in done:
                continue
            done.add(x)
            if x.op == 'nan' or x in sol:
                seen.append(True)
            elif x in other:
                seen.append(False)
            elif settings(x) == {x}:
                got = False
                for w in r.t.R.I.whiles:
                    for k, p in w.phis.items():
                        if p is x and w.post is not None:
                            got = True
                            todo += [y for _, y in cases(r.t.R.I.closed(w.post, w.post.cells[k]))]
                            todo += [y for _, y in cases(w.pre[k])] if isinstance(w.pre[k], T) else []
                            m = {b: z for (b, _), z in zip(r.here('query')[0].binders, r.vs)}
                            todo = [subst(y, m) for y in todo]
                if not got:
                    seen.append(None)
            else:
                seen.append(decided(x, False))
        return False if False in seen else None if None in seen or not seen else True
    return f


def col_info(r, v, cond, fr):
    for c, x in cases(v):
        if contains(x, lambda y: y.op == 'call' and y.args[0] in ('solution', 'path', 'dist', 'radii') + CLOCKS) and x.op not in ('fn', 'cat', 'k') \
                and not contains(x, lambda y: y.op == 'fn' and y.args[0] in ('cat', 'str')):
            return False
    return True


def col_schedule_type(r, v, cond, fr):
    x = r.t.params.get('prm_type')
    return None if x is None else decided(v, v is x)


COLUMNS = {
    'dim': col_env('dim'), 'delta_clearance': col_env('delta_clearance', 'clearance'), 'seed': col_env('seed'),
    'n_samples': col_samples, 'n_neighbors': col_neighbors, 'eff_rad': col_radius,
    'build_time': col_time('grow', 'graph'), 'check_time': col_time('query', 'complete'),
    'prm_type': col_schedule_type, 'rad_lbs': col_bound('none'), 'rad_ubs': col_bound('found'),
    'conn_lb': col_bound('none'), 'conn_ub': col_bound('found'),
    'thresh_path_dist': col_query(0), 'thresh_path_len': col_query(1), 'info': col_info,
}


# ------------------------------------------------------------------------------------------------ X05

SUBMIT = 'exps.submit_and_run_experiment_job'
TUNE = 'exps.tune_experiment_triples'
ARGS = sym('args', 'o')
RUNS = ('subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen')


class Options:
    """the options a script declares, from its add_argument calls"""

    def __init__(self):
        self.opts = {}

    def add(self, names, kw):
        flags = [n for n in names if n.startswith('-')]
        name = next((n for n in flags if n.startswith('--')), flags[0] if flags else names[0])
        dest = kw.get('dest') or name.lstrip('-').replace('-', '_')
        self.opts[dest] = dict(kw, flags=flags or [], positional=not flags, dest=dest)

    def by_flag(self, flag):
        for o in self.opts.values():
            if flag in o['flags']:
                return o
        return None

    def abbreviates(self, flag):
        return [o for o in self.opts.values() if any(f.startswith(flag) for f in o['flags'])]


class Script:
    """a command line tool with its flags fixed and commands, files and the clock left out"""

    def __init__(self, modname, flags=(), prepare=None):
        self.m = m = repo().module(modname)
        self.R = R = Run()
        I = R.I
        I.script_main = True
        self.opts = Options()
        self.runs = []
        self.loads = {}

        def text(v):
            return v.args[1] if isinstance(v, T) and v.op == 'k' and v.args[0] == 'str' else None

        def plain(st, v):
            if isinstance(v, T):
                if v is TRUE or v is FALSE:
                    return v is TRUE
                c = cval(v)
                if c is not None:
                    return c
                if v is NONE:
                    return None
                return text(v) if text(v) is not None else v
            t = I.closed(st, v) if not hasattr(v, 'name') else v
            if isinstance(t, T) and t.op in ('tup', 'list'):
                return [text(x) for x in t.args]
            return t

        def declare(I, st, args, kw, node):
            names = [text(a) for a in args[1:]]
            if all(names) and names:
                self.opts.add(names, {k: plain(st, v) for k, v in kw.items()})
            I.event(st, '.add_argument', args[0], args[1:], kw, node)
            return NONE

        def parse(I, st, args, kw, node):
            I.event(st, 'parse_args', args[0], args[1:], kw, node)
            return ARGS

        def option(I, st, o, name, node):
            if o is not ARGS:
                return None
            d = self.opts.opts.get(name)
            if d is None:
                return None
            if d.get('action') == 'store_true':
                return TRUE if name in flags else FALSE
            if d.get('action') == 'store_false':
                return FALSE if name in flags else TRUE
            n = d.get('nargs')
            if isinstance(n, (int, float)) or hasattr(n, 'numerator'):
                return I.new_list(st, [Seg((), (), TRUE, at(_mk('attr', ARGS, name), num(i))) for i in range(int(n))])
            return None

        def run(name):
            def f(I, st, args, kw, node):
                v = I.closed(st, args[0]) if args else NONE
                if v.op in ('tup', 'list') and all(isinstance(x, T) for x in v.args):
                    words = list(v.args)
                else:
                    words = None
                r = I.call_term(name)
                e = I.event(st, 'run', None, [v], kw, node, r)
                self.runs.append((I.events[-1], words))
                return r
            return f

        def load(I, st, args, kw, node):
            src = next((e for e in I.events if e.name == 'open' and args and e.result is args[0]), None)
            r = sym('json:%d' % len(self.loads), 'o')
            self.loads[r] = src
            I.event(st, 'json.load', None, args, kw, node, r)
            return r

        def globbed(I, st, args, kw, node):
            I.event(st, 'glob', None, [I.closed(st, args[0])] if args else [], kw, node, GLOB)
            return GLOB
        I.contract_methods[('*', 'add_argument')] = declare
        I.contract_methods[('*', 'parse_args')] = parse
        I.attr_hook = option
        for n in RUNS:
            I.contract_funcs[n] = run(n)
        I.contract_funcs['json.load'] = load
        I.contract_funcs['glob.glob'] = globbed
        if prepare is not None:
            prepare(self)
        I.load_module(R.st, m, main=True)
        self.events = I.events

    def c(self, v):
        return self.R.closed(v)


GLOB = sym('glob', 'o')
PRIVATE = 0xE000


def tokens_of(text):
    """the lines of a shell script as lists of words, each word a term"""
    pieces = list(text.args) if text.op == 'cat' else [text]
    s, table = '', []
    for p in pieces:
        if p.op == 'k' and p.args[0] == 'str':
            s += p.args[1]
        else:
            s += chr(PRIVATE + len(table))
            table.append(p)
    out = []
    for line in s.replace('\\\n', ' ').replace(';', '\n').replace('&&', '\n').split('\n'):
        words = []
        for w in line.split():
            w = w.replace('"', '') if not w.startswith('#') else w
            ps, cur = [], ''
            for ch in w:
                if PRIVATE <= ord(ch) < PRIVATE + len(table):
                    ps += [string(cur)] if cur else []
                    cur = ''
                    ps.append(table[ord(ch) - PRIVATE])
                else:
                    cur += ch
            ps += [string(cur)] if cur else []
            words.append(cat(*ps))
        if words:
            out.append(words)
    return out


def const_text(t):
    return t.args[1] if t.op == 'k' and t.args[0] == 'str' else None


def same_path(a, b):
    """paths equal up to how they are put together"""
    def parts(t):
        if t.op == 'fn' and t.args[0] in ('path.join', 'Path'):
            ps = list(t.args[1])
            out = []
            for i, p in enumerate(ps):
                out += ([string('/')] if i else []) + [p]
            return cat(*out)
        if t.op == 'fn' and t.args[0] in ('str', 'list'):
            return parts(t.args[1][0] if isinstance(t.args[1], tuple) else t.args[1])
        return t
    return parts(a) is parts(b)


def X05(rep):
    rep.rule('target', 'for each experiment type the submitted script runs the runner of that type')
    rep.rule('order', 'the script passes task id, task count, configuration and output directory where that runner reads them')
    rep.rule('files', 'the configuration and the script are written, under the directory just created, before the job is submitted')
    rep.rule('submit', 'the submitted script is the one written, or for a resumed run the one of the latest run of exactly this name')
    rep.rule('triples', 'the job is submitted with the three integers given, or for a resumed run the saved ones')
    rep.rule('stop', 'a set-up failure ends the program with an error before anything is submitted')
    rep.rule('options', 'the tuning tool passes only options the submission tool accepts, and every required one')
    rep.guard('target', 'fresh', lambda: fresh_submission(rep), '')
    rep.guard('submit', 'resumed', lambda: resumed_submission(rep), '')
    rep.guard('options', 'tune', lambda: tuning(rep), '')


def resume_flag(s):
    fs = [d for d, o in s.opts.opts.items() if o.get('action') == 'store_true']
    return fs


def submissions(s):
    return [(e, w) for e, w in s.runs if w is None or (w and const_text(w[0]) not in ('chmod', 'mkdir', 'cp', 'echo', 'ls', 'bash', 'sh'))]


def event_file(s, f):
    """the open call that produced a file handle"""
    return next((e for e in s.events if e.name == 'open' and e.result is f), None)


def written(s):
    """(path, text, write event) of each text written to a file, last"""
    out = []
    for e in s.events:
        if e.name in ('.write', '.write_text'):
            o = event_file(s, e.recv)
            p = s.c(o.args[0]) if o is not None else s.c(e.recv)
            out.append((p, s.c(e.args[0]), e))
    return out


def fresh_submission(rep):
    s = Script(SUBMIT)
    rep.saw(s.R.I)
    rep.files.add(s.m.rel)
    subs = submissions(s)
    if len(subs) != 1 or subs[0][1] is None:
        rep.ob('submit', 'fresh', None, s.m.rel, '%d submissions found' % len(subs))
        return
    e, words = subs[0]
    w = e.where()
    pc = e.pc
    rep.count('submission commands')
    # the script
    ws = [x for x in written(s) if any(same_path(x[0], y) for y in words)]
    if len(ws) != 1:
        known = not any(has_unknown(y) for y in words) and written(s) and not any(has_unknown(x[0]) for x in written(s))
        rep.ob('submit', 'fresh', False if known else None, w, 'the submitted script %s is not the one written' % ', '.join(map(show, words[1:2])))
        return
    path, text, we = ws[0]
    rep.ob('submit', 'fresh', True, w)
    before(rep, s, 'script', we, e)
    op = event_file(s, we.recv)
    if op is not None and len(op.args) > 1:
        mode = const_text(s.c(op.args[1])) if isinstance(s.c(op.args[1]), T) else None
        rep.ob('files', 'script mode', None if mode is None else 'w' in mode or 'x' in mode, op.where(), 'opened with mode %s' % mode)
    # directory
    mk = [x for x in s.events if x.name in ('os.mkdir', 'os.makedirs', '.mkdir')]
    save = None
    if len(mk) == 1:
        x = mk[0]
        save = s.c(x.args[0]) if x.args and x.name != '.mkdir' else s.c(x.recv)
        ok = x.kw.get('exist_ok')
        bad = ok is not None and ok is TRUE
        guarded = any(y.name in ('os.path.exists', 'os.path.isdir', '.exists') for y in s.events)
        rep.ob('stop', 'name taken', (False if bad and not guarded else None if bad or x.name == 'os.makedirs' or 'parents' in x.kw else True), x.where(),
               'an existing directory is taken over' if bad else '')
        before(rep, s, 'directory', x, e)
    else:
        rep.ob('files', 'directory', None, w, '%d directories made' % len(mk))
    # configuration
    conf = [x for x in s.events if x.name in ('json.dump', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2')]
    confpath = None
    user = _mk('attr', ARGS, 'config_path')
    if len(conf) == 1:
        x = conf[0]
        o = event_file(s, x.args[1]) if x.name == 'json.dump' and len(x.args) > 1 else None
        confpath = s.c(o.args[0]) if o is not None else s.c(x.args[1]) if x.name != 'json.dump' else None
        src = x.args[0] if x.name == 'json.dump' else None
        loaded = s.loads.get(src) if isinstance(src, T) else None
        from_ = s.c(loaded.args[0]) if loaded is not None else s.c(src) if x.name != 'json.dump' else None
        opt = isinstance(from_, T) and from_.op == 'attr' and from_.args[0] is ARGS
        rep.ob('files', 'configuration source', True if opt and 'config' in str(from_.args[1]) else False if opt else None, x.where(),
               '' if opt else 'saved from %s' % (from_,))
        if confpath is not None:
            before(rep, s, 'configuration', x, e)
            for k in ('triples',):
                sets = [y for y in s.events if y.name == 'setitem' and y.recv is src and y.args and const_text(s.c(y.args[0])) == k]
                if x.name == 'json.dump':
                    ok = any(y.seq < x.seq and isinstance(s.c(y.args[1]), T) for y in sets)
                    ups = [y for y in s.events if y.name == '.update' and y.recv is src and y.seq < x.seq]
                    ok = ok or any(k in y.kw for y in ups)
                    if not ok and (loaded is None or any(y.args for y in ups)):
                        ok = None
                    rep.ob('files', 'saved ' + k, ok, x.where(), '' if ok else 'the saved configuration has no %s for a resumed run' % k)
    if confpath is None:
        other = any(y.name in ('json.dumps', '.write_text', 'shutil.move') or y.name.startswith('shutil') for y in s.events)
        rep.ob('files', 'configuration', None if conf or other else False, w, 'no configuration is saved')
    if save is not None:
        for nm, p in (('script', path), ('configuration', confpath)):
            if p is not None:
                inside = p.op == 'fn' and p.args[0] == 'path.join' and p.args[1] and any(same_path(fn('path.join', *p.args[1][:i]) if i > 1 else p.args[1][0], save)
                                                                                   for i in range(1, len(p.args[1])))
                inside = inside or (flat(p)[:len(flat(save))] == flat(save))
                rep.ob('files', nm + ' place', True if inside else (False if not has_unknown(p) and not has_unknown(save) else None), w,
                       '' if inside else '%s is not under %s' % (show(p)[:100], show(save)[:100]))
    kinds(rep, s, e, words, text, we, save, confpath, user)
    triples(rep, s, 'fresh', e, words, None)
    stops(rep, s, 'fresh', e)


def flat(t):
    """characters and parts of a path"""
    if t.op == 'fn' and t.args[0] in ('path.join', 'Path'):
        out = []
        for i, p in enumerate(t.args[1]):
            out += (['/'] if i else []) + flat(p)
        return out
    if t.op == 'cat':
        return [x for p in t.args for x in flat(p)]
    if t.op == 'k' and t.args[0] == 'str':
        return list(t.args[1])
    return [t]


def before(rep, s, name, x, e):
    ok = x.seq < e.seq
    cond = imp(e.pc, x.pc) is True
    rep.ob('files', name + ' first', False if not ok else True if cond else None, x.where(), '' if ok and cond else
           'done after the submission' if not ok else 'not done on every submission')


def kinds(rep, s, e, words, text, we, save, confpath, user):
    typ = _mk('attr', ARGS, 'type')
    d = s.opts.opts.get('type')
    choices = d.get('choices') if d else None
    if d is None:
        rep.ob('target', 'type', None, s.m.rel, 'no option type')
        return
    names = [c for c in (choices if isinstance(choices, list) else TYPES)]
    for k in TYPES:
        rep.ob('target', 'offers ' + k, k in names, s.m.rel, 'the type %s cannot be requested' % k)
    cases = [(k, k) for k in names]
    if not isinstance(choices, list):
        cases.append((None, 'any other type'))
    if not d.get('required') and not d.get('default'):
        cases.append((None, 'no type'))
    for k, name in cases:
        atoms = {x for t in (text, e.pc) for x in subterms(t) if x.op in ('eqk', 'isnone') and typ in x.args}
        m = {}
        for x in atoms:
            if x.op == 'isnone':
                m[x] = TRUE if name == 'no type' else FALSE
                continue
            other = [y for y in x.args if y is not typ]
            m[x] = TRUE if k is not None and other and const_text(other[0]) == k else FALSE
        t = subst(text, m)
        pc = subst(e.pc, m)
        if k is None:
            rep.ob('target', name, True if pc is FALSE else False if not has_unknown(pc) else None, we.where(), '' if pc is FALSE else
                   'a job is submitted for %s' % name)
            continue
        if pc is FALSE:
            rep.ob('target', k, False, we.where(), 'no job is submitted for type %s' % k)
            continue
        t = subst(t, {typ: string(k)})
        lines = [ws for ws in tokens_of(t) if any((const_text(x) or '').endswith('.py') for x in ws) and not (const_text(ws[0]) or '').startswith('#')]
        if len(lines) != 1:
            rep.ob('target', k, None if has_unknown(t) or any(x.op == 'ite' for x in subterms(t)) or lines else False, we.where(), '%d runner commands in the script for %s' % (len(lines), k))
            continue
        ws = lines[0]
        i = next(i for i, x in enumerate(ws) if (const_text(x) or '').endswith('.py'))
        script = const_text(ws[i]).split('/')[-1]
        m_ = repo().modules.get('exps.' + script[:-3])
        if m_ is None:
            rep.ob('target', k, False, we.where(), 'exps/%s does not exist' % script)
            continue
        right = runner(k) if k in TYPES else None
        if right is None:
            rep.ob('target', k, None if k in script else False, we.where(), 'type %s runs %s' % (k, script))
            continue
        rep.ob('target', k, m_ is right, we.where(), '' if m_ is right else 'type %s runs %s' % (k, script))
        first = const_text(ws[0]) or ''
        rep.ob('target', k + ' interpreter', True if first.startswith('python') or first.startswith('/') else None, we.where(), first)
        if m_ is not right:
            continue
        S = Schedule(k, False)
        ro = roles(S)
        argv = ws[i:]
        want = {'task': [string('$LLSUB_RANK'), string('${LLSUB_RANK}')], 'count': [string('$LLSUB_SIZE'), string('${LLSUB_SIZE}')],
                'config': [confpath, user], 'save': [save]}
        for r, vals in want.items():
            if r not in ro or any(v is None for v in vals[:1]):
                rep.ob('order', '%s %s' % (k, r), None, we.where(), 'not recognised')
                continue
            got = argv[ro[r]] if ro[r] < len(argv) else None
            if got is None:
                rep.ob('order', '%s %s' % (k, r), False, we.where(), 'the runner reads argument %d, the script passes %d' % (ro[r], len(argv) - 1))
                continue
            ok = any(same_path(got, v) or flat(got) == flat(v) for v in vals)
            rep.ob('order', '%s %s' % (k, r), True if ok else None if has_unknown(got) else False, we.where(),
                   '' if ok else 'argument %d of %s, its %s, is %s' % (ro[r], script, r, show(got)[:120]))


def triples(rep, s, tag, e, words, saved):
    w = e.where()
    pieces = [x for x in words if any(y.op == 'at' for y in subterms(x))]
    opt = next((d for d, o in s.opts.opts.items() if o.get('nargs') is not None), None)
    fmts = [x for x in words if x.op == 'cat' and const_text(x.args[0]) in ('[',)]
    if len(fmts) != 1 or opt is None:
        rep.ob('triples', tag, None, w, 'the triples of the submission were not recognised')
        return
    items = [x for x in fmts[0].args if const_text(x) is None]
    seps = [const_text(x) for x in fmts[0].args if const_text(x) is not None]
    o = s.opts.opts[opt]
    n = o.get('nargs')
    if tag == 'fresh':
        typ = option_type(o)
        rep.ob('triples', 'declaration', True if n == 3 and typ == 'int' else False if n is not None and n != 3 or typ in ('str', 'float') else None, s.m.rel,
               'option %s takes %s values of type %s' % (opt, n, typ))
    base = _mk('attr', ARGS, opt) if tag == 'fresh' else saved
    want = [at(base, num(i)) for i in range(3)] if base is not None else None

    def inner(x):
        return x.args[0] if x.op == 'str' or x.op == 'fn' and x.args[0] == 'str' else x
    got = [next((y for y in subterms(x) if y.op == 'at'), x) for x in items]
    if want is None:
        rep.ob('triples', tag, None, w, 'source of the triples')
        return
    ok = got == want and seps == ['[', ',', ',', ']']
    und = any(has_unknown(x) for x in items) or any(x.op == 'lam' or x is NONE for i in items for x in subterms(i))
    rep.ob('triples', tag, True if ok else None if und else False, w, '' if ok else 'submitted as %s' % show(fmts[0])[:160])


def option_type(o):
    typ = getattr(o.get('type'), 'name', None) or getattr(o.get('type'), 'v', None) or getattr(o.get('type'), 'value', None)
    return getattr(typ, '__name__', typ)


def stops(rep, s, tag, e):
    """every handled failure of the set-up ends in an error exit before the submission"""
    exits = [x for x in s.events if x.name in ('sys.exit', 'os._exit', 'exit', 'quit')]
    n = 0
    for symb, (node, names, evs) in s.R.I.tries.items():
        live = [x for x in evs if x.name in ('os.mkdir', 'os.makedirs', '.mkdir', 'open', 'json.load', 'json.dump', 'glob', '.write', '.sort', 'run')]
        if not live:
            continue
        n += 1
        base = live[0].pc
        inside = any(x is e for x in evs)
        key = '%s %s of %s' % (tag, '/'.join(sorted(names)) if names else 'any', '/'.join(sorted({x.name.split('.')[-1] for x in live})))
        where = '%s:%d' % (s.m.rel, node.lineno)
        if inside:
            rep.ob('stop', key, None, where, 'the submission itself is in the guarded block')
            continue
        bad = andd(e.pc, base, symb)
        ok = bad is FALSE or imp(bad, FALSE) is True
        rep.ob('stop', key, True if ok else False if not has_unknown(bad) else None, where, '' if ok else 'the job is submitted although %s' % symb.args[0])
        if ok:
            codes = [x for x in exits if imp(x.pc, symb) is True]
            good = [x for x in codes if error_code(s, x) is True]
            zero = [x for x in codes if error_code(s, x) is False]
            raised = [x for x in s.events if x.name == 'raise' and imp(x.pc, symb) is True and x not in exits]
            raised = [x for x in raised if not any(y.line == x.line for y in exits)]
            rep.ob('stop', key + ' exit code', False if zero else True if good or raised else None if codes else False, (zero or codes or [e])[0].where(),
                   '' if good and not zero else 'the program ends without an error')
    for x in exits:
        if not any(imp(x.pc, symb) is True for symb in s.R.I.tries):
            c = error_code(s, x)
            rep.ob('stop', '%s exit line under %s' % (tag, show(x.pc)[-60:]), c, x.where(), '' if c else 'the program ends without an error')
    rep.count('handled set-up failures', n)


def error_code(s, x):
    if not x.args:
        return False
    v = s.c(x.args[0])
    if not isinstance(v, T):
        return None
    if v is NONE or cval(v) == 0:
        return False
    if cval(v) is not None or v.op in ('k', 'cat') or v is TRUE:
        return True
    return None


def resumed_submission(rep):
    s0 = Script(SUBMIT)
    flags = resume_flag(s0)
    if len(flags) != 1:
        rep.ob('submit', 'resumed', None, s0.m.rel, 'no flag to resume')
        return
    f = Script(SUBMIT, tuple(flags))
    rep.saw(f.R.I)
    subs = submissions(f)
    if len(subs) != 1 or subs[0][1] is None:
        rep.ob('submit', 'resumed', None, f.m.rel, '%d submissions found' % len(subs))
        return
    e, words = subs[0]
    w = e.where()
    g = [x for x in f.events if x.name == 'glob']
    fresh = [x for x in submissions(s0) if x[1] is not None]
    if len(g) != 1 or len(fresh) != 1:
        rep.ob('submit', 'resumed', None, w, 'the search for earlier runs was not recognised')
    else:
        pat = g[0].args[0]
        mk = [x for x in s0.events if x.name in ('os.mkdir', 'os.makedirs', '.mkdir')]
        save = s0.c(mk[0].args[0]) if len(mk) == 1 and mk[0].args else None
        if save is None:
            rep.ob('submit', 'exact name', None, g[0].where(), 'output directory')
        else:
            ok, why = exact(s0, flat(pat), flat(save))
            rep.ob('submit', 'exact name', ok, g[0].where(), why)
        # script of the found run
        script = [x for x in words if contains(x, lambda y: y is GLOB)]
        fpath = next((x[0] for x in written(s0) if any(same_path(x[0], y) for y in fresh[0][1])), None)
        if len(script) != 1 or fpath is None:
            rep.ob('submit', 'resumed', None if any(has_unknown(x) for x in words) else False, w, 'the submitted script is not taken from an earlier run')
        else:
            a, b = tail(script[0]), tail(fpath)
            rep.ob('submit', 'resumed', None if a is None or b is None else a == b, w, 'resumes %s, a fresh run writes %s' % (a, b))
        latest(rep, f, script, g[0])
    saved = [r for r, src in f.loads.items() if src is not None and contains(f.c(src.args[0]), lambda y: y is GLOB)]
    t = None
    if len(saved) == 1:
        t = at(saved[0], string('triples'))
        a = tail(f.c(f.loads[saved[0]].args[0]))
        conf = [x for x in s0.events if x.name == 'json.dump' and len(x.args) > 1]
        o = event_file(s0, conf[0].args[1]) if len(conf) == 1 else None
        b = tail(s0.c(o.args[0])) if o is not None else None
        rep.ob('triples', 'saved file', None if a is None or b is None else a == b, w, 'reads %s, a fresh run writes %s' % (a, b))
    triples(rep, f, 'resumed', e, words, t)
    stops(rep, f, 'resumed', e)
    # nothing to resume
    if not any(symb for symb, (node, names, evs) in f.R.I.tries.items() if any(x.name == 'glob' for x in evs)) and not any(
            contains(x.pc, lambda y: y is GLOB) for x in f.events if x.name in ('sys.exit',)):
        pass        # an uncaught IndexError ends the program as well


def tail(t):
    """the file name at the end of a path"""
    fl = flat(t)
    out = []
    for x in reversed(fl):
        if not isinstance(x, str):
            break
        if x == '/':
            return ''.join(reversed(out))
        out.append(x)
    return None


def exact(s, pat, save):
    """a glob pattern against the directory names made: True when it matches only runs of exactly the given name"""
    i = 0
    name = _mk('attr', ARGS, 'name')

    def norm(xs):
        return [x.args[0] if isinstance(x, T) and x.op in ('str',) else x.args[1][0] if isinstance(x, T) and x.op == 'fn' and x.args[0] == 'str' else x for x in xs]
    pat, save = norm(pat), norm(save)
    while i < min(len(pat), len(save)) and pat[i] == save[i]:
        i += 1
    if not any(x is name for x in pat[:i]):
        return None, 'prefix of the pattern'
    rest, made = pat[i:], save[i:]
    if '*' in rest:
        return False, 'the pattern also matches runs of other names that begin with this one'
    if not all(isinstance(x, str) for x in rest):
        return None, 'pattern %s' % (rest,)
    if len(made) != 1:
        return None, 'name of a run'
    fmt_ = next((const_text(s.c(x.args[-1])) for x in s.events if x.name.endswith('strftime') and x.result is made[0]), None)
    if fmt_ is None:
        return None, 'the time of a run'
    import re
    widths = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2, 'y': 2, 'j': 3, 'f': 6}
    want = re.sub('%(.)', lambda m: '?' * widths.get(m.group(1), 1), fmt_)
    got = re.sub(r'\[[^]]*\]', '?', ''.join(rest))
    got = ''.join(w if c == '?' and w != '?' else c for c, w in zip(got, want)) if len(got) == len(want) else got
    return (True, '') if got == want else (False, 'pattern %s never matches the names made, %s' % (''.join(rest), fmt_))


def latest(rep, f, script, g):
    if len(script) != 1:
        return
    sel = [x for x in subterms(script[0]) if x.op == 'at' and contains(x, lambda y: y is GLOB)]
    sort = [x for x in f.events if x.name == '.sort' and x.recv is GLOB]
    key = next((x.kw.get('key') for x in sort), None)
    if len(sel) != 1 or len(sort) != 1:
        rep.ob('submit', 'latest', None, g.where(), 'choice of the run to resume')
        return
    idx = sel[0].args[1]
    last = idx is sub(_mk('len', GLOB), ONE) or cval(idx) == -1
    first = cval(idx) == 0
    rev = sort[0].kw.get('reverse')
    rev = rev is TRUE
    ok = (last and not rev) or (first and rev)
    rep.ob('submit', 'latest', True if ok else False if (first or last) else None, g.where(), '' if ok else 'the earliest run is resumed')


def tuning(rep):
    d = Script(SUBMIT).opts
    t = Script(TUNE)
    rep.saw(t.R.I)
    rep.files.add(t.m.rel)
    if not t.runs:
        rep.ob('options', 'tune', None, t.m.rel, 'no command found')
    seen = set()
    target = repo().module(SUBMIT).rel.split('/')[-1]
    for e, words in t.runs:
        w = e.where()
        key = 'command %d' % (len(seen) + 1)
        if words is None:
            rep.ob('options', key, None, w, 'command %s' % show(e.args[0])[:100])
            continue
        sig = tuple(const_text(x) if const_text(x) is not None and const_text(x).startswith('-') else '.' for x in words) + (e.line,)
        if sig in seen:
            continue
        seen.add(sig)
        rep.count('tuning commands')
        i = next((i for i, x in enumerate(words) if (const_text(x) or '').endswith('.py')), None)
        if i is None:
            rep.ob('options', key, None, w, 'no script in the command')
            continue
        name = const_text(words[i]).split('/')[-1]
        if name != target:
            rep.ob('options', key, False if repo().modules.get('exps.' + name[:-3]) is None else None, w, 'runs %s' % name)
            continue
        wrong, given = [], {}
        cur = None
        for x in words[i + 1:]:
            c = const_text(x)
            if c is not None and c.startswith('-') and not c[1:2].isdigit():
                flag, _, val = c.partition('=')
                o = d.by_flag(flag) or (d.abbreviates(flag)[0] if len(d.abbreviates(flag)) == 1 else None)
                if o is None:
                    wrong.append('%s is not an option of %s' % (flag, target))
                    cur = None
                    continue
                cur = o['dest']
                given.setdefault(cur, []).extend([string(val)] if val else [])
            elif x.op == 'cat' and (const_text(x.args[0]) or '').startswith('--'):
                flag = const_text(x.args[0]).partition('=')[0]
                o = d.by_flag(flag)
                if o is None:
                    wrong.append('%s is not an option of %s' % (flag, target))
                    cur = None
                    continue
                cur = o['dest']
                given.setdefault(cur, []).append(x)
            elif cur is None:
                if not wrong:
                    wrong.append('a value without an option')
            else:
                given[cur].append(x)
                if x.op == 'c' or x.op == 'poly':
                    wrong.append('the number %s is passed where text is needed' % show(x))
        for dest, o in d.opts.items():
            if o.get('required') and dest not in given:
                wrong.append('the required option %s is missing' % o['flags'][0])
        for dest, vals in given.items():
            o = d.opts[dest]
            n = o.get('nargs')
            want = 0 if str(o.get('action', '')).startswith('store_') and o.get('action') != 'store' else int(n) if isinstance(n, (int, float)) or hasattr(n, 'numerator') else 1
            if n is None or not isinstance(n, str):
                if len(vals) != want:
                    wrong.append('%s takes %d values and is given %d' % (o['flags'][0], want, len(vals)))
            ch = o.get('choices')
            for v in vals:
                c = const_text(v)
                if isinstance(ch, list) and c is not None and c not in ch:
                    wrong.append('%s does not accept %r' % (o['flags'][0], c))
                own = v.args[1] if v.op == 'attr' and v.args[0] is ARGS else None
                mine = t.opts.opts.get(own) if own else None
                if isinstance(ch, list) and mine is not None and isinstance(mine.get('choices'), list) and set(mine['choices']) - set(ch):
                    wrong.append('%s may be given %s' % (o['flags'][0], sorted(set(mine['choices']) - set(ch))))
                if mine is not None and option_type(mine) in ('int', 'float'):
                    wrong.append('the number --%s is passed where text is needed' % own)
                if own and mine is not None and own != dest and own in d.opts and dest in t.opts.opts:
                    wrong.append('%s is given the value of --%s' % (o['flags'][0], own))
        rep.ob('options', key, not wrong, w, '; '.join(wrong))


# ------------------------------------------------------------------------------------------------ X07

class Search:
    """the queries of a trial and the settings they were made at"""

    def __init__(self, t):
        self.t = t
        I = t.R.I
        self.queries = {}
        for e in t.events:
            if e.name == 'query':
                d, p = e.result.items
                self.queries[p.args[1]] = e
                self.queries[d.args[1]] = e
        self.loops = [w for w in I.whiles if any(w.id in (getattr(y, 'id', y) for y in q.whiles) for q in self.queries.values())]

    def at(self, q):
        """the setting of a query: the value, False when nothing was set in its iteration, None when it depends"""
        sets = [e for e in self.t.events if e.name == 'set' and e.seq < q.seq and e.whiles == q.whiles and e.binders == q.binders]
        for e in reversed(sets):
            both = andd(e.pc, q.pc)
            if both is FALSE or logic.valid(nott(both)) is True:
                continue
            if imp(q.pc, e.pc) is True:
                return self.t.c(e.args[-1]) if e.args else None
            return None
        return False if q.whiles else None

    def of(self, x):
        """queries whose path or solution occurs in a term, as (part, event)"""
        out = set()
        for y in subterms(x):
            if y.op == 'call' and y.args[0] in ('path', 'solution') and y.args[1] in self.queries:
                out.add((y.args[0], self.queries[y.args[1]]))
        return out

    def relevant(self, c):
        """queries a condition tests that were made where it holds"""
        return [e for e in {e for _, e in self.of(c)} if logic.valid(nott(andd(c, e.pc))) is not True]

    def cases(self, w, v, cond):
        """the cases of a reported value, at the end of the search"""
        ends = [st.pc for kind, st, *_ in w.exits]
        if not ends or not any(y in set(w.phis.values()) for y in subterms(v)):
            ends = [TRUE]
        seen = set()
        for e in ends:
            for c, x in cases(v, andd(cond, e)):
                if c is not FALSE and logic.valid(nott(c)) is not True and (c, x) not in seen:
                    seen.add((c, x))
                    yield c, x

    def verdict(self, c):
        """(query event, 'found' or 'none') for each query the condition decides; None when a query is tested otherwise"""
        out, odd = [], False
        live = self.relevant(c)
        for x in conjuncts(c):
            qs = {(k, e) for k, e in self.of(x) if e in live}
            if not qs:
                continue
            if len(qs) > 1 or list(qs)[0][0] != 'path':
                odd = True
                continue
            e = list(qs)[0][1]
            n = _mk('len', next(y for y in subterms(x) if y.op == 'call' and y.args[0] == 'path' and self.queries.get(y.args[1]) is e))
            if logic.valid(implies_t(x, gt(n, ZERO))) is True:
                out.append((e, 'found'))
            elif logic.valid(implies_t(x, le(n, ZERO))) is True:
                out.append((e, 'none'))
            elif any(y is n for y in subterms(x)):
                out.append((e, 'either'))
            else:
                odd = True
        return None if odd else out


def key_of(w, p):
    return next((k for k, q in w.phis.items() if q is p), None)


def X07(rep):
    rep.rule('setting', 'every query of the search is made at a setting chosen in the same iteration')
    rep.rule('upper', 'the upper position moves, and is reported, only on a path found by a query at that setting')
    rep.rule('lower', 'the lower position moves only on a query at that setting that found no path')
    rep.rule('start', 'the search starts between the smallest and the largest setting')
    rep.rule('path', 'recorded distances and path lengths are those of a query that found a path, the one that moved the upper position')
    rep.guard('upper', 'narrow', lambda: narrow_search(rep), '')


def narrow_search(rep):
    S = Schedule('narrow', False)
    rep.files.add(S.m.rel)
    for fx in variants(S):
        t = Trial('narrow', fx)
        rep.saw(t.R.I)
        label = ' '.join(const_text(v) or '' for v in fx.values()) or 'narrow'
        search_rules(rep, label, t)


def search_rules(rep, label, t):
    s = Search(t)
    fr = Frame(t)
    if not fr.understood or len(s.loops) != 1 or not {'conn_lb', 'conn_ub', 'thresh_path_dist', 'thresh_path_len'} <= set(fr.names):
        for r in ('setting', 'upper', 'lower', 'start', 'path'):
            rep.ob(r, label, None, t.m.rel, 'the search loop or the record was not recognised')
        return
    w = s.loops[0]
    for q in sorted(set(s.queries.values()), key=lambda e: e.seq):
        v = s.at(q)
        rep.ob('setting', '%s query of line set %d' % (label, len([x for x in set(s.queries.values()) if x.seq < q.seq])), False if v is False else None if v is None or not isinstance(v, T) or has_unknown(v) else True,
               q.where(), 'no setting is chosen before this query' if v is False else '')
    rep.count('queries', len(set(s.queries.values())))
    top = {v for n, v in t.params.items() if 'max' in n and isinstance(v, T)}
    for name, which in (('conn_ub', 'found'), ('conn_lb', 'none')):
        rule = 'upper' if which == 'found' else 'lower'
        for vs, sizes, v, where, cond in fr.values(name):
            if v is None:
                rep.ob(rule, label + ' record', None, where, 'reported setting')
                continue
            m = {x: q.binders[0][0] for x in vs[:1] for q in list(s.queries.values())[:1] if q.binders}
            v, cond = subst(v, m), subst(cond, m)
            for c, leaf in s.cases(w, v, cond):
                reported(rep, s, w, label, rule, which, c, leaf, where, top)
    for name, part in (('thresh_path_dist', 'solution'), ('thresh_path_len', 'path')):
        for vs, sizes, v, where, cond in fr.values(name):
            if v is None:
                rep.ob('path', label + ' record', None, where, name)
                continue
            m = {x: q.binders[0][0] for x in vs[:1] for q in list(s.queries.values())[:1] if q.binders}
            v, cond = subst(v, m), subst(cond, m)
            for c, leaf in s.cases(w, v, cond):
                recorded(rep, s, w, label, part, c, leaf, where, name)


def evidence(s, c, which, leaf, top):
    """whether a condition says a query at this very setting (or at the configured maximum) had the outcome"""
    vd = s.verdict(c)
    if vd is None:
        return None, 'the condition tests a query in another way'
    why = 'no query decides it'
    for e, o in vd:
        v = s.at(e)
        if o == which and isinstance(v, T) and (v is leaf or v in top or same(v, leaf) is True):
            return True, ''
        if o != which:
            why = 'a query there found %s' % ('a path' if o == 'found' else 'no path' if o == 'none' else 'any outcome')
        else:
            why = 'the query was made at %s' % (show(v)[:80] if isinstance(v, T) else 'another setting')
        if v is None:
            return None, 'setting of the query'
    return False, why


def reported(rep, s, w, label, rule, which, c, leaf, where, top):
    if leaf.op == 'nan':
        rep.count('rows without a setting')
        return
    if has_unknown(leaf):
        rep.ob(rule, label + ' record', None, where, 'reported setting %s' % show(leaf)[:120])
        return
    ps = [p for p in settings(leaf) if key_of(w, p) is not None]
    if len(ps) > 1:
        rep.ob(rule, label + ' record', None, where, 'reported setting %s' % show(leaf)[:120])
        return
    ev, why = evidence(s, c, which, leaf, top)
    if not ps:
        if not s.relevant(c):
            rep.ob(rule, label + ' record', None if not settings(c) else False, where, 'reported %s without a query' % show(leaf)[:100])
        else:
            rep.ob(rule, label + ' at the end', ev, where, '' if ev else 'reported %s but %s' % (show(leaf)[:100], why))
        return
    p = ps[0]
    k = key_of(w, p)
    pre = s.t.c(w.pre[k])
    moved(rep, s, w, label, rule, which, k, p, leaf, where)
    if which == 'none':
        rep.ob('start', label + ' lower', True if pre is ZERO else None if not isinstance(pre, T) or has_unknown(pre) else False, where,
               '' if pre is ZERO else 'the lower position starts at %s' % show(pre))
        other = [(e, o) for e, o in (s.verdict(c) or []) if o == 'found' and isinstance(s.at(e), T) and s.at(e) is leaf]
        if other:
            rep.ob('lower', label + ' at the end', False, where, 'reported %s although a query there found a path' % show(leaf)[:80])
        return
    # the upper position may still be where it started
    away = imp(c, nott(eq(p, pre))) is True or imp(c, lt(p, pre)) is True
    if away:
        rep.ob('upper', label + ' lowered', True, where)
        return
    if ev:
        rep.ob('upper', label + ' at the end', True, where)
        return
    if not s.relevant(c) and flagged(s, w, c, p):
        rep.count('rows of an inconsistent search')
        return
    rep.ob('upper', label + ' at the end', None if ev is None else False, where, 'the upper setting is reported without having been lowered, and %s' % why)


def flagged(s, w, c, p):
    """the branch for a search whose positions are out of order"""
    others = [q for q in w.phis.values() if q is not p and any(y is q for y in subterms(c))]
    return any(imp(c, ge(q, p)) is True for q in others)


def moved(rep, s, w, label, rule, which, k, p, leaf, where):
    if w.post is None:
        rep.ob(rule, label + ' moves', None, where, 'the search loop never repeats')
        return
    post = s.t.R.I.closed(w.post, w.post.cells[k])
    for c, x in cases(post):
        if x is p:
            continue
        if has_unknown(x):
            rep.ob(rule, label + ' moves', None, where, 'moves to %s' % show(x)[:100])
            continue
        want = subst(leaf, {p: x})
        ev, why = evidence(s, c, which, want, set())
        rep.ob(rule, label + ' moves', ev, '%s:%d' % (s.t.m.rel, w.node.lineno), '' if ev else '%s moves to %s but %s' % (k[-1], show(x)[:100], why))


def recorded(rep, s, w, label, part, c, leaf, where, name):
    if leaf.op == 'nan':
        return
    if has_unknown(leaf):
        rep.ob('path', '%s %s' % (label, name), None, where, 'holds %s' % show(leaf)[:100])
        return
    ps = [p for p in settings(leaf) if key_of(w, p) is not None]
    if ps and leaf is ps[0]:
        k = key_of(w, leaf)
        pre = s.t.c(w.pre[k])
        rep.ob('path', '%s %s start' % (label, name), True if pre is NAN else False if isinstance(pre, T) and cval(pre) is not None and any(
            o == 'none' for _, o in s.verdict(c) or []) else None, where, '' if pre is NAN else 'starts as %s' % show(pre))
        if w.post is None:
            return
        post = s.t.R.I.closed(w.post, w.post.cells[k])
        for c2, x in cases(post):
            if x is not leaf:
                taken(rep, s, label, part, c2, x, where, name)
        together(rep, s, w, label, k, name, where)
        return
    taken(rep, s, label, part, c, leaf, where, name)


def taken(rep, s, label, part, c, x, where, name):
    qs = s.of(x)
    vd = s.verdict(c)
    key = '%s %s' % (label, name)
    if len(qs) != 1 or vd is None:
        rep.ob('path', key, None if vd is None or has_unknown(x) else False, where, 'holds %s' % show(x)[:100])
        return
    kind, e = list(qs)[0]
    right = kind == part and (x.op == 'call' if part == 'solution' else x.op == 'len')
    found = (e, 'found') in vd
    rep.ob('path', key, right and found, where, '' if right and found else
           'holds the %s of a query' % ('length' if kind == 'solution' else 'path') if not right else 'taken from a query without a path')


def together(rep, s, w, label, k, name, where):
    """the value changes exactly in the iterations that move the upper position"""
    ubs = set()
    for kk, p in w.phis.items():
        post = s.t.R.I.closed(w.post, w.post.cells[kk])
        if isinstance(post, T) and kk != k:
            for c, x in cases(post):
                vd = s.verdict(c)
                if x is not p and vd and all(o == 'found' for _, o in vd) and not s.of(x):
                    ubs.add(kk)
    if len(ubs) != 1:
        rep.ob('path', '%s %s with the upper position' % (label, name), None, where, 'the upper position was not recognised')
        return
    u = ubs.pop()

    def when(kk):
        post = s.t.R.I.closed(w.post, w.post.cells[kk])
        return orr(*[c for c, x in cases(post) if x is not w.phis[kk]])
    a, b = when(k), when(u)
    ok = a is b or (imp(a, b) is True and imp(b, a) is True)
    rep.ob('path', '%s %s with the upper position' % (label, name), True if ok else False if not has_unknown(a) and not has_unknown(b) else None, where,
           '' if ok else 'recorded and lowered under different conditions')
