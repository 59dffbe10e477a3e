"""Experiment scripts: call binding, configuration files, job submission, trial records, task scheduling."""
import ast
import json
import os
import sys

from .flow import Flow, Scope, is_fn, decorations, stmts
from .loader import AnchorMissing
from .run import repo

THIRD = {'numpy', 'pandas', 'shapely', 'scipy', 'networkx', 'networkit', 'pynndescent', 'kgraph', 'triangle', 'sympy', 'matplotlib',
         'tqdm', 'numba', 'pybullet', 'pybullet_tools', 'pybullet_data', 'pddlstream', 'pytest', 'examples', 'mpl_toolkits', 'psutil'}


def where(sc, n):
    return '%s:%d' % (sc.module.rel, getattr(n, 'lineno', 0))


def qual(sc):
    out, s = [], sc
    while s is not None and s.parent is not None:
        out.append(getattr(s.node, 'name', 'lambda'))
        if s.cls is not None:
            out.append(s.cls.name)
        s = s.parent
    return '.'.join(reversed(out)) or '<module>'


def construct(sc, n):
    return '%s %s: %s' % (sc.module.rel, qual(sc), ' '.join(ast.unparse(n).split())[:70])


def conditional(n, sc):
    """inside a branch, a guarded expression or a handler of its function"""
    c = n
    while True:
        p = getattr(c, '_parent', None)
        if p is None or c is sc.node:
            return False
        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and c is not p.test or isinstance(p, ast.BoolOp) and c is not p.values[0] \
                or isinstance(p, ast.Try) or isinstance(p, ast.ExceptHandler) or isinstance(p, ast.comprehension):
            return True
        c = p


def guards(n, top):
    """[(test, polarity)] of the branches a node lies in, up to its function; handlers give (None, True)"""
    out, c = [], n
    while c is not top and getattr(c, '_parent', None) is not None:
        p = c._parent
        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and c is not p.test:
            inside = c in p.body if isinstance(p.body, list) else c is p.body
            out += split(p.test, inside)
        elif isinstance(p, ast.BoolOp) and c is not p.values[0]:
            for x in p.values[:p.values.index(c)]:
                out += split(x, isinstance(p.op, ast.And))
        elif isinstance(p, (ast.Try, ast.ExceptHandler)):
            out.append((None, True))
        elif isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in p.generators:
                out += [(t, True) for t in g.ifs]
        if isinstance(p, (ast.FunctionDef, ast.Module, ast.For, ast.While, ast.If, ast.With, ast.Try)):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(p, f, None)
                if isinstance(b, list) and c in b:
                    for q in b[:b.index(c)]:
                        if isinstance(q, ast.If) and q.body and isinstance(q.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and not q.orelse:
                            out += split(q.test, False)
        c = p
    return out


def split(t, pol):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return split(t.operand, not pol)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == pol:
        return [x for v in t.values for x in split(v, pol)]
    return [(t, pol)]


def equation(t, pol, sc):
    """(name, constant, equal) of a test of a parameter nothing reassigns against a constant"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
        a, b = t.left, t.comparators[0]
        if isinstance(a, ast.Constant):
            a, b = b, a
        if isinstance(a, ast.Name) and isinstance(b, ast.Constant):
            stores = [x for x in ast.walk(sc.node) if isinstance(x, ast.Name) and x.id == a.id and isinstance(x.ctx, ast.Store)]
            if not stores:
                return a.id, b.value, pol == isinstance(t.ops[0], ast.Eq)
    return None


def contradict(g1, g2, sc):
    e1 = [e for e in (equation(t, p, sc) for t, p in g1 if t is not None) if e]
    e2 = [e for e in (equation(t, p, sc) for t, p in g2 if t is not None) if e]
    for a in e1:
        for b in e2:
            if a[0] == b[0] and (a[1] == b[1] and a[2] != b[2] or a[1] != b[1] and a[2] and b[2]):
                return True
    return False


def feasible(F, n, sc, recv):
    """values of a receiver variable that reach a call, given the branches the assignments and the call lie in"""
    gs = guards(n, sc.node)
    if not isinstance(recv, ast.Name) or F.home(recv.id, sc) is not sc:
        return None
    if is_fn(sc.node) and any(isinstance(x, ast.arg) and x.arg == recv.id for x in ast.walk(sc.node.args)):
        return None
    out = set()
    for a in ast.walk(sc.node):
        if isinstance(a, ast.Name) and a.id == recv.id and isinstance(a.ctx, ast.Store):
            p = a._parent
            if not (isinstance(p, ast.Assign) and a in p.targets):
                return None
            if contradict(guards(p, sc.node), gs, sc):
                continue
            if isinstance(p.value, ast.IfExp):
                for v, pol in ((p.value.body, True), (p.value.orelse, False)):
                    if not contradict(split(p.value.test, pol), gs, sc):
                        out |= F.ev(v, sc)
            else:
                out |= F.ev(p.value, sc)
    return out


def tested(n, sc, recv):
    """a branch the call lies in asks what the receiver is"""
    r = ast.unparse(recv)
    for t, _ in guards(n, sc.node):
        if t is None:
            return True
        for c in ast.walk(t):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('hasattr', 'isinstance', 'callable', 'type', 'issubclass', 'getattr') \
                    and c.args and ast.unparse(c.args[0]) == r:
                return True
            if isinstance(c, (ast.Compare,)) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in c.ops) and ast.unparse(c.left) == r and \
                    not (isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value is None):
                return True
    return False


# ------------------------------------------------------------------------------------------------ X06

def X06(rep):
    rep.rule('imports', 'every module and every name a repository module imports from the repository exists there')
    rep.rule('names', 'every name that is called is bound in some enclosing scope of its module')
    rep.rule('members', 'a method called on an instance, class or module of the repository is defined there')
    rep.rule('calls', 'arguments of a call bind to the parameters of every repository function, method or class it can reach')
    F = Flow()
    for m, s, t, dotted, name, ok in F.imports:
        if t is None:
            top = dotted.split('.')[0]
            local = top in F.repo.modules or os.path.isdir(os.path.join(F.repo.root, top)) and any(k.startswith(top + '.') for k in F.repo.modules)
            if isinstance(s, ast.ImportFrom) and s.level or (local and top not in THIRD and not (top in sys.stdlib_module_names)):
                rep.ob('imports', '%s: %s' % (m.rel, dotted), False, '%s:%d' % (m.rel, s.lineno), 'the repository has no module %s' % dotted)
            elif top in sys.stdlib_module_names or top in THIRD:
                rep.count('imports from other packages')
            else:
                rep.ob('imports', '%s: %s' % (m.rel, dotted), None, '%s:%d' % (m.rel, s.lineno), 'neither a module of the repository nor a known package')
        else:
            rep.ob('imports', '%s: %s.%s' % (m.rel, dotted, name or ''), bool(ok), '%s:%d' % (m.rel, s.lineno),
                   '' if ok else 'module %s binds no name %s' % (dotted, name))
    defined = set()
    for m in F.mods:
        defined |= {q.split('.')[-1] for q in m.functions} | {q.split('.')[-1] for q in m.classes}
    for n, sc in F.loads():
        if F.home(n.id, sc) is None:
            p = getattr(n, '_parent', None)
            called = isinstance(p, ast.Call) and p.func is n
            rep.ob('names', construct(sc, n), False if called or n.id in defined else None, where(sc, n), 'nothing binds the name %s' % n.id)
        else:
            rep.count('names resolved')
    for n, sc, fs, base in F.calls.values():
        f = n.func
        rep.count('call sites')
        if isinstance(f, ast.Attribute):
            known = [v for v in base if v[0] in ('inst', 'class', 'mod')]
            miss = []
            for v in known:
                if v[0] == 'mod':
                    m = F.repo.modules[v[1]]
                    ts = F.scope_of.get(id(m.tree))
                    if ts is not None and f.attr not in ts.names and F.from_star(ts, f.attr) is None and v[1] + '.' + f.attr not in F.repo.modules:
                        miss.append(v)
                    continue
                ids, ext = F.mro(v[1])
                if ext or F.member(v[1], '__getattr__') or f.attr.startswith('__'):
                    continue
                fam = [k for k in F.classes if v[1] in F.mro(k)[0]] + ids
                if F.member(v[1], f.attr) is None and not any(F.got(('f', k, f.attr)) for k in fam) \
                        and not (F.is_record(v[1]) and f.attr in [x[0] for x in F.record_fields(v[1])]):
                    miss.append(v)
            if known:
                st = not miss
                if miss:
                    live = feasible(F, n, sc, f.value)
                    if live is not None:
                        miss = [v for v in miss if v in live]
                        base = live
                        st = not miss
                if miss and tested(n, sc, f.value):
                    rep.count('members asked for only after a test of the receiver')
                elif miss and len(miss) < len([v for v in base if v[0] in ('inst', 'class', 'mod', 'ext')]) and conditional(n, sc):
                    rep.count('members only some classes have, called under a condition')
                else:
                    rep.ob('members', construct(sc, n), st, where(sc, n), '' if st else '%s has no member %s' % (
                        ', '.join(sorted(str(v[1]) if v[0] == 'mod' else F.name_of(v) for v in miss)), f.attr))
        tgt = [v for v in fs if v[0] in ('func', 'bound', 'class', 'partial', 'ntuple') or v[0] == 'inst' and F.member(v[1], '__call__')]
        bad = [(v, w) for v, w in ((v, F.binds(v, n, sc)) for v in sorted(tgt, key=str)) if w]
        if not tgt:
            continue
        rep.count('call sites with repository targets')
        if bad and isinstance(f, ast.Attribute):
            live = feasible(F, n, sc, f.value)
            if live is not None:
                ok = F.attr(live, f.attr, f)
                bad = [x for x in bad if x[0] in ok]
                tgt = [v for v in tgt if v in ok]
            if bad and tested(n, sc, f.value):
                rep.count('calls made only after a test of the receiver')
                continue
        if bad and len(bad) < len(tgt) and conditional(n, sc):
            rep.ob('calls', construct(sc, n), None, where(sc, n), 'under a condition: %s: %s' % (F.name_of(bad[0][0]), bad[0][1]))
        else:
            rep.ob('calls', construct(sc, n), not bad, where(sc, n), '; '.join('%s: %s' % (F.name_of(v), w) for v, w in bad))
    for sc in F.scope_of.values():
        rep.functions.add(sc.module.name + ':' + qual(sc))
        rep.files.add(sc.module.rel)


# ------------------------------------------------------------------------------------------------ X04

TYPES = ('knn', 'line', 'narrow')


def runner(kind):
    ms = [m for k, m in repo().modules.items() if k.startswith('exps.run_') and kind in k.split('.')[-1].split('_')]
    if len(ms) != 1:
        raise AnchorMissing('runner of experiment type %s' % kind)
    return ms[0]


def closure(m):
    """a module and the repository modules it imports, transitively"""
    out, todo = [], [m]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.append(x)
        for n in ast.walk(x.tree):
            if isinstance(n, ast.Import):
                todo += [t for t in (repo().resolve(a.name, x) for a in n.names) if t]
            elif isinstance(n, ast.ImportFrom):
                t = repo().resolve(n.module or '', x) if not n.level else None
                if n.level:
                    base = x.name.split('.')[:-n.level] if not x.rel.endswith('__init__.py') else x.name.split('.')[:len(x.name.split('.')) - n.level + 1]
                    t = repo().resolve('.'.join(base + ([n.module] if n.module else [])), x)
                if t:
                    todo.append(t)
                    todo += [q for q in (repo().modules.get(t.name + '.' + a.name) for a in n.names) if q]
    return out


def values_at(doc, path):
    """(values of a configuration at a path, None or the key that is missing)"""
    cur = [doc]
    for k in path:
        nxt = []
        for v in cur:
            if isinstance(k, tuple):
                k2 = k[1]
                if isinstance(v, dict) and k2 in v:
                    nxt.append(v[k2])
                continue
            if k == '*':
                nxt += list(v) if isinstance(v, (list, str)) else []
            elif isinstance(k, int) and not isinstance(k, bool):
                if isinstance(v, list) and -len(v) <= k < len(v):
                    nxt.append(v[k])
            elif isinstance(v, dict):
                if k not in v:
                    return [], k
                nxt.append(v[k])
            else:
                return [], k
        cur = nxt
    return cur, None


def is_kind(v, kind):
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    if kind == 'an integer':
        return isinstance(v, int) and not isinstance(v, bool)
    if kind == 'a number':
        return num
    if kind == 'a sequence':
        return isinstance(v, list)
    if kind == 'a text':
        return isinstance(v, str)
    return True


SEQ_FUNCS = {'list', 'tuple', 'sorted', 'enumerate', 'zip', 'len', 'set', 'reversed', 'min', 'max', 'sum', 'iter'}
SHAPES = {'zeros', 'ones', 'empty', 'full', 'eye', 'identity'}


def reads(F):
    """uses of configuration values: (paths, kind, node, scope); kind 'key' for a read of a key"""
    def at(n, sc):
        return frozenset(v[1] for v in F.ev(n, sc) if v[0] == 'in')

    def terms(n):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
            return terms(n.left) + terms(n.right)
        if isinstance(n, ast.UnaryOp):
            return terms(n.operand)
        return [n]

    for n, sc in F.exprs():
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
            k = F.const_key(n.slice, sc)
            if isinstance(k, str) and k != '*':
                ps = at(n.value, sc)
                if ps:
                    yield frozenset(p + (k,) for p in ps), 'key', n, sc
        if isinstance(n, (ast.For, ast.comprehension)):
            yield at(n.iter, sc), 'a sequence', n.iter, sc
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            fv = F.ev(f, sc)
            ext = {v[1] for v in fv if v[0] == 'ext'}
            bi = {v[1] for v in fv if v[0] == 'builtin'}
            if bi & SEQ_FUNCS or ext & {'itertools.product', 'itertools.chain'}:
                for a in n.args:
                    if bi & {'min', 'max'} and len(n.args) > 1:
                        continue
                    yield at(a, sc), 'a sequence', a, sc
            if 'range' in bi:
                for a in n.args:
                    for t in terms(a):
                        yield at(t, sc), 'an integer', t, sc
            if any(e.split('.')[0] in ('numpy', 'math') for e in ext):
                last = [e.split('.')[-1] for e in ext][0]
                if last in SHAPES and n.args:
                    for a in (n.args[0].elts if isinstance(n.args[0], (ast.Tuple, ast.List)) else n.args[:1]):
                        for t in terms(a):
                            yield at(t, sc), 'an integer', t, sc
                elif last in ('sqrt', 'log', 'log2', 'log10', 'exp', 'ceil', 'floor', 'power', 'pow'):
                    for a in n.args:
                        yield at(a, sc), 'a number', a, sc
            for k in n.keywords:
                if k.arg == 'size' or k.arg == 'shape':
                    for a in (k.value.elts if isinstance(k.value, (ast.Tuple, ast.List)) else [k.value]):
                        for t in terms(a):
                            yield at(t, sc), 'an integer', t, sc
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                import re
                fm = re.findall(r'%[-+ #0]*\d*(?:\.\d+)?([a-zA-Z%])', n.left.value)
                fm = [c for c in fm if c != '%']
                es = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                if len(fm) == len(es):
                    for c, e in zip(fm, es):
                        if c in 'diufFeEgG':
                            yield at(e, sc), 'a number', e, sc
            elif isinstance(n.op, ast.Mult) and (isinstance(n.left, ast.List) or isinstance(n.right, ast.List)):
                for t in terms(n.left if isinstance(n.right, ast.List) else n.right):
                    yield at(t, sc), 'an integer', t, sc
            elif isinstance(n.op, (ast.Sub, ast.Div, ast.Pow, ast.FloorDiv)):
                for e in (n.left, n.right):
                    yield at(e, sc), 'a number', e, sc
        if isinstance(n, ast.Compare) and all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops):
            for e in [n.left] + n.comparators:
                yield at(e, sc), 'a number', e, sc


def optional(n, sc, key):
    """the read of a key happens only where a test found the key"""
    for t, pol in guards(n, sc.node):
        if t is None:
            return True
        for c in ast.walk(t):
            if isinstance(c, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in c.ops) and isinstance(c.left, ast.Constant) and c.left.value == key:
                return True
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'get' and c.args and isinstance(c.args[0], ast.Constant) and c.args[0].value == key:
                return True
    return False


def is_none_tested(F, n, sc):
    r = ast.unparse(n)
    return any(isinstance(c, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in c.ops) and ast.unparse(c.left) == r
               for c in ast.walk(sc.node))


def show(path):
    return ''.join('[%s]' % (k if k == '*' else repr(k)) for k in path)


def X04(rep):
    rep.rule('keys', 'every key the runner of an experiment type reads unconditionally is in every configuration of that type')
    rep.rule('kinds', 'a configuration value used as an integer, number or sequence is one')
    rep.rule('filter', 'a reduction over a filtered schedule has something left to reduce for every configured size')
    configs = repo().glob('exps/config', '.json')
    per = {k: [c for c in configs if os.path.basename(c).split('_')[0] == k] for k in TYPES}
    rest = [c for c in configs if not any(c in v for v in per.values())]
    for c in rest:
        rep.ob('keys', c, None, c, 'the experiment type of the configuration is not evident from its name')
    for kind in TYPES:
        m = runner(kind)
        F = Flow(modules=closure(m), json=True)
        docs = []
        for c in per[kind]:
            try:
                docs.append((c, json.loads(repo().read(c))))
            except ValueError as e:
                rep.ob('keys', c, False, c, 'not a JSON document: %s' % e)
        allreads = [r for r in reads(F) if r[0]]
        rep.count('uses of configuration values', len(allreads))
        for sc in F.scope_of.values():
            rep.functions.add(sc.module.name + ':' + qual(sc))
        if not any(k == 'key' for _, k, _, _ in allreads):
            rep.ob('keys', kind, None, m.rel, 'no read of a configuration key was found in the runner')
        for paths, use, n, sc in allreads:
            for c, doc in docs:
                if use == 'key':
                    for p in paths:
                        vals, miss = values_at(doc, p)
                        if miss is not None and optional(n, sc, miss):
                            rep.count('optional keys')
                            continue
                        rep.ob('keys', '%s %s%s' % (c, kind, show(p)), miss is None, where(sc, n), '' if miss is None else
                               '%s has no key %r, read by %s' % (c, miss, construct(sc, n)))
                    continue
                wrong = []
                for p in paths:
                    vals, miss = values_at(doc, p)
                    if miss is not None:
                        continue
                    bad = [v for v in vals if not is_kind(v, use)]
                    if bad and all(v is None for v in bad) and is_none_tested(F, n, sc):
                        bad = []
                    if bad:
                        wrong.append((p, bad[0]))
                if wrong and len(wrong) < len(paths):
                    rep.count('uses shared by several keys')
                    continue
                rep.ob('kinds', '%s %s as %s in %s' % (c, '/'.join(sorted(map(show, paths))), use, construct(sc, n)), not wrong, where(sc, n),
                       '; '.join('%s is %r' % (show(p), v) for p, v in wrong))
        for n, sc in F.exprs():
            if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], (ast.ListComp, ast.GeneratorExp)) and not any(k.arg in ('default', 'initial') for k in n.keywords):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                g = n.args[0].generators
                if nm in ('max', 'min') and len(n.args) == 1 and len(g) == 1 and len(g[0].ifs) == 1 and isinstance(g[0].target, ast.Name):
                    empty_filter(rep, F, n, sc, g[0], docs)


def empty_filter(rep, F, n, sc, g, docs):
    t = g.ifs[0]
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Name)):
        return
    a, b, op = t.left, t.comparators[0], type(t.ops[0])
    OPS = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}
    if op not in OPS:
        return
    if b.id == g.target.id:
        a, b = b, a
        OPS = {ast.Lt: OPS[ast.Gt], ast.LtE: OPS[ast.GtE], ast.Gt: OPS[ast.Lt], ast.GtE: OPS[ast.LtE]}
    if a.id != g.target.id:
        return
    src = [v[1] for v in F.ev(g.iter, sc) if v[0] == 'in']
    lim = [v[1] for v in F.ev(b, sc) if v[0] == 'in']
    if len(src) != 1 or len(lim) != 1:
        return
    for c, doc in docs:
        xs, m1 = values_at(doc, src[0] + ('*',))
        ys, m2 = values_at(doc, lim[0])
        if m1 is not None or m2 is not None or not all(is_kind(v, 'a number') for v in xs + ys):
            continue
        bad = [y for y in ys if not any(OPS[op](x, y) for x in xs)]
        rep.ob('filter', '%s %s' % (c, construct(sc, n)), not bad, where(sc, n), 'nothing of %s is left for %s = %s' % (show(src[0]), show(lim[0]), bad[:3]) if bad else '')
