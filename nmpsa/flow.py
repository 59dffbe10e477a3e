"""Whole-program, flow-insensitive value-flow analysis (inclusion based, with call graph discovered on the fly).

Every variable, field, container slot and function result of the repository gets the set of abstract values that may flow
into it: functions, bound methods, classes, instances, modules, containers (by the place that builds them), constants, and
symbolic inputs a rule plants.  Values of unknown origin are not tracked (they add nothing to a set): the analysis names
what certainly flows somewhere, and a rule may only conclude from the values that are there."""
import ast
import builtins

from .run import repo

MAXCONST = 12


def is_fn(n):
    return isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))


class Scope:
    """a function or a module: the names it binds"""

    def __init__(self, node, module, parent, cls=None):
        self.node, self.module, self.parent, self.cls = node, module, parent, cls
        self.names, self.globals = set(), set()
        body = node.body if isinstance(node.body, list) else [node.body]
        if is_fn(node):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                self.names.add(x.arg)
        self.bind(body)
        self.names -= self.globals

    def bind(self, body):
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.names.add(n.name)
                todo += n.decorator_list
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.globals |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.names.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.names.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.names.add((a.asname or a.name).split('.')[0])
            todo += list(ast.iter_child_nodes(n))


class Flow:
    def __init__(self, modules=None, plant=None, json=False):
        self.repo = repo()
        self.json = json
        self.sets = {}
        self.changed = False
        self.nodes = {}            # id → ast node
        self.scope_of = {}         # id(function or module node) → Scope
        self.cls_scope = {}        # id(class node) → (Module, Scope it is defined in)
        self.classes = {}
        self.calls = {}            # id(call node) → (node, scope, set of callee values)
        self.plant = plant or (lambda fl, n, sc: None)
        self.mods = modules or list(self.repo.modules.values())
        self.imports = []          # (module, node, target Module or None, dotted, name, exists)
        self.star = {}
        self.stars = {}
        self.returns = {}          # id(fn) → list of (return/yield node)
        for m in self.mods:
            self.index(m)
        self.solve()

    # ---- structure ------------------------------------------------------------------------------
    def index(self, m):
        top = Scope(m.tree, m, None)
        self.scope_of[id(m.tree)] = top
        self.nodes[id(m.tree)] = m.tree

        def walk(n, sc, cls):
            for c in ast.iter_child_nodes(n):
                self.nodes[id(c)] = c
                if is_fn(c):
                    s = Scope(c, m, sc, cls)
                    self.scope_of[id(c)] = s
                    if not isinstance(c, ast.Lambda):
                        for d in c.decorator_list + c.args.defaults + [x for x in c.args.kw_defaults if x]:
                            self.nodes[id(d)] = d
                            walk(d, sc, None)
                    else:
                        for d in c.args.defaults:
                            walk(d, sc, None)
                    for b in (c.body if isinstance(c.body, list) else [c.body]):
                        self.nodes[id(b)] = b
                        walk_node(b, s, m)
                elif isinstance(c, ast.ClassDef):
                    self.classes[id(c)] = c
                    self.cls_scope[id(c)] = (m, sc)
                    walk(c, sc, c)
                elif isinstance(c, ast.arguments):
                    continue
                else:
                    walk(c, sc, cls if isinstance(n, ast.ClassDef) and isinstance(c, (ast.If, ast.Try)) else None)

        def walk_node(b, s, m):
            holder = ast.Module(body=[b], type_ignores=[]) if isinstance(b, ast.stmt) else ast.Expression(body=b)
            walk(holder, s, None)
        walk(m.tree, top, None)

    def add(self, key, vals):
        if not vals:
            return
        s = self.sets.setdefault(key, set())
        n = len(s)
        consts = sum(1 for v in s if v[0] == 'c')
        for v in vals:
            if v[0] == 'c' and v not in s:
                consts += 1
                if consts > MAXCONST:
                    continue
            s.add(v)
        if len(s) != n:
            self.changed = True

    def got(self, key):
        return self.sets.get(key, set())

    def bases(self, cid):
        c = self.classes[cid]
        m, sc = self.cls_scope[cid]
        out, ext = [], False
        for b in c.bases:
            vs = self.ev(b, sc)
            ids = [v[1] for v in vs if v[0] == 'class']
            out += ids
            if not ids and not (isinstance(b, ast.Name) and b.id in ('object', 'ABC', 'Protocol', 'Generic')
                                or isinstance(b, ast.Attribute) and b.attr in ('ABC', 'Protocol')):
                ext = True
        if any(k.arg != 'metaclass' for k in c.keywords):
            ext = True
        return out, ext

    def mro(self, cid, seen=()):
        """(class ids in lookup order, has external bases)"""
        if cid in seen:
            return [], True
        bs, ext = self.bases(cid)
        out = [cid]
        for b in bs:
            o, e = self.mro(b, seen + (cid,))
            ext = ext or e
            for x in o:
                if x in out:
                    out.remove(x)
                out.append(x)
        return out, ext

    def abstract(self, cid):
        seen = set()
        for k in self.mro(cid)[0]:
            for s in stmts(self.classes[k].body):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name not in seen:
                    seen.add(s.name)
                    if 'abstractmethod' in decorations(s):
                        return True
        return False

    def member(self, cid, name):
        """(kind, function node or values, owner) of a class attribute, or None"""
        for k in self.mro(cid)[0]:
            c = self.classes[k]
            hit = None
            for s in stmts(c.body):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                    hit = ('def', s, k)
                elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    hit = ('value', s.value, k)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                    hit = ('value', s.value, k)
                elif isinstance(s, ast.ClassDef) and s.name == name:
                    hit = ('class', s, k)
            if hit:
                return hit
        return None

    # ---- names ----------------------------------------------------------------------------------
    def home(self, name, sc):
        """the scope a name used in sc refers to, 'builtin', or None when nothing binds it"""
        s, first = sc, True
        while s is not None:
            if name in s.globals and is_fn(s.node):
                t = s
                while t.parent is not None:
                    t = t.parent
                return t
            if name in s.names or ('*',) == self.star.get((id(s.node), name)):
                return s
            if s.parent is None and self.from_star(s, name) is not None:
                return s
            s = s.parent
        return 'builtin' if hasattr(builtins, name) or name in ('__file__', '__name__', '__doc__') else None

    def from_star(self, sc, name):
        key = sc.module.name
        if key not in self.stars:
            self.stars[key] = [n for n in ast.walk(sc.module.tree) if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names)]
        for n in self.stars[key]:
                t = self.target(n, sc.module)
                if t is None:
                    return 'ext'
                ts = self.scope_of.get(id(t.tree))
                if ts is not None and name in ts.names:
                    return t
        return None

    def target(self, n, module):
        """repository module an ImportFrom reads from"""
        name = n.module or ''
        if n.level:
            base = module.name.split('.')
            if not module.rel.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        return self.repo.resolve(name, module)

    def var(self, name, sc):
        h = self.home(name, sc)
        if h is None or h == 'builtin':
            return {('builtin', name)} if h == 'builtin' else set()
        if name not in h.names:
            t = self.from_star(h, name)
            return self.got(('v', id(t.tree), name)) if t not in (None, 'ext') else set()
        return self.got(('v', id(h.node), name))

    # ---- evaluation -----------------------------------------------------------------------------
    def solve(self):
        for rounds in range(60):
            self.changed = False
            self.calls = {}
            self.imports = []
            for i, sc in list(self.scope_of.items()):
                if isinstance(sc.node, ast.Lambda):
                    self.add(('r', id(sc.node)), self.ev(sc.node.body, sc))
                else:
                    self.block(sc.node.body, sc)
            for cid, c in self.classes.items():
                m, sc = self.cls_scope[cid]
                selves = [k for k in self.classes if cid in self.mro(k)[0] and not self.abstract(k)] or [cid]
                for s in stmts(c.body):
                    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                        self.ev(s.value, sc)
                    elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        kind = decorations(s)
                        a = s.args.posonlyargs + s.args.args
                        if a and 'staticmethod' not in kind:
                            self.add(('v', id(s), a[0].arg), {('class' if 'classmethod' in kind else 'inst', k) for k in selves})
                        for d in s.args.defaults + [x for x in s.args.kw_defaults if x] + s.decorator_list:
                            self.ev(d, sc)
            if not self.changed:
                return
        self.unsolved = True

    def block(self, body, sc):
        last = {}
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not s.decorator_list:
                last[s.name] = s
        for s in body:
            if last.get(getattr(s, 'name', None), s) is s or s.decorator_list:
                self.stmt(s, sc)

    def stmt(self, s, sc):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            deco = [d for d in s.decorator_list]
            for d in deco:
                self.ev(d, sc)
            self.add(('v', id(sc.node), s.name), {('func', id(s))})
            self.defaults(s, sc)
        elif isinstance(s, ast.ClassDef):
            self.add(('v', id(sc.node), s.name), {('class', id(s))})
            for b in s.bases:
                self.ev(b, sc)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.add(('r', id(sc.node)), self.ev(s.value, sc))
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, sc)
            for t in s.targets:
                self.store(t, v, sc)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value, sc), sc)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, sc)
            old = self.ev(as_load(s.target), sc)
            self.store(s.target, self.binop(s.op, old, v, s), sc)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.store(s.target, self.items(self.ev(s.iter, sc)), sc)
            self.block(s.body, sc)
            self.block(s.orelse, sc)
        elif isinstance(s, (ast.While, ast.If)):
            self.ev(s.test, sc)
            self.block(s.body, sc)
            self.block(s.orelse, sc)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, sc)
                if i.optional_vars is not None:
                    out = set()
                    for x in v:
                        if x[0] == 'inst':
                            mem = self.member(x[1], '__enter__')
                            if mem and mem[0] == 'def':
                                out |= self.got(('r', id(mem[1])))
                        else:
                            out.add(x)
                    self.store(i.optional_vars, out, sc)
            self.block(s.body, sc)
        elif isinstance(s, ast.Try):
            self.block(s.body, sc)
            for h in s.handlers:
                if h.type is not None:
                    self.ev(h.type, sc)
                self.block(h.body, sc)
            self.block(s.orelse, sc)
            self.block(s.finalbody, sc)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, sc)
        elif isinstance(s, ast.Import):
            for a in s.names:
                m = self.repo.resolve(a.name, sc.module)
                top = a.name.split('.')[0]
                self.imports.append((sc.module, s, m, a.name, None, m is not None))
                if m is not None and a.asname:
                    self.add(('v', id(sc.node), a.asname), {('mod', m.name)})
                elif m is not None and '.' not in a.name:
                    self.add(('v', id(sc.node), top), {('mod', m.name)})
                elif m is None and (a.asname or '.' not in a.name):
                    self.add(('v', id(sc.node), a.asname or top), {('ext', a.name)})
        elif isinstance(s, ast.ImportFrom):
            m = self.target(s, sc.module)
            for a in s.names:
                if a.name == '*':
                    continue
                if m is None:
                    self.imports.append((sc.module, s, None, s.module or '', a.name, False))
                    self.add(('v', id(sc.node), a.asname or a.name), {('ext', '%s.%s' % (s.module or '', a.name))})
                    continue
                sub = self.repo.modules.get(m.name + '.' + a.name)
                ts = self.scope_of.get(id(m.tree))
                has = ts is None or a.name in ts.names or self.from_star(ts, a.name) is not None
                self.imports.append((sc.module, s, m, m.name, a.name, has or sub is not None))
                if ts is not None and a.name in ts.names:
                    self.add(('v', id(sc.node), a.asname or a.name), self.got(('v', id(m.tree), a.name)))
                elif sub is not None:
                    self.add(('v', id(sc.node), a.asname or a.name), {('mod', sub.name)})
        elif isinstance(s, (ast.Assert,)):
            self.ev(s.test, sc)
            if s.msg is not None:
                self.ev(s.msg, sc)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, sc)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.ev(t.value, sc)
        elif isinstance(s, ast.Match):
            self.ev(s.subject, sc)
            for c in s.cases:
                self.block(c.body, sc)

    def defaults(self, f, sc):
        a = f.args
        ps = a.posonlyargs + a.args
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            self.add(('v', id(f), p.arg), self.ev(d, sc))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.add(('v', id(f), p.arg), self.ev(d, sc))

    def store(self, t, vals, sc):
        if isinstance(t, ast.Name):
            h = self.home(t.id, sc)
            if isinstance(h, Scope):
                self.add(('v', id(h.node), t.id), vals)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.store(e.value, {('list', id(e))}, sc)
                    continue
                starred = any(isinstance(x, ast.Starred) for x in t.elts)
                self.store(e, self.items(vals) if starred else self.slot(vals, i), sc)
        elif isinstance(t, ast.Attribute):
            for v in self.ev(t.value, sc):
                if v[0] in ('inst', 'class'):
                    self.add(('f', v[1], t.attr), vals | {('any',)})
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, sc)
            k = self.const_key(t.slice, sc)
            self.ev(t.slice, sc) if not isinstance(t.slice, ast.Slice) else None
            for v in base:
                if v[0] in ('list', 'dict', 'tup'):
                    self.add(('i', v[1], k if v[0] == 'dict' else '*'), vals)
        elif isinstance(t, ast.Starred):
            self.store(t.value, vals, sc)

    def const_key(self, n, sc):
        if isinstance(n, ast.Slice):
            return '*'
        vs = [v for v in self.ev(n, sc)]
        cs = [v[1] for v in vs if v[0] == 'c']
        return cs[0] if len(cs) == 1 and len(vs) == 1 else '*'

    def slot(self, vals, i):
        out = set()
        for v in vals:
            if v[0] == 'tup':
                out |= self.got(('i', v[1], i)) | self.got(('i', v[1], '*'))
            elif v[0] == 'list':
                out |= self.got(('i', v[1], '*')) | self.got(('i', v[1], i))
            elif v[0] == 'dict':
                out |= self.got(('i', v[1], i)) | self.got(('i', v[1], '*'))
            elif v[0] == 'in':
                out.add(('in', v[1] + (i,)))
        return out

    def items(self, vals):
        out = set()
        for v in vals:
            if v[0] in ('tup', 'list'):
                out |= self.got(('i', v[1], '*'))
                if v[0] == 'tup':
                    j = 0
                    while ('i', v[1], j) in self.sets:
                        out |= self.got(('i', v[1], j))
                        j += 1
                    n = self.nodes.get(v[1])
                    if isinstance(n, ast.Tuple):
                        for j in range(len(n.elts)):
                            out |= self.got(('i', v[1], j))
            elif v[0] == 'in':
                out.add(('in', v[1] + ('*',)))
        return out

    def ev(self, n, sc):
        p = self.plant(self, n, sc)
        if p is not None:
            return p
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, sc)
            return set()
        return m(n, sc)

    def e_Constant(self, n, sc):
        if n.value is None:
            return {('none',)}
        if isinstance(n.value, (str, int, float, bool)):
            return {('c', n.value)}
        return set()

    def e_Name(self, n, sc):
        return set(self.var(n.id, sc))

    def e_Lambda(self, n, sc):
        self.defaults(n, sc)
        return {('func', id(n))}

    def e_Tuple(self, n, sc):
        dyn = any(isinstance(e, ast.Starred) for e in n.elts)
        for i, e in enumerate(n.elts):
            if isinstance(e, ast.Starred):
                self.add(('i', id(n), '*'), self.items(self.ev(e.value, sc)))
            else:
                self.add(('i', id(n), '*' if dyn else i), self.ev(e, sc))
        return {('tup', id(n))}

    def e_List(self, n, sc):
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.add(('i', id(n), '*'), self.items(self.ev(e.value, sc)))
            else:
                self.add(('i', id(n), '*'), self.ev(e, sc))
        return {('list', id(n))}

    e_Set = e_List

    def e_Dict(self, n, sc):
        for k, v in zip(n.keys, n.values):
            if k is None:
                for x in self.ev(v, sc):
                    if x[0] == 'dict':
                        for key in [q for q in self.sets if q[0] == 'i' and q[1] == x[1]]:
                            self.add(('i', id(n), key[2]), self.got(key))
                continue
            self.add(('i', id(n), self.const_key(k, sc)), self.ev(v, sc))
        return {('dict', id(n))}

    def comp(self, n, sc, elt):
        for g in n.generators:
            self.store(g.target, self.items(self.ev(g.iter, sc)), sc)
            for c in g.ifs:
                self.ev(c, sc)
        return [self.ev(e, sc) for e in elt]

    def e_ListComp(self, n, sc):
        self.add(('i', id(n), '*'), self.comp(n, sc, [n.elt])[0])
        return {('list', id(n))}

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, sc):
        k, v = self.comp(n, sc, [n.key, n.value])
        self.add(('i', id(n), '*'), v)
        return {('dict', id(n))}

    def e_IfExp(self, n, sc):
        self.ev(n.test, sc)
        return self.ev(n.body, sc) | self.ev(n.orelse, sc)

    def e_BoolOp(self, n, sc):
        out = set()
        for v in n.values:
            out |= self.ev(v, sc)
        return out

    def e_NamedExpr(self, n, sc):
        v = self.ev(n.value, sc)
        self.store(n.target, v, sc)
        return v

    def e_Starred(self, n, sc):
        return self.ev(n.value, sc)

    def e_Await(self, n, sc):
        return self.ev(n.value, sc)

    def e_Yield(self, n, sc):
        if n.value is not None:
            self.add(('i', id(sc.node), '*'), self.ev(n.value, sc))
        self.add(('r', id(sc.node)), {('list', id(sc.node))})
        return set()

    def e_YieldFrom(self, n, sc):
        self.add(('i', id(sc.node), '*'), self.items(self.ev(n.value, sc)))
        self.add(('r', id(sc.node)), {('list', id(sc.node))})
        return set()

    def binop(self, op, a, b, n):
        if isinstance(op, (ast.Add, ast.Mult)):
            seqs = {v for v in a | b if v[0] in ('list', 'tup') or v[0] == 'in' and False}
            if seqs:
                self.add(('i', id(n), '*'), self.items(seqs))
                return {('list', id(n))}
        return set()

    def e_BinOp(self, n, sc):
        return self.binop(n.op, self.ev(n.left, sc), self.ev(n.right, sc), n)

    def e_Subscript(self, n, sc):
        base = self.ev(n.value, sc)
        if isinstance(n.slice, ast.Slice):
            for x in (n.slice.lower, n.slice.upper, n.slice.step):
                if x is not None:
                    self.ev(x, sc)
            out = set()
            for v in base:
                if v[0] == 'list':
                    out.add(v)
                elif v[0] == 'tup':
                    self.add(('i', id(n), '*'), self.items({v}))
                    out.add(('list', id(n)))
                elif v[0] == 'in':
                    out.add(v)
            return out
        k = self.const_key(n.slice, sc)
        self.ev(n.slice, sc)
        out = set()
        for v in base:
            if v[0] == 'dict':
                if k == '*':
                    for q in [q for q in self.sets if q[0] == 'i' and q[1] == v[1]]:
                        out |= self.got(q)
                else:
                    out |= self.got(('i', v[1], k)) | self.got(('i', v[1], '*'))
            elif v[0] in ('list', 'tup'):
                if k == '*' or v[0] == 'list' or isinstance(k, int) and k < 0:
                    out |= self.items({v})
                else:
                    out |= self.slot({v}, k)
            elif v[0] == 'in':
                out.add(('in', v[1] + (k,)))
        return out

    def e_Attribute(self, n, sc):
        return self.attr(self.ev(n.value, sc), n.attr, n)

    def attr(self, base, name, n):
        out = set()
        if name == '__class__':
            return {('class', v[1]) for v in base if v[0] == 'inst'}
        for v in base:
            if v[0] == 'mod':
                m = self.repo.modules[v[1]]
                out |= self.got(('v', id(m.tree), name))
                if v[1] + '.' + name in self.repo.modules:
                    out.add(('mod', v[1] + '.' + name))
            elif v[0] == 'ext':
                out.add(('ext', v[1] + '.' + name))
            elif v[0] in ('inst', 'class'):
                ids, _ = self.mro(v[1])
                for k in ids:
                    out |= self.got(('f', k, name)) - {('any',)}
                mem = self.member(v[1], name)
                if mem is not None:
                    if mem[0] == 'def':
                        kind = decorations(mem[1])
                        if 'property' in kind or 'cached_property' in kind:
                            out |= self.got(('r', id(mem[1]))) if v[0] == 'inst' else set()
                        elif 'staticmethod' in kind:
                            out.add(('func', id(mem[1])))
                        elif 'classmethod' in kind or v[0] == 'inst':
                            out.add(('bound', id(mem[1]), v[1]))
                        else:
                            out.add(('func', id(mem[1])))
                    elif mem[0] == 'class':
                        out.add(('class', id(mem[1])))
                    elif mem[1] is not None:
                        m, csc = self.cls_scope[mem[2]]
                        out |= self.ev(mem[1], csc)
        return out

    # ---- calls ----------------------------------------------------------------------------------
    def e_Call(self, n, sc):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            for a in f.value.args:
                self.ev(a, sc)
            fs = self.supers(f.attr, sc)
            base = set()
        elif isinstance(f, ast.Attribute):
            base = self.ev(f.value, sc)
            fs = self.attr(base, f.attr, f)
        else:
            base = set()
            fs = self.ev(f, sc)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(('*', self.ev(a.value, sc)))
            else:
                args.append((None, self.ev(a, sc)))
        kws = [(k.arg, self.ev(k.value, sc)) for k in n.keywords]
        self.calls[id(n)] = (n, sc, frozenset(fs), frozenset(base))
        out = set()
        for v in fs:
            out |= self.apply(v, args, kws, n, sc)
        if isinstance(f, ast.Attribute):
            out |= self.container(base, f.attr, args, n)
        return out

    def supers(self, name, sc):
        s = sc
        while s is not None and not (is_fn(s.node) and s.cls is not None):
            s = s.parent
        out = set()
        if s is None:
            return out
        owner = id(s.cls)
        for cid in self.classes:
            ids = self.mro(cid)[0]
            if owner in ids and cid == owner:
                rest = ids[ids.index(owner) + 1:]
                for k in rest:
                    hit = [x for x in stmts(self.classes[k].body) if isinstance(x, ast.FunctionDef) and x.name == name]
                    if hit:
                        out.add(('bound', id(hit[-1]), owner))
                        break
        return out

    def apply(self, v, args, kws, n, sc):
        if v[0] == 'class':
            if self.is_record(v[1]):
                for nm, vals in zip(self.record_fields(v[1]) or [], [a[1] for a in args]):
                    self.add(('f', v[1], nm[0]), vals | {('any',)})
                for k, vals in kws:
                    if k:
                        self.add(('f', v[1], k), vals | {('any',)})
            mem = self.member(v[1], '__init__')
            if mem and mem[0] == 'def':
                self.pass_args(mem[1], [(None, {('inst', v[1])})] + args, kws, n)
            return {('inst', v[1])}
        if v[0] == 'func':
            f = self.nodes[v[1]]
            self.pass_args(f, args, kws, n)
            return set(self.got(('r', v[1])))
        if v[0] == 'bound':
            f = self.nodes[v[1]]
            kind = decorations(f)
            self.pass_args(f, [(None, {('class' if 'classmethod' in kind else 'inst', v[2])})] + args, kws, n)
            return set(self.got(('r', v[1])))
        if v[0] == 'inst':
            mem = self.member(v[1], '__call__')
            if mem and mem[0] == 'def':
                self.pass_args(mem[1], [(None, {v})] + args, kws, n)
                return set(self.got(('r', id(mem[1]))))
            return set()
        if v[0] == 'partial':
            node = self.nodes[v[1]]
            if node is n:
                return set()
            out = set()
            for w in self.got(('p', v[1])):
                out |= self.apply(w, self.pargs(v[1]) + args, self.pkws(v[1]) + kws, n, sc)
            return out
        if v[0] == 'ntuple':
            names = self.nt_fields(v[1])
            for i, (st, vals) in enumerate(args):
                if st is None and not any(a[0] for a in args[:i]) and i < len(names):
                    self.add(('i', v[1], i), vals)
            for k, vals in kws:
                if k in names:
                    self.add(('i', v[1], names.index(k)), vals)
            return {('tup', v[1])}
        if v[0] == 'builtin':
            return self.builtin(v[1], args, kws, n, sc)
        if v[0] == 'ext':
            return self.external(v[1], args, kws, n, sc)
        return set()

    def pass_args(self, f, args, kws, n):
        a = f.args
        ps = a.posonlyargs + a.args
        i = 0
        for st, vals in args:
            if st == '*':
                known = self.star_len(vals)
                if known is None:
                    its = self.items(vals)
                    for p in ps[i:]:
                        self.add(('v', id(f), p.arg), its)
                    i = len(ps)
                    break
                for j in range(known):
                    if i < len(ps):
                        self.add(('v', id(f), ps[i].arg), self.slot(vals, j))
                    i += 1
                continue
            if i < len(ps):
                self.add(('v', id(f), ps[i].arg), vals)
            elif a.vararg is not None:
                self.add(('i', id(a.vararg), i - len(ps)), vals)
            i += 1
        if a.vararg is not None:
            self.nodes[id(a.vararg)] = a.vararg
            self.add(('v', id(f), a.vararg.arg), {('tup', id(a.vararg))})
        names = {p.arg for p in ps + a.kwonlyargs}
        for k, vals in kws:
            if k is None:
                for v in vals:
                    if v[0] == 'dict':
                        for q in [q for q in self.sets if q[0] == 'i' and q[1] == v[1] and isinstance(q[2], str) and q[2] in names]:
                            self.add(('v', id(f), q[2]), self.got(q))
            elif k in names:
                self.add(('v', id(f), k), vals)
            elif a.kwarg is not None:
                self.add(('i', id(a.kwarg), k), vals)
        if a.kwarg is not None:
            self.nodes[id(a.kwarg)] = a.kwarg
            self.add(('v', id(f), a.kwarg.arg), {('dict', id(a.kwarg))})

    def star_len(self, vals):
        """number of values in a starred argument when every value that flows there is a tuple or list display of that length"""
        ns = set()
        for v in vals:
            n = self.nodes.get(v[1]) if v[0] in ('tup', 'list') else None
            if v[0] == 'tup' and isinstance(n, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.elts):
                ns.add(len(n.elts))
            else:
                return None
        return ns.pop() if len(ns) == 1 else None

    def pargs(self, i):
        n = self.nodes[i]
        sc = self.part[i]
        return [('*' if isinstance(a, ast.Starred) else None, self.ev(a.value if isinstance(a, ast.Starred) else a, sc)) for a in n.args[1:]]

    def pkws(self, i):
        n = self.nodes[i]
        return [(k.arg, self.ev(k.value, self.part[i])) for k in n.keywords]

    part = None

    def container(self, base, name, args, n):
        out = set()
        for v in base:
            if v[0] == 'list':
                if name in ('append', 'add', 'appendleft') and args:
                    self.add(('i', v[1], '*'), args[0][1])
                elif name == 'insert' and len(args) > 1:
                    self.add(('i', v[1], '*'), args[1][1])
                elif name in ('extend', 'update') and args:
                    self.add(('i', v[1], '*'), self.items(args[0][1]))
                elif name in ('pop', 'popleft', '__next__'):
                    out |= self.items({v})
                elif name in ('copy', '__iter__'):
                    out.add(v)
            elif v[0] == 'dict':
                if name in ('get', 'pop', 'setdefault') and args:
                    ks = [x[1] for x in args[0][1] if x[0] == 'c']
                    for q in [q for q in self.sets if q[0] == 'i' and q[1] == v[1]]:
                        if q[2] == '*' or not ks or q[2] in ks:
                            out |= self.got(q)
                    if len(args) > 1:
                        out |= args[1][1]
                        if name == 'setdefault':
                            self.add(('i', v[1], ks[0] if len(ks) == 1 else '*'), args[1][1])
                elif name in ('values', 'items', 'copy'):
                    if name == 'copy':
                        out.add(v)
                    else:
                        vals = set()
                        for q in [q for q in self.sets if q[0] == 'i' and q[1] == v[1]]:
                            vals |= self.got(q)
                        if name == 'values':
                            self.add(('i', id(n), '*'), vals)
                            out.add(('list', id(n)))
                        else:
                            self.nodes[id(n.func)] = n.func
                            self.add(('i', id(n.func), 1), vals)
                            self.add(('i', id(n), '*'), {('tup', id(n.func))})
                            out.add(('list', id(n)))
                elif name == 'update' and args:
                    for x in args[0][1]:
                        if x[0] == 'dict':
                            for q in [q for q in self.sets if q[0] == 'i' and q[1] == x[1]]:
                                self.add(('i', v[1], q[2]), self.got(q))
            elif v[0] == 'in' and name in ('get',) and args:
                ks = [x[1] for x in args[0][1] if x[0] == 'c']
                for k in ks:
                    out.add(('in', v[1] + (('?', k),)))
            elif v[0] == 'in' and name in ('copy',):
                out.add(v)
        return out

    def builtin(self, name, args, kws, n, sc):
        vals = [a[1] for a in args if a[0] is None]
        if name in ('list', 'tuple', 'sorted', 'set', 'reversed', 'iter', 'frozenset') and vals:
            if name in ('list', 'tuple', 'iter') and all(v[0] == 'tup' for v in vals[0]):
                return set(vals[0]) if name != 'list' else self.relist(vals[0], n)
            return self.relist(vals[0], n)
        if name == 'list' or name == 'set':
            return {('list', id(n))}
        if name == 'dict':
            for k, v in kws:
                if k:
                    self.add(('i', id(n), k), v)
            if vals:
                for x in vals[0]:
                    if x[0] == 'dict':
                        for q in [q for q in self.sets if q[0] == 'i' and q[1] == x[1]]:
                            self.add(('i', id(n), q[2]), self.got(q))
                    elif x[0] == 'in':
                        return {x}
            return {('dict', id(n))}
        if name == 'zip':
            self.nodes[id(n.func)] = n.func
            for i, v in enumerate(vals):
                self.add(('i', id(n.func), i), self.items(v))
            self.add(('i', id(n), '*'), {('tup', id(n.func))})
            return {('list', id(n))}
        if name == 'enumerate' and vals:
            self.nodes[id(n.func)] = n.func
            self.add(('i', id(n.func), 1), self.items(vals[0]))
            self.add(('i', id(n), '*'), {('tup', id(n.func))})
            return {('list', id(n))}
        if name in ('map', 'filter') and len(vals) > 1:
            its = [self.items(v) for v in vals[1:]]
            res = set()
            for f in vals[0]:
                if f[0] in ('func', 'bound', 'partial', 'class'):
                    res |= self.apply(f, [(None, x) for x in its], [], n, sc)
            self.add(('i', id(n), '*'), res if name == 'map' else its[0])
            return {('list', id(n))}
        if name in ('min', 'max', 'sorted') and vals:
            for k, v in kws:
                if k == 'key':
                    for f in v:
                        if f[0] in ('func', 'bound', 'partial'):
                            self.apply(f, [(None, self.items(vals[0]))], [], n, sc)
            return self.items(vals[0]) if len(vals) == 1 else set().union(*vals)
        if name in ('int', 'float', 'abs', 'round', 'sum') and vals:
            return set()
        if name == 'next' and vals:
            return self.items(vals[0]) | (vals[1] if len(vals) > 1 else set())
        if name == 'getattr' and len(vals) >= 2:
            ks = [x[1] for x in vals[1] if x[0] == 'c' and isinstance(x[1], str)]
            out = set(vals[2]) if len(vals) > 2 else set()
            for k in ks:
                out |= self.attr(vals[0], k, n)
            return out
        return set()

    def relist(self, vals, n):
        out = set()
        if any(v[0] in ('list', 'tup') for v in vals):
            self.add(('i', id(n), '*'), self.items({v for v in vals if v[0] in ('list', 'tup')}))
            out.add(('list', id(n)))
        out |= {v for v in vals if v[0] == 'in'}
        return out or {('list', id(n))}

    def external(self, name, args, kws, n, sc):
        vals = [a[1] for a in args if a[0] is None]
        last = name.split('.')[-1]
        if name in ('functools.partial',) and vals:
            self.part = self.part if self.part is not None else {}
            self.part[id(n)] = sc
            self.nodes[id(n)] = n
            self.add(('p', id(n)), vals[0])
            return {('partial', id(n))}
        if name == 'itertools.product':
            self.nodes[id(n.func)] = n.func
            for i, v in enumerate(vals):
                self.add(('i', id(n.func), i), self.items(v))
            self.add(('i', id(n), '*'), {('tup', id(n.func))})
            return {('list', id(n))}
        if name in ('itertools.chain', 'itertools.cycle'):
            for v in vals:
                self.add(('i', id(n), '*'), self.items(v))
            return {('list', id(n))}
        if name in ('itertools.islice',) and vals:
            self.add(('i', id(n), '*'), self.items(vals[0]))
            return {('list', id(n))}
        if name in ('copy.copy', 'copy.deepcopy') and vals:
            return set(vals[0])
        if name in ('collections.OrderedDict',):
            return self.builtin('dict', args, kws, n, sc)
        if name in ('collections.defaultdict',):
            return {('dict', id(n))}
        if name in ('collections.deque',):
            return self.relist(vals[0], n) if vals else {('list', id(n))}
        if name in ('collections.namedtuple',):
            self.nodes[id(n)] = n
            return {('ntuple', id(n))}
        if name in ('json.load', 'json.loads') and self.json:
            return {('in', ())}
        if last in ('array', 'asarray') and name.startswith('numpy') and vals:
            return {v for v in vals[0] if v[0] == 'in'}
        return set()

    def nt_fields(self, i):
        n = self.nodes[i]
        if len(n.args) > 1:
            a = n.args[1]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                return a.value.replace(',', ' ').split()
            if isinstance(a, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in a.elts):
                return [e.value for e in a.elts]
        return []

    # ---- records --------------------------------------------------------------------------------
    def is_record(self, cid):
        return any('dataclass' in ast.unparse(d) for d in self.classes[cid].decorator_list)

    def record_fields(self, cid):
        """[(name, has default, kw only)] of a dataclass, base classes first"""
        out = []
        for k in reversed(self.mro(cid)[0]):
            if not self.is_record(k):
                continue
            for s in self.classes[k].body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and 'ClassVar' not in ast.unparse(s.annotation):
                    init, dflt = True, s.value is not None
                    if isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split('.')[-1] == 'field':
                        ks = {x.arg: x.value for x in s.value.keywords}
                        dflt = 'default' in ks or 'default_factory' in ks
                        init = not ('init' in ks and isinstance(ks['init'], ast.Constant) and ks['init'].value is False)
                    out = [x for x in out if x[0] != s.target.id]
                    if init:
                        out.append((s.target.id, dflt, False))
        return out

    # ---- binding --------------------------------------------------------------------------------
    def signature(self, v):
        """(positional parameter names, number without default, keyword-only {name: required}, vararg, kwarg, positional-only
        count, already bound) of a callable value, or None when nothing is known about it"""
        if v[0] in ('func', 'bound'):
            f = self.nodes[v[1]]
            if not isinstance(f, ast.Lambda) and v[0] == 'func' and not known_decorators(f):
                return None
            if v[0] == 'bound' and not known_decorators(f):
                return None
            return self.fn_sig(f, 1 if v[0] == 'bound' else 0)
        if v[0] == 'class':
            ids, ext = self.mro(v[1])
            c = self.classes[v[1]]
            if self.is_record(v[1]):
                if self.member(v[1], '__init__') is None and not ext:
                    fs = self.record_fields(v[1])
                    req = [f[0] for f in fs if not f[1]]
                    return [f[0] for f in fs], len(req), {}, None, None, 0
                return None
            if c.decorator_list:
                return None
            for k in ids:
                hit = [x for x in stmts(self.classes[k].body) if isinstance(x, ast.FunctionDef) and x.name in ('__init__', '__new__')]
                if hit:
                    if hit[-1].name == '__new__':
                        return None
                    return self.fn_sig(hit[-1], 1)
                if self.bases(k)[1]:
                    return None
            return None if ext else ([], 0, {}, None, None, 0)
        if v[0] == 'inst':
            mem = self.member(v[1], '__call__')
            return self.fn_sig(mem[1], 1) if mem and mem[0] == 'def' else None
        if v[0] == 'ntuple':
            fs = self.nt_fields(v[1])
            n = self.nodes[v[1]]
            d = [k.value for k in n.keywords if k.arg == 'defaults']
            nd = len(d[0].elts) if d and isinstance(d[0], (ast.Tuple, ast.List)) else 0
            if d and not nd:
                nd = len(fs)
            return (fs, len(fs) - nd, {}, None, None, 0) if fs else None
        return None

    def fn_sig(self, f, skip):
        a = f.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        req = len(ps) - len(a.defaults)
        ko = {p.arg: d is None for p, d in zip(a.kwonlyargs, a.kw_defaults)}
        return (ps[skip:], max(req - skip, 0), ko, a.vararg, a.kwarg, max(len(a.posonlyargs) - skip, 0)) if len(ps) >= skip or a.vararg else None

    def binds(self, v, n, sc, args=None, kws=None):
        """None when the call binds (or nothing can be said), else why it does not"""
        if v[0] == 'partial':
            p = self.nodes[v[1]]
            for w in self.got(('p', v[1])):
                why = self.binds(w, n, sc, list(p.args[1:]) + list(n.args), [(k, self.part[v[1]]) for k in p.keywords] + [(k, sc) for k in n.keywords])
                if why:
                    return why
            return None
        sig = self.signature(v)
        if sig is None:
            return None
        ps, req, ko, va, kw, po = sig
        args = n.args if args is None else args
        kws = [(k, sc) for k in n.keywords] if kws is None else kws
        given, npos, open_star = {}, 0, False
        for a in args:
            if isinstance(a, ast.Starred):
                ln = self.star_len(self.ev(a.value, sc))
                if ln is None:
                    open_star = True
                else:
                    npos += ln
            else:
                npos += 1
        if npos > len(ps) and va is None:
            return '%d positional arguments for %d parameters' % (npos, len(ps))
        for i in range(min(npos, len(ps))):
            given[ps[i]] = 'position'
        open_kw = False
        for k, ksc in kws:
            if k.arg is None:
                keys = self.dict_keys(self.ev(k.value, ksc))
                if keys is None:
                    open_kw = True
                    continue
            else:
                keys = [k.arg]
            for key in keys:
                if key in ps[po:] or key in ko:
                    if key in given:
                        if given[key] == 'position' and open_star:
                            continue
                        return 'parameter %s given twice' % key
                    given[key] = 'keyword'
                elif kw is None:
                    return 'no parameter named %s' % key
        missing = [p for p in ps[:req] if p not in given]
        if missing and not open_star and not open_kw:
            return 'required parameter %s not given' % missing[0]
        if missing and open_star and not open_kw and False:
            return None
        mk = [p for p, r in ko.items() if r and p not in given]
        if mk and not open_kw:
            return 'required keyword parameter %s not given' % mk[0]
        return None

    def dict_keys(self, vals):
        if not vals:
            return None
        out = None
        for v in vals:
            n = self.nodes.get(v[1]) if v[0] == 'dict' else None
            if not isinstance(n, ast.Dict) or any(k is None or not isinstance(k, ast.Constant) for k in n.keys):
                return None
            ks = [k.value for k in n.keys]
            for q in self.sets:
                if q[0] == 'i' and q[1] == v[1] and q[2] not in ks:
                    return None
            if out is not None and out != ks:
                return None
            out = ks
        return out

    def loads(self):
        """(name node, scope) of every name read outside class bodies"""
        for sc in self.scope_of.values():
            n = sc.node
            todo = list(n.body) if isinstance(n.body, list) else [n.body]
            while todo:
                x = todo.pop()
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    yield x, sc
                if isinstance(x, ast.Lambda) or isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    todo += x.args.defaults + [d for d in x.args.kw_defaults if d] + getattr(x, 'decorator_list', [])
                    continue
                if isinstance(x, ast.ClassDef):
                    todo += x.bases + x.decorator_list
                    continue
                todo += list(ast.iter_child_nodes(x))

    def exprs(self):
        """(expression or comprehension or loop, scope) of everything outside class-level statements"""
        for sc in list(self.scope_of.values()):
            n = sc.node
            todo = list(n.body) if isinstance(n.body, list) else [n.body]
            while todo:
                x = todo.pop()
                yield x, sc
                if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                todo += list(ast.iter_child_nodes(x))

    def name_of(self, v):
        n = self.nodes.get(v[1])
        if v[0] in ('func', 'bound'):
            nm = getattr(n, 'name', 'lambda')
            if v[0] == 'bound':
                return '%s.%s' % (self.classes[v[2]].name, nm) if v[2] in self.classes else nm
            return nm
        if v[0] in ('class', 'inst'):
            return self.classes[v[1]].name
        return v[0]


def stmts(body):
    """statements of a class body, through if / try"""
    for s in body:
        yield s
        if isinstance(s, (ast.If, ast.Try)):
            for f in ('body', 'orelse', 'finalbody'):
                yield from stmts(getattr(s, f, []))
            for h in getattr(s, 'handlers', []):
                yield from stmts(h.body)


def decorations(f):
    return {ast.unparse(d.func if isinstance(d, ast.Call) else d).split('.')[-1] for d in getattr(f, 'decorator_list', [])}


KNOWN_DECO = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'njit', 'jit', 'lru_cache', 'cache', 'override',
              'wraps', 'cached_property', 'setter', 'contextmanager'}


def known_decorators(f):
    return decorations(f) <= KNOWN_DECO


def as_load(t):
    if not hasattr(t, '_as_load'):
        if isinstance(t, ast.Name):
            c = ast.Name(id=t.id, ctx=ast.Load())
        elif isinstance(t, ast.Attribute):
            c = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        else:
            c = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        t._as_load = ast.copy_location(c, t)
    return t._as_load
