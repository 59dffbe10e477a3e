"""Value-graph abstract interpreter for the Python subset the repository is written in.

One pass over the syntax tree of a function computes, for every variable and field, one closed term (a gated value
graph: conditionals become gates, loops over a domain become folds, element-wise array code becomes a body over index
variables).  Branches are joined, never enumerated; nothing of the analysed program is executed."""
import ast
from .values import *
from .terms import *
from .terms import _mk, _walk, _conds
from . import logic
from .loader import Repo, AnchorMissing

MAXDEPTH = 45
UNROLL = 80


class State:
    __slots__ = ('cells', 'pc', 'dead')

    def __init__(self, cells=None, pc=TRUE):
        self.cells = cells if cells is not None else {}
        self.pc = pc
        self.dead = False

    def copy(self):
        s = State(dict(self.cells), self.pc)
        s.dead = self.dead
        return s

    def take(self, o):
        self.cells, self.pc, self.dead = o.cells, o.pc, o.dead


class Exit:
    __slots__ = ('kind', 'st', 'value', 'node')

    def __init__(self, kind, st, value, node):
        self.kind, self.st, self.value, self.node = kind, st, value, node


class Frame:
    __slots__ = ('id', 'func', 'mod', 'locals', 'parents', 'cls', 'self_', 'qual', 'globals_', 'gen')

    def __init__(self, id, func, mod, locals_, parents, cls, self_, qual):
        self.id, self.func, self.mod, self.locals, self.parents = id, func, mod, locals_, parents
        self.cls, self.self_, self.qual = cls, self_, qual
        self.globals_ = set()
        self.gen = None


class WhileSummary:
    pass


def assigned_names(body):
    out, glob, nonloc = set(), set(), set()

    def visit(n, top):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # comprehension targets are local to the comprehension
            for g in n.generators:
                visit(g.iter, False)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c, False)

    for s in body:
        visit(s, True)
    return out - nonloc, glob, nonloc


def conj(t):
    return set(t.args) if t.op == 'and' else (set() if t is TRUE else {t})


def or_pc(a, b):
    """disjunction of two path conditions with their common conjuncts kept outside"""
    ca, cb = conj(a), conj(b)
    common = ca & cb
    return andd(*common, orr(andd(*(ca - common)), andd(*(cb - common))))


class Interp:
    def __init__(self, repo):
        from . import models
        self.repo = repo
        self.models = models
        self.events = []
        self.kinds = {}
        self.whiles = []
        self.phi_info = {}        # loop-carried value id -> (value before, value after one iteration, cells, binders, node)
        self.tries = {}           # exception symbol -> (try statement, exception names, events of its body)
        self.raises = []
        self.binders = []
        self._copying = set()
        self.while_stack = []
        self.depth = 0
        self.objs = {}
        self.loaded = {}
        self.call_stack = []
        self.functions_seen = {}
        self.unknowns = []
        self.script_main = False
        self.file_stack = []
        self.trys = 0
        self.once = {}
        self.rotations = {}
        self.cur_frame = None
        self.facts = TRUE
        self.contract_methods = {}
        self.contract_funcs = {}
        self.steps = 0

    # ------------------------------------------------------------ small helpers

    def unk(self, why, node=None):
        self.unknowns.append((why, getattr(node, 'lineno', None), self.call_stack[-1] if self.call_stack else None))
        return unk(why)

    def typed(self, ref, kind):
        """an array of a declared element type: what is stored in it is converted"""
        if kind is not None and isinstance(ref, ArrRef):
            self.kinds[ref.id] = kind
        return ref

    def new_arr(self, st, axes, body):
        if not axes:
            return body
        i = fresh_id()
        a = Arr(axes, body)
        if any(s.op == 'count' for x in a.axes for s in x.sizes):
            from .arrays import unfilter
            a = unfilter(a)
        st.cells[('A', i)] = a
        return ArrRef(i)

    def ref(self, st, arr):
        if isinstance(arr, Arr):
            return self.new_arr(st, arr.axes, arr.body)
        return arr

    def arr(self, st, v):
        """array contents of a value with fresh index variables, or None"""
        if isinstance(v, ArrRef):
            return st.cells[('A', v.id)].fresh()
        if isinstance(v, Arr):
            return v.fresh()
        return None

    def new_list(self, st, segs, kind='list', mixed=False):
        i = fresh_id()
        st.cells[('L', i)] = ListVal(segs, kind=kind, mixed=mixed)
        return ListRef(i)

    def list_of(self, st, items, kind='list'):
        return self.new_list(st, [Seg((), (), TRUE, v) for v in items], kind)

    def new_dict(self, st, items):
        i = fresh_id()
        st.cells[('D', i)] = DictVal(items)
        return DictRef(i)

    len_hook = None
    watch_attrs = ()
    exc_hook = None           # condition under which a try statement's body fails, when a scenario fixes it
    attr_hook = None          # attributes of opaque values a rule models itself

    def new_obj(self, name, args=(), kw=None, node=None, st=None):
        """an object of a class outside the repository"""
        bv = tuple(v for v, n in self.binders)
        t = _mk('obj', name, fresh_id(), bv)
        self.objs[(t.args[0], t.args[1])] = (name, args, kw or {}, node)
        return t

    def obj_info(self, t):
        return self.objs.get((t.args[0], t.args[1])) if isinstance(t, T) and t.op == 'obj' else None

    def call_term(self, name):
        return _mk('call', name, fresh_id(), tuple(v for v, n in self.binders))

    def event(self, st, name, recv, args, kw, node, result=None):
        e = Event()
        e.name, e.recv, e.args, e.kw = name, recv, list(args), dict(kw)
        e.pc = st.pc
        e.binders = tuple(self.binders)
        e.whiles = tuple(self.while_stack)
        e.result = result
        e.node = node
        e.func = self.call_stack[-1] if self.call_stack else '<module>'
        e.file = self.file_stack[-1] if self.file_stack else ''
        e.seq = len(self.events)
        e.cells = dict(st.cells) if name in KEEP_CELLS or self.keep_cells(name) else None
        self.events.append(e)
        return e

    def keep_cells(self, name):
        return False

    def raise_event(self, st, cls, node, extra=TRUE):
        e = self.event(st, 'raise', None, [], {}, node)
        e.vals = cls
        e.pc = andd(st.pc, extra)
        self.raises.append(e)
        return e

    # ------------------------------------------------------------ truth, choices, merging

    def truth(self, st, v):
        if isinstance(v, T):
            return truth(v)
        if isinstance(v, Choice):
            return ite(v.cond, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, ArrRef):
            a = st.cells[('A', v.id)]
            if all(x.guard is TRUE and all(s is ONE for s in x.sizes) for x in a.axes):
                return truth(subst(a.body, {x.vars[0]: ZERO for x in a.axes}))
            if len(a.axes) == 1 and len(a.axes[0].vars) == 1 and (cval(a.axes[0].sizes[0]) or 99) <= 8:
                # one element selected out of a few
                x = a.axes[0]
                picked = [i for i in range(int(cval(x.sizes[0]))) if subst(x.guard, {x.vars[0]: num(i)}) is not FALSE]
                if len(picked) == 1 and subst(x.guard, {x.vars[0]: num(picked[0])}) is TRUE:
                    return truth(subst(a.body, {x.vars[0]: num(picked[0])}))
            return _mk('truth', a.closed())
        if isinstance(v, ListRef):
            return ne(self.length(st, v), ZERO)
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, DictRef):
            d = st.cells[('D', v.id)]
            if d.phi is None:
                return orr(*[c for k, x, c in d.items])
            return truth(self.unk('dict truth'))
        return TRUE

    def decide(self, c, pc):
        if c is TRUE or c is FALSE:
            return c
        r = restrict(c, andd(pc, self.facts), True)
        return r

    def resolve(self, v, pc):
        """drop alternatives excluded by the path condition"""
        while isinstance(v, Choice):
            c = self.decide(v.cond, pc)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                break
        if isinstance(v, T) and v.op == 'ite' and pc is not TRUE:
            c = self.decide(v.args[0], pc)
            if c is TRUE:
                return self.resolve(v.args[1], pc)
            if c is FALSE:
                return self.resolve(v.args[2], pc)
        return v

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, T) or isinstance(b, T):
            return False
        if type(a) is not type(b):
            return False
        if isinstance(a, (ArrRef, ListRef, DictRef, Obj)):
            return a.id == b.id
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Arr):
            return len(a.axes) == len(b.axes) and a.closed() is b.closed()
        if isinstance(a, ListVal):
            return a.phi == b.phi and len(a.segs) == len(b.segs) and all(
                x is y or (x.vars == y.vars and x.guard is y.guard and self.same(x.value, y.value))
                for x, y in zip(a.segs, b.segs))
        if isinstance(a, DictVal):
            return a.phi == b.phi and len(a.items) == len(b.items) and all(
                x[0] is y[0] and x[2] is y[2] and self.same(x[1], y[1]) for x, y in zip(a.items, b.items))
        if isinstance(a, Choice):
            return a.cond is b.cond and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, Ext):
            return a.name == b.name
        if isinstance(a, ModVal):
            return a.mod is b.mod
        if isinstance(a, Bound):
            return self.same(a.self, b.self) and self.same(a.func, b.func)
        if isinstance(a, FuncVal):
            return a.node is b.node and a.frames == b.frames
        if isinstance(a, ClassVal):
            return a.node is b.node
        return False

    def merge(self, c, a, A, b, B, out):
        """value that is a (in cells A) when c holds and b (in cells B) otherwise; new references go to out"""
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if self.same(a, b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, A, y, B, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, ArrRef) and isinstance(b, ArrRef):
            m = self.merge_arr(c, A[('A', a.id)], B[('A', b.id)])
            if m is not None:
                i = fresh_id()
                out[('A', i)] = m
                return self.typed(ArrRef(i), self.kinds.get(a.id) if self.kinds.get(a.id) == self.kinds.get(b.id) else None)
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            la, lb = A[('L', a.id)], B[('L', b.id)]
            if la.phi is None and lb.phi is None:
                m = self.merge_list(c, la, A, lb, B, out)
                i = fresh_id()
                out[('L', i)] = m
                return ListRef(i)
        if isinstance(a, Choice) and a.cond is c:
            a = a.a
        if isinstance(b, Choice) and b.cond is c:
            b = b.b
        if self.same(a, b):
            return a
        return Choice(c, a, b)

    def merge_arr(self, c, x, y):
        if len(x.axes) != len(y.axes):
            return None
        x, y = x.fresh(), y.fresh()
        m = {}
        for p, q in zip(x.axes, y.axes):
            if not self.unify(p, q, m):
                return None
        return Arr(x.axes, ite(c, x.body, subst(y.body, m)))

    def unify(self, p, q, m):
        """extend m with a renaming of axis q onto axis p; False when they are not provably the same domain"""
        if len(p.vars) != len(q.vars):
            return False
        n = dict(m)
        for v, w in zip(p.vars, q.vars):
            n[w] = v
        for s, t in zip(p.sizes, q.sizes):
            t = subst(t, n)
            if s is not t and logic.equal(s, t) is not True:
                return False
        g = subst(q.guard, n)
        if g is not p.guard:
            if logic.equiv(p.guard, g, logic.facts(list(zip(p.vars, p.sizes)))) is not True:
                return False
        m.update(n)
        return True

    def merge_list(self, c, la, A, lb, B, out):
        segs = []
        i = 0
        n = min(len(la.segs), len(lb.segs))
        while i < n:
            x, y = la.segs[i], lb.segs[i]
            if x is y:
                segs.append(x)
            elif x.unit() and y.unit():
                segs.append(Seg((), (), TRUE, self.merge(c, x.value, A, y.value, B, out)))
            elif x.vars and len(x.vars) == len(y.vars) and x.guard is TRUE and y.guard is TRUE:
                # as many elements in either branch
                m = dict(zip(y.vars, x.vars))
                if [subst(z, m) for z in y.sizes] != list(x.sizes):
                    break
                s = State(dict(B))
                segs.append(Seg(x.vars, x.sizes, TRUE, self.merge(c, x.value, A, self.vsubst(s, y.value, m), s.cells, out)))
            else:
                break
            i += 1
        nc = nott(c)
        for s in la.segs[i:]:
            segs.append(Seg(s.vars, s.sizes, andd(s.guard, c), s.value))
        for s in lb.segs[i:]:
            segs.append(Seg(s.vars, s.sizes, andd(s.guard, nc), s.value))
        return ListVal(segs, phi=la.phi, mixed=la.mixed or lb.mixed, kind=la.kind)

    def merge_cells(self, c, A, B):
        out = {}
        for k, a in A.items():
            if k not in B:
                out[k] = a
                continue
            b = B[k]
            if a is b or self.same(a, b):
                out[k] = a
            elif k[0] == 'A':
                m = self.merge_arr(c, a, b)
                out[k] = m if m is not None else Arr(a.axes, self.unk('array reshaped in a branch'))
            elif k[0] == 'L':
                if a.phi == b.phi:
                    out[k] = self.merge_list(c, a, A, b, B, out)
                else:
                    out[k] = ListVal((), phi=fresh_id())
            elif k[0] == 'D':
                out[k] = self.merge_dict(c, a, A, b, B, out)
            else:
                out[k] = self.merge(c, a, A, b, B, out)
        for k, b in B.items():
            if k not in out:
                out[k] = b
        return out

    def merge_dict(self, c, a, A, b, B, out):
        if a.phi != b.phi:
            return DictVal((), phi=fresh_id())
        items = []
        bm = {k: (v, p) for k, v, p in b.items}
        seen = set()
        for k, v, p in a.items:
            seen.add(k)
            if k in bm:
                w, q = bm[k]
                items.append((k, self.merge(c, v, A, w, B, out), ite(c, p, q)))
            else:
                items.append((k, v, andd(c, p)))
        for k, w, q in b.items:
            if k not in seen:
                items.append((k, w, andd(nott(c), q)))
        return DictVal(items, phi=a.phi)

    def join(self, c, s1, s2):
        """state after a two-way branch on c"""
        if s1.dead and s2.dead:
            return s1
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        s = State(self.merge_cells(c, s1.cells, s2.cells), or_pc(s1.pc, s2.pc))
        return s

    def branch(self, st, c, f1, f2):
        """run two value computations under c / not c on copies of the state and join values and effects"""
        c = self.decide(c, st.pc)
        if c is TRUE:
            return f1(st)
        if c is FALSE:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = andd(st.pc, c), andd(st.pc, nott(c))
        v1 = f1(s1)
        v2 = f2(s2)
        if s1.dead and s2.dead:
            st.take(s1)
            return v1
        if s1.dead:
            st.take(s2)
            return v2
        if s2.dead:
            st.take(s1)
            return v1
        cells = self.merge_cells(c, s1.cells, s2.cells)
        v = self.merge(c, v1, s1.cells, v2, s2.cells, cells)
        st.cells, st.pc = cells, or_pc(s1.pc, s2.pc)
        return v

    def map_choice(self, st, v, f):
        v = self.resolve(v, st.pc)
        if isinstance(v, Choice):
            return self.branch(st, v.cond, lambda s: self.map_choice(s, v.a, lambda x, s=s: f(x, s)) if False else
                               self._mc(s, v.a, f), lambda s: self._mc(s, v.b, f))
        return f(v, st)

    def _mc(self, s, v, f):
        v = self.resolve(v, s.pc)
        if isinstance(v, Choice):
            return self.branch(s, v.cond, lambda t: self._mc(t, v.a, f), lambda t: self._mc(t, v.b, f))
        return f(v, s)

    # ------------------------------------------------------------ values as terms

    def closed(self, st, v, depth=0):
        """one term for any value (used inside predicates, uninterpreted functions and comparisons)"""
        if isinstance(v, T):
            return v
        if isinstance(v, ArrRef):
            return st.cells[('A', v.id)].closed()
        if isinstance(v, Arr):
            return v.closed()
        if isinstance(v, Choice):
            return ite(v.cond, self.closed(st, v.a), self.closed(st, v.b))
        if isinstance(v, Tup):
            return _mk('tup', *[self.closed(st, x) for x in v.items])
        if isinstance(v, ListRef):
            l = st.cells[('L', v.id)]
            if l.phi is None and not l.mixed and depth < 6:
                if all(s.unit() for s in l.segs):
                    return _mk('tup', *[self.closed(st, s.value, depth + 1) for s in l.segs])
                return _mk('list', *[lam(s.vars, s.sizes, s.guard, self.closed(st, s.value, depth + 1)) for s in l.segs])
            return self.unk('list')
        if isinstance(v, DictRef):
            d = st.cells[('D', v.id)]
            if d.phi is None and depth < 6:
                return _mk('dict', *[_mk('tup', k, self.closed(st, x, depth + 1), c) for k, x, c in d.items])
            return self.unk('dict')
        if isinstance(v, Obj):
            return _mk('obj', 'repo:' + v.cls.name, v.id, ())
        if isinstance(v, Ext):
            return _mk('k', 'ext', v.name)
        if isinstance(v, ClassVal):
            return _mk('k', 'class', v.mod.name + '.' + v.name)
        if isinstance(v, FuncVal):
            return _mk('k', 'func', '%s.%s:%d' % (v.mod.name, v.name, v.node.lineno))
        if isinstance(v, Bound):
            return _mk('fn', 'bound', (self.closed(st, v.self), self.closed(st, v.func)))
        if isinstance(v, PyVal):
            return _mk('k', 'contract', v.name)
        if isinstance(v, SliceVal):
            return _mk('tup', *[self.closed(st, x) for x in (v.lo, v.hi, v.step)])
        return self.unk('value')

    def vsubst(self, st, v, m):
        if not m:
            return v
        if isinstance(v, T):
            return subst(v, m)
        if isinstance(v, ArrRef):
            a = st.cells[('A', v.id)]
            fr = set(a.body.free)
            for x in a.axes:
                for s in x.sizes:
                    fr |= s.free
                fr |= x.guard.free
            if not (fr & set(k for k in m)) and not any(k.op != 'v' for k in m):
                return v
            n = a.sub(m)
            if n.body is a.body and all(p.guard is q.guard and p.sizes == q.sizes for p, q in zip(n.axes, a.axes)):
                return v
            return self.new_arr(st, n.axes, n.body)
        if isinstance(v, Tup):
            return Tup([self.vsubst(st, x, m) for x in v.items])
        if isinstance(v, ListRef):
            l = st.cells[('L', v.id)]
            segs = [Seg(s.vars, [subst(x, m) for x in s.sizes], subst(s.guard, m), self.vsubst(st, s.value, m))
                    for s in l.segs]
            n = ListVal(segs, l.phi, l.mixed, l.kind)
            if self.same(l, n):
                return v
            i = fresh_id()
            st.cells[('L', i)] = n
            return ListRef(i)
        if isinstance(v, Choice):
            c = subst(v.cond, m)
            a, b = self.vsubst(st, v.a, m), self.vsubst(st, v.b, m)
            if c is TRUE:
                return a
            if c is FALSE:
                return b
            return Choice(c, a, b)
        if isinstance(v, DictRef):
            d = st.cells[('D', v.id)]
            items = [(subst(k, m), self.vsubst(st, x, m), subst(c, m)) for k, x, c in d.items]
            n = DictVal(items, d.phi)
            if self.same(d, n):
                return v
            i = fresh_id()
            st.cells[('D', i)] = n
            return DictRef(i)
        if isinstance(v, Bound):
            return Bound(self.vsubst(st, v.self, m), v.func)
        if isinstance(v, Obj):
            if v.id in self._copying:
                return v
            self._copying.add(v.id)
            try:
                old = {k: x for k, x in st.cells.items() if k[0] == 'f' and k[1] == v.id}
                new = {k: self.vsubst(st, x, m) for k, x in old.items()}
            finally:
                self._copying.discard(v.id)
            if all(self.same(x, new[k]) for k, x in old.items()):
                return v
            o = Obj(fresh_id(), v.cls)
            for k, x in new.items():
                st.cells[('f', o.id) + tuple(k[2:])] = x
            return o
        return v

    def mentions(self, st, v, pred, depth=0):
        """does value v contain a term satisfying pred?"""
        if isinstance(v, T):
            return contains(v, pred)
        if isinstance(v, ArrRef):
            a = st.cells[('A', v.id)]
            return contains(a.body, pred) or any(contains(x.guard, pred) or any(contains(s, pred) for s in x.sizes)
                                                 for x in a.axes)
        if isinstance(v, Tup):
            return any(self.mentions(st, x, pred) for x in v.items)
        if isinstance(v, Obj) and depth < 4:
            return any(self.mentions(st, x, pred, depth + 1) for k, x in list(st.cells.items()) if k[0] == 'f' and k[1] == v.id)
        if isinstance(v, ListRef) and depth < 5:
            l = st.cells[('L', v.id)]
            return any(contains(s.guard, pred) or any(contains(x, pred) for x in s.sizes) or
                       self.mentions(st, s.value, pred, depth + 1) for s in l.segs)
        if isinstance(v, Choice):
            return contains(v.cond, pred) or self.mentions(st, v.a, pred) or self.mentions(st, v.b, pred)
        if isinstance(v, DictRef) and depth < 5:
            return any(contains(k, pred) or contains(c, pred) or self.mentions(st, x, pred, depth + 1)
                       for k, x, c in st.cells[('D', v.id)].items)
        return False

    def length(self, st, v):
        if isinstance(v, ArrRef):
            return st.cells[('A', v.id)].axes[0].length()
        if isinstance(v, Tup):
            return num(len(v.items))
        if isinstance(v, ListRef):
            l = st.cells[('L', v.id)]
            if l.phi is not None:
                return add(_mk('len', _mk('phi', l.phi)), *[s.length() for s in l.segs])
            return add(*[s.length() for s in l.segs]) if l.segs else ZERO
        if isinstance(v, DictRef):
            d = st.cells[('D', v.id)]
            if d.phi is None:
                return add(ZERO, *[ite(c, ONE, ZERO) for k, x, c in d.items])
            return self.unk('len dict')
        if isinstance(v, Choice):
            return ite(v.cond, self.length(st, v.a), self.length(st, v.b))
        if isinstance(v, T):
            if v.op == 'k' and v.args[0] == 'str':
                return num(len(v.args[1]))
            if v.op == 'ite':
                return ite(v.args[0], self.length(st, v.args[1]), self.length(st, v.args[2]))
            if v.op == 'tup':
                return num(len(v.args))
            if v.op == 'lam':
                n = mul(*v.args[1][:1]) if v.args[2] is TRUE else None
                if n is not None:
                    return n
            if self.len_hook is not None:
                r = self.len_hook(v)
                if r is not None:
                    return r
            return _mk('len', v)
        return self.unk('len')

    # ------------------------------------------------------------ modules

    def load(self, st, name):
        m = self.repo.module(name)
        return self.load_module(st, m)

    def load_module(self, st, m, main=False):
        if m.name in self.loaded:
            return ModVal(m)
        self.loaded[m.name] = True
        st.cells[('g', m.name, '__name__')] = string('__main__') if main else string(m.name)
        st.cells[('g', m.name, '__file__')] = _mk('sym', '__file__:' + m.rel, 'o')
        fr = Frame(('mod', m.name), None, m, None, [], None, None, '<module>')
        saved = (self.binders, self.while_stack)
        self.binders, self.while_stack = [], []
        self.call_stack.append(m.rel + ':<module>')
        self.file_stack.append(m.rel)
        pc = st.pc
        self.exec_block(m.tree.body, st, fr)
        if not main:
            st.pc = pc
            st.dead = False
        self.file_stack.pop()
        self.call_stack.pop()
        self.binders, self.while_stack = saved
        return ModVal(m)

    def mod_attr(self, st, m, name, node=None):
        k = ('g', m.name, name)
        if k in st.cells:
            return st.cells[k]
        if m.name not in self.loaded:
            self.load_module(st, m)
            if k in st.cells:
                return st.cells[k]
        sub = self.repo.resolve(m.name + '.' + name)
        if sub is not None:
            return self.load_module(st, sub)
        return None

    # ------------------------------------------------------------ names

    def key_for(self, fr, name):
        if fr.locals is None or name in fr.globals_:
            return ('g', fr.mod.name, name)
        return ('v', fr.id, name)

    def lookup(self, st, fr, name, node=None):
        if fr.locals is None:
            k = ('g', fr.mod.name, name)
            if k in st.cells:
                return st.cells[k]
        else:
            for fid in [fr.id] + list(fr.parents):
                if fid == fr.id and name in fr.globals_:
                    continue
                k = ('v', fid, name)
                if k in st.cells:
                    return st.cells[k]
            v = self.mod_attr(st, fr.mod, name)
            if v is not None:
                return v
        b = self.models.BUILTINS.get(name)
        if b is not None:
            return b
        if name in ('True', 'False', 'None'):
            return const(eval(name))
        import builtins
        if hasattr(builtins, name):
            return Ext('builtins.' + name)
        if name in fr.mod.functions or name in fr.mod.classes:
            # defined further down in the module that is being loaded
            n = fr.mod.functions.get(name) or fr.mod.classes.get(name)
            tmp = Frame(('mod', fr.mod.name), None, fr.mod, None, [], None, None, '<module>')
            self.exec_stmt(n, st, tmp)
            return st.cells.get(('g', fr.mod.name, name))
        return self.unk('name ' + name, node)

    def assign(self, st, fr, target, v, node=None):
        if isinstance(target, ast.Name):
            st.cells[self.key_for_store(fr, target.id)] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(st, fr, target.elts, v, node)
        elif isinstance(target, ast.Attribute):
            o = self.eval(target.value, st, fr)
            self.set_attr(st, o, target.attr, v, target)
        elif isinstance(target, ast.Subscript):
            o = self.eval(target.value, st, fr)
            idx = self.eval_index(target.slice, st, fr)
            self.set_item(st, o, idx, v, target)
        elif isinstance(target, ast.Starred):
            self.assign(st, fr, target.value, v, node)

    def key_for_store(self, fr, name):
        if fr.locals is None or name in fr.globals_:
            return ('g', fr.mod.name, name)
        if name in fr.locals or not fr.parents:
            return ('v', fr.id, name)
        return ('v', fr.id, name)

    def set_attr(self, st, o, name, v, node):
        o = self.resolve(o, st.pc)
        if isinstance(o, Choice):
            def f(x, s):
                self.set_attr(s, x, name, v, node)
                return NONE
            self.map_choice(st, o, f)
            return
        if isinstance(o, Obj):
            c, fn = o.cls.find(name)
            # property setter
            if fn is not None:
                for cc in o.cls.mro():
                    for n in cc.node.body:
                        if isinstance(n, ast.FunctionDef) and n.name == name and any(
                                isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list):
                            self.call_func(st, FuncVal(n, cc.mod, (), cc, cc.name + '.' + name), [o, v], {}, node)
                            return
            st.cells[('f', o.id, name)] = v
            return
        if isinstance(o, ClassVal):
            st.cells[('c', o.mod.name, o.name, name)] = v
            return
        self.event(st, 'setattr:' + name, o, [v], {}, node)

    def unpack(self, st, fr, targets, v, node):
        v = self.resolve(v, st.pc)
        n = len(targets)
        star = [i for i, t in enumerate(targets) if isinstance(t, ast.Starred)]
        items = None
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, ListRef):
            l = st.cells[('L', v.id)]
            if l.phi is None and all(s.unit() for s in l.segs):
                items = [s.value for s in l.segs]
            elif l.phi is None and len(l.segs) == 1 and len(l.segs[0].vars) == 1 and l.segs[0].guard is TRUE:
                s = l.segs[0]
                items = [self.vsubst(st, s.value, {s.vars[0]: num(i)}) for i in range(n)] if not star else None
        elif isinstance(v, ArrRef):
            a = st.cells[('A', v.id)]
            if a.axes[0].plain():
                items = [self.models.index_arr(self, st, v, [num(i)], node) for i in range(n)] if not star else None
        elif isinstance(v, Choice):
            if not star:
                outs = [self._choice_item(st, v, i, n) for i in range(n)]
                if all(o is not None for o in outs):
                    items = outs
        elif isinstance(v, T) and not star:
            if v.op == 'tup':
                items = list(v.args)
            elif v.op == 'ite':
                items = [at_item(v, i) for i in range(n)]
            else:
                items = [at(v, num(i)) for i in range(n)]
        if items is None:
            for t in targets:
                self.assign(st, fr, t, self.unk('unpack', node), node)
            return
        if star:
            i = star[0]
            k = n - i - 1
            mid = items[i:len(items) - k]
            items = items[:i] + [self.list_of(st, mid)] + items[len(items) - k:]
        if len(items) != n:
            for t in targets:
                self.assign(st, fr, t, self.unk('unpack', node), node)
            return
        for t, x in zip(targets, items):
            self.assign(st, fr, t, x, node)

    def _choice_item(self, st, v, i, n):
        if isinstance(v, Choice):
            a, b = self._choice_item(st, v.a, i, n), self._choice_item(st, v.b, i, n)
            if a is None or b is None:
                return None
            return self.merge(v.cond, a, st.cells, b, st.cells, st.cells)
        if isinstance(v, Tup) and len(v.items) == n:
            return v.items[i]
        if isinstance(v, T):
            if v.op == 'tup' and len(v.args) == n:
                return v.args[i]
            if v is NONE:
                return self.unk('unpack None')
            return at_item(v, i)
        return None

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, st, fr):
        exits = []
        for s in self.rotated(stmts):
            if st.dead:
                break
            exits.extend(self.exec_stmt(s, st, fr))
        return exits

    def rotated(self, stmts):
        """A; while c: B; A   as   while True: A; if not c: break; B"""
        key = id(stmts)
        hit = self.rotations.get(key)
        if hit is not None:
            return hit[1]
        out = stmts
        for i, w in enumerate(stmts):
            if not isinstance(w, ast.While) or w.orelse or isinstance(w.test, ast.Constant) or i == 0 or len(w.body) < 2:
                continue
            if any(isinstance(x, ast.Continue) for b in w.body for x in ast.walk(b)):
                continue
            m = 0
            while m < min(i, len(w.body) - 1) and ast.dump(stmts[i - 1 - m]) == ast.dump(w.body[-1 - m]):
                m += 1
            if m:
                stop = ast.If(ast.UnaryOp(ast.Not(), w.test), [ast.Break()], [])
                t = ast.copy_location(ast.Constant(True), w.test)
                for x in ast.walk(stop):
                    if not hasattr(x, 'lineno') and isinstance(x, (ast.stmt, ast.expr)):
                        ast.copy_location(x, w.test)
                loop = ast.copy_location(ast.While(t, list(w.body[-m:]) + [stop] + list(w.body[:-m]), []), w)
                out = stmts[:i - m] + [loop] + stmts[i + 1:]
                break
        self.rotations[key] = (stmts, out)
        return out

    def exec_stmt(self, n, st, fr):
        self.steps += 1
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.unk('statement ' + type(n).__name__, n)
            return []
        return m(n, st, fr) or []

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            v = self.eval(n.value.value, st, fr) if n.value.value is not None else NONE
            if fr.gen is not None:
                self.event(st, 'yield', None, [v], {}, n)
                if isinstance(n.value, ast.YieldFrom):
                    self.models.list_extend(self, st, fr.gen, v, n)
                else:
                    self.models.list_append(self, st, fr.gen, v)
            return
        self.eval(n.value, st, fr)

    def s_Pass(self, n, st, fr):
        return

    def s_Assign(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        if st.dead:
            return
        for t in n.targets:
            self.assign(st, fr, t, v, n)

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(st, fr, n.target, self.eval(n.value, st, fr), n)

    def s_AugAssign(self, n, st, fr):
        t = n.target
        r = None
        if isinstance(t, ast.Name):
            old = self.lookup(st, fr, t.id, n)
            r = self.eval(n.value, st, fr)
            old = self.resolve(old, st.pc)
            if isinstance(old, ListRef) and isinstance(n.op, ast.Add):
                self.models.list_extend(self, st, old, r, n)
                return
            v = self.binop(st, n.op, old, r, n)
            if isinstance(old, ArrRef) and isinstance(v, ArrRef):
                self.store_arr(st, old, v)
                return
            self.assign(st, fr, t, v, n)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            old = self.resolve(self.get_attr(st, o, t.attr, t), st.pc)
            r = self.eval(n.value, st, fr)
            if isinstance(old, ListRef) and isinstance(n.op, ast.Add):
                self.models.list_extend(self, st, old, r, n)
                return
            v = self.binop(st, n.op, old, r, n)
            if isinstance(old, ArrRef) and isinstance(v, ArrRef):
                self.store_arr(st, old, v)
                return
            self.set_attr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            idx = self.eval_index(t.slice, st, fr)
            old = self.get_item(st, o, idx, t)
            r = self.eval(n.value, st, fr)
            old = self.resolve(old, st.pc)
            if isinstance(old, ListRef) and isinstance(n.op, ast.Add):
                self.models.list_extend(self, st, old, r, n)
                return
            v = self.binop(st, n.op, old, r, n)
            self.set_item(st, o, idx, v, t)

    def store_arr(self, st, dst, src):
        """in-place operators keep the identity of the array"""
        a, b = st.cells[('A', dst.id)], st.cells[('A', src.id)]
        st.cells[('A', dst.id)] = b if len(a.axes) == len(b.axes) else Arr(a.axes, self.unk('in-place shape'))

    def s_Return(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        if st.dead:
            return []
        s = st.copy()
        st.dead = True
        return [Exit('return', s, v, n)]

    def s_Break(self, n, st, fr):
        s = st.copy()
        st.dead = True
        return [Exit('break', s, None, n)]

    def s_Continue(self, n, st, fr):
        s = st.copy()
        st.dead = True
        return [Exit('continue', s, None, n)]

    def s_Raise(self, n, st, fr):
        cls = '?'
        if n.exc is not None:
            x = n.exc
            f = x.func if isinstance(x, ast.Call) else x
            cls = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '?')
        self.raise_event(st, cls, n)
        st.dead = True
        return []

    def s_Assert(self, n, st, fr):
        c = self.truth(st, self.eval(n.test, st, fr))
        c = self.decide(c, st.pc)
        if c is TRUE:
            return
        self.raise_event(st, 'AssertionError', n, nott(c))
        if c is FALSE:
            st.dead = True
            return
        st.pc = andd(st.pc, c)

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.cells.pop(self.key_for_store(fr, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                idx = self.eval_index(t.slice, st, fr)
                self.event(st, 'delitem', o, idx, {}, n)
                if isinstance(o, DictRef):
                    st.cells[('D', o.id)] = DictVal((), phi=fresh_id())
                if isinstance(o, ListRef):
                    st.cells[('L', o.id)] = ListVal((), phi=fresh_id())

    def s_Global(self, n, st, fr):
        fr.globals_.update(n.names)

    def s_Nonlocal(self, n, st, fr):
        return

    def s_Import(self, n, st, fr):
        for a in n.names:
            m = self.repo.resolve(a.name, fr.mod)
            if m is not None and m is not fr.mod:
                v = self.load_module(st, m)
                if a.asname is None and '.' in a.name:
                    v = Ext(a.name.split('.')[0])
                st.cells[self.key_for_store(fr, a.asname or a.name.split('.')[0])] = v
            else:
                st.cells[self.key_for_store(fr, a.asname or a.name.split('.')[0])] = Ext(
                    a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, n, st, fr):
        base = n.module or ''
        if n.level:
            pkg = fr.mod.name.split('.')
            pkg = pkg[:len(pkg) - n.level] if not fr.mod.rel.endswith('__init__.py') else pkg[:len(pkg) - n.level + 1]
            base = '.'.join(pkg + ([base] if base else []))
        m = self.repo.resolve(base, fr.mod)
        for a in n.names:
            k = self.key_for_store(fr, a.asname or a.name)
            if m is not None:
                if m.name not in self.loaded:
                    self.load_module(st, m)
                if a.name == '*':
                    for kk in list(st.cells):
                        if kk[0] == 'g' and kk[1] == m.name and not kk[2].startswith('_'):
                            st.cells[self.key_for_store(fr, kk[2])] = st.cells[kk]
                    continue
                v = self.mod_attr(st, m, a.name)
                st.cells[k] = v if v is not None else self.unk('import ' + a.name, n)
            else:
                sub = self.repo.resolve(base + '.' + a.name, fr.mod)
                if sub is not None:
                    st.cells[k] = self.load_module(st, sub)
                else:
                    st.cells[k] = self.ext(base + '.' + a.name)

    def s_FunctionDef(self, n, st, fr):
        frames = () if fr.locals is None else (fr.id,) + tuple(fr.parents)
        q = n.name if fr.locals is None else fr.qual + '.' + n.name
        f = FuncVal(n, fr.mod, frames, None, q)
        f.defaults = self.defaults(n.args, st, fr)
        v = f
        for d in n.decorator_list:
            dn = d.func if isinstance(d, ast.Call) else d
            name = dn.attr if isinstance(dn, ast.Attribute) else getattr(dn, 'id', '')
            if name in ('lru_cache', 'cache', 'wraps', 'jit', 'njit'):
                continue
            v = self.unk('decorator ' + name, n)
        st.cells[self.key_for_store(fr, n.name)] = v

    s_AsyncFunctionDef = s_FunctionDef

    def defaults(self, args, st, fr):
        d = {}
        pos = args.posonlyargs + args.args
        for a, x in zip(pos[len(pos) - len(args.defaults):], args.defaults):
            d[a.arg] = self.eval(x, st, fr)
        for a, x in zip(args.kwonlyargs, args.kw_defaults):
            if x is not None:
                d[a.arg] = self.eval(x, st, fr)
        return d

    def s_ClassDef(self, n, st, fr):
        bases = [self.eval(b, st, fr) for b in n.bases]
        c = ClassVal(n, fr.mod, n.name, bases)
        for b in n.body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                tgt = b.targets[0].id
                if any('Enum' in e for e in c.ext_bases()):
                    v = _mk('k', 'enum', c.name + '.' + tgt)
                else:
                    v = self.eval(b.value, st, fr)
                st.cells[('c', c.mod.name, c.name, tgt)] = v
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value is not None:
                st.cells[('c', c.mod.name, c.name, b.target.id)] = self.eval(b.value, st, fr)
        st.cells[self.key_for_store(fr, n.name)] = c

    def s_If(self, n, st, fr):
        if fr.locals is None and self.is_main_test(n.test) and not self.script_main:
            return []
        c = self.truth(st, self.eval(n.test, st, fr))
        if st.dead:
            return []
        c = self.decide(c, st.pc)
        if c is TRUE:
            return self.exec_block(n.body, st, fr)
        if c is FALSE:
            return self.exec_block(n.orelse, st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = andd(st.pc, c), andd(st.pc, nott(c))
        e1 = self.exec_block(n.body, s1, fr)
        e2 = self.exec_block(n.orelse, s2, fr)
        st.take(self.join(c, s1, s2))
        return e1 + e2

    def is_main_test(self, t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__'

    def s_With(self, n, st, fr):
        opened = []
        for i in n.items:
            v = self.eval(i.context_expr, st, fr)
            opened.append((v, i))
            if i.optional_vars is not None:
                self.assign(st, fr, i.optional_vars, v, n)
        ex = self.exec_block(n.body, st, fr)
        for v, i in opened:
            if isinstance(v, T) and v.op == 'obj':
                info = self.obj_info(v)
                if not st.dead:
                    self.event(st, info[0] + '.__exit__', v, [], {}, n)
                for e in ex:
                    self.event(e.st, info[0] + '.__exit__', v, [], {}, n)
        return ex

    def s_Try(self, n, st, fr):
        pre = st.copy()
        nr, ne = len(self.raises), len(self.events)
        self.trys += 1
        ex = self.exec_block(n.body, st, fr)
        self.trys -= 1
        raised = self.raises[nr:]
        handlers = []
        covered = FALSE
        for h in n.handlers:
            names = self.exc_names(h.type)
            c = FALSE
            for e in raised:
                if names is None or e.vals in names or 'Exception' in names and e.vals not in ('SystemExit', 'KeyboardInterrupt') \
                        or 'BaseException' in names:
                    c = orr(c, e.pc if e.pc.op != 'and' else andd(*(conj(e.pc) - conj(pre.pc))))
            opaque = self.exc_condition(n, names, self.events[ne:], st)
            c = andd(orr(c, opaque), nott(covered))
            covered = orr(covered, c)
            handlers.append((h, c))
        ok = nott(covered)
        if not st.dead:
            st.pc = andd(st.pc, ok)
        for e in ex:
            e.st.pc = andd(e.st.pc, ok)
        if n.orelse and not st.dead:
            ex += self.exec_block(n.orelse, st, fr)
        out = st
        for h, c in handlers:
            if c is FALSE:
                continue
            s = pre.copy()
            # variables assigned in the body keep their body value only when it ran to the end
            for k in st.cells:
                if k not in s.cells and k[0] not in ('v', 'g'):
                    s.cells[k] = st.cells[k]
            s.pc = andd(pre.pc, c)
            if h.name:
                s.cells[self.key_for_store(fr, h.name)] = self.new_obj('exception')
            ex += self.exec_block(h.body, s, fr)
            out = self.join(c, s, out) if not (s.dead and out.dead) else out
        if out is not st:
            st.take(out)
        if n.finalbody:
            if not st.dead:
                ex += self.exec_block(n.finalbody, st, fr)
            for e in list(ex):
                s = e.st
                ex2 = self.exec_block(n.finalbody, s, fr)
                ex += ex2
        return ex

    def exc_names(self, t):
        if t is None:
            return None
        if isinstance(t, ast.Tuple):
            return set().union(*[self.exc_names(x) or {'Exception'} for x in t.elts])
        return {t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '?')}

    def exc_condition(self, n, names, events, st):
        imports = [s for s in n.body if isinstance(s, (ast.Import, ast.ImportFrom))]
        if imports and len(imports) == len(n.body) and (names is None or names & {'ImportError', 'ModuleNotFoundError',
                                                                                   'Exception'}):
            mods = []
            for s in imports:
                mods += [a.name for a in s.names] if isinstance(s, ast.Import) else [s.module]
            return orr(*[nott(sym('installed(%s)' % m, 'b')) for m in mods])
        if self.exc_hook is not None:
            r = self.exc_hook(n, names, events)
            if r is not None:
                return r
        r = sym('exception:%s:%d' % ('/'.join(sorted(names)) if names else 'any', n.lineno), 'b')
        self.tries[r] = (n, names, list(events))
        return r

    def s_For(self, n, st, fr):
        it = self.eval(n.iter, st, fr)
        if st.dead:
            return []
        return self.for_loop(st, fr, it, lambda s, v: self.assign(s, fr, n.target, v, n), n.body, n.orelse, n)

    # ------------------------------------------------------------ iteration

    def domains(self, st, it, node):
        """the sequence of an iterable as a list of (vars, sizes, guard, element) parts"""
        it = self.resolve(it, st.pc)
        if isinstance(it, Tup):
            return [((), (), TRUE, x) for x in it.items]
        if isinstance(it, ListRef):
            l = st.cells[('L', it.id)]
            if l.phi is not None or l.mixed:
                return None
            out = []
            for s in l.segs:
                m = {v: fresh_var() for v in s.vars}
                out.append((tuple(m.values()), tuple(subst(x, m) for x in s.sizes), subst(s.guard, m),
                            self.vsubst(st, s.value, m)))
            return out
        if isinstance(it, ArrRef):
            a = self.arr(st, it)
            x = a.axes[0]
            n = cval(x.sizes[0]) if x.plain() else None
            if n is not None and n <= 16:
                return [((), (), TRUE, self.ref(st, Arr(a.axes[1:], subst(a.body, {x.vars[0]: num(i)})))
                         if len(a.axes) > 1 else subst(a.body, {x.vars[0]: num(i)})) for i in range(int(n))]
            elem = self.new_arr(st, a.axes[1:], a.body) if len(a.axes) > 1 else a.body
            return [(x.vars, x.sizes, x.guard, elem)]
        if isinstance(it, DictRef):
            d = st.cells[('D', it.id)]
            if d.phi is None:
                return [((), (), c, k) for k, x, c in d.items]
            return None
        if isinstance(it, T):
            if it.op == 'tup':
                return [((), (), TRUE, x) for x in it.args]
            if it.op == 'range':
                lo, hi, step = it.args
                if step is ONE or cval(step) is not None:
                    cl, ch, cs = cval(lo), cval(hi), cval(step)
                    if cl is not None and ch is not None and cs is not None and len(range(int(cl), int(ch), int(cs))) <= UNROLL:
                        return [((), (), TRUE, num(i)) for i in range(int(cl), int(ch), int(cs))]
                if step is ONE:
                    v = fresh_var()
                    return [((v,), (sub(hi, lo),), TRUE, add(lo, v))]
                if cval(step) == -1:
                    v = fresh_var()
                    return [((v,), (sub(lo, hi),), TRUE, sub(lo, v))]
                v = fresh_var()
                n = ceil(div(sub(hi, lo), step))
                return [((v,), (n,), TRUE, add(lo, mul(step, v)))]
            if it.op == 'ite':
                a, b = self.domains(st, it.args[1], node), self.domains(st, it.args[2], node)
                if a is None or b is None:
                    return None
                c = it.args[0]
                return [(v, s, andd(g, c), e) for v, s, g, e in a] + [(v, s, andd(g, nott(c)), e) for v, s, g, e in b]
            if it.op == 'k':
                if it.args[0] == 'str':
                    return [((), (), TRUE, string(ch)) for ch in it.args[1]]
                return None
            if it.op == 'obj' and it.args[0] == 'file':
                # the lines of a file not read so far
                pos = st.cells.get(('f', it, '@pos'), ZERO)
                st.cells[('f', it, '@pos')] = self.unk('end of file')
                it = fn('lines', it)
                v = fresh_var()
                return [((v,), (sub(self.length(st, it), pos),), TRUE, at(it, add(pos, v)))]
            v = fresh_var()
            return [((v,), (self.length(st, it),), TRUE, at(it, v))]
        if isinstance(it, Choice):
            a, b = self.domains(st, it.a, node), self.domains(st, it.b, node)
            if a is None or b is None:
                return None
            c = it.cond
            return [(v, s, andd(g, c), e) for v, s, g, e in a] + [(v, s, andd(g, nott(c)), e) for v, s, g, e in b]
        return None

    def run_body(self, body, st, fr):
        return body(st) if callable(body) else self.exec_block(body, st, fr)

    def for_loop(self, st, fr, it, bind, body, orelse, node):
        parts = self.domains(st, it, node)
        if parts is None:
            v = fresh_var()
            u = self.unk('iterable', node)
            parts = [((v,), (_mk('len', u),), TRUE, at(u, v))]
        exits = []
        breaks = []
        for vs, sizes, guard, elem in parts:
            if st.dead:
                break
            if guard is FALSE or any(s is ZERO for s in sizes):
                continue
            if not vs:
                g = self.decide(guard, st.pc)
                if g is FALSE:
                    continue
                if g is TRUE:
                    self._iteration(st, fr, elem, bind, body, exits, breaks)
                    continue
                s1, s2 = st.copy(), st.copy()
                s1.pc, s2.pc = andd(st.pc, g), andd(st.pc, nott(g))
                self._iteration(s1, fr, elem, bind, body, exits, breaks)
                st.take(self.join(g, s1, s2))
            else:
                self.sym_loop(st, fr, vs, sizes, guard, elem, bind, body, node, exits, breaks)
        if orelse and not st.dead:
            exits += self.exec_block(orelse, st, fr)
        out = st
        for b in reversed(breaks):
            out = self.join_pc(b, out)
        if out is not st:
            st.take(out)
        return exits

    def _iteration(self, st, fr, elem, bind, body, exits, breaks):
        bind(st, elem)
        ex = self.run_body(body, st, fr)
        conts = []
        for e in ex:
            if e.kind == 'continue':
                conts.append(e.st)
            elif e.kind == 'break':
                breaks.append(e.st)
            else:
                exits.append(e)
        out = st
        for c in reversed(conts):
            out = self.join_pc(c, out)
        if out is not st:
            st.take(out)

    def join_pc(self, a, b):
        """join of two states with disjoint path conditions; what is particular to the first one's gates the values"""
        if a.dead:
            return b
        if b.dead:
            return a
        return self.join(andd(*(conj(a.pc) - conj(b.pc))), a, b)

    # ------------------------------------------------------------ loops over a symbolic domain

    def mark(self):
        return len(self.events), len(self.raises), len(self.whiles), len(self.unknowns)

    def rollback(self, m):
        del self.events[m[0]:]
        del self.raises[m[1]:]
        del self.whiles[m[2]:]
        del self.unknowns[m[3]:]

    def phi_flags(self, t):
        if is_bool(t):
            return 'b'
        if t.op in ('c', 'poly', 'red', 'count', 'len', 'floor', 'at', 'v', 'abs', 'log', 'min2', 'max2', 'pi', 'inf') or (
                t.op == 'sym' and 'N' not in t.args[1] and any(f in t.args[1] for f in 'ipnx')):
            return 'x'
        if t.op == 'ite':
            a, b = self.phi_flags(t.args[1]), self.phi_flags(t.args[2])
            return a if a == b else ''
        return ''

    def make_phi(self, k, v, cells, out):
        i = fresh_id()
        if isinstance(v, Arr):
            a = v.fresh()
            p = _mk('phi', i, self.phi_flags(a.body))
            return Arr(a.axes, at(p, *[x for ax in a.axes for x in ax.vars]))
        if isinstance(v, ListVal):
            return ListVal((), phi=i)
        if isinstance(v, DictVal):
            return DictVal((), phi=i)
        if isinstance(v, ArrRef):
            n = fresh_id()
            out[('A', n)] = self.make_phi(None, cells[('A', v.id)], cells, out)
            return self.typed(ArrRef(n), self.kinds.get(v.id))
        if isinstance(v, ListRef):
            n = fresh_id()
            out[('L', n)] = ListVal((), phi=i)
            return ListRef(n)
        if isinstance(v, Tup):
            return Tup([self.make_phi(None, x, cells, out) for x in v.items])
        if isinstance(v, T):
            return _mk('phi', i, self.phi_flags(v))
        return _mk('phi', i, '')

    def sym_loop(self, st, fr, vs, sizes, guard, elem, bind, body, node, exits, breaks):
        pre = st.cells
        phis, phicells = {}, {}
        for _ in range(6):
            mk = self.mark()
            s = State(dict(pre), andd(st.pc, guard))
            s.cells.update(phicells)
            s.cells.update(phis)
            start = dict(s.cells)
            nb = len(self.binders)
            self.binders += list(zip(vs, sizes))
            bind(s, elem)
            ex = self.run_body(body, s, fr)
            del self.binders[nb:]
            conts = [e.st for e in ex if e.kind == 'continue']
            brks = [e.st for e in ex if e.kind == 'break']
            rets = [e for e in ex if e.kind == 'return']
            out = s
            for c in reversed(conts):
                out = self.join_pc(c, out)
            ends = ([] if out.dead else [out]) + brks
            new = set()
            for e in ends:
                for k, v in start.items():
                    if k in pre and k not in phis and k in e.cells and not self.same(v, e.cells[k]):
                        new.add(k)
            if not new:
                break
            for k in sorted(new, key=repr):
                phis[k] = self.make_phi(k, pre[k], pre, phicells)
            self.rollback(mk)
        base = conj(st.pc) | conj(guard)
        L = LoopCtx(self, vs, sizes, guard)
        brk = FALSE
        for b in brks:
            brk = orr(brk, andd(*(conj(b.pc) - base)))
        retc = FALSE
        for e in rets:
            retc = orr(retc, andd(*(conj(e.st.pc) - base)))
        stop = orr(brk, retc)
        if stop is not FALSE:
            nbv = pred('notbroken', lam(vs, sizes, guard, stop), *vs)
            L.nb = nbv
            for e in self.events[mk[0]:]:
                e.pc = andd(e.pc, nbv)
        cells = dict(pre)
        for k, v in out.cells.items():
            if k not in cells and k not in phicells:
                cells[k] = v
        for b in brks:
            for k, v in b.cells.items():
                if k not in cells and k not in phicells:
                    cells[k] = v
        res = State(cells, st.pc)
        # values after a complete run of the loop
        final = {}
        for k, phi in phis.items():
            if isinstance(phi, T) and phi.op == 'phi':
                self.phi_info[phi.args[0]] = (pre[k], out.cells.get(k), out.cells, list(zip(vs, sizes)), node)
            if out.dead:
                final[k] = pre[k]
            else:
                final[k] = self.classify(res, pre, pre[k], phi, phicells, out.cells.get(k), out.cells, L)
        locs = {}
        if not out.dead:
            for k, v in out.cells.items():
                if k not in pre and k not in phicells and k[0] in ('v', 'g', 'f'):
                    # an object made in a round keeps that round's attributes; a variable that names it afterwards names the last one
                    locs[k] = v if k[0] == 'f' else self.last_value(res, None, v, L)
        for k, v in final.items():
            res.cells[k] = v
        for k, v in locs.items():
            res.cells[k] = v
        if brks:
            bst = State(dict(cells), andd(st.pc, red('any', lam(vs, sizes, guard, brk))))
            for k, phi in list(phis.items()):
                val, vc = None, None
                for b in reversed(brks):
                    c = andd(*(conj(b.pc) - base))
                    bv = b.cells.get(k)
                    val = bv if val is None else self.merge(c, bv, b.cells, val, b.cells, bst.cells)
                if val is not None and self.same(val, phi) and not out.dead and not self.same(out.cells.get(k), phi):
                    # not touched by the round that stops: what the rounds before it left
                    bst.cells[k] = final[k] if isinstance(final[k], (ListVal, DictVal)) else self._unkcell(k, pre[k])
                    continue
                bst.cells[k] = self.first_value(bst, pre[k], phi, val, brks[-1].cells, lam, L, brk, k)
            for k in set().union(*[set(b.cells) for b in brks]):
                if k not in pre and k not in phicells and k[0] in ('v', 'g', 'f'):
                    bst.cells[k] = self.first_value(bst, None, None, brks[0].cells.get(k), brks[0].cells, lam, L, brk, k)
            res.pc = andd(res.pc, nott(red('any', lam(vs, sizes, guard, brk))))
            breaks.append(bst)
        if rets:
            val = None
            for e in reversed(rets):
                c = andd(*(conj(e.st.pc) - base))
                val = e.value if val is None else self.merge(c, e.value, e.st.cells, val, e.st.cells, e.st.cells)
                merged_cells = e.st.cells
            rst = State(dict(cells), andd(st.pc, red('any', lam(vs, sizes, guard, retc))))
            rst.cells.update({k: v for k, v in merged_cells.items() if k not in rst.cells})
            rv = self.first_value(rst, None, None, val, rst.cells, lam, L, retc, None)
            for k in phis:
                rst.cells[k] = final[k] if self.same(final[k], pre[k]) else self._unkcell(k, pre[k])
            exits.append(Exit('return', rst, rv, rets[0].node))
            res.pc = andd(res.pc, nott(red('any', lam(vs, sizes, guard, retc))))
        if out.dead and not brks and not rets:
            # every iteration raises: the loop completes only when it has none
            res.pc = andd(res.pc, forall(lam(vs, sizes, guard, FALSE)))
        st.take(res)

    def _unkcell(self, k, v):
        if isinstance(v, Arr):
            return Arr(v.axes, self.unk('loop value'))
        if isinstance(v, ListVal):
            return ListVal((), phi=fresh_id())
        if isinstance(v, DictVal):
            return DictVal((), phi=fresh_id())
        return self.unk('loop value')

    def first_value(self, st, pre, phi, val, cells, lam_, L, cond, k):
        """value at the first iteration satisfying cond"""
        if val is None:
            return self._unkcell(k, pre)
        isphi = lambda x: x.op == 'phi'
        isv = lambda x: x in L.vset
        if isinstance(val, Arr):
            if contains(val.body, isphi) or contains(val.body, isv):
                return self._unkcell(k, val)
            return val
        if isinstance(val, (ListVal, DictVal)):
            if phi is not None and self.same(val, phi):
                return pre
            return self._unkcell(k, val)
        if phi is not None and self.same(val, phi):
            return pre
        for kk, vv in cells.items():
            st.cells.setdefault(kk, vv)
        if self.mentions(st, val, isphi):
            return self.unk('value at break')
        if not self.mentions(st, val, isv):
            return val
        if isinstance(val, T):
            return _mk('first', lam(L.vs, L.sizes, andd(L.guard, cond), val))
        if isinstance(val, Tup):
            return Tup([self.first_value(st, None, None, x, cells, lam_, L, cond, k) for x in val.items])
        return self.unk('value at break')

    def last_value(self, st, init, post, L):
        """value of the last iteration (init when there is none)"""
        if isinstance(post, (Arr, ListVal, DictVal)):
            return post
        isv = lambda x: x in L.vset
        if L.guard is TRUE and L.nb is None:
            m = {v: sub(s, ONE) for v, s in zip(L.vs, L.sizes)}
            v = self.vsubst(st, post, m)
        elif not self.mentions(st, post, isv):
            v = post
        else:
            v = self.unk('last of a filtered loop')
        if init is None:
            return v
        c = nott(forall(lam(L.vs, L.sizes, L.guard, FALSE))) if L.guard is not TRUE else andd(
            *[lt(ZERO, s) for s in L.sizes])
        return self.merge(c, v, st.cells, init, st.cells, st.cells)

    def classify(self, st, pre_cells, pre, phi, phicells, post, post_cells, L):
        isphi = lambda x: x.op == 'phi'
        if post is None:
            return self._unkcell(None, pre)
        if isinstance(pre, Arr):
            return self.classify_arr(st, pre, phi, post, L) or Arr(pre.axes, self.unk('array in loop'))
        if isinstance(pre, ListVal):
            if isinstance(post, ListVal) and post.phi == phi.phi:
                segs = []
                for s in post.segs:
                    g = andd(L.guard, s.guard)
                    if L.nb is not None:
                        g = andd(g, L.nb)
                    segs.append(Seg(L.vs + s.vars, L.sizes + s.sizes, g, s.value))
                    self._import(st, s.value, post_cells)
                return ListVal(pre.segs + tuple(segs), pre.phi, pre.mixed or post.mixed or len(segs) > 1, pre.kind)
            return ListVal((), phi=fresh_id())
        if isinstance(pre, DictVal):
            if self.same(post, phi):
                return pre
            old = pre.segs if pre.phi is not None else tuple(Seg((), (), c, Tup([k, x])) for k, x, c in pre.items)
            if isinstance(post, DictVal) and post.phi == phi.phi and (pre.phi is None or pre.segs) and not pre.items[
                    :0 if pre.phi is None else None] and L.nb is None and all(
                    k.op == 'call' and k.args[0].rpartition('.')[2].startswith(('create_', 'load_')) and set(L.vs) <= set(k.args[2]) and
                    c is TRUE for k, x, c in post.items):
                # every round adds entries under new keys (objects made in that round)
                new = [Seg(L.vs, L.sizes, L.guard, Tup([k, x])) for k, x, c in post.items]
                for g in new:
                    self._import(st, g.value, post_cells)
                return DictVal((), phi=fresh_id(), segs=old + tuple(new))
            return DictVal((), phi=fresh_id())
        if isinstance(pre, ArrRef) and isinstance(phi, ArrRef):
            if isinstance(post, ArrRef):
                r = self.classify_arr(st, pre_cells[('A', pre.id)], phicells[('A', phi.id)], post_cells[('A', post.id)], L)
                if r is not None:
                    return self.ref(st, r)
        if isinstance(pre, ListRef) and isinstance(phi, ListRef) and isinstance(post, ListRef):
            r = self.classify(st, pre_cells, pre_cells[('L', pre.id)], phicells[('L', phi.id)], phicells,
                              post_cells[('L', post.id)], post_cells, L)
            i = fresh_id()
            st.cells[('L', i)] = r
            return ListRef(i)
        if isinstance(pre, Tup) and isinstance(phi, Tup) and isinstance(post, Tup) and len(pre.items) == len(post.items):
            return Tup([self.classify(st, pre_cells, a, b, phicells, c, post_cells, L)
                        for a, b, c in zip(pre.items, phi.items, post.items)])
        if self.same(post, phi):
            return pre
        self._import(st, post, post_cells)
        if not self.mentions(st, post, isphi):
            return self.last_value(st, pre, post, L)
        if isinstance(pre, T) and isinstance(phi, T) and isinstance(post, T):
            r = L.fold(pre, phi, post)
            if r is not None:
                return r
        return self.unk('loop-carried value')

    def _import(self, st, v, cells):
        if isinstance(v, ArrRef):
            st.cells.setdefault(('A', v.id), cells[('A', v.id)])
        elif isinstance(v, ListRef):
            if ('L', v.id) not in st.cells:
                st.cells[('L', v.id)] = cells[('L', v.id)]
                for s in cells[('L', v.id)].segs:
                    self._import(st, s.value, cells)
        elif isinstance(v, DictRef):
            if ('D', v.id) not in st.cells:
                st.cells[('D', v.id)] = cells[('D', v.id)]
                for k, x, c in cells[('D', v.id)].items:
                    self._import(st, x, cells)
        elif isinstance(v, Tup):
            for x in v.items:
                self._import(st, x, cells)
        elif isinstance(v, Choice):
            self._import(st, v.a, cells)
            self._import(st, v.b, cells)

    def classify_arr(self, st, pre, phi, post, L):
        if not (isinstance(post, Arr) and len(pre.axes) == len(post.axes)):
            return None
        p, f, q = pre.fresh(), phi.fresh(), post.fresh()
        m = {}
        for x, y, z in zip(p.axes, f.axes, q.axes):
            if not self.unify(x, y, m) or not self.unify(x, z, m):
                return None
        fb, qb = subst(f.body, m), subst(q.body, m)
        if fb is qb:
            return pre
        if not contains(qb, lambda x: x.op == 'phi'):
            r = L.last(p.body, fb, qb, L.guard)
        else:
            r = L.fold(p.body, fb, qb)
        if r is None:
            return None
        return Arr(p.axes, in_domain(r, p.axes))

    # ------------------------------------------------------------ while loops

    def s_While(self, n, st, fr):
        pre = st.cells
        phis, phicells = {}, {}
        flags = {}
        wid = fresh_id()
        # a loop certainly entered is tested at the end of its body
        late = False
        if not isinstance(n.test, ast.Constant):
            mk = self.mark()
            s = State(dict(pre), st.pc)
            late = self.decide(self.truth(s, self.eval(n.test, s, fr)), s.pc) is TRUE and len(self.events) == mk[0]
            self.rollback(mk)
        for _ in range(12):
            mk = self.mark()
            s = State(dict(pre), st.pc)
            s.cells.update(phicells)
            s.cells.update(phis)
            start = dict(s.cells)
            self.while_stack.append(wid)
            c = self.truth(s, self.eval(n.test, s, fr))
            c = self.decide(c, s.pc)
            outs = []
            if late:
                s.pc = andd(s.pc, c)
            elif c is not TRUE:
                o = s.copy()
                o.pc = andd(s.pc, nott(c))
                if c is FALSE:
                    s.dead = True
                outs.append(o)
                s.pc = andd(s.pc, c)
            ex = [] if s.dead else self.exec_block(n.body, s, fr)
            out = s
            for e in reversed(ex):
                if e.kind == 'continue':
                    out = self.join_pc(e.st, out)
            if late and not out.dead:
                c = self.decide(self.truth(out, self.eval(n.test, out, fr)), out.pc)
                if c is not TRUE:
                    o = out.copy()
                    o.pc = andd(out.pc, nott(c))
                    outs.append(o)
                    out.pc = andd(out.pc, c)
                    if c is FALSE:
                        out.dead = True
            self.while_stack.pop()
            new = set()
            if not out.dead:
                for k, v in start.items():
                    if k in pre and k not in phis and k in out.cells and not self.same(v, out.cells[k]):
                        new.add(k)
            bad = {}
            for k in phis:
                v = out.cells.get(k)
                if not out.dead and isinstance(phis[k], T) and isinstance(v, T) and set(flags.get(k, '')) & set('ipn'):
                    fl = self.weaken(flags[k], v)
                    if fl != flags[k]:
                        bad[k] = fl
            grown = set() if out.dead else {k for k in phis if k not in new and self.resized(phis[k], out.cells.get(k), phicells, out)}
            if not new and not bad and not grown:
                break
            for k in grown:
                self.widen(k, phis, phicells, pre, out, wid)
            for k, fl in bad.items():
                flags[k] = fl
                phis[k] = sym('%s~%d.%d' % (self.key_name(k), wid, fresh_id()), fl)
            for k in sorted(new, key=repr):
                v = pre[k]
                if isinstance(v, T):
                    fl = 'b' if is_bool(v) else (self.weaken('ip', v) if self.phi_flags(v) == 'x' else 'N')
                    flags[k] = fl
                    phis[k] = sym('%s~%d.%d' % (self.key_name(k), wid, fresh_id()), fl)
                else:
                    phis[k] = self.wphi(k, v, pre, phicells, wid)
            self.rollback(mk)
        w = WhileSummary()
        w.id, w.node, w.test, w.phis, w.pre = wid, n, c, phis, {k: pre[k] for k in phis}
        w.pre_cells, w.phicells = pre, phicells
        w.post = None if out.dead else out
        w.exits = [('cond', o, None) for o in outs] + [(e.kind, e.st, e.value) for e in ex if e.kind != 'continue']
        w.func = self.call_stack[-1] if self.call_stack else ''
        w.file = self.file_stack[-1] if self.file_stack else ''
        w.events = (mk[0], len(self.events))
        w.raises = self.raises[mk[1]:]
        w.pc = st.pc
        self.whiles.append(w)
        exits = [e for e in ex if e.kind == 'return']
        outs += [e.st for e in ex if e.kind == 'break']
        if not outs:
            st.dead = True
            return exits
        r = outs[-1]
        for o in reversed(outs[:-1]):
            r = self.join_pc(o, r)
        st.take(r)
        if n.orelse and not st.dead:
            exits += self.exec_block(n.orelse, st, fr)
        return exits

    def resized(self, p, v, phicells, out):
        a = phicells.get(('A', p.id)) if isinstance(p, ArrRef) else p
        b = out.cells.get(('A', v.id)) if isinstance(v, ArrRef) else v
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return False
        return len(a.axes) != len(b.axes) or any(x.length() is not y.length() for x, y in zip(a.axes, b.axes))

    def widen(self, k, phis, phicells, pre, out, wid):
        """an array whose size changes from one iteration to the next: its sizes become values of the loop"""
        p, v = phis[k], out.cells[k]
        a = phicells[('A', p.id)] if isinstance(p, ArrRef) else p
        b = out.cells[('A', v.id)] if isinstance(v, ArrRef) else v
        if len(a.axes) != len(b.axes):
            phis[k] = sym('%s~%d.%d' % (self.key_name(k), wid, fresh_id()), 'X')
            return
        axes = []
        for x, y in zip(a.axes, b.axes):
            m, n = x.length(), y.length()
            if m is not n:
                # a scalar of the loop that takes the same values
                for q in phis:
                    if isinstance(phis[q], T) and pre[q] is m and out.cells.get(q) is n:
                        m = phis[q]
                        break
                else:
                    m = sym('len~%d.%d' % (wid, fresh_id()), 'in')
            axes.append(Ax([fresh_var()], [m]))
        fl = {'b': 'B', 'x': 'X'}.get(self.phi_flags(a.body), '')
        r = Arr(axes, at(sym('%s~%d.%d' % (self.key_name(k), wid, fresh_id()), fl), *[x.vars[0] for x in axes]))
        if isinstance(p, ArrRef):
            phicells[('A', p.id)] = r
        else:
            phis[k] = r

    def weaken(self, fl, v):
        """largest part of the type/sign facts fl (i integer, p positive, n nonnegative) that v keeps"""
        out = 'i' if 'i' in fl and is_int(v) else ''
        if 'p' in fl and is_pos(v):
            out += 'p'
        elif ('p' in fl or 'n' in fl) and is_nonneg(v):
            out += 'n'
        return out or 'x'

    def key_name(self, k):
        return '.'.join(str(x) for x in k[-1:])

    def wphi(self, k, v, cells, out, wid):
        nm = self.key_name(k) if k else 'w'
        i = '%d.%d' % (wid, fresh_id())
        if isinstance(v, Arr):
            a = v.fresh()
            fl = {'b': 'B', 'x': 'X'}.get(self.phi_flags(a.body), '')
            return Arr(a.axes, at(sym('%s~%s' % (nm, i), fl), *[x for ax in a.axes for x in ax.vars]))
        if isinstance(v, (ListVal,)):
            return ListVal((), phi=fresh_id())
        if isinstance(v, DictVal):
            return DictVal((), phi=fresh_id())
        if isinstance(v, ArrRef):
            n = fresh_id()
            out[('A', n)] = self.wphi(k, cells[('A', v.id)], cells, out, wid)
            return self.typed(ArrRef(n), self.kinds.get(v.id))
        if isinstance(v, ListRef):
            n = fresh_id()
            out[('L', n)] = ListVal((), phi=fresh_id())
            return ListRef(n)
        if isinstance(v, Tup):
            return Tup([self.wphi(k, x, cells, out, wid) for x in v.items])
        if isinstance(v, T):
            return sym('%s~%s' % (nm, i), 'b' if is_bool(v) else ('x' if self.phi_flags(v) == 'x' else 'N'))
        return sym('%s~%s' % (nm, i), 'N')

    # ------------------------------------------------------------ calls

    def call(self, st, f, args, kw, node):
        f = self.resolve(f, st.pc)
        if isinstance(f, Choice):
            return self.map_choice(st, f, lambda g, s: self.call(s, g, args, kw, node))
        if isinstance(f, FuncVal):
            return self.call_func(st, f, args, kw, node)
        if isinstance(f, Bound):
            if isinstance(f.func, PyVal):
                return f.func.fn(self, st, [f.self] + list(args), kw, node)
            return self.call_func(st, f.func, [f.self] + list(args), kw, node)
        if isinstance(f, ClassVal):
            return self.instantiate(st, f, args, kw, node)
        if isinstance(f, PyVal):
            return f.fn(self, st, list(args), kw, node)
        if isinstance(f, Ext):
            return self.models.call_ext(self, st, f.name, list(args), kw, node)
        if isinstance(f, Method):
            return self.models.call_method(self, st, f.recv, f.name, list(args), kw, node)
        if isinstance(f, T):
            if f.op == 'attr':
                return self.models.call_opaque_method(self, st, f.args[0], f.args[1], list(args), kw, node)
            if f.op == 'ite':
                return self.branch(st, f.args[0], lambda s: self.call(s, f.args[1], args, kw, node),
                                   lambda s: self.call(s, f.args[2], args, kw, node))
            r = self.call_term('()')
            self.event(st, '()', f, args, kw, node, r)
            return r
        if isinstance(f, Obj):
            c, fn = f.cls.find('__call__')
            if fn is not None:
                return self.call_func(st, FuncVal(fn, c.mod, (), c, c.name + '.__call__'), [f] + list(args), kw, node)
        return self.unk('call', node)

    def instantiate(self, st, c, args, kw, node):
        k = self.contract_funcs.get((c.mod.name, c.name))
        if k is not None:
            return k(self, st, list(args), kw, node)
        if any('Enum' in e for e in c.ext_bases()):
            return self.unk('enum call', node)
        o = Obj(fresh_id(), c)
        if self.is_namedtuple(c):
            return self.unk('namedtuple', node)
        cc, init = c.find('__init__')
        if init is not None:
            self.call_func(st, FuncVal(init, cc.mod, (), cc, cc.name + '.__init__'), [o] + list(args), kw, node)
        elif any('dataclass' in ast.unparse(d) for x in c.mro() for d in x.node.decorator_list):
            self.init_fields(st, o, c, args, kw, node)
        self.event(st, 'new:' + c.mod.name + '.' + c.name, None, args, kw, node, o)
        return o

    def init_fields(self, st, o, c, args, kw, node):
        """the generated initialiser of a dataclass"""
        fields = {}
        for x in reversed(c.mro()):
            for n in x.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and 'ClassVar' not in ast.unparse(n.annotation):
                    fields[n.target.id] = (n.value, x)
        got = dict(zip(fields, args))
        got.update(kw)
        for name, (d, x) in fields.items():
            if name in got:
                v = got[name]
            elif d is None:
                v = self.unk('missing field', node)
            else:
                fr = Frame(('mod', x.mod.name), None, x.mod, None, [], None, None, '<module>')
                v = None
                if isinstance(d, ast.Call) and ast.unparse(d.func).rpartition('.')[2] == 'field':
                    k = {a.arg: a.value for a in d.keywords}
                    if 'default_factory' in k:
                        v = self.call(st, self.eval(k['default_factory'], st, fr), [], {}, node)
                    elif 'default' in k:
                        v = self.eval(k['default'], st, fr)
                    else:
                        v = self.unk('field', node)
                else:
                    v = self.eval(d, st, fr)
            self.set_attr(st, o, name, v, node)
        cc, post = c.find('__post_init__')
        if post is not None:
            self.call_func(st, FuncVal(post, cc.mod, (), cc, cc.name + '.__post_init__'), [o], {}, node)

    def is_namedtuple(self, c):
        return any(isinstance(b, T) for b in c.bases)

    def bind(self, st, f, args, kw, node, fr):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = f.defaults
        if d is None:
            tmp = Frame(('mod', f.mod.name), None, f.mod, None, [], None, None, '<module>')
            d = self.once.get(f.node)
            if d is None:
                d = self.defaults(a, st, tmp)
                if all(isinstance(x, T) for x in d.values()):
                    self.once[f.node] = d  # defaults are evaluated once
        got = {}
        ok = True
        args = list(args)
        for nme, v in zip(names, args):
            got[nme] = v
        if len(args) > len(names):
            if a.vararg is not None:
                got[a.vararg.arg] = Tup(args[len(names):])
            else:
                ok = False
        elif a.vararg is not None:
            got[a.vararg.arg] = Tup([])
        allnames = set(names) | {x.arg for x in a.kwonlyargs}
        extra = []
        for k, v in kw.items():
            if k in allnames and k not in got:
                got[k] = v
            elif a.kwarg is not None and k not in got:
                extra.append((string(k), v, TRUE))
            else:
                ok = False
        if a.kwarg is not None:
            got[a.kwarg.arg] = self.new_dict(st, extra)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg not in got:
                if x.arg in d:
                    got[x.arg] = d[x.arg]
                else:
                    ok = False
                    got[x.arg] = self.unk('missing argument ' + x.arg, node)
        if not ok:
            self.event(st, 'bind-error', None, args, kw, node)
        for k, v in got.items():
            st.cells[('v', fr.id, k)] = v

    def call_func(self, st, f, args, kw, node):
        n = f.node
        k = self.contract_funcs.get((f.mod.name, f.name))
        if k is not None:
            return k(self, st, list(args), kw, node)
        if self.depth > MAXDEPTH or sum(1 for q in self.call_stack if q == f.mod.rel + ':' + f.name) > 3:
            return self.unk('recursion', node)
        if '**' in kw:
            return self.unk('double star', node)
        self.functions_seen[f.mod.rel + ':' + f.name] = n.lineno
        self_ = args[0] if args else None
        if isinstance(n, ast.Lambda):
            fr = Frame(fresh_id(), n, f.mod, set(), f.frames, f.cls, self_, f.name)
        else:
            loc = getattr(n, '_locals', None)
            if loc is None:
                loc = assigned_names(n.body)
                n._locals = loc
            a = n.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            fr = Frame(fresh_id(), n, f.mod, loc[0] | params, f.frames, f.cls, self_, f.name)
            fr.globals_ = set(loc[1])
        self.bind(st, f, args, kw, node, fr)
        self.depth += 1
        self.call_stack.append(f.mod.rel + ':' + f.name)
        self.file_stack.append(f.mod.rel)
        try:
            if isinstance(n, ast.Lambda):
                return self.eval(n.body, st, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(n)):
                fr.gen = self.new_list(st, [])
            entry = st.pc
            ex = self.exec_block(n.body, st, fr)
            return self.finish_call(st, entry, ex, fr, n)
        finally:
            self.depth -= 1
            self.call_stack.pop()
            self.file_stack.pop()

    def finish_call(self, st, entry, ex, fr, n):
        rets = [e for e in ex if e.kind == 'return' and not e.st.dead]
        if not st.dead:
            rets.append(Exit('return', st.copy(), NONE, n))
        if not rets:
            st.dead = True
            return self.unk('does not return', n)
        cur = rets[-1]
        val, cells, pc = cur.value, cur.st.cells, cur.st.pc
        for e in reversed(rets[:-1]):
            c = andd(*(conj(e.st.pc) - conj(pc)))
            if c is TRUE:
                c = andd(*(conj(e.st.pc) - conj(entry)))
            nc = self.merge_cells(c, e.st.cells, cells)
            val = self.merge(c, e.value, e.st.cells, val, cells, nc)
            cells = nc
            pc = or_pc(e.st.pc, pc)
        st.cells, st.pc, st.dead = cells, pc, False
        if fr.gen is not None:
            return fr.gen
        return val

    # ------------------------------------------------------------ attributes

    def get_attr(self, st, o, name, node):
        o = self.resolve(o, st.pc)
        if isinstance(o, Choice):
            return self.map_choice(st, o, lambda x, s: self.get_attr(s, x, name, node))
        if isinstance(o, Obj):
            k = ('f', o.id, name)
            if k in st.cells:
                return st.cells[k]
            cm = self.contract_methods.get((o.cls.name, name))
            if cm is not None:
                return Bound(o, cm if isinstance(cm, PyVal) else PyVal(name, cm))
            c, fn = o.cls.find(name)
            if fn is not None:
                return self.method_value(st, o, c, fn, node)
            for c in o.cls.mro():
                kk = ('c', c.mod.name, c.name, name)
                if kk in st.cells:
                    return st.cells[kk]
            if name == '__class__':
                return o.cls
            if o.cls.ext_bases():
                return _mk('attr', self.closed(st, o), name)
            return self.unk('attribute ' + name, node)
        if isinstance(o, Super):
            mro = o.obj.cls.mro() if isinstance(o.obj, Obj) else o.cls.mro()
            i = mro.index(o.cls) + 1 if o.cls in mro else 1
            for c in mro[i:]:
                for fn in c.node.body:
                    if isinstance(fn, ast.FunctionDef) and fn.name == name:
                        return self.method_value(st, o.obj, c, fn, node)
            return PyVal('object.' + name, lambda I, s, a, k, nd: NONE)
        if isinstance(o, ClassVal):
            for c in o.mro():
                kk = ('c', c.mod.name, c.name, name)
                if kk in st.cells:
                    return st.cells[kk]
                for fn in c.node.body:
                    if isinstance(fn, ast.FunctionDef) and fn.name == name:
                        f = FuncVal(fn, c.mod, (), c, c.name + '.' + name)
                        if any(getattr(d, 'id', '') == 'classmethod' for d in fn.decorator_list):
                            return Bound(o, f)
                        return f
            if name == '__name__':
                return string(o.name)
            return self.unk('class attribute ' + name, node)
        if isinstance(o, ModVal):
            v = self.mod_attr(st, o.mod, name, node)
            return v if v is not None else self.unk('module attribute ' + name, node)
        if isinstance(o, Ext):
            return self.ext(o.name + '.' + name)
        return self.models.value_attr(self, st, o, name, node)

    def ext(self, dotted):
        v = self.models.CONSTANTS.get(dotted)
        if v is not None:
            return v
        return Ext(self.models.ALIASES.get(dotted, dotted))

    def method_value(self, st, o, c, fn, node):
        decs = [getattr(d, 'id', getattr(d, 'attr', '')) for d in fn.decorator_list]
        f = FuncVal(fn, c.mod, (), c, c.name + '.' + fn.name)
        if 'property' in decs or 'cached_property' in decs:
            return self.call_func(st, f, [o], {}, node)
        if 'staticmethod' in decs:
            return f
        if 'classmethod' in decs:
            return Bound(o.cls if isinstance(o, Obj) else o, f)
        return Bound(o, f)

    # ------------------------------------------------------------ subscripts

    def eval_index(self, s, st, fr):
        if isinstance(s, ast.Tuple):
            return [self.eval_ix1(x, st, fr) for x in s.elts]
        v = self.eval_ix1(s, st, fr)
        if isinstance(v, Tup):
            return list(v.items)
        return [v]

    def eval_ix1(self, s, st, fr):
        if isinstance(s, ast.Slice):
            return SliceVal(*[self.eval(x, st, fr) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        return self.eval(s, st, fr)

    def get_item(self, st, o, idx, node):
        o = self.resolve(o, st.pc)
        if isinstance(o, Choice):
            return self.map_choice(st, o, lambda x, s: self.get_item(s, x, idx, node))
        return self.models.get_item(self, st, o, [self.resolve(i, st.pc) for i in idx], node)

    def set_item(self, st, o, idx, v, node):
        o = self.resolve(o, st.pc)
        if isinstance(o, Choice):
            def f(x, s):
                self.set_item(s, x, idx, v, node)
                return NONE
            self.map_choice(st, o, f)
            return
        self.models.set_item(self, st, o, [self.resolve(i, st.pc) for i in idx], v, node)

    # ------------------------------------------------------------ expressions

    def eval(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.unk('expression ' + type(n).__name__, n)
        return self.resolve(m(n, st, fr), st.pc)

    def e_Constant(self, n, st, fr):
        if n.value is Ellipsis:
            return ELLIPSIS
        if isinstance(n.value, complex):
            return self.unk('constant', n)
        return const(n.value)

    def e_Name(self, n, st, fr):
        return self.lookup(st, fr, n.id, n)

    def e_Attribute(self, n, st, fr):
        return self.get_attr(st, self.eval(n.value, st, fr), n.attr, n)

    def e_Subscript(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        return self.get_item(st, o, self.eval_index(n.slice, st, fr), n)

    def e_Tuple(self, n, st, fr):
        items = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                its = self.static_items(st, v)
                if its is None:
                    return self.unk('starred', n)
                items += its
            else:
                items.append(self.eval(x, st, fr))
        return Tup(items)

    def e_List(self, n, st, fr):
        l = self.new_list(st, [])
        for x in n.elts:
            if isinstance(x, ast.Starred):
                self.models.list_extend(self, st, l, self.eval(x.value, st, fr), n)
            else:
                self.models.list_append(self, st, l, self.eval(x, st, fr))
        return l

    def e_Set(self, n, st, fr):
        return self.list_of(st, [self.eval(x, st, fr) for x in n.elts], 'set')

    def flattened(self, st, v, n):
        """the elements of the elements of a sequence, in order"""
        ps = self.domains(st, v, n)
        segs = []
        for vs, sz, g, x in ps if ps is not None else ():
            inner = self.domains(st, x, n)
            if inner is None:
                return self.unk('star argument', n)
            segs += [Seg(tuple(vs) + tuple(a), tuple(sz) + tuple(b), andd(g, h), y) for a, b, h, y in inner]
        return self.unk('star argument', n) if ps is None else self.new_list(st, segs)

    def transposed(self, st, v, n):
        """zip(*rows): the columns of rows of equal, known width"""
        ps = self.domains(st, v, n)
        rows = [(p, self.static_items(st, p[3])) for p in ps or ()]
        widths = {len(r) if r is not None else None for p, r in rows}
        if len(widths) != 1 or None in widths:
            return self.unk('star argument', n)
        return Tup([self.new_list(st, [Seg(p[0], p[1], p[2], r[j]) for p, r in rows]) for j in range(widths.pop())])

    def static_items(self, st, v):
        ps = self.domains(st, v, None)
        if ps is None or any(p[0] or p[2] is not TRUE for p in ps):
            return None
        return [p[3] for p in ps]

    def e_Dict(self, n, st, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st, fr)
                if isinstance(d, DictRef) and st.cells[('D', d.id)].phi is None:
                    items += list(st.cells[('D', d.id)].items)
                    continue
                return self.unk('dict splat', n)
            kk = self.eval(k, st, fr)
            items.append((self.closed(st, kk), self.eval(v, st, fr), TRUE))
        return self.new_dict(st, items)

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                x = self.eval(v.value, st, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(p.value for p in v.format_spec.values if isinstance(p, ast.Constant))
                parts.append(self.models.fmt(self, st, x, spec))
        return self.models.cat(*parts)

    def e_Lambda(self, n, st, fr):
        frames = () if fr.locals is None else (fr.id,) + tuple(fr.parents)
        f = FuncVal(n, fr.mod, frames, fr.cls, '<lambda>')
        f.defaults = self.defaults(n.args, st, fr)
        return f

    def e_IfExp(self, n, st, fr):
        c = self.truth(st, self.eval(n.test, st, fr))
        return self.branch(st, c, lambda s: self.eval(n.body, s, fr), lambda s: self.eval(n.orelse, s, fr))

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(st, fr, n.target, v, n)
        return v

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        v = self.eval(n.values[0], st, fr)
        for x in n.values[1:]:
            c = self.decide(self.truth(st, v), st.pc)
            if not isand:
                c = nott(c)
            if c is FALSE:
                return v
            pc = st.pc
            st.pc = andd(pc, c)
            w = self.eval(x, st, fr)
            if st.pc is andd(pc, c):
                st.pc = pc
            if c is TRUE:
                v = w
            elif isinstance(v, T) and is_bool(v) and isinstance(w, T) and is_bool(w):
                v = andd(v, w) if isand else orr(v, w)
            else:
                tv, tw = self.truth(st, v), self.truth(st, w)
                if isinstance(v, T) and isinstance(w, T) and not is_bool(w) or not isinstance(w, T) or not isinstance(v, T):
                    v = self.merge(c, w, st.cells, v, st.cells, st.cells)
                else:
                    v = andd(tv, tw) if isand else orr(tv, tw)
        return v

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return nott(self.truth(st, v))
        return self.unop(st, n.op, v, n)

    def unop(self, st, op, v, n):
        if isinstance(op, ast.USub):
            return self.models.elementwise(self, st, lambda a: neg(a), [v], n)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            return self.models.elementwise(self, st, lambda a: nott(a) if is_bool(a) else sub(neg(a), ONE), [v], n)
        return self.unk('unary', n)

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.binop(st, n.op, a, b, n)

    def binop(self, st, op, a, b, n):
        a, b = self.resolve(a, st.pc), self.resolve(b, st.pc)
        if isinstance(a, Choice):
            return self.map_choice(st, a, lambda x, s: self.binop(s, op, x, b, n))
        if isinstance(b, Choice):
            return self.map_choice(st, b, lambda x, s: self.binop(s, op, a, x, n))
        return self.models.binop(self, st, op, a, b, n)

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fr)
            c = self.compare(st, op, left, right, n)
            if res is None:
                res = c
            elif isinstance(res, T) and isinstance(c, T):
                res = andd(truth(res), truth(c))
            else:
                res = self.unk('chained array comparison', n)
            left = right
        return res

    def compare(self, st, op, a, b, n):
        a, b = self.resolve(a, st.pc), self.resolve(b, st.pc)
        if isinstance(a, Choice):
            return self.map_choice(st, a, lambda x, s: self.compare(s, op, x, b, n))
        if isinstance(b, Choice):
            return self.map_choice(st, b, lambda x, s: self.compare(s, op, a, x, n))
        return self.models.compare(self, st, op, a, b, n)

    def e_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and fr.cls is not None:
            return Super(fr.self_, fr.cls)
        f = self.eval(n.func, st, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                its = self.static_items(st, v)
                if its is None and isinstance(v, (ListRef, ArrRef, Arr)):
                    k = cval(self.length(st, v))
                    if k is not None and 0 <= k <= 16:
                        its = [self.models.get_item(self, st, v, [num(i)], n) for i in range(int(k))]
                if its is None and getattr(f, 'name', None) == 'itertools.chain' and isinstance(f, Ext):
                    args.append(self.flattened(st, v, n))
                elif its is None and getattr(f, 'name', None) in ('zip', 'builtins.zip') and len(n.args) == 1 and not n.keywords:
                    return self.transposed(st, v, n)
                elif its is None:
                    args.append(self.unk('star argument', n))
                else:
                    args += its
            else:
                args.append(self.eval(a, st, fr))
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                if isinstance(v, DictRef) and st.cells[('D', v.id)].phi is None and all(
                        kk.op == 'k' and kk.args[0] == 'str' and c is TRUE for kk, x, c in st.cells[('D', v.id)].items):
                    for kk, x, c in st.cells[('D', v.id)].items:
                        kw[kk.args[1]] = x
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        if st.dead:
            return NONE
        return self.call(st, f, args, kw, n)

    def e_ListComp(self, n, st, fr):
        return self.comprehension(n, st, fr, 'list')

    def e_SetComp(self, n, st, fr):
        return self.comprehension(n, st, fr, 'set')

    def e_GeneratorExp(self, n, st, fr):
        return self.comprehension(n, st, fr, 'gen')

    def comprehension(self, n, st, fr, kind):
        out = self.new_list(st, [], kind)
        cf = Frame(fresh_id(), n, fr.mod, set(), ([fr.id] if fr.locals is not None else []) + list(fr.parents), fr.cls,
                   fr.self_, fr.qual)

        def level(i, s):
            if i == len(n.generators):
                v = self.eval(n.elt, s, cf)
                self.models.list_append(self, s, out, v)
                return []
            g = n.generators[i]
            it = self.eval(g.iter, s, cf)

            def body(s2):
                cond = TRUE
                for t in g.ifs:
                    cond = andd(cond, self.truth(s2, self.eval(t, s2, cf)))
                cond = self.decide(cond, s2.pc)
                if cond is FALSE:
                    return []
                if cond is TRUE:
                    return level(i + 1, s2)
                a, b = s2.copy(), s2.copy()
                a.pc, b.pc = andd(s2.pc, cond), andd(s2.pc, nott(cond))
                level(i + 1, a)
                s2.take(self.join(cond, a, b))
                return []

            return self.for_loop(s, cf, it, lambda s3, v: self.assign(s3, cf, g.target, v, n), body, None, n)

        level(0, st)
        return out

    def e_DictComp(self, n, st, fr):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            its = self.static_items(st, self.eval(g.iter, st, fr))
            if its is not None:
                cf = Frame(fresh_id(), n, fr.mod, set(), ([fr.id] if fr.locals is not None else []) + list(fr.parents),
                           fr.cls, fr.self_, fr.qual)
                items = []
                for x in its:
                    self.assign(st, cf, g.target, x, n)
                    items.append((self.closed(st, self.eval(n.key, st, cf)), self.eval(n.value, st, cf), TRUE))
                return self.new_dict(st, items)
        elt = ast.copy_location(ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), n)
        pairs = self.eval(ast.copy_location(ast.ListComp(elt=elt, generators=n.generators), n), st, fr)
        if isinstance(pairs, ListRef) and st.cells[('L', pairs.id)].phi is None:
            return fn('mapping', self.closed(st, pairs))
        return self.unk('dict comprehension', n)

    def e_Starred(self, n, st, fr):
        return self.unk('starred', n)

    def e_Yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        if fr.gen is not None:
            self.models.list_append(self, st, fr.gen, v)
        return self.unk('yield', n)

    def e_Await(self, n, st, fr):
        return self.unk('await', n)


KEEP_CELLS = set()


def at_item(v, i):
    if v.op == 'ite':
        return ite(v.args[0], at_item(v.args[1], i), at_item(v.args[2], i))
    if v.op == 'tup':
        return v.args[i] if i < len(v.args) else unk('item')
    return at(v, num(i))


def walk_own(n):
    """nodes of a function without those of nested functions"""
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef, ast.GeneratorExp)):
            continue
        yield c
        yield from walk_own(c)


def in_domain(body, axes):
    """drop conditions the index ranges of the axes decide"""
    vs = {v for a in axes for v in a.vars}
    dom = andd(*[andd(le(ZERO, v), lt(v, z)) for a in axes for v, z in zip(a.vars, a.sizes)])
    m = {}
    for x in subterms(body):
        if x.op in ('pos', 'neg') and x.free & vs and len(x.free) <= 2:
            if logic.valid(implies_t(dom, x)) is True:
                m[x] = TRUE
            elif logic.valid(implies_t(dom, nott(x))) is True:
                m[x] = FALSE
    return subst(body, m) if m else body


class LoopCtx:
    """folds a loop-carried value over the iteration domain"""

    def __init__(self, I, vs, sizes, guard):
        self.I, self.vs, self.sizes, self.guard = I, tuple(vs), tuple(sizes), guard
        self.vset = set(vs)
        self.nb = None

    def lam(self, guard, body):
        return lam(self.vs, self.sizes, guard, body)

    def hasphi(self, t):
        return contains(t, lambda x: x.op == 'phi')

    def fold(self, init, phi, post, guard=None):
        if self.nb is not None:
            return None
        g = self.guard if guard is None else guard
        if post is phi:
            return init
        if post.op == 'ite' and not self.hasphi(post.args[0]):
            c, a, b = post.args
            # a write that pins the loop variables touches one iteration only
            if b is phi or a is phi:
                c2, x = (c, a) if b is phi else (nott(c), b)
                g2 = andd(g, c2)
                r = self.pinned(init, phi, x, g2)
                if r is not None:
                    return r
                return self.fold(init, phi, x, g2)
        if not self.hasphi(post):
            return self.last(init, phi, post, g)
        if is_bool(post) or is_bool(phi):
            if post.op == 'or' and phi in post.args:
                rest = orr(*[x for x in post.args if x is not phi])
                if not self.hasphi(rest):
                    return orr(init, red('any', self.lam(g, rest)))
                return None
            if post.op == 'and' and phi in post.args:
                rest = andd(*[x for x in post.args if x is not phi])
                if not self.hasphi(rest):
                    return andd(init, forall(self.lam(g, rest)))
                return None
            return None
        if post.op in ('min2', 'max2') and phi in post.args:
            rest = [x for x in post.args if x is not phi]
            if not any(self.hasphi(x) for x in rest):
                f = min2 if post.op == 'min2' else max2
                return f(init, red('min' if post.op == 'min2' else 'max', self.lam(g, f(*rest))))
        d = sub(post, phi)
        if not self.hasphi(d):
            return add(init, red('+', self.lam(g, d)))
        p = poly_of(post)
        if p and all(sum(1 for a, e in m if a is phi and e == 1) == 1 for m in p):
            q = div(post, phi)
            if not self.hasphi(q):
                return mul(init, red('*', self.lam(g, q)))
        return None

    def solve(self, g):
        """values of the loop variables implied by guard g (equalities of integers), and g without them"""
        bounds = []
        for x in conj(g):
            pol = True
            while x.op == 'not':
                x, pol = x.args[0], not pol
            if x.op not in ('pos', 'neg'):
                continue
            L = x.args[0] if x.op == 'pos' else neg(x.args[0])
            if not pol:
                bounds.append(L)
            elif is_int(L):
                bounds.append(sub(ONE, L))
        bset = set(bounds)
        eqs = [e for e in bounds if neg(e) in bset]
        sol = {}
        for v in self.vs:
            for e in eqs:
                p = poly_of(e)
                k = ((v, Fraction1),)
                c = p.get(k)
                if c in (1, -1) and not any(v in (a for a, _ in m) for m in p if m != k):
                    rest = dict(p)
                    del rest[k]
                    val = mul(num(-c), mk_poly(rest))
                    if not any(w in val.free for w in self.vs if w is not v or True):
                        sol[v] = val
                        break
        return sol

    def pinned(self, init, phi, x, g):
        sol = self.solve(g)
        if set(sol) != self.vset:
            return None
        rng = andd(*[andd(le(ZERO, sol[v]), lt(sol[v], s)) for v, s in zip(self.vs, self.sizes)])
        x2 = subst(subst(x, sol), {phi: init})
        if self.hasphi(x2):
            return None
        return ite(andd(subst(g, sol), rng), x2, init)

    def last(self, init, phi, post, g):
        if self.nb is not None:
            return None
        r = self.pinned(init, phi, post, g)
        if r is not None:
            return r
        if not (post.free & self.vset):
            if g is TRUE:
                return ite(andd(*[lt(ZERO, s) for s in self.sizes]), post, init)
            return ite(red('any', self.lam(g, TRUE)), post, init)
        if g is TRUE:
            m = {v: sub(s, ONE) for v, s in zip(self.vs, self.sizes)}
            return ite(andd(*[lt(ZERO, s) for s in self.sizes]), subst(post, m), init)
        return None


from fractions import Fraction as _F
Fraction1 = _F(1)
