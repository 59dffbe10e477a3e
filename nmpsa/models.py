"""Meaning of the built-in operations: operators, subscripts, attributes and methods of built-in values."""
import ast
from .values import *
from .terms import *
from .terms import _mk
from .arrays import (opaque, is_stringish, to_arr, nth, plain_ax, plainify, elementwise, norm_index, slice_bounds, is_full,
                     index_arr, assign_arr, reduce_arr)
from .npmodels import NP, note_float, cmp_lt, cmp_le, cmp_eq, num_and, num_or, num_xor
from . import logic

NEG_INF = neg(INF)
CONSTANTS = {'pybullet_tools.utils.INF': INF, 'os.sep': string('/'), 'os.path.sep': string('/'), 'os.pardir': string('..'), 'os.curdir': string('.'), 'os.path.pardir': string('..'), 'numpy.pi': PI, 'math.pi': PI, 'numpy.inf': INF, 'math.inf': INF, 'numpy.Inf': INF, 'numpy.nan': NAN,
             'math.nan': NAN, 'numpy.newaxis': NONE, 'numpy.NINF': NEG_INF, 'numpy.e': _mk('exp', ONE),
             'math.e': _mk('exp', ONE), 'numpy.True_': TRUE, 'numpy.False_': FALSE}
ALIASES = {'numpy.min': 'numpy.min', 'numpy.amin': 'numpy.min', 'numpy.amax': 'numpy.max', 'numpy.absolute': 'numpy.abs',
           'numpy.fabs': 'numpy.abs', 'scipy.misc.comb': 'scipy.special.comb', 'math.gamma': 'scipy.special.gamma',
           'scipy.special.binom': 'scipy.special.comb', 'math.fabs': 'builtins.abs', 'numpy.math.gamma': 'scipy.special.gamma',
           'math.dist': 'numpy.dist'}


# ---------------------------------------------------------------- strings

def cat(*parts):
    out = []
    for p in parts:
        ps = p.args if isinstance(p, T) and p.op == 'cat' else (p,)
        for q in ps:
            if q.op == 'k' and q.args[0] == 'str' and q.args[1] == '':
                continue
            if out and q.op == 'k' and q.args[0] == 'str' and out[-1].op == 'k' and out[-1].args[0] == 'str':
                out[-1] = string(out[-1].args[1] + q.args[1])
            else:
                out.append(q)
    if not out:
        return string('')
    if len(out) == 1 and is_stringish(out[0]):
        return out[0]
    return _mk('cat', *out)


def fmt(I, st, x, spec=None):
    """the text of a value inside an f-string, str() or % formatting"""
    t = I.closed(st, x)
    sp = spec
    if isinstance(spec, T):
        sp = spec.args[1] if spec.op == 'k' and spec.args[0] == 'str' else 'dynamic'
    if not sp:
        return to_str(t)
    return fn('str', t, string(str(sp)))


def to_str(t):
    if is_stringish(t):
        return t
    if t.op == 'c' and t.args[0].denominator == 1:
        return string(str(int(t.args[0])))
    if t.op == 'ite':
        return ite(t.args[0], to_str(t.args[1]), to_str(t.args[2]))
    return fn('str', t)


# ---------------------------------------------------------------- lists

def list_append(I, st, l, v):
    l = I.resolve(l, st.pc)
    if isinstance(l, Choice):
        def f(x, s):
            list_append(I, s, x, v)
            return NONE
        I.map_choice(st, l, f)
        return
    if not isinstance(l, ListRef):
        I.event(st, '.append', l, [v], {}, None)
        return
    lv = st.cells[('L', l.id)]
    st.cells[('L', l.id)] = ListVal(lv.segs + (Seg((), (), TRUE, v),), lv.phi, lv.mixed, lv.kind)


def seq_segs(I, st, v, node=None):
    """a sequence value as list segments, or None"""
    parts = I.domains(st, v, node)
    if parts is None:
        return None
    return [Seg(vs, sz, g, e) for vs, sz, g, e in parts]


def list_extend(I, st, l, v, node):
    l = I.resolve(l, st.pc)
    if isinstance(l, Choice):
        def f(x, s):
            list_extend(I, s, x, v, node)
            return NONE
        I.map_choice(st, l, f)
        return
    lv = st.cells[('L', l.id)]
    v = I.resolve(v, st.pc)
    src = st.cells[('L', v.id)] if isinstance(v, ListRef) else None
    if src is not None and src.mixed and src.phi is None:
        st.cells[('L', l.id)] = ListVal(lv.segs + src.segs, lv.phi, True, lv.kind)
        return
    segs = seq_segs(I, st, v, node)
    if segs is None:
        st.cells[('L', l.id)] = ListVal((), fresh_id(), True, lv.kind)
        return
    st.cells[('L', l.id)] = ListVal(lv.segs + tuple(segs), lv.phi, lv.mixed, lv.kind)


def list_item(I, st, l, i, node):
    """element i (a term) of a list value"""
    lv = st.cells[('L', l.id)]
    if lv.mixed and lv.phi is None and all(s.value is not None for s in lv.segs):
        # order of the pieces is not tracked: equal positions still hold equal elements
        c = cval(i)
        if c is not None and c < 0:
            i = add(I.length(st, l), i)
        return fn('mixed item', _mk('tup', *[lam(s.vars, s.sizes, s.guard, I.closed(st, s.value)) for s in lv.segs]), i)
    if lv.mixed or lv.phi is not None:
        return I.unk('list item', node)
    segs = lv.segs
    c = cval(i)
    if all(s.unit() for s in segs):
        n = len(segs)
        if c is not None:
            k = int(c) + (n if c < 0 else 0)
            if 0 <= k < n:
                return segs[k].value
            I.raise_event(st, 'IndexError', node)
            return I.unk('list index', node)
        if n == 0:
            return I.unk('empty list item', node)
        v = segs[-1].value
        for k in range(n - 2, -1, -1):
            v = merge_values(I, st, eq(i, num(k)), segs[k].value, v)
        return v
    if c is not None and c < 0:
        # from the end over unit segments
        k = int(-c)
        tail = segs[-k:]
        if len(tail) == k and all(s.unit() for s in tail):
            return tail[0].value
        i = add(I.length(st, l), i)
        c = cval(i)
    off = ZERO
    opts = []
    for s in segs:
        n = s.length()
        if s.unit():
            val = s.value
        elif len(s.vars) == 1 and s.guard is TRUE:
            val = I.vsubst(st, s.value, {s.vars[0]: sub(i, off)})
        elif not s.vars:
            val = s.value
        else:
            t = I.closed(st, s.value)
            val = nth(lam(s.vars, s.sizes, s.guard, t), sub(i, off))
        opts.append((lt(i, add(off, n)), val))
        off = add(off, n)
    v = opts[-1][1]
    for cnd, val in reversed(opts[:-1]):
        v = merge_values(I, st, cnd, val, v)
    return v


def merge_values(I, st, c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return I.merge(c, a, st.cells, b, st.cells, st.cells)


# ---------------------------------------------------------------- subscripts

RECORDS = {'pybullet_tools.utils.OOBB': ('aabb', 'pose'), 'pybullet_tools.utils.AABB': ('lower', 'upper')}     # named tuples


def record_part(I, o, i):
    """a component of a named tuple of a library made here, None when it is not one"""
    if o.op != 'obj' or o.args[2] or o.args[0] not in RECORDS:
        return None
    names = RECORDS[o.args[0]]
    if isinstance(i, T):
        k = cval(i)
        if k is None or k.denominator != 1 or not -len(names) <= k < len(names):
            return None
        i = names[int(k)]
    if i not in names:
        return None
    name, args, kw, node = I.objs[(o.args[0], o.args[1])]
    k = names.index(i)
    return args[k] if k < len(args) else kw.get(i)


def get_item(I, st, o, idx, node):
    if isinstance(o, ArrRef) or isinstance(o, Arr):
        return index_arr(I, st, o, idx, node)
    i = idx[0] if len(idx) == 1 else Tup(idx)
    if isinstance(i, Choice):
        return I.map_choice(st, i, lambda x, s: get_item(I, s, o, [x], node))
    if isinstance(o, Tup):
        if isinstance(i, SliceVal):
            lo, hi, stp = [None if x is NONE else (int(cval(x)) if isinstance(x, T) and cval(x) is not None else 'x')
                           for x in (i.lo, i.hi, i.step)]
            if 'x' in (lo, hi, stp):
                return I.unk('tuple slice', node)
            return Tup(o.items[lo:hi:stp])
        c = cval(i) if isinstance(i, T) else None
        if c is not None:
            k = int(c)
            if -len(o.items) <= k < len(o.items):
                return o.items[k]
            I.raise_event(st, 'IndexError', node)
            return I.unk('tuple index', node)
        if isinstance(i, T) and o.items:
            if is_bool(i):
                i = ite(i, ONE, ZERO)
            v = o.items[-1]
            for k in range(len(o.items) - 2, -1, -1):
                v = merge_values(I, st, eq(i, num(k)), o.items[k], v)
            return v
        return I.unk('tuple index', node)
    if isinstance(o, ListRef):
        if isinstance(i, SliceVal):
            return list_slice(I, st, o, i, node)
        if isinstance(i, T):
            return list_item(I, st, o, i, node)
        return I.unk('list index', node)
    if isinstance(o, DictRef):
        d = st.cells[('D', o.id)]
        k = I.closed(st, i)
        I.event(st, 'dict-get', o, [i], {}, node)
        return dict_get(I, st, d, k, None, node)
    if isinstance(o, Obj):
        c, f = o.cls.find('__getitem__')
        if f is not None:
            return I.call_func(st, FuncVal(f, c.mod, (), c, c.name + '.__getitem__'), [o, i], {}, node)
        return I.unk('subscript', node)
    if isinstance(o, Ext) and o.name == 'sys.argv' and isinstance(i, T):
        return at(sym('sys.argv', 'o'), i)
    if isinstance(o, Ext) and o.name == 'numpy.mgrid':
        r = mgrid(I, st, idx, node)
        if r is not None:
            return r
    if isinstance(o, (Ext, ClassVal)):
        return o
    if isinstance(o, T):
        if o.op == 'k' and o.args[0] == 'str':
            c = cval(i) if isinstance(i, T) else None
            if c is not None and -len(o.args[1]) <= c < len(o.args[1]):
                return string(o.args[1][int(c)])
        if is_stringish(o):
            return fn('strop', string('getitem'), o, I.closed(st, i))
        r = record_part(I, o, i)
        if r is not None:
            return r
        if o.op in ('tup', 'range'):
            if o.op == 'tup':
                return get_item(I, st, Tup(o.args), idx, node)
            if isinstance(i, T):
                return add(o.args[0], mul(o.args[2], norm_index(i, I.length(st, o))))
        if o.op == 'fn' and o.args[0] == 'mapping':
            return at(o, I.closed(st, i))
        if isinstance(i, T) and (i.op == 'k' and i.args[0] == 'str' or is_stringish(i)):
            I.event(st, 'getitem', o, [i], {}, node)
            return at(o, i)
        if o.op == 'fn' and o.args[0] in ('lines', 'tokens') or o.op == 'at' and isinstance(i, SliceVal):
            n = I.length(st, o)
            if isinstance(i, T):
                return at(o, norm_index(i, n))
            b = slice_bounds(i, n) if isinstance(i, SliceVal) else None
            if b is not None:
                v = fresh_var()
                return I.new_list(st, [Seg((v,), (b[1],), TRUE, at(o, add(b[0], mul(b[2], v))))])
        return index_arr(I, st, o, idx, node)
    return I.unk('subscript', node)


def dict_get(I, st, d, k, default, node):
    if d.phi is not None:
        return I.unk('dict item', node)
    v = default
    found = FALSE
    for kk, x, c in d.items:
        e = andd(c, eq(kk, k))
        if e is FALSE:
            continue
        v = x if v is None else merge_values(I, st, e, x, v)
        found = orr(found, e)
    if v is None:
        I.raise_event(st, 'KeyError', node)
        return I.unk('missing key', node)
    return v


def list_slice(I, st, o, s, node):
    lv = st.cells[('L', o.id)]
    if all(x.unit() for x in lv.segs) and lv.phi is None and not lv.mixed:
        b = [None if x is NONE else (int(cval(x)) if isinstance(x, T) and cval(x) is not None else 'x')
             for x in (s.lo, s.hi, s.step)]
        if 'x' not in b:
            return I.list_of(st, [x.value for x in lv.segs[b[0]:b[1]:b[2]]])
    n = I.length(st, o)
    if is_full(s):
        st2 = I.new_list(st, lv.segs, lv.kind, lv.mixed)
        return st2
    b = slice_bounds(s, n)
    if b is None:
        return I.unk('list slice', node)
    lo, ln, step = b
    v = fresh_var()
    ix = add(lo, mul(step, v))
    if cval(lo) == 0 and step is ONE:
        # a prefix that covers whole segments keeps them
        off = ZERO
        for k, x in enumerate(lv.segs):
            if eq(off, ln) is TRUE:
                return I.new_list(st, lv.segs[:k])
            off = add(off, x.length())
    if step is ONE and s.hi is NONE:
        off = ZERO
        for k, x in enumerate(lv.segs):
            if eq(off, lo) is TRUE:
                return I.new_list(st, lv.segs[k:])
            off = add(off, x.length())
    return I.new_list(st, [Seg((v,), (ln,), TRUE, list_item(I, st, o, ix, node))])


def mgrid(I, st, idx, node):
    """the indices of a grid, one array per direction"""
    axes, vals = [], []
    for s in idx:
        if not isinstance(s, SliceVal) or s.step not in (NONE, ONE) or not isinstance(s.hi, T) or s.hi is NONE:
            return None
        lo = ZERO if s.lo is NONE else s.lo
        v = fresh_var()
        axes.append(Ax([v], [sub(s.hi, lo)]))
        vals.append(add(lo, v))
    if len(vals) == 1:
        return I.new_arr(st, axes, vals[0])
    k = fresh_var()
    body = vals[-1]
    for i in range(len(vals) - 2, -1, -1):
        body = ite(eq(k, num(i)), vals[i], body)
    return I.new_arr(st, [Ax([k], [num(len(vals))])] + axes, body)


def set_item(I, st, o, idx, v, node):
    if isinstance(o, ArrRef):
        assign_arr(I, st, o, idx, v, node)
        return
    i = idx[0] if len(idx) == 1 else Tup(idx)
    if isinstance(i, Choice):
        def f(x, s):
            set_item(I, s, o, [x], v, node)
            return NONE
        I.map_choice(st, i, f)
        return
    if isinstance(o, ListRef):
        lv = st.cells[('L', o.id)]
        c = cval(i) if isinstance(i, T) else None
        if c is not None and lv.phi is None and not lv.mixed:
            n = len(lv.segs)
            k = int(c)
            if all(s.unit() for s in lv.segs) and -n <= k < n:
                segs = list(lv.segs)
                segs[k] = Seg((), (), TRUE, v)
                st.cells[('L', o.id)] = ListVal(segs, lv.phi, lv.mixed, lv.kind)
                return
            if 0 <= k < n and all(s.unit() for s in lv.segs[:k + 1]):
                segs = list(lv.segs)
                segs[k] = Seg((), (), TRUE, v)
                st.cells[('L', o.id)] = ListVal(segs, lv.phi, lv.mixed, lv.kind)
                return
        if isinstance(i, T) and lv.phi is None and not lv.mixed:
            segs = []
            off = ZERO
            ok = True
            for s in lv.segs:
                if s.unit():
                    segs.append(Seg((), (), TRUE, merge_values(I, st, eq(i, off), v, s.value)))
                elif len(s.vars) == 1 and s.guard is TRUE:
                    x = fresh_var()
                    old = I.vsubst(st, s.value, {s.vars[0]: x})
                    segs.append(Seg((x,), s.sizes, TRUE, merge_values(I, st, eq(i, add(off, x)), v, old)))
                else:
                    ok = False
                off = add(off, s.length())
            if ok:
                st.cells[('L', o.id)] = ListVal(segs, lv.phi, lv.mixed, lv.kind)
                return
        st.cells[('L', o.id)] = ListVal(lv.segs, lv.phi, True, lv.kind)
        return
    if isinstance(o, DictRef):
        d = st.cells[('D', o.id)]
        k = I.closed(st, i)
        items = []
        done = False
        for kk, x, c in d.items:
            e = eq(kk, k)
            if e is TRUE:
                items.append((kk, v, TRUE))
                done = True
            elif e is FALSE:
                items.append((kk, x, c))
            else:
                items.append((kk, merge_values(I, st, e, v, x), c))
        if not done:
            items.append((k, v, TRUE))
        I.event(st, 'dict-set', o, [i, v], {}, node)
        st.cells[('D', o.id)] = DictVal(items, d.phi)
        return
    if isinstance(o, Obj):
        c, f = o.cls.find('__setitem__')
        if f is not None:
            I.call_func(st, FuncVal(f, c.mod, (), c, c.name + '.__setitem__'), [o, i, v], {}, node)
            return
    I.event(st, 'setitem', o, [i, v], {}, node)


# ---------------------------------------------------------------- operators

def floordiv(a, b):
    return floor(div(a, b))


def _boolnum(f):
    return f


ARITH = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: div, ast.FloorDiv: floordiv, ast.Mod: mod, ast.Pow: power,
         ast.BitAnd: num_and, ast.BitOr: num_or, ast.BitXor: num_xor}
OPNAME = {ast.LShift: '<<', ast.RShift: '>>'}


def binop(I, st, op, a, b, node):
    k = type(op)
    if k is ast.Add:
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            la, lb = st.cells[('L', a.id)], st.cells[('L', b.id)]
            if lb.phi is None:
                r = I.new_list(st, la.segs + lb.segs, 'list', la.mixed or lb.mixed)
                if la.phi is not None:
                    st.cells[('L', r.id)] = ListVal(la.segs + lb.segs, la.phi, la.mixed or lb.mixed, 'list')
                return r
            return I.unk('list +', node)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ListRef) and isinstance(y, T) and y.op == 'sym' and 'o' in y.args[1] and 'L' not in y.args[1]:
                # an opaque operand of + with a list is a list
                v = fresh_var()
                own = st.cells[('L', x.id)]
                if own.phi is None:
                    more = [Seg((v,), (I.length(st, y),), TRUE, at(y, v))]
                    return I.new_list(st, list(own.segs) + more if x is a else more + list(own.segs), 'list', own.mixed)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, (Tup, ListRef)) and isinstance(b, (Tup, ListRef)):
            parts = [x if isinstance(x, Tup) else st.cells[('L', x.id)] for x in (a, b)]
            if all(isinstance(x, Tup) or x.phi is None and x.kind != 'set' and not x.mixed for x in parts):
                return I.new_list(st, [g for x in parts for g in ([Seg((), (), TRUE, e) for e in x.items] if isinstance(x, Tup) else x.segs)], 'tuple')
        if isinstance(a, T) and isinstance(b, T):
            if is_stringish(a) and is_stringish(b):
                return cat(a, b)
            if is_stringish(a) or is_stringish(b):
                return cat(a, b)
    if k is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (ListRef, Tup)) and isinstance(y, T):
                c = cval(y)
                segs = [Seg((), (), TRUE, e) for e in x.items] if isinstance(x, Tup) else list(st.cells[('L', x.id)].segs)
                if c is not None:
                    if isinstance(x, Tup):
                        return Tup(x.items * max(0, int(c)))
                    return I.new_list(st, segs * max(0, int(c)))
                if len(segs) == 1 and segs[0].unit():
                    return I.new_list(st, [Seg((fresh_var(),), (y,), TRUE, segs[0].value)])
                return I.unk('list *', node)
            if isinstance(x, T) and is_stringish(x) and isinstance(y, T):
                return fn('strop', string('*'), x, y)
    if k is ast.Mod and isinstance(a, T) and is_stringish(a):
        its = list(b.items) if isinstance(b, Tup) else [b]
        if a.op == 'k':
            return percent(I, st, a.args[1], its)
        return fn('strop', string('%'), a, *[I.closed(st, x) for x in its])
    if k is ast.Div and isinstance(a, T) and a.op == 'fn' and a.args[0] in ('path.join', 'Path'):
        t = path_join(I, st, [a, b])
        return fn('Path', *t.args[1]) if a.args[0] == 'Path' else t
    if k in (ast.BitOr, ast.BitAnd, ast.Sub) and (isinstance(a, ListRef) or isinstance(b, ListRef)):
        la = st.cells[('L', a.id)] if isinstance(a, ListRef) else None
        if la is not None and la.kind == 'set':
            return I.unk('set operation', node)
    if k is ast.BitOr and isinstance(a, DictRef) and isinstance(b, DictRef):
        return dict_merge(I, st, [a, b])
    if k in OPNAME and isinstance(b, T) and cval(b) is not None and cval(b) >= 0 and cval(b) == int(cval(b)):
        f = floordiv if k is ast.RShift else mul
        return elementwise(I, st, f, [a, num(2 ** int(cval(b)))], node)
    if k in OPNAME:
        return elementwise(I, st, lambda x, y: fn(OPNAME[k], x, y), [a, b], node)
    if k is ast.MatMult:
        return NP['matmul'](I, st, [a, b], {}, node)
    f = ARITH.get(k)
    if f is None:
        return I.unk('operator', node)
    if isinstance(a, Obj) or isinstance(b, Obj):
        m = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__'}.get(k)
        if isinstance(a, Obj) and m:
            c, fnode = a.cls.find(m)
            if fnode is not None:
                return I.call_func(st, FuncVal(fnode, c.mod, (), c, c.name + '.' + m), [a, b], {}, node)
        return I.unk('operator on object', node)
    if k is ast.Div:
        note_float(I, st, '/', [a, b], node)
    if k is ast.Mult and isinstance(a, T) and isinstance(b, T) and is_int(a) != is_int(b):
        note_float(I, st, '*', [a, b], node)
    if isinstance(a, (ListRef, Tup)) and isinstance(b, (ListRef, Tup)):
        return I.unk('operator on sequences', node)
    return elementwise(I, st, f, [a, b], node)


def percent(I, st, text, its):
    import re
    parts = []
    pos = 0
    if len(its) == 1 and isinstance(its[0], T) and its[0].op == 'fn' and its[0].args[0] == 'list':
        n = len(re.findall(r'%(?!%)[-+ #0]*[\d.]*[a-zA-Z]', text))
        if n > 1:       # a tuple made of an opaque sequence
            src = its[0].args[1]
            src = src[0] if isinstance(src, tuple) else src
            its = [at(src, num(i)) for i in range(n)]
    it = iter(its)
    for m in re.finditer(r'%(\([^)]*\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])', text):
        parts.append(string(text[pos:m.start()]))
        pos = m.end()
        if m.group(3) == '%':
            parts.append(string('%'))
            continue
        x = next(it, NONE)
        parts.append(fmt(I, st, x, (m.group(2) + m.group(3)) if m.group(2) or m.group(3) not in 'sd' else None))
    parts.append(string(text[pos:]))
    return cat(*parts)


def path_join(I, st, args):
    out = []
    for a in args:
        t = I.closed(st, a)
        if t.op == 'fn' and t.args[0] in ('path.join', 'Path'):
            out += list(t.args[1])
        else:
            out.append(t)
    return fn('path.join', *out)


def dict_merge(I, st, ds):
    r = I.new_dict(st, ())
    for d in ds:
        for k, x, c in st.cells[('D', d.id)].items:
            if c is TRUE:
                set_plain(I, st, r, k, x)
    return r


def set_plain(I, st, r, k, x):
    d = st.cells[('D', r.id)]
    items = [(kk, y, c) for kk, y, c in d.items if eq(kk, k) is not TRUE]
    st.cells[('D', r.id)] = DictVal(items + [(k, x, TRUE)], d.phi)


# ---------------------------------------------------------------- comparisons

def compare(I, st, op, a, b, node):
    k = type(op)
    if k in (ast.Is, ast.IsNot):
        r = identical(I, st, a, b)
        return r if k is ast.Is else nott(r)
    if k in (ast.In, ast.NotIn):
        r = membership(I, st, a, b, node)
        if isinstance(r, T):
            return r if k is ast.In else nott(r)
        return r
    arr = isinstance(a, ArrRef) or isinstance(b, ArrRef)
    if k in (ast.Eq, ast.NotEq):
        if arr:
            return elementwise(I, st, (lambda x, y: cmp_eq(x, y)) if k is ast.Eq else (lambda x, y: nott(cmp_eq(x, y))),
                               [a, b], node)
        r = equal_values(I, st, a, b, node)
        return r if k is ast.Eq else nott(r)
    f = {ast.Lt: cmp_lt, ast.LtE: cmp_le, ast.Gt: lambda x, y: cmp_lt(y, x), ast.GtE: lambda x, y: cmp_le(y, x)}[k]
    if isinstance(a, (Tup, ListRef)) and isinstance(b, (Tup, ListRef)):
        x, y = I.static_items(st, a), I.static_items(st, b)
        if x is not None and y is not None and len(x) == len(y) and all(isinstance(e, T) for e in x + y):
            strict = k in (ast.Lt, ast.Gt)
            g = (lambda p, q: lt(p, q)) if k in (ast.Lt, ast.LtE) else (lambda p, q: lt(q, p))
            r = FALSE if strict else TRUE
            for p, q in reversed(list(zip(x, y))):
                r = orr(g(p, q), andd(eq(p, q), r))
            return r
        return truth(I.unk('sequence comparison', node))
    return elementwise(I, st, f, [a, b], node)


def identical(I, st, a, b):
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if isinstance(o, T):
            return isnone(o)
        return FALSE
    if isinstance(a, T) and isinstance(b, T):
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            o, c = (b, a) if a in (TRUE, FALSE) else (a, b)
            if is_bool(o):
                return o if c is TRUE else nott(o)
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            return FALSE
        return pred('is', *sorted([a, b], key=skey))
    if I.same(a, b):
        return TRUE
    if isinstance(a, T) or isinstance(b, T):
        return pred('is', *sorted([I.closed(st, a), I.closed(st, b)], key=skey))
    return FALSE


def equal_values(I, st, a, b, node):
    if isinstance(a, T) and isinstance(b, T):
        return cmp_eq(a, b)
    if I.same(a, b):
        return TRUE
    if isinstance(a, Obj) and isinstance(b, Obj):
        return FALSE
    x, y = (I.static_items(st, v) if isinstance(v, (Tup, ListRef)) else None for v in (a, b))
    if x is not None and y is not None:
        if len(x) != len(y):
            return FALSE
        return andd(*[equal_values(I, st, p, q, node) for p, q in zip(x, y)])
    p, q = I.closed(st, a), I.closed(st, b)
    if p is q:
        return TRUE
    if type(a) is not type(b) and not isinstance(a, T) and not isinstance(b, T):
        return FALSE
    return _mk('eqk', *sorted([p, q], key=skey))


def membership(I, st, a, b, node):
    if isinstance(b, DictRef):
        d = st.cells[('D', b.id)]
        I.event(st, 'dict-in', b, [a], {}, node)
        if d.phi is None:
            k = I.closed(st, a)
            return orr(*[andd(c, eq(kk, k)) for kk, x, c in d.items])
        return truth(I.unk('in dict', node))
    if isinstance(b, T):
        if is_stringish(b):
            if b.op == 'k' and isinstance(a, T) and a.op == 'k' and a.args[0] == 'str':
                return TRUE if a.args[1] in b.args[1] else FALSE
            return pred('substr', I.closed(st, a), b)
        if b.op == 'range' and isinstance(a, T) and b.args[2] is ONE and is_int(a):
            return andd(le(b.args[0], a), lt(a, b.args[1]))
        if b.op not in ('tup',):
            I.event(st, 'in', b, [a], {}, node)
            return pred('in', I.closed(st, a), b)
    parts = None
    b = I.resolve(b, st.pc)
    if isinstance(b, ListRef):
        lv = st.cells[('L', b.id)]
        if lv.mixed and lv.phi is None and all(s.value is not None for s in lv.segs):
            # the order is unknown, the members are not
            parts = I.domains(st, I.new_list(st, lv.segs, lv.kind), node)
    parts = parts if parts is not None else I.domains(st, b, node)
    if parts is None:
        return truth(I.unk('in', node))
    r = FALSE
    for vs, sz, g, e in parts:
        c = equal_values(I, st, a, e, node) if not isinstance(e, ArrRef) else _mk('eqk', *sorted(
            [I.closed(st, a), I.closed(st, e)], key=skey))
        if not vs:
            r = orr(r, andd(g, c))
        else:
            r = orr(r, red('any', lam(vs, sz, TRUE, andd(g, c))))
    return r


# ---------------------------------------------------------------- attributes

LIST_METHODS = {'append', 'extend', 'pop', 'insert', 'remove', 'index', 'count', 'sort', 'reverse', 'clear', 'copy', 'add',
                'update', 'discard', 'union', 'intersection', 'difference', 'issubset', 'issuperset'}


def shape_of(I, st, v):
    a = st.cells[('A', v.id)]
    return Tup([x.length() for x in a.axes])


def value_attr(I, st, o, name, node):
    if isinstance(o, ArrRef):
        if name == 'shape':
            return shape_of(I, st, o)
        a = st.cells[('A', o.id)]
        if name == 'ndim':
            return num(len(a.axes))
        if name == 'size':
            return mul(*[x.length() for x in a.axes])
        if name == 'T':
            return NP['transpose'](I, st, [o], {}, node)
        if name == 'dtype':
            return _mk('fn', 'dtype', (I.closed(st, o),))
        if name == 'flat':
            return NP['ravel'](I, st, [o], {}, node)
        return Method(o, name)
    if isinstance(o, (ListRef, DictRef, Tup, FuncVal, Bound, PyVal, SliceVal)):
        if name == '__name__' and isinstance(o, FuncVal):
            return string(o.name)
        return Method(o, name)
    if isinstance(o, T):
        if I.attr_hook is not None:
            r = I.attr_hook(I, st, o, name, node)
            if r is not None:
                return r
        r = record_part(I, o, name)
        if r is not None:
            return r
        if is_stringish(o):
            return Method(o, name)
        if o.op in ('c', 'poly', 'true', 'false', 'tup', 'range', 'red', 'count', 'len'):
            if name in ('real',):
                return o
            return Method(o, name)
        if o.op == 'fn' and o.args[0] == 'point' and name in ('tolist', 'copy'):
            return Method(o, name)
        if o.op in ('at', 'sym', 'ite') and name in ('astype', 'item', 'tolist', 'copy') and o.op != 'ite':
            return Method(o, name)
        if o is NONE:
            I.raise_event(st, 'AttributeError', node)
            return I.unk('attribute of None', node)
        if o.op == 'ite':
            return I.branch(st, o.args[0], lambda s: I.get_attr(s, o.args[1], name, node),
                            lambda s: I.get_attr(s, o.args[2], name, node))
        if name in I.watch_attrs and o.op == 'obj':
            # a value that changes with the object: each read is an event of its own
            r = I.call_term('.' + name)
            I.event(st, 'attr:' + name, o, [], {}, node, r)
            return r
        if name == 'shape' and o.op == 'sym':
            return _mk('attr', o, name)
        return _mk('attr', o, name)
    return I.unk('attribute ' + name, node)


from .extmodels import BUILTINS, call_ext, call_method, call_opaque_method  # noqa: E402
