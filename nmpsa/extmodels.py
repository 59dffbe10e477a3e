"""Built-in functions, library functions and methods of built-in and external values."""
from .values import *
from .terms import *
from .terms import _mk
from .arrays import (opaque, is_stringish, to_arr, nth, plain_ax, plainify, elementwise, reduce_arr, is_full)
from .npmodels import (NP, note_float, note_intreal, arg, intval, kind_of, stored, shape_axes, cmp_lt, cmp_le, cast, dtype_of, log_base, exp_, sqrt_, axis_of)

BUILTINS = {}
EXT = {}


def bi(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = PyVal(n, f)
        return f
    return d


def ex(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def M():
    from . import models
    return models


# ---------------------------------------------------------------- conversions

@bi('str', 'repr', 'ascii')
def _str(I, st, args, kw, node):
    if not args:
        return string('')
    return M().fmt(I, st, args[0])


@bi('format')
def _format(I, st, args, kw, node):
    return M().fmt(I, st, args[0], args[1] if len(args) > 1 else None)


@bi('int')
def _int(I, st, args, kw, node):
    if not args:
        return ZERO
    v = args[0]
    if isinstance(v, T) and v.op == 'at' and v.args[0] is sym('sys.argv', 'o'):
        # a count given on the command line
        return sym('int(argv[%s])' % cval(v.args[1]), 'in')
    if isinstance(v, T) and (is_stringish(v) or v.op in ('call', 'attr')):
        if v.op == 'k':
            try:
                return num(int(v.args[1]))
            except ValueError:
                I.raise_event(st, 'ValueError', node)
                return I.unk('int', node)
        return _mk('int', v)
    if isinstance(v, ArrRef) or isinstance(v, T) or isinstance(v, Choice):
        note_intreal(I, st, 'int', [v], node)
        return elementwise(I, st, lambda x: toint(ite(x, ONE, ZERO) if is_bool(x) else x), [v], node)
    return I.unk('int', node)


@bi('float')
def _float(I, st, args, kw, node):
    if not args:
        return ZERO
    v = args[0]
    if isinstance(v, T) and v.op == 'k' and v.args[0] == 'str':
        try:
            return num(float(v.args[1]))
        except ValueError:
            I.raise_event(st, 'ValueError', node)
            return I.unk('float', node)
    if isinstance(v, T):
        note_float(I, st, 'float', [v], node)
        if is_stringish(v):
            return fn('float', v)
        return ite(v, ONE, ZERO) if is_bool(v) else v
    if isinstance(v, ArrRef):
        return scalar_of(I, st, v, node)
    return I.unk('float', node)


def scalar_of(I, st, v, node):
    a = st.cells[('A', v.id)]
    if all(plain_ax(x) for x in a.axes):
        return subst(a.body, {x.vars[0]: ZERO for x in a.axes})
    return I.unk('scalar', node)


@bi('bool')
def _bool(I, st, args, kw, node):
    return I.truth(st, args[0]) if args else FALSE


@bi('len')
def _len(I, st, args, kw, node):
    v = I.resolve(args[0], st.pc)
    if isinstance(v, Obj):
        c, f = v.cls.find('__len__')
        if f is not None:
            return I.call_func(st, FuncVal(f, c.mod, (), c, c.name + '.__len__'), [v], {}, node)
    return I.length(st, v)


@bi('range')
def _range(I, st, args, kw, node):
    a = [x if isinstance(x, T) else I.closed(st, x) for x in args]
    a = [ONE if x is TRUE else ZERO if x is FALSE else x for x in a]
    if len(a) == 1:
        return _mk('range', ZERO, a[0], ONE)
    if len(a) == 2:
        return _mk('range', a[0], a[1], ONE)
    return _mk('range', a[0], a[1], a[2])


@bi('list', 'tuple', 'set', 'frozenset')
def _seq(I, st, args, kw, node):
    name = getattr(getattr(node, 'func', None), 'id', 'list')
    kind = 'set' if name in ('set', 'frozenset') else 'list'
    if not args:
        return Tup([]) if name == 'tuple' else I.new_list(st, [], kind)
    v = I.resolve(args[0], st.pc)
    if isinstance(v, Choice):
        return I.map_choice(st, v, lambda x, s: _seq(I, s, [x], kw, node))
    if isinstance(v, T) and v.op not in ('tup', 'range', 'k', 'ite', 'lam'):
        return fn(kind, v)      # a snapshot, told apart from the live iterable
    if isinstance(v, T) and v.op == 'ite' and all(x.op in ('call', 'obj', 'sym', 'at', 'fn') for x in v.args[1:]):
        return ite(v.args[0], fn(kind, v.args[1]), fn(kind, v.args[2]))
    segs = M().seq_segs(I, st, v, node)
    if segs is None:
        return I.unk(name, node)
    if kind == 'set':
        if all(s.unit() and isinstance(s.value, T) and is_const(s.value) for s in segs):
            seen = []
            for s in segs:
                if all(s.value is not x.value for x in seen):
                    seen.append(s)
            return I.new_list(st, seen, 'set')
        return I.new_list(st, segs, 'set', mixed=len(segs) > 0)
    if name == 'tuple' and all(s.unit() for s in segs):
        return Tup([s.value for s in segs])
    return I.new_list(st, segs)


@bi('dict')
def _dict(I, st, args, kw, node):
    items = []
    if args:
        v = I.resolve(args[0], st.pc)
        if isinstance(v, DictRef):
            items = list(st.cells[('D', v.id)].items)
            if st.cells[('D', v.id)].phi is not None:
                return I.unk('dict', node)
        else:
            its = I.static_items(st, v)
            if its is None:
                return I.unk('dict', node)
            for it in its:
                p = I.static_items(st, it)
                if p is None or len(p) != 2:
                    return I.unk('dict', node)
                items.append((I.closed(st, p[0]), p[1], TRUE))
    if '**' in kw:
        return I.unk('dict', node)
    r = I.new_dict(st, items)
    for k, v in kw.items():
        M().set_plain(I, st, r, string(k), v)
    return r


# ---------------------------------------------------------------- sequences

def seq_arrays(I, st, args, node):
    """sequences as (lengths, element functions j -> value)"""
    out = []
    for a in args:
        a = I.resolve(a, st.pc)
        parts = I.domains(st, a, node)
        if parts is None:
            return None
        out.append(parts)
    return out


@bi('zip')
def _zip(I, st, args, kw, node):
    ps = seq_arrays(I, st, args, node)
    if ps is None:
        return I.unk('zip', node)
    if not ps:
        return I.new_list(st, [])
    # all made of single elements
    if all(all(not vs and g is TRUE for vs, sz, g, e in p) for p in ps):
        n = min(len(p) for p in ps)
        return I.list_of(st, [Tup([p[i][3] for p in ps]) for i in range(n)])
    if all(len(p) == 1 and p[0][0] for p in ps):
        vs, sz, g, e = ps[0][0]
        ax = Ax(vs, sz, g)
        elems = [e]
        ok = True
        for p in ps[1:]:
            m = {}
            if not I.unify(ax, Ax(*p[0][:3]), m):
                ok = False
                break
            elems.append(I.vsubst(st, p[0][3], m))
        if ok:
            return I.new_list(st, [Seg(vs, sz, g, Tup(elems))])
    # by position
    lens, fs = [], []
    for a in args:
        a = I.resolve(a, st.pc)
        lens.append(I.length(st, a))
        fs.append(a)
    if any(x.op == 'unk' for x in lens):
        return I.unk('zip', node)
    n = lens[0]
    for x in lens[1:]:
        if x is not n:
            n = min2(n, x)
    v = fresh_var()
    els = [item_at(I, st, a, v, node) for a in fs]
    return I.new_list(st, [Seg((v,), (n,), TRUE, Tup(els))])


def item_at(I, st, a, j, node):
    if isinstance(a, ListRef):
        return M().list_item(I, st, a, j, node)
    if isinstance(a, T) and a.op == 'range':
        return add(a.args[0], mul(a.args[2], j))
    if isinstance(a, T) and a.op in ('sym', 'at', 'call', 'attr'):
        return at(a, j)
    return M().get_item(I, st, a, [j], node)


@bi('enumerate')
def _enumerate(I, st, args, kw, node):
    start = arg(args, kw, 1, 'start', ZERO)
    parts = I.domains(st, args[0], node)
    if parts is None:
        return I.unk('enumerate', node)
    segs = []
    off = start
    for vs, sz, g, e in parts:
        if not vs:
            segs.append(Seg((), (), g, Tup([off, e])))
            off = add(off, ite(g, ONE, ZERO))
        elif len(vs) == 1 and g is TRUE:
            segs.append(Seg(vs, sz, g, Tup([add(off, vs[0]), e])))
            off = add(off, sz[0])
        else:
            l = lam(vs, sz, g, TRUE)
            segs.append(Seg(vs, sz, g, Tup([add(off, _mk('rank', l, *vs)), e])))
            off = add(off, count(l))
    return I.new_list(st, segs)


@bi('reversed')
def _reversed(I, st, args, kw, node):
    v = I.resolve(args[0], st.pc)
    if isinstance(v, T) and v.op == 'range' and v.args[2] is ONE:
        lo, hi, _ = v.args
        return _mk('range', sub(hi, ONE), sub(lo, ONE), num(-1))
    parts = I.domains(st, v, node)
    if parts is None:
        return I.unk('reversed', node)
    segs = []
    for vs, sz, g, e in reversed(parts):
        if not vs:
            segs.append(Seg((), (), g, e))
        elif len(vs) == 1:
            x = fresh_var()
            m = {vs[0]: sub(sub(sz[0], ONE), x)}
            segs.append(Seg((x,), sz, subst(g, m), I.vsubst(st, e, m)))
        else:
            return I.unk('reversed', node)
    return I.new_list(st, segs)


@bi('sorted')
def _sorted(I, st, args, kw, node):
    v = I.resolve(args[0], st.pc)
    I.event(st, 'sorted', None, args, kw, node)
    its = I.static_items(st, v)
    if its is not None and not kw and all(isinstance(x, T) and x.op == 'k' and x.args[0] == 'str' for x in its):
        return I.list_of(st, sorted(its, key=lambda x: x.args[1]))
    if its is not None and not kw and (len(its) < 2 or all(isinstance(x, T) and cval(x) is not None for x in its)):
        return I.list_of(st, sorted(its, key=cval) if len(its) > 1 else its)
    if its is not None and len(its) == 2 and not kw and all(isinstance(x, T) for x in its):
        a, b = its
        if not (is_stringish(a) or is_stringish(b)):
            return I.list_of(st, [min2(a, b), max2(a, b)])
    return fn('sorted', I.closed(st, v), *[_mk('tup', string(k), I.closed(st, x)) for k, x in sorted(kw.items())])


@bi('map')
def _map(I, st, args, kw, node):
    out = I.new_list(st, [])
    if len(args) != 2:
        its = _zip(I, st, args[1:], {}, node)
        f = args[0]
        cb = lambda s, e: I.call(s, f, list(e.items), {}, node)
    else:
        its = args[1]
        f = args[0]
        cb = lambda s, e: I.call(s, f, [e], {}, node)
    cell = {}

    def bind(s, e):
        cell['e'] = e

    def body(s):
        M().list_append(I, s, out, cb(s, cell['e']))
        return []
    I.for_loop(st, I.cur_frame, its, bind, body, None, node)
    return out


@bi('filter')
def _filter(I, st, args, kw, node):
    out = I.new_list(st, [])
    f = args[0]
    cell = {}

    def body(s):
        e = cell['e']
        c = I.truth(s, e if f is NONE else I.call(s, f, [e], {}, node))
        c = I.decide(c, s.pc)
        if c is FALSE:
            return []
        if c is TRUE:
            M().list_append(I, s, out, e)
            return []
        a, b = s.copy(), s.copy()
        a.pc, b.pc = andd(s.pc, c), andd(s.pc, nott(c))
        M().list_append(I, a, out, e)
        s.take(I.join(c, a, b))
        return []
    I.for_loop(st, I.cur_frame, args[1], lambda s, e: cell.__setitem__('e', e), body, None, node)
    return out


def fold_parts(I, st, op, v, node, f=lambda x: x):
    parts = I.domains(st, v, node)
    if parts is None:
        return None
    unit = {'+': ZERO, 'any': FALSE, 'all': TRUE}.get(op)
    rs = []
    for vs, sz, g, e in parts:
        e = I.resolve(e, st.pc)
        t = I.truth(st, e) if op in ('any', 'all') else e
        if not isinstance(t, T):
            return None
        t = f(t)
        if not vs:
            rs.append((g, t))
        else:
            l = lam(vs, sz, g, t)
            rs.append((TRUE, red(op, l)))
    if op == '+':
        return add(ZERO, *[ite(g, t, ZERO) for g, t in rs])
    if op == 'any':
        return orr(*[andd(g, t) for g, t in rs])
    if op == 'all':
        return andd(*[orr(nott(g), t) for g, t in rs])
    if any(g is not TRUE for g, t in rs) or not rs:
        return None
    ts = [t for g, t in rs]
    if len(ts) == 1:
        return ts[0]
    return min2(*ts) if op == 'min' else max2(*ts)


@bi('sum')
def _sum(I, st, args, kw, node):
    v = I.resolve(args[0], st.pc)
    start = arg(args, kw, 1, 'start', ZERO)
    a = None
    if isinstance(v, ArrRef):
        return elementwise(I, st, add, [reduce_arr(I, st, '+', v, 0, node), start], node)
    r = fold_parts(I, st, '+', v, node)
    if r is None or not isinstance(start, T):
        a = to_arr(I, st, v, node)
        if isinstance(a, Arr):
            return reduce_arr(I, st, '+', v, 0, node)
        return I.unk('sum', node)
    return add(r, start)


@bi('any')
def _any(I, st, args, kw, node):
    r = fold_parts(I, st, 'any', I.resolve(args[0], st.pc), node)
    return r if r is not None else truth(I.unk('any', node))


@bi('all')
def _all(I, st, args, kw, node):
    r = fold_parts(I, st, 'all', I.resolve(args[0], st.pc), node)
    return r if r is not None else truth(I.unk('all', node))


def _minmax_bi(op):
    def g(I, st, args, kw, node):
        if 'key' in kw:
            return fn(op + '-by', *[I.closed(st, a) for a in args])
        if len(args) == 1:
            v = I.resolve(args[0], st.pc)
            if isinstance(v, ArrRef):
                return reduce_arr(I, st, op, v, 0, node)
            r = fold_parts(I, st, op, v, node)
            if r is None:
                return I.unk(op, node)
            return r
        if all(isinstance(a, T) for a in args):
            return (min2 if op == 'min' else max2)(*args)
        return I.unk(op, node)
    return g


BUILTINS['min'] = PyVal('min', _minmax_bi('min'))
BUILTINS['max'] = PyVal('max', _minmax_bi('max'))


@bi('abs')
def _abs(I, st, args, kw, node):
    return elementwise(I, st, absv, [args[0]], node)


@bi('pow')
def _pow(I, st, args, kw, node):
    return elementwise(I, st, power, args[:2], node)


@bi('divmod')
def _divmod(I, st, args, kw, node):
    return Tup([floor(div(args[0], args[1])), mod(args[0], args[1])])


@bi('round')
def _round(I, st, args, kw, node):
    if len(args) > 1 and args[1] is not NONE:
        return elementwise(I, st, lambda x, n: fn('round', x, n), args[:2], node)
    return elementwise(I, st, lambda x: x if is_int(x) else _mk('round', x), [args[0]], node)


# ---------------------------------------------------------------- objects

@bi('isinstance')
def _isinstance(I, st, args, kw, node):
    h = I.contract_funcs.get('isinstance')
    if h is not None:
        r = h(I, st, args, kw, node)
        if r is not None:
            return r
    v, c = I.resolve(args[0], st.pc), args[1]
    if isinstance(c, Tup):
        return orr(*[_isinstance(I, st, [v, x], kw, node) for x in c.items])
    if isinstance(v, Choice):
        return ite(v.cond, _isinstance(I, st, [v.a, c], kw, node), _isinstance(I, st, [v.b, c], kw, node))
    if isinstance(v, Obj):
        if isinstance(c, ClassVal):
            return TRUE if any(x is c or (x.name == c.name and x.mod is c.mod) for x in v.cls.mro()) else FALSE
        return TRUE if isinstance(c, Ext) and c.name in v.cls.ext_bases() else FALSE
    name = c.name if isinstance(c, (Ext, PyVal, ClassVal)) else None
    if isinstance(v, ListRef):
        k = st.cells[('L', v.id)].kind
        return TRUE if name == k else FALSE
    if isinstance(v, Tup):
        return TRUE if name == 'tuple' else FALSE
    if isinstance(v, DictRef):
        return TRUE if name == 'dict' else FALSE
    if isinstance(v, ArrRef):
        return TRUE if name == 'numpy.ndarray' else FALSE
    if isinstance(v, T):
        if v is NONE:
            return FALSE
        if is_stringish(v):
            return TRUE if name == 'str' else FALSE
        if v.op == 'k' and v.args[0] == 'str':
            return TRUE if name == 'str' else FALSE
        if name in ('list', 'tuple', 'dict', 'numpy.ndarray', 'str') and (v.op in ('c', 'poly', 'true', 'false', 'count', 'len')):
            return FALSE
        if v.op == 'obj':
            info = I.obj_info(v)
            if info is not None and name is not None and info[0] == name:
                return TRUE
            if info is not None and info[0] == 'numpy.random.default_rng':
                return TRUE if name == 'numpy.random.Generator' else FALSE
        return _mk('isinst', v, string(str(name)))
    return FALSE


@bi('issubclass')
def _issubclass(I, st, args, kw, node):
    a, b = args
    if isinstance(a, ClassVal) and isinstance(b, ClassVal):
        return TRUE if any(x.name == b.name and x.mod is b.mod for x in a.mro()) else FALSE
    return pred('issubclass', I.closed(st, a), I.closed(st, b))


@bi('callable')
def _callable(I, st, args, kw, node):
    v = args[0]
    if isinstance(v, (FuncVal, Bound, PyVal, ClassVal, Ext, Method)):
        return TRUE
    return FALSE if not isinstance(v, T) else pred('callable', v)


@bi('hasattr')
def _hasattr(I, st, args, kw, node):
    o, n = args
    if isinstance(n, T) and n.op == 'k':
        if isinstance(o, Obj):
            if ('f', o.id, n.args[1]) in st.cells or o.cls.find(n.args[1])[1] is not None:
                return TRUE
            return FALSE
        if isinstance(o, (Ext,)):
            return pred('hasattr', string(o.name), n)
    return pred('hasattr', I.closed(st, o), I.closed(st, n))


@bi('getattr')
def _getattr(I, st, args, kw, node):
    o, n = args[0], args[1]
    if isinstance(n, T) and n.op == 'k' and n.args[0] == 'str':
        if isinstance(o, Obj) and len(args) > 2 and ('f', o.id, n.args[1]) not in st.cells and \
                o.cls.find(n.args[1])[1] is None:
            return args[2]
        return I.get_attr(st, o, n.args[1], node)
    return I.unk('getattr', node)


@bi('setattr')
def _setattr(I, st, args, kw, node):
    n = args[1]
    if isinstance(n, T) and n.op == 'k' and n.args[0] == 'str':
        I.set_attr(st, args[0], n.args[1], args[2], node)
        return NONE
    I.unk('setattr', node)
    return NONE


@bi('type')
def _type(I, st, args, kw, node):
    v = I.resolve(args[0], st.pc)
    if isinstance(v, Obj):
        return v.cls
    return fn('type', I.closed(st, v))


@bi('id', 'hash', 'ord', 'chr', 'bin', 'hex')
def _pure1(I, st, args, kw, node):
    return fn(getattr(getattr(node, 'func', None), 'id', '?'), *[I.closed(st, a) for a in args])


@bi('iter')
def _iter(I, st, args, kw, node):
    return args[0]


def file_line(I, st, f):
    pos = st.cells.get(('f', f, '@pos'), ZERO)
    st.cells[('f', f, '@pos')] = add(pos, ONE)
    return at(fn('lines', f), pos)


def text_method(I, st, base, name, args, kw, node):
    """reading text by lines and blank-separated tokens"""
    if not isinstance(base, T) or kw:
        return None
    if base.op == 'obj' and base.args[0] == 'file' and not args:
        pos = st.cells.get(('f', base, '@pos'), ZERO)
        if name == 'readlines':
            st.cells[('f', base, '@pos')] = I.unk('end of file')
            I.event(st, '.readlines', base, args, kw, node)
            t = fn('lines', base)
            return t if pos is ZERO else M().get_item(I, st, t, [SliceVal(pos, NONE, NONE)], node)
        if name == 'readline':
            return file_line(I, st, base)
        if name == 'read' and pos is ZERO:
            return fn('text', base)
    if base.op == 'fn' and base.args[0] == 'text' and name == 'splitlines' and not args:
        return fn('lines', base.args[1][0])
    if base.op == 'at' and base.args[0].op == 'fn' and base.args[0].args[0] == 'lines' or base.op == 'fn' and base.args[0] == 'stripped':
        src = base.args[1][0] if base.op == 'fn' else base
        if name in ('strip', 'rstrip') and (not args or args[0] is string('\n')):
            return fn('stripped', src)
        if name == 'split' and (not args or args[0] is NONE):
            return fn('tokens', src)
    return None


@bi('next')
def _next(I, st, args, kw, node):
    v = I.resolve(args[0], st.pc)
    if isinstance(v, T) and v.op == 'obj' and v.args[0] == 'file':
        return file_line(I, st, v)
    if isinstance(v, ListRef) and getattr(I, 'one_shot', False):
        return get_item_of(I, st, v, ZERO, node)
    r = I.call_term('counter' if isinstance(v, T) and v.op == 'range' else 'next')
    I.event(st, 'next', v, args[1:], kw, node, r)
    return r


@bi('print')
def _print(I, st, args, kw, node):
    I.event(st, 'print', None, args, kw, node)
    return NONE


@bi('slice')
def _slice(I, st, args, kw, node):
    a = list(args)
    if len(a) == 1:
        return SliceVal(NONE, a[0], NONE)
    return SliceVal(a[0], a[1], a[2] if len(a) > 2 else NONE)


@bi('open')
def _open(I, st, args, kw, node):
    r = I.new_obj('file', args, kw, node, st)
    I.event(st, 'open', None, args, kw, node, r)
    return r


@bi('input', 'eval', 'exec', 'globals', 'locals', 'vars', 'dir', '__import__', 'delattr', 'bytes', 'complex')
def _misc(I, st, args, kw, node):
    name = getattr(getattr(node, 'func', None), 'id', '?')
    r = I.call_term(name)
    I.event(st, name, None, args, kw, node, r)
    return r


@bi('property', 'staticmethod', 'classmethod')
def _deco(I, st, args, kw, node):
    return args[0]


for _n in ('Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'NotImplementedError',
           'AssertionError', 'ImportError', 'ModuleNotFoundError', 'AttributeError', 'StopIteration', 'KeyboardInterrupt',
           'OSError', 'IOError', 'FileNotFoundError', 'FileExistsError', 'ZeroDivisionError', 'OverflowError',
           'BaseException', 'object', 'Warning', 'UserWarning', 'DeprecationWarning', 'ArithmeticError', 'MemoryError',
           'RecursionError', 'SystemExit', 'PermissionError', 'NameError', 'UnicodeDecodeError', 'LookupError', 'EOFError',
           'TimeoutError', 'FloatingPointError'):
    BUILTINS[_n] = Ext(_n)
BUILTINS['__debug__'] = TRUE
BUILTINS['NotImplemented'] = Ext('NotImplemented')
BUILTINS['Ellipsis'] = _mk('k', 'ellipsis', '...')


# ---------------------------------------------------------------- library functions

PURE = ('numpy.', 'math.', 'shapely', 'scipy.', 'os.path.', 'itertools.', 'functools.', 'operator.', 'sympy.', 'triangle.',
        'textwrap.', 're.', 'string.', 'pathlib.', 'copy.', 'statistics.', 'collections.', 'networkx.', 'fractions.', 'typing.')


def _math(f):
    return lambda I, st, args, kw, node: elementwise(I, st, f, args, node)


for _n in ('ceil', 'floor', 'sqrt', 'exp', 'log2', 'log10', 'sin', 'cos', 'tan', 'pow', 'hypot', 'isnan', 'isinf', 'radians',
           'degrees', 'atan2', 'asin', 'acos', 'atan'):
    if _n in NP:
        EXT['math.' + _n] = NP[_n]


@ex('math.log')
def _mlog(I, st, args, kw, node):
    if len(args) == 2:
        return elementwise(I, st, lambda x, b: div(log(x), log(b)), args, node)
    return elementwise(I, st, log, args, node)


EXT['math.log2'] = _math(log_base(2)) if callable(log_base(2)) else None
EXT['math.log10'] = _math(log_base(10))
def _rounding(name, f):
    def g(I, st, args, kw, node):
        note_intreal(I, st, name, args, node)
        return elementwise(I, st, f, args, node)
    return g


EXT['math.ceil'] = _rounding('math.ceil', ceil)
EXT['math.floor'] = _rounding('math.floor', floor)
EXT['math.sqrt'] = _math(sqrt_)
EXT['math.exp'] = _math(exp_)
EXT['math.pow'] = _math(power)
EXT['math.trunc'] = _math(toint)


def _exit(name):
    def f(I, st, args, kw, node):
        I.event(st, name, None, args, kw, node)
        I.raise_event(st, 'SystemExit', node)
        st.dead = True
        return NONE
    return f


bi('exit', 'quit')(_exit('sys.exit'))
for _n in ('sys.exit', 'os._exit'):
    EXT[_n] = _exit(_n)
EXT['builtins.abs'] = _math(absv)


@ex('math.comb')
def _mcomb(I, st, args, kw, node):
    return _mk('comb', args[0], args[1])


@ex('math.factorial')
def _fact(I, st, args, kw, node):
    return fn('factorial', args[0])


@ex('math.isclose')
def _isclose(I, st, args, kw, node):
    return pred('isclose', *[I.closed(st, a) for a in args], *[I.closed(st, kw[k]) for k in sorted(kw)])


@ex('math.prod')
def _mprod(I, st, args, kw, node):
    return NP['prod'](I, st, args, kw, node)


@ex('math.fsum')
def _fsum(I, st, args, kw, node):
    return NP['sum'](I, st, args, kw, node)


@ex('numpy.dist')
def _dist(I, st, args, kw, node):
    d = elementwise(I, st, sub, args[:2], node)
    return NP['linalg.norm'](I, st, [d], {}, node)


@ex('scipy.special.gamma')
def _gamma(I, st, args, kw, node):
    return elementwise(I, st, gamma_, args, node)


def gamma_(x):
    return fn('gamma', x)


@ex('scipy.special.gammaln', 'scipy.special.loggamma', 'math.lgamma')
def _gammaln(I, st, args, kw, node):
    return elementwise(I, st, lambda x: log(gamma_(x)), args, node)


@ex('scipy.special.comb')
def _comb(I, st, args, kw, node):
    exact = arg(args, kw, 2, 'exact', FALSE)
    if exact is TRUE:
        return _mk('comb', args[0], args[1])
    I.event(st, 'float-conversion', None, [], {'by': string('comb without exact=True')}, node)
    return elementwise(I, st, lambda n, k: fn('comb_float', n, k), args[:2], node)


@ex('scipy.stats.entropy')
def _entropy(I, st, args, kw, node):
    return fn('entropy', *[I.closed(st, a) for a in args], *[_mk('tup', string(k), I.closed(st, kw[k])) for k in sorted(kw)])


@ex('scipy.spatial.distance.cdist')
def _cdist(I, st, args, kw, node):
    m = arg(args, kw, 2, 'metric', string('euclidean'))
    if set(kw) - {'metric'} or not (m.op == 'k' and m.args[1] == 'euclidean'):
        return opaque(I, st, 'cdist', list(args) + [kw[k] for k in sorted(kw)])
    from .values import SliceVal
    a = M().get_item(I, st, args[0], [SliceVal(NONE, NONE, NONE), NONE], node)
    b = M().get_item(I, st, args[1], [NONE], node)
    d = elementwise(I, st, sub, [a, b], node)
    return NP['linalg.norm'](I, st, [d], {'axis': num(2)}, node)


@ex('uuid.uuid4', 'uuid.uuid1')
def _uuid(I, st, args, kw, node):
    r = I.call_term('uuid')
    I.event(st, 'uuid', None, args, kw, node, r)
    return r


@ex('os.path.join')
def _pjoin(I, st, args, kw, node):
    return M().path_join(I, st, args)


@ex('pathlib.Path', 'pathlib.PurePath')
def _path(I, st, args, kw, node):
    t = M().path_join(I, st, args)
    return fn('Path', *t.args[1])


@ex('os.path.exists', 'os.path.isfile', 'os.path.lexists')
def _exists(I, st, args, kw, node):
    p = I.closed(st, args[0])
    I.event(st, 'os.path.exists', None, args, kw, node)
    return pred('exists', p)


@ex('os.path.realpath', 'os.path.abspath', 'os.path.normpath', 'os.path.dirname', 'os.path.basename', 'os.path.expanduser',
    'os.fspath', 'os.path.splitext')
def _pathfn(I, st, args, kw, node):
    return fn('path.op', string(ast_tail(node)), *[I.closed(st, a) for a in args])


def ast_tail(node):
    f = getattr(node, 'func', None)
    return getattr(f, 'attr', getattr(f, 'id', '?'))


@ex('os.getpid', 'os.getppid', 'threading.get_ident', 'socket.gethostname', 'os.getlogin', 'os.getuid')
def _process_name(I, st, args, kw, node):
    return fn('process', string(ast_tail(node)))


@ex('os.remove', 'os.unlink')
def _remove(I, st, args, kw, node):
    I.event(st, 'os.remove', None, args, kw, node)
    return NONE


@ex('copy.copy', 'copy.deepcopy')
def _copy(I, st, args, kw, node):
    v = I.resolve(args[0], st.pc)
    if isinstance(v, ArrRef):
        a = st.cells[('A', v.id)]
        return I.new_arr(st, a.axes, a.body)
    if isinstance(v, ListRef):
        l = st.cells[('L', v.id)]
        i = fresh_id()
        st.cells[('L', i)] = l
        return ListRef(i)
    if isinstance(v, DictRef):
        i = fresh_id()
        st.cells[('D', i)] = st.cells[('D', v.id)]
        return DictRef(i)
    return v


@ex('itertools.product')
def _product(I, st, args, kw, node):
    rep = kw.get('repeat', ONE)
    c = intval(rep)
    if c is None:
        return fn('product', *[I.closed(st, a) for a in args], I.closed(st, rep))
    seqs = list(args) * c
    parts = []
    for a in seqs:
        p = I.domains(st, a, node)
        if p is None:
            return I.unk('product', node)
        parts.append(p)
    segs = []

    def rec(i, vs, sz, g, es):
        if i == len(parts):
            segs.append(Seg(vs, sz, g, Tup(es)))
            return
        for v2, s2, g2, e2 in parts[i]:
            m = {v: fresh_var() for v in v2}
            rec(i + 1, vs + tuple(m.values()), sz + tuple(subst(x, m) for x in s2), andd(g, subst(g2, m)),
                es + [I.vsubst(st, e2, m)])
    # row-major order over segments needs every part but the first to be one domain or units
    if all(len(p) == 1 or all(not x[0] for x in p) for p in parts):
        rec(0, (), (), TRUE, [])
        return I.new_list(st, segs)
    return I.unk('product', node)


@ex('itertools.chain')
def _chain(I, st, args, kw, node):
    r = I.new_list(st, [])
    for a in args:
        M().list_extend(I, st, r, a, node)
    return r


@ex('itertools.combinations')
def _combinations(I, st, args, kw, node):
    k = intval(args[1])
    its = I.static_items(st, args[0])
    if its is not None and k is not None:
        import itertools
        return I.list_of(st, [Tup(x) for x in itertools.combinations(its, k)])
    if k == 2:
        a = args[0]
        n = I.length(st, a)
        i, j = fresh_var(), fresh_var()
        return I.new_list(st, [Seg((i, j), (n, n), lt(i, j), Tup([item_at(I, st, a, i, node), item_at(I, st, a, j, node)]))])
    return I.unk('combinations', node)


@ex('itertools.count')
def _count(I, st, args, kw, node):
    return _mk('range', args[0] if args else ZERO, INF, ONE)


@ex('functools.partial')
def _partial(I, st, args, kw, node):
    f, pre, pkw = args[0], list(args[1:]), dict(kw)

    def g(I2, s, a, k, nd):
        kk = dict(pkw)
        kk.update(k)
        return I2.call(s, f, pre + list(a), kk, nd)
    return PyVal('partial', g)


@ex('functools.reduce')
def _reduce(I, st, args, kw, node):
    its = I.static_items(st, args[1])
    if its is None:
        return I.unk('reduce', node)
    its = list(its)
    acc = args[2] if len(args) > 2 else its.pop(0)
    for x in its:
        acc = I.call(st, args[0], [acc, x], {}, node)
    return acc


@ex('json.load', 'json.loads')
def _jload(I, st, args, kw, node):
    r = I.call_term('json.load')
    I.event(st, 'json.load', None, args, kw, node, r)
    return r


@ex('numpy.random.default_rng')
def _rng(I, st, args, kw, node):
    r = I.new_obj('numpy.random.default_rng', args, kw, node, st)
    I.event(st, 'numpy.random.default_rng', None, args, kw, node, r)
    return r


@ex('abc.abstractmethod', 'functools.lru_cache', 'functools.wraps', 'numba.njit', 'numba.jit')
def _decor(I, st, args, kw, node):
    return args[0] if args else PyVal('decorator', lambda I2, s, a, k, n: a[0])


@ex('collections.namedtuple')
def _namedtuple(I, st, args, kw, node):
    r = fn('namedtuple', *[I.closed(st, a) for a in args])
    return PyVal('namedtuple', lambda I2, s, a, k, nd: fn('record', r, *[I2.closed(s, x) for x in a],
                                                         *[_mk('tup', string(q), I2.closed(s, k[q])) for q in sorted(k)]))


@ex('collections.defaultdict', 'collections.OrderedDict')
def _ddict(I, st, args, kw, node):
    if ast_tail(node) == 'OrderedDict' and not args and not kw:
        return I.new_dict(st, ())
    return I.new_obj('collections.' + ast_tail(node), args, kw, node, st)


CTORS = {'networkit.readGraph': 'networkit.Graph', 'networkit.graphio.readGraph': 'networkit.Graph'}


def call_ext(I, st, dotted, args, kw, node):
    cf = I.contract_funcs.get(dotted)
    if cf is not None:
        return cf(I, st, args, kw, node)
    f = EXT.get(dotted)
    if f is not None:
        return f(I, st, args, kw, node)
    if dotted.startswith('numpy.'):
        f = NP.get(dotted[6:])
        if f is not None:
            return f(I, st, args, kw, node)
        if dotted.startswith('numpy.random.'):
            r = I.call_term(dotted)
            I.event(st, dotted, None, args, kw, node, r)
            return r
        I.unknowns.append(('numpy function ' + dotted, getattr(node, 'lineno', None), I.call_stack[-1] if I.call_stack else None))
        return opaque(I, st, dotted + ':' + ','.join(sorted(kw)), list(args) + [kw[k] for k in sorted(kw)])
    if dotted.startswith('math.'):
        return opaque(I, st, dotted, args)
    last = dotted.rsplit('.', 1)[-1]
    if dotted in CTORS or last[:1].isupper():
        r = I.new_obj(CTORS.get(dotted, dotted), args, kw, node, st)
        I.event(st, dotted, None, args, kw, node, r)
        return r
    if dotted.startswith(PURE):
        I.event(st, dotted, None, args, kw, node)
        return opaque(I, st, dotted + ':' + ','.join(sorted(kw)), list(args) + [kw[k] for k in sorted(kw)])
    r = I.call_term(dotted)
    I.event(st, dotted, None, args, kw, node, r)
    return r


# ---------------------------------------------------------------- methods

STR_PURE = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'replace', 'startswith', 'endswith', 'zfill',
            'title', 'find', 'count', 'splitlines', 'capitalize', 'isdigit', 'encode', 'index', 'ljust', 'rjust'}
ARR_ALIAS = {'flatten': 'ravel', 'conjugate': 'array', 'copy': 'array', 'dot': 'dot'}


def call_method(I, st, recv, name, args, kw, node):
    r = I.resolve(recv, st.pc)
    if isinstance(r, Choice):
        return I.map_choice(st, r, lambda x, s: call_method(I, s, x, name, args, kw, node))
    if isinstance(r, ArrRef):
        return arr_method(I, st, r, name, args, kw, node)
    if isinstance(r, ListRef):
        return list_method(I, st, r, name, args, kw, node)
    if isinstance(r, DictRef):
        return dict_method(I, st, r, name, args, kw, node)
    if isinstance(r, Tup):
        if name == 'index' and len(args) == 1:
            for i, x in enumerate(r.items):
                if I.same(x, args[0]):
                    return num(i)
        if name == 'count':
            return fn('count', I.closed(st, r), I.closed(st, args[0]))
        return I.unk('tuple method', node)
    if isinstance(r, PyVal) and r.name == 'dict' and name == 'fromkeys':
        its = I.static_items(st, args[0])
        if its is not None:
            return I.new_dict(st, [(I.closed(st, k), args[1] if len(args) > 1 else NONE, TRUE) for k in its])
    if isinstance(r, T):
        return scalar_method(I, st, r, name, args, kw, node)
    return I.unk('method ' + name, node)


def scalar_method(I, st, r, name, args, kw, node):
    if is_stringish(r):
        if name == 'format':
            return str_format(I, st, r, args, kw)
        if name == 'join':
            its = I.static_items(st, args[0])
            if its is not None:
                out = []
                for i, x in enumerate(its):
                    if i:
                        out.append(r)
                    out.append(I.closed(st, x))
                return M().cat(*out)
            return fn('strop', string('join'), r, I.closed(st, args[0]))
        if r.op == 'k' and all(isinstance(a, T) and (a.op == 'k' and a.args[0] == 'str' or a.op == 'c' or a is NONE)
                               for a in args) and name in STR_PURE and not kw:
            pa = [a.args[1] if a.op == 'k' and a is not NONE else (None if a is NONE else int(a.args[0])) for a in args]
            try:
                v = getattr(r.args[1], name)(*pa)
            except Exception:
                return I.unk('string method', node)
            if isinstance(v, str):
                return string(v)
            if isinstance(v, bool):
                return TRUE if v else FALSE
            if isinstance(v, int):
                return num(v)
            if isinstance(v, list):
                return I.list_of(st, [string(x) for x in v])
        if name in ('startswith', 'endswith', 'isdigit'):
            return pred('str.' + name, r, *[I.closed(st, a) for a in args])
        return fn('strop', string(name), r, *[I.closed(st, a) for a in args])
    if name in ('item', 'tolist', 'copy', 'conjugate') and not args:
        return r
    if name == 'astype':
        dt = dtype_of(I, st, arg(args, kw, 0, 'dtype'))
        kd = kind_of(I, st, arg(args, kw, 0, 'dtype'))
        if kd in ('float32', 'float16'):
            stored(I, st, r, kd, node)
        return cast(r, dt) if dt != '?' else r
    if r.op in ('c', 'poly', 'true', 'false', 'red', 'count', 'len') or is_bool(r):
        if name in NP:
            return NP[name](I, st, [r] + list(args), kw, node)
    return call_opaque_method(I, st, r, name, args, kw, node)


def str_format(I, st, r, args, kw):
    if r.op != 'k' or '**' in kw:
        return fn('strop', string('format'), r, *[I.closed(st, a) for a in args])
    import string as _s
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in _s.Formatter().parse(r.args[1]):
            parts.append(string(lit))
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return fn('strop', string('format'), r, *[I.closed(st, a) for a in args])
            parts.append(M().fmt(I, st, v, spec or None))
    except (ValueError, IndexError):
        return I.unk('format')
    return M().cat(*parts)


def arr_method(I, st, r, name, args, kw, node):
    if name == 'item':
        if args:
            return M().get_item(I, st, r, args, node)
        return scalar_of(I, st, r, node)
    if name == 'astype':
        dt = dtype_of(I, st, arg(args, kw, 0, 'dtype'))
        a = st.cells[('A', r.id)]
        note_float(I, st, 'astype', [a.body], node)
        kd = kind_of(I, st, arg(args, kw, 0, 'dtype'))
        if kd in ('float32', 'float16'):
            stored(I, st, a, kd, node)
        return I.typed(I.new_arr(st, a.axes, cast(a.body, dt) if dt != '?' else a.body), kd)
    if name == 'copy':
        a = st.cells[('A', r.id)]
        return I.typed(I.new_arr(st, a.axes, a.body), I.kinds.get(r.id))
    if name == 'tolist':
        return tolist(I, st, I.arr(st, r))
    if name == 'fill':
        a = st.cells[('A', r.id)]
        st.cells[('A', r.id)] = Arr(a.axes, args[0])
        return NONE
    if name == 'sort':
        a = st.cells[('A', r.id)]
        t = fn('sorted', a.closed())
        st.cells[('A', r.id)] = Arr(a.axes, at(t, *[x.vars[0] for x in a.axes]))
        return NONE
    if name == 'reshape':
        if len(args) != 1 or not isinstance(args[0], (Tup, ListRef)):
            if not (len(args) == 1 and isinstance(args[0], T) and args[0].op == 'tup'):
                args = [Tup(args)]
        return NP['reshape'](I, st, [r] + args, kw, node)
    if name == 'transpose':
        if len(args) > 1:
            args = [Tup(args)]
        return NP['transpose'](I, st, [r] + list(args), kw, node)
    f = NP.get(ARR_ALIAS.get(name, name))
    if f is not None:
        return f(I, st, [r] + list(args), kw, node)
    return opaque(I, st, '.' + name, [r] + list(args))


def tolist(I, st, a):
    ax = a.axes[0]
    rest = Arr(a.axes[1:], a.body)
    return I.new_list(st, [Seg(ax.vars, ax.sizes, ax.guard, tolist(I, st, rest) if rest.axes else rest.body)])


def get_item_of(I, st, r, i, node):
    from . import models
    return models.get_item(I, st, r, [i], node)


def list_method(I, st, l, name, args, kw, node):
    if name == '__next__' and not args:          # lists are not iterators: only a rule's own one-shot iterators come here
        return get_item_of(I, st, l, ZERO, node)
    if name == '__iter__' and not args:
        return l
    lv = st.cells[('L', l.id)]
    if name in ('append', 'appendleft'):
        if name == 'append':
            M().list_append(I, st, l, args[0])
        else:
            st.cells[('L', l.id)] = ListVal((Seg((), (), TRUE, args[0]),) + lv.segs, lv.phi, lv.mixed or lv.phi is not None, lv.kind)
        return NONE
    if name == 'extend':
        M().list_extend(I, st, l, args[0], node)
        return NONE
    if name == 'add':
        if lv.kind == 'set':
            st.cells[('L', l.id)] = ListVal(lv.segs + (Seg((), (), TRUE, args[0]),), lv.phi, True, lv.kind)
        return NONE
    if name == 'copy':
        i = fresh_id()
        st.cells[('L', i)] = lv
        return ListRef(i)
    if name == 'clear':
        st.cells[('L', l.id)] = ListVal((), None, False, lv.kind)
        return NONE
    if name == 'insert' and lv.phi is None and isinstance(args[0], T):
        c = intval(args[0])
        if c == 0 or (c is not None and 0 <= c <= len(lv.segs) and all(s.unit() for s in lv.segs[:c])):
            segs = list(lv.segs)
            segs.insert(c, Seg((), (), TRUE, args[1]))
            st.cells[('L', l.id)] = ListVal(segs, lv.phi, lv.mixed, lv.kind)
            return NONE
    if name == 'pop' and lv.phi is None and not lv.mixed:
        c = intval(args[0]) if args else -1
        if c is not None and lv.segs and all(s.unit() for s in lv.segs) and -len(lv.segs) <= c < len(lv.segs):
            segs = list(lv.segs)
            x = segs.pop(c)
            st.cells[('L', l.id)] = ListVal(segs, None, False, lv.kind)
            return x.value
    if name == 'reverse':
        if all(s.unit() for s in lv.segs) and lv.phi is None:
            st.cells[('L', l.id)] = ListVal(tuple(reversed(lv.segs)), None, lv.mixed, lv.kind)
            return NONE
        if lv.phi is None and not lv.mixed:
            r = _reversed(I, st, [l], {}, node)
            if isinstance(r, ListRef):
                st.cells[('L', l.id)] = st.cells[('L', r.id)]
                return NONE
    if name in ('index', 'count', 'issubset', 'union', 'intersection', 'difference', 'issuperset', 'symmetric_difference'):
        return I.unk('list method ' + name, node)
    I.event(st, '.' + name, l, args, kw, node)
    st.cells[('L', l.id)] = ListVal(lv.segs, lv.phi, True, lv.kind)
    return I.unk('list method ' + name, node)


def dict_method(I, st, d, name, args, kw, node):
    dv = st.cells[('D', d.id)]
    if name in ('get', 'setdefault', 'pop'):
        k = I.closed(st, args[0])
        default = args[1] if len(args) > 1 else NONE
        I.event(st, 'dict-' + name, d, args, kw, node)
        if dv.phi is not None:
            return I.unk('dict item', node)
        v = M().dict_get(I, st, dv, k, default, node)
        if name == 'setdefault' and not any(eq(kk, k) is TRUE for kk, x, c in dv.items):
            M().set_item(I, st, d, [args[0]], v, node)
        if name == 'pop':
            st.cells[('D', d.id)] = DictVal([(kk, x, andd(c, nott(eq(kk, k)))) for kk, x, c in dv.items
                                             if eq(kk, k) is not TRUE], dv.phi)
        return v
    if name in ('keys', 'values', 'items', 'copy') and dv.phi is None:
        if name == 'copy':
            return I.new_dict(st, dv.items)
        f = {'keys': lambda k, x: k, 'values': lambda k, x: x, 'items': lambda k, x: Tup([k, x])}[name]
        return I.new_list(st, [Seg((), (), c, f(k, x)) for k, x, c in dv.items])
    if name in ('keys', 'values', 'items') and dv.segs and not dv.items:
        f = {'keys': lambda p: p.items[0], 'values': lambda p: p.items[1], 'items': lambda p: p}[name]
        return I.new_list(st, [Seg(g.vars, g.sizes, g.guard, f(g.value)) for g in dv.segs])
    if name == 'update':
        ds = [a for a in args if isinstance(a, DictRef)]
        if len(ds) == len(args):
            for x in ds:
                for k, v, c in st.cells[('D', x.id)].items:
                    M().set_item(I, st, d, [k], v, node)
            for k, v in kw.items():
                M().set_item(I, st, d, [string(k)], v, node)
            return NONE
    I.event(st, '.' + name, d, args, kw, node)
    return I.unk('dict method ' + name, node)


RNG_SIZED = {'uniform': 2, 'random': 0, 'normal': 2, 'standard_normal': 0, 'integers': 2, 'exponential': 1}


def call_opaque_method(I, st, base, name, args, kw, node):
    """method of a value made outside the repository"""
    cm = I.contract_methods.get(('*', name))
    if cm is not None:
        r = cm(I, st, [base] + list(args), kw, node)
        if r is not None:
            return r
    tx = text_method(I, st, base, name, args, kw, node)
    if tx is not None:
        return tx
    if name == 'astype' and isinstance(base, T) and base.op not in ('obj', 'call', 'unk', 'attr', 'k', 'fn', 'sym', 'at'):
        dt = dtype_of(I, st, arg(args, kw, 0, 'dtype'))
        kd = kind_of(I, st, arg(args, kw, 0, 'dtype'))
        if kd in ('float32', 'float16'):
            stored(I, st, base, kd, node)
        if dt != '?':
            return cast(base, dt)
    if isinstance(base, T) and base.op == 'fn' and base.args[0] in ('Path', 'path.join'):
        if name in ('exists', 'is_file') and not args:
            I.event(st, 'os.path.exists', None, [base], kw, node)
            return pred('exists', base)
        if name == 'unlink':
            I.event(st, 'os.remove', None, [base], kw, node)
            return NONE
        if name == 'joinpath':
            return fn('Path', *M().path_join(I, st, [base] + list(args)).args[1])
        if name in ('resolve', 'absolute') and not args:
            return base
        if name == 'as_posix':
            return base
        if name == 'open':
            return BUILTINS['open'](I, st, [base] + list(args), kw, node)
    if name in ('copy', 'astype', 'tolist', 'item', 'mean', 'sum', 'min', 'max', 'any', 'all', 'reshape', 'flatten', 'ravel',
                'argmin', 'argmax') and isinstance(base, T) and base.op in ('sym', 'at', 'nth', 'call?', 'fn') :
        return opaque(I, st, '.' + name, [base] + list(args) + [kw[k] for k in sorted(kw)])
    result = I.call_term('.' + name)
    ev = I.event(st, '.' + name, base, args, kw, node, result)
    info = I.obj_info(base) if isinstance(base, T) else None
    if name == 'uniform' and (info is not None and 'rng' in info[0] or _is_rng(base)):
        return uniform_draw(I, st, args, kw, node, result)
    if name in RNG_SIZED and (info is not None and 'rng' in info[0] or 'size' in kw or _is_rng(base)):
        npos = RNG_SIZED[name]
        size = arg(args, kw, npos, 'size', NONE)
        if size is not NONE:
            axes = shape_axes(I, st, size)
            if axes is None:
                return result
            return I.new_arr(st, axes, at(result, *[a.vars[0] for a in axes]))
        arrs = [to_arr(I, st, a, node) for a in args] + [to_arr(I, st, kw[k], node) for k in sorted(kw)]
        arrs = [a for a in arrs if isinstance(a, Arr)]
        if arrs:
            from .arrays import broadcast
            b = broadcast(I, arrs)
            if b is not None:
                axes = b[0]
                vs = [v for a in axes for v in a.vars]
                return I.new_arr(st, axes, at(result, *vs))
        return result
    return result


def uniform_draw(I, st, args, kw, node, result):
    """uniform(low, high, size): low + (high - low) * u with u the standard uniform draws `result`"""
    low, high = arg(args, kw, 0, 'low', ZERO), arg(args, kw, 1, 'high', ONE)
    size = arg(args, kw, 2, 'size', NONE)
    if size is not NONE:
        axes = shape_axes(I, st, size)
    else:
        from .arrays import broadcast
        arrs = [a for a in (to_arr(I, st, low, node), to_arr(I, st, high, node)) if isinstance(a, Arr)]
        b = broadcast(I, arrs) if arrs else ((), ())
        axes = b[0] if b is not None else None
    if axes is None:
        return result
    if not axes:
        u = result
    else:
        axes = [a.rename() for a in axes]
        u = I.new_arr(st, axes, at(result, *[v for a in axes for v in a.vars]))
    return elementwise(I, st, lambda l, h, w: add(l, mul(sub(h, l), w)), [low, high, u], node)


def _is_rng(t):
    return isinstance(t, T) and (t.op == 'sym' and t.args[0] == 'rng' or t.op == 'obj' and 'rng' in str(t.args[0]))
