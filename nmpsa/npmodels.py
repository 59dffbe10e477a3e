"""Models of numpy / math functions."""
from .values import *
from .terms import *
from .terms import _mk
from .arrays import *
from . import logic

NP = {}


def np_(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


def arg(args, kw, i, name, default=None):
    if i is not None and len(args) > i:
        return args[i]
    return kw.get(name, default)


def intval(v):
    c = cval(v) if isinstance(v, T) else None
    return int(c) if c is not None and c.denominator == 1 else None


def axis_of(args, kw, i, default=None):
    """python axis argument: None, int, list of ints, or 'bad'"""
    a = arg(args, kw, i, 'axis', None)
    if a is None or a is NONE:
        return default
    if isinstance(a, Tup):
        r = [intval(x) for x in a.items]
        return r if all(x is not None for x in r) else 'bad'
    r = intval(a)
    return r if r is not None else 'bad'


def truthy(v):
    return isinstance(v, T) and truth(v) is TRUE


def note_float(I, st, name, args, node):
    for a in args:
        if isinstance(a, T) and is_int(a) and contains(a, lambda x: x.op == 'comb'):
            I.event(st, 'float-conversion', None, [a], {'by': string(name)}, node)


def note_intreal(I, st, name, args, node):
    """a whole number obtained by rounding a true division of integers (a float detour)"""
    for a in args:
        if isinstance(a, T) and not is_int(a) and a.op in ('poly',):
            p = poly_of(a)
            d = max(c.denominator for c in p.values())
            if is_int(mul(a, num(d))):
                I.event(st, 'int-of-real', None, [a], {'by': string(name)}, node)


# ---------------------------------------------------------------- elementwise

def _ew(name, f):
    def g(I, st, args, kw, node):
        extra = set(kw) - {'dtype'}
        if extra:
            return I.unk('%s(%s)' % (name, ','.join(extra)), node)
        note_float(I, st, name, args, node)
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint'):
            note_intreal(I, st, name, args, node)
        return elementwise(I, st, f, args, node)
    return g


def log_base(b):
    lb = log(num(b))
    return lambda x: div(log(x), lb)


def exp_(x):
    if x is ZERO:
        return ONE
    if x.op == 'ite':
        return ite(x.args[0], exp_(x.args[1]), exp_(x.args[2]))
    return fn('exp', x)


def sqrt_(x):
    return power(x, num(1) if False else div(ONE, num(2)))


def num_and(a, b):
    if is_bool(a) and is_bool(b):
        return andd(a, b)
    return fn('bitand', *sorted([a, b], key=skey))


def num_or(a, b):
    if is_bool(a) and is_bool(b):
        return orr(a, b)
    return fn('bitor', *sorted([a, b], key=skey))


def num_xor(a, b):
    if is_bool(a) and is_bool(b):
        return nott(iff(a, b))
    return fn('bitxor', *sorted([a, b], key=skey))


def invert(a):
    return nott(a) if is_bool(a) else sub(neg(a), ONE)


def sign_(a):
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), num(-1), ZERO))


def clip_(x, lo, hi):
    return min2(max2(x, lo), hi)


# comparisons with an IEEE reading of division by a possibly vanishing denominator

def _risky(d):
    out = {}
    if d.op == 'c':
        return out
    for m, c in poly_of(d).items():
        for a, e in m:
            if isinstance(e, Fraction) and e < 0 and not is_pos(a) and a.op != 'c':
                out[a] = True
    return out


from fractions import Fraction


def cmp_lt(a, b):
    return _cmp('lt', a, b)


def cmp_le(a, b):
    return _cmp('le', a, b)


def _cmp(which, a, b):
    if a.op == 'ite' and len(I_conds(a)) <= 4:
        return ite(a.args[0], _cmp(which, a.args[1], b), _cmp(which, a.args[2], b))
    if b.op == 'ite' and len(I_conds(b)) <= 4:
        return ite(b.args[0], _cmp(which, a, b.args[1]), _cmp(which, a, b.args[2]))
    f = lt if which == 'lt' else le
    if a.op in ('k', 'lam') or b.op in ('k', 'lam'):
        return pred(which, a, b)
    d = sub(a, b)
    r = _risky(d)
    if len(r) != 1:
        return f(a, b)
    c, = r
    quot, rest = {}, {}
    for m, k in poly_of(d).items():
        es = [e for x, e in m if x is c]
        if not es:
            rest[m] = k
        elif es == [Fraction(-1)]:
            quot[tuple((x, e) for x, e in m if x is not c)] = k
        else:
            return f(a, b)
    u = mk_poly(quot)
    s = mk_poly(rest)
    if contains(s, lambda x: x is c) or contains(u, lambda x: x is c):
        return f(a, b)
    # d = u/c + s ;  c>0: u + s*c < 0 ; c<0: u + s*c > 0 ; c==0: sign of the infinity, nan compares false
    e = add(u, mul(s, c))
    lead = sorted(poly_of(u).items(), key=lambda mc: mono_key(mc[0]))[0][1] if u is not ZERO else 1
    infsign = pred('infsign', c, u if lead > 0 else neg(u))
    neginf = andd(ne(u, ZERO), nott(infsign) if lead > 0 else infsign)
    strict = which == 'lt'
    pos_case = lt(e, ZERO) if strict else le(e, ZERO)
    neg_case = lt(ZERO, e) if strict else le(ZERO, e)
    return ite(eq(c, ZERO), neginf, ite(lt(ZERO, c), pos_case, neg_case))


def mono_key(m):
    from .terms import _mono_key
    return _mono_key(m)


def I_conds(t):
    from .terms import _conds
    return _conds(t, set())


def cmp_eq(a, b):
    if a.op in ('lam',) or b.op in ('lam',):
        r = logic.equal(a, b)
        if r is True:
            return TRUE
        return pred('eq', *sorted([a, b], key=skey))
    r = _risky(sub(a, b)) if not (is_bool(a) or is_bool(b) or a.op in ('k', 'tup', 'obj') or b.op in ('k', 'tup', 'obj')) else {}
    if len(r) == 1:
        c, = r
        e = mul(sub(a, b), c)
        if not _risky(e):
            return andd(ne(c, ZERO), eq(e, ZERO))
    return eq(a, b)


for _n, _f in {
    'abs': absv, 'absolute': absv, 'fabs': absv, 'sqrt': sqrt_, 'square': lambda x: mul(x, x), 'log': log,
    'log2': log_base(2), 'log10': log_base(10), 'log1p': lambda x: log(add(x, ONE)), 'exp': exp_,
    'exp2': lambda x: power(num(2), x), 'ceil': ceil, 'floor': floor, 'negative': neg, 'positive': lambda x: x,
    'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'true_divide': div, 'power': power, 'float_power': power,
    'maximum': max2, 'minimum': min2, 'fmax': max2, 'fmin': min2, 'reciprocal': lambda x: div(ONE, x),
    'logical_and': lambda a, b: andd(truth(a), truth(b)), 'logical_or': lambda a, b: orr(truth(a), truth(b)),
    'logical_not': lambda a: nott(truth(a)), 'logical_xor': lambda a, b: nott(iff(truth(a), truth(b))),
    'bitwise_and': num_and, 'bitwise_or': num_or, 'bitwise_xor': num_xor, 'invert': invert, 'bitwise_not': invert,
    'equal': cmp_eq, 'not_equal': lambda a, b: nott(cmp_eq(a, b)), 'less': cmp_lt, 'less_equal': cmp_le,
    'greater': lambda a, b: cmp_lt(b, a), 'greater_equal': lambda a, b: cmp_le(b, a), 'sign': sign_,
    'hypot': lambda a, b: sqrt_(add(mul(a, a), mul(b, b))), 'mod': mod, 'remainder': mod, 'fmod': mod,
    'floor_divide': fdiv, 'sin': lambda x: fn('sin', x), 'cos': lambda x: fn('cos', x), 'tan': lambda x: fn('tan', x),
    'arctan2': lambda a, b: fn('arctan2', a, b), 'isnan': lambda x: pred('isnan', x),
    'isinf': lambda x: pred('isinf', x), 'isfinite': lambda x: pred('isfinite', x), 'trunc': lambda x: toint(x),
    'deg2rad': lambda x: mul(x, div(PI, num(180))), 'radians': lambda x: mul(x, div(PI, num(180))),
    'clip': clip_,
}.items():
    NP[_n] = _ew('numpy.' + _n, _f)


@np_('isclose')
def _isclose(I, st, args, kw, node):
    tol = tuple(I.closed(st, kw[k]) for k in sorted(kw)) + tuple(I.closed(st, a) for a in args[2:])
    return elementwise(I, st, lambda a, b: pred('isclose', a, b, *tol), args[:2], node)


@np_('allclose')
def _allclose(I, st, args, kw, node):
    v = _isclose(I, st, args, kw, node)
    return reduce_arr(I, st, 'all', v, None, node) if isinstance(v, ArrRef) else v


@np_('array_equal')
def _array_equal(I, st, args, kw, node):
    v = elementwise(I, st, cmp_eq, args[:2], node)
    return reduce_arr(I, st, 'all', v, None, node) if isinstance(v, ArrRef) else v


@np_('clip')
def _clip(I, st, args, kw, node):
    x = args[0]
    lo = arg(args, kw, 1, 'a_min', kw.get('min', NONE))
    hi = arg(args, kw, 2, 'a_max', kw.get('max', NONE))
    if set(kw) - {'a_min', 'a_max', 'min', 'max'}:
        return I.unk('clip', node)
    if lo is not NONE:
        x = elementwise(I, st, max2, [x, lo], node)
    if hi is not NONE:
        x = elementwise(I, st, min2, [x, hi], node)
    return x


# ---------------------------------------------------------------- reductions

def _red(op, body=None, post=None):
    def g(I, st, args, kw, node):
        if set(kw) - {'axis', 'keepdims', 'a', 'dtype'}:
            return I.unk(op, node)
        ax = axis_of(args, kw, 1)
        if ax == 'bad':
            return I.unk('axis', node)
        v = args[0] if args else kw.get('a')
        note_float(I, st, 'numpy reduction', [I.closed(st, v)], node)
        return reduce_arr(I, st, op, v, ax, node, truthy(kw.get('keepdims')), body, post)
    return g


for _n, _op in {'sum': '+', 'prod': '*', 'min': 'min', 'max': 'max', 'amin': 'min', 'amax': 'max', 'all': 'all',
                'any': 'any', 'nanmin': 'min', 'nanmax': 'max', 'nansum': '+', 'count_nonzero': 'count',
                'product': '*'}.items():
    NP[_n] = _red(_op)


@np_('mean', 'average')
def _mean(I, st, args, kw, node):
    if set(kw) - {'axis', 'keepdims'}:
        return I.unk('mean', node)
    ax = axis_of(args, kw, 1)
    a = to_arr(I, st, args[0], node)
    if ax == 'bad' or a is None or isinstance(a, T):
        return opaque(I, st, 'mean', args)
    n = len(a.axes)
    which = list(range(n)) if ax is None else [(x + n) % n for x in ([ax] if isinstance(ax, int) else ax)]
    cnt = mul(*[a.axes[k].length() for k in which])
    return reduce_arr(I, st, '+', args[0], ax, node, truthy(kw.get('keepdims')), None, lambda r: div(r, cnt))


@np_('linalg.norm')
def _norm(I, st, args, kw, node):
    o = arg(args, kw, 1, 'ord', NONE)
    ax = axis_of(args, kw, 2)
    keep = truthy(arg(args, kw, 3, 'keepdims', FALSE))
    if ax == 'bad':
        return I.unk('axis', node)
    a = to_arr(I, st, args[0], node)
    if isinstance(a, T):
        return _mk('call?', 'norm', (a,) + tuple(I.closed(st, x) for x in args[1:]))
    if a is None:
        return I.unk('norm', node)
    if o is NONE or (o is not NONE and cval(o) == 2 and (ax is not None or len(a.axes) == 1)):
        return reduce_arr(I, st, '+', args[0], ax, node, keep, lambda b: mul(b, b), sqrt_)
    if cval(o) == 1 and (ax is not None or len(a.axes) == 1):
        return reduce_arr(I, st, '+', args[0], ax, node, keep, absv)
    if o is INF:
        return reduce_arr(I, st, 'max', args[0], ax, node, keep, absv)
    if isinstance(o, T) and cval(o) is not None:
        return reduce_arr(I, st, '+', args[0], ax, node, keep, lambda b: power(absv(b), o),
                          lambda r: power(r, div(ONE, o)))
    return opaque(I, st, 'norm', args)


@np_('median', 'quantile', 'percentile', 'nanmedian')
def _quantile(I, st, args, kw, node):
    name = ast_name(node)
    a = to_arr(I, st, args[0], node)
    rest = list(args[1:])
    q = div(ONE, num(2))
    if 'median' not in name:
        q = rest.pop(0) if rest else kw.get('q')
        if name == 'percentile' and isinstance(q, T):
            q = div(q, num(100))
    ax = kw.get('axis', rest[0] if rest else NONE)
    if not isinstance(a, Arr) or set(kw) - {'axis', 'q'} or not isinstance(q, T) or not (ax is NONE or len(a.axes) == 1):
        return opaque(I, st, 'numpy.' + name, list(args) + [kw[k] for k in sorted(kw)])
    return fn('quantile', I.closed(st, args[0]), q)


@np_('argmin', 'argmax', 'argsort', 'sort', 'cumsum', 'cumprod', 'std', 'var', 'diff', 'unique',
     'searchsorted', 'bincount', 'histogram', 'partition', 'argpartition', 'delete', 'insert', 'roll',
     'linalg.det', 'linalg.inv', 'linalg.solve', 'interp', 'polyfit', 'polyval', 'ptp', 'digitize', 'rot90',
     'triu_indices', 'tril_indices', 'isin', 'in1d', 'setdiff1d', 'intersect1d', 'union1d', 'lexsort', 'trapz', 'vectorize',
     'packbits', 'floor_divide_', 'array_split', 'split', 'array2string', 'ravel_multi_index', 'unravel_index', 'load',
     'loadtxt', 'genfromtxt', 'outer', 'kron', 'trace', 'apply_along_axis', 'logspace', 'geomspace', 'nan_to_num', 'r_', 'c_')
def _np_opaque(I, st, args, kw, node):
    items = list(args) + [kw[k] for k in sorted(kw)]
    name = ast_name(node)
    return opaque(I, st, 'numpy.' + name + ':' + ','.join(sorted(kw)), items, node)


def ast_name(node):
    import ast
    if isinstance(node, ast.Call):
        try:
            return ast.unparse(node.func)
        except Exception:
            return '?'
    return '?'


# ---------------------------------------------------------------- creation

def shape_axes(I, st, shape):
    shape = I.resolve(shape, st.pc)
    if isinstance(shape, Tup):
        items = list(shape.items)
    elif isinstance(shape, ListRef):
        l = st.cells[('L', shape.id)]
        if not all(s.unit() for s in l.segs):
            return None
        items = [s.value for s in l.segs]
    elif isinstance(shape, T):
        items = list(shape.args) if shape.op == 'tup' else [shape]
    elif isinstance(shape, Choice):
        return None
    else:
        return None
    if not all(isinstance(x, T) for x in items):
        return None
    return [plain_axis(toint(x)) for x in items]


def cast(t, dt):
    """elementwise conversion of body t to dtype description dt"""
    if dt is None:
        return t
    if dt == 'bool':
        return truth(t) if not (t.op in ('at',) and not is_bool(t) and not is_int(t)) else truth(t)
    if dt == 'int':
        return toint(t)
    if dt == 'float':
        return ite_num(t)
    return t


def ite_num(t):
    return ite(t, ONE, ZERO) if is_bool(t) else t


def dtype_of(I, st, v):
    """'bool' 'int' 'float' None(keep) or '?'"""
    if v is None or v is NONE:
        return None
    if isinstance(v, (Ext, PyVal)):
        n = v.name.split('.')[-1]
    elif isinstance(v, T) and v.op == 'k' and v.args[0] == 'str':
        n = v.args[1]
    else:
        return '?'
    if n.startswith('bool'):
        return 'bool'
    if n.startswith('int') or n.startswith('uint') or n in ('long', 'i4', 'i8', 'i'):
        return 'int'
    if n.startswith('float') or n in ('double', 'single', 'f4', 'f8', 'f', 'half'):
        return 'float'
    return '?'


SINGLE, HALF = ('float32', 'single', 'f4', 'f', '<f4'), ('float16', 'half', 'f2', 'e', '<f2')


def kind_of(I, st, v):
    """element type that does not hold every double: 'int' 'bool' 'float32' 'float16', else None"""
    if v is None or v is NONE:
        return None
    n = v.name.split('.')[-1] if isinstance(v, (Ext, PyVal)) else v.args[1] if isinstance(v, T) and v.op == 'k' and v.args[0] == 'str' else None
    if n in SINGLE:
        return 'float32'
    if n in HALF:
        return 'float16'
    d = dtype_of(I, st, v)
    return d if d in ('int', 'bool') else None


def exact(t):
    """a value every floating type holds"""
    return is_bool(t) or t.op == 'c' and t.args[0] in (-1, 0, 1)


def stored(I, st, v, kind, node):
    """a value (or the elements of an array) as an element of that type"""
    body = v.body if isinstance(v, Arr) else v
    if kind in ('float32', 'float16'):
        if not isinstance(body, T) or not exact(body):
            I.event(st, 'narrow', None, [string(kind), body], {}, node)
        return v
    if not isinstance(body, T):
        return v
    return Arr(v.axes, cast(body, kind)) if isinstance(v, Arr) else cast(body, kind)


def _const_arr(value):
    def g(I, st, args, kw, node):
        ax = shape_axes(I, st, arg(args, kw, 0, 'shape'))
        if ax is None:
            return I.unk('shape', node)
        for x in ax:
            I.event(st, 'alloc', None, [x.sizes[0]], {}, node)
        dt = arg(args, kw, 1, 'dtype')
        return I.typed(I.new_arr(st, ax, cast(value, dtype_of(I, st, dt))), kind_of(I, st, dt))
    return g


NP['zeros'] = _const_arr(ZERO)
NP['ones'] = _const_arr(ONE)


@np_('empty')
def _empty(I, st, args, kw, node):
    ax = shape_axes(I, st, arg(args, kw, 0, 'shape'))
    if ax is None:
        return I.unk('shape', node)
    for x in ax:
        I.event(st, 'alloc', None, [x.sizes[0]], {}, node)
    return I.typed(I.new_arr(st, ax, at(_mk('call', 'uninitialised', fresh_id(), ()), *[x.vars[0] for x in ax])), kind_of(I, st, arg(args, kw, 1, 'dtype')))


@np_('full')
def _full(I, st, args, kw, node):
    ax = shape_axes(I, st, arg(args, kw, 0, 'shape'))
    v = to_arr(I, st, arg(args, kw, 1, 'fill_value'), node)
    if ax is None or v is None:
        return I.unk('shape', node)
    if isinstance(v, Arr):
        z = I.new_arr(st, ax, ZERO)
        return elementwise(I, st, lambda a, b: b, [z, I.ref(st, v)], node)
    dt = arg(args, kw, 2, 'dtype')
    stored(I, st, v, kind_of(I, st, dt), node)
    return I.typed(I.new_arr(st, ax, cast(v, dtype_of(I, st, dt))), kind_of(I, st, dt))


def _like(value):
    def g(I, st, args, kw, node):
        a = to_arr(I, st, args[0], node)
        if not isinstance(a, Arr):
            return opaque(I, st, 'like', args)
        v = value if value is not None else I.closed(st, arg(args, kw, 1, 'fill_value'))
        kind = kind_of(I, st, kw.get('dtype')) if 'dtype' in kw else I.kinds.get(getattr(args[0], 'id', None))
        return I.typed(I.new_arr(st, a.axes, cast(v, dtype_of(I, st, kw.get('dtype')))), kind)
    return g


NP['zeros_like'] = _like(ZERO)
NP['ones_like'] = _like(ONE)
NP['full_like'] = _like(None)


@np_('arange')
def _arange(I, st, args, kw, node):
    if not all(isinstance(a, T) for a in args) or not args or set(kw) - {'dtype'}:
        return I.unk('arange', node)
    lo, hi, step = ZERO, args[0], ONE
    if len(args) > 1:
        lo, hi = args[0], args[1]
    if len(args) > 2:
        step = args[2]
    n = sub(hi, lo)
    if step is not ONE:
        n = ceil(div(n, step))
    elif not is_int(n) and any(x.op == 'c' and x.args[0].denominator != 1 for x in (lo, hi)):
        n = ceil(n)
    v = fresh_var()
    return I.new_arr(st, [Ax([v], [n])], add(lo, mul(step, v)))


@np_('linspace')
def _linspace(I, st, args, kw, node):
    ep = arg(args, kw, 3, 'endpoint', TRUE)
    a, b = arg(args, kw, 0, 'start'), arg(args, kw, 1, 'stop')
    n = arg(args, kw, 2, 'num', num(50))
    if set(kw) - {'num', 'endpoint', 'start', 'stop'} or ep not in (TRUE, FALSE) or not isinstance(n, T) or a is None or b is None:
        return opaque(I, st, 'linspace', args)
    gaps = sub(n, ONE) if ep is TRUE else n
    v = fresh_var()
    if isinstance(a, T) and isinstance(b, T):
        return I.new_arr(st, [Ax([v], [n])], add(a, div(mul(v, sub(b, a)), gaps)))
    x, y = to_arr(I, st, a, node), to_arr(I, st, b, node)
    if x is None or y is None:
        return opaque(I, st, 'linspace', args)
    r = elementwise(I, st, lambda p, q: add(p, div(mul(v, sub(q, p)), gaps)), [a, b], node)
    r = to_arr(I, st, r, node)
    if r is None:
        return opaque(I, st, 'linspace', args)
    return I.new_arr(st, [Ax([v], [n])] + list(r.axes), r.body)


@np_('eye', 'identity')
def _eye(I, st, args, kw, node):
    if kw or not isinstance(args[0], T) or len(args) > 1:
        return opaque(I, st, 'eye', args)
    a, b = plain_axis(args[0]), plain_axis(args[0])
    return I.new_arr(st, [a, b], ite(eq(a.vars[0], b.vars[0]), ONE, ZERO))


@np_('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'copy', 'float64', 'float32', 'float16', 'int64', 'int32', 'intp',
     'bool_', 'asfarray')
def _array(I, st, args, kw, node):
    if set(kw) - {'dtype', 'copy', 'order'}:
        return I.unk('array', node)
    v = I.resolve(args[0], st.pc)
    if isinstance(v, Choice):
        return I.map_choice(st, v, lambda x, s: _array(I, s, [x] + list(args[1:]), kw, node))
    a = to_arr(I, st, v, node)
    if a is None:
        return opaque(I, st, 'array', [v])
    n = ast_name(node).split('.')[-1]
    dt = dtype_of(I, st, arg(args, kw, 1, 'dtype'))
    kind = kind_of(I, st, arg(args, kw, 1, 'dtype')) or (n if n in ('float32', 'float16') else None) or (
        I.kinds.get(getattr(v, 'id', None)) if arg(args, kw, 1, 'dtype') is None else None)
    if kind in ('float32', 'float16'):
        stored(I, st, a, kind, node)
    if n in ('float64', 'float32', 'float16'):
        note_float(I, st, n, args, node)
        dt = 'float'
    elif n in ('int64', 'int32', 'intp'):
        dt = 'int'
    elif n == 'bool_':
        dt = 'bool'
    else:
        note_float(I, st, 'numpy.array', [a] if isinstance(a, T) else [a.body], node)
    if isinstance(a, T):
        return cast(a, dt) if dt != '?' else a
    return I.typed(I.new_arr(st, a.axes, cast(a.body, dt) if dt != '?' else a.body), kind)


@np_('meshgrid')
def _meshgrid(I, st, args, kw, node):
    ij = kw.get('indexing')
    isij = ij is string('ij')
    arrs = [to_arr(I, st, a, node) for a in args]
    if len(arrs) != 2 or not all(isinstance(a, Arr) and len(a.axes) == 1 for a in arrs) or set(kw) - {'indexing'}:
        return opaque(I, st, 'meshgrid', args)
    a, b = arrs
    axes = [a.axes[0], b.axes[0]] if isij else [b.axes[0], a.axes[0]]
    out = []
    for x in arrs:
        m = {}
        ax = [y.rename(m) for y in axes]
        out.append(I.new_arr(st, ax, subst(x.body, m)))
    return I.list_of(st, out)


# ---------------------------------------------------------------- shape manipulation

def with_arr(f):
    def g(I, st, args, kw, node):
        v = I.resolve(args[0], st.pc)
        if isinstance(v, Choice):
            return I.map_choice(st, v, lambda x, s: g(I, s, [x] + list(args[1:]), kw, node))
        a = to_arr(I, st, v, node)
        if a is None:
            return I.unk('array', node)
        return f(I, st, a, args, kw, node)
    return g


@np_('repeat')
@with_arr
def _repeat(I, st, a, args, kw, node):
    n = arg(args, kw, 1, 'repeats')
    ax = axis_of(args, kw, 2)
    if not isinstance(n, T) or ax == 'bad':
        return opaque(I, st, 'repeat', args)
    j = fresh_var()
    if isinstance(a, T):
        if not is_const(a) and a.op not in ('v', 'poly'):
            return opaque(I, st, 'repeat', args)
        return I.new_arr(st, [Ax([j], [n])], a)
    if ax is None:
        x = combine_axes(a.axes)
        return I.new_arr(st, [Ax(x.vars + (j,), x.sizes + (n,), x.guard)], a.body)
    ax = ax % len(a.axes)
    axes = list(a.axes)
    x = axes[ax]
    if isone(x):
        axes[ax] = Ax([j], [n])
        return I.new_arr(st, axes, subst(a.body, {x.vars[0]: ZERO}))
    axes[ax] = Ax(x.vars + (j,), x.sizes + (n,), x.guard)
    return I.new_arr(st, axes, a.body)


@np_('tile')
@with_arr
def _tile(I, st, a, args, kw, node):
    r = I.resolve(arg(args, kw, 1, 'reps'), st.pc)
    if isinstance(r, Tup):
        reps = list(r.items)
    elif isinstance(r, T):
        reps = [r]
    else:
        return opaque(I, st, 'tile', args)
    if not all(isinstance(x, T) for x in reps):
        return opaque(I, st, 'tile', args)
    if isinstance(a, T):
        return opaque(I, st, 'tile', args)
    axes = list(a.axes)
    body = a.body
    while len(reps) < len(axes):
        reps.insert(0, ONE)
    while len(axes) < len(reps):
        axes.insert(0, plain_axis(ONE))
    out = []
    for n, x in zip(reps, axes):
        if n is ONE:
            out.append(x)
        elif isone(x):
            out.append(plain_axis(n))
            body = subst(body, {x.vars[0]: ZERO})
        else:
            out.append(Ax((fresh_var(),) + x.vars, (n,) + x.sizes, x.guard))
    return I.new_arr(st, out, body)


@np_('ravel', 'flatten')
@with_arr
def _ravel(I, st, a, args, kw, node):
    o = arg(args, kw, 1, 'order', string('C'))
    if isinstance(a, T):
        return opaque(I, st, 'ravel', [a])
    if o is string('C') or len(a.axes) == 1:
        axes = a.axes
    elif o is string('F'):
        axes = tuple(reversed(a.axes))
    else:
        return opaque(I, st, 'ravel', args)
    body = a.body
    ones = [x for x in axes if isone(x)]
    if len(ones) < len(axes):
        axes = [x for x in axes if not isone(x)]
        body = subst(body, {x.vars[0]: ZERO for x in ones})
    return I.new_arr(st, [combine_axes(axes)], body)


@np_('reshape')
@with_arr
def _reshape(I, st, a, args, kw, node):
    shp = args[1:] if len(args) > 2 else [arg(args, kw, 1, 'shape', kw.get('newshape'))]
    if set(kw) - {'shape', 'newshape', 'order'} or (kw.get('order') not in (None, string('C'))):
        return opaque(I, st, 'reshape', args)
    dims = []
    for s in shp:
        s = I.resolve(s, st.pc)
        if isinstance(s, Tup):
            dims += list(s.items)
        elif isinstance(s, ListRef):
            its = I.static_items(st, s)
            if its is None:
                return opaque(I, st, 'reshape', args)
            dims += its
        else:
            dims.append(s)
    if isinstance(a, T) or not all(isinstance(d, T) for d in dims):
        return opaque(I, st, 'reshape', [a] + dims)
    return reshape_arr(I, st, a, dims, node)


def reshape_arr(I, st, a, dims, node):
    src = [x for x in a.axes if not isone(x)]
    body = subst(a.body, {x.vars[0]: ZERO for x in a.axes if isone(x)})
    big = [d for d in dims if d is not ONE]
    out = []
    if len(big) == 0:
        return I.new_arr(st, [plain_axis(ONE) for _ in dims], body) if not src else opaque(I, st, 'reshape', dims)
    if len(src) == 0:
        if all(cval(d) == -1 for d in big):
            return I.new_arr(st, [plain_axis(ONE) for _ in dims], body)
        return opaque(I, st, 'reshape', dims)
    if len(big) == 1:
        # everything in one axis
        x = combine_axes(src)
        if cval(big[0]) == -1 or logic.equal(big[0], x.length()) is True:
            for d in dims:
                out.append(plain_axis(ONE) if d is ONE else x)
            return I.new_arr(st, out, body)
        return opaque(I, st, 'reshape', [a.closed()] + list(dims))
    if len(src) == len(big):
        ok = True
        nneg = 0
        for x, d in zip(src, big):
            if cval(d) == -1:
                nneg += 1
            elif logic.equal(x.length(), d) is not True:
                ok = False
        if ok and nneg <= 1:
            it = iter(src)
            return I.new_arr(st, [plain_axis(ONE) if d is ONE else next(it) for d in dims], body)
    # regroup: factor the row-major variables
    vs, sz, gd = (), (), TRUE
    for x in src:
        vs += x.vars
        sz += x.sizes
        gd = andd(gd, x.guard)
    if gd is TRUE:
        groups = []
        i = 0
        ok = True
        for k, d in enumerate(big):
            if k == len(big) - 1:
                g = list(range(i, len(vs)))
                if not g or not (cval(d) == -1 or logic.equal(mul(*[sz[q] for q in g]), d) is True):
                    ok = False
                groups.append(g)
                break
            g = []
            p = ONE
            if cval(d) == -1:
                ok = False
                break
            while i < len(vs):
                g.append(i)
                p = mul(p, sz[i])
                i += 1
                if logic.equal(p, d) is True:
                    break
            else:
                ok = False
            groups.append(g)
        if ok:
            it = iter(groups)
            for d in dims:
                if d is ONE:
                    out.append(plain_axis(ONE))
                else:
                    g = next(it)
                    out.append(Ax([vs[q] for q in g], [sz[q] for q in g]))
            return I.new_arr(st, out, body)
        # split one plain axis: (a*b) -> (a, b) with the last dimension known
        if len(vs) == 1 and len(big) == 2 and cval(big[1]) is not None and cval(big[1]) > 0:
            n1 = big[0] if cval(big[0]) != -1 else div(sz[0], big[1])
            p, q = plain_axis(n1), plain_axis(big[1])
            return I.new_arr(st, [p, q], subst(body, {vs[0]: add(mul(p.vars[0], big[1]), q.vars[0])}))
    # leading axes kept, the last one split into known dimensions
    k = len(src) - 1
    if len(src) >= 2 and len(big) > len(src) and plain_ax(src[k]) and all(cval(d) is not None and cval(d) > 0 for d in big[k:]):
        c = 1
        for d in big[k:]:
            c *= int(cval(d))
        lead = [cval(d) == -1 or logic.equal(x.length(), d) is True for x, d in zip(src[:k], big[:k])]
        if all(lead) and sum(cval(d) == -1 for d in big[:k]) <= 1 and cval(src[k].sizes[0]) == c:
            new = [plain_axis(d) for d in big[k:]]
            ix = ZERO
            for x in new:
                ix = add(mul(ix, x.sizes[0]), x.vars[0])
            it = iter(list(src[:k]) + new)
            return I.new_arr(st, [plain_axis(ONE) if d is ONE else next(it) for d in dims], subst(body, {src[k].vars[0]: ix}))
    if len(src) == 3 and len(big) == 3 and len(dims) == 3 and cval(big[1]) is not None and cval(big[1]) > 0:
        # two leading axes regrouped row-major, the last one kept
        pl = plainify(Arr(src, body), 3)
        if all(plain_ax(x) for x in pl.axes) and (logic.equal(pl.axes[2].sizes[0], big[2]) is True or cval(big[2]) == -1):
            n0, n1 = pl.axes[0].sizes[0], pl.axes[1].sizes[0]
            if cval(n0) is not None:
                m0 = div(mul(n0, n1), big[1])
                p, q = plain_axis(m0), plain_axis(big[1])
                f = add(mul(p.vars[0], big[1]), q.vars[0])
                hi = floor(div(f, n1))
                m = {pl.axes[0].vars[0]: hi, pl.axes[1].vars[0]: sub(f, mul(hi, n1))}
                return I.new_arr(st, [p, q, pl.axes[2]], subst(pl.body, m))
    return opaque(I, st, 'reshape', [a.closed()] + list(dims))


@np_('transpose')
@with_arr
def _transpose(I, st, a, args, kw, node):
    p = arg(args, kw, 1, 'axes', NONE)
    if isinstance(a, T):
        return opaque(I, st, 'transpose', [a])
    if p is NONE:
        return I.new_arr(st, tuple(reversed(a.axes)), a.body)
    its = args[1:] if len(args) > 2 else I.static_items(st, p)
    ix = [intval(x) for x in its] if its else [None]
    if any(x is None for x in ix) or sorted(x % len(a.axes) for x in ix) != list(range(len(a.axes))):
        return opaque(I, st, 'transpose', args)
    return I.new_arr(st, [a.axes[x] for x in ix], a.body)


@np_('roll')
@with_arr
def _roll(I, st, a, args, kw, node):
    k, ax = intval(arg(args, kw, 1, 'shift')), axis_of(args, kw, 2)
    if isinstance(a, T) or k is None or not isinstance(ax, int) or not -len(a.axes) <= ax < len(a.axes) or not plain_ax(a.axes[ax]):
        return opaque(I, st, 'roll', args)
    x = a.axes[ax]
    v, n = x.vars[0], x.sizes[0]
    return I.new_arr(st, a.axes, subst(a.body, {v: _mod(sub(v, num(k)), n, k)}))


def _mod(i, n, k):
    """index i - k (0 <= i < n) modulo n, for a shift of at most one round"""
    if k < 0:
        return ite(lt(i, n), i, sub(i, n)) if cval(n) is None or -k <= cval(n) else mod(i, n)
    return ite(lt(i, ZERO), add(i, n), i) if cval(n) is None or k <= cval(n) else mod(i, n)


@np_('swapaxes')
@with_arr
def _swapaxes(I, st, a, args, kw, node):
    i, j = intval(arg(args, kw, 1, 'axis1')), intval(arg(args, kw, 2, 'axis2'))
    if isinstance(a, T) or i is None or j is None:
        return opaque(I, st, 'swapaxes', args)
    axes = list(a.axes)
    axes[i], axes[j] = axes[j], axes[i]
    return I.new_arr(st, axes, a.body)


@np_('moveaxis')
@with_arr
def _moveaxis(I, st, a, args, kw, node):
    i, j = intval(arg(args, kw, 1, 'source')), intval(arg(args, kw, 2, 'destination'))
    if isinstance(a, T) or i is None or j is None:
        return opaque(I, st, 'moveaxis', args)
    axes = list(a.axes)
    x = axes.pop(i % len(axes) if i >= 0 else i)
    axes.insert(j % (len(axes) + 1), x)
    return I.new_arr(st, axes, a.body)


@np_('expand_dims')
@with_arr
def _expand(I, st, a, args, kw, node):
    i = intval(arg(args, kw, 1, 'axis'))
    if i is None or isinstance(a, T):
        return opaque(I, st, 'expand_dims', args)
    axes = list(a.axes)
    axes.insert(i % (len(axes) + 1), plain_axis(ONE))
    return I.new_arr(st, axes, a.body)


@np_('squeeze')
@with_arr
def _squeeze(I, st, a, args, kw, node):
    if isinstance(a, T):
        return a
    ax = axis_of(args, kw, 1)
    ones = [k for k, x in enumerate(a.axes) if isone(x)] if ax is None else [ax % len(a.axes)] if isinstance(ax, int) else []
    b = subst(a.body, {a.axes[k].vars[0]: ZERO for k in ones if isone(a.axes[k])})
    return I.new_arr(st, [x for k, x in enumerate(a.axes) if k not in ones], b)


@np_('atleast_1d', 'atleast_2d')
@with_arr
def _atleast(I, st, a, args, kw, node):
    n = 2 if ast_name(node).endswith('2d') else 1
    if isinstance(a, T):
        return opaque(I, st, 'atleast', [a])
    axes = list(a.axes)
    while len(axes) < n:
        axes.insert(0, plain_axis(ONE))
    return I.new_arr(st, axes, a.body)


@np_('broadcast_to')
@with_arr
def _broadcast_to(I, st, a, args, kw, node):
    ax = shape_axes(I, st, arg(args, kw, 1, 'shape'))
    if ax is None:
        return opaque(I, st, 'broadcast_to', args)
    z = I.new_arr(st, ax, ZERO)
    return elementwise(I, st, lambda x, y: y, [z, a if isinstance(a, T) else I.ref(st, a)], node)


@np_('stack')
def _stack(I, st, args, kw, node):
    ax = axis_of(args, kw, 1, 0)
    a = to_arr(I, st, args[0], node)
    if not isinstance(a, Arr) or not isinstance(ax, int):
        return opaque(I, st, 'stack', args)
    axes = list(a.axes)
    x = axes.pop(0)
    axes.insert(ax % (len(axes) + 1), x)
    return I.new_arr(st, axes, a.body)


def concat(I, st, items, axis, node):
    arrs = [to_arr(I, st, x, node) for x in items]
    if not all(isinstance(a, Arr) for a in arrs):
        return opaque(I, st, 'concatenate', items)
    arrs = [a for a in arrs if not (axis < len(a.axes) and a.axes[axis].sizes[0] is ZERO)] or arrs[:1]
    if len(arrs) == 1:
        return I.ref(st, arrs[0])
    n = len(arrs[0].axes)
    if any(len(a.axes) != n for a in arrs) or axis >= n:
        return opaque(I, st, 'concatenate', items)
    base = arrs[0]
    parts = []
    other = [k for k in range(n) if k != axis]
    for a in arrs:
        m = {}
        if a is not base and not all(I.unify(base.axes[k], a.axes[k], m) for k in other):
            return opaque(I, st, 'concatenate', items)
        b = Arr([a.axes[axis]], subst(a.body, m))
        b = plainify(b, 1)
        parts.append((b.axes[0], b.body))
    ax, body = piece(parts)
    axes = list(base.axes)
    axes[axis] = ax
    return I.new_arr(st, axes, body)


def _items(I, st, v):
    v = I.resolve(v, st.pc)
    its = I.static_items(st, v)
    return its


def split_items(I, st, its, f):
    """f on the items, once per alternative of an item with several"""
    its = [I.resolve(x, st.pc) for x in its]
    for i, x in enumerate(its):
        if isinstance(x, Choice):
            return I.map_choice(st, x, lambda y, s: f(its[:i] + [y] + its[i + 1:], s))
    return None


@np_('concatenate')
def _concatenate(I, st, args, kw, node):
    its = _items(I, st, args[0])
    ax = axis_of(args, kw, 1, 0)
    if its is None or not isinstance(ax, int) or set(kw) - {'axis'}:
        return opaque(I, st, 'concatenate', args)
    r = split_items(I, st, its, lambda xs, s: _concatenate(I, s, [I.list_of(s, xs)] + list(args[1:]), kw, node))
    if r is not None:
        return r
    if ax < 0:
        a = to_arr(I, st, its[0], node)
        if not isinstance(a, Arr):
            return opaque(I, st, 'concatenate', args)
        ax += len(a.axes)
    return concat(I, st, its, ax, node)


@np_('append')
def _append(I, st, args, kw, node):
    ax = axis_of(args, kw, 2)
    if ax is None:
        r = [NP['ravel'](I, st, [a], {}, node) for a in args[:2]]
        return concat(I, st, r, 0, node)
    if ax == 'bad':
        return opaque(I, st, 'append', args)
    return concat(I, st, args[:2], ax, node)


@np_('hstack', 'vstack', 'row_stack', 'column_stack', 'dstack')
def _xstack(I, st, args, kw, node):
    n = ast_name(node).split('.')[-1]
    its = _items(I, st, args[0])
    if its is None or n == 'dstack':
        return opaque(I, st, n, args)
    r = split_items(I, st, its, lambda xs, s: _xstack(I, s, [I.list_of(s, xs)], kw, node))
    if r is not None:
        return r
    arrs = [to_arr(I, st, x, node) for x in its]
    if not all(isinstance(a, Arr) for a in arrs):
        if all(isinstance(a, T) for a in arrs) and n == 'hstack':
            return NP['array'](I, st, [I.list_of(st, arrs)], {}, node)
        return opaque(I, st, n, args)
    if n == 'hstack':
        return concat(I, st, its, 0 if len(arrs[0].axes) == 1 else 1, node)
    out = []
    for a in arrs:
        if len(a.axes) == 1:
            one = plain_axis(ONE)
            a = Arr([one, a.axes[0]] if n != 'column_stack' else [a.axes[0], one], a.body)
        out.append(I.ref(st, a))
    return concat(I, st, out, 1 if n == 'column_stack' else 0, node)


@np_('where')
def _where(I, st, args, kw, node):
    if len(args) == 3:
        return elementwise(I, st, lambda c, a, b: ite(truth(c), a, b), args, node)
    return _nonzero(I, st, args, kw, node)


@np_('nonzero')
def _nonzero(I, st, args, kw, node):
    v = I.resolve(args[0], st.pc)
    a = to_arr(I, st, v, node)
    if not isinstance(a, Arr):
        return Tup([opaque(I, st, 'nonzero', [v])])
    out = []
    g = truth(a.body)
    for k in range(len(a.axes)):
        m = {}
        axs = [x.rename(m) for x in a.axes]
        if not plain_ax(axs[k]):
            return opaque(I, st, 'nonzero', [v])
        c = combine_axes(axs)
        out.append(known_shape(I, st, [Ax(c.vars, c.sizes, andd(c.guard, subst(g, m)))], axs[k].vars[0]))
    return Tup(out)


@np_('flatnonzero')
def _flatnonzero(I, st, args, kw, node):
    r = _nonzero(I, st, args, kw, node)
    return r.items[0] if isinstance(r, Tup) and len(r.items) == 1 else opaque(I, st, 'flatnonzero', args)


@np_('argwhere')
def _argwhere(I, st, args, kw, node):
    r = _nonzero(I, st, args, kw, node)
    if not isinstance(r, Tup):
        return r
    return NP['transpose'](I, st, [I.list_of(st, list(r.items))], {}, node)


@np_('extract', 'compress')
def _extract(I, st, args, kw, node):
    return index_arr(I, st, args[1], [args[0]], node) if isinstance(args[1], ArrRef) else opaque(I, st, 'extract', args)


@np_('take')
def _take(I, st, args, kw, node):
    ax = axis_of(args, kw, 2)
    a = args[0]
    if not isinstance(a, ArrRef) or ax == 'bad' or ax is None:
        return opaque(I, st, 'take', args)
    return index_arr(I, st, a, [SliceVal(NONE, NONE, NONE)] * ax + [args[1]], node)


# ---------------------------------------------------------------- products

def tensordot(I, st, a, b, ka, kb, node):
    a, b = I.arr(st, a) if isinstance(a, ArrRef) else a, I.arr(st, b) if isinstance(b, ArrRef) else b
    x, y = a.axes[ka], b.axes[kb]
    m = {}
    if not I.unify(x, y, m):
        return I.new_arr(st, a.axes, _mk('misaligned', a.closed(), b.closed()))
    body = mul(a.body, subst(b.body, m))
    r = red('+', lam(x.vars, x.sizes, x.guard, body))
    axes = [q for k, q in enumerate(a.axes) if k != ka] + [q for k, q in enumerate(b.axes) if k != kb]
    return I.new_arr(st, axes, r)


@np_('dot', 'matmul', 'inner', 'vdot')
def _dot(I, st, args, kw, node):
    n = ast_name(node).split('.')[-1]
    a, b = to_arr(I, st, args[0], node), to_arr(I, st, args[1], node)
    if isinstance(a, T) and isinstance(b, T):
        if is_const(a) or is_const(b):
            return mul(a, b)
        return opaque(I, st, 'dot', [a, b])
    if not (isinstance(a, Arr) and isinstance(b, Arr)):
        if n == 'dot' and (isinstance(a, T) and cval(a) is not None or isinstance(b, T) and cval(b) is not None):
            return elementwise(I, st, mul, args[:2], node)
        return opaque(I, st, 'dot', args)
    if len(a.axes) > 2 or len(b.axes) > 2:
        return opaque(I, st, 'dot', args)
    kb = len(b.axes) - 1 if (n == 'inner' or len(b.axes) == 1) else 0
    return tensordot(I, st, a, b, len(a.axes) - 1, kb, node)


@np_('einsum')
def _einsum(I, st, args, kw, node):
    s = args[0]
    if not (isinstance(s, T) and s.op == 'k' and s.args[0] == 'str') or kw:
        return opaque(I, st, 'einsum', args)
    spec = s.args[1].replace(' ', '')
    if '->' not in spec or '.' in spec:
        return opaque(I, st, 'einsum', args)
    ins, out = spec.split('->')
    ins = ins.split(',')
    arrs = [to_arr(I, st, a, node) for a in args[1:]]
    if len(ins) != len(arrs) or not all(isinstance(a, Arr) and len(a.axes) == len(i) for a, i in zip(arrs, ins)):
        return opaque(I, st, 'einsum', args)
    ax = {}
    body = ONE
    for a, letters in zip(arrs, ins):
        m = {}
        for x, c in zip(a.axes, letters):
            if c in ax:
                if not I.unify(ax[c], x, m):
                    return opaque(I, st, 'einsum', args)
            else:
                ax[c] = x
        body = mul(body, subst(a.body, m))
    gone = [c for c in ax if c not in out]
    if gone:
        x = combine_axes([ax[c] for c in gone])
        body = red('+', lam(x.vars, x.sizes, x.guard, body))
    return I.new_arr(st, [ax[c] for c in out], body)


@np_('cross')
def _cross(I, st, args, kw, node):
    a, b = to_arr(I, st, args[0], node), to_arr(I, st, args[1], node)
    if not (isinstance(a, Arr) and isinstance(b, Arr)) or set(kw) - set():
        return opaque(I, st, 'cross', args)
    na, nb = cval(a.axes[-1].sizes[0]), cval(b.axes[-1].sizes[0])
    if not (plain_ax(a.axes[-1]) and plain_ax(b.axes[-1])) or na not in (2, 3) or na != nb:
        if plain_ax(a.axes[-1]) and plain_ax(b.axes[-1]) and na is None and nb is None:
            na = nb = 3 if I.facts is None else None
        if na is None or na != nb:
            return opaque(I, st, 'cross', args)
    va, vb = a.axes[-1].vars[0], b.axes[-1].vars[0]
    ca = [I.ref(st, Arr(a.axes[:-1], subst(a.body, {va: num(i)}))) for i in range(int(na))]
    cb = [I.ref(st, Arr(b.axes[:-1], subst(b.body, {vb: num(i)}))) for i in range(int(na))]

    def det(i, j):
        return elementwise(I, st, lambda p, q, r, s: sub(mul(p, q), mul(r, s)), [ca[i], cb[j], ca[j], cb[i]], node)
    if na == 2:
        return det(0, 1)
    comps = [det(1, 2), det(2, 0), det(0, 1)]
    r = to_arr(I, st, I.list_of(st, comps), node)
    if not isinstance(r, Arr):
        return opaque(I, st, 'cross', args)
    return I.new_arr(st, list(r.axes[1:]) + [r.axes[0]], r.body)


def _np_effect(name):
    def f(I, st, args, kw, node):
        I.event(st, 'numpy.' + name, None, args, kw, node)
        return NONE
    return f


for _n in ('save', 'savez', 'savetxt', 'random.seed', 'random.shuffle', 'set_printoptions', 'seterr', 'testing.assert_allclose'):
    NP[_n] = _np_effect(_n)
