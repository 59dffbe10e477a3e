"""Array algebra over index variables: conversion, broadcasting, indexing, assignment, reduction."""
from .values import *
from .terms import *
from .terms import _mk
from . import logic


def opaque(I, st, name, args, node=None):
    """result of a pure function whose meaning the analyser does not model"""
    return _mk('call?', name, tuple(I.closed(st, a) for a in args))


def isone(ax):
    return len(ax.vars) == 1 and ax.guard is TRUE and ax.sizes[0] is ONE


def is_stringish(t):
    return isinstance(t, T) and (t.op == 'cat' or (t.op == 'k' and t.args[0] == 'str') or
                                 (t.op == 'fn' and t.args[0] in ('str', 'path.join', 'strop')) or
                                 (t.op == 'ite' and is_stringish(t.args[1]) and is_stringish(t.args[2])))


# ---------------------------------------------------------------- conversion

def piece(parts):
    """one axis out of consecutive parts [(Ax or None, Arr axes rest, body)] all without guards"""
    v = fresh_var()
    total = ZERO
    body = None
    out = []
    for ax, b in parts:
        if ax is None:
            n, val = ONE, b
        else:
            n = ax.length()
            val = b
        out.append((ax, total, n, val))
        total = add(total, n)
    for ax, off, n, val in reversed(out):
        if ax is not None:
            val = subst(val, {ax.vars[0]: sub(v, off)})
        if body is None:
            body = val
        else:
            body = ite(lt(v, add(off, n)), val, body)
    return Ax([v], [total]), body


def to_arr(I, st, v, node=None):
    """array contents of a value: an Arr, a scalar term, or None when it is not array-like"""
    v = I.resolve(v, st.pc)
    if isinstance(v, ArrRef) or isinstance(v, Arr):
        return I.arr(st, v)
    if isinstance(v, T):
        if v.op == 'range':
            lo, hi, step = v.args
            x = fresh_var()
            if step is ONE:
                return Arr([Ax([x], [sub(hi, lo)])], add(lo, x))
            return Arr([Ax([x], [ceil(div(sub(hi, lo), step))])], add(lo, mul(step, x)))
        if v.op == 'tup':
            return to_arr(I, st, Tup(v.args), node)
        if v.op == 'lam':
            axes = []
            while v.op == 'lam':
                vs, sz, g, v = open_lam(v)
                axes.append(Ax(vs, sz, g))
            return Arr(axes, v)
        return v
    if isinstance(v, Choice):
        a, b = to_arr(I, st, v.a, node), to_arr(I, st, v.b, node)
        if isinstance(a, T) and isinstance(b, T):
            return ite(v.cond, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return I.merge_arr(v.cond, a, b)
        return None
    if isinstance(v, Tup):
        segs = [Seg((), (), TRUE, x) for x in v.items]
    elif isinstance(v, ListRef):
        l = st.cells[('L', v.id)]
        if l.phi is not None or l.mixed:
            return None
        segs = list(l.segs)
    else:
        return None
    if not segs:
        return Arr([plain_axis(ZERO)], ZERO)
    parts = []
    for s in segs:
        m = {x: fresh_var() for x in s.vars}
        val = to_arr(I, st, I.vsubst(st, s.value, m), node)
        if val is None:
            return None
        parts.append((tuple(m.values()), tuple(subst(x, m) for x in s.sizes), subst(s.guard, m), val))
    # inner axes must agree
    first = parts[0][3]
    inner = []
    if isinstance(first, Arr):
        inner = list(first.axes)
    bodies = []
    for vs, sz, g, val in parts:
        if isinstance(val, Arr):
            if len(val.axes) != len(inner):
                return None
            m = {}
            ax2 = None
            for p, q in zip(inner, val.axes):
                if not I.unify(p, q, m):
                    ax2 = False
                    break
            if ax2 is False:
                if val is first:
                    m = {}
                else:
                    pv, m = plainify(val, len(inner)), {}
                    if not all([I.unify(p, q, m) for p, q in zip(inner, pv.axes)]):
                        # sequences listed differently: compare them position by position
                        inner0 = plainify(Arr(inner, ZERO), len(inner))
                        m = assume_fit(I, inner0.axes, pv.axes)
                        if m is None or bodies and len(bodies) != parts.index((vs, sz, g, val)):
                            return None
                        vals = [plainify(p[3], len(inner)) for p in parts[:len(bodies)]]
                        ms = [assume_fit(I, inner0.axes, q.axes) for q in vals]
                        if any(q is None for q in ms):
                            return None
                        bodies = [subst(q.body, mm) for q, mm in zip(vals, ms)]
                        inner = list(inner0.axes)
                    val = pv
            bodies.append(subst(val.body, m))
        else:
            if inner:
                return None
            bodies.append(val)
    if len(parts) == 1 and parts[0][0]:
        vs, sz, g, _ = parts[0]
        return Arr([Ax(vs, sz, g)] + inner, bodies[0])
    if any(g is not TRUE or len(vs) > 1 for vs, sz, g, _ in parts):
        if any(g is not TRUE and not vs for vs, sz, g, _ in parts) or any(g is not TRUE for vs, sz, g, _ in parts):
            return None
    if all(not p[0] for p in parts) and len(parts) > 3:
        x = fresh_var()
        return Arr([Ax([x], [num(len(parts))])] + inner, tab((len(parts),), tuple(bodies), (x,)))
    pp = []
    for (vs, sz, g, _), b in zip(parts, bodies):
        if len(vs) > 1:
            return None
        pp.append((Ax(vs, sz, g) if vs else None, b))
    ax, body = piece(pp)
    return Arr([ax] + inner, body)


def nth(dom, j):
    """j-th element (row-major, guard respected) of a sequence given as a lam; the plain one-variable case is direct"""
    if dom.op == 'lam' and len(dom.args[1]) == 1 and dom.args[2] is TRUE:
        return open_lam(dom, [j])[3]
    if dom.op == 'lam' and len(dom.args[1]) == 1:
        # position j of a filtered range, written once for every quantity listed over it
        x = fresh_var()
        _, sz, g, body = open_lam(dom, [x])
        if body is x:
            return _mk('nth', dom, j)
        return subst(body, {x: _mk('nth', lam((x,), sz, g, x), j)})
    return nth_at(dom, j)


def unfilter_vars(vs, sizes, guard, terms):
    """positions v < count(range | guard) that are only used to look up the filtered range become the range's own
    indices under its guard.  Returns (vars, sizes, guard, terms) or None when nothing changes"""
    vs, sizes, terms = list(vs), list(sizes), list(terms)
    changed = False
    again = True
    while again:
        again = False
        for k, (v, sz) in enumerate(zip(vs, sizes)):
            if sz.op != 'count':
                continue
            L = sz.args[0]
            new = [fresh_var() for _ in L.args[1]]
            _, nsz, ng, _ = open_lam(L, new)
            m = {}
            for t in terms + [guard] + sizes[k + 1:]:
                for x in subterms(t):
                    if x.op == 'nth' and x.args[1] is v and x not in m:
                        M = x.args[0]
                        if len(M.args[1]) == len(new):
                            _, a, g, b = open_lam(M, new)
                            if g is ng and all(p is q for p, q in zip(a, nsz)):
                                m[x] = b
            rest = [subst(t, m) for t in terms]
            g2 = subst(guard, m)
            s2 = [subst(t, m) for t in sizes[k + 1:]]
            if any(v in fvs(t) for t in rest + [g2] + s2):
                continue
            vs[k:k + 1] = new
            sizes[k:] = list(nsz) + s2
            guard = andd(ng, g2)
            terms = rest
            changed = again = True
            break
    return (tuple(vs), tuple(sizes), guard, terms) if changed else None


def unfilter(arr):
    axes, body = list(arr.axes), arr.body
    for k, a in enumerate(axes):
        if not any(s.op == 'count' for s in a.sizes):
            continue
        inner = axes[k + 1:]
        flat = [x for q in inner for x in q.sizes + (q.guard,)] + [body]
        r = unfilter_vars(a.vars, a.sizes, a.guard, flat)
        if r is None:
            continue
        axes[k] = Ax(r[0], r[1], r[2])
        it = iter(r[3])
        for q in range(k + 1, len(axes)):
            o = axes[q]
            sz = tuple(next(it) for _ in o.sizes)
            axes[q] = Ax(o.vars, sz, next(it))
        body = next(it)
    return Arr(axes, body)


def plain_ax(a):
    return len(a.vars) == 1 and a.guard is TRUE


def plainify(arr, n=1):
    """rewrite the first n axes as plain axes (one variable, no guard)"""
    axes, body = list(arr.axes), arr.body
    for k in range(min(n, len(axes))):
        a = axes[k]
        if plain_ax(a):
            continue
        # the array as a sequence over axis k of its elements; other axes' variables stay free inside
        inner = axes[k + 1:]
        b = body
        v = fresh_var()
        if inner:
            m = {}
            closed = b
            for x in reversed(inner):
                closed = close_axis(x, closed)
            el = nth(lam(a.vars, a.sizes, a.guard, closed), v)
            idx = [x.vars[0] if plain_ax(x) else None for x in inner]
            if any(i is None for i in idx):
                return arr
            body = at(el, *idx)
        else:
            body = nth(lam(a.vars, a.sizes, a.guard, b), v)
        axes[k] = Ax([v], [a.length()])
    return Arr(axes, body)


# ---------------------------------------------------------------- broadcasting

def align(I, arrs, force=False):
    """common axes of broadcast arrays: (axes, [body per array]) ; None when they do not provably fit"""
    nd = max(len(a.axes) for a in arrs)
    axes = []
    maps = [dict() for _ in arrs]
    cur = [Arr(a.axes, a.body) for a in arrs]
    for p in range(nd):
        ents = []
        for i, a in enumerate(cur):
            k = p - (nd - len(a.axes))
            if k >= 0:
                ents.append((i, a.axes[k]))
        wide = [(i, x) for i, x in ents if not isone(x)]
        if not wide:
            out = ents[0][1]
            for i, x in ents[1:]:
                maps[i][x.vars[0]] = out.vars[0]
            axes.append(out)
            continue
        out = wide[0][1]
        for i, x in ents:
            if isone(x):
                maps[i][x.vars[0]] = ZERO
            elif x is not out:
                m = dict(maps[i])
                if not I.unify(out, x, m):
                    f = assume_fit(I, [out], [x]) if force else None
                    if f is None:
                        return None
                    m = {**maps[i], **f}
                maps[i] = m
        axes.append(out)
    return axes, [subst(a.body, m) for a, m in zip(cur, maps)]


def broadcast(I, arrs):
    r = align(I, arrs)
    if r is not None:
        return r
    # filtered axes on several sides: compare as sequences
    pl = [plainify(a, len(a.axes)) for a in arrs]
    r = align(I, pl)
    if r is not None:
        return r
    return align(I, pl, True)


def assume_fit(I, axes, other):
    """variables of other renamed to those of axes, taking lengths that are not known to differ as equal (an operation on
    arrays of different lengths raises, so its result only exists when they are)"""
    m = {}
    if len(axes) != len(other):
        return None
    for p, q in zip(axes, other):
        if I.unify(p, q, m):
            continue
        if not (plain_ax(p) and plain_ax(q)) or logic.equal(p.sizes[0], q.sizes[0]) is False and cval(sub(p.sizes[0], q.sizes[0])) is not None:
            return None
        m[q.vars[0]] = p.vars[0]
    return m


def elementwise(I, st, f, values, node=None):
    vals = [I.resolve(v, st.pc) for v in values]
    for i, v in enumerate(vals):
        if isinstance(v, Choice):
            def g(x, s, i=i):
                vs = list(vals)
                vs[i] = x
                return elementwise(I, s, f, vs, node)
            return I.map_choice(st, v, g)
    cs = []
    for v in vals:
        c = to_arr(I, st, v, node)
        if c is None:
            return I.unk('operand', node)
        cs.append(c)
    if all(isinstance(c, T) for c in cs):
        return f(*cs)
    arrs = [c for c in cs if isinstance(c, Arr)]
    r = broadcast(I, arrs)
    if r is None:
        return I.new_arr(st, arrs[0].axes, _mk('misaligned', *[a.closed() for a in arrs]))
    axes, bodies = r
    it = iter(bodies)
    return I.new_arr(st, axes, f(*[c if isinstance(c, T) else next(it) for c in cs]))


# ---------------------------------------------------------------- indexing

def norm_index(i, n):
    c = cval(i)
    if c is not None and c < 0:
        return add(n, i)
    return i


def slice_bounds(s, n):
    """(lo, length, step) of a slice of a sequence of length n"""
    step = ONE if s.step is NONE else s.step
    c = cval(step)
    if c is not None and c < 0:
        if s.lo is NONE and s.hi is NONE and c == -1:
            return sub(n, ONE), n, num(-1)
        if c == -1 and all(x is NONE or isinstance(x, T) and cval(x) is not None for x in (s.lo, s.hi)):
            # clipped as Python does: start at most the last item, stop at least before the first
            at_ = lambda x: x if cval(x) >= 0 else max2(add(n, x), num(-1))
            lo = sub(n, ONE) if s.lo is NONE else min2(at_(s.lo), sub(n, ONE))
            hi = num(-1) if s.hi is NONE else at_(s.hi)
            return lo, max2(sub(lo, hi), ZERO), num(-1)
        return None
    lo = ZERO if s.lo is NONE else s.lo
    hi = n if s.hi is NONE else s.hi
    if not isinstance(lo, T) or not isinstance(hi, T):
        return None
    if s.lo is not NONE:
        lo = norm_index(lo, n)
    if s.hi is not NONE:
        cl = cval(s.hi)
        cn = cval(n)
        if cl is not None and cl < 0:
            hi = add(n, s.hi)
        elif hi is not n:
            hi = min2(hi, n)
    ln = sub(hi, lo)
    if step is not ONE:
        ln = ceil(div(ln, step))
    return lo, ln, step


def is_full(s):
    return isinstance(s, SliceVal) and s.lo is NONE and s.hi is NONE and (s.step is NONE or s.step is ONE)


def flat_indices(I, st, idx):
    out = []
    for i in idx:
        i = I.resolve(i, st.pc)
        if isinstance(i, (Tup, ListRef)):
            c = to_arr(I, st, i)
            out.append(c if c is not None else I.unk('index'))
        elif isinstance(i, ArrRef):
            out.append(I.arr(st, i))
        else:
            out.append(i)
    return out


def full_dots(I, st, v, idx):
    """the indices with `...` replaced by the full slices it stands for"""
    if not any(i is ELLIPSIS for i in idx):
        return idx
    a = I.arr(st, v)
    if a is None or sum(i is ELLIPSIS for i in idx) > 1:
        return [I.unk('constant') if i is ELLIPSIS else i for i in idx]
    used = 0
    for i in idx:
        if i is NONE or i is ELLIPSIS:
            continue
        b = I.arr(st, i) if isinstance(i, (ArrRef, Arr)) else None
        used += len(b.axes) if b is not None and is_bool(b.body) else 1
    out = []
    for i in idx:
        out += [SliceVal(NONE, NONE, NONE)] * max(0, len(a.axes) - used) if i is ELLIPSIS else [i]
    return out


def take_axis(arr, k, j):
    """array with axis k fixed at index j (a term)"""
    axes = list(arr.axes)
    a = axes[k]
    if plain_ax(a):
        return Arr(axes[:k] + axes[k + 1:], subst(arr.body, {a.vars[0]: j}))
    p = plainify(Arr(axes[k:], arr.body), 1)
    if not plain_ax(p.axes[0]):
        return Arr(axes[:k] + axes[k + 1:], unk('row of a filtered axis'))
    return Arr(axes[:k] + list(p.axes[1:]), subst(p.body, {p.axes[0].vars[0]: j}))


def index_arr(I, st, v, idx, node=None):
    a = I.arr(st, v)
    idx = flat_indices(I, st, full_dots(I, st, v, idx))
    nd = sum(1 for i in idx if i is not NONE and not (isinstance(i, T) and i.op == 'k' and i.args[0] == 'Ellipsis')
             ) + sum((len(i.axes) - 1) for i in idx if isinstance(i, Arr) and is_bool(i.body))
    if a is None and isinstance(v, T) and v.op in ('at', 'call', 'attr') and len(idx) == 1 and isinstance(idx[0], T) and cval(idx[0]) is not None and cval(idx[0]) >= 0:
        return at(v, idx[0])        # a component of an opaque record
    if a is None and isinstance(v, T) and (v.op == 'at' or v.op == 'sym' and v.args[1] == 'o') and len(idx) == 1 and isinstance(idx[0], T) and cval(idx[0]) is not None:
        return at(v, idx[0] if cval(idx[0]) >= 0 else add(I.length(st, v), idx[0]))
    if a is None:
        return I.unk('item of a mixed sequence', node)
    axes = list(a.axes)
    body = a.body
    out = []
    pos = 0
    fancy = []
    fpos = None
    extra = []
    for n_, i in enumerate(idx):
        if i is NONE:
            out.append(plain_axis(ONE))
            continue
        if pos >= len(axes):
            # indexing into opaque elements
            extra.append(i)
            continue
        if isinstance(i, SliceVal):
            ax = axes[pos]
            if is_full(i):
                out.append(ax)
                pos += 1
                continue
            if not plain_ax(ax):
                p = plainify(Arr(axes[pos:], body), 1)
                if not plain_ax(p.axes[0]):
                    return I.unk('slice of a filtered axis', node)
                axes[pos:] = list(p.axes)
                body = p.body
                ax = axes[pos]
            b = slice_bounds(i, ax.sizes[0])
            if b is None:
                return I.unk('slice', node)
            lo, ln, step = b
            v2 = fresh_var()
            body = subst(body, {ax.vars[0]: add(lo, mul(step, v2))})
            out.append(Ax([v2], [ln]))
            pos += 1
            continue
        if isinstance(i, Arr):
            if is_bool(i.body):
                k = len(i.axes)
                m = {}
                tgt = axes[pos:pos + k]
                if len(tgt) < k or not all(I.unify(p, q, m) for p, q in zip(tgt, i.axes)):
                    pa, pi = plainify(Arr(axes[pos:], body), k), plainify(i, k)
                    m = {}
                    if len(pa.axes) >= k and not all(I.unify(p, q, m) for p, q in zip(pa.axes[:k], pi.axes)):
                        m = assume_fit(I, pa.axes[:k], pi.axes)
                    if len(pa.axes) < k or m is None:
                        return I.new_arr(st, list(a.axes), _mk('misaligned', a.closed(), i.closed()))
                    axes[pos:] = list(pa.axes)
                    body = pa.body
                    tgt = axes[pos:pos + k]
                    i = pi
                g = subst(i.body, m)
                vs, sz, gd = (), (), g
                for x in tgt:
                    vs += x.vars
                    sz += x.sizes
                    gd = andd(gd, x.guard)
                out.append(Ax(vs, sz, gd))
                pos += k
                continue
            ax = axes[pos]
            fancy.append((pos, i))
            if fpos is None:
                fpos = len(out)
            out.append(('fancy', len(fancy) - 1))
            pos += 1
            continue
        if isinstance(i, T):
            if is_bool(i):
                return I.unk('boolean scalar index', node)
            ax = axes[pos]
            if plain_ax(ax):
                body = subst(body, {ax.vars[0]: norm_index(i, ax.sizes[0])})
            else:
                p = plainify(Arr(axes[pos:], body), 1)
                if not plain_ax(p.axes[0]):
                    return I.unk('index of a filtered axis', node)
                axes[pos:] = list(p.axes)
                body = subst(p.body, {p.axes[0].vars[0]: norm_index(i, p.axes[0].sizes[0])})
            pos += 1
            continue
        return I.unk('index', node)
    rest = axes[pos:]
    if fancy:
        arrs = [f for _, f in fancy]
        r = broadcast(I, arrs)
        if r is None:
            return I.new_arr(st, list(a.axes), _mk('misaligned', *[x.closed() for x in arrs]))
        fax, fb = r
        sub_ = {}
        for (p, f), b in zip(fancy, fb):
            ax = axes[p]
            if not plain_ax(ax):
                q = plainify(Arr(axes[p:], body), 1)
                if not plain_ax(q.axes[0]):
                    return I.unk('fancy index of a filtered axis', node)
                if axes[p + 1:] and rest is axes[p + 1:]:
                    pass
                body = q.body
                rest = list(q.axes[1:]) if p == len(axes) - 1 - len(rest) else rest
                ax = q.axes[0]
            sub_[ax.vars[0]] = norm_index(b, ax.sizes[0])
        body = subst(body, sub_)
        res = []
        done = False
        for o in out:
            if isinstance(o, tuple):
                if not done:
                    res += list(fax)
                    done = True
            else:
                res.append(o)
        out = res
    if extra:
        if all(isinstance(e, T) for e in extra):
            body = at(body, *extra)
        else:
            body = unk('index of an element')
    return known_shape(I, st, list(out) + list(rest), body)


def known_shape(I, st, out, body):
    """an array; a selection from an array of known shape by known conditions has a known shape"""
    if any(x.guard is not TRUE or len(x.vars) > 1 for x in out) and all(cval(z) is not None and cval(z) <= 32 for x in out for z in x.sizes):
        from .concrete import grid, make
        g = grid(I, st, Arr(out, body))
        if g is not None:
            return make(I, st, g)
    return I.new_arr(st, out, body)


def assign_arr(I, st, ref, idx, value, node=None):
    """contents of the array after ref[idx] = value"""
    a = st.cells[('A', ref.id)].fresh()
    idx = flat_indices(I, st, full_dots(I, st, ref, idx))
    val = to_arr(I, st, value, node)
    if val is None:
        st.cells[('A', ref.id)] = Arr(a.axes, I.unk('assigned value', node))
        return
    kind = I.kinds.get(ref.id)
    if kind is not None:
        from .npmodels import stored
        val = stored(I, st, val, kind, node)
    axes = list(a.axes)
    cond = TRUE
    tgt = []            # (Ax the value is matched with, {value var -> expression} builder)
    pos = 0
    scat = None

    def bad(why):
        st.cells[('A', ref.id)] = Arr(a.axes, I.unk(why, node))

    fancies = [i for i in idx if isinstance(i, Arr) and not is_bool(i.body)]
    for i in idx:
        if i is NONE or pos >= len(axes):
            return bad('assignment index')
        ax = axes[pos]
        if isinstance(i, SliceVal):
            if is_full(i):
                tgt.append((ax, ax.vars[0] if plain_ax(ax) else None))
                pos += 1
                continue
            if not plain_ax(ax):
                return bad('assignment to a slice of a filtered axis')
            b = slice_bounds(i, ax.sizes[0])
            if b is None:
                return bad('assignment slice')
            lo, ln, step = b
            v = ax.vars[0]
            if step is ONE:
                c = le(lo, v)
                if not (i.hi is NONE):
                    c = andd(c, lt(v, add(lo, ln)))
                e = sub(v, lo)
            else:
                e = div(sub(v, lo), step)
                c = andd(le(lo, v), eq(mod(sub(v, lo), step), ZERO), lt(e, ln))
            cond = andd(cond, c)
            tgt.append((Ax([fresh_var()], [ln]), e))
            pos += 1
            continue
        if isinstance(i, Arr) and is_bool(i.body):
            k = len(i.axes)
            m = {}
            if len(axes[pos:pos + k]) < k or not all(I.unify(p, q, m) for p, q in zip(axes[pos:pos + k], i.axes)):
                return bad('mask does not fit')
            g = subst(i.body, m)
            cond = andd(cond, g)
            vs, sz, gd = (), (), g
            for x in axes[pos:pos + k]:
                vs += x.vars
                sz += x.sizes
                gd = andd(gd, x.guard)
            tgt.append((Ax(vs, sz, gd), None))
            pos += k
            continue
        if isinstance(i, Arr):
            if len(i.axes) != 1 or len(fancies) > 1 or not plain_ax(ax):
                return bad('fancy assignment')
            iax = i.axes[0]
            m = {}
            if len(iax.vars) == 1 and i.body is iax.vars[0] and (
                    iax.sizes[0] is ax.sizes[0] or logic.equal(iax.sizes[0], ax.sizes[0]) is True):
                g = subst(iax.guard, {iax.vars[0]: ax.vars[0]})
                cond = andd(cond, g)
                tgt.append((Ax(ax.vars, ax.sizes, g), None))
            elif all(cval(t) is not None for t in [iax.sizes[0]]) and plain_ax(iax) and cval(iax.sizes[0]) <= 8:
                scat = ('const', iax, i.body, ax)
                tgt.append((iax, 'scat'))
            else:
                scat = ('gen', iax, i.body, ax)
                tgt.append((iax, 'scat'))
            pos += 1
            continue
        if isinstance(i, T):
            if not plain_ax(ax):
                return bad('assignment into a filtered axis')
            cond = andd(cond, eq(ax.vars[0], norm_index(i, ax.sizes[0])))
            pos += 1
            continue
        return bad('assignment index')
    for ax in axes[pos:]:
        tgt.append((ax, ax.vars[0] if plain_ax(ax) else None))
    if isinstance(val, Arr):
        if not tgt:
            # a one-element array stored in a scalar slot
            b = val
            while b.axes:
                b = take_axis(b, 0, ZERO)
            nb = b.body
        else:
            while len(val.axes) > len(tgt) and isone(val.axes[0]):
                val = take_axis(val, 0, ZERO)
            if len(val.axes) > len(tgt):
                return bad('assigned value has more axes than its target')
            nb = val.body
            for k in range(len(val.axes)):
                x = val.axes[len(val.axes) - 1 - k]
                tx, e = tgt[len(tgt) - 1 - k]
                if isone(x):
                    nb = subst(nb, {x.vars[0]: ZERO})
                    continue
                if e == 'scat':
                    m = {}
                    if not I.unify(tx, x, m):
                        return bad('scattered values do not fit')
                    nb = subst(nb, m)
                    continue
                m = {}
                if e is not None and plain_ax(x):
                    nb = subst(nb, {x.vars[0]: e})
                elif I.unify(tx, x, m):
                    nb = subst(nb, m)
                elif e is None and plain_ax(x) and x.sizes[0] is count(lam(tx.vars, tx.sizes, tx.guard, TRUE)):
                    # the j-th selected position gets the j-th value
                    nb = subst(nb, {x.vars[0]: _mk('rank', lam(tx.vars, tx.sizes, tx.guard, TRUE), *tx.vars)})
                else:
                    return bad('assigned value does not fit')
    else:
        nb = val
    if scat is not None:
        kind, iax, ib, ax = scat
        if kind == 'const':
            b = a.body
            for q in range(int(cval(iax.sizes[0]))):
                m = {iax.vars[0]: num(q)}
                b = ite(andd(cond, eq(ax.vars[0], norm_index(subst(ib, m), ax.sizes[0]))), subst(nb, m), b)
            st.cells[('A', ref.id)] = Arr(a.axes, b)
            return
        nb2 = _mk('scat', lam(iax.vars, iax.sizes, iax.guard, _mk('tup', ib, nb)), ax.vars[0], a.body)
        st.cells[('A', ref.id)] = Arr(a.axes, ite(cond, nb2, a.body))
        return
    st.cells[('A', ref.id)] = Arr(a.axes, ite(cond, nb, a.body))


# ---------------------------------------------------------------- reductions

def reduce_arr(I, st, op, v, axis, node=None, keepdims=False, body_f=None, post=None, init=None):
    """fold of an array over one axis (an integer), several, or all of them (None)"""
    v = I.resolve(v, st.pc)
    if isinstance(v, Choice):
        return I.map_choice(st, v, lambda x, s: reduce_arr(I, s, op, x, axis, node, keepdims, body_f, post))
    a = to_arr(I, st, v, node)
    if a is None:
        return I.unk('reduction', node)
    if isinstance(a, T):
        if is_const(a) or a.op in ('at', 'poly') and False:
            return (post or (lambda x: x))((body_f or (lambda x: x))(a))
        # an array the analyser knows nothing about the shape of
        return _mk('call?', 'reduce:' + op, (a, num(axis) if isinstance(axis, int) else const(str(axis))))
    bf = body_f or (lambda x: x)
    pf = post or (lambda x: x)
    n = len(a.axes)
    if axis is None:
        which = list(range(n))
    else:
        which = sorted({(x + n) % n for x in (axis if isinstance(axis, (list, tuple)) else [axis])})
        if any(x >= n for x in which):
            return I.unk('axis', node)
    body = bf(a.body)
    if op in ('all', 'any'):
        body = truth(body)
    keep = [k for k in range(n) if k not in which]
    vs, sz, gd = (), (), TRUE
    for k in which:
        vs += a.axes[k].vars
        sz += a.axes[k].sizes
        gd = andd(gd, a.axes[k].guard)
    if op == 'all':
        r = forall(lam(vs, sz, gd, body))
    elif op == 'count':
        r = count(lam(vs, sz, andd(gd, truth(body)), TRUE))
    else:
        r = red(op, lam(vs, sz, gd, body))
    r = pf(r)
    axes = [a.axes[k] for k in keep]
    if keepdims:
        axes = [plain_axis(ONE) if k in which else a.axes[k] for k in range(n)]
    return I.new_arr(st, axes, r)


def combine_axes(axes):
    vs, sz, gd = (), (), TRUE
    for x in axes:
        vs += x.vars
        sz += x.sizes
        gd = andd(gd, x.guard)
    return Ax(vs, sz, gd)


def drop_ones(ax):
    """row-major product axis without the factors of length one"""
    return ax
