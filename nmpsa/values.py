"""Abstract values of the value-graph interpreter (besides scalar terms)."""
from .terms import *
from .terms import _mk, _walk
from . import logic


class Ax:
    """an array axis: row-major product of iteration variables filtered by a guard"""
    __slots__ = ('vars', 'sizes', 'guard')

    def __init__(self, vars, sizes, guard=TRUE):
        self.vars, self.sizes, self.guard = tuple(vars), tuple(sizes), guard

    def length(self):
        if self.guard is TRUE:
            return mul(*self.sizes)
        return count(lam(self.vars, self.sizes, self.guard, TRUE))

    def plain(self):
        return len(self.vars) == 1 and self.guard is TRUE

    def rename(self, m=None):
        """fresh copy; fills m with the renaming"""
        m = {} if m is None else m
        nv = []
        for v in self.vars:
            w = fresh_var()
            m[v] = w
            nv.append(w)
        return Ax(nv, [subst(s, m) for s in self.sizes], subst(self.guard, m))

    def dom(self):
        return lam(self.vars, self.sizes, self.guard, TRUE)


def plain_axis(n):
    return Ax([fresh_var()], [n])


class Arr:
    __slots__ = ('axes', 'body')

    def __init__(self, axes, body):
        self.axes, self.body = tuple(axes), body

    def fresh(self):
        m = {}
        axes = [a.rename(m) for a in self.axes]
        return Arr(axes, subst(self.body, m))

    def sub(self, m):
        """substitute free (non-axis) variables"""
        return Arr([Ax(a.vars, [subst(s, m) for s in a.sizes], subst(a.guard, m)) for a in self.axes],
                   subst(self.body, m))

    @property
    def ndim(self):
        return len(self.axes)

    def closed(self):
        """the whole array as one term"""
        t = self.body
        for a in reversed(self.axes):
            t = close_axis(a, t)
        return t

    def row(self):
        """(first axis, element of the array at the first axis' variables as one term)"""
        t = self.body
        for a in reversed(self.axes[1:]):
            t = close_axis(a, t)
        return self.axes[0], t


def close_axis(a, body):
    if a.guard is TRUE:
        e = eta(a.vars, body)
        if e is not None:
            return e
    return lam(a.vars, a.sizes, a.guard, body)


def eta(vs, t):
    """t as an application to vs, un-applied; None when it is not one"""
    if t.op == 'at':
        idx = t.args[1:]
        k = len(vs)
        if len(idx) >= k and all(x is v for x, v in zip(idx[-k:], vs)):
            rest = idx[:-k]
            if not (t.args[0].free & set(vs)) and not any(i.free & set(vs) for i in rest):
                return at(t.args[0], *rest) if rest else t.args[0]
        return None
    if t.op == 'ite' and not (t.args[0].free & set(vs)):
        a, b = eta(vs, t.args[1]), eta(vs, t.args[2])
        if a is not None and b is not None:
            return ite(t.args[0], a, b)
    return None


class ArrRef:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class Obj:
    __slots__ = ('id', 'cls')

    def __init__(self, id, cls):
        self.id, self.cls = id, cls


class ListRef:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class DictRef:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Seg:
    """part of a list: one element (no variables) or one element per point of a domain"""
    __slots__ = ('vars', 'sizes', 'guard', 'value')

    def __init__(self, vars, sizes, guard, value):
        self.vars, self.sizes, self.guard, self.value = tuple(vars), tuple(sizes), guard, value

    def unit(self):
        return not self.vars and self.guard is TRUE

    def length(self):
        if not self.vars:
            return ite(self.guard, ONE, ZERO)
        if self.guard is TRUE:
            return mul(*self.sizes)
        return count(lam(self.vars, self.sizes, self.guard, TRUE))


class ListVal:
    __slots__ = ('segs', 'phi', 'mixed', 'kind')

    def __init__(self, segs, phi=None, mixed=False, kind='list'):
        self.segs, self.phi, self.mixed, self.kind = tuple(segs), phi, mixed, kind


class DictVal:
    __slots__ = ('items', 'phi', 'segs')

    def __init__(self, items, phi=None, segs=()):
        # items: tuple of (key term, value, presence condition); segs: all (key, value) pairs of a dictionary filled by a loop
        # under distinct keys (its phi is set, as its items are not enumerated)
        self.items, self.phi, self.segs = tuple(items), phi, tuple(segs)


class FuncVal:
    __slots__ = ('node', 'mod', 'frames', 'cls', 'name', 'defaults')

    def __init__(self, node, mod, frames, cls, name, defaults=None):
        self.node, self.mod, self.frames, self.cls, self.name = node, mod, frames, cls, name
        self.defaults = defaults


class Bound:
    __slots__ = ('self', 'func')

    def __init__(self, self_, func):
        self.self, self.func = self_, func


class Method:
    """method of a built-in container / array value"""
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ClassVal:
    __slots__ = ('node', 'mod', 'name', 'bases')

    def __init__(self, node, mod, name, bases):
        self.node, self.mod, self.name, self.bases = node, mod, name, bases

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b.name for b in c.bases if isinstance(b, Ext)]
        return out

    def find(self, name):
        import ast
        for c in self.mro():
            for n in c.node.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
                    return c, n
        return None, None


class ModVal:
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod


class Ext:
    """a name of the world outside the repository, by its dotted path"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class PyVal:
    """contract value: a callable of the environment with a fixed abstract meaning"""
    __slots__ = ('fn', 'name')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Super:
    __slots__ = ('obj', 'cls')

    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


ELLIPSIS = _mk('k', 'ellipsis', '...')


class SliceVal:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Choice:
    __slots__ = ('cond', 'a', 'b')

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class Event:
    __slots__ = ('name', 'recv', 'args', 'kw', 'pc', 'binders', 'whiles', 'result', 'node', 'func', 'file', 'seq', 'cells',
                 'vals')

    def __repr__(self):
        return '<%s(%s) if %s over %s>' % (self.name, ', '.join(show(a) if isinstance(a, T) else str(a)
                                                                for a in self.args), self.pc, self.binders)

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    def where(self):
        return '%s:%d in %s' % (self.file, self.line, self.func)


def unk(why=''):
    return _mk('unk', why, fresh_id())
