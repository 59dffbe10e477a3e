"""Small driver over the interpreter: load modules, call functions, keep the events of a call."""
import sys
import warnings
warnings.simplefilter('ignore', SyntaxWarning)
from .loader import Repo, AnchorMissing
from .interp import Interp, State
from .values import *
from .terms import *
from .terms import _mk
from . import logic

sys.setrecursionlimit(20000)
_repo = None


def repo():
    global _repo
    if _repo is None:
        _repo = Repo()
    return _repo


class Run:
    """one abstract execution"""

    def __init__(self, *modules, rp=None):
        self.repo = rp or repo()
        self.I = Interp(self.repo)
        self.st = State()
        self.mods = {}
        for m in modules:
            self.I.load(self.st, m)

    def get(self, mod, qual):
        m = self.repo.module(mod)
        if mod not in self.I.loaded:
            self.I.load(self.st, mod)
        v = self.I.mod_attr(self.st, m, qual.split('.')[0])
        if v is None:
            raise AnchorMissing('%s.%s' % (mod, qual))
        for p in qual.split('.')[1:]:
            v = self.I.get_attr(self.st, v, p, None)
        return v

    def call(self, mod, qual, *args, **kw):
        return self.I.call(self.st, self.get(mod, qual), list(args), kw, None)

    def method(self, obj, name, *args, **kw):
        f = self.I.get_attr(self.st, obj, name, None)
        if isinstance(f, T) and f.op == 'unk':
            raise AnchorMissing('method %s of %s' % (name, getattr(getattr(obj, 'cls', None), 'name', obj)))
        return self.I.call(self.st, f, list(args), kw, None)

    def attr(self, obj, name):
        return self.I.get_attr(self.st, obj, name, None)

    def closed(self, v):
        return self.I.closed(self.st, v)

    def fork(self):
        return self.st.copy()

    def mark(self):
        return len(self.I.events)

    def since(self, n):
        return self.I.events[n:]

    def array(self, name, *sizes, flags='x'):
        """an arbitrary input array of the given shape"""
        vs = [fresh_var() for _ in sizes]
        return self.I.new_arr(self.st, [Ax([v], [s]) for v, s in zip(vs, sizes)], at(sym(name, flags), *vs))
