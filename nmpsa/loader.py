"""Parsing of the repository's current working tree: modules, classes, functions, import tables."""
import ast
import hashlib
import os

REPO = os.environ.get('NMP_REPO', '/repo')


class AnchorMissing(Exception):
    """a public construct a property is anchored in does not exist any more: the analysis cannot say anything"""


class Module:
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        with open(path, 'r', encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, rel)
        self.digest = hashlib.sha256(self.text.encode()).hexdigest()
        self.functions = {}
        self.classes = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
        self._index(self.tree.body, '')

    def _index(self, body, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                n._qual = prefix + n.name
                self.functions[prefix + n.name] = n
            elif isinstance(n, ast.ClassDef):
                n._qual = prefix + n.name
                self.classes[prefix + n.name] = n
                self._index(n.body, prefix + n.name + '.')
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._index(getattr(n, f, []), prefix)
                for h in getattr(n, 'handlers', []):
                    self._index(h.body, prefix)


class Repo:
    """all python modules of the repository, by dotted name relative to the repository root"""

    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.by_rel = {}
        self.errors = []
        for d, ds, fs in os.walk(self.root):
            ds[:] = sorted(x for x in ds if not x.startswith('.') and x not in ('__pycache__', 'tests'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    try:
                        m = Module(name, p, rel)
                    except SyntaxError as e:
                        self.errors.append((rel, str(e)))
                        continue
                    self.modules[name] = m
                    self.by_rel[rel] = m

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnchorMissing('module %s' % name)
        return m

    def resolve(self, name, importer=None):
        """module object for an imported dotted name: absolute from the repository root, from its exps/ style
        script directories (scripts run with their own directory on the path) or None when it is external"""
        if name in self.modules:
            return self.modules[name]
        if importer is not None:
            d = os.path.dirname(importer.rel)
            rel = os.path.join(d, name.replace('.', os.sep))
            for cand in (rel + '.py', os.path.join(rel, '__init__.py')):
                if cand in self.by_rel:
                    return self.by_rel[cand]
        return None

    def func(self, mod, qual):
        m = self.module(mod)
        f = m.functions.get(qual)
        if f is None:
            raise AnchorMissing('function %s.%s' % (mod, qual))
        return f

    def cls(self, mod, name):
        m = self.module(mod)
        c = m.classes.get(name)
        if c is None:
            raise AnchorMissing('class %s.%s' % (mod, name))
        return c

    def read(self, rel):
        p = os.path.join(self.root, rel)
        if not os.path.exists(p):
            raise AnchorMissing('file %s' % rel)
        with open(p, 'r', encoding='utf-8') as f:
            return f.read()

    def glob(self, reldir, suffix):
        d = os.path.join(self.root, reldir)
        if not os.path.isdir(d):
            raise AnchorMissing('directory %s' % reldir)
        return sorted(os.path.join(reldir, f) for f in os.listdir(d) if f.endswith(suffix))
