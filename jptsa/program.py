"""Program model: every module of src/jpt, Python and Cython alike, as Python ``ast``.

Nothing here imports or runs code of the repository.
"""
import ast
import hashlib
import os

from .cyfront import cython_to_ast


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: no verdict (exit code 2)."""


class Module:
    def __init__(self, name, path, tree, kind):
        self.name, self.path, self.tree, self.kind = name, path, tree, kind
        self.rel = None


class FuncRef:
    __slots__ = ('name', 'node', 'module', 'cls', 'kind', 'uid', 'decorators', 'isgen', 'closure', 'qual', 'reachable_yield')

    def __init__(self, name, node, module, cls=None, kind='func', closure=None):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.uid = (module.name, node.lineno, node.col_offset, name)
        self.closure = closure
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        self.qual = (cls.name + '.' if cls is not None else '') + name

    def __repr__(self):
        return '<fn %s>' % self.qual

    def __hash__(self):
        return hash((self.uid, self.closure))

    def __eq__(self, o):
        return isinstance(o, FuncRef) and self.uid == o.uid and self.closure == o.closure


def own_nodes(fn):
    """AST nodes of a function, not descending into nested functions / lambdas / classes."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassRef:
    def __init__(self, name, node, module, bases, outer=None):
        self.name, self.node, self.module = name, node, module
        self.bases = bases            # list of ClassRef | str (dotted external name)
        self.attrs = {}               # name -> Val (filled by the interpreter) or FuncRef kinds
        self.methods = {}             # name -> list[FuncRef] (property getters/setters separated)
        self.setters = {}
        self.qual = name

    def __repr__(self):
        return '<cls %s>' % self.name

    def mro(self):
        out = []

        def go(c):
            if c in out:
                return
            out.append(c)
            if isinstance(c, ClassRef):
                for b in c.bases:
                    go(b)
        go(self)
        return out

    def subclass_of(self, other):
        return other in self.mro()


class Program:
    """All modules; parsed once."""

    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, 'src')
        self.modules = {}
        self.digest = hashlib.sha256()
        self.files = []
        base = os.path.join(self.src, 'jpt')
        if not os.path.isdir(base):
            raise AnalysisBroken('no package src/jpt under %s' % root)
        for d, dirs, fs in sorted(os.walk(base)):
            dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'build'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.src)
                if f.endswith('.py') or f.endswith('.pyx'):
                    mn = rel.rsplit('.', 1)[0].replace(os.sep, '.')
                    if mn.endswith('.__init__'):
                        mn = mn[:-9]
                    if f.endswith('.py') and os.path.exists(p + 'x'):
                        continue
                    self.add(mn, p, rel)
        for m in list(self.modules.values()):
            if m.kind == 'pyx':
                pxd = m.path[:-3] + 'pxd'
                if os.path.exists(pxd):
                    t = cython_to_ast(pxd, m.name)
                    for n in ast.walk(t):
                        n._mod = m
                    with open(pxd, 'rb') as fh:
                        self.digest.update(fh.read())
                    self.files.append(os.path.relpath(pxd, root))
                    # inline function definitions that live in the .pxd
                    have = {s.name for s in m.tree.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
                    extra = [s for s in t.body if isinstance(s, ast.FunctionDef) and s.name not in have]
                    m.tree.body[:0] = extra
                    m.pxd = t

    def add(self, name, path, rel):
        with open(path, 'rb') as fh:
            raw = fh.read()
        self.digest.update(raw)
        if path.endswith('.pyx'):
            tree = cython_to_ast(path, name)
            kind = 'pyx'
        else:
            tree = ast.parse(raw, path)
            kind = 'py'
        m = Module(name, path, tree, kind)
        m.rel = os.path.relpath(path, self.root)
        self.files.append(m.rel)
        self.modules[name] = m
        for n in ast.walk(tree):
            n._mod = m
        return m
