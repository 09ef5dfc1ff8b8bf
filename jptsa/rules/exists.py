"""C15: nothing refers to what does not exist.

Name resolution, may-assignment of local variables, attributes of the classes of the library and the binding of arguments, for every function of every module, whether or not
anything calls it."""
import ast
import builtins
import glob
import importlib
import os
import re

from ..program import ClassRef, FuncRef, Program, own_nodes

IMPLICIT = {'__file__', '__name__', '__doc__', '__package__', '__path__', '__builtins__', '__spec__', '__class__', '__module__', '__qualname__', '__dict__', '__debug__'}
CYTHON = {'cython', 'NULL', 'bint', 'size_t'}
FOREIGN_PRIVATE = {'_asdict', '_replace', '_fields', '_make', '_getexception', '_missing_', '_value_', '_name_', '_exit', '_getframe', '_meipass', '_MEIPASS'}
CTYPES = {'sizeof'}


def target_names(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name):
            yield n.id


def scope_nodes(body):
    """the nodes of a scope, with the headers but not the bodies of nested functions and classes, and without comprehensions"""
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack += n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
        elif isinstance(n, ast.Lambda):
            stack += n.args.defaults + [d for d in n.args.kw_defaults if d is not None]
        elif isinstance(n, ast.ClassDef):
            stack += n.decorator_list + n.bases + [k.value for k in n.keywords]
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            continue
        else:
            stack += list(ast.iter_child_nodes(n))


def walrus(n):
    return [x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]


def bound(body, args=None):
    out, glob = set(), set()
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
            out.add(a.arg)
    for n in scope_nodes(body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out |= set(walrus(n))
        elif hasattr(ast, 'MatchAs') and isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out - glob


class Module:
    def __init__(self, m, mods):
        self.m = m
        trees = [m.tree] + ([m.pxd] if getattr(m, 'pxd', None) else [])
        self.names = set().union(*[bound(t.body) for t in trees])
        if m.kind == 'pyx' and os.path.exists(m.path[:-3] + 'pxd'):
            with open(m.path[:-3] + 'pxd') as fh:
                self.names |= set(re.findall(r'^\s*ctypedef\s.*?(\w+)\s*(?:#.*)?$', fh.read(), re.M))
        self.open = False
        self.imports = {}
        for t in trees:
            for n in ast.walk(t):
                if isinstance(n, ast.Global):
                    self.names |= set(n.names)
                if isinstance(n, ast.ImportFrom):
                    src = resolve(m, n, mods)
                    for a in n.names:
                        self.imports[a.asname or a.name] = (src, a.name)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self.imports[a.asname or a.name.split('.')[0]] = ((a.name if a.asname else a.name.split('.')[0]), None)


def resolve(m, n, mods):
    if not n.level:
        return n.module
    parts = m.name.split('.')
    if not m.path.endswith('__init__.py'):
        parts = parts[:-1]
    parts = parts[:len(parts) - (n.level - 1)]
    return '.'.join(parts + ([n.module] if n.module else []))


class Names(ast.NodeVisitor):
    """undefined names"""

    def __init__(self, ctx, M, mods):
        self.ctx, self.M, self.mods = ctx, M, mods
        self.scopes = []
        self.where = [M.m.rel]
        self.classes = []

    def known(self, name):
        for kind, s in self.scopes:
            if kind != 'class' and name in s:
                return True
        if self.scopes and self.scopes[-1][0] == 'class' and name in self.scopes[-1][1]:
            return True
        return name in self.M.names or hasattr(builtins, name) or name in IMPLICIT or (self.M.m.kind == 'pyx' and name in CYTHON | CTYPES) or self.M.open

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.ctx.count('names resolved')
            if not self.known(n.id):
                self.ctx.bad('%s: name %s' % (self.label(), n.id), '%s (line %d) reads the name %s, which is not defined anywhere' % (self.label(), n.lineno, n.id))

    def label(self):
        return '%s %s' % (self.where[0], '.'.join(self.where[1:])) if len(self.where) > 1 else self.where[0]

    def function(self, n, name):
        for d in getattr(n, 'decorator_list', []) + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(d)
        if self.M.m.kind == 'py':
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
                if a.annotation is not None and not isinstance(a.annotation, ast.Constant):
                    self.visit(a.annotation)
            if getattr(n, 'returns', None) is not None:
                self.visit(n.returns)
        body = n.body if isinstance(n.body, list) else [n.body]
        self.where.append(name)
        self.scopes.append(('function', bound(body, n.args)))
        for s in body:
            self.visit(s)
        self.scopes.pop()
        self.where.pop()

    def visit_FunctionDef(self, n):
        self.function(n, n.name)

    def visit_Lambda(self, n):
        self.function(n, '<lambda>')

    def visit_ClassDef(self, n):
        for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(x)
        self.where.append(n.name)
        self.scopes.append(('class', bound(n.body)))
        for s in n.body:
            self.visit(s)
        self.scopes.pop()
        self.where.pop()

    def comp(self, n):
        s = set()
        for g in n.generators:
            s |= set(target_names(g.target))
        # the first iterable belongs to the scope around
        self.visit(n.generators[0].iter)
        self.scopes.append(('function', s))
        for i, g in enumerate(n.generators):
            if i:
                self.visit(g.iter)
            for c in g.ifs:
                self.visit(c)
        for f in ('elt', 'key', 'value'):
            if hasattr(n, f):
                self.visit(getattr(n, f))
        self.scopes.pop()

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp

    def visit_AnnAssign(self, n):
        if self.M.m.kind == 'py' and not isinstance(n.annotation, ast.Constant) and not any(k == 'function' for k, s in self.scopes):
            self.visit(n.annotation)
        self.visit(n.target)
        if n.value is not None:
            self.visit(n.value)


class Assigned:
    """local variables that are read where no assignment can have happened: a forward may-analysis"""

    def __init__(self, ctx, fn, label, pyx):
        self.ctx, self.fn, self.label, self.pyx = ctx, fn, label, pyx
        self.locals = bound(fn.body)
        nl = {x for n in own_nodes(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        self.locals -= nl
        self.brk = []
        args = bound([], fn.args)
        self.bad = {}
        self.block(fn.body, set(args))

    def read(self, e, st):
        if e is None or st is None:
            return
        stack = [e]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = {x for g in n.generators for x in target_names(g.target)}
                for c in ast.walk(n):
                    if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) and c.id in own:
                        c._comp = True
                stack += [g.iter for g in n.generators[:1]] if isinstance(n, ast.GeneratorExp) else list(ast.iter_child_nodes(n))
                st |= set(walrus(n))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and not getattr(n, '_comp', False):
                self.ctx.count('reads of local variables')
                if n.id not in st and not any(n.id in walrus(x) for x in [e]):
                    self.bad.setdefault(n.id, n.lineno)
            stack += list(ast.iter_child_nodes(n))
        st |= set(walrus(e))

    def store(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)

    def assigned_in(self, body):
        return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {n.name for s in body for n in ast.walk(s) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) or isinstance(n, ast.ExceptHandler) and n.name} | \
            {(a.asname or a.name.split('.')[0]) for s in body for n in ast.walk(s) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}

    def join(self, *sts):
        sts = [s for s in sts if s is not None]
        return set().union(*sts) if sts else None

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.read(s.value, st)
            for t in s.targets:
                self.read_target(t, st)
                self.store(t, st)
        elif isinstance(s, ast.AugAssign):
            self.read(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals and s.target.id not in st:
                    self.bad.setdefault(s.target.id, s.lineno)
            else:
                self.read_target(s.target, st)
            self.store(s.target, st)
        elif isinstance(s, ast.AnnAssign):
            self.read(s.value, st)
            if s.value is not None or self.pyx:
                self.store(s.target, st)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.read(c, st)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.brk:
                self.brk[-1].append(set(st))
            return None
        elif isinstance(s, ast.If):
            self.read(s.test, st)
            return self.join(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        elif isinstance(s, (ast.For, ast.While)):
            self.read(s.iter if isinstance(s, ast.For) else s.test, st)
            inner = set(st) | self.assigned_in(s.body)
            first = set(st)
            if isinstance(s, ast.For):
                self.store(s.target, inner)
                self.store(s.target, first)
            self.brk.append([])
            end = self.block(s.body, set(inner))
            brks = self.brk.pop()
            infinite = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            out = self.join(st if not infinite else None, end if not infinite else None, *brks)
            if s.orelse:
                out = self.join(self.block(s.orelse, set(out)) if out is not None else None, *brks)
            return out
        elif isinstance(s, ast.Try):
            before = set(st)
            b = self.block(s.body, set(st))
            mid = before | self.assigned_in(s.body)
            outs = []
            for h in s.handlers:
                x = set(mid)
                if h.name:
                    x.add(h.name)
                outs.append(self.block(h.body, x))
            if s.orelse and b is not None:
                b = self.block(s.orelse, set(b))
            out = self.join(b, *outs)
            if s.finalbody:
                allnames = mid | self.assigned_in(s.orelse) | {x for h in s.handlers for x in self.assigned_in(h.body)}
                f = self.block(s.finalbody, set(allnames))
                if f is None:
                    return None
                if out is not None:
                    out = out | (f - allnames)
            return out
        elif isinstance(s, ast.With):
            for i in s.items:
                self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            return self.block(s.body, st)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            st.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            st |= {a.asname or a.name.split('.')[0] for a in s.names}
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = st - {t.id}
        elif isinstance(s, ast.Expr):
            self.read(s.value, st)
        elif isinstance(s, ast.Assert):
            self.read(s.test, st)
        elif isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            pass
        else:
            st |= self.assigned_in([s])
        return st

    def read_target(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)):
                self.read(n.value, st)
                if isinstance(n, ast.Subscript):
                    self.read(n.slice, st)


class Definite:
    """local variables that are read although a branch that leads there does not assign them: a forward must-analysis. What loops assign counts as assigned behind them, so do the variables
    of if-elif chains without else (which may be exhaustive) and those read behind a condition that has to do with the one they were assigned under"""

    def __init__(self, fn, pyx):
        self.pyx = pyx
        self.bad = {}
        self.locals = bound(fn.body) - {x for n in own_nodes(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        if any(isinstance(n, ast.Name) and n.id in ('locals', 'vars') for n in ast.walk(fn)):
            return
        self.excuse = {}          # variable -> names of the conditions it was assigned under
        self.tests = []           # names in the tests around
        self.loops = []           # what the loops around assign
        self.brk = []
        st = bound([], fn.args)
        if pyx:
            # C variables are declared without a value, which is not an error of Python
            st |= {n.target.id for n in own_nodes(fn) if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)}
        self.block(fn.body, st)

    def names(self, e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(e) if isinstance(n, ast.Attribute)} if e is not None else set()

    def read(self, e, st):
        if e is None or st is None:
            return
        branching = any(isinstance(n, (ast.IfExp, ast.BoolOp)) for n in ast.walk(e))
        around = set().union(*self.tests) if self.tests else set()
        if branching:
            around = around | {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        stack = [(e, frozenset())]
        while stack:
            n, own = stack.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = own | {x for g in n.generators for x in target_names(g.target)}
            if isinstance(n, ast.NamedExpr):
                st.add(n.target.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals and n.id not in own and n.id not in st:
                if n.id in walrus(e) or n.id in self.excuse and (self.excuse[n.id] is None or self.excuse[n.id] & around):
                    continue
                if any(n.id in a and (branching or len(self.tests) > k) for a, k in self.loops):
                    continue
                self.bad.setdefault(n.id, n.lineno)
            stack += [(c, own) for c in ast.iter_child_nodes(n)]

    def assigned_in(self, body):
        return Assigned.assigned_in(self, body)

    def join(self, *sts):
        sts = [s for s in sts if s is not None]
        return set.intersection(*map(set, sts)) if sts else None

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def excused(self, names, under):
        for n in names:
            old = self.excuse.get(n, set())
            self.excuse[n] = None if under is None or old is None else old | under

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.read(s.value, st)
            for t in s.targets:
                Assigned.read_target(self, t, st)
                Assigned.store(self, t, st)
        elif isinstance(s, ast.AugAssign):
            self.read(s.value, st)
            self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s) if isinstance(s.target, ast.Name) else s.target, st)
            Assigned.store(self, s.target, st)
        elif isinstance(s, ast.AnnAssign):
            self.read(s.value, st)
            if s.value is not None:
                Assigned.store(self, s.target, st)
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.read(c, st)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.brk and isinstance(s, ast.Break):
                self.brk[-1].append(set(st))
            return None
        elif isinstance(s, ast.If):
            self.read(s.test, st)
            st = set(st) | set(walrus(s.test))
            chain, e = [s], s
            while len(e.orelse) == 1 and isinstance(e.orelse[0], ast.If):
                e = e.orelse[0]
                chain.append(e)
            inside = self.assigned_in(s.body) | self.assigned_in(s.orelse)
            if len(chain) > 1 and not e.orelse:
                self.excused(inside, None)
            self.tests.append(self.names(s.test))
            a = self.block(s.body, set(st))
            b = self.block(s.orelse, set(st))
            self.tests.pop()
            out = self.join(a, b)
            if out is not None:
                late = (inside - out)
                self.excused(late, self.names(s.test) | inside)
            return out
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.read(s.iter if not isinstance(s, ast.While) else s.test, st)
            inner = set(st)
            if not isinstance(s, ast.While):
                Assigned.store(self, s.target, inner)
            made = self.assigned_in(s.body) | (set(target_names(s.target)) if not isinstance(s, ast.While) else set())
            self.loops.append((made, len(self.tests)))
            self.brk.append([])
            self.block(s.body, inner)
            brks = self.brk.pop()
            self.loops.pop()
            self.excused(made - set(st), None)
            infinite = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            out = set(st) if not infinite else self.join(*brks)
            if s.orelse and out is not None:
                out = self.join(self.block(s.orelse, out), *brks)
            return out
        elif isinstance(s, ast.Try):
            before = set(st)
            b = self.block(s.body, set(st))
            outs = []
            for h in s.handlers:
                saved = {k: (set(v) if v is not None else None) for k, v in self.excuse.items()}
                self.excused(self.assigned_in(s.body) - before, None)
                outs.append(self.block(h.body, before | ({h.name} if h.name else set())))
                self.excuse = saved
            if s.orelse and b is not None:
                b = self.block(s.orelse, set(b))
            out = self.join(b, *outs)
            if s.finalbody:
                saved = {k: (set(v) if v is not None else None) for k, v in self.excuse.items()}
                self.excused((self.assigned_in(s.body) | {x for h in s.handlers for x in self.assigned_in(h.body)} | self.assigned_in(s.orelse)) - before, None)
                f = self.block(s.finalbody, set(before))
                self.excuse = saved
                if f is None:
                    return None
                if out is not None:
                    out = out | f
            return out
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    Assigned.store(self, i.optional_vars, st)
            return self.block(s.body, st)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            st.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            st |= {a.asname or a.name.split('.')[0] for a in s.names}
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = st - {t.id}
        elif isinstance(s, ast.Expr):
            self.read(s.value, st)
        elif isinstance(s, ast.Assert):
            self.read(s.test, st)
        elif isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            pass
        else:
            st |= self.assigned_in([s])
        return st


# -- classes ------------------------------------------------------------------------------------------------

class Class:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.bases, self.subs = [], []
        self.extern = []
        self.members = {}
        self.stored = set()
        self.dynamic = False

    def mro(self):
        out = []

        def go(c):
            if c not in out:
                out.append(c)
                for b in c.bases:
                    go(b)
        go(self)
        return out

    def below(self):
        out = []

        def go(c):
            if c not in out:
                out.append(c)
                for b in c.subs:
                    go(b)
        go(self)
        return out


def classes_of(prog, Ms):
    out = {}
    for m in prog.modules.values():
        for t in [m.tree] + ([m.pxd] if getattr(m, 'pxd', None) else []):
            for n in ast.walk(t):
                if isinstance(n, ast.ClassDef):
                    c = out.get((m.name, n.name))
                    if c is None:
                        c = out[m.name, n.name] = Class(n.name, n, m)
                    fill(c, n)
    for (mn, name), c in out.items():
        for b in c.node.bases:
            r = lookup(Ms, out, mn, b)
            if isinstance(r, Class):
                c.bases.append(r)
                r.subs.append(c)
            else:
                c.extern.append(ast.unparse(b))
    return out


def fill(c, n):
    for s in n.body:
        for x in [s] if not isinstance(s, (ast.If, ast.Try)) else [y for y in ast.walk(s) if isinstance(y, ast.stmt)]:
            if isinstance(x, ast.FunctionDef):
                c.members.setdefault(x.name, []).append(x)
                if x.name in ('__getattr__', '__getattribute__'):
                    c.dynamic = True
                first = (x.args.posonlyargs + x.args.args)[:1]
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, (ast.Store, ast.Del)) and isinstance(y.value, ast.Name) and first and y.value.id == first[0].arg:
                        c.stored.add(y.attr)
            elif isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    for y in target_names(t):
                        c.members.setdefault(y, []).append(x)
            elif isinstance(x, ast.ClassDef):
                c.members.setdefault(x.name, []).append(x)


def lookup(Ms, cls, mod, e, depth=0):
    """the class, function or module that an expression of module mod names; None if unknown"""
    if depth > 6:
        return None
    if isinstance(e, ast.Name):
        if (mod, e.id) in cls:
            return cls[mod, e.id]
        M = Ms.get(mod)
        if M is None:
            return None
        for s in M.m.tree.body:
            if isinstance(s, ast.FunctionDef) and s.name == e.id:
                return ('function', s, M)
        if e.id in M.imports and multiple(M, e.id) == 1:
            src, name = M.imports[e.id]
            if name is None:
                return ('module', src) if src in Ms else None
            if '%s.%s' % (src, name) in Ms:
                return ('module', '%s.%s' % (src, name))
            if src in Ms:
                return lookup(Ms, cls, src, ast.Name(name), depth + 1)
    elif isinstance(e, ast.Attribute):
        b = lookup(Ms, cls, mod, e.value, depth + 1)
        if isinstance(b, tuple) and b[0] == 'module':
            return lookup(Ms, cls, b[1], ast.Name(e.attr), depth + 1)
    return None


def multiple(M, name):
    """how many different things a module binds to a name"""
    n = 0
    for t in [M.m.tree]:
        for s in ast.walk(t):
            if isinstance(s, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split('.')[0]) == name for a in s.names):
                n = max(n, 1)
            elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store) and s.id == name:
                return 2
            elif isinstance(s, ast.arg) and s.arg == name:
                return 2
    return n


def builtin_type(name):
    t = getattr(builtins, name, None)
    return t if isinstance(t, type) else None


def closed(c):
    """the builtin bases of a class whose attributes are all known; None if it has attributes of its own making"""
    ext = []
    for k in c.mro() + c.below():
        if k.dynamic:
            return None
        for b in k.extern:
            b = b.rsplit('.', 1)[-1] if b in ('abc.ABC',) else b
            if b in ('ABC', 'object'):
                continue
            t = builtin_type(b)
            if t is None:
                return None
            ext.append(t)
    return ext + [object]


def decorated(f):
    return {ast.unparse(d).split('(')[0] for d in f.decorator_list}


PLAIN = {'staticmethod', 'classmethod', 'abstractmethod', 'abc.abstractmethod', 'cython.boundscheck', 'cython.wraparound', 'cython.cdivision', 'cython.nonecheck',
         'cython.initializedcheck', 'cython.final', 'cython.inline', 'cython.locals', 'cython.returns'}


def binds(f, call, skip):
    """None if the arguments of a call fit the parameters of a function, else why not"""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kwonly = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = sum(not isinstance(x, ast.Starred) for x in call.args)
    if n > len(pos) and not a.vararg:
        return 'passes %d positional arguments where at most %d are taken' % (n, len(pos))
    kws = [k.arg for k in call.keywords if k.arg is not None]
    for k in kws:
        if k not in pos + kwonly and not a.kwarg:
            return 'passes the argument %s, which does not exist' % k
        if k in pos[:n] and k not in [x.arg for x in a.posonlyargs]:
            return 'passes the argument %s twice' % k
    if not star and not dstar:
        required = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        miss = [p for p in required[n:] if p not in kws] + [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and k.arg not in kws]
        if miss:
            return 'does not pass the argument %s' % miss[0]
    return None


def init_of(c):
    for k in c.mro():
        for n in ('__init__', '__cinit__', '__new__'):
            if n in k.members:
                return [f for f in k.members[n] if isinstance(f, ast.FunctionDef)]
    return None


def guarded(node, parents):
    """inside a try that handles AttributeError (or everything), or behind hasattr"""
    n = node
    while n in parents:
        p = parents[n]
        if isinstance(p, ast.Try) and n in p.body:
            for h in p.handlers:
                t = ast.unparse(h.type) if h.type is not None else 'Exception'
                if 'AttributeError' in t or t in ('Exception', 'BaseException') or 'TypeError' in t or 'NameError' in t:
                    return True
        if isinstance(p, (ast.If, ast.IfExp)) and 'hasattr' in ast.unparse(p.test):
            return True
        n = p
    return False


def own_functions(tree):
    """(function, class or None, label)"""
    def go(body, cls, label):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                yield s, cls, '.'.join(label + [s.name])
                yield from go(s.body, None, label + [s.name])
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, s, label + [s.name])
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from go(getattr(s, f, []), cls, label)
                for h in getattr(s, 'handlers', []):
                    yield from go(h.body, cls, label)
    yield from go(tree.body, None, [])


def rule_C15(ctx):
    ctx.rule('name resolution, may-assignment of local variables, attributes of classes of the library, and binding of arguments, in every function of every module')
    prog = Program(ctx.root)
    mods = prog.modules
    Ms = {n: Module(m, mods) for n, m in mods.items()}
    for M in list(Ms.values()):
        for t in [M.m.tree] + ([M.m.pxd] if getattr(M.m, 'pxd', None) else []):
            for n in ast.walk(t):
                if isinstance(n, ast.ImportFrom):
                    src = resolve(M.m, n, mods)
                    for a in n.names:
                        if a.name == '*':
                            if src in Ms:
                                M.names |= Ms[src].names
                                for k, v in Ms[src].imports.items():
                                    M.imports.setdefault(k, v)
                                for k in Ms[src].names:
                                    M.imports.setdefault(k, (src, k))
                            elif src and not src.startswith('jpt'):
                                M.open = M.open or star_names(M, src)
                        elif src in Ms:
                            ctx.count('imports resolved')
                            if a.name not in Ms[src].names and '%s.%s' % (src, a.name) not in mods and not Ms[src].open:
                                if not guarded_import(M.m.tree, n):
                                    ctx.bad('%s: import %s from %s' % (M.m.rel, a.name, src), '%s (line %d) imports %s from %s, which does not define it' % (M.m.rel, n.lineno, a.name, src))
                        elif src and src.split('.')[0] == 'jpt' and src not in mods and not guarded_import(M.m.tree, n):
                            ctx.bad('%s: import of %s' % (M.m.rel, src), '%s (line %d) imports %s, which does not exist' % (M.m.rel, n.lineno, src))
    for M in Ms.values():
        Names(ctx, M, mods).visit(M.m.tree)
        for f, c, label in own_functions(M.m.tree):
            ctx.count('functions analysed')
            a = Assigned(ctx, f, label, M.m.kind == 'pyx')
            d = Definite(f, M.m.kind == 'pyx')
            for name, line in d.bad.items():
                if name not in a.bad:
                    ctx.bad('%s %s: local %s on some path' % (M.m.rel, label, name), '%s %s (line %d) reads its local variable %s, which a branch that leads there does not assign' % (
                        M.m.rel, label, line, name))
            for name, line in a.bad.items():
                ctx.bad('%s %s: local %s' % (M.m.rel, label, name), '%s %s (line %d) reads its local variable %s where nothing can have been assigned to it' % (M.m.rel, label, line, name))
    cls = classes_of(prog, Ms)
    foreign = set()              # attributes that are stored on other objects than self
    private = set(FOREIGN_PRIVATE)
    for M in Ms.values():
        private |= {x for x in M.names}
        for f, c, label in own_functions(M.m.tree):
            first = [x.arg for x in (f.args.posonlyargs + f.args.args)[:1]] if c is not None else []
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    private.add(n.attr)
                    if not (isinstance(n.value, ast.Name) and n.value.id in first):
                        foreign.add(n.attr)
    for c in cls.values():
        private |= set(c.members) | c.stored
    known = universe(Ms, cls) | private
    named = methods_by_name(cls, Ms)
    for M in Ms.values():
        parents = {x: p for p in ast.walk(M.m.tree) for x in ast.iter_child_nodes(p)}
        for f, cn, label in own_functions(M.m.tree):
            c = cls.get((M.m.name, cn.name)) if cn is not None else None
            where = '%s %s' % (M.m.rel, label)
            inst = None
            if c is not None and 'staticmethod' not in decorated(f):
                first = (f.args.posonlyargs + f.args.args)[:1]
                inst = first[0].arg if first else None
                if inst in bound(f.body):
                    inst = None
            local = bound(f.body, f.args)
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    ctx.count('attribute accesses examined')
                    if n.attr.startswith('_') and not n.attr.startswith('__') and n.attr not in private and not guarded(n, parents) or \
                            not n.attr.startswith('_') and n.attr not in known and root_of(n) not in M.foreign and not guarded(n, parents):
                        ctx.bad('%s: attribute %s' % (M.m.rel, n.attr), '%s (line %d) reads the attribute %s, which nothing in the library defines' % (where, n.lineno, n.attr))
                    elif inst and isinstance(n.value, ast.Name) and n.value.id == inst:
                        ext = closed(c)
                        if ext is None:
                            continue
                        ctx.count('attributes of self resolved')
                        fam = set(c.mro()) | {k for b in c.below() for k in b.mro()}
                        if n.attr in foreign or any(n.attr in k.members or n.attr in k.stored for k in fam) or any(hasattr(t, n.attr) for t in ext + [type]) or guarded(n, parents):
                            continue
                        ctx.bad('%s: attribute %s of self' % (where, n.attr), '%s (line %d) reads self.%s, which neither its class nor a class above or below it defines' % (
                            where, n.lineno, n.attr))
                if isinstance(n, ast.Call) and not guarded(n, parents):
                    for why, what in check_call(ctx, Ms, cls, M, c, inst, local, n):
                        ctx.bad('%s: call of %s' % (where, what), '%s (line %d) calls %s but %s' % (where, n.lineno, what, why))
                    if isinstance(n.func, ast.Attribute) and n.func.attr in named and root_of(n.func) not in M.foreign and not target_known(ctx, Ms, cls, M, c, inst, local, n):
                        fs = named[n.func.attr]
                        ctx.count('calls bound by the name of the method')
                        why = [w for f2, cl in fs for w in [binds(f2, n, 0 if 'staticmethod' in decorated(f2) else 1)]]
                        # a call through the class passes the instance as well
                        if all(why) and all(binds(f2, n, 0) for f2, cl in fs):
                            ctx.bad('%s: call of %s' % (where, n.func.attr), '%s (line %d) calls .%s but %s' % (where, n.lineno, n.func.attr, why[0]))
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    ctx.count('format strings')
                    why = misformat(n.left.value, n.right, f)
                    if why:
                        ctx.bad('%s: format string %r' % (where, n.left.value[:40]), '%s (line %d): the format string %r %s' % (where, n.lineno, n.left.value[:60], why))
                if isinstance(n, ast.Raise) and n.exc is not None:
                    ctx.count('raise statements')
                    e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    if isinstance(e, (ast.Constant, ast.JoinedStr)) or isinstance(e, ast.Name) and e.id not in local and lookup(Ms, cls, M.m.name, e) is None and \
                            e.id not in M.names and hasattr(builtins, e.id) and not (isinstance(getattr(builtins, e.id), type) and issubclass(getattr(builtins, e.id), BaseException)):
                        ctx.bad('%s: raise %s' % (where, ast.unparse(e)[:40]), '%s (line %d) raises %s, which is not an exception' % (where, n.lineno, ast.unparse(e)[:40]))
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                    t = builtin_type(n.value.func.id)
                    r = lookup(Ms, cls, M.m.name, n.value.func)
                    if t is not None and issubclass(t, BaseException) or isinstance(r, Class) and any(builtin_type(b) is not None and issubclass(builtin_type(b), BaseException)
                                                                                                      for k in r.mro() for b in k.extern):
                        ctx.bad('%s: dropped %s' % (where, n.value.func.id), '%s (line %d) makes a %s but does not raise it' % (where, n.lineno, n.value.func.id))
    for k, v in list(ctx.counts.items()):
        ctx.ok(k, '%d, nothing dangling' % v)
    ctx.floor('functions analysed', 300)
    ctx.floor('names resolved', 3000)
    ctx.floor('calls bound', 200)
    ctx.floor('calls bound by the name of the method', 50)
    ctx.floor('attributes of self resolved', 500)


NOT_A_TUPLE = {'type', 'str', 'repr', 'len', 'int', 'float', 'sorted', 'set', 'list', 'dict', 'frozenset', 'bool', 'round', 'mapstr', 'setstr'}


def no_tuple(e, fn, depth=0):
    """an expression whose value is certainly not a tuple"""
    if isinstance(e, (ast.Constant, ast.JoinedStr, ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp, ast.Compare)):
        return True
    if isinstance(e, ast.Attribute):
        return e.attr in ('__name__', '__qualname__')
    if isinstance(e, ast.Call):
        f = e.func
        return isinstance(f, ast.Name) and f.id in NOT_A_TUPLE or \
            isinstance(f, ast.Attribute) and (f.attr in ('difference', 'union', 'intersection', 'symmetric_difference') and no_tuple(f.value, fn, depth) or f.attr in ('keys', 'items', 'values', 'join', 'format'))
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
        return isinstance(e.left, ast.Constant)
    if isinstance(e, ast.Name) and depth < 3:
        values = []
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == e.id:
                values.append(None)
            elif isinstance(n, ast.arg) and n.arg == e.id:
                return False
        found = [n.value for n in ast.walk(fn) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id]
        return bool(found) and len(found) == len(values) and all(no_tuple(v, fn, depth + 1) for v in found)
    return False


def misformat(text, right, fn):
    """why a % format does not fit its arguments, or None"""
    specs = re.findall(r'%(\([^)]*\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])', text)
    n = sum(1 for k, w, p, t in specs if t != '%') + sum((w == '*') + (p == '*') for k, w, p, t in specs)
    if any(k for k, w, p, t in specs):
        return 'takes a mapping but is given a tuple' if isinstance(right, ast.Tuple) else None
    if isinstance(right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in right.elts):
        return 'takes %d arguments but is given %d' % (n, len(right.elts)) if n != len(right.elts) else None
    if n != 1 and no_tuple(right, fn):
        return 'takes %d arguments but is given 1' % n
    return None


def root_of(n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
        n = n.func if isinstance(n, ast.Call) else n.value
    return n.id if isinstance(n, ast.Name) else None


def universe(Ms, cls):
    """every public name that may be an attribute: of the library, the builtin types and the modules it imports, and every name that occurs as a string"""
    out = set()
    foreign = {'mpl_toolkits.mplot3d.axes3d'}
    cpp = False
    for M in Ms.values():
        out |= M.names
        M.foreign = set()
        for n in ast.walk(M.m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                out.add(n.value)
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] != 'jpt':
                        foreign.add(a.name)
                        M.foreign.add(a.asname or a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module.split('.')[0] != 'jpt':
                foreign.add(n.module)
                M.foreign |= {a.asname or a.name for a in n.names}
        cpp = cpp or M.m.kind == 'pyx'
    for c in cls.values():
        out |= set(c.members) | c.stored
    for t in vars(builtins).values():
        out |= set(dir(t))
    seen = set()

    def add(m):
        if m.__name__ in seen:
            return
        seen.add(m.__name__)
        for k, v in list(vars(m).items()):
            out.add(k)
            if isinstance(v, type):
                out.update(dir(v))
    for name in sorted(foreign):
        while name:
            try:
                add(importlib.import_module(name))
            except Exception:
                pass
            name = name.rpartition('.')[0]
    out |= set(dir(os.path))
    if cpp:
        import Cython
        for p in glob.glob(os.path.join(os.path.dirname(Cython.__file__), 'Includes', 'libcpp', '*.pxd')):
            with open(p) as fh:
                out |= set(re.findall(r'\w+', fh.read()))
    return out


def methods_by_name(cls, Ms):
    """name -> [(function, class)] of the methods whose name nothing but classes of the library has"""
    taken = set()
    for t in vars(builtins).values():
        taken |= set(dir(t))
    for M in Ms.values():
        # the name is bound to something else that can be called
        for n in ast.walk(M.m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                taken.add(n.attr)
        taken |= {s.name for s in M.m.tree.body if isinstance(s, ast.FunctionDef)}
    for m in ('numpy', 'pandas', 'matplotlib.pyplot', 'matplotlib.axes', 'matplotlib.figure', 'graphviz', 'scipy.stats', 'logging', 'dnutils', 'dnutils.stats', 'json', 're', 'os', 'collections',
              'datetime', 'random', 'math', 'tempfile', 'pickle', 'functools', 'itertools', 'csv', 'arff', 'tabulate', 'fglib', 'factorgraph', 'heapq'):
        try:
            mod = importlib.import_module(m)
        except Exception:
            continue
        taken |= set(dir(mod))
        for v in list(vars(mod).values()):
            if isinstance(v, type):
                taken |= set(dir(v))
    out = {}
    for c in cls.values():
        for k, fs in c.members.items():
            for f in fs:
                if not isinstance(f, ast.FunctionDef) or decorated(f) - PLAIN:
                    taken.add(k)
                else:
                    out.setdefault(k, []).append((f, c))
    return {k: v for k, v in out.items() if k not in taken}


def target_known(ctx, Ms, cls, M, c, inst, local, n):
    f = n.func.value
    return isinstance(f, ast.Name) and (f.id == inst or f.id not in local and lookup(Ms, cls, M.m.name, f) is not None) or isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'super'


def star_names(M, src):
    try:
        mod = importlib.import_module(src)
    except Exception:
        return True
    M.names |= set(getattr(mod, '__all__', [x for x in dir(mod) if x[:1] != '_']))
    return False


def guarded_import(tree, n):
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(x is n for s in t.body for x in ast.walk(s)):
            return True
    return False


def check_call(ctx, Ms, cls, M, c, inst, local, n):
    """[(why, what)] for a call whose target is known"""
    def verdict(fs, skip, what):
        fs = [f for f in fs if isinstance(f, ast.FunctionDef)]
        if not fs or any(decorated(f) - PLAIN for f in fs):
            return []
        ctx.count('calls bound')
        why = [binds(f, n, 0 if 'staticmethod' in decorated(f) else skip) for f in fs]
        return [(why[0], what)] if all(why) else []
    f = n.func
    if isinstance(f, ast.Name):
        if f.id in local:
            return []
        r = lookup(Ms, cls, M.m.name, f)
    elif isinstance(f, ast.Attribute):
        if isinstance(f.value, ast.Name) and f.value.id == inst and c is not None:
            fam = c.mro()
            fs = next((k.members[f.attr] for k in fam if f.attr in k.members), None)
            if fs is None or any(f.attr in k.stored for k in c.mro() + c.below()):
                return []
            more = [x for k in c.below() if f.attr in k.members and k is not c for x in k.members[f.attr]]
            if any(not isinstance(x, ast.FunctionDef) for x in fs + more):
                return []
            return verdict(fs + more, 1, 'self.' + f.attr)
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and c is not None:
            fs = next((k.members[f.attr] for k in c.mro()[1:] if f.attr in k.members), None)
            return verdict(fs, 1, 'super().' + f.attr) if fs is not None and len(c.bases) == 1 else []
        if isinstance(f.value, ast.Name) and f.value.id in local:
            return []
        b = lookup(Ms, cls, M.m.name, f.value)
        if isinstance(b, Class):
            fs = next((k.members[f.attr] for k in b.mro() if f.attr in k.members), None)
            if fs is None:
                return []
            return verdict(fs, 1 if all(isinstance(x, ast.FunctionDef) and 'classmethod' in decorated(x) for x in fs) else 0, '%s.%s' % (b.name, f.attr))
        r = lookup(Ms, cls, M.m.name, f)
    else:
        return []
    if isinstance(r, Class):
        if any(k.extern and not all(b in ('ABC', 'object', 'abc.ABC') for b in k.extern) for k in r.mro()):
            return []
        fs = init_of(r)
        if fs is None:
            return []
        return verdict(fs, 1, r.name)
    if isinstance(r, tuple) and r[0] == 'function':
        fs = [s for s in r[2].m.tree.body if isinstance(s, ast.FunctionDef) and s.name == r[1].name]
        return verdict(fs, 0, r[1].name)
    return []
