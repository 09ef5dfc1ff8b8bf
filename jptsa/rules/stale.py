"""C16: fitting again leaves nothing of earlier fits behind, and what is computed on demand belongs to its current source.

A must-write analysis of the fields of `self` through all methods that a fit calls: a field that a fit writes is written (assigned or cleared) on each normal path, before it is read and
before it is grown in place. A typestate analysis for fields that a getter fills on demand: whoever writes one of the fields that the getter computes from resets it on each normal path."""
import ast

from ..program import Program
from .exists import Class, Module, bound, classes_of, decorated, lookup, own_functions

GROW = {'append', 'appendleft', 'extend', 'extendleft', 'add', 'update', 'insert', 'setdefault', 'push', 'pop', 'popleft', 'popitem', 'remove', 'discard', 'sort', 'reverse', 'itemset', 'fill',
        '__setitem__', 'push_back', 'push_front'}
READS_ONLY = {'pop', 'popleft', 'popitem', 'remove', 'discard'}
FITS = ('fit', '_fit', 'learn', 'fit_transform')


class State:
    def __init__(self, fresh=(), maybe=()):
        self.fresh, self.maybe = set(fresh), set(maybe)
        self.skips = False         # leaves an iteration for a reason that does not depend on the data

    def copy(self):
        return State(self.fresh, self.maybe)


def join(*sts):
    sts = [s for s in sts if s is not None]
    if not sts:
        return None
    return State(set.intersection(*[s.fresh for s in sts]), set.union(*[s.maybe for s in sts]))


class Flow:
    """follows a method of a class with one object as `self`"""

    def __init__(self, P, c):
        self.P, self.c = P, c
        self.known = P.state.get(c, set())
        self.stack = []
        self.reads, self.grows = {}, {}          # field -> where it was read / grown while it may hold something old
        self.writes = {}
        self.methods = 0
        self.config = set()

    # -- entry
    def run(self, fn, mod, st, selves, bind=None):
        key = (id(fn), tuple(sorted(selves)))
        if key in [k for k, _ in self.stack] or len(self.stack) > 12:
            return st
        self.methods += 1
        self.stack.append((key, fn))
        F = Frame(self, fn, mod, set(selves))
        F.exits = []
        end = F.block(fn.body, st)
        out = join(end, *F.exits)
        self.stack.pop()
        return out


class Frame:
    def __init__(self, W, fn, mod, selves):
        self.W, self.fn, self.mod, self.selves = W, fn, mod, selves
        self.alias = {}            # local name -> field of self that it is (or is part of)
        self.brk = []
        self.exits = []
        self.where = fn.name
        self.keys = []             # loop variables over fields that no fit writes

    def field(self, e):
        """the field of self (or the field of a field, as a path) that an expression is or belongs to"""
        path = []
        while True:
            if isinstance(e, ast.Attribute):
                path.insert(0, e.attr)
                if isinstance(e.value, ast.Name) and e.value.id in self.selves:
                    return '.'.join(path)
                e = e.value
            elif isinstance(e, ast.Subscript):
                e = e.value
                path = []
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('asarray', 'view', 'values', 'items', 'keys', 'iter', 'get'):
                e = e.args[0] if e.func.attr == 'asarray' and e.args else e.func.value
                path = []
            elif isinstance(e, ast.Name):
                return '.'.join([self.alias[e.id]] + path) if e.id in self.alias else None
            else:
                return None

    def chain(self, e):
        """self.a, self.a.b, ..."""
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and (e.id in self.selves or e.id in self.alias)

    def isfresh(self, f, st):
        return any(f == x or f.startswith(x + '.') for x in st.fresh)

    def direct(self, e):
        return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in self.selves

    def member(self, name):
        for k in self.W.c.mro():
            if name in k.members:
                return k.members[name], k
        return None, None

    # -- events
    def wrote(self, f, st, n):
        st.fresh.add(f)
        st.maybe.add(f)
        self.W.writes.setdefault(f, '%s, line %s' % (self.where, getattr(n, 'lineno', '?')))

    def read(self, f, st, n, whole=False):
        for x in [f] + [x for x in self.W.known if whole and x.startswith(f + '.')]:
            if not self.isfresh(x, st) and x + '[]' not in st.fresh:
                self.W.reads.setdefault(x, '%s, line %s' % (self.where, getattr(n, 'lineno', '?')))

    def grew(self, f, st, n, key=None):
        st.maybe.add(f)
        self.W.writes.setdefault(f, '%s, line %s' % (self.where, getattr(n, 'lineno', '?')))
        if not self.isfresh(f, st):
            if key is not None and self.configured(key):
                self.W.config.add(f)
                st.fresh.add(f + '[]')
                return
            self.W.grows.setdefault(f, '%s, line %s' % (self.where, getattr(n, 'lineno', '?')))

    def configured(self, key):
        return isinstance(key, ast.Name) and key.id in [k for ks in self.keys for k in ks] or \
            isinstance(key, ast.Attribute) and self.configured(key.value) or isinstance(key, ast.Constant)

    def static(self, test):
        keys = [k for ks in self.keys for k in ks]
        names = [n.id for n in ast.walk(test) if isinstance(n, ast.Name) and n.id not in self.selves]
        mine = [n for n in ast.walk(test) if self.direct(n)]
        return bool(keys) and all(n in keys or n in ('isinstance', 'issubclass', 'type', 'str', 'len') or n[:1].isupper() for n in names) and \
            all(self.W.P.stable(self.W.c, n.attr, self) for n in mine)

    def constants(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [e.value]
        if isinstance(e, ast.Name):
            for n in ast.walk(self.fn):
                if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == e.id and isinstance(n.iter, (ast.Tuple, ast.List)):
                    return [x.value for x in n.iter.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)]
        return []

    # -- expressions
    def expr(self, e, st):
        if e is None or st is None:
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(e, ast.Call):
            self.call(e, st)
            return
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            if self.direct(e):
                ms, k = self.member(e.attr)
                getter = [m for m in ms or [] if isinstance(m, ast.FunctionDef) and decorated(m) & {'property', 'cached_property', 'functools.cached_property'}]
                if getter:
                    new = self.W.run(getter[0], k.mod, st.copy(), {a.arg for a in (getter[0].args.posonlyargs + getter[0].args.args)[:1]})
                    if new is not None:
                        st.fresh |= new.fresh - st.fresh & set()
                        st.maybe |= new.maybe
                elif not any(isinstance(m, ast.FunctionDef) for m in ms or []):
                    self.read(e.attr, st, e, True)
                return
            fld = self.field(e) if self.chain(e) else None
            if fld is not None:
                self.read(fld, st, e, True)
                return
            self.expr(e.value, st)
            return
        if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and e.id in self.alias:
            self.read(self.alias[e.id], st, e, True)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.comprehension):
                self.expr(c.iter, st)
                for i in c.ifs:
                    self.expr(i, st)
            elif isinstance(c, (ast.expr, ast.Slice, ast.keyword)):
                self.expr(c.value if isinstance(c, ast.keyword) else c, st)

    def call(self, e, st):
        f = e.func
        passed = [i for i, a in enumerate(e.args) if isinstance(a, ast.Name) and a.id in self.selves] + \
            [k.arg for k in e.keywords if k.arg and isinstance(k.value, ast.Name) and k.value.id in self.selves]
        if isinstance(f, ast.Name) and f.id == 'setattr' and len(e.args) == 3 and 0 in passed:
            self.expr(e.args[2], st)
            for name in self.constants(e.args[1]):
                self.store(ast.copy_location(ast.Attribute(ast.Name(e.args[0].id, ast.Load()), name, ast.Store()), e), e.args[2], st)
            return
        for a in e.args:
            self.expr(a.value if isinstance(a, ast.Starred) else a, st)
        for k in e.keywords:
            self.expr(k.value, st)
        if isinstance(f, ast.Attribute):
            owner = f.value
            if isinstance(owner, ast.Name) and owner.id in self.selves:
                ms, k = self.member(f.attr)
                fs = [m for m in ms or [] if isinstance(m, ast.FunctionDef)]
                if not fs and ms:
                    # an alias such as fit = learn
                    for m in ms:
                        if isinstance(m, ast.Assign) and isinstance(m.value, ast.Name):
                            ms2, k = self.member(m.value.id)
                            fs += [x for x in ms2 or [] if isinstance(x, ast.FunctionDef)]
                if fs:
                    self.into(fs[-1], k.mod, e, st)
                else:
                    self.read(f.attr, st, e, True)
                return
            if isinstance(owner, ast.Call) and isinstance(owner.func, ast.Name) and owner.func.id == 'super':
                here = [k for k in self.W.c.mro() if any(self.fn is m for m in k.members.get(self.fn.name, []))]
                mro = self.W.c.mro()
                for k in mro[mro.index(here[0]) + 1:] if here else []:
                    fs = [m for m in k.members.get(f.attr, []) if isinstance(m, ast.FunctionDef)]
                    if fs:
                        self.into(fs[-1], k.mod, e, st)
                        return
                return
            fld = self.field(owner)
            if fld is not None:
                if f.attr == 'clear' and self.chain(owner):
                    self.wrote(fld, st, e)
                elif f.attr in GROW and f.attr not in READS_ONLY:
                    self.grew(fld, st, e)
                elif f.attr in ('set',) and isinstance(owner, ast.Name):
                    self.grew(fld, st, e)
                else:
                    self.expr(owner, st)
                return
            self.expr(owner, st)
            if passed:
                r = lookup(self.W.P.Ms, self.W.P.cls, self.mod.name, owner)
                if isinstance(r, Class):
                    for k in r.mro():
                        fs = [m for m in k.members.get(f.attr, []) if isinstance(m, ast.FunctionDef)]
                        if fs:
                            self.passes(fs[-1], k.mod, passed, st, 0 if 'staticmethod' in decorated(fs[-1]) or 'classmethod' not in decorated(fs[-1]) else 1)
                            return
            return
        if isinstance(f, ast.Name) and passed:
            r = lookup(self.W.P.Ms, self.W.P.cls, self.mod.name, f)
            if isinstance(r, tuple) and r[0] == 'function':
                self.passes(r[1], r[2].m, passed, st, 0)
            elif isinstance(r, Class):
                for n in ('__init__', '__cinit__'):
                    for k in r.mro():
                        fs = [m for m in k.members.get(n, []) if isinstance(m, ast.FunctionDef)]
                        if fs:
                            self.passes(fs[-1], k.mod, passed, st, 1)
                            break
        elif not isinstance(f, ast.Name):
            self.expr(f, st)

    def passes(self, fn, mod, passed, st, skip):
        pos = [a.arg for a in fn.args.posonlyargs + fn.args.args][skip:]
        names = {pos[i] if isinstance(i, int) else i for i in passed if not isinstance(i, int) or i < len(pos)}
        if names:
            self.merge(self.W.run(fn, mod, st.copy(), names), st)

    def into(self, fn, mod, call, st):
        first = (fn.args.posonlyargs + fn.args.args)[:1]
        selves = {first[0].arg} if first and 'staticmethod' not in decorated(fn) else set()
        self.merge(self.W.run(fn, mod, st.copy(), selves), st)

    def merge(self, new, st):
        if new is not None:
            st.fresh, st.maybe = new.fresh, new.maybe

    # -- statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def store(self, t, value, st):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, None, st)
        elif isinstance(t, ast.Starred):
            self.store(t.value, None, st)
        elif self.direct(t):
            ms, k = self.member(t.attr)
            setter = [m for m in ms or [] if isinstance(m, ast.FunctionDef) and any(d.endswith('.setter') for d in decorated(m))]
            if setter:
                self.into(setter[0], k.mod, None, st)
            else:
                self.wrote(t.attr, st, t)
        elif isinstance(t, ast.Subscript):
            fld = self.field(t.value)
            self.expr(t.slice, st)
            if fld is not None:
                whole = isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and self.chain(t.value) or \
                    isinstance(t.slice, ast.Constant) and t.slice.value is Ellipsis
                if whole:
                    self.wrote(fld, st, t)
                else:
                    self.grew(fld, st, t, t.slice)
        elif isinstance(t, ast.Attribute):
            fld = self.field(t)
            if fld is not None:
                if self.chain(t):
                    self.wrote(fld, st, t)
                else:
                    self.grew(fld.rpartition('.')[0] or fld, st, t)
        elif isinstance(t, ast.Name):
            self.alias.pop(t.id, None)
            if t.id in self.selves and not (isinstance(value, ast.Name) and value.id in self.selves):
                self.selves.discard(t.id)
            if isinstance(value, ast.Name) and value.id in self.selves:
                self.selves.add(t.id)
            elif isinstance(value, (ast.Attribute, ast.Subscript, ast.Name)):
                fld = self.field(value)
                if fld is not None and not any(isinstance(m, ast.FunctionDef) for m in self.member(fld)[0] or []):
                    self.alias[t.id] = fld

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            v = s.value
            if not (isinstance(v, (ast.Attribute, ast.Name)) and self.chain(v) and all(isinstance(t, ast.Name) for t in s.targets) and self.field(v) is not None
                    and not any(isinstance(m, ast.FunctionDef) for m in self.member(self.field(v))[0] or [])):
                self.expr(v, st)       # giving a field another name does not look into it
            for t in s.targets:
                self.store(t, v, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, st)
                self.store(s.target, s.value, st)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, st)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.alias:
                    self.grew(self.alias[s.target.id], st, s)
            else:
                fld = self.field(s.target)
                if fld is not None:
                    self.grew(fld, st, s)
        elif isinstance(s, (ast.Return,)):
            self.expr(s.value, st)
            self.exits.append(st)
            return None
        elif isinstance(s, ast.Raise):
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            if self.brk:
                self.brk[-1].append(st)
            return None
        elif isinstance(s, ast.If):
            self.expr(s.test, st)
            a = dict(self.alias)
            static = self.static(s.test)
            left = len(self.brk[-1]) if self.brk else 0
            x = self.block(s.body, st.copy())
            b, self.alias = self.alias, a
            if static and len(s.body) == 1:
                for e in self.brk[-1][left:] if self.brk else []:
                    e.skips = True
            y = self.block(s.orelse, st.copy())
            self.alias.update({k: v for k, v in b.items() if k not in self.alias})
            out = join(x, y)
            if x is not None and y is not None and static:
                # the same branch is taken for this key in each fit
                out.fresh |= {f for f in x.fresh | y.fresh if f.endswith('[]')}
            return out
        elif isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Tuple, ast.List)) and s.iter.elts and \
                all(isinstance(e, ast.Attribute) and self.chain(e) for e in s.iter.elts) and not any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s)):
            for e in s.iter.elts:
                self.store(s.target, e, st)
                st = self.block(s.body, st)
                if st is None:
                    return None
            return self.block(s.orelse, st) if s.orelse else st
        elif isinstance(s, (ast.For, ast.While)):
            key = []
            if isinstance(s, ast.For):
                self.expr(s.iter, st)
                # the loop runs over a part of the configuration
                parts = [n.attr for n in ast.walk(s.iter) if self.direct(n)]
                if parts and all(self.W.P.stable(self.W.c, p, self) for p in parts):
                    key = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
                for n in ast.walk(s.target):
                    if isinstance(n, ast.Name):
                        self.alias.pop(n.id, None)
                if isinstance(s.target, ast.Name):
                    fld = self.field(s.iter)
                    if fld is not None and not key:
                        self.alias[s.target.id] = fld
            elif emptied(s, self):
                st.fresh.add(emptied(s, self))
            else:
                self.expr(s.test, st)
            self.keys.append(key)
            self.brk.append([])
            end = self.block(s.body, st.copy())
            brks = self.brk.pop()
            self.keys.pop()
            out = join(st, end, *brks)
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            if forever:
                out = join(*brks)
            # what a loop over the configuration writes counts as written
            certain = isinstance(s, ast.For) and (isinstance(s.iter, (ast.Tuple, ast.List)) and s.iter.elts or key) and not any(isinstance(n, (ast.Break, ast.Return)) for n in ast.walk(s))
            if certain and end is not None:
                out.fresh |= join(end, *brks).fresh
                kept = [b for b in brks if not b.skips]
                if key:
                    out.fresh |= {f for f in join(end, *kept).fresh if f.endswith('[]')}
            if s.orelse and out is not None:
                out = self.block(s.orelse, out)
            return out
        elif isinstance(s, ast.Try):
            x = self.block(s.body, st.copy())
            outs = []
            for h in s.handlers:
                outs.append(self.block(h.body, State(st.fresh, st.maybe | (x.maybe if x else set()))))
            if s.orelse and x is not None:
                x = self.block(s.orelse, x)
            out = join(x, *outs)
            if s.finalbody:
                fin = self.block(s.finalbody, out.copy() if out is not None else st.copy())
                if out is not None:
                    out = fin
            return out
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, st)
            return self.block(s.body, st)
        elif isinstance(s, ast.Expr):
            self.expr(s.value, st)
        elif isinstance(s, ast.Assert):
            self.expr(s.test, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                fld = self.field(t)
                if fld is None:
                    continue
                if self.direct(t) or isinstance(t, ast.Subscript) and self.direct(t.value) and isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None:
                    self.wrote(fld, st, t)
        return st


def emptied(s, F):
    """the field that a loop such as `while self.f: self.f.pop()` (and nothing else) empties"""
    if not isinstance(s, ast.While) or s.orelse or any(isinstance(n, (ast.Break, ast.Return, ast.Continue)) for n in ast.walk(s)):
        return None
    t = s.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
        t = t.left
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Call) and isinstance(t.operand.func, ast.Attribute) and t.operand.func.attr == 'empty':
        t = t.operand.func.value
    elif isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == 'size':
        t = t.func.value
    elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'len' and t.args:
        t = t.args[0]
    fld = F.field(t)
    return fld if fld is not None and F.chain(t) else None


class Prog:
    def __init__(self, root):
        self.prog = Program(root)
        self.Ms = {n: Module(m, self.prog.modules) for n, m in self.prog.modules.items()}
        self.cls = classes_of(self.prog, self.Ms)
        self.state = {}

    def stable(self, c, name, frame):
        """a field (or a property of fields) that no fit writes"""
        ms, k = frame.member(name)
        fs = [m for m in ms or [] if isinstance(m, ast.FunctionDef)]
        if fs:
            parts = [n.attr for n in ast.walk(fs[0]) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == (fs[0].args.posonlyargs + fs[0].args.args)[0].arg]
            return bool(parts) and all(p not in self.state.get(c, ()) and p not in self.dynamic(frame, p) for p in parts)
        return name not in self.state.get(c, ())

    def dynamic(self, frame, p):
        ms, k = frame.member(p)
        return [p] if any(isinstance(m, ast.FunctionDef) for m in ms or []) else []


def caches(P):
    """[(class, property, cache field, fields it is computed from)] for getters that fill a field on demand"""
    out = []
    for c in P.cls.values():
        for name, ms in c.members.items():
            for f in ms:
                if not isinstance(f, ast.FunctionDef) or not f.args.args and not f.args.posonlyargs:
                    continue
                if 'property' not in decorated(f):
                    continue
                me = (f.args.posonlyargs + f.args.args)[0].arg
                mine = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me]
                stored = {n.attr for n in mine if isinstance(n.ctx, ast.Store)}
                tested = {n.attr for t in ast.walk(f) if isinstance(t, (ast.If, ast.IfExp)) for n in ast.walk(t.test) if n in mine}
                for x in sorted(stored & tested):
                    src = {n.attr for n in mine if isinstance(n.ctx, ast.Load) and n.attr != x and not any(isinstance(m, ast.FunctionDef) for k in c.mro() for m in k.members.get(n.attr, []))}
                    out.append((c, name, x, src, f))
    return out


def rule_C16(ctx):
    ctx.rule('must-write analysis of the fields of an object over its fits (before reading, before growing, on each normal path); typestate of fields that are computed on demand')
    P = Prog(ctx.root)
    roots = []
    for c in P.cls.values():
        for n in FITS:
            k = next((k for k in c.mro() if n in k.members), None)
            if k is None:
                continue
            fs = [m for m in k.members[n] if isinstance(m, ast.FunctionDef)]
            if fs:
                roots.append((c, n, fs[-1], k))
    for rnd in range(2):            # the fields that fits write are known after the first round
        res = []
        for c, n, f, k in roots:
            first = (f.args.posonlyargs + f.args.args)[:1]
            if not first or 'staticmethod' in decorated(f):
                continue
            W = Flow(P, c)
            end = W.run(f, k.mod, State(), {first[0].arg})
            P.state.setdefault(c, set()).update(W.writes)
            res.append((c, n, W, end))
    for c, n, W, end in res:
        if end is None:
            continue
        name = '%s.%s' % (c.name, n)
        written = set(W.writes)
        ctx.count('fits analysed')
        ctx.count('methods followed', W.methods)
        for x in sorted(written):
            ctx.count('fields examined')
            if x in W.grows:
                ctx.bad('%s: %s grows' % (name, x), '%s adds to the field %s (%s), which may still hold what an earlier fit left' % (name, x, W.grows[x]))
            elif x in W.reads:
                ctx.bad('%s: %s is read' % (name, x), '%s reads the field %s (%s) before it is written, so the result depends on earlier fits' % (name, x, W.reads[x]))
            elif not any(x == y or x.startswith(y + '.') for y in end.fresh) and not (x in W.config and x + '[]' in end.fresh):
                ctx.bad('%s: %s may stay' % (name, x), '%s writes the field %s (%s), but there is a path to its end on which the field keeps what an earlier fit left' % (name, x, W.writes[x]))
            else:
                ctx.ok('%s: %s' % (name, x), 'written on each path before it is read or grown')
    for c, prop, x, src, getter in caches(P):
        ctx.count('computed fields')
        for y in sorted(src):
            all_writers(ctx, P, c, prop, x, y, getter)
    ctx.floor('fits analysed', 8)
    ctx.floor('fields examined', 20)
    ctx.floor('computed fields', 1)


def all_writers(ctx, P, c, prop, x, y, getter):
    """each function that writes field y of an object of class c writes x as well, on each normal path"""
    name = '%s.%s' % (c.name, prop)
    for M in P.Ms.values():
        for f, cn, label in own_functions(M.m.tree):
            if f is getter or f.name in ('__init__', '__cinit__', '__new__'):
                continue
            k = P.cls.get((M.m.name, cn.name)) if cn is not None else None
            me = (f.args.posonlyargs + f.args.args)[:1]
            inst = {me[0].arg} if k is not None and me and 'staticmethod' not in decorated(f) and (c in k.mro() or k in c.mro()) else set()
            others = {n.value.id for n in ast.walk(f) if isinstance(n, ast.Attribute) and n.attr == y and isinstance(n.value, ast.Name)} - inst
            for who in sorted(inst | others):
                if who not in inst and made_here(f, who, c):
                    continue
                W = Flow(P, c)
                end = W.run(f, M.m, State(), {who}) if who in inst else run_local(W, f, M.m, who)
                if y not in W.writes or end is None:
                    continue
                if y not in end.maybe:
                    continue
                ctx.count('writers of the sources of computed fields')
                where = '%s %s' % (M.m.rel, label)
                if x in end.fresh:
                    ctx.ok('%s: %s for %s' % (where, x, name), 'written together with %s' % y)
                else:
                    ctx.bad('%s: %s for %s' % (where, x, name), '%s changes the field %s of %s (%s) but there is a path on which the field %s, which %s computes from it, keeps its old value' % (
                        where, y, who, W.writes[y], x, name))


def run_local(W, f, mod, who):
    F = Frame(W, f, mod, {who})
    W.stack.append(((id(f), (who,)), f))
    F.store = lambda t, value, st, o=F.store: None if isinstance(t, ast.Name) and t.id == who else o(t, value, st)
    end = join(F.block(f.body, State()), *F.exits)
    W.stack.pop()
    return end


def made_here(f, who, c):
    """a local variable that only ever holds new objects"""
    vals = [n.value for n in ast.walk(f) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and
            any(isinstance(t, ast.Name) and t.id == who for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
    if not vals or any(a.arg == who for a in f.args.args + f.args.posonlyargs + f.args.kwonlyargs):
        return False
    return all(isinstance(v, ast.Constant) or isinstance(v, ast.Call) and (
        isinstance(v.func, ast.Name) and (v.func.id == 'cls' or v.func.id in {k.name for k in c.mro() + c.below()}) or isinstance(v.func, ast.Call)) for v in vals)
