"""The abstract interpreter proper (see absint.py for the domain, models.py for the outside world)."""
import ast
import builtins
from collections import defaultdict

from .absint import *
from .absint import NOLABELS, Abort, widen
from .program import AnalysisBroken, ClassRef, FuncRef, Program


SCALAR_T = {'float', 'int', 'num', 'bool', 'complex'}
SCALAR_METHODS = set(dir(float)) | set(dir(int)) | {'item', 'tolist', 'astype', 'copy', 'reshape', 'sum', 'mean', 'round', 'any', 'all'}
SCALAR_ATTRS = SCALAR_METHODS | {'shape', 'dtype', 'size', 'ndim', 'value'}
STR_ATTRS = set(dir(str))
TUPLE_ATTRS = set(dir(tuple))


CSCALARS = {'float', 'int', 'bool'}


class Prop:
    def __init__(self, getter, setter=None, clsprop=False):
        self.getter, self.setter, self.clsprop = getter, setter, clsprop



MAX_CTX = 400
LEAF_CTX = 400
LEAF_MODULES = {'jpt.base.intervals', 'jpt.base.functions', 'jpt.base.constants', 'jpt.base.cutils', 'jpt.base.utils'}
STORING = {'append', 'add', 'update', 'extend', 'insert', 'push', 'push_back', 'setdefault', '__setattr__', '__init__', '__setitem__',
           'appendleft', 'push_front'}


class TryCtx:
    def __init__(self):
        self.raised = {}          # class name -> set of nodes
        self.state = None


def cut_tuples(a, depth):
    if not isinstance(a, Tup):
        return a
    if depth <= 0:
        return Opaque('any')
    return Tup([Val({cut_tuples(x, depth - 1) for x in v.atoms}, v.labels) for v in a.items])


def scalar_expr(e):
    if isinstance(e, (ast.Compare, ast.Constant)):
        return True
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not) or scalar_expr(e.operand)
    if isinstance(e, ast.BoolOp):
        return all(scalar_expr(x) for x in e.values)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        return e.func.id in ('bool', 'len', 'isinstance', 'any', 'all', 'int', 'float', 'str', 'hash', 'id', 'issubclass')
    if isinstance(e, ast.IfExp):
        return scalar_expr(e.body) and scalar_expr(e.orelse)
    return False


class Interp:

    def __init__(self, program):
        self.p = program
        self.heap = {}
        self.phase = 'global'
        self.memo = {}
        self.evaluated = {}
        self.active = set()
        self.iteration = 0
        self.changed = False
        self.modenv = {}
        self.imports = {}
        self.loading = set()
        self.classes = {}
        self.closures = {}
        self.mutations = {}
        self.reads = defaultdict(set)
        self.callers = {}
        self.unknown_calls = defaultdict(int)
        self.unknown_sites = defaultdict(set)
        self.hooks = []
        self.ctxcount = defaultdict(set)
        self.ctype_cache = {}
        self.local_cache = {}
        self.merged = {}
        self.assume_filled = False
        self.shrunk = set()
        self.sizes = {}                 # the number of elements of sets that a client made
        self.fn_by_uid = {}
        self.analysed = set()
        self.branches = None      # when a list: the branches that are decided by unknown values
        self.sites = set()
        self.steps = 0
        self.reached = set()
        self.dyn = {}
        self.keyids, self.keyobjs = {}, {}
        self.splitcls = {}
        self.recvsites = ()              # kinds of objects with one allocation site per receiver
        self.splitparts = False
        self.unroll = None              # loops over several variables: None | 'forward' | 'reverse' one iteration for each of them
        self.present = ()               # phases whose maps hold all keys that were ever stored in them
        self.index = False              # labels also follow index values
        self.implicit = False           # labels also follow index values and the conditions that a statement depends on
        self.cuts = set()
        self.nostore = {}
        from . import models
        self.models = models.Models(self)

    # -- heap ----------------------------------------------------------------------------------
    def alloc(self, kind, cls, node, frame, extra=()):
        site = (getattr(node, '_mod', None).name if getattr(node, '_mod', None) else '?',
                getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                type(node).__name__, getattr(node, 'end_lineno', 0), getattr(node, 'end_col_offset', 0))
        site = site + tuple(extra) + ((frame.cs,) if frame is not None and frame.cs is not None else ())
        if (kind == 'iter' or kind in self.recvsites or getattr(cls, 'name', cls) in self.recvsites) and frame is not None and frame.recv is not None:
            site = site + (('recv', frame.recv),)
        if frame is not None and frame.part is not None:
            site = site + (('part',) + frame.part,)
        loc = '%s:%s' % (site[0], site[1])
        o = Obj(kind, cls, site, self.phase, loc)
        if o not in self.heap:
            self.heap[o] = {}
        return o

    def write(self, obj, field, val):
        fields = self.heap.setdefault(obj, {})
        old = fields.get(field)
        if old is None:
            if len(fields) > 80 and field.startswith(('k:', 'i:')):
                field = 'elem' if field.startswith('i:') else 'k*'
                old = fields.get(field, BOT)
                new = join(old, val)
                if new != old:
                    fields[field] = new
                    self.changed = True
                return
            new = val
        else:
            new = join(old, val)
        if old is None or new != old:
            # cut ever-growing nested tuples
            if (obj, field) in self.cuts or tupdepth(new) > 3:
                self.cuts.add((obj, field))
                new = Val({cut_tuples(a, 1) for a in new.atoms}, new.labels)
                new = Val(widen(new.atoms), new.labels)
            if old is None or new != old:
                fields[field] = new
                self.changed = True

    def field(self, obj, name, default=None):
        return self.heap.get(obj, {}).get(name, default)

    def fields(self, obj):
        return self.heap.get(obj, {})

    def mutate(self, obj, field, val, node, frame, how):
        """Record a write to an object that may already exist outside the current call."""
        key = (obj, field, frame.fn.uid if frame.fn else None, getattr(node, 'lineno', 0), how)
        if key not in self.mutations:
            self.mutations[key] = dict(obj=obj, field=field, fn=frame.fn, node=node, how=how, ctx=frame.key,
                                       phase=self.phase, val=val, guards=tuple(frame.guards))
        for h in self.hooks:
            f = getattr(h, 'on_mutate', None)
            if f:
                f(self, frame, node, obj, field, val, how)

    # -- modules -------------------------------------------------------------------------------
    def load_module(self, name):
        if name in self.modenv:
            return self.modenv[name]
        m = self.p.modules.get(name)
        if m is None:
            return None
        env = {}
        self.modenv[name] = env
        self.imports[name] = {}
        phase, self.phase = self.phase, 'global'
        fr = Frame(self, None, ('module', name), None)
        fr.module = m
        st = State(env)
        fr.is_module = True
        pxd = getattr(m, 'pxd', None)
        if pxd is not None:
            pre = [s for s in pxd.body if isinstance(s, (ast.AnnAssign, ast.Assign))]
            for s in pre:
                for n in ast.walk(s):
                    n._mod = m
            self.exec_block(pre, st, fr)
        body = m.tree.body
        if m.kind == 'pyx':
            # extension types exist before the module body runs
            def rank(x):
                return 0 if isinstance(x, (ast.Import, ast.ImportFrom)) else 1 if isinstance(x, ast.FunctionDef) else 2 if isinstance(x, ast.ClassDef) else 3
            body = sorted(body, key=rank)
        out = self.exec_module_body(body, st, fr)
        self.phase = phase
        return env

    def exec_module_body(self, body, st, fr):
        # module level is executed statement by statement and keeps one environment object
        for s in body:
            r = self.exec_stmt(s, st, fr)
            if r is not None and r is not st:
                st.env.update(r.env)
        return st

    def module_name(self, module, level, name):
        if level == 0:
            return name
        parts = module.name.split('.')
        is_pkg = module.path.endswith('__init__.py')
        base = parts if is_pkg else parts[:-1]
        if level > 1:
            base = base[:-(level - 1)]
        return '.'.join(base + ([name] if name else []))

    def lookup_global(self, module, name):
        env = self.load_module(module.name)
        v = env.get(name)
        imp = self.imports[module.name].get(name)
        if imp is not None:
            r = self.resolve_import(*imp)
            if r is not None:
                return join(r, v) if v is not None and not v.bot and imp not in ((), ) and v != r else r
        if v is not None and not v.bot:
            return v
        return None

    def resolve_import(self, mod, attr):
        if attr is None:
            if mod in self.p.modules:
                self.load_module(mod)
                return Val([ModAtom(mod)])
            return Val([Ext(mod)])
        if mod in self.p.modules:
            sub = mod + '.' + attr
            env = self.load_module(mod)
            v = env.get(attr)
            if v is not None and not v.bot:
                return v
            imp = self.imports[mod].get(attr)
            if imp is not None and imp != (mod, attr):
                return self.resolve_import(*imp)
            if sub in self.p.modules:
                self.load_module(sub)
                return Val([ModAtom(sub)])
            return None
        if mod + '.' + attr in self.p.modules:
            return Val([ModAtom(mod + '.' + attr)])
        return self.models.ext_value(mod + '.' + attr)

    # -- functions -----------------------------------------------------------------------------
    def run(self, thunk, max_iter=25):
        """Run ``thunk`` until the heap and all summaries are stable; return its last value."""
        r = None
        for i in range(max_iter):
            self.iteration += 1
            self.evaluated = {}
            self.changed = False
            r = thunk()
            if not self.changed:
                return r
        self.unstable = True
        return r

    def bind_args(self, fn, args, kwargs, node, frame, star=None, starstar=None):
        a = fn.node.args
        params = [x.arg for x in a.args]
        env = {}
        npos = len(params)
        for i, v in enumerate(args):
            if i < npos:
                env[params[i]] = v
        extra = args[npos:]
        missing = [x for x in params if x not in env]
        kw = dict(kwargs)
        for x in list(missing):
            if x in kw:
                env[x] = kw.pop(x)
        for x in list(kw):
            if x in params:
                env[x] = join(env.get(x, BOT), kw.pop(x))
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
        missing = [x for x in params if x not in env]
        if star is not None:
            for x in missing:
                env[x] = star
        ndef = len(a.defaults)
        for i, d in enumerate(a.defaults):
            pn = params[npos - ndef + i]
            if pn not in env or (star is not None and pn in missing) or (starstar is not None and pn in missing):
                env[pn] = join(env.get(pn, BOT), self.default_value(fn, d))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default_value(fn, d)
        if starstar is not None:
            for x in missing:
                env[x] = join(env.get(x, BOT), starstar)
        for x, t in self.ctypes(fn)[0].items():
            if x in env:
                env[x] = self.coerce_c(env[x], t)
                if env[x].bot:
                    return None
        for x in params:
            if x not in env:
                return None          # wrong number of arguments: TypeError
        if len(extra) and a.vararg is None:
            return None
        if kw and a.kwarg is None:
            return None
        if a.vararg is not None:
            if star is not None:
                o = self.alloc('list', 'tuple', a.vararg, frame, ('va',))
                self.write(o, 'elem', join(joinall(extra), star))
                env[a.vararg.arg] = Val([o])
            else:
                env[a.vararg.arg] = Val([Tup(extra)])
        if a.kwarg is not None:
            o = self.alloc('dict', 'dict', fn.node, frame, ('kw',))
            for k, v in kw.items():
                self.write(o, 'k:' + repr(k), v)
            if starstar is not None:
                self.write(o, 'k*', starstar)
            env[a.kwarg.arg] = Val([o])
        return env

    # -- C types -------------------------------------------------------------------------------
    def coerce_c(self, v, t):
        """the value a C variable of scalar type ``t`` holds after ``v`` is assigned to it; BOT: TypeError"""
        if all(isinstance(a, Opaque) and a.t == t for a in v.atoms):
            return v
        out = set()
        for a in v.atoms:
            if isinstance(a, Const):
                if isinstance(a.v, (int, float)):
                    out.add(a)
            elif isinstance(a, Opaque):
                if a.t in ('float', 'int', 'bool'):
                    out.add(a if a.t == t or t == 'bool' else Opaque(t, a.tag if t == 'float' else None))
                elif a.t in ('num', 'any', 'complex'):
                    out.add(Opaque(t, a.tag))
            elif isinstance(a, Obj) and a.kind in ('ndarray', 'ext'):
                out.add(Opaque(t))
        return Val(out, v.labels) if out else BOT

    def ctypes(self, fn):
        """C scalar types of a Cython function's arguments (first) and local variables"""
        r = self.ctype_cache.get(fn.uid)
        if r is None:
            args, loc = {}, {}
            if fn.module.kind == 'pyx' and not isinstance(fn.node, ast.Lambda):
                for x in fn.node.args.args + fn.node.args.kwonlyargs:
                    if isinstance(x.annotation, ast.Constant) and x.annotation.value in CSCALARS:
                        args[x.arg] = x.annotation.value
                for x in ast.walk(fn.node):
                    if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and isinstance(x.annotation, ast.Constant) \
                            and x.annotation.value in CSCALARS:
                        loc[x.target.id] = x.annotation.value
            loc.update(args)
            r = self.ctype_cache[fn.uid] = (args, loc)
        return r

    def local_names(self, fn):
        r = self.local_cache.get(fn.uid)
        if r is None:
            r = set()
            if not isinstance(fn.node, ast.Lambda):
                todo = list(fn.node.body)
                gl = set()
                while todo:
                    n = todo.pop()
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        r.add(n.name)
                        continue
                    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        if not isinstance(n, ast.Lambda):
                            todo += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
                        continue
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        gl |= set(n.names)
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        r.add(n.id)
                    todo += list(ast.iter_child_nodes(n))
                r -= gl
            self.local_cache[fn.uid] = r
        return r

    def default_value(self, fn, d):
        if isinstance(d, ast.Constant):
            return C(d.value)
        fr = Frame(self, None, ('default', fn.uid), None)
        fr.module = fn.module
        ph, self.phase = self.phase, 'global'
        try:
            env = dict(self.cls_env(fn.cls)) if fn.cls is not None else {}
            return self.eval(d, State(env), fr)
        except Abort:
            return BOT
        finally:
            self.phase = ph

    def cls_env(self, cls):
        return {k: v for k, v in cls.attrs.items() if isinstance(v, Val)}

    def call_fn(self, fn, args, kwargs, node, frame, star=None, starstar=None):
        self.models.note_call(frame, node, fn, args, kwargs)
        over = self.models.override(fn, args, kwargs, node, frame)
        if over is not None:
            return over
        cs = (fn.module.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)) if node is not None else None
        if cs is not None and getattr(node, '_mod', None) is not None:
            cs = (node._mod.name,) + cs[1:]
        fr0 = Frame(self, fn, None, cs)
        env = self.bind_args(fn, args, kwargs, node, fr0, star, starstar)
        for h in self.hooks:
            f = getattr(h, 'on_call', None)
            if f:
                f(self, frame, node, fn, env)
        if env is None:
            raise Abort()
        if self.is_scalar_fn(fn):
            cs = None
        # a lambda's / nested function's environment is part of its identity (closure id)
        key = (fn, tuple(sorted(env.items(), key=lambda kv: kv[0])), self.phase, cs)
        ctxs = self.ctxcount[(fn, self.phase)]
        if key not in ctxs:
            if len(ctxs) >= (LEAF_CTX if fn.module.name in LEAF_MODULES else MAX_CTX):
                mk = (fn, '*', self.phase)
                old = self.merged.get(mk, {})
                new = {k: join(old.get(k, BOT), v) for k, v in env.items()}
                if new != old:
                    self.merged[mk] = new
                    self.changed = True
                    self.evaluated.pop(mk, None)
                env = dict(new)
                key = mk
                cs = None
            else:
                ctxs.add(key)
        if key not in self.callers:
            self.callers[key] = (frame.key if frame is not None else None, frame.fn if frame is not None else None, node,
                                 tuple(frame.guards) if frame is not None else ())
        res = self.memo.get(key)
        if key in self.active or (key in self.evaluated):
            if res is None:
                res = self.memo[key] = Result(BOT, False, {})
        else:
            self.active.add(key)
            try:
                new = self.analyse(fn, env, key, cs)
            finally:
                self.active.discard(key)
            self.evaluated[key] = True
            if res is None or new != res:
                if res is not None:
                    new = Result(join(res.ret, new.ret), res.returns or new.returns,
                                 {k: res.raises.get(k, frozenset()) | new.raises.get(k, frozenset())
                                  for k in set(res.raises) | set(new.raises)})
                if res is None or new != res:
                    self.changed = True
                    self.memo[key] = new
            res = self.memo[key]
        if frame is not None:
            for c, nodes in res.raises.items():
                self.note_raise(frame, c, nodes)
        ret = res.ret
        for h in self.hooks:
            f = getattr(h, 'on_return', None)
            if f:
                r = f(self, frame, node, fn, env, ret)
                if r is not None:
                    ret = r
        if not res.returns:
            raise Abort()
        return ret

    def part_of(self, env):
        """objects created for one of several variables stay apart in what is computed from them"""
        parts = set()
        for v in env.values():
            if len(v.atoms) == 1:
                a = next(iter(v.atoms))
                if isinstance(a, Obj) and isinstance(a.site[-1], tuple) and a.site[-1] and a.site[-1][0] == 'part':
                    parts.add(a.site[-1][1:])
                elif self.splitparts and isinstance(a, Obj) and a.kind == "inst" and self.is_splitclass(a):
                    parts.add(a.site[:3])
        return parts.pop() if len(parts) == 1 else None

    def is_scalar_fn(self, fn):
        """The function returns plain scalars and stores nothing: its call site is irrelevant."""
        r = self.nostore.get(fn.uid)
        if r is None:
            r = not fn.isgen and not isinstance(fn.node, ast.Lambda)
            if r:
                ann = fn.node.returns
                t = ann.id if isinstance(ann, ast.Name) else ann.value if isinstance(ann, ast.Constant) else None
                scalar = t in ('bool', 'int', 'float', 'str')
                for n in ast.walk(fn.node):
                    if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        r = False
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STORING:
                        r = False
                    elif isinstance(n, ast.Return) and n.value is not None and not scalar and not scalar_expr(n.value):
                        r = False
            self.nostore[fn.uid] = r
        return r

    def analyse(self, fn, env, key, cs):
        self.analysed.add(fn.uid)
        self.fn_by_uid[fn.uid] = fn
        fr = Frame(self, fn, key, cs)
        fr.part = self.part_of(env)
        sv = env.get('self')
        if sv is not None and len(sv.atoms) == 1:
            a = next(iter(sv.atoms))
            if isinstance(a, Obj) and a.kind in ('inst', 'dict') and len(a.site) < 11:
                fr.recv = a.site + (a.phase,)
        st = State(dict(env))
        if isinstance(fn.node, ast.Lambda):
            try:
                v = self.eval(fn.node.body, st, fr)
                return Result(v, True, {k: frozenset(n) for k, n in fr.raises.items()})
            except Abort:
                return Result(BOT, False, {k: frozenset(n) for k, n in fr.raises.items()})
        fr.returned = False
        if fn.isgen:
            st.env['?y'] = FALSE
        end = self.exec_block(fn.node.body, st, fr)
        if fn.isgen:
            o = self.alloc('iter', 'generator', fn.node, fr, ('gen',))
            ends = list(fr.yends)
            if end is not None:
                ends.append(end.env.get('?y', FALSE))
            self.write(o, '?ne' if all(y.atoms == TRUE.atoms for y in ends) else '?delgen', TRUE)
            if not fr.yields.bot:
                self.write(o, 'elem', fr.yields)
            fin = end is not None or fr.returned or not fr.yields.bot
            o_ends = end is not None or fr.returned
            if o_ends:
                self.write(o, '?ends', TRUE)
            return Result(Val([o]), True, {}) if True else None
        ret = fr.ret
        returns = fr.returned
        if end is not None:
            ret = join(ret, NONE)
            returns = True
        return Result(ret, returns, {k: frozenset(n) for k, n in fr.raises.items()})

    def note_raise(self, frame, cname, nodes):
        if frame.try_stack:
            d = frame.try_stack[-1].raised
        else:
            d = frame.raises
        d.setdefault(cname, set()).update(nodes)

    # -- statements ----------------------------------------------------------------------------
    def exec_block(self, stmts, st, fr):
        for k, s in enumerate(stmts):
            if st is None:
                return None
            st = self.exec_stmt(s, st, fr)
            if st is not None and fr.part is None and type(s) is ast.Assign and len(s.targets) == 1 \
                    and isinstance(s.targets[0], ast.Name) and k + 1 < len(stmts):
                cases = self.split_cases(st.env.get(s.targets[0].id))
                if cases:
                    # one of several variables was selected: follow the rest of the block for each of them
                    out = None
                    for c in cases:
                        s2 = st.copy()
                        s2.env[s.targets[0].id] = c
                        fr.part = min((a.site[:3] for a in c.atoms if isinstance(a, Obj)), default=('none',))
                        try:
                            out = join_state(out, self.exec_block(stmts[k + 1:], s2, fr))
                        finally:
                            fr.part = None
                    return out
        return st

    def split_cases(self, v):
        if v is None or not 2 <= len(v.atoms) <= 8:
            return None
        vs = [a for a in v.atoms if isinstance(a, Obj) and a.kind == 'inst' and self.is_splitclass(a)]
        if len(vs) < 2:
            return None
        rest = [a for a in v.atoms if a not in vs]
        out = [Val([a], v.labels) for a in sorted(vs, key=lambda a: repr(a.site))]
        if rest:
            out.append(Val(rest, v.labels))
        return out

    def is_splitclass(self, a):
        c = self.base_class(a.cls)
        r = self.splitcls.get(c)
        if r is None:
            r = self.splitcls[c] = any(isinstance(m, ClassRef) and m.name == 'Variable' for m in c.mro())
        return r

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        self.reached.add(id(s))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken('statement %s not supported (%s:%s)' % (type(s).__name__, fr.module and fr.module.rel, s.lineno))
        try:
            r = m(s, st, fr)
        except Abort:
            r = None
        if fr.try_stack:
            t = fr.try_stack[-1]
            t.state = join_state(t.state, (r if r is not None else st).copy())
        return r

    def x_Pass(self, s, st, fr):
        return st

    def x_Expr(self, s, st, fr):
        self.eval(s.value, st, fr)
        return st

    def x_Global(self, s, st, fr):
        fr.globals_.update(s.names)
        return st

    x_Nonlocal = x_Global

    def x_Import(self, s, st, fr):
        for al in s.names:
            if al.asname:
                tgt, mod = al.asname, al.name
            else:
                tgt, mod = al.name.split('.')[0], al.name.split('.')[0]
                if al.name in self.p.modules:
                    self.load_module(al.name)
            st.env[tgt] = self.resolve_import(mod, None)
            if getattr(fr, 'is_module', False):
                self.imports[fr.module.name][tgt] = (mod, None)
        return st

    def x_ImportFrom(self, s, st, fr):
        mod = self.module_name(fr.module, s.level, s.module or '')
        for al in s.names:
            if al.name == '*':
                env = self.load_module(mod)
                for k in list(env or ()):
                    st.env[k] = env[k]
                    if getattr(fr, 'is_module', False):
                        self.imports[fr.module.name][k] = (mod, k)
                continue
            tgt = al.asname or al.name
            if getattr(fr, 'is_module', False):
                self.imports[fr.module.name][tgt] = (mod, al.name)
                st.env.setdefault(tgt, BOT)
                v = None
            v = self.resolve_import(mod, al.name)
            if v is None:
                v = BOT if mod.split('.')[0] in ('jpt',) else O()
            st.env[tgt] = v
        return st

    def x_FunctionDef(self, s, st, fr):
        kind = 'func'
        clos = None
        if fr.fn is not None:
            clos = (s.lineno, fr.key)
            old = self.closures.get(clos)
            new = dict(old or {})
            for k, v in st.env.items():
                new[k] = join(new.get(k, BOT), v)
            if new != old:
                self.closures[clos] = new
                self.changed = True
        fn = FuncRef(s.name, s, fr.module, None, kind, clos)
        st.env[s.name] = Val([fn])
        return st

    def x_ClassDef(self, s, st, fr):
        ck = (fr.module.name, s.lineno, s.name)
        cls = self.classes.get(ck)
        if cls is None:
            bases = []
            for b in s.bases:
                try:
                    v = self.eval(b, st, fr)
                except Abort:
                    v = BOT
                for a in v.atoms:
                    if isinstance(a, ClassRef):
                        bases.append(a)
                    elif isinstance(a, Ext):
                        bases.append(a.name)
            cls = ClassRef(s.name, s, fr.module, bases)
            self.classes[ck] = cls
            cls._h = None
            env = {}
            cfr = Frame(self, None, ('class', ck), None)
            cfr.module = fr.module
            cfr.cls = cls
            cst = State(dict(st.env))
            base_env = set(st.env)
            for b in s.body:
                if isinstance(b, ast.FunctionDef):
                    v = self.make_method(b, cls, fr.module, cst, cfr)
                    cls.attrs[b.name] = v
                    if isinstance(v, Val):
                        cst.env[b.name] = v
                    elif isinstance(v, Prop):
                        cst.env[b.name] = Val([Ext('property:' + b.name)])
                elif isinstance(b, ast.ClassDef):
                    self.x_ClassDef(b, cst, cfr)
                    cls.attrs[b.name] = cst.env[b.name]
                elif isinstance(b, ast.Assign):
                    try:
                        # alias of a descriptor?
                        if isinstance(b.value, ast.Name) and b.value.id in cls.attrs:
                            for t in b.targets:
                                cls.attrs[t.id] = cls.attrs[b.value.id]
                            continue
                        v = self.eval(b.value, cst, cfr)
                    except Abort:
                        v = BOT
                    for t in b.targets:
                        if isinstance(t, ast.Name):
                            cls.attrs[t.id] = v
                            cst.env[t.id] = v
                elif isinstance(b, ast.AnnAssign):
                    if isinstance(b.target, ast.Name):
                        if b.value is not None and not isinstance(b.annotation, ast.Constant):
                            v = self.eval(b.value, cst, cfr)
                            cls.attrs[b.target.id] = v
                            cst.env[b.target.id] = v
                        elif b.value is not None:
                            v = self.eval(b.value, cst, cfr)
                            cls.attrs[b.target.id] = v
        st.env[s.name] = Val([cls])
        return st

    def make_method(self, b, cls, module, cst, cfr):
        kind = 'method'
        prop = None
        for d in b.decorator_list:
            dn = ast.unparse(d) if not isinstance(d, ast.Call) else ast.unparse(d.func)
            if dn == 'staticmethod':
                kind = 'static'
            elif dn == 'classmethod':
                kind = 'class'
            elif dn in ('property', 'cached_property', 'functools.cached_property'):
                prop = 'get'
            elif dn.endswith('.setter'):
                prop = 'set'
            elif dn.split('.')[-1] == 'classproperty':
                prop = 'cget'
        fn = FuncRef(b.name, b, module, cls, kind)
        if prop == 'get':
            return Prop(fn)
        if prop == 'cget':
            return Prop(fn, clsprop=True)
        if prop == 'set':
            old = cls.attrs.get(b.name)
            return Prop(old.getter if isinstance(old, Prop) else None, fn)
        return Val([fn])

    def x_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        for h in self.hooks:
            f = getattr(h, 'on_return_stmt', None)
            if f:
                f(self, fr, s, v)
        fr.ret = join(fr.ret, self.under(v, fr))
        fr.yends.append(st.env.get('?y', FALSE))
        fr.returned = True
        return None

    def under(self, v, fr):
        if self.implicit:
            for g in fr.guards:
                v = v.with_labels(g[2])
        return v

    def x_Raise(self, s, st, fr):
        names = set()
        if s.exc is None:
            h = getattr(fr, 'handling', None)
            names = set(h[-1]) if h else {'Exception'}
        else:
            v = self.eval(s.exc, st, fr)
            for a in v.atoms:
                names.add(self.exc_name(a))
        for n in names or {'Exception'}:
            self.note_raise(fr, n, [s])
        for h in self.hooks:
            f = getattr(h, 'on_raise', None)
            if f:
                f(self, fr, s, names)
        return None

    def exc_name(self, a):
        if isinstance(a, Obj):
            return a.clsname().split('.')[-1]
        if isinstance(a, ClassRef):
            return a.name
        if isinstance(a, Ext):
            return a.name.split('.')[-1]
        return 'Exception'

    def exc_matches(self, name, handler):
        if handler is None:
            return True
        if name == handler:
            return True
        a, b = getattr(builtins, name, None), getattr(builtins, handler, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        for c in self.classes.values():
            if c.name == name:
                for m in c.mro()[1:]:
                    mn = m.name if isinstance(m, ClassRef) else m.split('.')[-1]
                    if self.exc_matches(mn, handler):
                        return True
        return handler in ('Exception', 'BaseException')

    def x_Assert(self, s, st, fr):
        v, t, f = self.cond(s.test, st, fr)
        if f is not None:
            self.note_raise(fr, 'AssertionError', [s])
        return t

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value, st, fr)
                idx = self.eval_index(t.slice, st, fr)
                for a in base.atoms:
                    if isinstance(a, Obj):
                        if a.kind == 'inst':
                            m = self.find_method(a, '__delitem__')
                            if m is not None:
                                self.call_atom(Bound(m, Val([a])), [idx], {}, t, fr)
                                continue
                        self.mutate(a, 'elem', BOT, t, fr, 'del')
                        self.shrunk.add(a)
            elif isinstance(t, ast.Attribute):
                base = self.eval(t.value, st, fr)
                for a in base.atoms:
                    if isinstance(a, Obj):
                        self.mutate(a, t.attr, BOT, t, fr, 'delattr')
        return st

    def x_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def x_AnnAssign(self, s, st, fr):
        if s.value is None:
            if isinstance(s.target, ast.Name) and isinstance(s.annotation, ast.Constant) \
                    and str(s.annotation.value).startswith('cpp.'):
                st.env[s.target.id] = self.c_default(s.annotation.value, s, fr)
            return st
        v = self.eval(s.value, st, fr)
        self.assign(s.target, v, st, fr)
        return st

    def x_AugAssign(self, s, st, fr):
        t = s.target
        load = self.as_load(t)
        cur = self.eval(load, st, fr)
        v = self.eval(s.value, st, fr)
        res = self.augment(cur, v, s, fr)
        self.assign(t, res, st, fr, aug=True)
        return st

    def as_load(self, t):
        if isinstance(t, ast.Name):
            n = ast.Name(id=t.id, ctx=ast.Load())
        elif isinstance(t, ast.Attribute):
            n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        else:
            n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        n._mod = getattr(t, '_mod', None)
        return ast.copy_location(n, t)

    AUG = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.Mult: '__imul__', ast.Div: '__itruediv__', ast.BitOr: '__ior__',
           ast.BitAnd: '__iand__'}

    def augment(self, cur, v, node, fr):
        out = BOT
        rest = set()
        for a in cur.atoms:
            if isinstance(a, Obj):
                if a.kind == 'inst':
                    m = self.find_method(a, self.AUG.get(type(node.op), ''))
                    if m is not None:
                        out = join(out, self.call_atom(Bound(m, Val([a])), [v], {}, node, fr))
                        continue
                    rest.add(a)
                elif a.kind in ('list', 'set', 'dict', 'ndarray'):
                    if a.cls == 'tuple':
                        rest.add(a)
                        continue
                    self.mutate(a, 'elem', v, node, fr, 'augassign')
                    if a.kind == 'dict':
                        self.models.dict_update(a, v, node, fr)
                    elif a.kind == 'ndarray':
                        self.write(a, 'elem', O('float', self.deep_labels(v)))
                    else:
                        self.write(a, 'elem', self.iter_elems(v, node, fr)[0])
                    out = join(out, Val([a], cur.labels))
                else:
                    rest.add(a)
            else:
                rest.add(a)
        if rest or not cur.atoms:
            out = join(out, self.binop(type(node.op), Val(rest, cur.labels), v, node, fr))
        return out

    def assign(self, t, v, st, fr, aug=False):
        v = self.under(v, fr)
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                env = self.modenv[fr.module.name]
                old = env.get(t.id, BOT)
                new = join(old, v)
                if new != old:
                    env[t.id] = new
                    self.changed = True
            if fr.fn is not None and fr.module is not None and fr.module.kind == 'pyx':
                ct = self.ctypes(fr.fn)[1].get(t.id)
                if ct is not None:
                    v = self.coerce_c(v, ct)
                    if v.bot:
                        raise Abort()
            st.env[t.id] = v
            for h in self.hooks:
                f = getattr(h, 'on_assign', None)
                if f:
                    f(self, fr, t, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr, t)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st, fr)
            self.store_attr(base, t.attr, v, t, fr)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, fr)
            self.store_item(base, t.slice, v, t, st, fr)
        elif isinstance(t, ast.Starred):
            o = self.alloc('list', 'list', t, fr)
            self.write(o, 'elem', v)
            self.assign(t.value, Val([o]), st, fr)
        else:
            raise AnalysisBroken('assignment target %s' % type(t).__name__)

    def unpack(self, elts, v, st, fr, node):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        out = [BOT] * n
        for a in v.atoms:
            if isinstance(a, Tup) and not star:
                if len(a.items) == n:
                    out = [join(x, y) for x, y in zip(out, a.items)]
                elif len(a.items) != n:
                    continue
            elif isinstance(a, Tup):
                k = star[0]
                after = n - k - 1
                if len(a.items) < n - 1:
                    continue
                for i in range(k):
                    out[i] = join(out[i], a.items[i])
                out[k] = join(out[k], joinall(a.items[k:len(a.items) - after]))
                for i in range(after):
                    out[n - 1 - i] = join(out[n - 1 - i], a.items[len(a.items) - 1 - i])
            elif isinstance(a, Obj) and a.kind == 'list' and any(k.startswith('i:') for k in self.fields(a)):
                for i in range(n):
                    fv = self.field(a, 'i:%d' % i)
                    el = self.field(a, 'elem', BOT)
                    out[i] = join(out[i], join(fv if fv is not None else BOT, el))
            else:
                e, _ = self.iter_elems(Val([a], v.labels), node, fr)
                out = [join(x, e) for x in out]
        if all(x.bot for x in out) and v.atoms and n:
            raise Abort()
        for e, x in zip(elts, out):
            self.assign(e, x.with_labels(v.labels) if x.atoms else x, st, fr)

    # control flow
    def x_If(self, s, st, fr):
        v, t, f = self.cond(s.test, st, fr)
        out = None
        if t is not None:
            fr.guards.append((s.test, True, v.labels, fr.fn))
            out = self.exec_block(s.body, t, fr)
            fr.guards.pop()
        if f is not None:
            fr.guards.append((s.test, False, v.labels, fr.fn))
            f2 = self.exec_block(s.orelse, f, fr) if s.orelse else f
            fr.guards.pop()
            out = join_state(out, f2)
        return out

    def loop(self, fr, st, test, body, orelse, head):
        """head(state) -> (state entering the body or None, state leaving the loop or None)"""
        cur = st
        exit_ = None
        ctx = {'brk': None, 'cont': None}
        fr.loops.append(ctx)
        try:
            for i in range(8):
                before = cur.copy()
                enter, leave = head(cur.copy())
                exit_ = join_state(exit_, leave)
                if not enter:
                    break
                ctx['cont'] = None
                end = None
                for e in (enter if isinstance(enter, list) else [enter]):
                    end = join_state(end, self.exec_block(body, e, fr))
                end = join_state(end, ctx['cont'])
                nxt = join_state(before.copy(), end) if end is not None else before
                if states_equal(nxt, before):
                    if i == 0 and end is not None:
                        exit_ = join_state(exit_, head(nxt.copy())[1])
                    break
                if i >= 4:
                    for k, v in nxt.env.items():
                        if before.env.get(k) != v:
                            nxt.env[k] = self.widen_val(v)
                cur = nxt
        finally:
            fr.loops.pop()
        if orelse and exit_ is not None:
            exit_ = self.exec_block(orelse, exit_, fr)
        return join_state(exit_, ctx['brk'])

    def is_variable(self, e):
        if len(e.atoms) != 1:
            return False
        a = next(iter(e.atoms))
        if isinstance(a, Tup) and a.items and len(a.items[0].atoms) == 1:
            a = next(iter(a.items[0].atoms))
        return isinstance(a, Obj) and a.kind == 'inst' and a.clsname().endswith('Variable')

    def unrolled(self, fr, st, s, alts):
        """a loop over different variables: one iteration for each of them"""
        cur, brk = st.copy(), None
        for e in alts:
            s2 = cur.copy()
            try:
                self.assign(s.target, e, s2, fr)
            except Abort:
                continue
            ctx = {'brk': None, 'cont': None}
            fr.loops.append(ctx)
            try:
                end = self.exec_block(s.body, s2, fr)
            finally:
                fr.loops.pop()
            brk = join_state(brk, ctx['brk'])
            cur = join_state(end, ctx['cont'])
            if cur is None:
                break
        if s.orelse and cur is not None:
            cur = self.exec_block(s.orelse, cur, fr)
        return join_state(cur, brk)

    def widen_val(self, v):
        at = set()
        for a in v.atoms:
            if isinstance(a, Const) and isinstance(a.v, (int, float, str)) and not isinstance(a.v, bool):
                at.add(Opaque(type(a.v).__name__))
            elif isinstance(a, Tup):
                at.add(Tup([self.widen_val(x) for x in a.items]))
            else:
                at.add(a)
        return Val(at, v.labels)

    def x_While(self, s, st, fr):
        glabels = [NOLABELS]

        def head(cur):
            v, t, f = self.cond(s.test, cur, fr)
            return t, f
        fr.guards.append((s.test, True, NOLABELS, fr.fn))
        try:
            return self.loop(fr, st, s.test, s.body, s.orelse, head)
        finally:
            fr.guards.pop()

    def x_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        elem, may_empty = self.iter_elems(it, s.iter, fr)
        if elem.bot:
            out = st
            return self.exec_block(s.orelse, out, fr) if s.orelse else out
        first_ = [True]
        alts = self.alternatives(elem)

        def head(cur):
            enter = []
            for e in alts:
                s2 = cur.copy()
                try:
                    self.assign(s.target, e, s2, fr)
                except Abort:
                    continue
                enter.append(s2)
            leave = cur if (may_empty or not first_[0]) else None
            first_[0] = False
            return enter, leave
        fr.guards.append((s, True, elem.labels, fr.fn))
        try:
            if self.unroll and not may_empty and 2 <= len(alts) <= 4 and all(self.is_variable(e) for e in alts):
                return self.unrolled(fr, st, s, alts[::-1] if self.unroll == 'reverse' else alts)
            return self.loop(fr, st, None, s.body, s.orelse, head)
        finally:
            fr.guards.pop()

    def x_Break(self, s, st, fr):
        c = fr.loops[-1]
        c['brk'] = join_state(c['brk'], st)
        return None

    def x_Continue(self, s, st, fr):
        c = fr.loops[-1]
        c['cont'] = join_state(c['cont'], st)
        return None

    def x_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            r = v
            for a in v.atoms:
                if isinstance(a, Obj) and a.kind == 'inst':
                    m = self.find_method(a, '__enter__')
                    if m is not None:
                        r = join(r, self.call_atom(Bound(m, Val([a])), [], {}, s, fr))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st, fr)
        return self.exec_block(s.body, st, fr)

    def x_Try(self, s, st, fr):
        ctx = TryCtx()
        ctx.state = st.copy()
        fr.try_stack.append(ctx)
        end = self.exec_block(s.body, st.copy(), fr)
        fr.try_stack.pop()
        out = end
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out, fr)
        remaining = dict(ctx.raised)
        hstate = ctx.state
        for h in s.handlers:
            hn = [None]
            if h.type is not None:
                tv = self.eval(h.type, hstate.copy(), fr)
                hn = []
                for a in tv.atoms:
                    if isinstance(a, Tup):
                        for x in a.items:
                            hn += [self.exc_name(b) for b in x.atoms]
                    else:
                        hn.append(self.exc_name(a))
            caught = {n for n in remaining if any(self.exc_matches(n, x) for x in hn)}
            for n in caught:
                remaining.pop(n)
            hs = hstate.copy()
            if h.name:
                hs.env[h.name] = O('exception')
            if not hasattr(fr, 'handling'):
                fr.handling = []
            fr.handling.append(caught or {x for x in hn if x} or {'Exception'})
            fr.guards.append((h, True, NOLABELS, fr.fn))
            he = self.exec_block(h.body, hs, fr)
            fr.guards.pop()
            fr.handling.pop()
            out = join_state(out, he)
        for n, nodes in remaining.items():
            self.note_raise(fr, n, nodes)
        if s.finalbody:
            base = out if out is not None else hstate.copy()
            fin = self.exec_block(s.finalbody, base, fr)
            out = fin if out is not None else None
        return out

    # -- conditions ----------------------------------------------------------------------------
    def cond(self, test, st, fr):
        """-> (value, state if true or None, state if false or None)"""
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur = st
            other = None
            val = None
            labels = NOLABELS
            pushed = 0
            for v in test.values:
                x, t, f = self.cond(v, cur, fr)
                labels |= x.labels
                val = x
                if isand:
                    other = join_state(other, f)
                    cur = t
                else:
                    other = join_state(other, t)
                    cur = f
                if cur is None:
                    break
                fr.guards.append((v, isand, x.labels, fr.fn))
                pushed += 1
            for _ in range(pushed):
                fr.guards.pop()
            t, f = (cur, other) if isand else (other, cur)
            tv = set()
            if t is not None:
                tv.add(Const(True))
            if f is not None:
                tv.add(Const(False))
            return Val(tv, labels), t, f
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            x, t, f = self.cond(test.operand, st, fr)
            tv = set()
            if f is not None:
                tv.add(Const(True))
            if t is not None:
                tv.add(Const(False))
            return Val(tv, x.labels), f, t
        v = self.eval(test, st, fr)
        can = self.truth(v, test, fr)
        if not can:
            raise Abort()
        if self.branches is not None and len(can) > 1:
            self.branches.append((fr.fn if fr is not None else None, test, v))
        if len(can) == 1 or not self.narrowable(test):
            if len(can) == 1:
                return v, (st if True in can else None), (st if False in can else None)
            return v, st.copy(), st.copy()
        t, f = st.copy(), st.copy()
        names = {n.id for n in ast.walk(test) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        for name in sorted(names):
            cur = st.env.get(name)
            if cur is None or len(cur.atoms) < 2 or len(cur.atoms) > 14:
                continue
            ta, fa = set(), set()
            for a in cur.atoms:
                s2 = State(dict(st.env))
                s2.env[name] = Val([a], cur.labels)
                try:
                    c = self.truth(self.eval(test, s2, fr), test, fr)
                except Abort:
                    c = set()
                if True in c:
                    ta.add(a)
                if False in c:
                    fa.add(a)
            if ta:
                t.env[name] = Val(ta, cur.labels)
            if fa:
                f.env[name] = Val(fa, cur.labels)
        # type narrowing of opaque values
        self.narrow_opaque(test, t, f, fr)
        return v, t, f

    def narrow_opaque(self, test, t, f, fr):
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2 \
                and isinstance(test.args[0], ast.Name):
            n = test.args[0].id
            cur = t.env.get(n)
            if cur is not None and cur.atoms == frozenset([Opaque('any')]):
                cls = self.eval(test.args[1], t, fr)
                if len(cls.atoms) == 1:
                    a = next(iter(cls.atoms))
                    nm = a.name.split('.')[-1] if isinstance(a, Ext) else None
                    ty = {'str': 'str', 'int': 'int', 'float': 'float', 'Number': 'num', 'Real': 'num', 'Integral': 'int'}.get(nm)
                    if ty:
                        t.env[n] = Val([Opaque(ty)], cur.labels)

    def narrowable(self, test):
        for n in ast.walk(test):
            if isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass', 'type', 'hasattr', 'callable', 'len', 'id')):
                    return False
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda)):
                return False
        return True

    def truth(self, v, node, fr):
        out = set()
        for a in v.atoms:
            if isinstance(a, Const):
                out.add(bool(a.v))
            elif isinstance(a, Opaque):
                out |= {True} if a.tag == POSITIVE else {True, False}
            elif isinstance(a, Tup):
                out.add(len(a.items) > 0)
            elif isinstance(a, Obj):
                if a.kind == 'inst':
                    m = self.find_method(a, '__bool__') or self.find_method(a, '__len__')
                    if m is not None:
                        try:
                            r = self.call_atom(Bound(m, Val([a])), [], {}, node, fr)
                        except Abort:
                            continue
                        for b in r.atoms:
                            if isinstance(b, Const):
                                out.add(bool(b.v))
                            else:
                                out |= {True, False}
                    else:
                        out.add(True)
                elif a.kind in ('dict', 'list', 'set'):
                    has = any(not k.startswith('?') and not x.bot for k, x in self.fields(a).items())
                    if not has:
                        out.add(False)
                    else:
                        out |= {True} if self.filled(a) else {True, False}
                elif a.kind in ('ndarray', 'ext'):
                    out |= {True, False}
                else:
                    out.add(True)
            else:
                out.add(True)
            if len(out) == 2:
                break
        return out

    # -- expressions ---------------------------------------------------------------------------
    def eval(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken('expression %s not supported' % type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return Val([Const(n.value)])

    def e_Name(self, n, st, fr):
        v = st.env.get(n.id)
        if v is not None and not (v.bot and getattr(fr, 'is_module', False)):
            return v
        # closures
        fn = fr.fn
        if fn is not None and fn.module.kind == 'pyx' and n.id in self.ctypes(fn)[1]:
            return O(self.ctypes(fn)[1][n.id])
        if fn is not None and n.id in self.local_names(fn) and isinstance(n.ctx, ast.Load) and not getattr(fr, 'is_module', False):
            self.note_raise(fr, 'UnboundLocalError', [n])
            raise Abort()
        c = fn.closure if fn is not None else None
        seen = 0
        while c is not None and seen < 5:
            env = self.closures.get(c)
            if env and n.id in env:
                return env[n.id]
            k = c[1]
            c = k[0].closure if k and isinstance(k[0], FuncRef) else None
            seen += 1
        if fr.module is not None:
            g = self.lookup_global(fr.module, n.id)
            if g is not None:
                return g
        return self.models.builtin_name(n.id)

    def e_Attribute(self, n, st, fr):
        base = self.eval(n.value, st, fr)
        return self.load_attr(base, n.attr, n, fr)

    def e_Subscript(self, n, st, fr):
        base = self.eval(n.value, st, fr)
        return self.load_item(base, n.slice, n, st, fr)

    def e_Slice(self, n, st, fr):
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                self.eval(x, st, fr)
        return O('slice')

    def e_Tuple(self, n, st, fr):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                ts = [a for a in v.atoms if isinstance(a, Tup)]
                if len(v.atoms) == 1 and ts:
                    items.extend(ts[0].items)
                    continue
                el, _ = self.iter_elems(v, e, fr)
                o = self.alloc('list', 'tuple', n, fr)
                self.write(o, 'elem', el)
                for i in items:
                    self.write(o, 'elem', i)
                for e2 in n.elts[n.elts.index(e) + 1:]:
                    self.write(o, 'elem', self.eval(e2 if not isinstance(e2, ast.Starred) else e2.value, st, fr))
                return Val([o])
            items.append(self.eval(e, st, fr))
        return Val([Tup(items)])

    def seq(self, n, st, fr, kind):
        o = self.alloc(kind, kind, n, fr)
        exact = kind == 'list' and not any(isinstance(e, ast.Starred) for e in n.elts)
        for i, e in enumerate(n.elts):
            if isinstance(e, ast.Starred):
                v, _ = self.iter_elems(self.eval(e.value, st, fr), e, fr)
                self.write(o, 'elem', v)
            else:
                self.write(o, ('i:%d' % i) if exact else 'elem', self.eval(e, st, fr))
        if n.elts and exact:
            self.write(o, '?ne', TRUE)
        return Val([o])

    def e_List(self, n, st, fr):
        return self.seq(n, st, fr, 'list')

    def e_Set(self, n, st, fr):
        return self.seq(n, st, fr, 'set')

    def e_Dict(self, n, st, fr):
        o = self.alloc('dict', 'dict', n, fr)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.models.dict_update(o, self.eval(v, st, fr), n, fr)
            else:
                kv = self.eval(k, st, fr)
                vv = self.eval(v, st, fr)
                self.dict_set(o, kv, vv)
        return Val([o])

    def obj_key(self, a):
        """field name under which a dictionary stores the value of an object key"""
        if isinstance(a, Obj) and a.kind == 'inst':
            k = self.keyids.get(a)
            if k is None:
                k = self.keyids[a] = 'o:%d' % len(self.keyobjs)
                self.keyobjs[k] = a
            return k
        return None

    def dict_set(self, o, kv, vv):
        ks = ['k:' + repr(a.v) if isinstance(a, Const) else self.obj_key(a) for a in kv.atoms]
        if ks and None not in ks and len(ks) <= 10:
            for k in ks:
                self.write(o, k, vv)
            if kv.labels:
                self.write(o, '?kl', Val((), kv.labels))
        else:
            self.write(o, 'k*', vv)
            self.write(o, '?keys', kv)

    def dict_get(self, o, kv):
        f = self.fields(o)
        out = f.get('k*', BOT)
        ks = ['k:' + repr(a.v) if isinstance(a, Const) else self.obj_key(a) for a in kv.atoms]
        if ks and None not in ks:
            for k in ks:
                v = f.get(k)
                if v is None and k.startswith('o:'):
                    # another object of the same class may be equal to the key
                    c = self.base_class(self.keyobjs[k].cls)
                    v = BOT
                    for k2, v2 in f.items():
                        if k2.startswith('o:') and self.base_class(self.keyobjs[k2].cls) is c:
                            v = join(v, v2)
                out = join(out, v if v is not None else BOT)
        else:
            for k, v in f.items():
                if k.startswith(('k:', 'o:')):
                    out = join(out, v)
        return out

    def key_val(self, k):
        import ast as _ast
        if k.startswith('o:'):
            return Val([self.keyobjs[k]])
        try:
            return C(_ast.literal_eval(k[2:]))
        except Exception:
            return O('any')

    def dict_keys(self, o):
        f = self.fields(o)
        out = f.get('?keys', BOT)
        for k, v in f.items():
            if k.startswith(('k:', 'o:')):
                out = join(out, self.key_val(k))
        if '?kl' in f:
            out = out.with_labels(f['?kl'].labels) if out.atoms else out
        return out

    def dict_vals(self, o):
        f = self.fields(o)
        out = f.get('k*', BOT)
        for k, v in f.items():
            if k.startswith(('k:', 'o:')):
                out = join(out, v)
        return out

    def dict_items(self, o):
        f = self.fields(o)
        atoms = set()
        kl = f['?kl'].labels if '?kl' in f else NOLABELS
        for k, v in f.items():
            if k.startswith(('k:', 'o:')) and not v.bot:
                kk = self.key_val(k)
                if kl:
                    kk = kk.with_labels(kl)
                atoms.add(Tup([kk, v]))
        if 'k*' in f and not f['k*'].bot:
            atoms.add(Tup([f.get('?keys', O('any')), f['k*']]))
        return Val(widen(frozenset(atoms)))

    def e_JoinedStr(self, n, st, fr):
        labels = NOLABELS
        const = ''
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, st, fr)
                labels |= self.deep_labels(x, 1)
                cs = x.consts()
                if const is not None and len(x.atoms) == 1 and len(cs) == 1 and isinstance(cs[0], str) and v.format_spec is None:
                    const += cs[0]
                else:
                    const = None
            elif const is not None:
                const += str(v.value)
        if const is not None:
            return Val([Const(const)], labels)
        return O('str', labels)

    def e_FormattedValue(self, n, st, fr):
        return O('str', self.deep_labels(self.eval(n.value, st, fr), 1))

    def e_Lambda(self, n, st, fr):
        clos = (n.lineno, n.col_offset, fr.key) if False else ((n.lineno, n.col_offset), fr.key)
        old = self.closures.get(clos)
        free = {x.id for x in ast.walk(n.body) if isinstance(x, ast.Name)}
        new = dict(old or {})
        for k, v in st.env.items():
            if k in free:
                new[k] = join(new.get(k, BOT), v)
        if new != old:
            self.closures[clos] = new
            if old is not None:
                self.changed = True
        fn = FuncRef('<lambda>', n, fr.module, None, 'func', clos)
        return Val([fn])

    def e_IfExp(self, n, st, fr):
        v, t, f = self.cond(n.test, st, fr)
        out = BOT
        ok = False
        if t is not None:
            fr.guards.append((n.test, True, v.labels, fr.fn))
            try:
                out = join(out, self.eval(n.body, t, fr).with_labels(v.labels if self.implicit else NOLABELS))
                ok = True
            except Abort:
                pass
            fr.guards.pop()
        if f is not None:
            fr.guards.append((n.test, False, v.labels, fr.fn))
            try:
                out = join(out, self.eval(n.orelse, f, fr).with_labels(v.labels if self.implicit else NOLABELS))
                ok = True
            except Abort:
                pass
            fr.guards.pop()
        if not ok:
            raise Abort()
        return out

    def e_BoolOp(self, n, st, fr):
        out = BOT
        cur = st
        isand = isinstance(n.op, ast.And)
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            if last:
                out = join(out, self.eval(e, cur, fr))
                break
            v, t, f = self.cond(e, cur, fr)
            # value if short-circuit
            if (f if isand else t) is not None:
                if isinstance(e, (ast.Compare,)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)) or isinstance(e, ast.BoolOp):
                    out = join(out, Val([Const(not isand)], v.labels))
                else:
                    keep = [a for a in v.atoms if self.atom_truth(a, (not isand), e, fr)]
                    out = join(out, Val(keep, v.labels))
            cur = t if isand else f
            if cur is None:
                break
        return out

    def atom_truth(self, a, want, node, fr):
        return want in self.truth(Val([a]), node, fr)

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            v, t, f = self.cond(n.operand, st, fr)
            tv = set()
            if f is not None:
                tv.add(Const(True))
            if t is not None:
                tv.add(Const(False))
            return Val(tv, v.labels)
        v = self.eval(n.operand, st, fr)
        out = set()
        for a in v.atoms:
            if isinstance(a, Const) and isinstance(a.v, (int, float)) and isinstance(n.op, ast.USub):
                out.add(Const(-a.v))
            elif isinstance(a, Obj) and a.kind in ('ndarray', 'ext'):
                o = self.alloc('ndarray', 'ndarray', n, fr)
                self.write(o, 'elem', O('any', self.deep_labels(v)))
                out.add(o)
            elif isinstance(a, Obj) and a.kind == 'inst':
                m = self.find_method(a, {ast.USub: '__neg__', ast.Invert: '__invert__', ast.UAdd: '__pos__'}[type(n.op)])
                if m is not None:
                    out |= self.call_atom(Bound(m, Val([a])), [], {}, n, fr).atoms
                else:
                    out.add(Opaque('any'))
            elif isinstance(a, Opaque):
                out.add(a)
            else:
                out.add(Opaque('any'))
        return Val(out, v.labels)

    DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.BitOr: 'or', ast.BitAnd: 'and',
              ast.Mod: 'mod', ast.Pow: 'pow', ast.FloorDiv: 'floordiv', ast.BitXor: 'xor', ast.MatMult: 'matmul',
              ast.LShift: 'lshift', ast.RShift: 'rshift'}

    def e_BinOp(self, n, st, fr):
        l = self.eval(n.left, st, fr)
        r = self.eval(n.right, st, fr)
        return self.binop(type(n.op), l, r, n, fr)

    def binop(self, op, l, r, node, fr):
        out = BOT
        plain = False
        dn = self.DUNDER.get(op, '')
        lrest = set()
        for a in l.atoms:
            if isinstance(a, Obj) and a.kind == 'inst':
                m = self.find_method(a, '__%s__' % dn)
                if m is not None:
                    try:
                        out = join(out, self.call_atom(Bound(m, Val([a])), [r], {}, node, fr))
                    except Abort:
                        pass
                    continue
                lrest.add(a)
            else:
                lrest.add(a)
        if lrest or not l.atoms:
            rr = set()
            for a in r.atoms:
                if isinstance(a, Obj) and a.kind == 'inst':
                    m = self.find_method(a, '__r%s__' % dn)
                    if m is not None:
                        try:
                            out = join(out, self.call_atom(Bound(m, Val([a])), [Val(lrest, l.labels)], {}, node, fr))
                        except Abort:
                            pass
                        continue
                rr.add(a)
            if rr or not r.atoms:
                out = join(out, self.models.binop(op, Val(lrest, l.labels), Val(rr, r.labels), node, fr))
        for h in self.hooks:
            f = getattr(h, 'on_binop', None)
            if f:
                x = f(self, fr, node, op, l, r, out)
                if x is not None:
                    out = x
        if out.bot and (l.atoms and r.atoms):
            raise Abort()
        return out

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        labels = NOLABELS
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, st, fr)
            x = self.compare(op, left, right, n, fr)
            for h in self.hooks:
                f = getattr(h, 'on_compare', None)
                if f:
                    f(self, fr, n, op, left, right, x)
            labels |= x.labels
            if res is None:
                res = x.atoms
            else:
                poss = set()
                for a in res:
                    for b in x.atoms:
                        if isinstance(a, Const) and isinstance(b, Const):
                            poss.add(Const(bool(a.v) and bool(b.v)))
                        else:
                            poss |= {Opaque('bool')}
                res = frozenset(poss)
            left = right
        return Val(res, labels)

    def compare(self, op, l, r, node, fr):
        return self.models.compare(op, l, r, node, fr)

    def comp(self, n, st, fr, elt_fn):
        """Evaluate comprehension generators; call elt_fn(state) for each abstract element."""
        empty_possible = [False]
        done = [False]
        aborted = [False]

        def go(gens, cur):
            if not gens:
                elt_fn(cur)
                done[0] = True
                return
            g = gens[0]
            it = self.eval(g.iter, cur, fr)
            elem, me = self.iter_elems(it, g.iter, fr)
            if me:
                empty_possible[0] = True
            if elem.bot:
                return
            for e in self.alternatives(elem):
                s2 = cur.copy()
                try:
                    self.assign(g.target, e, s2, fr)
                except Abort:
                    continue
                ok = s2
                pushed = 0
                try:
                    for c in g.ifs:
                        v, t, f = self.cond(c, ok, fr)
                        if f is not None:
                            empty_possible[0] = True
                        ok = t
                        if ok is None:
                            break
                        fr.guards.append((c, True, v.labels, fr.fn))
                        pushed += 1
                    if ok is not None:
                        go(gens[1:], ok)
                except Abort:
                    aborted[0] = True
                finally:
                    for _ in range(pushed):
                        fr.guards.pop()
        go(n.generators, st.copy())
        if aborted[0] and not done[0] and not empty_possible[0]:
            raise Abort()
        return empty_possible[0]

    def alternatives(self, elem):
        """Split the representative element of an iteration into cases, so that what is computed from one
        object (a variable and its name, a key and its value) stays together."""
        if len(elem.atoms) < 2:
            return [elem]
        groups, rest = {}, []
        for a in elem.atoms:
            if isinstance(a, Tup):
                groups[a] = [a]
            elif isinstance(a, Obj) and a.kind in ('inst', 'dict', 'class'):
                groups[a] = [a]
            elif isinstance(a, Const) and isinstance(a.v, str):
                groups[a] = [a]
            else:
                rest.append(a)
        if len(groups) > 16:
            return [elem]
        out = [Val(g, elem.labels) for g in groups.values()]
        out.sort(key=repr)
        if rest:
            out.append(Val(rest, elem.labels))
        return out

    def e_ListComp(self, n, st, fr, kind='list'):
        o = self.alloc(kind, kind if kind != 'iter' else 'generator', n, fr)
        aborted = [False]

        def elt(s2):
            self.write(o, 'elem', self.under(self.eval(n.elt, s2, fr), fr))
        me = self.comp(n, st, fr, elt)
        if not me:
            self.write(o, '?ne', TRUE)
        return Val([o])

    def e_SetComp(self, n, st, fr):
        return self.e_ListComp(n, st, fr, 'set')

    def e_GeneratorExp(self, n, st, fr):
        return self.e_ListComp(n, st, fr, 'iter')

    def e_DictComp(self, n, st, fr):
        o = self.alloc('dict', 'dict', n, fr)

        def elt(s2):
            k = self.eval(n.key, s2, fr)
            self.dict_set(o, k, self.eval(n.value, s2, fr))
        self.comp(n, st, fr, elt)
        return Val([o])

    def e_Yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        v = self.under(v, fr)
        fr.yields = join(fr.yields, v)
        for h in self.hooks:
            f = getattr(h, 'on_yield', None)
            if f:
                f(self, fr, n, v)
        if '?y' in st.env:
            st.env['?y'] = TRUE
        return NONE

    def e_YieldFrom(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        e, me = self.iter_elems(v, n, fr)
        fr.yields = join(fr.yields, e)
        if '?y' in st.env and not me:
            st.env['?y'] = TRUE
        return NONE

    def e_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Call(self, n, st, fr):
        n.func._iscall = True
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            if n.args:
                c = self.eval(n.args[0], st, fr)
                s = self.eval(n.args[1], st, fr)
                return Val([Super(a, s) for a in c.atoms if isinstance(a, ClassRef)])
            first_ = fr.fn.node.args.args[0].arg
            return Val([Super(fr.fn.cls, st.env.get(first_, BOT))])
        if isinstance(n.func, ast.Name) and n.func.id == 'locals' and not n.args:
            return O('any')
        f = self.eval(n.func, st, fr)
        args = []
        star = None
        starstar = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                lens = {len(x.items) if isinstance(x, Tup) else -1 for x in v.atoms}
                if star is None and len(lens) == 1 and -1 not in lens:
                    cols = [BOT] * min(lens)
                    for x in v.atoms:
                        cols = [join(c, y) for c, y in zip(cols, x.items)]
                    args.extend(cols)
                else:
                    e, _ = self.iter_elems(v, a, fr)
                    star = e if star is None else join(star, e)
            else:
                args.append(self.eval(a, st, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value, st, fr)
                for a in v.atoms:
                    if isinstance(a, Obj) and a.kind == 'dict':
                        for fk, fv in self.fields(a).items():
                            if fk.startswith("k:'"):
                                kk = fk[3:-1]
                                kwargs[kk] = join(kwargs.get(kk, BOT), fv)
                            elif fk == 'k*':
                                starstar = fv if starstar is None else join(starstar, fv)
                    elif isinstance(a, Opaque):
                        starstar = O('any', v.labels)
            else:
                kwargs[k.arg] = self.eval(k.value, st, fr)
        return self.call(f, args, kwargs, n, fr, star, starstar)

    # -- calls ---------------------------------------------------------------------------------
    def call(self, f, args, kwargs, node, fr, star=None, starstar=None):
        out = BOT
        ok = False
        if not f.atoms:
            raise Abort()
        for a in f.atoms:
            try:
                r = self.call_atom(a, args, kwargs, node, fr, star, starstar)
                out = join(out, r)
                ok = True
            except Abort:
                pass
        if not ok:
            raise Abort()
        return out

    def call_atom(self, a, args, kwargs, node, fr, star=None, starstar=None):
        if isinstance(a, FuncRef):
            return self.call_fn(a, args, kwargs, node, fr, star, starstar)
        if isinstance(a, Bound):
            return self.call_fn(a.fn, [a.self_] + list(args), kwargs, node, fr, star, starstar)
        if isinstance(a, ClassRef) or (isinstance(a, Obj) and a.kind == 'class'):
            return self.instantiate(a, args, kwargs, node, fr, star, starstar)
        if isinstance(a, Obj) and a.kind == 'inst':
            m = self.find_method(a, '__call__')
            if m is not None:
                return self.call_fn(m, [Val([a])] + list(args), kwargs, node, fr, star, starstar)
            return O('any', self.args_labels(args, kwargs))
        if isinstance(a, Const) and a.v is None:
            raise Abort()
        return self.models.call_ext(a, args, kwargs, node, fr, star, starstar)

    def args_labels(self, args, kwargs):
        l = NOLABELS
        for v in args:
            l |= self.deep_labels(v)
        for v in kwargs.values():
            l |= self.deep_labels(v)
        return l

    def deep_labels(self, v, depth=2, seen=None):
        l = v.labels
        if depth < 0:
            return l
        seen = seen if seen is not None else set()
        for a in v.atoms:
            if isinstance(a, Tup):
                for x in a.items:
                    l |= self.deep_labels(x, depth, seen)
            elif isinstance(a, Obj) and a not in seen and a.kind != 'class':
                seen.add(a)
                if a.kind == 'inst' and depth <= 0:
                    continue
                for k, x in list(self.fields(a).items()):
                    l |= self.deep_labels(x, depth - 1, seen)
            elif isinstance(a, Bound):
                pass
        return l

    def base_class(self, c):
        """static ClassRef of a class atom"""
        while isinstance(c, Obj):
            c = c.cls
        return c

    def instantiate(self, c, args, kwargs, node, fr, star, starstar):
        base = self.base_class(c)
        for m in base.mro():
            if isinstance(m, str):
                if m.split('.')[-1] in ('dict', 'OrderedDict', 'defaultdict'):
                    o = self.alloc('dict', c, node, fr)
                    init = self.lookup_class(base, '__init__')
                    if isinstance(init, FuncRef):
                        self.call_fn(init, [Val([o])] + list(args), kwargs, node, fr, star, starstar)
                    else:
                        for x in args:
                            self.models.dict_update(o, x, node, fr)
                    return Val([o])
        o = self.alloc('inst', c, node, fr)
        for h in self.hooks:
            f = getattr(h, 'on_new', None)
            if f:
                f(self, fr, node, o, args, kwargs)
        for m in reversed(base.mro()):
            if isinstance(m, ClassRef):
                for name, typ, nd in self.c_fields(m):
                    self.write(o, name, self.c_default(typ, nd, fr, o))
        init = self.lookup_class(c, '__init__')
        if not isinstance(init, Val):
            init = self.lookup_class(c, '__cinit__')
        if isinstance(init, Val):
            for x in init.atoms:
                if isinstance(x, FuncRef):
                    self.call_fn(x, [Val([o])] + list(args), kwargs, node, fr, star, starstar)
        return Val([o])

    # -- attributes ----------------------------------------------------------------------------
    def c_fields(self, cls):
        """(name, C type, node) of the fields an extension type declares"""
        f = cls.__dict__.get('_cfields')
        if f is None:
            f = []
            nodes = [cls.node]
            pxd = getattr(cls.module, 'pxd', None)
            if pxd is not None:
                nodes += [x for x in pxd.body if isinstance(x, ast.ClassDef) and x.name == cls.name]
            for n in nodes:
                for b in n.body:
                    if isinstance(b, ast.AnnAssign) and b.value is None and isinstance(b.annotation, ast.Constant) \
                            and isinstance(b.target, ast.Name):
                        f.append((b.target.id, b.annotation.value, b))
            cls._cfields = f
        return f

    def ctype_field(self, cls, name):
        for m in self.base_class(cls).mro():
            if isinstance(m, ClassRef):
                d = m.__dict__.get('_ctypes')
                if d is None:
                    d = m._ctypes = {f: t for f, t, _ in self.c_fields(m) if t in CSCALARS}
                if name in d:
                    return d[name]
        return None

    def c_default(self, typ, node, fr, owner=None):
        if typ in ('float', 'int', 'bool'):
            return BOT if owner is not None else O(typ)
        if typ == 'memoryview':
            return BOT
        if typ.startswith('cpp.'):
            o = self.alloc('list', 'list', node, fr, ('cpp', owner) if owner is not None else ('cpp',))
            return Val([o])
        return NONE

    def lookup_class(self, c, name):
        """Attribute of a class (through the MRO): Val | Prop | None."""
        if isinstance(c, Obj):
            v = self.field(c, name)
            if v is not None and not v.bot:
                return v
            c = self.base_class(c)
        for m in c.mro():
            if isinstance(m, ClassRef):
                if name in m.attrs:
                    return m.attrs[name]
                dv = self.heap.get(self.class_obj(m), {}).get(name)
                if dv is not None:
                    return dv
        return None

    def class_obj(self, cls):
        """heap object holding dynamically assigned attributes of a static class"""
        o = Obj('classdict', cls, ('class', cls.module.name, cls.name), 'global', cls.name)
        return o

    def find_method(self, obj, name):
        if not name:
            return None
        if obj.cls is None or isinstance(obj.cls, str):
            return None
        v = self.lookup_class(obj.cls, name)
        if isinstance(v, Val):
            for a in v.atoms:
                if isinstance(a, FuncRef):
                    return a
        return None

    def bind(self, v, obj, cls):
        """Descriptor protocol for a class attribute value."""
        out = set()
        for a in v.atoms:
            if isinstance(a, FuncRef) and a.cls is not None and a.kind == 'method' and obj is not None:
                out.add(Bound(a, Val([obj])))
            elif isinstance(a, FuncRef) and a.cls is not None and a.kind == 'class':
                out.add(Bound(a, Val([cls])))
            elif isinstance(a, FuncRef) and a.name == '<lambda>' and obj is not None and getattr(a, 'classattr', False):
                out.add(Bound(a, Val([obj])))
            else:
                out.add(a)
        return Val(out, v.labels)

    def load_attr(self, base, name, node, fr, no_getattr=False):
        out = BOT
        ok = False
        for a in base.atoms:
            try:
                v = self.load_attr_atom(a, name, node, fr, base.labels, no_getattr)
            except Abort:
                continue
            if v is not None:
                out = join(out, v)
                ok = True
        if not ok:
            raise Abort()
        for h in self.hooks:
            f = getattr(h, 'on_load_attr', None)
            if f:
                r = f(self, fr, node, base, name, out)
                if r is not None:
                    out = r
        return out

    def load_attr_atom(self, a, name, node, fr, labels=NOLABELS, no_getattr=False):
        if isinstance(a, Obj):
            if a.kind == 'inst' or (a.kind == 'dict' and not isinstance(a.cls, str)):
                if name == '__class__':
                    return Val([a.cls])
                if name == '__dict__':
                    return Val([ExtM(a, '__dict__')])
                cv = self.lookup_class(a.cls, name)
                if isinstance(cv, Prop):
                    if cv.getter is None:
                        raise Abort()
                    return self.call_fn(cv.getter, [Val([a.cls]) if cv.clsprop else Val([a])], {}, node, fr)
                fv = self.field(a, name)
                if fv is not None:
                    self.reads[self.phase].add((a, name))
                    if cv is not None and all(isinstance(x, Const) and x.v is None for x in fv.atoms):
                        pass
                    return fv
                if cv is not None:
                    return self.bind(cv, a, a.cls)
                if a.kind == 'dict':
                    return Val([ExtM(a, name)])
                if not no_getattr:
                    g = self.find_method(a, '__getattr__')
                    if g is not None:
                        return self.call_fn(g, [Val([a]), C(name)], {}, node, fr)
                bc = self.base_class(a.cls)
                if any(isinstance(m, str) for m in bc.mro()):
                    return Val([ExtM(a, name)])
                if name in OBJECT_ATTRS:
                    return Val([ExtM(a, name)])
                # attribute of a Cython class that is declared but not stored yet, or an AttributeError
                if fr is not None:
                    self.note_raise(fr, 'AttributeError', [node] if node is not None else [])
                raise Abort()
            if a.kind == 'class':
                if name in ('__name__', '__qualname__'):
                    return self.field(a, '__name__', O('str'))
                cv = self.lookup_class(a, name)
                if isinstance(cv, Prop):
                    if cv.clsprop:
                        return self.call_fn(cv.getter, [Val([a])], {}, node, fr)
                    return O('property')
                if cv is not None:
                    return self.bind(cv, None, a)
                if name in OBJECT_ATTRS or name.startswith('__'):
                    return Val([ExtM(a, name)])
                raise Abort()
            return self.models.container_attr(a, name, node, fr, labels)
        if isinstance(a, ClassRef):
            if name in ('__name__', '__qualname__'):
                return C(a.name)
            cv = self.lookup_class(a, name)
            if isinstance(cv, Prop):
                if cv.clsprop:
                    return self.call_fn(cv.getter, [Val([a])], {}, node, fr)
                return O('property')
            if cv is not None:
                return self.bind(cv, None, a)
            if any(isinstance(m, str) for m in a.mro()) or name.startswith('__'):
                return Val([ExtM(a, name)])
            raise Abort()
        if isinstance(a, ModAtom):
            v = self.resolve_import(a.name, name)
            if v is None:
                raise Abort()
            return v
        if isinstance(a, Ext):
            return self.models.ext_value(a.name + '.' + name)
        if isinstance(a, Super):
            out = BOT
            for s in a.self_.atoms:
                cls = s.cls if isinstance(s, Obj) and s.kind != 'class' else s
                base = self.base_class(cls)
                mro = base.mro()
                start = mro.index(a.cls) + 1 if a.cls in mro else 0
                found = False
                for m in mro[start:]:
                    if isinstance(m, ClassRef) and name in m.attrs:
                        v = m.attrs[name]
                        if isinstance(v, Prop):
                            out = join(out, self.call_fn(v.getter, [Val([s])], {}, node, fr))
                        else:
                            out = join(out, self.bind(v, s if not (isinstance(s, ClassRef) or s.kind == 'class') else None, cls))
                        found = True
                        break
                if not found:
                    out = join(out, Val([ExtM(s, 'super.' + name)]))
            return out
        if isinstance(a, Const) and a.v is None:
            raise Abort()
        if isinstance(a, (FuncRef, Bound)):
            if name in ('__name__', '__qualname__'):
                return C((a.fn if isinstance(a, Bound) else a).name)
            return O('any')
        return self.ext_attr(a, name, node, labels)

    def ext_attr(self, a, name, node, labels):
        """attribute of a scalar, string, tuple or value of unknown type"""
        v = a.v if isinstance(a, Const) else None
        t = a.t if isinstance(a, Opaque) else type(a.v).__name__ if isinstance(a, Const) else 'tuple' if isinstance(a, Tup) else None
        if t in SCALAR_T and name not in SCALAR_ATTRS or t == 'str' and name not in STR_ATTRS or t == 'tuple' and name not in TUPLE_ATTRS:
            raise Abort()
        if isinstance(a, ExtM) or t is None and not isinstance(a, (Ext, Partial)):
            return O('any', labels)
        if not (node is not None and getattr(node, '_iscall', False)) and t not in (None, 'str', 'tuple'):
            if t in SCALAR_T and name in SCALAR_METHODS:
                return Val([ExtM(Val([a], labels), name)], labels)
            return O('any', labels)
        return Val([ExtM(Val([a], labels), name)], labels)

    def store_attr(self, base, name, v, node, fr):
        for a in base.atoms:
            if isinstance(a, Obj):
                if a.kind == 'inst' or (a.kind == 'dict' and not isinstance(a.cls, str)):
                    cv = self.lookup_class(a.cls, name)
                    if isinstance(cv, Prop) and cv.setter is not None:
                        try:
                            self.call_fn(cv.setter, [Val([a]), v], {}, node, fr)
                        except Abort:
                            pass
                        continue
                    if name == '__dict__':
                        self.mutate(a, '__dict__', v, node, fr, 'setattr')
                        for x in v.atoms:
                            if isinstance(x, ExtM) and x.name == '__dict__':
                                for k, fv in list(self.fields(x.recv).items()):
                                    self.write(a, k, fv)
                        continue
                    v1 = v
                    ct = self.ctype_field(a.cls, name)
                    if ct is not None:
                        v1 = self.coerce_c(v, ct)
                        if v1.bot:
                            continue
                    self.mutate(a, name, v1, node, fr, 'setattr')
                    self.write(a, name, v1)
                else:
                    self.mutate(a, name, v, node, fr, 'setattr')
                    self.write(a, name, v)
            elif isinstance(a, ClassRef):
                self.mutate(self.class_obj(a), name, v, node, fr, 'setattr')
                self.write(self.class_obj(a), name, v)

    def eval_index(self, s, st, fr):
        return self.eval(s, st, fr)

    def has_slice(self, s):
        return isinstance(s, ast.Slice) or (isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts))

    def load_item(self, base, sl, node, st, fr):
        idx = self.eval_index(sl, st, fr)
        out = BOT
        ok = False
        for a in base.atoms:
            try:
                v = self.load_item_atom(a, idx, sl, node, fr, base.labels)
                out = join(out, v)
                ok = True
            except Abort:
                pass
        if not ok or (out.bot and not out.labels):
            raise Abort()
        for h in self.hooks:
            f = getattr(h, 'on_load_item', None)
            if f:
                r = f(self, fr, node, base, idx, out)
                if r is not None:
                    out = r
        return out

    def load_item_atom(self, a, idx, sl, node, fr, labels):
        v = self.load_item_atom_(a, idx, sl, node, fr, labels)
        return v.with_labels(self.deep_labels(idx)) if (self.implicit or self.index) and not v.bot else v

    def load_item_atom_(self, a, idx, sl, node, fr, labels):
        slc = self.has_slice(sl)
        if isinstance(a, Obj):
            if a.kind == 'inst':
                m = self.find_method(a, '__getitem__')
                if m is not None:
                    return self.call_fn(m, [Val([a]), idx], {}, node, fr)
                return O('any')
            if a.kind == 'dict':
                if not isinstance(a.cls, str):
                    m = self.find_method(a, '__getitem__')
                    if m is not None:
                        return self.call_fn(m, [Val([a]), idx], {}, node, fr)
                r = self.dict_get(a, idx)
                if a.cls == 'defaultdict':
                    fac = self.field(a, '?factory')
                    if fac is not None:
                        d = self.call(fac, [], {}, node, fr)
                        # a missing key is created on load
                        self.dict_set(a, idx, d)
                        r = join(r, d)
                if r.bot:
                    self.note_raise(fr, 'KeyError', [node])
                    raise Abort()
                return r
            if a.kind in ('list', 'set', 'iter'):
                f = self.fields(a)
                if slc:
                    o = self.alloc('list', a.cls if isinstance(a.cls, str) else 'list', node, fr)
                    self.write(o, 'elem', self.all_elems(a))
                    return Val([o])
                cs = idx.consts()
                if len(idx.atoms) == 1 and len(cs) == 1 and isinstance(cs[0], int) and not isinstance(cs[0], bool) and cs[0] >= 0:
                    r = join(f.get('i:%d' % cs[0], BOT), f.get('elem', BOT))
                else:
                    r = self.all_elems(a)
                if r.bot:
                    raise Abort()
                return r
            if a.kind in ('ndarray', 'ext'):
                if slc:
                    return Val([a], labels)
                r = self.field(a, 'elem', BOT)
                if a.kind == 'ext':
                    if any(isinstance(x, Obj) or isinstance(x, Opaque) and x.t == 'bool' for x in idx.atoms):
                        # a mask or a list of columns selects a copy
                        o = self.alloc('ext', a.cls, node, fr)
                        self.write(o, 'elem', O('any', r.labels | labels))
                        return Val([o])
                    return join(Val([a]), O('any', r.labels | labels))
                # indexing with an array yields an array
                if any(isinstance(x, Obj) for x in idx.atoms):
                    o = self.alloc('ndarray', 'ndarray', node, fr)
                    self.write(o, 'elem', r)
                    return Val([o])
                return r if not r.bot else O('float', labels)
            return O('any', labels)
        if isinstance(a, Tup):
            cs = idx.consts()
            if slc:
                if isinstance(sl, ast.Slice) and sl.step is None and all(
                        x is None or isinstance(x, ast.Constant) for x in (sl.lower, sl.upper)):
                    lo = sl.lower.value if sl.lower is not None else None
                    hi = sl.upper.value if sl.upper is not None else None
                    return Val([Tup(a.items[lo:hi])])
                o = self.alloc('list', 'tuple', node, fr)
                self.write(o, 'elem', joinall(a.items))
                return Val([o])
            if len(idx.atoms) == 1 and len(cs) == 1 and isinstance(cs[0], int):
                try:
                    return a.items[cs[0]]
                except IndexError:
                    raise Abort()
            return joinall(a.items)
        if isinstance(a, Const):
            if isinstance(a.v, str):
                return O('str', labels)
            raise Abort()
        if isinstance(a, Ext):
            return Val([a])
        return O('any', labels | idx.labels)

    def all_elems(self, a):
        out = BOT
        for k, v in self.fields(a).items():
            if k == 'elem' or k.startswith('i:'):
                out = join(out, v)
        return out

    def store_item(self, base, sl, v, node, st, fr):
        idx = self.eval_index(sl, st, fr)
        if self.implicit or self.index:
            v = v.with_labels(self.deep_labels(idx))
        for h in self.hooks:
            f = getattr(h, 'on_store_item', None)
            if f:
                f(self, fr, sl, base, idx)
        for a in base.atoms:
            if isinstance(a, Obj):
                if a.kind == 'inst' or (a.kind == 'dict' and not isinstance(a.cls, str)):
                    m = self.find_method(a, '__setitem__')
                    if m is not None:
                        try:
                            self.call_fn(m, [Val([a]), idx, v], {}, node, fr)
                        except Abort:
                            if len(base.atoms) == 1:
                                raise
                        continue
                if a.kind == 'dict':
                    self.mutate(a, 'k', v, node, fr, 'setitem')
                    self.dict_set(a, idx, v)
                elif a.kind in ('list', 'set', 'iter'):
                    self.mutate(a, 'elem', v, node, fr, 'setitem')
                    if self.has_slice(sl):
                        self.write(a, 'elem', self.iter_elems(v, node, fr)[0])
                    else:
                        self.write(a, 'elem', v)
                else:
                    self.mutate(a, 'elem', v, node, fr, 'setitem')
                    if any(isinstance(x, Obj) and x.kind in ('ndarray', 'list', 'iter') for x in v.atoms) and \
                            all(isinstance(x, Obj) for x in v.atoms):
                        v2 = joinall([self.field(x, 'elem', BOT) for x in v.atoms if isinstance(x, Obj)])
                        self.write(a, 'elem', v2.with_labels(v.labels))
                    else:
                        self.write(a, 'elem', v)

    # -- iteration -----------------------------------------------------------------------------
    def iter_elems(self, v, node, fr):
        """-> (element value, may the iteration be empty?)"""
        out = BOT
        may_empty = False
        for a in v.atoms:
            if isinstance(a, Tup):
                out = join(out, joinall(a.items))
                if not a.items:
                    may_empty = True
            elif isinstance(a, Obj):
                if a.kind == 'inst' or (a.kind == 'dict' and not isinstance(a.cls, str) and self.find_method(a, '__iter__')):
                    m = self.find_method(a, '__iter__')
                    if m is not None:
                        try:
                            r = self.call_fn(m, [Val([a])], {}, node, fr)
                        except Abort:
                            continue
                        if any(x == a for x in r.atoms):
                            nx = self.find_method(a, '__next__')
                            if nx is not None:
                                try:
                                    out = join(out, self.call_fn(nx, [Val([a])], {}, node, fr))
                                except Abort:
                                    pass
                            may_empty = True
                            r = Val([x for x in r.atoms if x != a])
                        e, me = self.iter_elems(r, node, fr)
                        out = join(out, e)
                        may_empty = may_empty or me
                    else:
                        m = self.find_method(a, '__getitem__')
                        if m is not None:
                            try:
                                out = join(out, self.call_fn(m, [Val([a]), O('int')], {}, node, fr))
                            except Abort:
                                pass
                        may_empty = True
                elif a.kind == 'dict':
                    e = self.dict_keys(a)
                    out = join(out, e)
                    may_empty = may_empty or e.bot or not self.filled(a)
                elif a.kind in ('list', 'set', 'iter'):
                    e = self.all_elems(a)
                    out = join(out, e)
                    may_empty = may_empty or not self.filled(a) or e.bot and '?ne' not in self.fields(a)
                elif a.kind == 'ndarray':
                    out = join(out, self.field(a, 'elem', O('float')))
                    may_empty = True
                elif a.kind == 'ext':
                    out = join(out, O('any', self.deep_labels(Val([a]))))
                    may_empty = True
                else:
                    out = join(out, O('any'))
                    may_empty = True
            elif isinstance(a, Const):
                if isinstance(a.v, str):
                    out = join(out, O('str', v.labels))
                    may_empty = True
                # None / numbers are not iterable
            elif isinstance(a, Opaque):
                out = join(out, O('any' if a.t != 'str' else 'str', v.labels))
                may_empty = True
            elif isinstance(a, ClassRef):
                may_empty = True
            else:
                out = join(out, O('any', v.labels))
                may_empty = True
        if v.labels and out.atoms:
            out = out.with_labels(v.labels)
        return out, may_empty

    def filled(self, a):
        if a in self.shrunk:
            return False
        f = self.fields(a)
        if '?ne' in f and not any(k.startswith('?del') for k in f):
            return True
        if self.assume_filled or a.kind == 'dict' and a.phase in self.present:
            return True
        return False


OBJECT_ATTRS = {'__init__', '__getattribute__', '__setattr__', '__reduce__', '__str__', '__repr__', '__hash__', '__eq__', '__ne__',
                '__doc__', '__module__', '__new__', '__sizeof__', '__init_subclass__'}
