"""Front end for Cython sources.

Parses ``.pyx``/``.pxd`` files with Cython's own parser (the one the real build
uses) and converts the parse tree into a plain Python ``ast`` tree, so that the
analyses see one single language.  C declarations become annotated
assignments / annotated arguments, casts become the casted expression and
``&x`` becomes ``x``.
"""
import ast
import os

from Cython.Compiler import Errors
from Cython.Compiler.Main import CompilationOptions, Context, default_options
from Cython.Compiler.Scanning import FileSourceDescriptor

SCALARS = {
    'DTYPE_t': 'float', 'double': 'float', 'float': 'float', 'DOUBLE_t': 'float',
    'np.float64_t': 'float', 'np.int32_t': 'int', 'np.int64_t': 'int', 'SIZE_t': 'int',
    'int': 'int', 'long': 'int', 'bint': 'int', 'Py_ssize_t': 'int', 'INT32_t': 'int',
    'UINT32_t': 'int', 'str': 'str', 'unicode': 'str', 'void': 'None',
}


class Unsupported(Exception):
    pass


def parse_cython(path, modname):
    opts = CompilationOptions(default_options, language_level=3)
    ctx = opts.create_context()
    Errors.init_thread() if hasattr(Errors, 'init_thread') else None
    sd = FileSourceDescriptor(path)
    scope = ctx.find_module(modname, need_pxd=0)
    tree = ctx.parse(sd, scope, pxd=path.endswith('.pxd'), full_module_name=modname)
    return tree


class Conv:

    def __init__(self, path):
        self.path = path

    # -- helpers -------------------------------------------------------------------------------
    def loc(self, py, n):
        pos = getattr(n, 'pos', None)
        line = pos[1] if pos else 1
        col = pos[2] if pos else 0
        py.lineno = py.end_lineno = line
        py.col_offset = py.end_col_offset = col
        return py

    def fail(self, n):
        pos = getattr(n, 'pos', None)
        raise Unsupported('%s:%s: %s' % (self.path, pos[1] if pos else '?', type(n).__name__))

    def name(self, s, n, ctx=None):
        return self.loc(ast.Name(id=s, ctx=ctx or ast.Load()), n)

    # -- types ---------------------------------------------------------------------------------
    def typename(self, b):
        if b is None:
            return None
        t = type(b).__name__
        if t == 'CSimpleBaseTypeNode':
            if b.name is None:
                return None
            name = '.'.join(list(b.module_path) + [b.name])
            return SCALARS.get(name, name)
        if t == 'MemoryViewSliceTypeNode':
            return 'memoryview'
        if t == 'TemplatedTypeNode':
            bt = getattr(b, 'base_type_node', None)
            bn = getattr(bt, 'name', None)
            if bn in ('deque', 'priority_queue', 'vector', 'list', 'queue', 'stack', 'set', 'unordered_set', 'map',
                      'unordered_map', 'pair'):
                return 'cpp.' + bn
            return 'np.ndarray'
        if t == 'CTupleBaseTypeNode':
            return 'tuple'
        if t == 'CComplexBaseTypeNode':
            d = self.typename(b.base_type)
            if type(b.declarator).__name__ == 'CPtrDeclaratorNode':
                return 'memoryview'
            return d
        if t == 'CConstTypeNode':
            return self.typename(b.base_type)
        self.fail(b)

    def declarator_name(self, d):
        """(name, is_pointer, funcdeclarator)"""
        t = type(d).__name__
        ptr = False
        fn = None
        while t != 'CNameDeclaratorNode':
            if t in ('CPtrDeclaratorNode', 'CArrayDeclaratorNode'):
                ptr = True
            elif t == 'CFuncDeclaratorNode':
                fn = d
            else:
                self.fail(d)
            d = d.base
            t = type(d).__name__
        return d.name, ptr, fn, getattr(d, 'default', None)

    # -- arguments -----------------------------------------------------------------------------
    def args(self, args, n, star=None, starstar=None, nkwonly=0):
        posargs, defaults, kwonly, kwdefaults = [], [], [], []
        npos = len(args) - nkwonly
        for i, a in enumerate(args):
            nm, ptr, fn, _ = self.declarator_name(a.declarator)
            tn = self.typename(a.base_type) if a.base_type is not None else None
            if not nm:
                # the "base type" is in truth the argument's name
                nm = a.base_type.name
                tn = None
            if ptr:
                tn = 'memoryview'
            ann = None
            if getattr(a, 'annotation', None) is not None:
                ann = self.expr(self.annot(a.annotation))
            elif tn:
                ann = self.loc(ast.Constant(value=tn), a)
            arg = self.loc(ast.arg(arg=str(nm), annotation=ann), a)
            dflt = self.expr(a.default) if a.default is not None else None
            if i < npos:
                posargs.append(arg)
                if dflt is not None:
                    defaults.append(dflt)
            else:
                kwonly.append(arg)
                kwdefaults.append(dflt)

        def mk(s):
            if s is None:
                return None
            ann = getattr(s, 'annotation', None)
            return self.loc(ast.arg(arg=str(s.name), annotation=self.expr(self.annot(ann)) if ann is not None else None), n)
        return ast.arguments(posonlyargs=[], args=posargs, vararg=mk(star), kwonlyargs=kwonly,
                             kw_defaults=kwdefaults, kwarg=mk(starstar), defaults=defaults)

    def annot(self, a):
        return getattr(a, 'expr', a)

    # -- statements ----------------------------------------------------------------------------
    def body(self, n):
        if n is None:
            return [ast.Pass(lineno=1, col_offset=0, end_lineno=1, end_col_offset=0)]
        r = self.stmts(n)
        return r or [self.loc(ast.Pass(), n)]

    def stmts(self, n):
        if n is None:
            return []
        if isinstance(n, (list, tuple)):
            return [s for x in n for s in self.stmts(x)]
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.fail(n)
        r = m(n)
        return r if isinstance(r, list) else [r]

    def s_StatListNode(self, n):
        return self.stmts(n.stats)

    def s_ModuleNode(self, n):
        return self.stmts(n.body)

    def s_CImportStatNode(self, n):
        return self.loc(ast.Import(names=[ast.alias(name=str(n.module_name), asname=n.as_name and str(n.as_name),
                                                    lineno=n.pos[1], col_offset=0, end_lineno=n.pos[1], end_col_offset=0)]), n)

    def s_FromCImportStatNode(self, n):
        names = []
        for it in n.imported_names:
            names.append(ast.alias(name=str(it[1]), asname=it[2] and str(it[2]), lineno=n.pos[1], col_offset=0,
                                   end_lineno=n.pos[1], end_col_offset=0))
        return self.loc(ast.ImportFrom(module=str(n.module_name), names=names, level=n.relative_level or 0), n)

    def s_FromImportStatNode(self, n):
        mod = n.module
        names = []
        for nm, target in n.items:
            t = getattr(target, 'name', None)
            names.append(ast.alias(name=str(nm), asname=str(t) if t and t != nm else None, lineno=n.pos[1],
                                   col_offset=0, end_lineno=n.pos[1], end_col_offset=0))
        return self.loc(ast.ImportFrom(module=str(mod.module_name.value), names=names, level=max(0, mod.level or 0)), n)

    def s_CVarDefNode(self, n):
        tn = self.typename(n.base_type)
        out = []
        for d in n.declarators:
            nm, ptr, fn, default = self.declarator_name(d)
            if fn is not None:
                continue
            t = 'memoryview' if ptr else tn
            out.append(self.loc(ast.AnnAssign(target=self.name(str(nm), n, ast.Store()),
                                              annotation=self.loc(ast.Constant(value=t or 'object'), n),
                                              value=self.expr(default) if default is not None else None,
                                              simple=1), n))
        return out

    def s_CTypeDefNode(self, n):
        return []

    def s_CStructOrUnionDefNode(self, n):
        return []

    def s_CEnumDefNode(self, n):
        return []

    def s_CClassDefNode(self, n):
        bases = []
        b = getattr(n, 'bases', None)
        if b is not None:
            bases = [self.expr(x) for x in b.args]
        elif getattr(n, 'base_class_name', None):
            bases = [self.name(str(n.base_class_name), n)]
        return self.loc(ast.ClassDef(name=str(n.class_name), bases=bases, keywords=[], body=self.body(n.body),
                                     decorator_list=self.decos(n), type_params=[]), n)

    def s_PyClassDefNode(self, n):
        bases = []
        b = getattr(n, 'bases', None)
        if b is not None:
            bases = [self.expr(x) for x in b.args]
        return self.loc(ast.ClassDef(name=str(n.name), bases=bases, keywords=[], body=self.body(n.body),
                                     decorator_list=self.decos(n), type_params=[]), n)

    def decos(self, n):
        out = []
        for d in (getattr(n, 'decorators', None) or ()):
            out.append(self.expr(d.decorator))
        return out

    def s_CFuncDefNode(self, n):
        nm, ptr, fn, _ = self.declarator_name(n.declarator)
        tn = self.typename(n.base_type)
        body = self.with_doc(n)
        return self.loc(ast.FunctionDef(name=str(nm), args=self.args(fn.args, n), body=body,
                                        decorator_list=self.decos(n),
                                        returns=self.loc(ast.Constant(value='memoryview' if ptr else tn), n) if tn else None,
                                        type_params=[]), n)

    def with_doc(self, n):
        return self.body(n.body)

    def s_DefNode(self, n):
        r = getattr(n, 'return_type_annotation', None)
        return self.loc(ast.FunctionDef(name=str(n.name),
                                        args=self.args(n.args, n, n.star_arg, n.starstar_arg, n.num_kwonly_args),
                                        body=self.with_doc(n), decorator_list=self.decos(n),
                                        returns=self.expr(self.annot(r)) if r is not None else None,
                                        type_params=[]), n)

    def s_ReturnStatNode(self, n):
        return self.loc(ast.Return(value=self.expr(n.value) if n.value is not None else None), n)

    def s_ExprStatNode(self, n):
        return self.loc(ast.Expr(value=self.expr(n.expr)), n)

    def s_PassStatNode(self, n):
        return self.loc(ast.Pass(), n)

    def s_ContinueStatNode(self, n):
        return self.loc(ast.Continue(), n)

    def s_BreakStatNode(self, n):
        return self.loc(ast.Break(), n)

    def s_GlobalNode(self, n):
        return self.loc(ast.Global(names=[str(x) for x in n.names]), n)

    def s_AssertStatNode(self, n):
        cond = getattr(n, 'cond', None) or getattr(n, 'condition', None)
        val = getattr(n, 'value', None)
        return self.loc(ast.Assert(test=self.expr(cond), msg=self.expr(val) if val is not None else None), n)

    def s_DelStatNode(self, n):
        return self.loc(ast.Delete(targets=[self.expr(a, ast.Del()) for a in n.args]), n)

    def s_RaiseStatNode(self, n):
        return self.loc(ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None,
                                  cause=self.expr(n.cause) if getattr(n, 'cause', None) is not None else None), n)

    def s_SingleAssignmentNode(self, n):
        rhs = n.rhs
        if type(rhs).__name__ == 'ImportNode':
            mn = str(rhs.module_name.value)
            al = ast.alias(name=mn, asname=str(n.lhs.name) if '.' in mn or str(n.lhs.name) != mn else None,
                           lineno=n.pos[1], col_offset=0, end_lineno=n.pos[1], end_col_offset=0)
            return self.loc(ast.Import(names=[al]), n)
        return self.loc(ast.Assign(targets=[self.expr(n.lhs, ast.Store())], value=self.expr(n.rhs)), n)

    def s_CascadedAssignmentNode(self, n):
        return self.loc(ast.Assign(targets=[self.expr(l, ast.Store()) for l in n.lhs_list], value=self.expr(n.rhs)), n)

    def s_InPlaceAssignmentNode(self, n):
        return self.loc(ast.AugAssign(target=self.expr(n.lhs, ast.Store()), op=self.OPS[n.operator](),
                                      value=self.expr(n.rhs)), n)

    def s_IfStatNode(self, n):
        orelse = self.stmts(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            node = self.loc(ast.If(test=self.expr(c.condition), body=self.body(c.body), orelse=orelse), c)
            orelse = [node]
        return orelse

    def s_WhileStatNode(self, n):
        return self.loc(ast.While(test=self.expr(n.condition), body=self.body(n.body),
                                  orelse=self.stmts(n.else_clause) if n.else_clause is not None else []), n)

    def s_ForInStatNode(self, n):
        return self.loc(ast.For(target=self.expr(n.target, ast.Store()), iter=self.expr(n.iterator.sequence),
                                body=self.body(n.body),
                                orelse=self.stmts(n.else_clause) if n.else_clause is not None else []), n)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            typ = None
            if pat:
                es = [self.expr(p) for p in pat] if isinstance(pat, list) else [self.expr(pat)]
                typ = es[0] if len(es) == 1 else self.loc(ast.Tuple(elts=es, ctx=ast.Load()), c)
            hs.append(self.loc(ast.ExceptHandler(type=typ, name=str(c.target.name) if c.target is not None else None,
                                                 body=self.body(c.body)), c))
        return self.loc(ast.Try(body=self.body(n.body), handlers=hs,
                                orelse=self.stmts(n.else_clause) if n.else_clause is not None else [], finalbody=[]), n)

    def s_TryFinallyStatNode(self, n):
        return self.loc(ast.Try(body=self.body(n.body), handlers=[], orelse=[],
                                finalbody=self.stmts(n.finally_clause)), n)

    def s_GILStatNode(self, n):
        return self.stmts(n.body)

    def s_WithStatNode(self, n):
        return self.loc(ast.With(items=[ast.withitem(context_expr=self.expr(n.manager),
                                                     optional_vars=self.expr(n.target, ast.Store()) if n.target is not None else None)],
                                 body=self.body(n.body)), n)

    # -- expressions ---------------------------------------------------------------------------
    OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '**': ast.Pow, '//': ast.FloorDiv,
           '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult}
    CMPS = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'in': ast.In,
            'not_in': ast.NotIn, 'is': ast.Is, 'is_not': ast.IsNot}

    def expr(self, n, ctx=None):
        if n is None:
            return None
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.fail(n)
        self.ctx = ctx or ast.Load()
        return self.loc(m(n, ctx or ast.Load()), n)

    def e_NameNode(self, n, ctx):
        return ast.Name(id=str(n.name), ctx=ctx)

    def e_AttributeNode(self, n, ctx):
        return ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute), ctx=ctx)

    def e_IntNode(self, n, ctx):
        return ast.Constant(value=int(str(n.value).rstrip('uUlL'), 0))

    def e_FloatNode(self, n, ctx):
        return ast.Constant(value=float(n.value))

    def e_NoneNode(self, n, ctx):
        return ast.Constant(value=None)

    def e_BoolNode(self, n, ctx):
        return ast.Constant(value=bool(n.value))

    def e_EllipsisNode(self, n, ctx):
        return ast.Constant(value=...)

    def e_UnicodeNode(self, n, ctx):
        return ast.Constant(value=str(n.value))

    e_StringNode = e_UnicodeNode

    def e_BytesNode(self, n, ctx):
        return ast.Constant(value=bytes(n.value))

    def e_CharNode(self, n, ctx):
        return ast.Constant(value=str(n.value))

    def e_IdentifierStringNode(self, n, ctx):
        return ast.Constant(value=str(n.value))

    def e_SimpleCallNode(self, n, ctx):
        return ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n, ctx):
        pos = n.positional_args
        args = []
        t = type(pos).__name__
        if t == 'TupleNode':
            args = [self.expr(a) for a in pos.args]
        elif t == 'AsTupleNode':
            args = [self.loc(ast.Starred(value=self.expr(pos.arg), ctx=ast.Load()), pos)]
        elif t == 'AddNode':
            def flat(p):
                if type(p).__name__ == 'AddNode':
                    return flat(p.operand1) + flat(p.operand2)
                if type(p).__name__ == 'TupleNode':
                    return [self.expr(a) for a in p.args]
                return [self.loc(ast.Starred(value=self.expr(getattr(p, 'arg', p)), ctx=ast.Load()), p)]
            args = flat(pos)
        else:
            self.fail(pos)
        kws = []
        kw = n.keyword_args
        if kw is not None:
            parts = kw.keyword_args if type(kw).__name__ == 'MergedDictNode' else [kw]
            for p in parts:
                if type(p).__name__ == 'DictNode':
                    for it in p.key_value_pairs:
                        k = it.key
                        kws.append(self.loc(ast.keyword(arg=str(k.value), value=self.expr(it.value)), it))
                else:
                    kws.append(self.loc(ast.keyword(arg=None, value=self.expr(p)), p))
        return ast.Call(func=self.expr(n.function), args=args, keywords=kws)

    def slice_(self, s):
        def opt(x):
            return None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return self.loc(ast.Slice(lower=opt(s.start), upper=opt(s.stop), step=opt(s.step)), s)

    def index(self, i):
        t = type(i).__name__
        if t == 'SliceNode':
            return self.slice_(i)
        if t == 'TupleNode':
            return self.loc(ast.Tuple(elts=[self.index(x) for x in i.args], ctx=ast.Load()), i)
        return self.expr(i)

    def e_IndexNode(self, n, ctx):
        return ast.Subscript(value=self.expr(n.base), slice=self.index(n.index), ctx=ctx)

    def e_SliceIndexNode(self, n, ctx):
        def opt(x):
            return None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        sl = self.loc(ast.Slice(lower=opt(n.start), upper=opt(n.stop), step=None), n)
        return ast.Subscript(value=self.expr(n.base), slice=sl, ctx=ctx)

    def e_SliceNode(self, n, ctx):
        return self.slice_(n)

    def e_TupleNode(self, n, ctx):
        return ast.Tuple(elts=[self.expr(a, ctx) for a in n.args], ctx=ctx)

    def e_ListNode(self, n, ctx):
        return ast.List(elts=[self.expr(a, ctx) for a in n.args], ctx=ctx)

    def e_SetNode(self, n, ctx):
        return ast.Set(elts=[self.expr(a) for a in n.args])

    def e_DictNode(self, n, ctx):
        return ast.Dict(keys=[self.expr(i.key) for i in n.key_value_pairs],
                        values=[self.expr(i.value) for i in n.key_value_pairs])

    def e_MergedDictNode(self, n, ctx):
        keys, values = [], []
        for p in n.keyword_args:
            if type(p).__name__ == 'DictNode':
                for i in p.key_value_pairs:
                    keys.append(self.expr(i.key))
                    values.append(self.expr(i.value))
            else:
                keys.append(None)
                values.append(self.expr(p))
        return ast.Dict(keys=keys, values=values)

    def e_StarredUnpackingNode(self, n, ctx):
        return ast.Starred(value=self.expr(n.target, ctx), ctx=ctx)

    e_StarredTargetNode = e_StarredUnpackingNode

    def e_MergedSequenceNode(self, n, ctx):
        elts = []
        for a in n.args:
            if type(a).__name__ in ('TupleNode', 'ListNode', 'SetNode'):
                elts += [self.expr(x) for x in a.args]
            else:
                elts.append(self.loc(ast.Starred(value=self.expr(a), ctx=ast.Load()), a))
        return ast.List(elts=elts, ctx=ast.Load())

    def binop(self, n, ctx):
        return ast.BinOp(left=self.expr(n.operand1), op=self.OPS[n.operator](), right=self.expr(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = binop

    def e_BoolBinopNode(self, n, ctx):
        return ast.BoolOp(op=ast.And() if n.operator == 'and' else ast.Or(),
                          values=[self.expr(n.operand1), self.expr(n.operand2)])

    def e_NotNode(self, n, ctx):
        return ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand))

    def e_UnaryMinusNode(self, n, ctx):
        return ast.UnaryOp(op=ast.USub(), operand=self.expr(n.operand))

    def e_UnaryPlusNode(self, n, ctx):
        return ast.UnaryOp(op=ast.UAdd(), operand=self.expr(n.operand))

    def e_TildeNode(self, n, ctx):
        return ast.UnaryOp(op=ast.Invert(), operand=self.expr(n.operand))

    def e_AmpersandNode(self, n, ctx):
        return self.expr(n.operand)

    def e_TypecastNode(self, n, ctx):
        return self.expr(n.operand)

    def e_SizeofTypeNode(self, n, ctx):
        return ast.Constant(value=8)

    def e_PrimaryCmpNode(self, n, ctx):
        ops, comps = [], []
        left = self.expr(n.operand1)
        c = n
        while c is not None:
            ops.append(self.CMPS[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(left=left, ops=ops, comparators=comps)

    def e_CondExprNode(self, n, ctx):
        return ast.IfExp(test=self.expr(getattr(n, 'condition', None) or n.test), body=self.expr(n.true_val),
                         orelse=self.expr(n.false_val))

    def e_LambdaNode(self, n, ctx):
        return ast.Lambda(args=self.args(n.args, n, n.star_arg, n.starstar_arg), body=self.expr(n.result_expr))

    def e_YieldExprNode(self, n, ctx):
        return ast.Yield(value=self.expr(n.arg) if n.arg is not None else None)

    def e_YieldFromExprNode(self, n, ctx):
        return ast.YieldFrom(value=self.expr(n.arg))

    def e_AsTupleNode(self, n, ctx):
        return ast.Call(func=self.name('tuple', n), args=[self.expr(n.arg)], keywords=[])

    def e_JoinedStrNode(self, n, ctx):
        vals = []
        for v in n.values:
            if type(v).__name__ == 'FormattedValueNode':
                vals.append(self.loc(ast.FormattedValue(value=self.expr(v.value), conversion=-1, format_spec=None), v))
            else:
                vals.append(self.expr(v))
        return ast.JoinedStr(values=vals)

    def e_FormattedValueNode(self, n, ctx):
        return ast.FormattedValue(value=self.expr(n.value), conversion=-1, format_spec=None)

    def comp_parts(self, loop):
        gens = []
        n = loop
        while True:
            t = type(n).__name__
            if t == 'ForInStatNode':
                gens.append(ast.comprehension(target=self.expr(n.target, ast.Store()),
                                              iter=self.expr(n.iterator.sequence), ifs=[], is_async=0))
                n = n.body
            elif t == 'IfStatNode':
                gens[-1].ifs.append(self.expr(n.if_clauses[0].condition))
                n = n.if_clauses[0].body
            elif t == 'StatListNode' and len(n.stats) == 1:
                n = n.stats[0]
            elif t == 'ExprStatNode':
                n = n.expr
            else:
                return gens, n

    def e_ComprehensionNode(self, n, ctx):
        gens, app = self.comp_parts(n.loop)
        t = type(app).__name__
        if t == 'DictComprehensionAppendNode':
            return ast.DictComp(key=self.expr(app.key_expr), value=self.expr(app.value_expr), generators=gens)
        elt = self.expr(app.expr)
        tn = str(n.type)
        if 'set' in tn:
            return ast.SetComp(elt=elt, generators=gens)
        return ast.ListComp(elt=elt, generators=gens)

    def e_GeneratorExpressionNode(self, n, ctx):
        gens, app = self.comp_parts(n.loop)
        return ast.GeneratorExp(elt=self.expr(app.arg if hasattr(app, 'arg') else app.expr), generators=gens)

    def e_InlinedGeneratorExpressionNode(self, n, ctx):
        return self.expr(n.gen)

    def e_ImportNode(self, n, ctx):
        return ast.Call(func=self.name('__import__', n), args=[self.expr(n.module_name)], keywords=[])

    def e_ClassCellInjectorNode(self, n, ctx):
        return ast.Constant(value=None)


def cython_to_ast(path, modname):
    tree = parse_cython(path, modname)
    c = Conv(path)
    mod = ast.Module(body=c.stmts(tree), type_ignores=[])
    ast.fix_missing_locations(mod)
    return mod
