"""What the outside world (builtins, numpy, pandas, dnutils, ...) does to abstract values."""
import ast
import builtins

from .absint import *
from .absint import NOLABELS
from .program import ClassRef, FuncRef



FLOATS = {'numpy.inf', 'numpy.NINF', 'numpy.PINF', 'numpy.nan', 'math.nan', 'math.inf', 'math.pi', 'math.e', 'numpy.pi'}

INFS = {'numpy.inf': float('inf'), 'numpy.NINF': -float('inf'), 'numpy.PINF': float('inf'), 'math.inf': float('inf')}

NP_SCALAR = {'sqrt', 'log', 'exp', 'ceil', 'floor', 'abs', 'isnan', 'isinf', 'isfinite', 'isneginf', 'isposinf', 'nextafter', 'mean', 'std',
             'sum', 'round', 'sign', 'dot', 'max', 'min', 'var', 'prod', 'argmax', 'argmin', 'median', 'maximum', 'minimum', 'any', 'all',
             'isclose', 'allclose', 'iterable', 'fabs', 'pow', 'quantile', 'percentile', 'count_nonzero', 'searchsorted', 'power',
             'array_equal', 'amax', 'amin', 'average', 'digitize', 'logical_and', 'logical_or', 'logical_not', 'nansum', 'nanmean', 'log2', 'log10'}
NP_FRESH = {'array', 'zeros', 'ones', 'empty', 'ndarray', 'full', 'linspace', 'arange', 'unique', 'diff', 'cumsum', 'column_stack', 'concatenate',
            'append', 'sort', 'where', 'nonzero', 'meshgrid', 'dstack', 'stack', 'vstack', 'hstack', 'argsort', 'isin', 'tile', 'repeat', 'copy',
            'cumprod', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'eye', 'identity', 'outer', 'inv', 'insert', 'delete', 'clip',
            'sliding_window_view', 'flip', 'fromiter', 'histogram', 'interp', 'bincount', 'setdiff1d', 'union1d', 'intersect1d'}
NP_ALIAS = {'asarray', 'ascontiguousarray', 'ravel', 'reshape', 'squeeze', 'transpose', 'atleast_1d', 'atleast_2d', 'asanyarray', 'asfortranarray',
            'from_dlpack', 'swapaxes', 'expand_dims', 'broadcast_to'}
NP_MUTATE = {'random.shuffle', 'copyto', 'fill_diagonal', 'put', 'place', 'putmask', 'add.at', 'subtract.at'}

ARR_ALIAS = {'reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes', 'to_numpy'}
ARR_FRESH = {'copy', 'astype', 'flatten', 'cumsum', 'take', 'repeat', 'argsort', 'round', 'nonzero', 'clip', 'compress', 'dot', 'searchsorted'}
ARR_MUT = {'sort', 'fill', 'resize', 'put', 'itemset', 'partition', 'setfield', 'byteswap', 'setflags'}

DF_MUT = {'insert', 'update', 'pop', 'drop_duplicates_inplace'}
DF_ALIAS_ATTR = {'loc', 'iloc', 'at', 'iat', 'values', 'T', 'array'}

LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'appendleft', 'extendleft', 'popleft', 'rotate',
            'push_back', 'push_front', 'pop_front', 'pop_back'}

TYPE_OF = {'str': 'str', 'int': 'int', 'float': 'float', 'bool': 'bool'}


CYBUILTINS = {'malloc', 'free', 'sizeof', 'cython', 'long', 'unicode', 'xrange', 'basestring', 'uint', 'NULL'}
NDARRAY_ATTRS = {
    'all', 'any', 'argmax', 'argmin', 'argpartition', 'argsort', 'astype', 'byteswap', 'choose', 'clip', 'compress', 'copy', 'cumprod',
    'cumsum', 'diagonal', 'dot', 'dump', 'dumps', 'fill', 'flatten', 'item', 'itemset', 'max', 'mean', 'min', 'nonzero', 'partition',
    'prod', 'ptp', 'put', 'ravel', 'repeat', 'reshape', 'resize', 'round', 'searchsorted', 'setfield', 'setflags', 'sort', 'squeeze',
    'std', 'strides', 'sum', 'swapaxes', 'take', 'tobytes', 'tolist', 'trace', 'transpose', 'var', 'view', 'real', 'imag', 'data'}
INTERVAL_ATTRS = {'lower', 'upper', 'intervals', 'left', 'right'}


NP_PRESERVE = {'array', 'asarray', 'unique', 'column_stack', 'concatenate', 'append', 'sort', 'stack', 'vstack', 'hstack', 'dstack', 'tile',
               'repeat', 'copy', 'insert', 'delete', 'flip', 'fromiter', 'full', 'full_like', 'setdiff1d', 'union1d', 'intersect1d', 'where'}


def untag(v):
    if any(isinstance(a, Opaque) and a.tag is not None for a in v.atoms):
        return Val([Opaque(a.t) if isinstance(a, Opaque) else a for a in v.atoms], v.labels)
    return v


def narrowed(e, dtype):
    """The elements `e` after a conversion to `dtype`: a narrower type does not keep the values."""
    if dtype is None:
        return e
    names = {str(a.v) if isinstance(a, Const) else str(getattr(a, 'name', '')).split('.')[-1] for a in dtype.atoms
             if isinstance(a, (Const, Ext))}
    if names & {'float16', 'float32', 'half', 'single', 'f2', 'f4', 'int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'bool', 'bool_'}:
        return untag(e)
    if names & {'int', 'int64', 'int_', 'intp', 'i8', 'uint64'}:
        return Val([Opaque(a.t) if isinstance(a, Opaque) and a.t == 'float' else a for a in e.atoms], e.labels)
    return e


class Models:
    def __init__(self, interp):
        self.i = interp
        self.overrides = []

    # -- names -----------------------------------------------------------------------------------
    def ext_value(self, dotted):
        if dotted in INFS:
            return C(INFS[dotted])
        if dotted in FLOATS:
            return O('float')
        if dotted in ('math.prod', 'numpy.prod'):
            return Val([Ext('numpy.prod')])
        if dotted.count('.') > 6:
            return O('any')
        return Val([Ext(dotted)])

    def builtin_name(self, name):
        if name in ('nan', 'NAN', 'INFINITY', 'inf'):
            return O('float')
        if name == '__file__' or name == '__name__':
            return O('str')
        if name == 'NotImplemented':
            return Val([Ext('builtins.NotImplemented')])
        if not hasattr(builtins, name) and name not in CYBUILTINS:
            raise Abort()
        return Val([Ext('builtins.' + name)])

    def note_call(self, frame, node, fn, args, kwargs):
        pass

    def override(self, fn, args, kwargs, node, frame):
        for f in self.overrides:
            r = f(fn, args, kwargs, node, frame)
            if r is not None:
                return r
        return None

    # -- helpers ---------------------------------------------------------------------------------
    def new(self, kind, cls, node, fr, elem=None, extra=()):
        o = self.i.alloc(kind, cls, node, fr, extra)
        if elem is not None and (elem.atoms or elem.labels):
            if elem.atoms:
                self.i.write(o, 'elem', elem)
        return o

    def labels(self, args, kwargs=None):
        return self.i.args_labels(args, kwargs or {})

    def dict_update(self, obj, val, node, fr):
        i = self.i
        for a in val.atoms:
            if isinstance(a, Obj) and a.kind == 'dict':
                for k, v in list(i.fields(a).items()):
                    if k in ('?factory', '?ne'):
                        continue
                    i.write(obj, k, v)
            elif isinstance(a, Obj) and a.kind in ('inst',):
                m = i.find_method(a, 'items')
                if m is not None:
                    r = i.call_fn(m, [Val([a])], {}, node, fr)
                    e, _ = i.iter_elems(r, node, fr)
                    self.pairs_into(obj, e)
            elif isinstance(a, (Tup, Obj)):
                e, _ = i.iter_elems(Val([a], val.labels), node, fr)
                self.pairs_into(obj, e)
            elif isinstance(a, Opaque):
                i.write(obj, 'k*', O('any', val.labels))
                i.write(obj, '?keys', O('any', val.labels))

    def pairs_into(self, obj, e):
        i = self.i
        for p in e.atoms:
            if isinstance(p, Tup) and len(p.items) == 2:
                i.dict_set(obj, p.items[0], p.items[1])
            elif isinstance(p, Obj) and p.kind == 'list':
                a, b = i.field(p, 'i:0'), i.field(p, 'i:1')
                el = i.field(p, 'elem', BOT)
                i.dict_set(obj, join(BOT if a is None else a, el), join(BOT if b is None else b, el))
            elif isinstance(p, Opaque):
                i.dict_set(obj, O('any', e.labels), O('any', e.labels))

    def elems(self, v, node, fr):
        return self.i.iter_elems(v, node, fr)

    # -- operators -------------------------------------------------------------------------------
    def binop(self, op, l, r, node, fr):
        i = self.i
        out = BOT
        labels = i.deep_labels(l) | i.deep_labels(r)
        arr = False
        for a in l.atoms:
            for b in r.atoms:
                pa, pb = a, b
                if isinstance(a, Obj) and a.kind in ('ndarray', 'ext') or isinstance(b, Obj) and b.kind in ('ndarray', 'ext'):
                    arr = True
                    continue
                if op is ast.Mod and (isinstance(a, Const) and isinstance(a.v, str) or isinstance(a, Opaque) and a.t == 'str'):
                    out = join(out, O('str', labels))
                    continue
                ka = a.kind if isinstance(a, Obj) else ('tup' if isinstance(a, Tup) else None)
                kb = b.kind if isinstance(b, Obj) else ('tup' if isinstance(b, Tup) else None)
                if op is ast.Add and (ka in ('list', 'tup') and kb in ('list', 'tup', 'iter')):
                    if ka == 'tup' and kb == 'tup':
                        out = join(out, Val([Tup(a.items + b.items)]) if len(a.items) + len(b.items) < 12 else ANY)
                    else:
                        o = self.new('list', 'tuple' if (ka == 'tup' or getattr(a, 'cls', '') == 'tuple') else 'list', node, fr)
                        for x in (a, b):
                            e, _ = self.elems(Val([x]), node, fr)
                            if e.atoms:
                                i.write(o, 'elem', e)
                        out = join(out, Val([o]))
                    continue
                if op is ast.Mult and (ka in ('list', 'tup') or kb in ('list', 'tup')):
                    x = a if ka in ('list', 'tup') else b
                    e, _ = self.elems(Val([x]), node, fr)
                    o = self.new('list', 'list', node, fr, e)
                    out = join(out, Val([o]))
                    continue
                if ka == 'set' and op in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
                    e, _ = self.elems(Val([a]), node, fr)
                    if op in (ast.BitOr, ast.BitXor):
                        e2, _ = self.elems(Val([b]), node, fr)
                        e = join(e, e2)
                    o = self.new('set', 'set', node, fr, e)
                    if op is ast.BitOr and any(isinstance(x, Obj) and self.i.filled(x) for x in (a, b)):
                        self.i.write(o, '?ne', TRUE)
                    out = join(out, Val([o]))
                    continue
                if ka == 'dict' and kb == 'dict':
                    o = self.new('dict', a.cls if isinstance(a.cls, str) else 'dict', node, fr)
                    self.dict_update(o, Val([a]), node, fr)
                    if op in (ast.Add, ast.BitOr):
                        self.dict_update(o, Val([b]), node, fr)
                    out = join(out, Val([o]))
                    continue
                if ka in ('list', 'dict', 'set', 'inst') or kb in ('list', 'dict', 'set', 'inst', 'tup') or ka == 'tup':
                    out = join(out, O('any', labels)) if ka == 'inst' or kb == 'inst' else out
                    continue
                if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
                    continue
                t = 'any'
                ta, tb = self.tname(a), self.tname(b)
                if 'str' in (ta, tb):
                    if ta in ('str', 'any', 'int') and tb in ('str', 'any', 'int'):
                        t = 'str'
                    else:
                        continue
                elif ta in ('int', 'bool') and tb in ('int', 'bool'):
                    t = 'float' if op is ast.Div else 'int'
                elif ta in ('int', 'float', 'bool', 'num') and tb in ('int', 'float', 'bool', 'num'):
                    t = 'float'
                elif 'float' in (ta, tb):
                    t = 'float'
                out = join(out, O(t, labels))
        if arr:
            o = i.alloc('ndarray', 'ndarray', node, fr)
            i.write(o, 'elem', O('float', labels))
            out = join(out, Val([o], labels))
        return out.with_labels(labels) if out.atoms else out

    def tname(self, a):
        if isinstance(a, Opaque):
            return a.t
        if isinstance(a, Const):
            return type(a.v).__name__
        return 'any'

    def hashlike(self, a):
        return isinstance(a, (Opaque, Const))

    def compare(self, op, l, r, node, fr):
        i = self.i
        out = set()
        labels = l.labels | r.labels
        if op in (ast.Is, ast.IsNot) or isinstance(op, (ast.Is, ast.IsNot)):
            kind = 'is'
        elif isinstance(op, (ast.In, ast.NotIn)):
            kind = 'in'
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            kind = 'eq'
        else:
            kind = 'ord'
        neg = isinstance(op, (ast.IsNot, ast.NotIn, ast.NotEq))
        res = set()
        if kind == 'in':
            res, lab = self.contains(l, r, node, fr)
            labels |= lab
        else:
            for a in l.atoms:
                for b in r.atoms:
                    if kind == 'is':
                        res |= self.identical(a, b)
                    elif kind == 'eq':
                        e, lab = self.equal(a, b, node, fr, l, r, neg)
                        res |= e
                        labels |= lab
                    else:
                        res |= self.order(type(op), a, b, node, fr)
                    if isinstance(a, Obj) and a.kind == 'ndarray' and kind != 'is':
                        labels |= i.deep_labels(Val([a]), 4)
        if kind in ('eq', 'ord'):
            arr = [a for a in list(l.atoms) + list(r.atoms) if isinstance(a, Obj) and a.kind in ('ndarray', 'ext')]
            if arr:
                o = i.alloc('ndarray', 'ndarray', node, fr)
                i.write(o, 'elem', O('bool', labels))
                return Val([o] + ([Const(x != neg) for x in res]), labels)
        if not res:
            raise_ = True
            return Val([], labels)
        return Val([Const(bool(x) != neg) for x in res], labels)

    def identical(self, a, b):
        if isinstance(a, Partial) and isinstance(b, Partial) and a.what == b.what == 'id':
            return self.identical(a.args, b.args)
        if isinstance(a, Const) and isinstance(b, Const):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return {a.v is b.v}
            return {True, False} if a == b else {False}
        if isinstance(a, Const) or isinstance(b, Const):
            c, o = (a, b) if isinstance(a, Const) else (b, a)
            if isinstance(o, Opaque) and o.t == 'any':
                return {True, False}
            if isinstance(o, Opaque) and c.v is not None and o.t == type(c.v).__name__:
                return {True, False}
            return {False}
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return {True, False}
        if isinstance(a, Obj) and isinstance(b, Obj):
            return {True, False} if a == b else {False}
        if isinstance(a, Tup) and isinstance(b, Tup):
            return {True, False} if a == b else {False}
        if type(a) is type(b):
            return {a == b}
        return {False}

    def equal(self, a, b, node, fr, l, r, neg=False):
        i = self.i
        if isinstance(a, Partial) and isinstance(b, Partial) and a.what == b.what == 'id':
            return self.identical(a, b), NOLABELS
        if isinstance(a, Partial) and a.what == 'id' or isinstance(b, Partial) and b.what == 'id':
            return {True, False}, NOLABELS
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return {a.v == b.v}, NOLABELS
            except Exception:
                return {True, False}, NOLABELS
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and (x.kind == 'inst' or x.kind == 'dict' and not isinstance(x.cls, str)):
                for mn in ('__eq__',) + (('__ne__',) if neg else ()):
                    m = i.find_method(x, mn)
                    if m is not None:
                        try:
                            v = i.call_fn(m, [Val([x]), Val([y])], {}, node, fr)
                        except Abort:
                            return set(), NOLABELS
                        out = set()
                        for z in v.atoms:
                            if isinstance(z, Const):
                                out.add(bool(z.v))
                            else:
                                out |= {True, False}
                        return out, v.labels
                if x.kind == 'inst':
                    if isinstance(y, Obj) and y.kind == 'inst':
                        continue
                    return ({True, False} if isinstance(y, Opaque) else {x == y}), NOLABELS
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return {False}, NOLABELS
            poss = {True}
            lab = NOLABELS
            for x, y in zip(a.items, b.items):
                v = self.compare(ast.Eq(), x, y, node, fr)
                lab |= v.labels
                t = {bool(c.v) if isinstance(c, Const) else None for c in v.atoms}
                if None in t:
                    t = {True, False}
                n = set()
                if False in t:
                    n.add(False)
                if True in t:
                    n |= poss
                else:
                    n.add(False)
                poss = n | ({False} if False in poss else set())
            return poss, lab
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque):
                if x.tag == POSITIVE and isinstance(y, Const) and y.v == 0:
                    return {False}, NOLABELS
                if isinstance(y, Const) and y.v is None:
                    return ({False} if x.t != 'any' else {True, False}), NOLABELS
                if isinstance(y, (ClassRef, FuncRef)):
                    return {True, False}, NOLABELS
                if isinstance(y, Const) and x.t == 'str' and not isinstance(y.v, str):
                    return {False}, NOLABELS
                return {True, False}, NOLABELS
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.kind == 'class' or b.kind == 'class':
                return ({True, False} if a == b else {False}), NOLABELS
            if a.kind == b.kind or {'ndarray', 'list'} >= {a.kind, b.kind}:
                return {True, False}, i.deep_labels(Val([a]), 4) | i.deep_labels(Val([b]), 4)
            return {False}, NOLABELS
        if isinstance(a, (ClassRef, Ext, FuncRef)) and isinstance(b, (ClassRef, Ext, FuncRef)):
            return {a == b}, NOLABELS
        if isinstance(a, Obj) or isinstance(b, Obj):
            o = a if isinstance(a, Obj) else b
            x = b if o is a else a
            if isinstance(x, Tup) and o.kind == 'list':
                return {True, False}, NOLABELS
            return {False}, NOLABELS
        return {False} if type(a) is not type(b) else {True, False}, NOLABELS

    def order(self, op, a, b, node, fr):
        i = self.i
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return {{ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y,
                         ast.GtE: lambda x, y: x >= y}[op](a.v, b.v)}
            except Exception:
                return set()
        d = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
        rv = {'__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__', '__ge__': '__le__'}
        for x, y, mn in ((a, b, d[op]), (b, a, rv[d[op]])):
            if isinstance(x, Obj) and x.kind == 'inst':
                m = i.find_method(x, mn)
                if m is not None:
                    try:
                        v = i.call_fn(m, [Val([x]), Val([y])], {}, node, fr)
                    except Abort:
                        return set()
                    out = set()
                    for z in v.atoms:
                        out |= {bool(z.v)} if isinstance(z, Const) else {True, False}
                    return out
        if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
            return set()
        for x, y, o in ((a, b, op), (b, a, {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(op))):
            if isinstance(x, Opaque) and x.tag == POSITIVE and isinstance(y, Const) and isinstance(y.v, (int, float)):
                if y.v <= 0:
                    return {o is ast.Gt or o is ast.GtE}
                if y.v == 1 and o in (ast.Lt, ast.GtE):
                    return {o is ast.GtE}
        return {True, False}

    def contains(self, l, r, node, fr):
        i = self.i
        res = set()
        lab = NOLABELS
        for b in r.atoms:
            if isinstance(b, Obj) and (b.kind == 'inst' or b.kind == 'dict' and not isinstance(b.cls, str)):
                m = i.find_method(b, '__contains__')
                if m is not None:
                    try:
                        v = i.call_fn(m, [Val([b]), l], {}, node, fr)
                    except Abort:
                        continue
                    lab |= v.labels
                    for z in v.atoms:
                        if isinstance(z, Const):
                            res.add(bool(z.v))
                        else:
                            res |= {True, False}
                    continue
                if b.kind == 'inst':
                    e, _ = i.iter_elems(Val([b]), node, fr)
                    res |= {True, False}
                    continue
            if isinstance(b, Tup):
                for a in l.atoms:
                    poss = {False}
                    for x in b.items:
                        for y in x.atoms:
                            e = {True} if (a == y and isinstance(a, (Const, ClassRef, Ext))) else self.equal(a, y, node, fr, l, x)[0]
                            if e == {True}:
                                poss = {True}
                                break
                            if True in e:
                                poss |= {True}
                        if poss == {True}:
                            break
                    res |= poss
                continue
            if isinstance(b, Obj) and b.kind in ('dict', 'set', 'list', 'iter'):
                f = i.fields(b)
                keys = i.dict_keys(b) if b.kind == 'dict' else i.all_elems(b)
                lab |= keys.labels
                if not keys.atoms:
                    res.add(False)
                    continue
                if b.kind in ('dict', 'set', 'list', 'iter'):
                    can = False
                    for a in l.atoms:
                        for y in keys.atoms:
                            if isinstance(a, Const) and isinstance(y, Const):
                                can = can or a == y or a.v == y.v
                            else:
                                if True in self.equal(a, y, node, fr, l, keys)[0]:
                                    can = True
                            if can:
                                break
                    if can and b.phase in i.present and b not in i.shrunk and all(isinstance(a, Const) and a in keys.atoms for a in l.atoms):
                        res.add(True)
                    else:
                        res |= {True, False} if can else {False}
                continue
            if isinstance(b, Const):
                if isinstance(b.v, str):
                    cs = l.consts()
                    if len(cs) == len(l.atoms) and all(isinstance(c, str) for c in cs):
                        res |= {c in b.v for c in cs}
                    else:
                        res |= {True, False}
                continue
            res |= {True, False}
        return res, lab

    # -- isinstance ------------------------------------------------------------------------------
    NUMS = {'numbers.Number', 'numbers.Real', 'numbers.Complex', 'numbers.Rational'}

    def isinst(self, a, c):
        """-> True | False | None (unknown)"""
        i = self.i
        if isinstance(c, Tup):
            rs = [self.isinst_any(a, x) for x in c.items]
            if True in rs:
                return True
            return None if None in rs else False
        if isinstance(a, Opaque) and a.t == 'any':
            return None
        if isinstance(c, ClassRef):
            if isinstance(a, Obj) and not isinstance(a.cls, str) and a.kind not in ('class',) and a.cls is not None:
                return c in i.base_class(a.cls).mro()
            return False
        if isinstance(c, Obj) and c.kind == 'class':
            if isinstance(a, Obj) and a.kind == 'inst':
                if a.cls == c:
                    return None
                x = a.cls
                while isinstance(x, Obj):
                    x = x.cls
                    if x == c:
                        return None
            return False
        if isinstance(c, Ext):
            n = c.name.replace('builtins.', '')
            sn = n.split('.')[-1]
            if isinstance(a, Obj) and not isinstance(a.cls, str) and a.cls is not None and a.kind != 'class':
                for m in i.base_class(a.cls).mro():
                    if isinstance(m, str) and (m.split('.')[-1] == sn):
                        return True
                if sn in ('Hashable', 'object'):
                    return True
                if sn == 'Iterable':
                    return i.find_method(a, '__iter__') is not None or a.kind == 'dict'
                if sn in ('Mapping',):
                    return a.kind == 'dict'
                if sn in ('Callable',):
                    return i.find_method(a, '__call__') is not None
                return False
            t = None
            if isinstance(a, Const):
                t = 'NoneType' if a.v is None else type(a.v).__name__
            elif isinstance(a, Opaque):
                t = a.t
            elif isinstance(a, Tup):
                t = 'tuple'
            elif isinstance(a, Obj):
                t = a.cls if isinstance(a.cls, str) else a.kind
                if a.kind == 'class':
                    t = 'type'
            elif isinstance(a, (ClassRef,)):
                t = 'type'
            elif isinstance(a, (FuncRef, Bound, Partial)):
                t = 'function'
            elif isinstance(a, Ext):
                t = 'type?'
            if sn == t:
                return True
            if n in self.NUMS or sn in ('Number', 'Real', 'Complex', 'floating'):
                return t in ('int', 'float', 'bool', 'num') if t in ('int', 'float', 'bool', 'num', 'str', 'NoneType', 'tuple', 'list', 'dict', 'set',
                                                                     'ndarray', 'DataFrame', 'type', 'function', 'generator', 'deque', 'defaultdict', 'OrderedDict') else None
            if sn in ('Integral', 'integer', 'int64', 'int32'):
                if t == 'num':
                    return None
                return t in ('int', 'bool')
            if sn == 'int':
                return None if t == 'num' else t in ('int', 'bool')
            if sn == 'float' or sn == 'float64' or sn == 'float32':
                return None if t == 'num' else t == 'float'
            if sn == 'bool':
                return t == 'bool'
            if sn == 'str':
                return t == 'str'
            if sn in ('dict', 'Mapping', 'MutableMapping'):
                return t in ('dict', 'defaultdict', 'OrderedDict', 'edict')
            if sn in ('list', 'tuple', 'set', 'frozenset', 'deque', 'ndarray', 'DataFrame', 'Series', 'OrderedDict', 'defaultdict'):
                return False if t != 'type?' else None
            if sn in ('Iterable', 'Collection', 'Sized'):
                if sn == 'Iterable' and t == 'generator':
                    return True
                return t in ('str', 'dict', 'list', 'tuple', 'set', 'frozenset', 'deque', 'ndarray', 'DataFrame', 'defaultdict', 'OrderedDict', 'edict',
                             'generator') if t != 'any' else None
            if sn in ('Sequence', 'Container'):
                return t in ('str', 'list', 'tuple', 'deque')
            if sn in ('Set',):
                return t in ('set', 'frozenset')
            if sn in ('Iterator', 'Generator'):
                return t == 'generator'
            if sn in ('type', 'object'):
                return sn == 'object'
            if sn in ('Callable', 'FunctionType'):
                return t == 'function' or (sn == 'Callable' and t == 'type')
            if sn == 'Hashable':
                return None
            return None
        return None

    def isinst_any(self, a, v):
        rs = [self.isinst(a, x) for x in v.atoms]
        if rs and all(r is True for r in rs):
            return True
        if rs and all(r is False for r in rs):
            return False
        return None

    def issub(self, a, c):
        i = self.i
        if isinstance(c, Tup):
            rs = [self.issub(a, y) for x in c.items for y in x.atoms]
            return True if True in rs else (None if None in rs else False)
        if isinstance(a, Opaque):
            return None
        if isinstance(a, Obj) and a.kind == 'class':
            x = a
            while isinstance(x, Obj):
                if x == c:
                    return True
                x = x.cls
            return c in x.mro() if isinstance(c, ClassRef) else (False if isinstance(c, Obj) else None)
        if isinstance(a, ClassRef):
            if isinstance(c, ClassRef):
                return c in a.mro()
            if isinstance(c, Obj):
                return False
            return any(isinstance(m, str) and isinstance(c, Ext) and m.split('.')[-1] == c.name.split('.')[-1] for m in a.mro())
        if isinstance(a, Ext) and isinstance(c, Ext):
            return a.name == c.name or None
        return None

    # -- calls -----------------------------------------------------------------------------------
    def call_ext(self, a, args, kwargs, node, fr, star=None, starstar=None):
        i = self.i
        if star is not None:
            args = list(args) + [star]
        if isinstance(a, Ext):
            return self.call_named(a.name, args, kwargs, node, fr, star, starstar)
        if isinstance(a, ExtM):
            return self.call_method(a, args, kwargs, node, fr, star, starstar)
        if isinstance(a, Partial):
            return self.call_partial(a, args, node, fr)
        if isinstance(a, Opaque):
            # a callback of unknown identity: assume it reads its arguments only
            return O('any', self.labels(args, kwargs))
        raise Abort()

    def call_partial(self, a, args, node, fr):
        i = self.i
        out = []
        for x in a.args:
            if a.what == 'attrgetter':
                v = args[0]
                for part in x.split('.'):
                    v = i.load_attr(v, part, node, fr)
                out.append(v)
            elif a.what == 'itemgetter':
                r = BOT
                for t in args[0].atoms:
                    try:
                        r = join(r, i.load_item_atom(t, C(x), ast.Constant(value=x), node, fr, args[0].labels))
                    except Abort:
                        pass
                if r.bot:
                    raise Abort()
                out.append(r)
        if len(out) == 1:
            return out[0]
        return Val([Tup(out)])

    def consts_of(self, v):
        return v.consts() if v.atoms and len(v.consts()) == len(v.atoms) else None

    def call_named(self, name, args, kwargs, node, fr, star, starstar):
        ret = self.call_known(name, args, kwargs, node, fr, star, starstar)
        for h in self.i.hooks:
            f = getattr(h, 'on_ext', None)
            if f:
                r = f(self.i, fr, node, name, args, kwargs, ret)
                if r is not None:
                    ret = r
        return ret

    def call_known(self, name, args, kwargs, node, fr, star, starstar):
        i = self.i
        for p in ('builtins.', 'libc.math.', 'libc.stdlib.', 'cmath.'):
            if name.startswith(p):
                name = name[len(p):]
                break
        m = getattr(self, 'b_' + name, None) if '.' not in name else None
        if m is not None:
            return m(args, kwargs, node, fr)
        if name.startswith('logger.') or name in ('warnings.filterwarnings', 're.compile', 'logging.warning', 'pyximport.install', '_csv.register_dialect'):
            return O('any')
        h = self.NAMED.get(name)
        if h is not None:
            return getattr(self, h)(args, kwargs, node, fr)
        base, _, last = name.rpartition('.')
        labels = self.labels(args, kwargs)
        if name.startswith('numpy.') or name.startswith('np.'):
            rest = name.split('.', 1)[1]
            if rest in NP_MUTATE:
                for x in args[0].objs():
                    i.mutate(x, 'elem', BOT, node, fr, rest)
                    if len(args) > 1:
                        i.write(x, 'elem', O('float', labels))
                return NONE
            if last in NP_ALIAS:
                out = BOT
                for x in args[0].atoms:
                    if isinstance(x, Obj) and x.kind in ('ndarray', 'ext'):
                        out = join(out, Val([x], labels))
                    else:
                        o = self.new('ndarray', 'ndarray', node, fr, narrowed(
                            self.flat_elem(Val([x], args[0].labels), node, fr), kwargs.get('dtype', args[1] if len(args) > 1 else None)))
                        out = join(out, Val([o]))
                return out
            if last in NP_FRESH:
                o = self.new('ndarray', 'ndarray', node, fr)
                e = BOT
                for x in args[:1] if last in ('array', 'sort', 'unique', 'copy', 'diff', 'cumsum') else args:
                    e = join(e, self.flat_elem(x, node, fr))
                if last not in NP_PRESERVE:
                    e = untag(e)
                if last in ('array', 'fromiter', 'full', 'full_like'):
                    e = narrowed(e, kwargs.get('dtype', args[1] if last in ('array', 'fromiter') and len(args) > 1 else None))
                i.write(o, 'elem', e.with_labels(labels) if e.atoms else O('float', labels))
                out = Val([o])
                if 'out' in kwargs:
                    for x in kwargs['out'].objs():
                        i.mutate(x, 'elem', BOT, node, fr, 'out=')
                        i.write(x, 'elem', O('float', labels))
                    out = kwargs['out']
                if last == 'unique' and len(kwargs) > 0:
                    return Val([Tup([out, out])])
                return out
            if last in NP_SCALAR:
                if 'out' in kwargs:
                    for x in kwargs['out'].objs():
                        i.mutate(x, 'elem', BOT, node, fr, 'out=')
                    return kwargs['out']
                if any(isinstance(x, Obj) and x.kind == 'ndarray' for v in args for x in v.atoms):
                    o = self.new('ndarray', 'ndarray', node, fr, O('float', labels))
                    return Val([o, Opaque('float')], labels)
                if last.startswith('is') or last in ('any', 'all', 'allclose', 'array_equal', 'iterable'):
                    return O('bool', labels)
                return O('float', labels)
            if rest.startswith('random.') or last in ('default_rng',):
                if 'size' in kwargs or last in ('rand', 'randn', 'permutation') or last in ('uniform', 'normal', 'choice', 'randint') and len(args) > 2:
                    e = O('any' if last in ('choice', 'permutation') else 'int' if last == 'randint' else 'float', labels)
                    return Val([self.new('ndarray', 'ndarray', node, fr, e)])
                return O('any', labels)
            if last in ('float64', 'float_') and args:
                return self.b_float(args, kwargs, node, fr)
            if last in ('float64', 'float32'):
                return O('float', labels)
            if last in ('int64', 'int_') and args:
                return self.b_int(args, kwargs, node, fr)
            if last in ('int32', 'int64', 'int_'):
                return O('int', labels)
            return O('any', labels)
        if last[:1].isupper() and hasattr(builtins, last) and isinstance(getattr(builtins, last), type) and \
                issubclass(getattr(builtins, last), BaseException):
            return Val([i.alloc('exc', last, node, fr)])
        if last in ('isnan', 'isinf', 'isfinite'):
            return O('bool', labels)
        if name.startswith('math.') or name in ('ln', 'fabs', 'sqrt', 'floor', 'ceil', 'log', 'exp', 'pow'):
            return O('float', labels)
        if name.startswith(('matplotlib', 'plotly')):
            return Val([Ext(name)]) if False else O('any')
        i.unknown_calls[name] += 1
        i.unknown_sites[name].add((fr.fn.qual if fr.fn else fr.module.name if fr.module else '?', getattr(node, 'lineno', 0)))
        for v in list(args) + list(kwargs.values()):
            # callables handed to unknown code are called by it
            for x in v.atoms:
                if isinstance(x, (FuncRef, Bound)) and False:
                    pass
        return O('any', labels)

    def flat_elem(self, v, node, fr, depth=0):
        """scalar contents of a (nested) sequence"""
        out = BOT
        for x in v.atoms:
            if isinstance(x, Obj) and x.kind in ('list', 'set', 'iter', 'ndarray') or isinstance(x, Tup):
                e, _ = self.i.iter_elems(Val([x], v.labels), node, fr)
                out = join(out, self.flat_elem(e, node, fr, depth + 1) if depth < 4 else O('any', e.labels))
            elif isinstance(x, Obj) and x.kind == 'ext':
                out = join(out, O('any', self.i.deep_labels(Val([x]))))
            else:
                out = join(out, Val([x], v.labels))
        return out

    NAMED = {
        'dnutils.ifnone': 'd_ifnone', 'dnutils.ifnot': 'd_ifnot', 'dnutils.tools.ifnone': 'd_ifnone', 'dnutils.tools.ifnot': 'd_ifnot',
        'dnutils.first': 'd_first', 'dnutils.tools.first': 'd_first', 'dnutils.last': 'd_first', 'dnutils.fst': 'd_first0',
        'dnutils.tools.fst': 'd_first0', 'dnutils.snd': 'd_snd',
        'dnutils.edict': 'd_edict', 'dnutils.tools.edict': 'd_edict', 'dnutils.mapstr': 'd_mapstr', 'dnutils.ifstr': 'd_ifstr',
        'dnutils.tools.ifstr': 'd_ifstr', 'dnutils.pairwise': 'd_pairwise', 'itertools.pairwise': 'd_pairwise', 'itertools.tee': 'd_tee',
        'itertools.chain': 'd_chain', 'itertools.chain.from_iterable': 'd_chain_fi', 'itertools.product': 'd_product', 'itertools.combinations': 'd_pairwise',
        'itertools.islice': 'd_aslist0', 'itertools.repeat': 'd_repeat',
        'operator.attrgetter': 'd_attrgetter', 'operator.itemgetter': 'd_itemgetter',
        'copy.copy': 'd_copy', 'copy.deepcopy': 'd_deepcopy', 'deepcopy': 'd_deepcopy',
        'pickle.dumps': 'd_ident', 'pickle.loads': 'd_ident', 'bz2.compress': 'd_ident', 'bz2.decompress': 'd_ident',
        'json.dumps': 'd_jdumps', 'json.loads': 'd_ident', 'json.dump': 'd_dump', 'json.load': 'd_load', 'pickle.dump': 'd_dump', 'pickle.load': 'd_load',
        'collections.deque': 'd_deque', 'collections.OrderedDict': 'd_dict', 'collections.defaultdict': 'd_defaultdict',
        'collections.Counter': 'd_counter', 'collections.ChainMap': 'd_chainmap', 'itertools.zip_longest': 'd_ziplong',
        'pandas.DataFrame': 'd_frame', 'pandas.Series': 'd_series', 'pandas.concat': 'd_frame', 'pandas.to_numeric': 'd_series', 'pandas.isna': 'd_bool', 'pandas.isnull': 'd_bool',
        'functools.cmp_to_key': 'd_ident', 'functools.reduce': 'd_reduce', 'functools.partial': 'd_any',
        'heapq.heappush': 'd_heappush', 'heapq.heappop': 'd_heappop', 'heapq.heapify': 'd_heapify', 'heapq.heapreplace': 'd_heapreplace',
        'heapq.heappushpop': 'd_heapreplace', 'heapq.nlargest': 'd_list1', 'heapq.nsmallest': 'd_list1',
        'dnutils.out': 'd_none', 'dnutils.err': 'd_none', 'dnutils.getlogger': 'd_logger', 'dnutils.logs.getlogger': 'd_logger',
        'logging.getLogger': 'd_logger', 'warnings.warn': 'd_none', 'libc.stdio.printf': 'd_none', 'typing.cast': 'd_snd_arg',
        'client.pick': 'd_pick', 'random.shuffle': 'd_shuffle', 'uuid.uuid4': 'd_any', 'html.escape': 'd_str', 'os.path.join': 'd_str', 'tempfile.gettempdir': 'd_str',
        'tempfile.mkdtemp': 'd_str', 'bisect.insort': 'd_heappush', 'bisect.insort_left': 'd_heappush', 'bisect.insort_right': 'd_heappush',
        'datetime.datetime.now': 'd_any', 'tabulate.tabulate': 'd_str', 'os.path.exists': 'd_bool',
        'operator.is_': 'd_bool', 'contextlib.contextmanager': 'd_ident', 'ctypes.POINTER': 'd_any',
    }

    # builtins
    def b_isinstance(self, args, kwargs, node, fr):
        out = set()
        for a in args[0].atoms:
            r = self.isinst_any(a, args[1])
            out |= {True, False} if r is None else {r}
        if not out:
            raise Abort()
        return Val([Const(x) for x in out])

    def b_issubclass(self, args, kwargs, node, fr):
        out = set()
        for a in args[0].atoms:
            for c in args[1].atoms:
                r = self.issub(a, c)
                out |= {True, False} if r is None else {r}
        if not out:
            raise Abort()
        return Val([Const(x) for x in out])

    def b_type(self, args, kwargs, node, fr):
        i = self.i
        if len(args) == 3:
            bases = [x for t in args[1].atoms if isinstance(t, Tup) and t.items for x in t.items[0].atoms]
            out = []
            for b in bases:
                if not isinstance(b, (ClassRef, Obj)):
                    continue
                nm = self.consts_of(args[0])
                o = i.alloc('class', b, node, fr, (tuple(sorted(map(str, nm))) if nm and len(nm) == 1 else (),))
                i.write(o, '__name__', args[0])
                for d in args[2].objs():
                    for k, v in list(i.fields(d).items()):
                        if k.startswith("k:'"):
                            i.write(o, k[3:-1], v)
                out.append(o)
            if not out:
                return O('any')
            return Val(out)
        out = set()
        for a in args[0].atoms:
            if isinstance(a, Obj):
                if a.kind == 'class':
                    out.add(Ext('builtins.type'))
                elif a.cls is not None and not isinstance(a.cls, str):
                    out.add(a.cls)
                else:
                    out.add(Ext('builtins.' + (a.cls or a.kind)))
            elif isinstance(a, Const):
                out.add(Ext('builtins.' + ('NoneType' if a.v is None else type(a.v).__name__)))
            elif isinstance(a, Tup):
                out.add(Ext('builtins.tuple'))
            elif isinstance(a, Opaque) and a.t in TYPE_OF:
                out.add(Ext('builtins.' + a.t))
            elif isinstance(a, ClassRef):
                out.add(Ext('builtins.type'))
            else:
                out.add(Opaque('any'))
        return Val(out)

    def b_len(self, args, kwargs, node, fr):
        i = self.i
        out = BOT
        for a in args[0].atoms:
            if isinstance(a, Tup):
                out = join(out, C(len(a.items)))
            elif isinstance(a, Obj) and (a.kind == 'inst' or a.kind == 'dict' and not isinstance(a.cls, str)):
                m = i.find_method(a, '__len__')
                if m is not None:
                    try:
                        out = join(out, i.call_fn(m, [Val([a])], {}, node, fr))
                    except Abort:
                        pass
                elif a.kind == 'dict':
                    out = join(out, O('int'))
            elif isinstance(a, Obj) and a.kind in ('list', 'dict', 'set'):
                f = i.fields(a)
                if a in i.sizes and a not in i.shrunk:
                    out = join(out, Val([Const(i.sizes[a])], i.deep_labels(Val([a]), 1)))
                elif not any(k[0] != '?' and not v.bot for k, v in f.items()):
                    out = join(out, C(0))
                else:
                    out = join(out, Val([Opaque('int', POSITIVE if i.filled(a) else None)], i.deep_labels(Val([a]), 1)))
            elif isinstance(a, Const):
                if isinstance(a.v, str):
                    out = join(out, C(len(a.v)))
            elif isinstance(a, Obj) and a.kind == 'iter':
                pass
            else:
                out = join(out, O('int', args[0].labels))
        if out.bot:
            raise Abort()
        return out

    def seqctor(self, kind, cls, args, kwargs, node, fr):
        o = self.new(kind, cls, node, fr)
        if args:
            e, me = self.elems(args[0], node, fr)
            if e.atoms:
                self.i.write(o, 'elem', e)
            if not me:
                self.i.write(o, '?ne', TRUE)
            if not e.atoms and args[0].atoms and all(isinstance(x, Const) and not isinstance(x.v, str) for x in args[0].atoms):
                raise Abort()
        return Val([o])

    def b_list(self, args, kwargs, node, fr):
        if len(args) == 1 and len(args[0].atoms) == 1:
            a = next(iter(args[0].atoms))
            if isinstance(a, Tup) and len(a.items) <= 8:
                o = self.new('list', 'list', node, fr)
                for k, x in enumerate(a.items):
                    self.i.write(o, 'i:%d' % k, x)
                return Val([o])
        return self.seqctor('list', 'list', args, kwargs, node, fr)

    def b_tuple(self, args, kwargs, node, fr):
        if len(args) == 1 and args[0].atoms and all(isinstance(a, Tup) for a in args[0].atoms):
            return args[0]
        if not args:
            return Val([Tup([])])
        return self.seqctor('list', 'tuple', args, kwargs, node, fr)

    def b_set(self, args, kwargs, node, fr):
        return self.seqctor('set', 'set', args, kwargs, node, fr)

    def b_frozenset(self, args, kwargs, node, fr):
        return self.seqctor('set', 'frozenset', args, kwargs, node, fr)

    def d_deque(self, args, kwargs, node, fr):
        return self.seqctor('list', 'deque', args, kwargs, node, fr)

    # Cython's libcpp.deque etc.
    b_deque = d_deque

    def b_sorted(self, args, kwargs, node, fr):
        if 'key' in kwargs:
            e, _ = self.elems(args[0], node, fr)
            if e.atoms:
                try:
                    self.i.call(kwargs['key'], [e], {}, node, fr)
                except Abort:
                    pass
        else:
            self.order_elems(args[0], node, fr)
        return self.seqctor('list', 'list', args, {}, node, fr)

    def order_elems(self, v, node, fr):
        e, _ = self.elems(v, node, fr)
        for a in e.atoms:
            if isinstance(a, Obj) and a.kind == 'inst':
                self.order(ast.Lt, a, a, node, fr)

    def b_reversed(self, args, kwargs, node, fr):
        return self.seqctor('iter', 'generator', args, kwargs, node, fr)

    def b_iter(self, args, kwargs, node, fr):
        return self.seqctor('iter', 'generator', args, kwargs, node, fr)

    def b_next(self, args, kwargs, node, fr):
        i = self.i
        out = BOT
        for a in args[0].atoms:
            if isinstance(a, Obj) and a.kind == 'inst':
                m = i.find_method(a, '__next__')
                if m is not None:
                    try:
                        out = join(out, i.call_fn(m, [Val([a])], {}, node, fr))
                    except Abort:
                        pass
            else:
                e, me = self.elems(Val([a], args[0].labels), node, fr)
                out = join(out, e)
                i.note_raise(fr, 'StopIteration', [node])
        if len(args) > 1:
            out = join(out, args[1])
        if out.bot:
            raise Abort()
        return out

    def b_zip(self, args, kwargs, node, fr):
        o = self.new('iter', 'generator', node, fr)
        items = []
        me = False
        for a in args:
            e, m = self.elems(a, node, fr)
            if e.bot:
                return Val([o])
            me = me or m
            items.append(e)
        alts = [self.i.alternatives(e) for e in items]
        big = [k for k, x in enumerate(alts) if len(x) > 1]
        if len(big) == 1:
            k = big[0]
            for x in alts[k]:
                self.i.write(o, 'elem', Val([Tup(items[:k] + [x] + items[k + 1:])]))
        else:
            self.i.write(o, 'elem', Val([Tup(items)]))
        if not me:
            self.i.write(o, '?ne', TRUE)
        return Val([o])

    def b_enumerate(self, args, kwargs, node, fr):
        o = self.new('iter', 'generator', node, fr)
        e, me = self.elems(args[0], node, fr)
        if e.atoms:
            for x in self.i.alternatives(e):
                self.i.write(o, 'elem', Val([Tup([O('int'), x])]))
        if not me:
            self.i.write(o, '?ne', TRUE)
        return Val([o])

    def b_map(self, args, kwargs, node, fr):
        o = self.new('iter', 'generator', node, fr)
        es = []
        me = False
        for a in args[1:]:
            e, m = self.elems(a, node, fr)
            if e.bot:
                return Val([o])
            me = me or m
            es.append(e)
        try:
            r = self.i.call(args[0], es, {}, node, fr)
            self.i.write(o, 'elem', r)
            if not me:
                self.i.write(o, '?ne', TRUE)
        except Abort:
            pass
        return Val([o])

    def b_filter(self, args, kwargs, node, fr):
        o = self.new('iter', 'generator', node, fr)
        e, m = self.elems(args[1], node, fr)
        keep = set()
        for a in e.atoms:
            if args[0].atoms == NONE.atoms:
                if True in self.i.truth(Val([a]), node, fr):
                    keep.add(a)
                continue
            try:
                r = self.i.call(args[0], [Val([a], e.labels)], {}, node, fr)
                if True in self.i.truth(r, node, fr):
                    keep.add(a)
            except Abort:
                pass
        if keep:
            self.i.write(o, 'elem', Val(keep, e.labels))
        return Val([o])

    def boolagg(self, args, node, fr, isall):
        e, me = self.elems(args[0], node, fr)
        t = self.i.truth(e, node, fr) if e.atoms else set()
        out = set()
        if isall:
            if me or e.bot or True in t:
                out.add(True)
            if False in t:
                out.add(False)
        else:
            if me or e.bot or False in t:
                out.add(False)
            if True in t:
                out.add(True)
        return Val([Const(x) for x in out], e.labels)

    def b_all(self, args, kwargs, node, fr):
        return self.boolagg(args, node, fr, True)

    def b_any(self, args, kwargs, node, fr):
        return self.boolagg(args, node, fr, False)

    def b_sum(self, args, kwargs, node, fr):
        e, me = self.elems(args[0], node, fr)
        out = args[1] if len(args) > 1 else kwargs.get('start', C(0))
        if e.atoms:
            for _ in range(2):
                try:
                    out = join(out, self.i.binop(ast.Add, out, e, node, fr))
                except Abort:
                    break
            if any(isinstance(a, (Obj, Tup)) for a in out.atoms):
                out = Val([a for a in out.atoms if not (isinstance(a, Const) and a.v == 0 and not me)], out.labels)
            else:
                out = O('float', self.i.deep_labels(e) | out.labels)
        return out

    def minmax(self, args, kwargs, node, fr):
        if len(args) == 1:
            e, me = self.elems(args[0], node, fr)
        else:
            e = joinall(args)
        if 'key' in kwargs and e.atoms:
            try:
                kv = self.i.call(kwargs['key'], [e], {}, node, fr)
                e = e.with_labels(kv.labels)
            except Abort:
                pass
        if 'default' in kwargs:
            e = join(e, kwargs['default'])
        if e.bot:
            self.i.note_raise(fr, 'ValueError', [node])
            raise Abort()
        return e

    b_min = b_max = minmax

    def b_range(self, args, kwargs, node, fr):
        return Val([self.new('iter', 'range', node, fr, O('int', self.labels(args)))])

    def b_id(self, args, kwargs, node, fr):
        if args and args[0].atoms and all(isinstance(a, Obj) for a in args[0].atoms):
            return Val([Partial('id', a) for a in args[0].atoms], args[0].labels)
        return O('int', args[0].labels if args else NOLABELS)

    def b_hash(self, args, kwargs, node, fr):
        i = self.i
        lab = args[0].labels
        for a in args[0].atoms:
            if isinstance(a, Obj) and a.kind == 'inst':
                m = i.find_method(a, '__hash__')
                if m is not None:
                    try:
                        lab |= i.call_fn(m, [Val([a])], {}, node, fr).labels
                    except Abort:
                        pass
            elif isinstance(a, Tup):
                for x in a.items:
                    lab |= self.b_hash([x], {}, node, fr).labels
            elif isinstance(a, Obj) and a.kind in ('list', 'set'):
                lab |= self.b_hash([i.all_elems(a)], {}, node, fr).labels
        return O('int', lab)

    def b_hasattr(self, args, kwargs, node, fr):
        i = self.i
        cs = self.consts_of(args[1])
        if not cs or len(cs) != 1:
            return BOOL
        out = set()
        for a in args[0].atoms:
            if isinstance(a, Opaque) or isinstance(a, Obj) and a.kind in ('ext', 'ndarray'):
                out |= {True, False}
            else:
                try:
                    i.load_attr(Val([a]), cs[0], node, fr)
                    out.add(True)
                except Abort:
                    out.add(False)
        return Val([Const(x) for x in out])

    def b_getattr(self, args, kwargs, node, fr):
        cs = self.consts_of(args[1])
        out = BOT
        if cs:
            for c in cs:
                try:
                    out = join(out, self.i.load_attr(args[0], c, node, fr))
                except Abort:
                    pass
        else:
            out = O('any', self.labels(args))
        if len(args) > 2:
            out = join(out, args[2])
        if out.bot:
            raise Abort()
        return out

    def b_setattr(self, args, kwargs, node, fr):
        cs = self.consts_of(args[1])
        if cs:
            for c in cs:
                self.i.store_attr(args[0], c, args[2], node, fr)
        else:
            for a in args[0].objs():
                self.i.mutate(a, '*', args[2], node, fr, 'setattr')
        return NONE

    def b_callable(self, args, kwargs, node, fr):
        out = set()
        for a in args[0].atoms:
            if isinstance(a, (FuncRef, Bound, ClassRef, ExtM, Partial)):
                out.add(True)
            elif isinstance(a, (Const, Tup)):
                out.add(False)
            elif isinstance(a, Obj) and a.kind == 'inst':
                out.add(self.i.find_method(a, '__call__') is not None)
            else:
                out |= {True, False}
        return Val([Const(x) for x in out])

    def strof(self, args, kwargs, node, fr, mn='__str__'):
        i = self.i
        if not args:
            return C('')
        lab = args[0].labels
        out = set()
        for a in args[0].atoms:
            if isinstance(a, Const) and isinstance(a.v, (str,)):
                out.add(a)
            elif isinstance(a, Opaque) and a.t == 'str':
                out.add(a)
            elif isinstance(a, Obj) and a.kind == 'inst':
                m = i.find_method(a, '__str__') or i.find_method(a, '__repr__')
                if m is not None:
                    try:
                        lab |= i.call_fn(m, [Val([a])], {}, node, fr).labels
                    except Abort:
                        pass
                out.add(Opaque('str'))
            else:
                lab |= i.deep_labels(Val([a]), 1)
                out.add(Opaque('str'))
        return Val(out, lab)

    b_str = b_repr = b_format = strof

    def num(t):
        def f(self, args, kwargs, node, fr):
            if not args:
                return C(0)
            out = set()
            for a in args[0].atoms:
                if isinstance(a, Const) and isinstance(a.v, (int, float)):
                    out.add(a)
                elif isinstance(a, Const) and a.v is None:
                    continue
                elif isinstance(a, (Tup,)) or isinstance(a, Obj) and a.kind in ('list', 'dict', 'set', 'inst', 'iter'):
                    continue
                elif isinstance(a, Opaque) and a.tag is not None and (a.t in (t, 'any', 'num', 'bool') or t == 'float' and a.t == 'int'):
                    out.add(Opaque(t, a.tag))
                else:
                    out.add(Opaque(t))
            if not out:
                self.i.note_raise(fr, 'TypeError', [node])
                raise Abort()
            return Val(out, self.i.deep_labels(args[0], 1))
        return f
    b_float = num('float')
    b_int = num('int')
    _float = num('float')

    def b_round(self, args, kwargs, node, fr):
        v = self._float(args, kwargs, node, fr)
        return Val([a if isinstance(a, Opaque) and len(args) == 1 and not kwargs and args[0].atoms == {Opaque('int', a.tag)}
                    else Opaque(a.t) if isinstance(a, Opaque) else a for a in v.atoms], v.labels)

    def b_abs(self, args, kwargs, node, fr):
        v = self._float(args, kwargs, node, fr)
        return Val([Opaque(a.t) if isinstance(a, Opaque) and a.tag != POSITIVE else a for a in v.atoms], v.labels)
    del num

    def b_bool(self, args, kwargs, node, fr):
        return Val([Const(x) for x in self.i.truth(args[0], node, fr)], args[0].labels)

    def b_pow(self, args, kwargs, node, fr):
        return O('float', self.labels(args))

    def b_print(self, args, kwargs, node, fr):
        return NONE

    def b_hex(self, args, kwargs, node, fr):
        return O('str', self.labels(args))

    def b_object(self, args, kwargs, node, fr):
        return Val([self.i.alloc('ext', 'object', node, fr)])

    def b_property(self, args, kwargs, node, fr):
        return O('any')

    b_staticmethod = b_classmethod = b_property

    def b_dict(self, args, kwargs, node, fr, cls='dict'):
        o = self.new('dict', cls, node, fr)
        for a in args:
            self.dict_update(o, a, node, fr)
        for k, v in kwargs.items():
            self.i.write(o, 'k:' + repr(k), v)
        return Val([o])

    def d_dict(self, args, kwargs, node, fr):
        return self.b_dict(args, kwargs, node, fr, 'OrderedDict')

    def d_edict(self, args, kwargs, node, fr):
        return self.b_dict(args, kwargs, node, fr, 'edict')

    def d_chainmap(self, args, kwargs, node, fr):
        o = self.new('dict', 'ChainMap', node, fr)
        for a in args:
            self.dict_update(o, a, node, fr)
        return Val([o])

    def d_ziplong(self, args, kwargs, node, fr):
        o = self.new('iter', 'generator', node, fr)
        items = [join(self.elems(a, node, fr)[0], kwargs.get('fillvalue', NONE)) for a in args]
        self.i.write(o, 'elem', Val([Tup(items)]))
        return Val([o])

    def d_counter(self, args, kwargs, node, fr):
        o = self.new('dict', 'Counter', node, fr)
        for a in args:
            e, _ = self.elems(a, node, fr)
            if e.atoms:
                self.i.dict_set(o, e, O('int'))
        return Val([o])

    def d_defaultdict(self, args, kwargs, node, fr):
        o = self.new('dict', 'defaultdict', node, fr)
        if args:
            self.i.write(o, '?factory', args[0])
            for a in args[1:]:
                self.dict_update(o, a, node, fr)
        return Val([o])

    def b_open(self, args, kwargs, node, fr):
        o = self.i.alloc('ext', 'file', node, fr)
        return Val([o])

    def b_super(self, args, kwargs, node, fr):
        return O('any')

    # dnutils & co
    def d_ifnone(self, args, kwargs, node, fr):
        x = args[0]
        tr = args[2] if len(args) > 2 else kwargs.get('transform')
        other = args[1] if len(args) > 1 else BOT
        nn = Val([a for a in x.atoms if not (isinstance(a, Const) and a.v is None)], x.labels)
        isn = any(isinstance(a, Const) and a.v is None or isinstance(a, Opaque) and a.t == 'any' for a in x.atoms)
        return self.if_(nn, isn, tr, other, node, fr)

    def if_(self, nn, isn, tr, other, node, fr):
        out = BOT
        if nn.atoms:
            if tr is not None and not (tr.atoms == NONE.atoms):
                try:
                    out = join(out, self.i.call(tr, [nn], {}, node, fr))
                except Abort:
                    pass
            else:
                out = nn
        if isn:
            out = join(out, other)
        if out.bot:
            raise Abort()
        return out

    def d_ifnot(self, args, kwargs, node, fr):
        x = args[0]
        keep = [a for a in x.atoms if True in self.i.truth(Val([a]), node, fr)]
        isn = any(False in self.i.truth(Val([a]), node, fr) for a in x.atoms)
        if self.i.branches is not None and keep and isn:
            self.i.branches.append((fr.fn, node, x))
        return self.if_(Val(keep, x.labels), isn, args[2] if len(args) > 2 else kwargs.get('transform'), args[1] if len(args) > 1 else BOT, node, fr)

    def d_ifstr(self, args, kwargs, node, fr):
        x = args[0]
        iss = [a for a in x.atoms if isinstance(a, Const) and isinstance(a.v, str) or isinstance(a, Opaque) and a.t in ('str', 'any')]
        out = Val([a for a in x.atoms if a not in iss], x.labels)
        if iss:
            try:
                out = join(out, self.i.call(args[1], [Val(iss, x.labels)], {}, node, fr))
            except Abort:
                pass
        if out.bot:
            raise Abort()
        return out

    def d_first(self, args, kwargs, node, fr):
        e, me = self.elems(args[0], node, fr)
        tr = args[1] if len(args) > 1 else kwargs.get('transform')
        if e.atoms and tr is not None and tr.atoms != NONE.atoms:
            e = self.i.call(tr, [e], {}, node, fr)
        other = args[2] if len(args) > 2 else kwargs.get('else_')
        if me:
            e = join(e, other if other is not None else NONE)
        if e.bot:
            raise Abort()
        return e

    def d_first0(self, args, kwargs, node, fr):
        return self.idx(args[0], 0, node, fr)

    def d_snd(self, args, kwargs, node, fr):
        return self.idx(args[0], 1, node, fr)

    def idx(self, v, k, node, fr):
        out = BOT
        for a in v.atoms:
            try:
                if isinstance(a, Obj) and a.kind == 'iter':
                    e, _ = self.elems(Val([a]), node, fr)
                    out = join(out, e)
                else:
                    out = join(out, self.i.load_item_atom(a, C(k), ast.Constant(value=k), node, fr, v.labels))
            except Abort:
                pass
        if out.bot:
            raise Abort()
        return out

    def d_mapstr(self, args, kwargs, node, fr):
        e, _ = self.elems(args[0], node, fr)
        return Val([self.new('list', 'list', node, fr, O('str', e.labels))])

    def d_pairwise(self, args, kwargs, node, fr):
        e, me = self.elems(args[0], node, fr)
        o = self.new('iter', 'generator', node, fr)
        if e.atoms:
            self.i.write(o, 'elem', Val([Tup([e, e])]))
        return Val([o])

    def d_tee(self, args, kwargs, node, fr):
        e, me = self.elems(args[0], node, fr)
        o = self.new('iter', 'generator', node, fr, e)
        return Val([Tup([Val([o]), Val([o])])])

    def d_chain(self, args, kwargs, node, fr):
        o = self.new('iter', 'generator', node, fr)
        ne = False
        for a in args:
            e, me = self.elems(a, node, fr)
            if e.atoms:
                self.i.write(o, 'elem', e)
            ne = ne or (not me and bool(e.atoms))
        if ne:
            self.i.write(o, '?ne', TRUE)
        return Val([o])

    def d_chain_fi(self, args, kwargs, node, fr):
        e, _ = self.elems(args[0], node, fr)
        e2, _ = self.elems(e, node, fr)
        return Val([self.new('iter', 'generator', node, fr, e2)])

    def d_product(self, args, kwargs, node, fr):
        o = self.new('iter', 'generator', node, fr)
        es = [self.elems(a, node, fr)[0] for a in args]
        if es and all(e.atoms for e in es):
            l = self.new('list', 'tuple', node, fr, joinall(es)) if True else None
            self.i.write(o, 'elem', Val([Tup(es)]) if len(es) > 1 else Val([l]))
        return Val([o])

    def d_aslist0(self, args, kwargs, node, fr):
        e, _ = self.elems(args[0], node, fr)
        return Val([self.new('iter', 'generator', node, fr, e)])

    def d_list1(self, args, kwargs, node, fr):
        e, _ = self.elems(args[1], node, fr)
        return Val([self.new('list', 'list', node, fr, e)])

    def d_repeat(self, args, kwargs, node, fr):
        return Val([self.new('iter', 'generator', node, fr, args[0])])

    def d_attrgetter(self, args, kwargs, node, fr):
        return Val([Partial('attrgetter', tuple(c for v in args for c in v.consts()))])

    def d_itemgetter(self, args, kwargs, node, fr):
        return Val([Partial('itemgetter', tuple(c for v in args for c in v.consts()))])

    def d_ident(self, args, kwargs, node, fr):
        return args[0]

    def d_jdumps(self, args, kwargs, node, fr):
        return args[0]

    def d_dump(self, args, kwargs, node, fr):
        f = args[1] if len(args) > 1 else kwargs.get('fp', BOT)
        for o in f.objs():
            self.i.write(o, 'elem', args[0])
        self.i.write(Obj('ext', 'filesystem', ('fs',), 'global', 'fs'), 'elem', args[0])
        return NONE

    def d_load(self, args, kwargs, node, fr):
        return self.i.field(Obj('ext', 'filesystem', ('fs',), 'global', 'fs'), 'elem', O('any'))

    def d_copy(self, args, kwargs, node, fr):
        i = self.i
        out = BOT
        for a in args[0].atoms:
            if isinstance(a, Obj) and a.kind != 'class':
                if a.kind == 'inst':
                    m = i.find_method(a, '__copy__')
                    if m is not None:
                        out = join(out, i.call_fn(m, [Val([a])], {}, node, fr))
                        continue
                o = i.alloc(a.kind, a.cls, node, fr)
                for k, v in list(i.fields(a).items()):
                    i.write(o, k, v)
                out = join(out, Val([o]))
            else:
                out = join(out, Val([a]))
        return out

    def d_deepcopy(self, args, kwargs, node, fr):
        i = self.i
        memo = {}

        def go(v, depth):
            out = set()
            for a in v.atoms:
                if isinstance(a, Obj) and a.kind != 'class':
                    m = i.find_method(a, '__deepcopy__') if a.kind == 'inst' else None
                    if m is not None:
                        out |= i.call_fn(m, [Val([a]), O('any')], {}, node, fr).atoms
                        continue
                    if a not in memo:
                        o = i.alloc(a.kind, a.cls, node, fr, (a.site,) if depth < 6 else ())
                        memo[a] = o
                        for k, x in list(i.fields(a).items()):
                            i.write(o, k, go(x, depth + 1))
                    out.add(memo[a])
                elif isinstance(a, Tup):
                    out.add(Tup([go(x, depth) for x in a.items]))
                else:
                    out.add(a)
            return Val(out, v.labels)
        return go(args[0], 0)

    def d_frame(self, args, kwargs, node, fr):
        o = self.i.alloc('ext', 'DataFrame', node, fr)
        l = self.labels(args, kwargs)
        self.i.write(o, 'elem', O('any', l))
        return Val([o])

    def d_series(self, args, kwargs, node, fr):
        o = self.i.alloc('ext', 'Series', node, fr)
        l = self.labels(args, kwargs)
        self.i.write(o, 'elem', O('any', l))
        return Val([o])

    def d_any(self, args, kwargs, node, fr):
        return O('any', self.labels(args, kwargs))

    def d_str(self, args, kwargs, node, fr):
        return O('str', self.labels(args, kwargs))

    def d_bool(self, args, kwargs, node, fr):
        return O('bool', self.labels(args, kwargs))

    def d_none(self, args, kwargs, node, fr):
        return NONE

    def d_logger(self, args, kwargs, node, fr):
        return Val([Ext('logger')])

    def d_snd_arg(self, args, kwargs, node, fr):
        return args[1]

    def d_pick(self, args, kwargs, node, fr):
        return joinall(args)

    def d_reduce(self, args, kwargs, node, fr):
        i = self.i
        e, me = self.elems(args[1], node, fr)
        acc = args[2] if len(args) > 2 else e
        if e.atoms:
            for _ in range(2):
                try:
                    acc = join(acc, i.call(args[0], [acc, e], {}, node, fr))
                except Abort:
                    break
        if acc.bot:
            raise Abort()
        return acc

    def d_heappush(self, args, kwargs, node, fr):
        for o in args[0].objs():
            self.i.mutate(o, 'elem', args[1], node, fr, 'heappush')
            self.i.write(o, 'elem', args[1])
        self.order_elems(args[0], node, fr)
        return NONE

    def d_heappop(self, args, kwargs, node, fr):
        for o in args[0].objs():
            self.i.mutate(o, 'elem', BOT, node, fr, 'heappop')
            self.i.shrunk.add(o)
        self.order_elems(args[0], node, fr)
        e, me = self.elems(args[0], node, fr)
        if e.bot:
            raise Abort()
        return e

    def d_heapify(self, args, kwargs, node, fr):
        for o in args[0].objs():
            self.i.mutate(o, 'elem', BOT, node, fr, 'heapify')
        self.order_elems(args[0], node, fr)
        return NONE

    def d_heapreplace(self, args, kwargs, node, fr):
        self.d_heappush(args, kwargs, node, fr)
        return self.d_heappop(args, kwargs, node, fr)

    def d_shuffle(self, args, kwargs, node, fr):
        for o in args[0].objs():
            self.i.mutate(o, 'elem', BOT, node, fr, 'shuffle')
        return NONE

    # -- attributes of containers ------------------------------------------------------------------
    def container_attr(self, a, name, node, fr, labels):
        i = self.i
        if a.kind == 'ndarray':
            if name == 'T':
                return Val([a], labels)
            if name in ('shape',):
                return Val([Opaque('shape')], labels)
            if name in ('size', 'ndim', 'nbytes', 'itemsize'):
                return O('int', labels)
            if name in ('dtype', 'flags', 'base'):
                return O('any')
            if name == 'flat':
                return Val([a], labels)
            if name not in NDARRAY_ATTRS:
                raise Abort()
            return Val([ExtM(a, name)], labels)
        if a.kind == 'ext':
            if a.cls in ('DataFrame', 'Series'):
                if name in DF_ALIAS_ATTR:
                    return Val([a], labels)
                if name in ('columns', 'index', 'shape', 'dtypes', 'dtype', 'size', 'empty', 'ndim', 'name'):
                    return O('any', i.deep_labels(Val([a])) | labels)
            if not getattr(node, '_iscall', False):
                if a.cls in ('DataFrame', 'Series'):
                    if name in INTERVAL_ATTRS:
                        raise Abort()
                return O('any', i.deep_labels(Val([a])) | labels)
            return Val([ExtM(a, name)], labels)
        if a.kind in ('exc',):
            f = i.field(a, name)
            return f if f is not None else O('any')
        f = i.field(a, name)
        if a.kind == 'iter' and name in ('lower', 'start', 'stop', 'step'):
            return O('int')
        return Val([ExtM(a, name)], labels)

    # -- method calls on non-repository values ------------------------------------------------------
    def call_method(self, m, args, kwargs, node, fr, star, starstar):
        ret = self.call_known_method(m, args, kwargs, node, fr, star, starstar)
        if m.name in ('sample', 'shuffle', 'rvs', 'now', 'today', 'timestamp', 'time'):
            for h in self.i.hooks:
                f = getattr(h, 'on_ext', None)
                if f:
                    r = f(self.i, fr, node, '.' + m.name, args, kwargs, ret)
                    if r is not None:
                        ret = r
        return ret

    def call_known_method(self, m, args, kwargs, node, fr, star, starstar):
        i = self.i
        r, name = m.recv, m.name
        labels = self.labels(args, kwargs)
        if isinstance(r, Val):
            # opaque scalar / constant / type
            l2 = labels | r.labels
            for a in r.atoms:
                if isinstance(a, Const) and isinstance(a.v, str) or isinstance(a, Opaque) and a.t == 'str':
                    if name == 'join' and args:
                        e, _ = self.elems(args[0], node, fr)
                        return O('str', l2 | e.labels)
                    if name in ('split', 'rsplit', 'splitlines'):
                        return Val([self.new('list', 'list', node, fr, O('str', l2))])
                    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric'):
                        return Val(BOOL.atoms, l2)
                    if name in ('index', 'find', 'count'):
                        return O('int', l2)
                    if name == 'encode':
                        return O('any', l2)
                    if name == 'format' and isinstance(a, Const):
                        return O('str', l2)
                    return O('str', l2)
                if isinstance(a, Opaque) and a.t == 'any':
                    if name == 'get' and len(args) > 1:
                        return join(O('any', l2), args[1])
                    # value of unknown type: assume a pure method
                    return O('any', l2)
                if isinstance(a, Tup):
                    if name == 'index' or name == 'count':
                        return O('int', l2)
                    raise Abort()
                return O('any', l2)
            return O('any', l2)
        if isinstance(r, ClassRef) or (isinstance(r, Obj) and r.kind == 'class'):
            if name.startswith('super.'):
                name = name[6:]
            if name == 'mro':
                return O('any')
            if name in ('__new__',):
                if args:
                    cls = args[0]
                    return Val([i.alloc('inst', c, node, fr) for c in cls.atoms if isinstance(c, (ClassRef, Obj))])
            return O('any', labels)
        if isinstance(r, Obj):
            if name.startswith('super.'):
                return self.super_method(r, name[6:], args, kwargs, node, fr)
            if name == '__dict__':
                return O('any')
            if r.kind == 'dict':
                return self.dict_method(r, name, args, kwargs, node, fr)
            if r.kind in ('list', 'iter'):
                return self.list_method(r, name, args, kwargs, node, fr)
            if r.kind == 'set':
                return self.set_method(r, name, args, kwargs, node, fr)
            if r.kind == 'ndarray':
                return self.arr_method(r, name, args, kwargs, node, fr)
            if r.kind == 'ext':
                return self.ext_method(r, name, args, kwargs, node, fr)
            if r.kind == 'inst':
                return self.super_method(r, name, args, kwargs, node, fr)
        return O('any', labels)

    def super_method(self, r, name, args, kwargs, node, fr):
        i = self.i
        if name == '__init__':
            if r.kind == 'dict':
                for a in args:
                    self.dict_update(r, a, node, fr)
                for k, v in kwargs.items():
                    i.write(r, 'k:' + repr(k), v)
            return NONE
        if name == '__getattribute__':
            cs = self.consts_of(args[0])
            if cs and len(cs) == 1:
                return i.load_attr(Val([r]), cs[0], node, fr, no_getattr=True)
            return O('any')
        if name == '__setattr__':
            cs = self.consts_of(args[0])
            if cs:
                for c in cs:
                    i.store_attr(Val([r]), c, args[1], node, fr)
            return NONE
        if r.kind == 'dict':
            return self.dict_method(r, name, args, kwargs, node, fr)
        if name in ('__eq__', '__ne__'):
            return BOOL
        if name in ('__hash__', '__sizeof__'):
            return O('int')
        if name in ('__str__', '__repr__'):
            return O('str')
        if name in ('__reduce__', '__reduce_ex__'):
            return O('any')
        if name in ('keys', '__dict__'):
            return O('any')
        # a method inherited from a class outside the repository
        return O('any', self.labels(args, kwargs) | i.deep_labels(Val([r]), 1))

    def dict_method(self, r, name, args, kwargs, node, fr):
        i = self.i
        if name in ('items', 'iteritems'):
            o = self.new('iter', 'dict_items', node, fr)
            e = i.dict_items(r)
            if e.atoms:
                i.write(o, 'elem', e)
            if i.filled(r) and e.atoms:
                i.write(o, '?ne', TRUE)
            return Val([o])
        if name in ('keys', '__iter__'):
            o = self.new('iter', 'dict_keys', node, fr)
            e = i.dict_keys(r)
            if e.atoms:
                i.write(o, 'elem', e)
            if i.filled(r) and e.atoms:
                i.write(o, '?ne', TRUE)
            return Val([o])
        if name == 'values':
            o = self.new('iter', 'dict_values', node, fr)
            e = i.dict_vals(r)
            if e.atoms:
                i.write(o, 'elem', e)
            if i.filled(r) and e.atoms:
                i.write(o, '?ne', TRUE)
            return Val([o])
        if name in ('get', '__getitem__'):
            v = i.dict_get(r, args[0])
            if name == 'get':
                v = join(v, args[1] if len(args) > 1 else kwargs.get('default', NONE))
            elif v.bot:
                i.note_raise(fr, 'KeyError', [node])
                raise Abort()
            return v
        if name in ('__setitem__',):
            i.mutate(r, 'k', args[1], node, fr, 'setitem')
            i.dict_set(r, args[0], args[1])
            return NONE
        if name == '__contains__':
            res, lab = self.contains(args[0], Val([r]), node, fr) if isinstance(r.cls, str) else ({True, False}, NOLABELS)
            return Val([Const(x) for x in res], lab)
        if name == '__len__':
            return O('int')
        if name == 'setdefault':
            i.mutate(r, 'k', args[1] if len(args) > 1 else NONE, node, fr, 'setdefault')
            i.dict_set(r, args[0], args[1] if len(args) > 1 else NONE)
            return i.dict_get(r, args[0])
        if name in ('update', '__ior__'):
            i.mutate(r, 'k', joinall(args), node, fr, 'update')
            for a in args:
                self.dict_update(r, a, node, fr)
            for k, v in kwargs.items():
                i.write(r, 'k:' + repr(k), v)
            return NONE
        if name in ('pop', 'popitem', '__delitem__', 'clear'):
            i.mutate(r, 'k', BOT, node, fr, name)
            i.shrunk.add(r)
            if name == 'pop':
                v = i.dict_get(r, args[0])
                if len(args) > 1:
                    v = join(v, args[1])
                if v.bot:
                    raise Abort()
                return v
            if name == 'popitem':
                return Val([Tup([i.dict_keys(r), i.dict_vals(r)])])
            return NONE
        if name == 'move_to_end':
            i.mutate(r, 'k', BOT, node, fr, name)
            return NONE
        if name == 'copy':
            o = i.alloc('dict', r.cls, node, fr)
            self.dict_update(o, Val([r]), node, fr)
            f = i.field(r, '?factory')
            if f is not None:
                i.write(o, '?factory', f)
            return Val([o])
        if name == 'fromkeys':
            o = self.new('dict', 'dict', node, fr)
            e, _ = self.elems(args[0], node, fr)
            i.dict_set(o, e, args[1] if len(args) > 1 else NONE)
            return Val([o])
        if name in ('__init__',):
            return self.super_method(r, name, args, kwargs, node, fr)
        return O('any', i.deep_labels(Val([r]), 1))

    def list_method(self, r, name, args, kwargs, node, fr):
        i = self.i
        if name in ('append', 'appendleft', 'push_back', 'push_front', 'add', 'push'):
            i.mutate(r, 'elem', args[0], node, fr, name)
            i.write(r, 'elem', args[0])
            return NONE
        if name == 'insert':
            i.mutate(r, 'elem', args[1], node, fr, name)
            i.write(r, 'elem', args[1])
            return NONE
        if name in ('extend', 'extendleft', '__iadd__'):
            i.mutate(r, 'elem', args[0], node, fr, name)
            e, _ = self.elems(args[0], node, fr)
            if e.atoms:
                i.write(r, 'elem', e)
            return NONE
        if name in ('pop', 'popleft'):
            i.mutate(r, 'elem', BOT, node, fr, name)
            i.shrunk.add(r)
            v = i.all_elems(r)
            if v.bot:
                raise Abort()
            return v
        if name in ('front', 'back', 'top', '__next__'):
            v = i.all_elems(r)
            if v.bot:
                raise Abort()
            return v
        if name in ('remove', 'clear', 'pop_front', 'pop_back'):
            i.mutate(r, 'elem', BOT, node, fr, name)
            i.shrunk.add(r)
            return NONE
        if name == 'erase':
            i.mutate(r, 'elem', BOT, node, fr, name)
            return NONE
        if name in ('sort', 'reverse', 'rotate'):
            i.mutate(r, 'elem', BOT, node, fr, name)
            if name == 'sort' and 'key' in kwargs:
                e = i.all_elems(r)
                if e.atoms:
                    try:
                        i.call(kwargs['key'], [e], {}, node, fr)
                    except Abort:
                        pass
            elif name == 'sort':
                self.order_elems(Val([r]), node, fr)
            return NONE
        if name == 'copy':
            o = i.alloc('list', r.cls, node, fr)
            for k, v in list(i.fields(r).items()):
                i.write(o, k, v)
            return Val([o])
        if name in ('index', 'count', '__len__', 'size'):
            return O('int')
        if name == '__iter__':
            return Val([r])
        if name == '__getitem__':
            return i.all_elems(r)
        if name == 'empty':
            return BOOL
        if r.kind == 'iter' and name in ('read', 'close', 'send', 'throw'):
            return NONE
        if name in ('isdisjoint', 'union', 'intersection'):
            return self.set_method(r, name, args, kwargs, node, fr)
        raise Abort()

    def set_method(self, r, name, args, kwargs, node, fr):
        i = self.i
        e = i.all_elems(r)
        oe = BOT
        for a in args:
            oe = join(oe, self.elems(a, node, fr)[0]) if name not in ('add', 'discard', 'remove') else oe
        for h in i.hooks:
            f = getattr(h, 'on_set', None)
            if f:
                f(i, fr, node, name, e, args[0] if name == 'add' else oe)
        if name == 'add':
            i.mutate(r, 'elem', args[0], node, fr, name)
            i.write(r, 'elem', args[0])
            i.sizes.pop(r, None)
            return NONE
        if name in ('update', '__ior__'):
            i.sizes.pop(r, None)
            i.mutate(r, 'elem', oe, node, fr, name)
            if oe.atoms:
                i.write(r, 'elem', oe)
            return NONE
        if name in ('discard', 'remove', 'pop', 'clear', 'intersection_update', 'difference_update', 'symmetric_difference_update'):
            i.mutate(r, 'elem', BOT, node, fr, name)
            i.shrunk.add(r)
            return e if name == 'pop' else NONE
        if name in ('union', 'symmetric_difference'):
            return Val([self.new('set', 'set', node, fr, join(e, oe))])
        if name == 'intersection':
            # elements of both
            return Val([self.new('set', 'set', node, fr, e)])
        if name == 'difference':
            return Val([self.new('set', 'set', node, fr, e)])
        if name == 'copy':
            return Val([self.new('set', r.cls, node, fr, e)])
        if name in ('issubset', 'issuperset', 'isdisjoint', '__contains__'):
            return Val(BOOL.atoms, e.labels | oe.labels)
        if name == '__len__':
            return O('int')
        raise Abort()

    def arr_method(self, r, name, args, kwargs, node, fr):
        i = self.i
        e = i.field(r, 'elem', O('float'))
        labels = e.labels | self.labels(args, kwargs)
        if name in ARR_ALIAS:
            return Val([r], labels)
        if name in ARR_FRESH:
            if name == 'astype':
                e = narrowed(e, kwargs.get('dtype', args[0] if args else None))
            elif name not in ('copy', 'flatten', 'take', 'repeat', 'compress'):
                e = untag(e)
            return Val([self.new('ndarray', 'ndarray', node, fr, e.with_labels(labels))])
        if name in ARR_MUT:
            i.mutate(r, 'elem', BOT, node, fr, name)
            if args and name in ('fill', 'put'):
                i.write(r, 'elem', args[-1])
            return NONE
        if name == 'tolist':
            return Val([self.new('list', 'list', node, fr, e)])
        if name in ('max', 'min', 'sum', 'mean', 'std', 'var', 'item', 'prod'):
            return Val(e.atoms, labels) if name in ('max', 'min', 'item') else O('float', labels)
        if name in ('any', 'all'):
            return O('bool', labels)
        return O('any', labels)

    def ext_method(self, r, name, args, kwargs, node, fr):
        i = self.i
        labels = i.deep_labels(Val([r])) | self.labels(args, kwargs)
        if r.cls in ('DataFrame', 'Series'):
            inplace = kwargs.get('inplace')
            if inplace is not None and any(not isinstance(a, Const) or a.v for a in inplace.atoms) or name in DF_MUT:
                i.mutate(r, 'elem', BOT, node, fr, name + '(inplace)')
                return NONE
            if name in ('to_numpy',):
                return Val([r], labels)
            if name in ('astype', 'copy', 'reset_index', 'drop', 'dropna', 'fillna', 'rename', 'sample', 'apply', 'head', 'tail', 'sort_values', 'map',
                        'replace', 'transform', 'select_dtypes', 'iterrows', 'groupby', 'round', 'infer_objects'):
                if name in ('apply', 'map', 'transform') and args:
                    try:
                        i.call(args[0], [O('any', labels)], {}, node, fr)
                    except Abort:
                        pass
                if name in ('map', 'transform') and 'inplace' not in kwargs:
                    pass
                o = i.alloc('ext', r.cls, node, fr)
                i.write(o, 'elem', O('any', labels))
                return Val([o])
            if name in ('isin', 'isna', 'isnull', 'notna', 'notnull', 'between', 'duplicated', 'eq', 'ne', 'lt', 'gt', 'le', 'ge'):
                return Val([self.new('ndarray', 'ndarray', node, fr, O('bool', labels))])
            if name in ('unique',):
                return Val([self.new('ndarray', 'ndarray', node, fr, O('any', labels))])
            return O('any', labels)
        if r.cls == 'file':
            if name == 'write':
                for a in args:
                    i.write(Obj('ext', 'filesystem', ('fs',), 'global', 'fs'), 'elem', a)
                return O('int')
            if name in ('read', 'readline'):
                return i.field(Obj('ext', 'filesystem', ('fs',), 'global', 'fs'), 'elem', O('any'))
            return O('any')
        return O('any', labels)
