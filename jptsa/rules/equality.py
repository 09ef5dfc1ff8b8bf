"""C12: what equality and hashing look at.

Objects of every value class are built from parameters with labels of their own; the labels that reach `a == b` are what equality compares, those that reach
`hash(a)` are what the hash looks at."""
import ast
import re

from ..absint import Const, O, Obj, Tup, Val
from ..ctx import Failure, fork_map
from ..driver import Session
from ..program import ClassRef, FuncRef
from .depends import deep

# class -> an expression that makes an object; <name:type> are its parameters, <name:type!> those that nobody compares
VARS = '[make_num(), make_sym()]'
MAKERS = {
    'ContinuousSet': 'ContinuousSet(<lower:float>, <upper:float>, <left:int>, <right:int>)',
    'RealSet': 'RealSet([ContinuousSet(<lower:float>, <upper:float>, <left:int>, <right:int>), ContinuousSet(<lower2:float>, <upper2:float>)])',
    'ConstantFunction': 'ConstantFunction(<value:float>)',
    'LinearFunction': 'LinearFunction(<slope:float>, <intercept:float>)',
    'QuadraticFunction': 'QuadraticFunction(<a:float>, <b:float>, <c:float>)',
    'PiecewiseFunction': 'PiecewiseFunction.from_dict({ContinuousSet(<lower:float>, <upper:float>): LinearFunction(<slope:float>, <intercept:float>)})',
    'QuantileDistribution': 'mk_quantile(<epsilon:float>, <min_samples_mars:int>, <verbose:bool!>, <cdf:float>)',
    'Numeric': 'Numeric().set(mk_quantile(<epsilon:float>, <min_samples_mars:int>, <verbose:bool!>, <cdf:float>))',
    'Multinomial': "SYM().set([<probability:float>, <probability:float>])",
    'Integer': "INTT().set([<probability:float>, <probability:float>])",
    'NumericVariable': 'NumericVariable(<name:str>, Numeric, min_impurity_improvement=<min_impurity_improvement:float>, blur=<blur:float>, '
                       'max_std=<max_std:float>, precision=<precision:float>)',
    'SymbolicVariable': 'SymbolicVariable(<name:str>, SYM, min_impurity_improvement=<min_impurity_improvement:float>, invert_impurity=<invert_impurity:bool>)',
    'IntegerVariable': 'IntegerVariable(<name:str>, INTT, min_impurity_improvement=<min_impurity_improvement:float>)',
    'VariableMap': 'VariableMap([(VAR(<key:str>), <value:float>)], variables=[V0, VAR(<variable:str>)])',
    'LabelAssignment': 'LabelAssignment([(VAR(<key:str>), <value:float>)], variables=[V0, VAR(<variable:str>)])',
    'ValueAssignment': 'ValueAssignment([(VAR(<key:str>), <value:float>)], variables=[V0, VAR(<variable:str>)])',
    'SymbolicType': 'SymbolicType(<name:str>, [<label:str>, <label:str>])',
    'IntegerType': 'IntegerType(<name:str>, <lmin:int>, <lmax:int>)',
    'NumericType': 'NumericType(<name:str>, [<datum:float>, <datum:float>])',
    'DataScaler': 'mk_scaler(<mean:float>, <scale:float>)',
    'DataScalerProxy': 'DataScalerProxy(mk_scaler(<mean:float>, <scale:float>), <inverse:bool>)',
    'Leaf': 'mk_leaf(<idx:int>, <prior:float>, <samples:int>, <distributions:float>)',
    'DecisionNode': 'mk_node(<idx:int>, <variable:str>, <samples:int>, <splits:int>, <child:int>)',
    'JPT': 'mk_tree(VAR(<variable:str>), <targets:str>, <features:str>, <min_samples_leaf:int>, <min_impurity_improvement:float>, <max_leaves:int>, '
           '<max_depth:int>, <dependencies:str>, <leaf:float>, <prior distribution:float>, <minimal distance:float!>)',
}
CLIENT = '''
from jpt.base.functions import LinearFunction, QuadraticFunction, ConstantFunction
from jpt.distributions.utils import DataScaler, DataScalerProxy
SYM = SymbolicType('SymT', ['a', 'b'])
INTT = IntegerType('IntT', 1, 2)
V0 = NumericVariable('v0', Numeric)
V1 = NumericVariable('v1', Numeric)
V2 = NumericVariable('v2', Numeric)

def VAR(name):
    return NumericVariable(name, Numeric)

def mk_quantile(epsilon, min_samples_mars, verbose, cdf):
    q = QuantileDistribution(epsilon, min_samples_mars, verbose)
    q.cdf = PiecewiseFunction.from_dict({ContinuousSet(0, 1): LinearFunction(cdf, cdf)})
    return q

def mk_scaler(mean, scale):
    s = DataScaler()
    s.mean = mean
    s.scale = scale
    return s

def mk_leaf(idx, prior, samples, distributions):
    l = Leaf(idx, None, prior)
    l.samples = samples
    l.distributions[V0] = SYM().set([distributions, distributions])
    return l

def mk_node(idx, variable, samples, splits, child):
    n = DecisionNode(idx, SymbolicVariable(variable, SYM))
    n.samples = samples
    n.splits = [{splits}, {splits}]
    n.set_child(0, Leaf(child, n, 0.5))
    return n

def mk_tree(v, targets, features, min_samples_leaf, min_impurity_improvement, max_leaves, max_depth, dependencies, leaf, prior, distance):
    ds = {V0: [VAR(dependencies)]}
    t = JPT([v, V0, V1, V2], [VAR(targets)], [VAR(features)], min_samples_leaf, min_impurity_improvement, max_leaves, max_depth, ds)
    t.leaves[0] = Leaf(0, None, leaf)
    t.priors[V0] = SYM().set([prior, prior])
    t.minimal_distances[V0] = distance
    return t

def c_eq(a, b):
    return a == b

def c_ne(a, b):
    return a != b

def c_hash(a):
    return hash(a)

def c_equiv(a, b):
    return a.equiv(b)

def c_typehash(a):
    return a.hash()
'''
HOLE = re.compile(r'<([^:<>]+):(\w+)(!?)>')
TYPES = ('SymbolicType', 'IntegerType', 'NumericType')
UNHASHED = ('VariableMap', 'LabelAssignment', 'ValueAssignment')


def program():
    text, gl = CLIENT, {}
    for c, e in MAKERS.items():
        for side in 'AB':
            def sub(m):
                g = 'L_%s_%s_%s' % (side, re.sub(r'\W', '_', m.group(1)), m.group(2))
                ls = frozenset([m.group(1) + ("'" if side == 'B' else '')])
                if m.group(2) == 'bool':
                    gl[g] = Val([Const(True), Const(False)], ls)
                else:
                    gl[g] = O(m.group(2), ls)
                return g
            text += '\n\ndef mk_%s_%s():\n    return %s\n' % (side, c, HOLE.sub(sub, e))
    return text, gl


class Zips:
    """equality that walks over two sequences in parallel has to look at their lengths, too"""
    def __init__(self):
        self.zips, self.lens, self.pairs = {}, set(), set()
        self.mode, self.reads, self.names, self.identity = None, {}, {}, {}

    def on_load_attr(self, I, fr, node, base, name, out):
        if self.mode:
            self.names.setdefault(self.mode, set()).add(name)
            for a in base.atoms:
                if isinstance(a, Obj) and a.kind == 'inst' and isinstance(a.cls, ClassRef):
                    self.reads.setdefault(self.mode, {}).setdefault((a.cls, name), getattr(node, 'lineno', 0))
        return None

    def by_identity(self, v):
        """what a hash of v takes from the identity of an object, not from what it is made of"""
        for a in v.atoms:
            if isinstance(a, Tup):
                for x in a.items:
                    yield from self.by_identity(x)
            elif isinstance(a, Obj) and a.kind in ('iter', 'gen', 'generator'):
                yield 'an iterator'
            elif isinstance(a, FuncRef) and a.closure is not None:
                yield 'a function made on the way'

    def on_compare(self, I, fr, node, op, l, r, out):
        self.pair(I, l, r)

    def pair(self, I, l, r):
        l, r = deep(I, l), deep(I, r)
        for x, y in ((l, r), (r, l)):
            self.pairs.update(p for p in x if p + "'" in y)

    def on_ext(self, I, fr, node, name, args, kwargs, ret):
        fn = fr.fn if fr is not None else None
        if self.mode == 'c_hash' and fn is not None and fn.cls is not None and args:
            short = name.rpartition('.')[2]
            what = []
            if short == 'id' and any(isinstance(a, Obj) and a.kind in ('inst', 'list', 'dict', 'set', 'iter') for a in args[0].atoms):
                what = ['id()']
            elif short == 'hash':
                what = list(self.by_identity(args[0]))
            for w in what:
                self.identity['%s.%s: %s' % (fn.cls.name, fn.name, w)] = getattr(node, 'lineno', 0)
        vs = [a for a in list(args) + list((kwargs or {}).values()) if isinstance(a, Val)]
        if len(vs) > 1 and name not in ('hash', 'isinstance', 'zip'):
            for i, v in enumerate(vs):
                for w in vs[i + 1:]:
                    self.pair(I, v, w)
        if fn is None or fn.cls is None or getattr(fn, 'name', '') not in ('__eq__', '__ne__', 'equiv'):
            return None
        if name.rpartition('.')[2] == 'zip' and len(args) >= 2 and not (kwargs or {}).get('strict'):
            self.zips.setdefault(fn, getattr(node, 'lineno', 0))
        elif name.rpartition('.')[2] in ('len', 'zip_longest', '__len__'):
            self.lens.add(fn)


BUILD = {'__init__', '__cinit__', '__new__', '__setstate__', '__hash__'}


def refilled(cls, name):
    """the method of cls that assigns the attribute of an existing object outside its construction, if any"""
    for node in ast.walk(cls.node):
        if not isinstance(node, ast.FunctionDef) or node.name in BUILD or not node.args.args:
            continue
        me = node.args.args[0].arg
        for n in ast.walk(node):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == me:
                        return node.name
    return None


def cached(reads, names):
    """attributes that the hash reads and equality does not, and that methods of the object fill in later"""
    seen = names.get('c_eq', set()) | names.get('c_ne', set())
    out = {}
    for (c, n), line in reads.get('c_hash', {}).items():
        if n not in seen:
            by = refilled(c, n)
            if by:
                out['%s.%s' % (c.name, n)] = '%s (line %s)' % (by, line)
    return out


def analyse(S, c, implicit):
    I = S.i
    I.implicit = implicit
    z = Zips()
    I.hooks.append(z)

    def th():
        I.phase = 'object'
        a = S.w.call('mk_A_' + c)
        I.phase = 'other object'
        b = S.w.call('mk_B_' + c)
        if a is None or b is None:
            return None
        I.phase = 'query'
        out = []
        for n, args in ((('c_equiv', (a, b)), ('c_typehash', (a,))) if c in TYPES else (('c_eq', (a, b)), ('c_ne', (a, b)), ('c_hash', (a,)))):
            z.mode = n
            r = S.w.call(n, *args)
            z.mode = None
            out.append((n, sorted(deep(I, r)) if r is not None else None, sorted(S.w.last_raises)))
        return out
    out = [None]

    def run():
        out[0] = th()
        return None
    I.run(run, max_iter=10)
    return out[0], z.pairs, {'%s.%s' % (f.cls.name, f.name): (l, f in z.lens) for f, l in z.zips.items()}, (z.identity, cached(z.reads, z.names))


def session(root):
    text, gl = program()
    S = Session(root, extra=text, **gl)
    S.i.index = True
    return S


def rule_C12(ctx):
    ctx.rule('dependence analysis of ==, !=, hash (equiv and hash of types): equality depends on every parameter of an object; '
             'the hash depends on no parameter that equality ignores; sequences are not compared by zip without their lengths')
    S = session(ctx.root)
    jobs = {(c, m): None for c in MAKERS for m in (True, False)}
    both = fork_map(lambda k: analyse(S, *k), list(jobs), limit=200)
    res = {}
    for c in MAKERS:
        r, flow = both[c, True], both[c, False]
        res[c] = r if isinstance(r, Failure) else flow if isinstance(flow, Failure) else (r[0], flow[1], r[2], flow[3])
    for c in MAKERS:
        r = res[c]
        if isinstance(r, Failure):
            ctx.skip(c, r.why.strip().split('\n')[-1][:200])
            continue
        if r[0] is None:
            ctx.skip(c, 'the objects cannot be built in the analysis')
            continue
        params = {m.group(1): not m.group(3) for m in HOLE.finditer(MAKERS[c])}
        got = {n: (ls, ra) for n, ls, ra in r[0]}
        ctx.count('classes')
        eq = None
        for n, word in (('c_eq', '=='), ('c_ne', '!='), ('c_equiv', 'equiv')):
            if n not in got:
                continue
            ls, ra = got[n]
            if ls is None:
                ctx.skip('%s %s' % (c, word), 'never returns in the analysis (%s)' % ', '.join(ra))
                continue
            if eq is None:
                eq = {p for p in params if p in ls}
            for p, needed in sorted(params.items()):
                if needed:
                    ctx.ob('%s %s %s' % (c, word, p), p in ls and p + "'" in ls, '%s of two objects of %s cannot depend on %s (of both): objects that differ in it are equal'
                           % (word, c, p))
                    ctx.ob('%s compares %s' % (c, p), p in r[1], 'comparing two objects of %s never compares %s of the one with %s of the other' % (c, p, p))
        for n in ('c_hash', 'c_typehash'):
            if n not in got or eq is None:
                continue
            ls, ra = got[n]
            if ls is None:
                ctx.count('classes that cannot be hashed')
                continue
            extra = sorted(p for p in params if p in ls and p not in eq)
            ctx.ob('%s hash' % c, not extra, 'the hash of %s depends on %s, which equality ignores: equal objects have different hashes'
                   % (c, ', '.join(extra)))
            if n == 'c_hash':
                who, late = r[3]
                ctx.ob('%s hash identity' % c, not who, 'the hash of %s is that of %s (line %s): equal objects have different hashes'
                       % (c, ', '.join(sorted(who)), ', '.join(str(l) for _, l in sorted(who.items()))))
                ctx.ob('%s hash caches' % c, not late, 'the hash of %s depends on %s, which a later call fills in and equality does not look at: the hash of an '
                       'object changes with the queries it has answered' % (c, ', '.join('%s, assigned by %s' % k for k in sorted(late.items()))))
        for f, (line, checked) in r[2].items():
            ctx.ob('%s zip' % f, checked, '%s (line %s) compares two sequences by zip and never looks at their lengths: a prefix is equal to the whole'
                   % (f, line))
    ctx.floor('classes', 12)
