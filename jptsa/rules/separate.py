"""C14: what is made separately is separate.

Every constructor of the public interface is interpreted twice, in two phases. Nothing that the second call makes may reach what the first one made or a mutable object that exists
since the import (default arguments, module constants, class attributes), and neither call may write to such an object."""
from ..absint import NONE
from ..ctx import Failure, fork_map
from ..driver import Session
from ..roundtrip import okname, reachable
from .effects import ARGS

MAKE = {
    'a model': 'JPT(variables=make_vars())',
    'a model with options': 'new_tree(make_vars())',
    'a learned model': 'learned(JPT(variables=make_vars()))',
    'a fitted model': 'JPT(variables=make_vars()).fit(FRAME)',
    'a discriminative model': 'learned(JPT(variables=make_vars(), targets=["num"], min_samples_leaf=MSL))',
    'a model fitted twice': 'twice(JPT(variables=make_vars()))',
    'variables': 'make_vars()',
    'variables of a data frame': 'infer_from_dataframe(FRAME)',
    'a numeric variable': 'NumericVariable("x")',
    'a symbolic variable': 'SymbolicVariable("x", SymbolicType("S", STRS))',
    'an integer variable': 'IntegerVariable("x", IntegerType("I", INT, INT))',
    'a numeric domain': 'NumericType("N", FLOATS)',
    'a symbolic domain': 'SymbolicType("S", STRS)',
    'an integer domain': 'IntegerType("I", INT, INT)',
    'a label assignment': 'LabelAssignment()',
    'a value assignment': 'ValueAssignment()',
    'a filled label assignment': 'LabelAssignment([(make_num(), FLOAT)])',
    'an assignment by binding': 'JPT(variables=make_vars()).bind()',
    'a variable map': 'VariableMap()',
    'a variable map with variables': 'VariableMap(variables=make_vars())',
    'a real set': 'RealSet()',
    'a real set of intervals': 'RealSet([ContinuousSet(FLOAT, FLOAT)])',
    'an interval': 'ContinuousSet(FLOAT, FLOAT)',
    'a parsed interval': 'ContinuousSet.parse(STR)',
    'a piecewise function': 'PiecewiseFunction()',
    'a quantile distribution': 'QuantileDistribution()',
    'a numeric distribution': 'Numeric()',
    'a numeric distribution of data': 'Numeric().fit(ARRAY, None, INT)',
    'a uniform numeric distribution': 'Numeric.uniform(FLOAT, FLOAT)' if False else 'Numeric().create_dirac_impulse(FLOAT)',
    'a scaled distribution': 'NumericType("N", FLOATS)()',
    'a symbolic distribution': 'SymbolicType("S", STRS)()',
    'an integer distribution': 'IntegerType("I", INT, INT)()',
    'a boolean distribution': 'Bool()',
    'a symbolic distribution with parameters': 'SymbolicType("S", STRS)().set(FLOATS)',
    'a leaf': 'Leaf(INT)',
    'a decision node': 'DecisionNode(INT, make_num())',
    'a sequence model': 'SequentialJPT(JPT(variables=make_vars()))',
}
EXTRA = '''
from jpt.sequential_trees import SequentialJPT

def learned(t):
    t.learn(data=FRAME)
    return t

def twice(t):
    t.learn(data=FRAME)
    t.learn(data=FRAME)
    return t
'''
for n, (k, v) in enumerate(MAKE.items()):
    EXTRA += '''
def make_%d(tree):
    return %s
''' % (n, v)
CONSTANTS = ('ContinuousSet',)


def analyse(S, n):
    I = S.i
    I.memo.clear()
    I.mutations.clear()
    out = {}

    def th():
        I.phase = 'first'
        out['first'] = S.w.call('make_%d' % n, NONE)
        I.phase = 'second'
        out['second'] = S.w.call('make_%d' % n, NONE)
        return out
    I.run(th, max_iter=15)
    bad, writes = {}, 0
    for m in I.mutations.values():
        if m['phase'] not in ('first', 'second'):
            continue
        writes += 1
        o = m['obj']
        old = o.phase == 'global' or o.phase == 'first' and m['phase'] == 'second'
        if old and (o.kind, okname(o)) != ('x', 'x'):
            fn = m['fn'].qual if hasattr(m['fn'], 'qual') else '?'
            name = okname(o) if o.kind == 'inst' else o.kind
            bad['%s writes %s' % (fn, name)] = '%s changes %s of %s made at %s, which %s' % (
                fn, m['field'] if o.kind == 'inst' else 'the items', name, o.site[0],
                'exists since the import' if o.phase == 'global' else 'was made by the earlier call')
    r = out.get('second')
    if r is None:
        return None, bad, writes, sorted(S.w.last_raises)
    for o in reachable(I, [r]):
        if o.kind == 'class':
            if o.phase == 'first':
                bad['shares class %s' % okname(o)] = 'shares the domain %s with what an earlier call made' % (o.site,)
            continue
        if o.phase == 'first' or o.phase == 'global' and okname(o) not in CONSTANTS and not part_of_constant(I, o):
            name = okname(o) if o.kind == 'inst' else o.kind
            bad['shares %s of %s' % (name, o.site[0])] = 'shares a %s (made at %s:%s) with %s' % (
                name, o.site[0], o.site[1], 'the module' if o.phase == 'global' else 'what an earlier call made')
    return len(reachable(I, [r])), bad, writes, []


def part_of_constant(I, o):
    return False


def rule_C14(ctx):
    ctx.rule('effect and escape analysis of constructors, learning and domain types: two separate calls share no mutable object and write to none that existed before')
    S = Session(ctx.root, extra=ARGS + EXTRA)
    res = fork_map(lambda n: analyse(S, n), list(range(len(MAKE))), limit=300)
    for n, k in enumerate(MAKE):
        r = res[n]
        if isinstance(r, Failure):
            ctx.skip(k, r.why.strip().split('\n')[0][:200])
            continue
        size, bad, writes, raises = r
        ctx.count('writes examined', writes)
        for b, m in bad.items():
            ctx.bad('%s: %s' % (k, b), 'making %s: %s' % (k, m))
        if size is None:
            ctx.skip(k, 'never returns in the analysis (raises %s)' % ', '.join(raises))
            continue
        ctx.count('constructions analysed')
        ctx.count('objects examined', size)
        if not bad:
            ctx.ok(k, 'shares nothing (%d objects, %d writes)' % (size, writes))
    ctx.floor('constructions analysed', 20)
    ctx.floor('writes examined', 100)
