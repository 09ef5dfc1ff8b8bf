"""C06: what the results of operations share with the model and the arguments they are made from."""
from ..absint import Const, Obj
from ..ctx import Failure, fork_map
from ..driver import Session
from ..roundtrip import okname, reachable
from .effects import ARGS, call_with_inputs, unreached

FRESH = '''
def f_copy(tree):
    return tree.copy()

def f_conditional(tree, e):
    return tree.conditional_jpt(e, fail_on_unsatisfiability=BOOLV)

def f_posterior(tree, v, e):
    return tree.posterior(v, e, fail_on_unsatisfiability=BOOLV)

def f_mpe(tree, e):
    return tree.mpe(e, fail_on_unsatisfiability=BOOLV)

def f_bind(tree, d):
    return tree.bind(d)

def f_leaf_copy(tree):
    return [leaf.copy() for leaf in tree.leaves.values()]

def f_leaf_conditional(tree, v):
    return [leaf.conditional_leaf(v) for leaf in tree.leaves.values()]

def f_num_copy(tree, x):
    return [[ds['num'].copy(), ds['sca'].copy()] for ds in dists(tree)]

def f_num_crop(tree, x):
    return [[ds['num'].crop(x), ds['num']._crop(x)] for ds in dists(tree)]

def f_num_merge(tree, x):
    return [Numeric.merge([ds['num'], ds['num']], [FLOAT, FLOAT]) for ds in dists(tree)]

def f_num_merge1(tree, x):
    return [Numeric.merge([ds['num']], [FLOAT]) for ds in dists(tree)]

def f_num_approx(tree, x):
    return [ds['num'].approximate(FLOAT) for ds in dists(tree)]

def f_sym_copy(tree, x, y):
    return [ds['sym'].copy() for ds in dists(tree)]

def f_sym_crop(tree, x, y):
    return [[ds['sym'].crop(x), ds['sym']._crop(y)] for ds in dists(tree)]

def f_sym_merge(tree, x, y):
    return [[Multinomial.merge([ds['sym'], ds['sym']], [FLOAT, FLOAT]), Multinomial.merge([ds['sym']], [FLOAT])] for ds in dists(tree)]

def f_int_copy(tree, x, y):
    return [ds['int'].copy() for ds in dists(tree)]

def f_int_crop(tree, x, y):
    return [[ds['int'].crop(x), ds['int']._crop(y)] for ds in dists(tree)]

def f_int_merge(tree, x, y):
    return [[Integer.merge([ds['int'], ds['int']], [FLOAT, FLOAT]), Integer.merge([ds['int']], [FLOAT])] for ds in dists(tree)]

def f_sets_copy(tree, x, y, f):
    return x.copy()

def f_sets_union(tree, x, y, f):
    return x.union(y)

def f_sets_intersection(tree, x, y, f):
    return x.intersection(y)

def f_sets_difference(tree, x, y, f):
    return x.difference(y)

def f_sets_complement(tree, x, y, f):
    return x.complement()

def f_sets_simplify(tree, x, y, f):
    return x.simplify()

def f_prune(tree, s):
    return tree.prune(FLOAT, s)

def f_quantile_copy(tree):
    return [[ds['num'].cdf.copy(), ds['num']._quantile.copy(), ds['num'].pdf.copy(), ds['num'].ppf.copy()] for ds in dists(tree)]

def f_quantile_crop(tree):
    return [[ds['num'].cdf.crop(ContinuousSet(FLOAT, FLOAT)), ds['num']._quantile.crop(ContinuousSet(FLOAT, FLOAT))] for ds in dists(tree)]

def f_varmap(tree, e):
    v = tree.bind(e)
    return v.copy()
'''
JOBS = [('f_conditional', 'a_ev'), ('f_posterior', 'a_vars'), ('f_mpe', 'a_ev'), ('f_prune', 'a_prune'), ('f_leaf_conditional', 'a_values'), ('f_copy', 'a_none'), ('f_bind', 'a_bind'),
        ('f_leaf_copy', 'a_none'), ('f_num_copy', 'a_num'), ('f_num_crop', 'a_num'), ('f_num_merge', 'a_num'),
        ('f_num_merge1', 'a_num'), ('f_num_approx', 'a_num'), ('f_sym_copy', 'a_sym'), ('f_sym_crop', 'a_sym'), ('f_sym_merge', 'a_sym'),
        ('f_int_copy', 'a_int'), ('f_int_crop', 'a_int'), ('f_int_merge', 'a_int'), ('f_sets_copy', 'a_two'), ('f_sets_union', 'a_two'),
        ('f_sets_intersection', 'a_two'), ('f_sets_difference', 'a_two'), ('f_sets_complement', 'a_two'), ('f_sets_simplify', 'a_two'),
        ('f_quantile_copy', 'a_none'), ('f_quantile_crop', 'a_none'), ('f_varmap', 'a_bind')]


#: value domains are shared by design, and so are the training sample indices of a leaf
DOMAIN = {'DataScaler', 'DataScalerProxy', 'OrderedDictProxy'}
EXEMPT = {'Leaf.s_indices'}
#: operations whose result must not share with the arguments either (bind keeps the values that the caller passes)
OWN = {j[0] for j in JOBS if j[0].startswith('f_sets_')} | {'f_num_crop', 'f_sym_crop', 'f_int_crop', 'f_posterior', 'f_conditional', 'f_leaf_conditional', 'f_quantile_crop'}


def isempty(o):
    return o.phase == 'global' and okname(o) == 'ContinuousSet'


def shared(S, q, maker):
    I = S.i
    r = call_with_inputs(S, q, maker)
    v = r.get('r')
    out = {}
    if v is None:
        return out, 0, False, unreached(S, q), sorted(S.w.last_raises)
    objs = reach(I, v)
    for o, path in objs.items():
        if isempty(o) or okname(o) in DOMAIN or path in EXEMPT or o.phase == 'input' and q not in OWN:
            continue
        if o.phase in ('learn', 'input', 'global') and o.kind in ('inst', 'dict', 'list', 'set', 'ndarray'):
            what = {'learn': 'the model', 'input': 'an argument', 'global': 'a module-level constant'}[o.phase]
            k = '%s of %s via %s' % (okname(o), what, path)
            out[k] = 'created at %s' % (o.site,)
    return out, len(objs), True, unreached(S, q), sorted(S.w.last_raises)


def reach(I, root):
    """objects reachable from the result -> the access path; not through variables, domains and functions"""
    seen, todo = {}, [(a, 'result') for a in root.atoms]
    from ..absint import Bound, Tup
    while todo:
        a, p = todo.pop(0)
        if isinstance(a, Tup):
            todo += [(x, p) for v in a.items for x in v.atoms]
        elif isinstance(a, Obj) and a not in seen and a.kind != 'class':
            if a.kind == 'inst' and okname(a) in ('NumericVariable', 'SymbolicVariable', 'IntegerVariable'):
                continue
            if okname(a) in DOMAIN:
                continue
            seen[a] = p
            if a.phase != 'query':
                continue
            for f, v in I.fields(a).items():
                if not f.startswith('?'):
                    todo += [(x, '%s.%s' % (okname(a), f) if a.kind == 'inst' else p + '[]') for x in v.atoms]
    return seen


def rule_C06(ctx):
    ctx.rule('escape analysis: no object that is reachable from the result of an operation existed before the call (as part of the model, an operand or '
             'a module constant), except variables, domains and the constant EMPTY')
    S = Session(ctx.root, extra=ARGS + FRESH)
    S.learn()
    ctx.count('functions analysed while building the model', len(S.i.analysed))
    res = fork_map(lambda j: shared(S, *j), JOBS, limit=300)
    for j in JOBS:
        r = res[j]
        name = '%s(%s)' % (j[0][2:], j[1][2:])
        if isinstance(r, Failure):
            ctx.skip(name, r.why.strip().split('\n')[0][:200])
            continue
        out, n, returns, missing, raises = r
        ctx.count('operations analysed')
        ctx.count('objects of results examined', n)
        if not returns:
            ctx.skip(name, 'the operation never returns in the analysis (raises %s)' % ', '.join(raises))
            continue
        for x in missing:
            ctx.skip('%s: %s' % (name, x), 'not reached')
        if not out:
            ctx.ok(name, 'all %d reachable objects are created by the operation' % n)
        for k, m in out.items():
            ctx.bad('%s: %s' % (name, k), 'the result of %s shares a %s, %s' % (name, k, m))
    ctx.floor('operations analysed', 8)
    ctx.floor('objects of results examined', 100)
