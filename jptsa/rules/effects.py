"""C04, C05: what queries and learning write to.

Abstract objects carry the phase in which they were created (model, argument, module constant, or the call itself); every attribute, item,
in-place and container write of the analysed call is recorded with the object it goes to."""
import ast

from ..absint import Const, Obj
from ..ctx import Failure, fork_map
from ..driver import Session
from ..roundtrip import okname

ARGS = '''
import numpy as np

def a_ev(tree):
    return [pick(None, evany(tree))]

def a_ev2(tree):
    return [evany(tree), pick(None, evany(tree))]

def a_vars(tree):
    return [pick(None, ['num', 'sym', 'int', 'sca'], list(tree.variables)), pick(None, evany(tree))]

def a_frame(tree):
    return [FRAME]

def a_ndarr(tree):
    return [NDARR]

def a_lists(tree):
    return [[[FLOAT, FLOAT, STR, INT], [FLOAT, FLOAT, STR, INT]]]

def a_labels_(tree):
    return [pick([STR, STR], NDARR)]

def a_excl(tree):
    return [FRAME, {STR: Numeric}]

def a_none(tree):
    return []

def a_bind(tree):
    return [evdict()]

def a_values(tree):
    return [tree.bind(evdict()).value_assignment()]

def a_labels(tree):
    return [tree.bind(evdict())]

def a_center(tree):
    return [pick(None, tree.bind(evdict(), allow_singular_values=True)), pick(None, evany(tree))]

def a_num(tree):
    return [pick(FLOAT, ContinuousSet(FLOAT, FLOAT), RealSet([ContinuousSet(FLOAT, FLOAT), ContinuousSet(FLOAT, FLOAT)]))]

def a_sym(tree):
    return [symval(), pick(INT, {INT})]

def a_int(tree):
    return [intval(), pick(INT, {INT})]

def a_prune(tree):
    return [pick(None, FLOAT, {'num': FLOAT})]

def a_two(tree):
    x = RealSet([ContinuousSet(FLOAT, FLOAT, INT, INT), ContinuousSet(FLOAT, FLOAT, INT, INT)])
    y = ContinuousSet(FLOAT, FLOAT, INT, INT)
    z = ContinuousSet(FLOAT, FLOAT, INT, INT)
    return [pick(x, y), pick(x, z), FLOAT]

def p_infer(tree, q, e):
    tree.infer(q, e, fail_on_unsatisfiability=BOOLV)

def p_posterior(tree, v, e):
    tree.posterior(v, e, fail_on_unsatisfiability=BOOLV, report_inconsistencies=BOOLV)

def p_posterior0(tree):
    tree.posterior()

def p_expectation(tree, v, e):
    tree.expectation(v, e, fail_on_unsatisfiability=BOOLV)

def p_mpe(tree, e):
    tree.mpe(e, fail_on_unsatisfiability=BOOLV)

def p_conditional(tree, e):
    tree.conditional_jpt(e, fail_on_unsatisfiability=BOOLV)

def p_moment(tree, c, e):
    tree.moment(INT, c, e, fail_on_unsatisfiability=BOOLV)

def p_bind(tree, d):
    tree.bind(d)

def p_reverse(tree, d):
    tree.reverse(d, FLOAT)

def p_likelihood(tree, d):
    tree.likelihood(d)

def p_pdf_v(tree, v):
    tree.pdf(v)

def p_apply(tree, e):
    [l for l in tree.apply(e)]

def p_encode(tree, d):
    tree.encode(d)

def p_sample(tree):
    tree.sample(INT)

def p_prune(tree, s):
    tree.prune(FLOAT, s)

def p_copy(tree):
    tree.copy()
    tree.to_json()
    tree.__getstate__()
    tree.save(STR, protocol='json')
    tree.save(STR, protocol='pickle')

def p_misc(tree):
    tree.depth()
    tree.total_samples()
    tree.number_of_parameters()
    str(tree)
    repr(tree)
    tree == tree
    tree.get_hyperparameters_dict()
    tree.numeric_variables
    tree.features
    tree.targets
    tree.allnodes
    hash(tree.variables[0])

def p_leaf_applies(tree, v):
    for leaf in tree.leaves.values():
        leaf.applies(v)
        leaf.probability(v)
        leaf.consistent_with(v)
        leaf.path_consistent_with(v)
        leaf.copy()
        leaf.sample(INT)
        str(leaf)
    for node in tree.innernodes.values():
        node.consistent_with(v)
        str(node)

def p_leaf_mpe(tree):
    for leaf in tree.leaves.values():
        leaf.mpe(tree.minimal_distances)

def p_leaf_cond(tree, v):
    for leaf in tree.leaves.values():
        leaf.conditional_leaf(v)

def p_variables(tree, x):
    for v in tree.variables:
        v.copy()
        v.to_json()
        str(v)
        hash(v)
        v == v

def p_num_query(tree, x):
    for ds in dists(tree):
        for d in [ds['num'], ds['sca']]:
            d.p(x)
            d._p(x)
            d.expectation()
            d.variance()
            d.quantile(FLOAT)
            d.mpe()
            d._mpe()
            d.moment(INT, FLOAT)
            d.pdf
            d.ppf
            d.cdf

def p_num_crop(tree, x):
    for ds in dists(tree):
        for d in [ds['num'], ds['sca']]:
            d.crop(x)
            d._crop(x)

def p_num_misc(tree, x):
    for ds in dists(tree):
        for d in [ds['num'], ds['sca']]:
            d.sample(INT)
            d._sample(INT)
            d.to_json()
            d.copy()
            d == d

def p_num_merge(tree, x):
    for ds in dists(tree):
        for d in [ds['num'], ds['sca']]:
            Numeric.merge([d, d], [FLOAT, FLOAT])

def p_num_approx(tree, x):
    for ds in dists(tree):
        for d in [ds['num'], ds['sca']]:
            d.approximate(FLOAT)

def p_num_jaccard(tree, x):
    for ds in dists(tree):
        for d in [ds['num'], ds['sca']]:
            Numeric.jaccard_similarity(d, d)

def p_sym(tree, x, y):
    for ds in dists(tree):
        d = ds['sym']
        d.p(x)
        d._p(y)
        d.expectation()
        d.mpe()
        d._mpe()
        [z for z in d.k_mpe(INT)]
        d.crop(x)
        d._crop(y)
        d.sample(INT)
        d._sample(INT)
        d.to_json()
        d.copy()
        d == d
        Multinomial.merge([d, d], [FLOAT, FLOAT])
        Multinomial.jaccard_similarity(d, d)
        str(d)

def p_int(tree, x, y):
    for ds in dists(tree):
        d = ds['int']
        d.p(x)
        d._p(y)
        d.expectation()
        d.variance()
        d.mpe()
        d._mpe()
        [z for z in d.k_mpe(INT)]
        d.crop(x)
        d._crop(y)
        d.moment(INT, FLOAT)
        d.sample(INT)
        d._sample(INT)
        d.to_json()
        d.copy()
        d == d
        Integer.merge([d, d], [FLOAT, FLOAT])
        Integer.jaccard_similarity(d, d)
        str(d)

def p_sets(tree, x, y, f):
    x.union(y)
    x.intersection(y)
    x.difference(y)
    x.complement()
    x.intersects(y)
    x.contains_value(f)
    x.contains_interval(y)
    x.isempty()
    x.size()
    x.simplify()
    x.copy()
    x.any_point()
    x == y
    hash(x)
    str(x)
    x | y
    x & y

def l_learn(x, data):
    t = new_tree(make_vars())
    t.learn(data=data, keep_samples=BOOLV, close_convex_gaps=BOOLV)

def l_rows(x, data):
    t = new_tree(make_vars())
    t.learn(rows=data, keep_samples=BOOLV, close_convex_gaps=BOOLV)

def l_columns(x, data):
    t = new_tree(make_vars())
    t.learn(columns=data, keep_samples=BOOLV, close_convex_gaps=BOOLV)

def l_fit(x, data):
    t = new_tree(make_vars())
    t.fit(data)

def l_infer(x, data):
    infer_from_dataframe(data, scale_numeric_types=BOOLV, min_impurity_improvement=FLOAT, blur=FLOAT, max_std=FLOAT, precision=FLOAT,
                         unique_domain_names=BOOLV, remove_nan=BOOLV)

def l_infer_excl(x, data, excl):
    infer_from_dataframe(data, excluded_columns=excl, remove_nan=BOOLV)

def l_dists(x, data):
    Numeric().fit(data, None, 0)
    Numeric()._fit(data, None, 0)
    Multinomial_ = SymbolicType('SymT', STRS)
    Multinomial_()._fit(data, None, 0)
    Integer_ = IntegerType('IntT', INT, INT)
    Integer_().fit(data, None, 0)
    Integer_()._fit(data, None, 0)

def l_quantile(x, data):
    QuantileDistribution(epsilon=FLOAT).fit(data, np.arange(INT), 0)

def l_scaler(x, data):
    NumericType('ScaT', data)
    SymbolicType('SymT', data)

def l_stored(x, data):
    t = new_tree(make_vars())
    t._preprocess_data(data=data)
'''

QUERIES = [('p_infer', 'a_ev2'), ('p_posterior', 'a_vars'), ('p_posterior0', 'a_none'), ('p_expectation', 'a_vars'), ('p_mpe', 'a_ev'),
           ('p_conditional', 'a_ev'), ('p_moment', 'a_center'), ('p_bind', 'a_bind'), ('p_reverse', 'a_bind'), ('p_likelihood', 'a_frame'),
           ('p_pdf_v', 'a_values'), ('p_apply', 'a_ev'), ('p_encode', 'a_ndarr'), ('p_sample', 'a_none'), ('p_prune', 'a_prune'), ('p_copy', 'a_none'),
           ('p_misc', 'a_none'), ('p_leaf_applies', 'a_values'), ('p_leaf_mpe', 'a_none'), ('p_leaf_cond', 'a_values'), ('p_variables', 'a_num'),
           ('p_num_query', 'a_num'), ('p_num_crop', 'a_num'), ('p_num_misc', 'a_num'), ('p_num_merge', 'a_num'), ('p_num_approx', 'a_num'),
           ('p_num_jaccard', 'a_num'), ('p_sym', 'a_sym'), ('p_int', 'a_int'), ('p_sets', 'a_two')]
SLOWFIRST = ['p_mpe', 'p_conditional', 'p_leaf_cond', 'p_posterior', 'p_expectation', 'p_moment', 'p_infer', 'p_num_approx', 'p_num_crop']
LEARN = [('l_learn', 'a_frame'), ('l_learn', 'a_ndarr'), ('l_fit', 'a_frame'), ('l_rows', 'a_ndarr'), ('l_rows', 'a_lists'), ('l_columns', 'a_ndarr'),
         ('l_columns', 'a_lists'), ('l_infer', 'a_frame'), ('l_infer_excl', 'a_excl'), ('l_dists', 'a_ndarr'), ('l_quantile', 'a_ndarr'),
         ('l_scaler', 'a_ndarr'), ('l_scaler', 'a_labels_'), ('l_stored', 'a_frame'), ('l_stored', 'a_ndarr')]

#: results derived from the distribution function that are remembered when first asked for
MEMO = {('QuantileDistribution', '_pdf'), ('QuantileDistribution', '_ppf'), ('QuantileDistribution', '_cdf')}


def call_with_inputs(S, q, maker, tree=None):
    """arguments are made in the phase 'input', the call is analysed in the phase 'query'"""
    I = S.i
    tree = S.tree if tree is None else tree
    res = {}

    def th():
        I.phase = 'input'
        a = S.w.call(maker, tree)
        args = []
        for o in (a.atoms if a is not None else ()):
            f = I.fields(o)
            args = [f[k] for k in sorted((k for k in f if k.startswith('i:')), key=lambda k: int(k[2:]))]
        I.phase = 'query'
        res['r'] = S.w.call(q, tree, *args)
        res['n'] = len(args)
        return res
    I.run(th, max_iter=15)
    return res


def effects(S, q, maker):
    I = S.i
    I.mutations.clear()
    r = call_with_inputs(S, q, maker)
    out, writes = {}, 0
    for m in I.mutations.values():
        if m['phase'] != 'query':
            continue
        writes += 1
        o = m['obj']
        if o.phase not in ('learn', 'input', 'global'):
            continue
        name = okname(o) if o.kind == 'inst' else o.kind
        if (name, m['field']) in MEMO and Const(None) not in m['val'].atoms:
            continue
        if is_fresh_read(m):
            continue
        what = {'learn': 'the model', 'input': 'an argument', 'global': 'a module-level constant'}[o.phase]
        fn = m['fn'].qual if hasattr(m['fn'], 'qual') else m['fn'].name if m['fn'] else '?'
        field = m['field'] if o.kind == 'inst' else 'items'
        key = '%s.%s of %s in %s' % (name, field, what, fn)
        out[key] = '%s:%s writes %s.%s (object created at %s) of %s' % (
            m['fn'].module.rel if m['fn'] else '?', getattr(m['node'], 'lineno', 0), name, field, o.site[0] if isinstance(o.site, tuple) else o.site, what)
    raises = sorted(S.w.last_raises)
    return out, writes, len(I.analysed), r.get('r') is not None, unreached(S, q), raises


def unreached(S, q):
    """client statements that the analysis does not get to"""
    I = S.i
    fn = next((n for n in S.w.p.modules['client'].tree.body if isinstance(n, ast.FunctionDef) and n.name == q), None)
    return [ast.unparse(n).split('\n')[0][:60] for n in ast.walk(fn) if isinstance(n, ast.stmt) and n is not fn and id(n) not in I.reached] if fn else []


def is_fresh_read(m):
    return False


def run(ctx, jobs, learn=True, floor=5):
    S = Session(ctx.root, extra=ARGS)
    if learn:
        S.learn()
    else:
        S.tree = None
        from ..absint import NONE
        S.tree = NONE
    ctx.count('functions analysed while building the model', len(S.i.analysed))

    def work(j):
        return effects(S, *j)
    res = fork_map(work, jobs, limit=300)
    for j in jobs:
        r = res[j]
        name = '%s(%s)' % (j[0][2:], j[1][2:])
        if isinstance(r, Failure):
            ctx.skip(name, r.why.strip().split('\n')[0][:200])
            continue
        out, writes, nfn, returns, missing, raises = r
        ctx.count('operations analysed')
        ctx.count('writes examined', writes)
        ctx.counts['functions analysed'] = max(ctx.counts.get('functions analysed', 0), nfn)
        if not returns:
            ctx.skip(name, 'the operation never returns in the analysis (raises %s)' % ', '.join(raises))
        for x in missing:
            ctx.skip('%s: %s' % (name, x), 'not reached')
        if not out:
            ctx.ok(name, 'writes only to objects that it creates (%d writes)' % writes)
        for k, m in out.items():
            ctx.bad('%s: %s' % (name, k), m)
    ctx.floor('operations analysed', floor)


def rule_C04(ctx):
    ctx.rule('effect analysis: no write reached from a query goes to an object of the model, of the arguments or of a module constant '
             '(except the remembered pdf/ppf of a quantile distribution)')
    jobs = sorted(QUERIES, key=lambda j: SLOWFIRST.index(j[0]) if j[0] in SLOWFIRST else 99)
    run(ctx, jobs, floor=8)


def rule_C05(ctx):
    ctx.rule('effect analysis: no write reached from learning, fitting or variable inference goes to the data passed in')
    run(ctx, LEARN, learn=False, floor=3)
