"""C13: labels and values are never mixed.

A label (what users see) and a value (what distributions and paths are made of) of the same variable are numbers, strings or sets of them; here each carries
the space it lives in. The mappings of a domain change the space; everything that relates two positions requires that they live in the same one."""
import ast

from ..absint import Const, O, Obj, Opaque, Tup, Val
from ..ctx import Failure, fork_map
from ..driver import Session
from ..roundtrip import okname, reachable
from .depends import deep

KINDS = ['sca', 'int', 'sym', 'syi']
SYMBOLIC = ('sym', 'syi')
FUNCTIONS = {'PiecewiseFunction', 'Function', 'LinearFunction', 'ConstantFunction', 'QuadraticFunction', 'Undefined', 'Jump'}
EVAL = {'eval', 'multi_eval', '__call__', 'idx_at', 'at'}
FIELDS = {'m', 'c', 'a', 'b', 'value', '_value', 'knot', 'alpha'}
DISTS = {'Numeric', 'ScaledNumeric', 'Multinomial', 'Integer', 'Bool', 'Distribution'}

X = {'sca': ('{0}F', 'ContinuousSet({0}F, {0}F)', 'RealSet([ContinuousSet({0}F, {0}F)])'), 'int': ('{0}I', '{{{0}I}}'), 'sym': ('{0}S', '{{{0}S}}'),
     'syi': ('{0}I', '{{{0}I}}')}
XV = {'sca': X['sca'], 'int': ('{0}J', '{{{0}J}}'), 'sym': ('{0}J', '{{{0}J}}'), 'syi': ('{0}J', '{{{0}J}}')}
PARTS = {'sca': '[{0}F, {0}F]', 'int': '[{0}I, {0}I]', 'sym': '[{0}S, {0}S]', 'syi': '[{0}I, {0}I]'}
FORMS = {k: list(zip(('single', 'set', 'union'), X[k], XV[k])) + [('list', PARTS[k], None)] for k in KINDS}
CLIENT = '''
def make_syi():
    return SymbolicVariable('syi', SymbolicType('SyiType', [INT, INT]), min_impurity_improvement=FLOAT, invert_impurity=BOOLV)
'''
for k in KINDS:
    CLIENT += '''
def vars_{k}():
    return [make_{k}()]
'''.format(k=k)
    for form, l, v in FORMS[k]:
        CLIENT += '''
def ev_dict_{form}_{k}(tree):
    return {{'{k}': {l}}}

def ev_variables_{form}_{k}(tree):
    return {{tree.varnames['{k}']: {l}}}

def label_{form}_{k}(tree):
    return {l}

def ev_labels_{form}_{k}(tree):
    return LabelAssignment([(tree.varnames['{k}'], {l})], variables=tree.variables)
'''.format(k=k, form=form, l=l.format('L'))
        if v:
            CLIENT += '''
def value_{form}_{k}(tree):
    return {v}

def ev_values_{form}_{k}(tree):
    return ValueAssignment([(tree.varnames['{k}'], {v})], variables=tree.variables)
'''.format(k=k, form=form, v=v.format('V'))
    CLIENT += '''
def center_labels_{k}(tree):
    return LabelAssignment([(tree.varnames['{k}'], {l})], variables=tree.variables)

def center_values_{k}(tree):
    return ValueAssignment([(tree.varnames['{k}'], {v})], variables=tree.variables)
'''.format(k=k, l=X[k][0].format('CL'), v=XV[k][0].format('CV'))
CLIENT += '''
def dist(tree, k):
    return [leaf.distributions[k] for leaf in tree.leaves.values()][0]

def k_bind(tree, k, e):
    return tree.bind(e)[tree.varnames[k]]

def k_infer(tree, k, e, q):
    return tree.infer(q, e)

def k_posterior(tree, k, e):
    return tree.posterior([k], e)

def k_posterior_expectation(tree, k, e):
    return tree.posterior([k], e)[k].expectation()

def k_expectation(tree, k, e):
    return tree.expectation([k], e)[tree.varnames[k]]

def k_moment(tree, k, e, c):
    return tree.moment(INT, c, e)[tree.varnames[k]]

def k_mpe(tree, k, e):
    return [s[tree.varnames[k]] for s in tree.mpe(e)[0]]

def k_kmpe(tree, k, e):
    return [s[0][tree.varnames[k]] for s in tree.kmpe(e, k=INT)]

def k_conditional(tree, k, e):
    return tree.conditional_jpt(e)

def k_pdf(tree, k, e):
    return tree.pdf(e)

def k_apply(tree, k, e):
    return [l for l in tree.apply(e)]

def k_reverse(tree, k, e):
    return tree.reverse(e, FLOAT)

def k_likelihood(tree, k):
    return tree.likelihood(DATA)

def k_learn(tree, k):
    return tree.learn(data=pick(None, FRAME_L), rows=pick(None, DATA), columns=pick(None, DATA))

def k_leaf_probability(tree, k, e):
    return [leaf.probability(e) for leaf in tree.leaves.values()]

def k_leaf_conditional(tree, k, e):
    return [leaf.conditional_leaf(e) for leaf in tree.leaves.values()]

def k_leaf_mpe(tree, k):
    return [leaf.mpe(tree.minimal_distances)[0][tree.varnames[k]] for leaf in tree.leaves.values()]

def k_leaf_applies(tree, k, e):
    return [leaf.applies(e) for leaf in tree.leaves.values()]

def d_p(tree, k, x):
    return dist(tree, k).p(x)

def d__p(tree, k, x):
    return dist(tree, k)._p(x)

def d_crop(tree, k, x):
    return dist(tree, k).crop(x)

def d__crop(tree, k, x):
    return dist(tree, k)._crop(x)

def d_expectation(tree, k):
    return dist(tree, k).expectation()

def d__expectation(tree, k):
    return dist(tree, k)._expectation()

def d_variance(tree, k):
    return dist(tree, k).variance()

def d__variance(tree, k):
    return dist(tree, k)._variance()

def d_mpe(tree, k):
    return dist(tree, k).mpe()[0]

def d__mpe(tree, k):
    return dist(tree, k)._mpe()[0]

def d_k_mpe(tree, k):
    return [s for s, p in dist(tree, k).k_mpe(INT)]

def d__k_mpe(tree, k):
    return [s for s, p in dist(tree, k)._k_mpe(INT)]

def d_sample(tree, k):
    return [x for x in dist(tree, k).sample(INT)]

def d__sample(tree, k):
    return [x for x in dist(tree, k)._sample(INT)]

def d_sample_one(tree, k):
    return dist(tree, k).sample_one()

def d__sample_one(tree, k):
    return dist(tree, k)._sample_one()

def d_items(tree, k):
    return [l for p, l in dist(tree, k).items()]

def d__items(tree, k):
    return [l for p, l in dist(tree, k)._items()]

def d_sorted(tree, k):
    return [l for p, l in dist(tree, k).sorted()]

def d_mode(tree, k):
    return dist(tree, k).mode()[0]

def d_quantile(tree, k):
    return dist(tree, k).quantile(FLOAT)

def d_moment(tree, k, c):
    return dist(tree, k).moment(INT, c)

def d__moment(tree, k, c):
    return dist(tree, k)._moment(INT, c)

def d_pdf(tree, k, x):
    return dist(tree, k).pdf(x)

def d__pdf(tree, k, x):
    return dist(tree, k)._pdf(x)

def d_value2label(tree, k, x):
    return tree.varnames[k].domain.value2label(x)

def d_label2value(tree, k, x):
    return tree.varnames[k].domain.label2value(x)
'''

def space(l):
    return l[-1] if isinstance(l, str) and l[-2:] in ('@L', '@V') else None


def spaces(ls):
    return {space(l) for l in ls} - {None}


def positions(v):
    return {l for l in v.labels if space(l)}


def strip(ls):
    return frozenset(l for l in ls if space(l) is None)


def moved(ls, to):
    return frozenset(l[:-1] + to if space(l) else l for l in ls)


def vague(v):
    return all(isinstance(a, Opaque) and a.t == 'any' for a in v.atoms)


class Spaces:
    def __init__(self, tovalue, tolabel, params):
        self.tovalue, self.tolabel, self.params = tovalue, tolabel, params
        self.bad = {}
        self.inverse = set()
        self.seen = {'conversions': set(), 'comparisons and sums': set(), 'evaluations of functions': set(), 'accesses of parameters': set()}
        self.top = None
        self.returns = {}

    def where(self, fr, node):
        if fr is None or fr.module is None:
            return 'client'
        q = fr.fn.qual if fr.fn is not None and hasattr(fr.fn, 'qual') else ''
        return '%s %s' % (fr.module.rel, q)

    def report(self, fr, node, what):
        k = self.where(fr, node), what
        self.bad.setdefault(k, getattr(node, 'lineno', 0))

    def note(self, kind, fr, node):
        self.seen[kind].add((fr.module.rel if fr is not None and fr.module is not None else '', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))

    # -- conversions ---------------------------------------------------------------------------------
    def direction(self, fn, env):
        if not env or 'self' not in env or fn.cls is None:
            return None
        for a in env['self'].atoms:
            if a in self.tovalue:
                return 'V'
            if a in self.tolabel:
                return 'L'
        if fn.cls.name == 'DataScaler':
            return {'transform': 'V', 'inverse_transform': 'L', '__getitem__': 'L'}.get(fn.name)
        return None

    def argument(self, env):
        return [v for k, v in env.items() if k not in ('self', 'make_copy', 'default', 'cls') and isinstance(v, Val)]

    CONV = {'__getitem__', '__call__', '_mapvalue', 'get', 'transform', 'inverse_transform', '_get', 'map'}

    def on_call(self, I, fr, node, fn, env):
        if not env:
            return
        d = self.direction(fn, env) if getattr(fn, 'name', '') in self.CONV else None
        if d:
            self.note('conversions', fr, node)
            for v in self.argument(env):
                s = spaces(deep(I, v))
                if s == {d} and not vague(v):
                    self.report(fr, node, 'converts to a %s what is a %s already' % (WORD[d], WORD[d]))
        elif getattr(fn, 'cls', None) is not None and fn.cls.name in FUNCTIONS and fn.name in EVAL:
            self.note('evaluations of functions', fr, node)
            for v in self.argument(env):
                if 'L' in spaces(deep(I, v)) and spaces(deep(I, v)) == {'L'}:
                    self.report(fr, node, 'evaluates a function of values at a label')

    def on_return(self, I, fr, node, fn, env, ret):
        if ret is None or not env:
            return None
        n = getattr(fn, 'name', '')
        d = self.direction(fn, env) if n in self.CONV else None
        if d:
            ls = set(ret.labels)
            if not any(isinstance(a, Obj) for a in ret.atoms):
                for v in self.argument(env):
                    ls |= {l for l in deep(I, v) if space(l)}
            return Val(O('float').atoms if vague(ret) and ret.atoms else ret.atoms, moved(ls, d))
        if getattr(fn, 'cls', None) is not None and fn.cls.name in FUNCTIONS and n in EVAL:
            if any(a in self.inverse for a in env['self'].atoms):
                return Val(ret.atoms, strip(ret.labels) | {'D@V'})
            return Val(ret.atoms, strip(ret.labels))
        if n in ('n_values', '__len__'):
            return Val(ret.atoms, strip(ret.labels))           # a number of positions is none
        if n == 'ppf':
            self.inverse.update(a for a in ret.atoms if isinstance(a, Obj))
        return None

    # -- relations ------------------------------------------------------------------------------------
    def on_compare(self, I, fr, node, op, l, r, out):
        a, b = spaces(deep(I, l)), spaces(deep(I, r))
        if op in (ast.In, ast.NotIn) or isinstance(op, (ast.In, ast.NotIn)):    # the domain mappings contain their keys
            maps = {'L' if x in self.tovalue else 'V' for x in r.atoms if x in self.tovalue or x in self.tolabel}
            b = maps or b
        if a and b:
            self.note('comparisons and sums', fr, node)
            if not a & b:
                self.report(fr, node, 'compares a label with a value')

    def on_set(self, I, fr, node, name, l, r):
        a, b = spaces(deep(I, l)), spaces(deep(I, r))
        if a and b:
            self.note('comparisons and sums', fr, node)
            if not a & b:
                self.report(fr, node, 'combines a set of labels with a set of values')

    def on_binop(self, I, fr, node, op, l, r, out):
        a, b = spaces(deep(I, l)), spaces(deep(I, r))
        if {'B@L'} in (positions(l), positions(r)) and out is not None:      # integers: label = value + smallest label
            if op is ast.Add and a | b == {'L', 'V'}:
                self.note('conversions', fr, node)
                return Val(out.atoms, moved(strip(out.labels) | positions(l) | positions(r), 'L'))
            if op is ast.Sub and positions(r) == {'B@L'} and a == {'L'}:
                self.note('conversions', fr, node)
                return Val(out.atoms, moved(out.labels, 'V'))
        if op in (ast.Add, ast.Sub, ast.BitAnd, ast.BitOr) and a and b:
            self.note('comparisons and sums', fr, node)
            if not a & b:
                self.report(fr, node, {ast.Add: 'adds a label and a value', ast.Sub: 'subtracts a label and a value'}.get(op, 'combines a set of labels with a set of values'))
        if op is ast.Div and b and out is not None:
            return Val(out.atoms, strip(out.labels))
        return None

    def on_load_attr(self, I, fr, node, base, name, out):
        if name in ('intervals', 'lower', 'upper') and base.atoms and all(isinstance(a, Opaque) for a in base.atoms):
            return Val([])                                     # what is unknown of a position is a number
        if name == 'n_values':
            return Val(out.atoms, strip(out.labels))
        if name in FIELDS and any(isinstance(a, Obj) and okname(a) in FUNCTIONS for a in base.atoms):
            return Val(out.atoms, strip(out.labels))
        return None

    def on_load_item(self, I, fr, node, base, idx, out):
        if any(a in self.params for a in base.atoms if isinstance(a, Obj)):
            self.note('accesses of parameters', fr, node)
            s = spaces(deep(I, idx))
            if s == {'L'}:
                self.report(fr, node, 'uses a label as the index of a parameter')
        return None

    def on_store_item(self, I, fr, node, base, idx):
        if spaces(deep(I, idx)) != {'L'}:
            return
        arrays = {a for a in base.atoms if isinstance(a, Obj)}
        for o, f in list(I.heap.items()):
            if o.kind == 'inst' and getattr(I.base_class(o.cls), 'name', '') in DISTS:
                v = f.get('_params')
                if v is not None and arrays & set(v.atoms):
                    self.note('accesses of parameters', fr, node)
                    self.report(fr, node, 'uses a label as the index of a parameter')
                    return

    # -- results --------------------------------------------------------------------------------------
    def on_return_stmt(self, I, fr, node, v):
        self.returns.setdefault((fr.fn, node), set()).update(l for l in deep(I, v) if space(l))


WORD = {'L': 'label', 'V': 'value'}


def session(root, k):
    def lab(t, l):
        return O(t, frozenset([l]))
    gl = {}
    for p, s in (('L', 'E@L'), ('V', 'E@V'), ('CL', 'C@L'), ('CV', 'C@V')):
        for t, c in (('float', 'F'), ('int', 'I'), ('int', 'J'), ('str', 'S')):
            gl[p + c] = lab(t, s)
    S = Session(root, extra=CLIENT, **gl)
    I = S.i

    def th():
        I.phase = 'learn'
        t = S.w.call('new_tree', S.w.call('vars_' + k))
        S.w.call('learn_tree', t)
        return t
    S.tree = I.run(th, max_iter=15)
    for o, f in I.heap.items():
        for n, v in list(f.items()):
            if v.labels:
                f[n] = Val(v.atoms)
    I.memo.clear()
    return S


def prepare(S, k):
    """tags on the domain mappings, the parameters of distributions and the paths"""
    I = S.i
    tovalue, tolabel, params, n = set(), set(), set(), {}

    def put(o, f, l):
        v = I.heap[o].get(f)
        if v is not None:
            I.heap[o][f] = Val(v.atoms, v.labels | {l})
            n[l] = n.get(l, 0) + 1
    objs = reachable(I, [S.tree])
    for c in objs:
        if c.kind != 'class':
            continue
        fs = I.fields(c)
        for f, to, group in (('values', 'V', tovalue), ('labels', 'L', tolabel)):
            for m in fs.get(f, Val([])).atoms:
                group.add(m)
                for d in reachable(I, [Val([m])]):
                    if d.kind == 'dict':
                        group.add(d)
                        for x in I.heap[d]:
                            if x in ('?key', '?keys'):
                                put(d, x, 'D@' + ('L' if to == 'V' else 'V'))
                            elif x[:1] != '?':
                                put(d, x, 'D@' + to)
        for f, l in (('lmin', 'B@L'), ('lmax', 'D@L'), ('vmin', 'D@V'), ('vmax', 'D@V')):
            put(c, f, l)
    for o in objs:
        if o.kind != 'inst':
            continue
        f = I.fields(o)
        n_ = okname(o)
        if n_ in DISTS:
            for x in reachable(I, [f.get('_params', Val([]))]):
                if x.kind in ('ndarray', 'list'):
                    params.add(x)
            for x in reachable(I, [f.get('_quantile', Val([]))]):
                if okname(x) == 'ContinuousSet':
                    put(x, 'lower', 'D@V')
                    put(x, 'upper', 'D@V')
        elif n_ in ('DecisionNode', 'Leaf'):
            for a in ('_splits', '_path'):
                for x in reachable(I, [f.get(a, Val([]))]):
                    if okname(x) == 'ContinuousSet':
                        put(x, 'lower', 'P@V')
                        put(x, 'upper', 'P@V')
                    elif x.kind == 'set':
                        put(x, 'elem', 'P@V')
    return tovalue, tolabel, params, n


def jobs():
    """(kind, operation, makers of the arguments, space of the result or None)"""
    out = []
    for k in KINDS:
        def add(fn, args=(), res=None):
            out.append((k, fn, tuple(a + '_' + k for a in args), res))
        forms = [f for f, l, v in FORMS[k]]
        sets = [f for f, l, v in FORMS[k] if f in ('set', 'union')]
        evs = ['ev_dict_' + f for f in forms] + ['ev_variables_' + forms[0]] + ['ev_labels_' + f for f in sets] + ['ev_values_' + f for f in sets]
        for e in evs:
            if 'dict' in e or 'variables' in e:
                add('k_bind', (e,), 'L')
            else:
                add('k_apply', (e,))
                add('k_leaf_probability', (e,))
                add('k_leaf_conditional', (e,))
            add('k_infer', (e, e))
            add('k_posterior', (e,))
            add('k_conditional', (e,))
            add('k_mpe', (e,), 'L')
            add('k_kmpe', (e,), 'L')
            if k not in SYMBOLIC:
                add('k_expectation', (e,), 'L')
                add('k_posterior_expectation', (e,), 'L')
        for e in ('labels', 'values'):
            if k not in SYMBOLIC:
                add('k_moment', ('ev_labels_set', 'center_' + e), 'L')
            add('k_pdf', ('ev_%s_single' % e,))
            add('k_leaf_probability', ('ev_%s_single' % e,))
        for e in ('values', 'labels'):
            for f in ['single'] + sets:
                add('k_leaf_applies', ('ev_%s_%s' % (e, f),))
        add('k_reverse', ('ev_dict_set',))
        add('k_leaf_mpe', (), 'L')
        for a, b in (('', 'label'), ('_', 'value')):
            R = b[0].upper()
            for f in [f for f, l, v in FORMS[k] if v]:
                add('d_%sp' % a, ('%s_%s' % (b, f),))
                add('d_%scrop' % a, ('%s_%s' % (b, f),))
                if a:
                    add('d_value2label', ('%s_%s' % (b, f),), 'L')
                else:
                    add('d_label2value', ('%s_%s' % (b, f),), 'V')
            add('d_%smpe' % a, (), R)
            add('d_%sk_mpe' % a, (), R)
            add('d_%ssample' % a, (), R)
            single = b + '_single'
            if k == 'sca':
                add('d_%smoment' % a, (single,), R)
            if k == 'int':
                if not a:
                    add('d_moment', (single,), R)
            if k != 'sca':
                if not a:
                    add('d_sorted', (), 'L')
                    add('d_mode', (), 'L')
                add('d_%spdf' % a, (single,))
                add('d_%sitems' % a, (), R)
            if k not in SYMBOLIC:
                add('d_%sexpectation' % a, (), R)
                add('d_%svariance' % a, (), R)
                add('d_%ssample_one' % a, (), R)
        if k == 'sca':
            add('d_quantile', (), 'L')
    return out


def analyse(Ss, j):
    k, fn, makers, res = j
    S = Ss[k]
    I = S.i
    I.memo.clear()
    I.implicit = I.index = False
    I.recvsites = ('dict',)
    tv, tl, ps, n = prepare(S, k)
    h = Spaces(tv, tl, ps)
    I.hooks.append(h)
    I.present = ('input', 'query input')
    out = [None]

    def th():
        h.bad.clear()
        h.returns.clear()
        I.phase = 'query input'
        args = [S.w.call(m, S.tree) for m in makers]
        if any(a is None for a in args):
            out[0] = None
            return None
        I.phase = 'query'
        out[0] = S.w.call(fn, S.tree, Val([Const(k)]), *args)
        return out[0]
    I.run(th, max_iter=10)
    r = out[0]
    return (None if r is None else sorted(l for l in deep(I, r) if space(l)), sorted((w, x, l) for (w, x), l in h.bad.items()),
            {a: len(b) for a, b in h.seen.items()}, sorted(S.w.last_raises), sum(n.values()))


NAMES = {'sca': 'a scaled numeric variable', 'int': 'an integer variable', 'sym': 'a symbolic variable', 'syi': 'a symbolic variable of numbers'}


def words(j):
    k, fn, makers, res = j
    return '%s of %s%s' % (fn.split('_', 1)[1], NAMES[k], ''.join(', ' + m.rsplit('_', 1)[0].replace('ev_', '').replace('_', ' ') for m in makers))


def rule_C13(ctx):
    ctx.rule('abstract interpretation with two spaces: nothing is converted twice, labels are compared with, added to and subtracted from labels and values from values only, '
             'functions of distributions are evaluated and parameters indexed at values, and results are in the space that the operation promises')
    Ss = {}
    for k in KINDS:
        Ss[k] = session(ctx.root, k)
    js = jobs()
    res = fork_map(lambda j: analyse(Ss, j), js, limit=300)
    found = {}
    for j in js:
        r = res[j]
        n = words(j)
        if isinstance(r, Failure):
            ctx.skip(n, r.why.strip().split('\n')[0][:200])
            continue
        ret, bad, seen, raises, slots = r
        ctx.count('labelled slots', slots)
        for a, c in seen.items():
            ctx.count(a, c)
        for w, what, line in bad:
            found.setdefault((w, what), (line, n))
        if ret is None:
            if j[1] in ('k_reverse', 'k_likelihood') or bad:
                continue
            ctx.skip(n, 'the operation never returns in the analysis (raises %s)' % ', '.join(raises))
            continue
        ctx.count('operations analysed')
        want = j[3]
        if want is None:
            ctx.ok(n, 'no mixing')
            continue
        s = spaces(ret)
        exact = j[0] != 'sca' and j[1] != 'k_kmpe'
        if s == {want} or want in s and not exact:
            ctx.ok(n, 'the result is made of %ss' % WORD[want])
        elif s:
            ctx.bad(n, 'the result, which has to be made of %ss, is made of %s' % (WORD[want], ' and '.join(WORD[x] + 's' for x in sorted(s))))
        else:
            ctx.skip(n, 'the result comes from no position that the analysis knows')
    for (w, what), (line, n) in sorted(found.items()):
        ctx.bad('%s %s' % (w, what), '%s %s (line %s; found in %s)' % (w, what, line, n))
    ctx.floor('operations analysed', 100)
    for a in ('conversions', 'comparisons and sums', 'evaluations of functions', 'accesses of parameters'):
        ctx.floor(a, 20)
