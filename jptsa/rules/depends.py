"""C07: what the result of a query depends on.

The evidence, the query, the weights of the leaves and the parameters of the distributions of each variable carry labels; labels follow data flow,
index values and the conditions under which something is computed. A label that cannot reach the result means that the query ignores that input."""
import ast

from ..absint import Const, O, Obj, Tup, Val
from ..ctx import Failure, fork_map
from ..driver import Session
from ..roundtrip import okname, reachable
from .effects import unreached

KINDS = ['num', 'sca', 'sym', 'int']
CLIENT = '''
def setval(kind, f, i):
    return ContinuousSet(f, f) if kind in ('num', 'sca') else {i}
'''
for k in KINDS:
    v = {'num': 'ContinuousSet(%sF, %sF)', 'sca': 'ContinuousSet(%sF, %sF)', 'sym': '{%sI}', 'int': '{%sI}'}[k]
    for p in 'EQ':
        CLIENT += '''
def {p}_{k}(tree):
    return ValueAssignment([(tree.varnames['{k}'], {v})], variables=tree.variables)
'''.format(p=p, k=k, v=v % (p, p) if '%sF, ' in v else v % p)
SETS = {'num': 'ContinuousSet(XF, XF)', 'sca': 'ContinuousSet(XF, XF)', 'sym': '{XI}', 'int': '{XI}'}
PAIRS = [('num', 'sym'), ('sca', 'int')]
for a, b in PAIRS:
    CLIENT += '''
def vars_{a}_{b}():
    return [make_{a}(), make_{b}()]

def e_both_{a}_{b}(tree):
    return ValueAssignment([(tree.varnames['{a}'], {EA}), (tree.varnames['{b}'], {FB})], variables=tree.variables)

def path_{a}_{b}(tree):
    return VariableMap([(tree.varnames['{a}'], {PA}), (tree.varnames['{b}'], {PB})])

def q_both_{a}_{b}(tree):
    return ValueAssignment([(tree.varnames['{a}'], QF), (tree.varnames['{b}'], RI)], variables=tree.variables)
'''.format(a=a, b=b, EA=SETS[a].replace('X', 'E'), FB=SETS[b].replace('X', 'F'), PA=SETS[a].replace('X', 'P'), PB=SETS[b].replace('X', 'P'))
CLIENT += '''
def t_infer(tree, q, e):
    return tree.infer(q, e)

def t_posterior(tree, v, e):
    return tree.posterior([v], e)[v]

def t_posterior_all(tree, v, e):
    return tree.posterior(None, e)[v]

def t_expectation(tree, v, e):
    return tree.expectation([v], e)[v]

def t_moment(tree, v, e):
    return tree.moment(ORDER, None, e)[v]

def t_mpe_likelihood(tree, e):
    return tree.mpe(e)[1]

def t_mpe_states(tree, v, e):
    return [s[v] for s in tree.mpe(e)[0]]

def t_conditional_weights(tree, e):
    return [leaf.prior for leaf in tree.conditional_jpt(e).leaves.values()]

def t_conditional_distributions(tree, v, e):
    return [leaf.distributions[v] for leaf in tree.conditional_jpt(e).leaves.values()]

def t_conditional_priors(tree, v, e):
    return tree.conditional_jpt(e).priors[v]

def path_none(tree):
    return VariableMap()

def t_pdf(tree, q):
    return tree.pdf(q)

def t_sample(tree):
    return tree.sample(INT)

def t_likelihood(tree):
    return tree.likelihood(DATA)

def t_leaf_probability(tree, e):
    return [leaf.probability(e) for leaf in tree.leaves.values()]

def t_leaf_mpe(tree):
    return [leaf.mpe(tree.minimal_distances)[1] for leaf in tree.leaves.values()]

def t_leaf_conditional(tree, v, e):
    return [leaf.conditional_leaf(e).distributions[v] for leaf in tree.leaves.values()]
'''
WORDS = {'E': 'the evidence', 'F': 'the evidence on the second variable', 'Q': 'the query', 'R': 'the queried value of the second variable', 'W': 'the weights of the leaves', 'O': 'the order',
         'D:num': 'the distributions of a numeric variable', 'D:sca': 'the distributions of a scaled numeric variable',
         'D:sym': 'the distributions of a symbolic variable', 'D:int': 'the distributions of an integer variable', 'DATA': 'the data'}
CLS = {'Numeric': 'num', 'ScaledNumeric': 'sca', 'Multinomial': 'sym', 'Integer': 'int'}


def base_jobs():
    """(variables, client function, arguments, labels needed in the result, what, labels needed in the weights of merged distributions)"""
    out = []
    for a, b in PAIRS:
        t = 'vars_%s_%s' % (a, b)

        def add(fn, mk, need, what, weights=()):
            out.append((t, fn, mk, frozenset(need), what, frozenset(weights)))
        for e in (a, b):
            E = 'E_' + e
            D = 'D:' + e
            on = ', evidence on %s' % e
            for x in (a, b):
                X = Const(x)
                own = {'E'} if x == e else set()
                add('t_infer', ('Q_' + x, E), {'Q', 'E', 'W', 'D:' + x, D, '/E', '/W', '/' + D}, 'query on %s' % x + on)
                add('t_posterior', (X, E), {'E', 'W', 'D:' + x, D}, 'of %s' % x + on, {'E', 'W', D})
                if x == e:
                    add('t_posterior_all', (X, E), {'E', 'W', 'D:' + x}, 'of %s' % x + on, {'E', 'W', D})
                add('t_expectation', (X, E), {'E', 'W', 'D:' + x, D}, 'of %s' % x + on)
                if x != 'sym':
                    add('t_moment', (X, E), {'E', 'W', 'O', 'D:' + x, D}, 'of %s' % x + on)
                add('t_conditional_distributions', (X, E), {'D:' + x} | own, 'of %s' % x + on)
                add('t_conditional_priors', (X, E), {'E', 'W', 'D:' + x, D}, 'of %s' % x + on)
                add('t_mpe_states', (X, E), {'D:' + x} | own, 'of %s' % x + on)
                add('t_leaf_conditional', (X, E), {'D:' + x} | own, 'of %s' % x + on)
            add('t_mpe_likelihood', (E,), {'E', 'W', 'D:' + a, 'D:' + b}, on[2:])
            add('t_conditional_weights', (E,), {'E', 'W', D, '/E', '/W', '/' + D}, on[2:])
            add('t_leaf_probability', (E,), {'E', D}, on[2:])
        B = 'e_both_%s_%s' % (a, b)
        both, D2 = {'E', 'F'}, {'D:' + a, 'D:' + b}
        on = 'evidence on both variables'
        for x, l in ((a, 'E'), (b, 'F')):
            X = Const(x)
            add('t_infer', ('Q_' + x, B), {'Q', 'W', '/W'} | both | D2 | {'/' + l for l in both | D2}, 'query on %s, ' % x + on)
            add('t_posterior', (X, B), {'W'} | both | D2, 'of %s, ' % x + on, {'W'} | both | D2)
            add('t_conditional_distributions', (X, B), {'D:' + x, l}, 'of %s, ' % x + on)
            add('t_leaf_conditional', (X, B), {'D:' + x, l}, 'of %s, ' % x + on)
        add('t_conditional_weights', (B,), {'W', '/W'} | both | D2 | {'/' + l for l in both | D2}, on)
        add('t_leaf_probability', (B,), both | D2, on)
        add('t_mpe_likelihood', (B,), {'W'} | both | D2, on)
        add('t_pdf', ('q_both_%s_%s' % (a, b),), {'Q', 'R', 'W', 'D:' + a, 'D:' + b}, 'of both variables')
        add('t_sample', (), {'W', 'D:' + a, 'D:' + b}, '')
        add('t_likelihood', (), {'W', 'DATA', 'D:' + a, 'D:' + b}, '')
        add('t_leaf_mpe', (), {'W', 'D:' + a, 'D:' + b}, '')
    return out


# the result is a number that is computed from its inputs: it depends on them through data flow, not merely through conditions
DATA_FLOW = {'t_infer', 't_posterior', 't_posterior_all', 't_moment', 't_mpe_likelihood', 't_conditional_weights', 't_conditional_priors', 't_pdf',
             't_likelihood', 't_leaf_probability', 't_leaf_mpe'}
SIZES = {'t_infer', 't_posterior', 't_conditional_weights', 't_conditional_distributions', 't_leaf_conditional', 't_leaf_probability'}


def jobs():
    """every job in the scenarios that the queries distinguish: (.., path, size, order)"""
    out = []
    for j in base_jobs():
        ev = j[2][-1] if j[2] and isinstance(j[2][-1], str) else ''
        if ev.startswith('e_both'):
            for path in ('none', 'all'):
                for order in ('forward', 'reverse'):
                    if path == 'none' or j[1] in ('t_infer', 't_posterior'):
                        out.extend(j + (path, size, order) for size in ('one', 'more'))
        elif ev.startswith('E_'):
            sizes = ('one', 'more') if j[1] in SIZES else (None,)
            for path in ('none', 'all'):
                for size in sizes:
                    out.append(j + (path, size, None))
        else:
            out.append(j + (None, None, None))
    return out


SAY = {('path', 'none'): 'no variable on the paths', ('path', 'all'): 'both variables on the paths', ('size', 'one'): 'single values',
       ('size', 'more'): 'several values', ('order', 'forward'): 'one order of the variables', ('order', 'reverse'): 'the other order of the variables'}


def words(j):
    s = [SAY[k, v] for k, v in zip(('path', 'size', 'order'), j[6:]) if v]
    return '%s(%s)' % (j[1][2:], ', '.join([' and '.join(j[0].split('_')[1:])] + [j[4]] * bool(j[4]) + s))


def session(root, vs):
    def lab(t, l):
        return O(t, frozenset([l]))
    S = Session(root, extra=CLIENT, EF=lab('float', 'E'), EI=lab('int', 'E'), FF=lab('float', 'F'), FI=lab('int', 'F'), PF=lab('float', 'P'), PI=lab('int', 'P'), QF=lab('float', 'Q'), QI=lab('int', 'Q'), RF=lab('float', 'R'),
                RI=lab('int', 'R'), ORDER=lab('int', 'O'))
    I = S.i
    nd = Obj('ndarray', 'ndarray', ('input', 'DATA'), 'input', 'DATA')
    I.heap.setdefault(nd, {})
    I.write(nd, 'elem', O('any', frozenset(['DATA'])))
    I.modenv['client']['DATA'] = Val([nd])

    def th():
        I.phase = 'learn'
        t = S.w.call('new_tree', S.w.call(vs))
        S.w.call('learn_tree', t)
        return t
    S.tree = I.run(th, max_iter=15)
    for o, f in I.heap.items():
        for k, v in list(f.items()):
            if v.labels and o is not nd:
                f[k] = Val(v.atoms)
    I.memo.clear()
    n = {}

    def put(o, k, l):
        v = I.heap[o].get(k)
        if v is not None:
            I.heap[o][k] = Val(v.atoms, v.labels | {l})
            n[l] = n.get(l, 0) + 1
    # the labels of weights and distributions of the leaves (not of the prior distributions of the tree, which no query may use)
    for leaf in reachable(I, [S.tree]):
        if okname(leaf) != 'Leaf':
            continue
        put(leaf, 'prior', 'W')
        for d in I.fields(leaf).get('distributions', Val([])).atoms:
            for o in reachable(I, [Val([d])]):
                if o.kind == 'inst' and okname(o) in CLS and o.phase == 'learn':
                    l = 'D:' + CLS[okname(o)]
                    for f, v in list(I.heap[o].items()):
                        if f not in ('_params', '_quantile'):
                            continue
                        for x in reachable(I, [v]):
                            if x.kind == 'ndarray':
                                put(x, 'elem', l)
                            elif x.kind == 'inst' and okname(x).endswith('Function'):
                                for k in list(I.heap[x]):
                                    if any(not isinstance(y, Obj) for y in I.heap[x][k].atoms):
                                        put(x, k, l)
    I.present = ('input', 'query input', 'path')      # the assignments that the client makes
    return S, n


def deep(I, v, seen=None):
    seen = set() if seen is None else seen
    out = set(v.labels)
    for a in v.atoms:
        if isinstance(a, Tup):
            for x in a.items:
                out |= deep(I, x, seen)
        elif isinstance(a, Obj) and a.kind != 'class' and a not in seen:
            seen.add(a)
            for k, x in I.fields(a).items():
                out |= deep(I, x, seen)
    return out


class Merges:
    """the labels of each distribution that is merged, and of the weights"""
    def __init__(self):
        self.seen = {}
        self.weights = []

    def on_call(self, I, frame, node, fn, env):
        if env and getattr(fn, 'name', '') == 'merge' and 'distributions' in env and frame is not None and frame.module is not None \
                and frame.module.name.endswith('.trees'):
            els = []
            for a in env['distributions'].atoms:
                if isinstance(a, Obj):
                    for v in I.fields(a).values():
                        els += [x for x in v.atoms if isinstance(x, Obj) and x.kind == 'inst']
            for d in els:
                self.seen[d] = deep(I, Val([d]))
            if 'weights' in env and els:
                self.weights.append((sorted({okname(d) for d in els}), deep(I, env['weights'])))


class PriorStores:
    """values that become the weight of a leaf"""
    def __init__(self):
        self.seen = {}

    def on_mutate(self, I, frame, node, obj, field, val, how):
        if field == 'prior' and isinstance(obj, Obj) and okname(obj) == 'Leaf' and frame is not None and frame.fn is not None \
                and getattr(frame.fn, 'name', '') != '__init__' and val is not None and val.atoms and not all(a == Const(None) for a in val.atoms):
            self.seen['%s, line %s' % (frame.fn.name, getattr(node, 'lineno', '?'))] = val.labels


class Divisions:
    """the labels of a divisor appear as '/label' in the quotient (the distributions divide for reasons of their own)"""
    def on_binop(self, I, fr, node, op, l, r, out):
        if op is ast.Div and fr is not None and fr.module is not None and 'distributions' not in fr.module.name:
            return Val(out.atoms, l.labels | frozenset('/' + x.lstrip('/') for x in r.labels))

    def on_ext(self, I, fr, node, name, args, kwargs, ret):
        if any(x in name for x in ('average', 'divide', 'normaliz')) and fr is not None and fr.module is not None and 'distributions' not in fr.module.name:
            ls = frozenset('/' + x for a in list(args) + list(kwargs.values()) if isinstance(a, Val) for x in deep(I, a) if not x.startswith('/'))
            return ret.with_labels(ls)


def data_flow(j):
    return j[1] in DATA_FLOW or j[1] == 't_expectation' and j[2][0].v != 'sym'


def about(j):
    """whether the evidence is about the queried variable"""
    return j[2][1] == 'E_' + j[2][0].v or j[2][1].startswith('e_both')


class Scenario:
    """what the queries find on the paths of the leaves, and the size of intervals"""
    def __init__(self, S, t, path, size):
        self.S, self.path, self.size = S, path, size
        self.maker = 'path_none' if path == 'none' else 'path_' + t[5:]

    def __call__(self, fn, args, kwargs, node, frame):
        if self.path and fn.name == 'path' and fn.cls is not None and fn.cls.name == 'Node':
            return self.value
        if self.size and fn.name == 'size' and fn.cls is not None and fn.cls.name == 'ContinuousSet':
            return Val([Const(1 if self.size == 'one' else float('inf'))])
        return None

    def prepare(self):
        if self.path:
            self.value = self.S.w.call(self.maker, self.S.tree)


def analyse(Ss, j, flow):
    """in the mode `flow`, labels follow the data and index values only, otherwise also conditions"""
    vs, fn, mk = j[:3]
    path, size, order = j[6:]
    S = Ss[vs][0]
    I = S.i
    h = Merges()
    ps = PriorStores()
    I.hooks += [h, ps]
    I.memo.clear()
    I.unroll = order
    I.sizes.clear()
    I.implicit, I.index = not flow, True
    I.hooks.append(Divisions())
    sc = Scenario(S, vs, path, size)
    I.models.overrides.append(sc)

    def th():
        h.seen.clear()
        ps.seen.clear()
        h.weights.clear()
        I.phase = 'path'
        sc.prepare()
        args = []
        for m in mk:
            I.phase = 'query input' if isinstance(m, str) and m[:2] in ('Q_', 'q_') else 'input'
            args.append(Val([m]) if isinstance(m, Const) else S.w.call(m, S.tree))
            if size and isinstance(m, str) and m[0] in 'Ee':
                for o in reachable(I, [args[-1]]):
                    if o.kind == 'set' and o.phase == 'input':
                        I.sizes[o] = 1 if size == 'one' else 2
        I.phase = 'query'
        return S.w.call(fn, S.tree, *args)
    r = I.run(th, max_iter=15)
    merged = [('E' in l or 'F' in l, okname(d)) for d, l in h.seen.items()]
    return r is not None, deep(I, r) if r is not None else set(), unreached(S, fn), sorted(S.w.last_raises), merged, list(h.weights), ps.seen


def rule_C07(ctx):
    ctx.rule('dependence analysis (data flow, index values, guarding conditions): every input that the definition of a query mentions reaches its result, '
             'separately for leaves whose paths restrict the variables or not, for evidence of one and of several values, and for both orders of two evidence variables')
    Ss = {}
    for a, b in PAIRS:
        t = 'vars_%s_%s' % (a, b)
        Ss[t] = session(ctx.root, t)
        for l in ('W', 'D:' + a, 'D:' + b):
            ctx.count('labelled slots', Ss[t][1].get(l, 0))
            if not Ss[t][1].get(l):
                ctx.skip('%s: %s' % (t, WORDS[l]), 'no such slots found in the model')
    js = sorted(jobs(), key=lambda j: ('mpe' not in j[1], j[1]))
    keyed = {(words(j), data_flow(j)): j for j in js}
    assert len(keyed) == len(js)
    keyed.update({(words(j), False): j for j in js if j[1] == 't_posterior' and about(j)})
    res = fork_map(lambda k: analyse(Ss, keyed[k], k[1]), list(keyed), limit=300)
    for (k, flow), j in keyed.items():
        r = res[k, flow]
        if isinstance(r, Failure):
            ctx.skip(k, r.why.strip().split('\n')[0][:200])
            continue
        returns, labels, missing, raises, merged, weights, stores = r
        if not returns:
            ctx.skip(k, 'the operation never returns in the analysis (raises %s)' % ', '.join(raises))
            continue
        ctx.count('operations analysed')
        if not flow and j[1] == 't_posterior':
            for has, cls in merged:
                if has:
                    ctx.ok(k + ': merged ' + cls, 'the merged distributions are restricted to the evidence')
                else:
                    ctx.bad(k + ': merged ' + cls, 'posterior merges distributions of %s that do not depend on the evidence about this variable' % j[2][0].v)
            ctx.count('merged distributions', len(merged))
            continue
        for l in sorted(j[3]):
            name = l.lstrip('/')
            if name.startswith(('D:', 'W')) and not Ss[j[0]][1].get(name):
                continue
            if l in labels:
                ctx.ok('%s: %s' % (k, l), '%s depends on %s' % ('the divisor' if name != l else 'the result', WORDS[name]))
            elif name != l:
                ctx.bad('%s: %s' % (k, l), 'no divisor of the result of %s depends on %s' % (k, WORDS[name]))
            else:
                ctx.bad('%s: %s' % (k, l), 'the result of %s cannot depend on %s' % (k, WORDS[l]))
        for where, ls in sorted(stores.items()) if j[1] == 't_conditional_weights' else ():
            ctx.ob('%s: %s' % (k, where), 'W' in ls, 'the weight that %s gives to a leaf does not depend on its previous weight' % where)
            ctx.count('stores of weights')
        for cls, ls in weights:
            for l in sorted(j[5]):
                if l in ls:
                    ctx.ok('%s: weights of merged %s: %s' % (k, '/'.join(cls), l), 'the weights depend on ' + WORDS[l])
                else:
                    ctx.bad('%s: weights of merged %s: %s' % (k, '/'.join(cls), l), 'the weights of the merged distributions do not depend on ' + WORDS[l])
            ctx.count('weights of merges')
    ctx.floor('operations analysed', 30)
    ctx.floor('labelled slots', 6)
