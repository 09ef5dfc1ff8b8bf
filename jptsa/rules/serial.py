"""C01-C03: what is encoded comes back.

Every scalar slot of a learned model (of a variable, of a distribution) is given an identity of its own by the abstract
interpreter; the value is then passed through the encode/decode operations of the public interface, and each slot of the result has to hold
the identity that was in the same slot of the original."""
import ast

from ..ctx import Failure, fork_map
from ..driver import Session
from ..roundtrip import Diff, defaults_of, okname, reachable, tag_scalars
from ..absint import BOT, Obj, Opaque, Val, joinall

EXTRA = '''
def m_json(x):
    return JPT.from_json(x.to_json())

def m_setstate(x):
    t = JPT(variables=x.variables)
    t.__setstate__(x.__getstate__())
    return t

def m_copy(x):
    return x.copy()

def s_json(x):
    s = SequentialJPT(x)
    s.transition_model = np.array([[FLOAT, FLOAT], [FLOAT, FLOAT]])
    return SequentialJPT.from_json(s.to_json())

def v_json(x):
    return Variable.from_json(x.to_json())

def v_copy(x):
    return x.copy()

def vn_setstate(x):
    v = NumericVariable('other')
    v.__setstate__(x.__getstate__())
    return v

def vs_setstate(x):
    v = SymbolicVariable('other', SymbolicType('OtherType', ['a']))
    v.__setstate__(x.__getstate__())
    return v

def vi_setstate(x):
    v = IntegerVariable('other', IntegerType('OtherType', 1, 2))
    v.__setstate__(x.__getstate__())
    return v

def t_json(x):
    return Distribution.from_json(x.domain.to_json())

def d_json(x):
    return type(x).from_json(x.to_json())

def d_copy(x):
    return x.copy()

def q_json_(x):
    return QuantileDistribution.from_json(x.to_json())

def p_json(x):
    return PiecewiseFunction.from_json(x.to_json())

def l_json(x):
    return LinearFunction.from_json(x.to_json())

def quad_json(x):
    return QuadraticFunction.from_json(x.to_json())

def c_json(x):
    return ContinuousSet.from_json(x.to_json())

def c_setstate(x):
    s = ContinuousSet(0, 1)
    s.__setstate__(x.__getstate__())
    return s

def r_json(x):
    return RealSet.from_json(x.to_json())

def r_setstate(x):
    s = RealSet()
    s.__setstate__(x.__getstate__())
    return s

def mk_quad():
    return QuadraticFunction(FLOAT, FLOAT, FLOAT)

def mk_cset():
    return ContinuousSet(FLOAT, FLOAT, INT, INT)

def mk_rset():
    return RealSet([ContinuousSet(FLOAT, FLOAT, INT, INT), ContinuousSet(FLOAT, FLOAT, INT, INT)])

def mk_assign():
    a = LabelAssignment()
    for v in make_vars():
        a[v] = pick(FLOAT, STR, INT)
    return a
'''
IMPORTS = '''
import numpy as np
from jpt.sequential_trees import SequentialJPT
from jpt.base.functions import LinearFunction, QuadraticFunction, ConstantFunction, PiecewiseFunction
'''


def session(ctx):
    S = Session(ctx.root, extra=IMPORTS + EXTRA, splitparts=True)
    S.learn()
    ctx.count('functions analysed while learning the model', len(S.i.analysed))
    return S


def objects(S, cls):
    """the learned objects of one class"""
    I = S.i
    return sorted((o for o in reachable(I, [S.tree]) if o.kind in ('inst', 'dict') and okname(o) == cls and o.phase != 'input'),
                  key=lambda o: (repr(o), repr(o.site)))


def selections(branches, before):
    """The tests of encoders and decoders that let the value of a slot decide what is kept: 0, '' or an empty collection are values
    like any other.  Tests for None or for a type, tests that only guard a raise, and functions that the original itself was built
    with (what they normalise is normal in the original, too) do not count."""
    out, n = {}, 0
    for fn, test, v in branches:
        if fn is None or fn.node is None or fn.uid in before:
            continue
        n += 1
        tags = {l.split('#')[0] for l in v.labels if isinstance(l, str) and '#' in l}
        tags |= {a.tag[0] for a in v.atoms if isinstance(a, Opaque) and isinstance(a.tag, tuple)}
        role = role_of(fn.node, test)
        if role == 'guard' or harmless(test):
            continue
        if role == 'filter':
            tags |= {okname(a) for a in v.atoms if isinstance(a, Obj) and a.kind in ('list', 'dict', 'set', 'ndarray')}
        if tags:
            out['%s decides in %s' % (', '.join(sorted(tags)[:3]), fn.qual if isinstance(fn.qual, str) else fn.name)] = \
                'line %s: what is kept depends on the value through `%s`' % (getattr(test, 'lineno', '?'), ast.unparse(test)[:80])
    return out, n


def harmless(test):
    if isinstance(test, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in test.ops):
        return True
    return isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ('isinstance', 'issubclass', 'hasattr', 'callable')


def role_of(fn, test):
    for x in ast.walk(fn):
        if isinstance(x, ast.If) and any(y is test for y in ast.walk(x.test)):
            if all(isinstance(s, (ast.Raise, ast.Assert)) for s in x.body[-1:]) or x.orelse and isinstance(x.orelse[-1], ast.Raise):
                return 'guard'
        elif isinstance(x, ast.Assert) and any(y is test for y in ast.walk(x.test)):
            return 'guard'
        elif isinstance(x, ast.comprehension) and any(y is test for c in x.ifs for y in ast.walk(c)):
            return 'filter'
        elif isinstance(x, ast.BoolOp) and isinstance(x.op, ast.Or) and any(y is test for v in x.values[:-1] for y in ast.walk(v)) and \
                isinstance(x.values[-1], ast.Constant) and x.values[-1].value is not None and not x.values[-1].value:
            return 'guard'          # x or 0
    return None


def trip(S, arg, query, via=None):
    """-> (problems {path: {kind: message}}, compared paths)"""
    I = S.i
    objs = [o for o in reachable(I, [S.tree, arg]) if o.phase != 'input']
    df = defaults_of(I, list(I.heap))
    tags = tag_scalars(I, objs)
    before = set(I.analysed)
    I.branches = []
    r = S.query(query, args=[arg])[query]
    sel, ntests = selections(I.branches, before)
    I.branches = None
    d = Diff(I, defaults=df)
    if r is None or r.bot:
        return {'result': {'raise': 'never returns a value'}}, ['result'], 0, sel, ntests
    orig = arg
    if via == 'domain':
        orig = joinall(I.field(o, '_domain', BOT) for o in arg.atoms if isinstance(o, Obj))
    if via == 'seq':
        r = joinall(I.field(o, 'template_tree', BOT) for o in r.atoms if isinstance(o, Obj))
    d.compare(orig, r, 'result')
    return d.out, sorted(d.slots), tags, sel, ntests


def decide(ctx, S, jobs):
    """jobs: [(name, argument maker, query, via)]"""
    def work(k):
        name, mk, q, via = jobs[k]
        arg = mk()
        if arg is None or arg.bot:
            return None
        return trip(S, arg, q, via)
    res = fork_map(work, range(len(jobs)))
    merged = {}
    for k, (name, mk, q, via) in enumerate(jobs):
        r = res[k]
        if isinstance(r, Failure):
            ctx.skip(name, r.why)
            continue
        if r is None:
            ctx.skip(name, 'no such object in the learned model')
            continue
        out, slots, tags, sel, ntests = r
        m = merged.setdefault(name, [{}, set(), 0, {}])
        m[3].update(sel)
        ctx.count('branches of encoders and decoders decided by unknown values', ntests)
        for p, kinds in out.items():
            m[0].setdefault(p, {}).update(kinds)
        m[1].update(slots)
        m[2] += tags
        ctx.count('identities tracked', tags)
    for name, (out, slots, tags, sel) in sorted(merged.items()):
        ctx.count('encode/decode operations')
        for key, msg in sorted(sel.items()):
            ctx.bad('%s: %s' % (name, key), msg)
        base = ctx.baseline.get(name, {})
        new = ctx.newbase.setdefault(name, {})
        for p in sorted(slots):
            probs = out.get(p, {})
            new[p] = sorted(probs)
            key = '%s %s' % (name, p)
            if not ctx.rebase and p not in base:
                continue            # a slot that the reference tree does not have
            exempt = set(base.get(p, ())) if not ctx.rebase else set(probs)
            ctx.count('slots compared')
            left = {k: m for k, m in probs.items() if k not in exempt}
            if not left:
                if not exempt:
                    ctx.ok(key, 'holds the identity of the original slot')
                continue
            if set(left) <= {'vague'}:
                ctx.skip(key, 'the origin of the value is not known: ' + '; '.join(left.values()))
                continue
            ctx.bad(key, '; '.join(m for k, m in sorted(left.items()) if k != 'vague'))


def const(v):
    return lambda: v


def parts(S, cls):
    os = objects(S, cls)
    return [const(Val([o])) for o in os]


def rule_C01(ctx):
    ctx.rule('slot identity: each scalar slot reachable from a learned model must hold the same identity after to_json/from_json, '
             '__getstate__/__setstate__ and copy')
    S = session(ctx)
    T = const(S.tree)
    decide(ctx, S, [('JPT.from_json(JPT.to_json())', T, 'm_json', None),
                    ('JPT.__setstate__(JPT.__getstate__())', T, 'm_setstate', None),
                    ('JPT.copy()', T, 'm_copy', None),
                    ('SequentialJPT.from_json(SequentialJPT.to_json())', T, 's_json', 'seq')])
    if not ctx.rebase:
        ctx.floor('encode/decode operations', 2)


def rule_C02(ctx):
    ctx.rule('slot identity: each scalar slot of a variable (name, domain parameters, settings) must hold the same identity after '
             'to_json/from_json, __getstate__/__setstate__ and copy')
    S = session(ctx)
    jobs = []
    for cls, ss in (('NumericVariable', 'vn_setstate'), ('SymbolicVariable', 'vs_setstate'), ('IntegerVariable', 'vi_setstate')):
        for mk in parts(S, cls):
            jobs += [('Variable.from_json(%s.to_json())' % cls, mk, 'v_json', None),
                     ('%s.copy()' % cls, mk, 'v_copy', None),
                     ('%s.__setstate__(__getstate__())' % cls, mk, ss, None),
                     ('Distribution.from_json(%s.domain.to_json())' % cls, mk, 't_json', 'domain')]
    decide(ctx, S, jobs)
    if not ctx.rebase:
        ctx.floor('encode/decode operations', 6)


def rule_C03(ctx):
    ctx.rule('slot identity: each scalar slot of a distribution, quantile function, piecewise function or interval must hold the '
             'same identity after to_json/from_json, __getstate__/__setstate__ and copy')
    S = session(ctx)
    jobs = []
    for cls in ('Numeric', 'ScaledNumeric', 'Multinomial', 'Integer'):
        for mk in parts(S, cls):
            jobs += [('%s.from_json(%s.to_json())' % (cls, cls), mk, 'd_json', None), ('%s.copy()' % cls, mk, 'd_copy', None)]
    for cls, q in (('QuantileDistribution', 'q_json_'), ('PiecewiseFunction', 'p_json'), ('LinearFunction', 'l_json'),
                   ('ConstantFunction', 'l_json'), ('ContinuousSet', 'c_json')):
        for mk in parts(S, cls)[:6]:
            jobs += [('%s.from_json(%s.to_json())' % (cls, cls), mk, q, None), ('%s.copy()' % cls, mk, 'd_copy', None)]
            if cls == 'ContinuousSet':
                jobs += [('ContinuousSet.__setstate__(__getstate__())', mk, 'c_setstate', None)]

    def made(fn):
        def mk():
            S.i.phase = 'learn'
            return S.query(fn, phase='learn', args=[])[fn]
        return mk
    jobs += [('QuadraticFunction.from_json(to_json())', made('mk_quad'), 'quad_json', None),
             ('QuadraticFunction.copy()', made('mk_quad'), 'd_copy', None),
             ('RealSet.from_json(to_json())', made('mk_rset'), 'r_json', None),
             ('RealSet.copy()', made('mk_rset'), 'd_copy', None),
             ('RealSet.__setstate__(__getstate__())', made('mk_rset'), 'r_setstate', None),
             ('ContinuousSet.from_json(to_json())', made('mk_cset'), 'c_json', None),
             ('ContinuousSet.copy()', made('mk_cset'), 'd_copy', None)]
    decide(ctx, S, jobs)
    if not ctx.rebase:
        ctx.floor('encode/decode operations', 12)
