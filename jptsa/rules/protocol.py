"""C08: impossible evidence is reported as requested.  C09: assignments of variables that the model does not have are rejected."""
import ast

from ..absint import Const, Val
from ..ctx import Failure, fork_map
from ..driver import Session

CLIENT = '''
F_NUM = NumericVariable('other', Numeric)
F_SYM = SymbolicVariable('othersym', SymbolicType('OtherSym', ['a', 'b']))
F_INT = IntegerVariable('otherint', IntegerType('OtherInt', 0, 5))
F_SAME = NumericVariable('num', Numeric)

def f_value_num(tree):
    return ValueAssignment([(F_NUM, ContinuousSet(FLOAT, FLOAT))], variables=[F_NUM])

def f_value_sym(tree):
    return ValueAssignment([(F_SYM, {INT})], variables=[F_SYM])

def f_value_int(tree):
    return ValueAssignment([(F_INT, {INT})], variables=[F_INT])

def f_label_num(tree):
    return LabelAssignment([(F_NUM, ContinuousSet(FLOAT, FLOAT))], variables=[F_NUM])

def f_label_sym(tree):
    return LabelAssignment([(F_SYM, {STR})], variables=[F_SYM])

def f_value_twin(tree):
    return ValueAssignment([(F_SAME, ContinuousSet(FLOAT, FLOAT))], variables=[F_SAME])

def f_label_twin(tree):
    return LabelAssignment([(F_SAME, ContinuousSet(FLOAT, FLOAT))], variables=[F_SAME])

def f_name(tree):
    return {'other': FLOAT}

def known_value(tree):
    return ValueAssignment([(tree.varnames['num'], ContinuousSet(FLOAT, FLOAT))], variables=tree.variables)

def known(tree):
    return evany(tree)

def infer_query(tree, e, f):
    return tree.infer(e, fail_on_unsatisfiability=f)

def infer_evidence(tree, e, f, k):
    return tree.infer(k, e, fail_on_unsatisfiability=f)

def posterior(tree, e, f):
    return tree.posterior(None, e, fail_on_unsatisfiability=f)

def posterior_report(tree, e, f):
    return tree.posterior(None, e, fail_on_unsatisfiability=f, report_inconsistencies=True)

def expectation(tree, e, f):
    return tree.expectation(None, e, fail_on_unsatisfiability=f)

def mpe(tree, e, f):
    return tree.mpe(e, fail_on_unsatisfiability=f)

def moment(tree, e, f):
    return tree.moment(INT, None, e, fail_on_unsatisfiability=f)

def conditional_jpt(tree, e, f):
    return tree.conditional_jpt(e, fail_on_unsatisfiability=f)

def default_infer_evidence(tree, e, f, k):
    return tree.infer(k, e)

def default_posterior(tree, e, f):
    return tree.posterior(None, e)

def default_expectation(tree, e, f):
    return tree.expectation(None, e)

def default_mpe(tree, e, f):
    return tree.mpe(e)

def default_moment(tree, e, f):
    return tree.moment(INT, None, e)

def default_conditional_jpt(tree, e, f):
    return tree.conditional_jpt(e)

def pdf(tree, e, f):
    return tree.pdf(e)

def bind(tree, e, f):
    return tree.bind(e)
'''
FLAGGED = ['infer_evidence', 'posterior', 'posterior_report', 'expectation', 'mpe', 'moment', 'conditional_jpt']
DEFAULT = ['default_' + q for q in FLAGGED if q != 'posterior_report']
FOREIGN = [(q, e) for q in ('infer_query', 'infer_evidence', 'posterior', 'expectation', 'mpe', 'moment', 'conditional_jpt', 'pdf')
           for e in ('f_value_num', 'f_value_sym', 'f_value_int', 'f_label_num', 'f_label_sym', 'f_value_twin', 'f_label_twin')] + \
          [(q, 'f_name') for q in ('infer_query', 'infer_evidence', 'posterior', 'expectation', 'mpe', 'moment', 'conditional_jpt', 'bind')]


class Raises:
    """raises of errors for impossible evidence, apart from those of queries that the query itself makes without any evidence"""
    def __init__(self):
        self.sites = set()

    def on_raise(self, I, frame, node, names):
        key, seen = frame.key, set()
        while key is not None and key not in seen:
            seen.add(key)
            if len(key) > 3 and len(seen) < 60:
                env = dict(key[1])
                if 'evidence' in env and env['evidence'].atoms == {Const(None)}:
                    return
            key = I.callers.get(key, (None,))[0]
        self.sites.add(node)


def analyse(S, q, ev, flag, present=('input',)):
    I = S.i
    I.memo.clear()
    I.present = present
    res = {}

    def th():
        I.phase = 'known'
        k = [S.w.call('known_value', S.tree)] if 'infer_evidence' in q else []
        I.phase = 'input'
        e = S.w.call(ev, S.tree)
        I.phase = 'query'
        res.update(e=e, r=None)
        if e is None:
            return res
        res['r'] = S.w.call(q, S.tree, e, Val([Const(flag)]), *k)
        return res
    hook = Raises()
    I.hooks.append(hook)
    I.run(th, max_iter=15)
    I.hooks.remove(hook)
    r = res['r']
    raises = {k: sorted('%s:%d' % (n._mod.rel if getattr(n, '_mod', None) is not None else '?', getattr(n, 'lineno', 0)) for n in v)[:4]
              for k, v in S.w.last_raises.items()}
    unsat = sorted({'%s:%d' % (n._mod.rel, n.lineno) for c, v in S.w.last_raises.items() for n in v
                    if n in hook.sites and getattr(n, '_mod', None) is not None and not n._mod.name.startswith('jpt.distributions')
                    and (c == 'Unsatisfiability' or any('satisfiab' in x.value for x in ast.walk(n)
                                                        if isinstance(x, ast.Constant) and isinstance(x.value, str)))})
    raises['impossible evidence'] = unsat
    return res['e'] is not None, None if r is None else sorted({'None' if a == Const(None) else 'a result' for a in r.atoms}), raises


def session(ctx):
    S = Session(ctx.root, extra=CLIENT)
    S.learn()
    ctx.count('functions analysed while building the model', len(S.i.analysed))
    return S


def rule_C08(ctx):
    ctx.rule('value analysis of the queries for both values of fail_on_unsatisfiability: None cannot be returned if failing is requested, and can be '
             'returned if it is not; then no raise for impossible evidence (outside of the distributions) is reached')
    S = session(ctx)
    jobs = [(q, f) for q in FLAGGED for f in (True, False)] + [(q, None) for q in DEFAULT]
    res = fork_map(lambda j: analyse(S, j[0], 'known', j[1]), jobs, limit=300)
    for q, f in jobs:
        r = res[q, f]
        k = '%s(%s)' % (q, {True: 'fail_on_unsatisfiability=True', False: 'fail_on_unsatisfiability=False', None: ''}[f])
        if isinstance(r, Failure):
            ctx.skip(k, r.why.strip().split('\n')[0][:200])
            continue
        _, atoms, raises = r
        unsat = raises.pop('impossible evidence')
        ctx.count('operations analysed')
        if f is False:
            ctx.ob(k + ': no error for impossible evidence', not unsat, 'no such raise is reached' if not unsat else
                   'raises at %s although failing is not requested' % ', '.join(unsat))
        if atoms is None:
            if f is False:
                ctx.bad(k, 'always raises (%s) although failing is not requested' % ', '.join(sorted(raises)))
            else:
                ctx.skip(k, 'never returns in the analysis (%s)' % ', '.join(sorted(raises)))
            continue
        if 'a result' not in atoms:
            ctx.bad(k, 'never returns anything but None')
        elif f is False:
            ctx.ob(k, 'None' in atoms, 'returns None for impossible evidence' if 'None' in atoms else
                   'never returns None: impossible evidence is not reported as such (raises %s)' % ', '.join(sorted(raises)))
        else:
            ctx.ob(k, 'None' not in atoms, 'never returns None' if 'None' not in atoms else 'can return None although failing is requested')
    ctx.floor('operations analysed', 12)


def rule_C09(ctx):
    ctx.rule('reachability: no path of a query returns if its only assignment is for a variable that is not an instance of the model')
    S = session(ctx)
    res = fork_map(lambda j: analyse(S, j[0], j[1], True, ('input', 'query')), FOREIGN, limit=300)
    for q, e in FOREIGN:
        r = res[q, e]
        k = '%s(%s)' % (q, e[2:])
        if isinstance(r, Failure):
            ctx.skip(k, r.why.strip().split('\n')[0][:200])
            continue
        made, atoms, raises = r
        raises.pop('impossible evidence')
        if not made:
            ctx.skip(k, 'the assignment cannot be built')
            continue
        ctx.count('operations analysed')
        ctx.ob(k, atoms is None, 'raises ' + ', '.join(sorted(raises)) if atoms is None else 'accepts the variable: a path returns %s' % ' or '.join(atoms))
        ctx.samples.append('%s: %s' % (k, raises))
    ctx.floor('operations analysed', 20)
