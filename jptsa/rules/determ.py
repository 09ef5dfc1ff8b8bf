"""C10: learning and queries are deterministic; samples come from the global generators."""
import re

from ..absint import Val
from ..ctx import Failure, fork_map
from ..driver import Session
from . import effects
from .depends import deep

RNG = re.compile(r'^(numpy\.random|np\.random|random|secrets|scipy\.stats|uuid)\.|^(os\.urandom|libc\.stdlib\.s?rand|posix\.urandom|rand|srand|drand48)$')
CLOCK = re.compile(r'^time\.|^datetime\.|(^|\.)(now|today|utcnow|getpid|gethostname|perf_counter|monotonic|process_time|cpu_count|getenv|environ|'
                   r'getloadavg|virtual_memory|get_ident|getrandbits)$|^id$')
GLOBALS = {'uniform', 'choice', 'random', 'randint', 'normal', 'rand', 'randn', 'shuffle', 'permutation', 'sample', 'random_sample', 'choices', 'multinomial',
           'gauss', 'normalvariate', 'randrange', 'exponential', 'standard_normal', 'multivariate_normal', 'integers', 'beta', 'triangular'}
METHODS = {'sample', 'shuffle', 'rvs'}
SAMPLES = '''
def s_tree(tree):
    tree.sample(INT)

def s_leaf(tree):
    for leaf in tree.leaves.values():
        leaf.sample(INT)

def s_num(tree):
    for leaf in tree.leaves.values():
        for d in [leaf.distributions['num'], leaf.distributions['sca']]:
            d.sample(INT)
            d._sample(INT)
            d.sample_one()

def s_sym(tree):
    for leaf in tree.leaves.values():
        d = leaf.distributions['sym']
        d.sample(INT)
        d._sample(INT)

def s_int(tree):
    for leaf in tree.leaves.values():
        d = leaf.distributions['int']
        d.sample(INT)
        d._sample(INT)

def s_sets(tree):
    ContinuousSet(FLOAT, FLOAT).sample(INT)
    RealSet([ContinuousSet(FLOAT, FLOAT), ContinuousSet(FLOAT, FLOAT)]).sample(INT)
'''


class Externals:
    """calls of generators of random numbers; what comes from the clock or the environment carries a label"""
    def __init__(self):
        self.rng = {}
        self.clock = {}
        self.calls = 0
        self.results = {}

    def on_ext(self, I, frame, node, name, args, kwargs, ret):
        self.calls += 1
        n = name[9:] if name.startswith('builtins.') else name
        where = '%s:%s %s' % (frame.module.rel if frame is not None and frame.module is not None else '?', getattr(node, 'lineno', 0),
                              frame.fn.qual if frame is not None and frame.fn is not None and hasattr(frame.fn, 'qual') else '')
        if RNG.search(n) or n[:1] == '.' and n[1:] in METHODS and not {'random_state', 'seed'} & set(kwargs):
            self.rng[where, n] = (n.rpartition('.')[2], bool(args or kwargs))
        elif CLOCK.search(n):
            self.clock[where, n] = True
            return Val(ret.atoms, ret.labels | {'CLOCK:' + n}) if ret is not None else None
        return None

    def on_return(self, I, frame, node, fn, env, ret):
        if frame is not None and frame.module is not None and frame.module.name == 'client' and ret is not None:
            self.results[getattr(node, 'lineno', 0), getattr(fn, 'name', '?')] = ret
        return None


def analyse(S, q, maker):
    I = S.i
    I.memo.clear()
    I.implicit = True
    h = Externals()
    I.hooks.append(h)
    r = effects.call_with_inputs(S, q, maker)
    bad = set()
    for k, v in h.results.items():
        for l in deep(I, v):
            if isinstance(l, str) and l.startswith('CLOCK:'):
                bad.add((k[1], l[6:]))
    return r.get('r') is not None, sorted(h.rng.items()), sorted(h.clock), sorted(bad), h.calls, len(h.results), sorted(S.w.last_raises)


def session(root, learn):
    text = '\n'.join(l for l in effects.ARGS.split('\n') if not re.search(r'\._?sample(_one)?\(', l) or l.startswith('def '))
    text = text.replace('def p_sample(tree):\n', '')
    S = Session(root, extra=text + SAMPLES)
    if learn:
        S.learn()
    else:
        from ..absint import NONE
        S.tree = NONE
    return S


def rule_C10(ctx):
    ctx.rule('call and dependence analysis: no generator of random numbers is reached from learning or from a query that does not sample, and no result '
             'depends on the clock or the environment of the process; sampling reaches only the global generators of numpy and random, and never seeds them')
    Q = [j for j in effects.QUERIES if j[0] != 'p_sample']
    SM = [('s_' + x, 'a_none') for x in ('tree', 'leaf', 'num', 'sym', 'int', 'sets')]
    Ss = {True: session(ctx.root, True), False: session(ctx.root, False)}
    jobs = [(True,) + j for j in sorted(Q, key=lambda j: effects.SLOWFIRST.index(j[0]) if j[0] in effects.SLOWFIRST else 99) + SM] + \
           [(False,) + j for j in effects.LEARN]
    res = fork_map(lambda j: analyse(Ss[j[0]], j[1], j[2]), jobs, limit=300)
    for j in jobs:
        r = res[j]
        k = '%s(%s)' % (j[1][2:], j[2][2:])
        sampling = j[1].startswith('s_')
        if sampling:
            k = 'sample ' + k
        if isinstance(r, Failure):
            ctx.skip(k, r.why.strip().split('\n')[0][:200])
            continue
        returns, rng, clock, bad, calls, results, raises = r
        ctx.count('operations analysed')
        ctx.count('calls outside the repository examined', calls)
        ctx.count('results examined', results)
        if not returns:
            ctx.skip(k, 'the operation never returns in the analysis (raises %s)' % ', '.join(raises))
        fine = True
        for (where, n), (last, hasargs) in rng:
            if n.startswith('uuid.') and j[1] == 'l_infer':
                continue        # unique names of value domains, asked for by unique_domain_names
            ctx.count('reached calls of generators')
            if not sampling:
                fine = False
                ctx.bad('%s: %s in %s' % (k, n, where.split(' ')[-1]), '%s calls %s, but this operation has to be deterministic' % (where, n))
            elif last not in GLOBALS and not (last in ('RandomState', 'default_rng', 'Random') and hasargs):
                fine = False
                ctx.bad('%s: %s in %s' % (k, n, where.split(' ')[-1]), '%s calls %s: samples have to come from the global generators, which the caller seeds' % (where, n))
        for fn, n in bad:
            fine = False
            ctx.bad('%s: %s' % (k, n), 'the result of %s depends on %s' % (fn, n))
        if fine:
            ctx.ok(k, 'samples from the global generators' if sampling else 'reaches no generator of random numbers, does not depend on the clock')
    ctx.floor('operations analysed', 30)
    ctx.floor('reached calls of generators', 3)
