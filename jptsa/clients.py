"""Client programs of the public interface, analysed (never executed) by the abstract interpreter."""

QUERIES = '''
def numval():
    return pick(FLOAT, [FLOAT, FLOAT], ContinuousSet(FLOAT, FLOAT), RealSet([ContinuousSet(FLOAT, FLOAT)]))

def symval():
    return pick(STR, {STR}, [STR])

def intval():
    return pick(INT, {INT}, [INT, INT])

def evdict():
    return {'num': numval(), 'sca': numval(), 'sym': symval(), 'int': intval()}

def evany(tree):
    d = evdict()
    v = {x: y for x, y in zip(tree.variables, [numval(), numval(), symval(), intval()])}
    l = tree.bind(d)
    return pick(d, v, l, l.value_assignment())

def q_bind(tree):
    return tree.bind(evdict()), tree.bind(num=numval(), sym=symval())

def q_infer(tree):
    return tree.infer(evany(tree), evany(tree), fail_on_unsatisfiability=BOOLV), tree.infer(evany(tree))

def q_posterior(tree):
    return tree.posterior(pick(None, ['num', 'sym', 'int', 'sca'], list(tree.variables)), evany(tree),
                          fail_on_unsatisfiability=BOOLV, report_inconsistencies=BOOLV)

def q_posterior_prior(tree):
    return tree.posterior()

def q_expectation(tree):
    return tree.expectation(pick(None, ['num', 'sym', 'int', 'sca'], list(tree.variables)), evany(tree), fail_on_unsatisfiability=BOOLV)

def q_mpe(tree):
    return tree.mpe(evany(tree), fail_on_unsatisfiability=BOOLV)

def q_kmpe(tree):
    return [x for x in tree.kmpe(evany(tree), fail_on_unsatisfiability=BOOLV, k=INT)]

def q_pdf(tree):
    return tree.pdf(tree.bind(evdict())), tree.pdf(tree.bind(evdict()).value_assignment())

def q_likelihood(tree):
    return tree.likelihood(FRAME)

def q_moment(tree):
    c = tree.bind(evdict(), allow_singular_values=True)
    return tree.moment(INT, pick(None, c), pick(None, evany(tree)), fail_on_unsatisfiability=BOOLV)

def q_conditional(tree):
    return tree.conditional_jpt(evany(tree), fail_on_unsatisfiability=BOOLV)

def q_apply(tree):
    return [l for l in tree.apply(evany(tree))]

def q_encode(tree):
    return tree.encode(NDARR)

def q_reverse(tree):
    return tree.reverse(evdict(), FLOAT)

def q_sample(tree):
    return tree.sample(INT)

def q_prune(tree):
    return tree.prune(FLOAT, pick(None, FLOAT, {'num': FLOAT}))

def q_copy(tree):
    return tree.copy()

def q_json(tree):
    return JPT.from_json(tree.to_json())

def q_save(tree):
    tree.save(STR, protocol='json')
    tree.save(STR, protocol='pickle')
    tree.pickle(STR)

def q_getstate(tree):
    return tree.__getstate__()

def q_misc(tree):
    return (tree.depth(), tree.total_samples(), tree.number_of_parameters(), str(tree), repr(tree), tree == tree,
            tree.get_hyperparameters_dict(), tree.numeric_variables, tree.symbolic_targets, tree.features, tree.targets,
            tree.allnodes, hash(tree.variables[0]))

def q_leaf(tree):
    for leaf in tree.leaves.values():
        e = evany(tree)
        v = tree.bind(evdict()).value_assignment()
        leaf.applies(v)
        leaf.probability(v)
        leaf.consistent_with(v)
        leaf.path_consistent_with(v)
        leaf.conditional_leaf(v)
        leaf.copy()
        leaf.mpe(tree.minimal_distances)
        leaf.sample(INT)
        str(leaf)
    for node in tree.innernodes.values():
        node.consistent_with(v)
        str(node)
        node.recursive_children()
        node.format_path()

def q_variable(tree):
    for v in tree.variables:
        v.copy()
        v.to_json()
        str(v)
        v.assignment2set(pick(numval(), symval(), intval()))
'''

DISTS = '''
def dists(tree):
    return [leaf.distributions for leaf in tree.leaves.values()]

def d_num(tree):
    for ds in dists(tree):
        for d in [ds['num'], ds['sca']]:
            d.p(pick(FLOAT, ContinuousSet(FLOAT, FLOAT), RealSet([ContinuousSet(FLOAT, FLOAT)])))
            d._p(pick(FLOAT, ContinuousSet(FLOAT, FLOAT), RealSet([ContinuousSet(FLOAT, FLOAT)])))
            d.expectation()
            d.variance()
            d.quantile(FLOAT)
            d.mpe()
            d._mpe()
            d.mode()
            d.moment(INT, FLOAT)
            d._moment(INT, FLOAT)
            d.crop(pick(FLOAT, ContinuousSet(FLOAT, FLOAT), RealSet([ContinuousSet(FLOAT, FLOAT)])))
            d._crop(pick(FLOAT, ContinuousSet(FLOAT, FLOAT), RealSet([ContinuousSet(FLOAT, FLOAT)])))
            d.sample(INT)
            d._sample(INT)
            d.sample_one()
            d.to_json()
            d.copy()
            d == d
            d.approximate(FLOAT)
            d.is_dirac_impulse()
            d.number_of_parameters()
            Numeric.merge([d, d], [FLOAT, FLOAT])
            d.jaccard_similarity(d, d)
            str(d)

def d_sym(tree):
    for ds in dists(tree):
        d = ds['sym']
        d.p(symval())
        d._p(pick(INT, {INT}))
        d.expectation()
        d.mpe()
        d._mpe()
        [x for x in d.k_mpe(INT)]
        d.crop(symval())
        d._crop(pick(INT, {INT}))
        d.sample(INT)
        d._sample(INT)
        d.to_json()
        d.copy()
        d == d
        d.number_of_parameters()
        Multinomial.merge([d, d], [FLOAT, FLOAT])
        d.jaccard_similarity(d, d)
        str(d)

def d_int(tree):
    for ds in dists(tree):
        d = ds['int']
        d.p(intval())
        d._p(pick(INT, {INT}))
        d.expectation()
        d.variance()
        d.mpe()
        d._mpe()
        [x for x in d.k_mpe(INT)]
        d.crop(intval())
        d._crop(pick(INT, {INT}))
        d.moment(INT, FLOAT)
        d.sample(INT)
        d._sample(INT)
        d.to_json()
        d.copy()
        d == d
        d.number_of_parameters()
        Integer.merge([d, d], [FLOAT, FLOAT])
        d.jaccard_similarity(d, d)
        str(d)
'''
