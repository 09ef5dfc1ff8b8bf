T, V = 'src/jpt/trees.py', 'src/jpt/variables.py'
D = 'src/jpt/distributions/univariate/'
IV, FN, QD = 'src/jpt/base/intervals.pyx', 'src/jpt/base/functions.pyx', 'src/jpt/distributions/quantile/quantiles.pyx'

prop('C01', 'A restored or copied model carries every stored parameter of the original',
     'Serializing a fitted model to its JSON form and restoring it, pickling and unpickling it, or copying it, gives a model in which '
     'every stored parameter (growth hyperparameters, minimal distances, priors, sample counts, node and leaf parameters, variable domains '
     'and settings, distribution parameters) holds exactly the value that the same parameter of the original holds. No parameter is dropped, '
     'replaced by a default, rounded, or filled from another parameter. The same holds for the template model inside a restored sequence model.',
     ['inputs', 'configurations'], 'all variable types, hyperparameters, data sets and tree shapes',
     'The tests save a handful of models with default hyperparameters and compare with an equality that ignores several slots.',
     [T, V, 'src/jpt/sequential_trees.py'],
     [('JPT.to_json/from_json/__getstate__/__setstate__/copy', T), ('Leaf/DecisionNode.to_json/from_json', T)],
     'slot-identity dataflow by abstract interpretation')
prop('C02', 'A restored or copied variable has the domain and settings of the original',
     'Restoring a numeric, symbolic or integer variable from its JSON form, unpickling it, or copying it gives a variable with the same name, '
     'the same domain parameters (class name, scaling, label range, labels) and the same value for each of its settings as the original, '
     'whatever the settings are.',
     ['inputs', 'configurations'], 'all variable types, domains and settings',
     'The tests restore variables that have default settings.',
     [V, D, 'src/jpt/distributions/utils.py'],
     [('Variable.to_json/from_json/copy/__setstate__', V), ('type_to_json/type_from_json of the distributions', D)],
     'slot-identity dataflow by abstract interpretation')
prop('C03', 'Restored distributions, functions and intervals equal what was saved',
     'Restoring a distribution, a quantile distribution, a piecewise function, a linear, constant or quadratic function, an interval or a union of intervals '
     'from its JSON form (intervals: also from their pickled state), or copying it, gives an object in which each parameter, bound, bracket and coefficient '
     'holds exactly the value it has in the original.',
     ['inputs'], 'all parameter values, including those that differ from the defaults',
     'The tests restore a few fixed instances, and some forms (unions of intervals) not at all.',
     [D, QD, FN, IV],
     [('to_json/from_json/copy/__getstate__/__setstate__', 'src/jpt/distributions, src/jpt/base')],
     'slot-identity dataflow by abstract interpretation')
prop('C04', 'Queries leave the model, their arguments and module constants unchanged',
     'Querying a model or a distribution (inference, posteriors, expectations, moments, MPE, conditioning, binding, applying, encoding, likelihood, '
     'sampling, cropping, merging, comparing, printing, copying, saving) writes to no object that existed before the call: not to the model or anything '
     'reachable from it, not to the evidence, query or other arguments that the caller passed, and not to module-level constants such as EMPTY or '
     'INF intervals. So the same query repeated on the same model sees the same model. The only exception are the pdf, cdf and ppf that a '
     'quantile distribution derives on first use and remembers.',
     ['inputs', 'histories'], 'all queries, evidence of every type (scalars, lists, sets, intervals, assignments), all models',
     'The tests compare few results and almost never look at a model or an argument after the query.',
     [T, V, D, IV, FN, QD],
     [('JPT.infer/posterior/expectation/moment/mpe/conditional_jpt/prune/reverse', T), ('_p/_crop/merge/mpe of the distributions', D),
      ('set operations of intervals', IV)],
     'interprocedural effect analysis by abstract interpretation')
prop('C05', 'Learning and inferring variables leave the data of the caller unchanged',
     'Fitting a model or a distribution, creating value domains from data and inferring variables from a data frame never writes to the data frame, '
     'array or list of rows or columns that the caller passed in.',
     ['inputs'], 'all data frames, arrays, lists of rows or columns, and options',
     'The tests do not look at the training data after learning.',
     [T, V, D, QD, 'src/jpt/learning/impurity.pyx'],
     [('JPT.learn/_preprocess_data', T), ('infer_from_dataframe', V), ('NumericType, SymbolicType, _fit', D)],
     'interprocedural effect analysis by abstract interpretation')
prop('C06', 'Copies, posteriors and conditional models share nothing with the model',
     'A copied model, leaf, distribution, function or interval, the distributions of a posterior, a conditional or pruned model, most probable '
     'explanations, and cropped, merged or approximated distributions share no mutable object with the model or the distributions they are made from: '
     'no distribution, parameter array, function, interval, node, path or map that existed before the call is reachable from the result, so changing '
     'the result never changes the model. The result of cropping or of a set operation does not share with its operands either. Variables and their '
     'value domains, the training sample indices of a leaf and the constant for the empty set may be shared.',
     ['inputs', 'histories'], 'all models, distributions, evidence and weights',
     'The tests compare values, which are equal whether or not objects are shared.',
     [T, V, D, IV, FN, QD],
     [('JPT.copy/conditional_jpt/posterior/prune/mpe, Leaf.copy/conditional_leaf', T), ('copy/_crop/merge/approximate of the distributions', D),
      ('copy/crop/merge of functions, set operations of intervals', 'src/jpt/base')],
     'escape and freshness analysis by abstract interpretation')
prop('C07', 'Queries use all evidence, the leaf weights and the distributions they involve',
     'The result of every query depends on each input that defines it, for every combination of numeric, scaled, symbolic and integer variables: '
     'infer on the query, the evidence, the weights of the leaves and the distributions of every variable in the query or the evidence; posterior, '
     'expectation and moment on the evidence, the leaf weights and the distributions of the queried and the evidence variables; the weights of a '
     'conditional model on the evidence, and its distributions of evidence variables, and its priors, on the evidence; the likelihood of an MPE on '
     'evidence, weights and all distributions, and its states of evidence variables on the evidence; pdf and likelihood on all values and '
     'distributions and the weights; samples on weights and distributions. A posterior of a variable with evidence is merged only from distributions that '
     'are restricted to this evidence. This holds for leaves whose paths restrict the variables or not, for evidence of one or several values, and for '
     'every order of several evidence variables. In infer both the joint probability of query and evidence (also about the same variable) and the '
     'probability of the evidence that it is divided by use all of this; conditional weights are products with the previous weights, divided by their sum.',
     ['inputs', 'configurations'], 'all models, queries and evidence',
     'The tests cover few combinations of variable types in query and evidence, mostly one variable at a time.',
     [T, D, QD],
     [('JPT.infer/posterior/expectation/moment/mpe/conditional_jpt/pdf/likelihood/sample', T), ('Leaf.probability/conditional_leaf/mpe', T),
      ('_p/_crop/pdf/merge of the distributions', D)],
     'interprocedural dependence (information flow) analysis by abstract interpretation')
prop('C08', 'Impossible evidence raises if failing is requested and gives None if not',
     'With fail_on_unsatisfiability=True, which is the default, infer, posterior, expectation, moment, mpe and conditional_jpt never return None: they '
     'return a result or raise. With fail_on_unsatisfiability=False they do not raise because the evidence is impossible, but return None then; this '
     'value of the flag takes effect in every step of the query, also in the queries that the query itself makes.',
     ['inputs', 'configurations'], 'all models, queries, evidence and values of the flag',
     'The tests try impossible evidence on a few of the queries, mostly with one value of the flag.',
     [T], [('JPT.infer/posterior/expectation/moment/mpe/conditional_jpt', T)],
     'value analysis by abstract interpretation')
prop('C09', 'Assignments of variables that the model does not have are rejected',
     'infer (for the query and for the evidence), posterior, expectation, moment, mpe, conditional_jpt and pdf raise if they are given an assignment '
     'of a variable that is not one of the variable objects of the model, also if the model has another variable of the same name; bind and the '
     'queries raise on a dictionary with an unknown name. They never ignore such an assignment and never return a result for it.',
     ['inputs'], 'all models, assignments in label space or in value space, all variable types',
     'One test passes a foreign variable to one query.',
     [T], [('JPT._check_variable_assignment, JPT._preprocess_query', T)],
     'reachability analysis by abstract interpretation')
prop('C10', 'Learning and queries are deterministic, samples follow the global seeds',
     'Learning a model, fitting a distribution, inferring variables and every query other than sampling (inference, posteriors, expectations, moments, '
     'MPE, conditioning, pruning, binding, likelihood, cropping, merging, copying, saving) draw no random numbers, and their results do not depend on the clock, '
     'the environment of the process, or addresses of objects. Sampling (of models, leaves, distributions and intervals) draws only from the global '
     'generators of numpy and of the random module and never seeds them, so that seeding these makes it repeatable. The only exception are the unique '
     'names that infer_from_dataframe gives to value domains when asked for unique ones, and what is logged. The order in which Python iterates sets is not considered.',
     ['inputs', 'histories'], 'all data sets, models, queries and options',
     'A test sees one run on little data; branches for large data or rare cases are not entered.',
     [T, V, D, QD, IV, 'src/jpt/learning/impurity.pyx'],
     [('JPT.learn/c45 and the queries', T), ('sample of the distributions', D), ('ContinuousSet.sample, RealSet.sample', IV), ('QuantileDistribution.sample', QD)],
     'call and dependence analysis by abstract interpretation')
prop('C11', 'Files the library opens are closed on every path, files of the caller are not',
     'Every file that the library opens itself (saving, loading and pickling models, converting data files, reading the version) is closed on every '
     'path, also if writing or reading raises, before the function that opened it returns; so a model saved to a path is completely on disk when save '
     'returns. A file object that the caller passes to save or load is left open.',
     ['inputs', 'crashes'] if False else ['inputs'], 'all files, protocols and failures while reading or writing',
     'The tests save and load successfully and then exit; the interpreter closes leaked files soon enough to hide a leak.',
     [T, 'src/jpt/base/utils.py', 'src/jpt/version.py'],
     [('JPT.save/load/pickle', T), ('arfftocsv', 'src/jpt/base/utils.py')],
     'typestate analysis of file objects over the syntax tree',
     note='Sound for the opening functions listed in the rule; every call site is judged by its enclosing with, try-finally or return.')
prop('C12', 'Equality looks at all that makes up an object, hashes at nothing else',
     'a == b, a != b (and equiv of domain types) depend on each parameter that makes up the compared objects: bounds and inclusions of intervals and real '
     'sets, coefficients and segments of functions, epsilon, samples per segment and CDF of quantile distributions, probabilities of symbolic and integer '
     'distributions, name and every setting of variables, keys, values and known variables of variable maps and assignments, names, labels, bounds and scales of domain types, index, '
     'prior, sample count and distributions of leaves, index, variable, splits, sample count and children of decision nodes, and variables, targets, features, '
     'dependencies, learning parameters, leaves and prior distributions of models; sequences are not equal to their prefixes. hash(a) looks at nothing '
     'that equality ignores: no other parameter, no address of an object, no cache that later queries fill in.',
     ['inputs'], 'all objects of these classes',
     'The tests compare objects that are equal and few that differ, never in each single parameter; a comparison that ignores one makes the tests of '
     'copying and saving pass vacuously.',
     [T, V, D, IV, FN, QD], [('__eq__/__hash__ of Variable, VariableMap, Node, Leaf, JPT', T), ('ContinuousSet/RealSet', IV), ('Function classes', FN),
      ('QuantileDistribution', QD)],
     'interprocedural dependence (information flow) analysis by abstract interpretation')
prop('C13', 'Labels and values of a variable are never mixed up',
     'A position of a variable is a label (as users see it: unscaled numbers, original symbols and integers) or a value (as distributions, splits and paths store it), and the '
     'library keeps them apart in every query and for every variable type and form of evidence (dictionary, label assignment, value assignment; single, interval, set, union): '
     'nothing is converted twice, labels are never compared, intersected, added or subtracted with values, and distribution functions, parameters, splits and paths are consulted at values. '
     'What the operations of the public interface return (MPE states, expectations, moments, quantiles, samples, crop and probability arguments) is in label space; what their counterparts '
     'with a leading underscore take and return is in value space.',
     ['inputs'], 'all models with scaled numeric, symbolic and integer variables, all evidence and queries',
     'Most tests use unscaled variables or domains where labels and values coincide, so a missing or doubled conversion goes unnoticed.',
     [T, V, D, 'src/jpt/distributions/univariate/numeric.py', 'src/jpt/distributions/univariate/integer.py', 'src/jpt/distributions/univariate/multinomial.py'],
     [('JPT queries, Leaf', T), ('LabelAssignment/ValueAssignment', V), ('label2value/value2label, p/_p, crop/_crop, mpe/_mpe', D)],
     'type inference of label and value spaces by abstract interpretation (data flow)')
prop('C14', 'What is constructed separately is independent',
     'Two models, variables, value domains, assignments, distributions, intervals or functions that are made by separate calls (constructors, domain types, learning, variable inference) '
     'share no mutable object besides what the caller passed to both and the constant for the empty set. '
     'Constructing or learning one of them changes neither an earlier one nor anything that exists since the import (module constants, class attributes, default arguments), so the defaults '
     'of later ones never depend on what was made before, also if domains or variables have the same name.',
     ['histories'], 'all sequences of constructor calls, fits and refits with all options',
     'Each test makes its objects afresh, often in a new process or with the same parameters, and does not look at the others again.',
     [T, V, D, 'src/jpt/distributions/univariate/numeric.py', QD, IV, FN, 'src/jpt/sequential_trees.py'],
     [('Variable.__init__, settings', V), ('NumericType, SymbolicType, IntegerType', D), ('JPT.__init__/learn, Node', T)],
     'effect and escape analysis by abstract interpretation')
prop('C15', 'Nothing refers to what does not exist',
     'No function, option, branch or error path of the library refers to a name, module, imported object, local variable, attribute, method or parameter that does not exist when control '
     'gets there, and no message is formatted with the wrong number of arguments, so no input makes the library fail with a NameError, UnboundLocalError, ImportError, AttributeError or '
     'TypeError of its own making. Errors that are constructed are raised.',
     ['inputs'], 'all functions of all modules, whether or not anything calls them, on all their paths',
     'Tests run few of the error paths and rare options, and whatever they do not run may refer to anything.',
     [T, V, D, IV, FN, QD, 'src/jpt/distributions/univariate/numeric.py', 'src/jpt/base/utils.py', 'src/jpt/learning/impurity.pyx', 'src/jpt/sequential_trees.py'],
     [('all modules', 'src/jpt')],
     'lint over the syntax trees: name resolution, may-assignment data flow, class attributes and argument binding')
prop('C16', 'Fitting again leaves nothing of earlier fits or stale caches behind',
     'After a model, sequence model, distribution or regressor is fitted again, nothing in it was kept from, added to or computed from what an earlier fit left in it (nodes, leaves, '
     'prior distributions, minimal distances, parameters, support points): the result is that of a fit of a new object with the same configuration. '
     'The density and the quantile function that a distribution computes on demand always belong to its current cumulative distribution function, whatever was asked or set before.',
     ['histories'], 'all sequences of fits, assignments and queries of one object, for all data',
     'Tests fit an object once; what is left from earlier fits and cached functions shows up only when the same object is used again, with other data.',
     [T, 'src/jpt/sequential_trees.py', D, QD, 'src/jpt/distributions/quantile/cdfreg.pyx'],
     [('JPT.learn, _reset, c45', T), ('SequentialJPT.fit', 'src/jpt/sequential_trees.py'), ('cdf/pdf/ppf, fit', QD), ('Multinomial._fit, Numeric._fit', D)],
     'must-write data flow over the syntax trees (interprocedural); typestate of computed fields')

prop('N01', 'Probabilities, posteriors and expectations have the right numerical value',
     'For every model, query and evidence, infer, posterior, expectation, moment, likelihood and pdf return the value that the mixture of the leaves defines, up to floating point error.',
     ['inputs'], 'all models and queries', 'Tests compare a few values.', [T, D, QD], [('JPT queries', T)], 'none',
     na='a numerical relation between floating point results of loops over learned parameters; no sound static argument in reach bounds them. What the results depend on, in which space and '
        'with which operands is decided by C07 and C13.')
prop('N02', 'Fitted distribution functions stay within the error bound of the data',
     'The piecewise linear function that is fitted to a sample deviates from its empirical distribution function by at most the configured precision, is monotone and reaches one.',
     ['inputs'], 'all samples and precisions', 'Tests fit a few samples.', [QD, 'src/jpt/distributions/quantile/cdfreg.pyx', FN], [('QuantileDistribution.fit', QD)], 'none',
     na='a bound on floating point values computed by a data-dependent recursion; needs numerical reasoning about every input, not an argument about the source.')
prop('N03', 'Samples follow the distribution of the model',
     'The empirical distribution of samples drawn from a model, leaf or distribution converges to that model, leaf or distribution.',
     ['inputs', 'schedules'], 'all models', 'Tests draw few samples.', [T, D, QD], [('sample', T)], 'none',
     na='a statistical statement about runtime values.')
prop('N04', 'The most probable explanations are the maxima of the likelihood',
     'mpe and kmpe return the states of highest likelihood under the evidence, in order, and terminate.',
     ['inputs'], 'all models and evidence', 'Tests compare few models.', [T, 'src/jpt/inference/mpe.py'], [('JPT.mpe, JPT.kmpe', T)], 'none',
     na='optimality of a search over runtime values (and termination of a loop that depends on them).')
prop('N05', 'Operations on intervals, real sets and piecewise functions are exact',
     'Union, intersection, difference, complement, containment and simplification of intervals and real sets, and evaluation, addition, multiplication, differentiation and convolution of '
     'piecewise functions, equal the set-theoretic and pointwise definitions.',
     ['inputs'], 'all bounds, brackets and coefficients', 'Tests list some cases.', [IV, FN], [('ContinuousSet, RealSet', IV), ('PiecewiseFunction', FN)], 'none',
     na='functional correctness over floating point bounds: deciding it means executing the paths on symbolic numbers, which is another family (symbolic execution, solvers).')
prop('N06', 'Learning assigns each training sample to exactly one leaf',
     'Each row of the training data is counted in exactly one leaf, whose path it satisfies, and no leaf has fewer samples than configured.',
     ['inputs'], 'all data sets and learning parameters', 'Tests learn a few models.', [T, 'src/jpt/learning/impurity.pyx'], [('JPT.c45', T), ('Impurity', 'src/jpt/learning/impurity.pyx')], 'none',
     na='depends on index arithmetic over sorted buffers of runtime length that the kernels change in place; no relational array analysis is available for Cython here.')
prop('N07', 'The compiled kernels stay within the bounds of their buffers',
     'The kernels that are compiled without bounds checks never read or write outside of their arrays.',
     ['inputs'], 'all data sizes and variables', 'Tests use a few sizes and cannot see stray reads.', ['src/jpt/base/cutils.pyx', 'src/jpt/learning/impurity.pyx'],
     [('boundscheck=False', 'src/jpt/learning/impurity.pyx')], 'none',
     na='needs relational bounds between indices read from arrays and runtime lengths; interval analysis of the generated C code (frama-c, cppcheck) cannot follow memoryviews.')
prop('N08', 'Sequence models compute the posteriors of their time steps',
     'The marginals, probabilities and grounded factor graphs of a sequence model are those of the Markov chain over leaves that its transition model and template define.',
     ['inputs'], 'all sequences and evidence', 'Tests use one small model.', ['src/jpt/sequential_trees.py'], [('SequentialJPT', 'src/jpt/sequential_trees.py')], 'none',
     na='the inference is done by a factor graph library whose results are keyed by names and positions at runtime; the alignment of its arrays with leaves is not visible in the source.')
