"""The properties: source of properties.jsonl (python3 tools/gen.py writes it)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=()):
    PROPS.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {'files': files.split(),
                    'mechanism': [{'name': n.strip(), 'where': w.strip()} for n, w in
                                  (m.split('@') for m in mech.strip().split('\n'))],
                    'observe_at': list(observe), 'hook_needed': None}})


P('C01', 'Set operations agree with pointwise membership',
  '''For any sets A and B of the library (finite sets of numbers, finite and co-finite sets of strings,
  intervals with open, closed or infinite ends, and unions of these), a value belongs to A & B, respectively A | B, exactly
  when it belongs to both, respectively to at least one of them, and for A made only of numbers or only of strings it belongs
  to ~A exactly when it does not belong to A. Membership itself is that of the mathematical set, endpoints included
  or excluded as the interval says.''',
  'inputs', 'all pairs of sets, all order types of their endpoints, open/closed/infinite ends, all probe values',
  '''tests/test_sets.py checks some dozens of hand-picked pairs; the relative orders of endpoints of two unions with flags
  and infinities are unboundedly many.''',
  'src/sets.py',
  '''membership @ src/sets.py __contains__ of FiniteNominal, FiniteReal, Interval, Union
  pairwise operations @ src/sets.py __and__, __or__, __invert__ of each class
  normalising constructors @ src/sets.py make_union, make_intersection, union_intervals, union_intervals_finite, Union.__init__''',
  ['src/sets.py'])
P('C02', 'Comparisons on transforms denote the intended event',
  '''For a transform t and a number x, the events t < x, t <= x, t > x, t >= x (also written with the number on the left, chained
  as in a < (t < b), or by containment t << S for a finite collection, interval or set S) hold of an assignment exactly when
  the value of t there satisfies that comparison or lies in S. Strings compare as members of a nominal set, numbers as
  members of a real set.''',
  'inputs', 'all transforms, thresholds (finite or not), collections and chained comparisons',
  'tests build a few dozen events with literals and compare structure; which operator maps to which bound and flag holds for every threshold.',
  'src/transforms.py',
  '''relational operators @ src/transforms.py Transform.__lt__ .. __lshift__
  chained comparisons @ src/transforms.py EventInterval.__lt__ .. __ge__
  containment conversion @ src/transforms.py Transform.__lshift__, EventFiniteReal, EventFiniteNominal''')
P('C03', 'Boolean operations and normal forms of events preserve truth',
  '''For any events A and B and any assignment of values to variables, A & B, A | B and ~A are true exactly when the
  conjunction, disjunction and negation of A and B are. Rewriting an event to disjunctive normal form, simplifying it, renaming or
  factoring it by variable never changes the assignments on which it is true, and the empty event is recognised as impossible.''',
  'inputs', 'all events built from transforms, sets, and/or/not; all assignments',
  'tests compare some formula shapes; the operators dispatch on the classes of both operands and merge same-variable predicates, so errors hide in particular pairs.',
  'src/transforms.py src/dnf.py src/spe.py',
  '''event operators @ src/transforms.py Event*.__and__/__or__/__invert__/evaluate/to_dnf
  normal form @ src/dnf.py dnf_normalize, dnf_factor
  ''' .strip())
P('C04', 'Rewriting an event into disjoint clauses neither loses nor double counts',
  '''When an event is a disjunction of clauses, conditioning on it and querying it treat its clauses as if they were
  mutually exclusive parts that together cover exactly the event: the rewritten clauses are pairwise
  disjoint and their union is true on the same assignments as the event.''',
  'inputs', 'all disjunctions of conjunctive clauses over any variables',
  'tests cover a handful of two/three clause overlaps; overlaps of the i-th clause with all earlier ones are combinatorial.',
  'src/dnf.py src/spe.py',
  '''disjoint rewriting @ src/dnf.py dnf_to_disjoint_union, dnf_non_disjoint_clauses
  inclusion-exclusion @ src/spe.py ProductSPE.logprob_mem''')
P('C05', 'Arithmetic on variables builds the transform it denotes',
  '''Arithmetic on random variables with numbers and with each other's polynomials (+, -, *, /, **, abs, Exp, Log, Sqrt, unary minus, reflected
  forms, products of a transform and a condition, sums of these) yields a transform whose value at every point of its domain is the result of that arithmetic on the values, and raises an error
  rather than building a different function when the expression is not representable (for example mixing two variables, or adding polynomials in different subexpressions).''',
  'inputs', 'all expressions over a variable with numeric constants, evaluated at all points',
  'tests check equality of structures for some expressions; polynomial merging and reflected operators depend on operand classes.',
  'src/transforms.py src/poly.py',
  '''operators @ src/transforms.py Transform.__add__ .. __rpow__, polyify
  evaluation @ src/transforms.py *.evaluate, *.ffwd''')
P('C06', 'Preimages agree with forward evaluation',
  '''For every kind of transform (identity, absolute value, reciprocal, root, exponential, logarithm, polynomial, piecewise, and compositions)
  and every set S, the preimage of S is exactly the set of points of the domain whose value lies in S; the declared domain of each kind is that of its function, and every value
  it takes is in its declared range. In particular monotone decreasing pieces swap and keep the openness of endpoints and restricted
  domains are respected.''',
  'inputs', 'all transforms, all target sets (points, intervals with any flags, infinite ends, unions, nominal sets)',
  'tests solve some dozens of equations/inequalities; sign, parity, openness and domain clipping combine.',
  'src/transforms.py src/poly.py',
  '''preimage @ src/transforms.py *.invert, invert_finite, invert_interval, finv
  domains and ranges @ src/transforms.py *.domain, *.range''')
P('C07', 'Substitution and rebuilding keep the meaning of a transform or event',
  '''Substituting, renaming or evaluating a transform or an event keeps all its parameters: the result, evaluated after
  substituting the replacement, equals evaluating the original where the variable takes the value of the replacement. Derived variables of a
  distribution are carried by conditioning, constraining, weighting and copying unchanged.''',
  'inputs', 'all transforms/events, all substitutions and environments',
  'tests substitute in a few expressions; a rebuilt node that drops one parameter (base, interval flag, coefficient) is right on defaults.',
  'src/transforms.py src/spe.py',
  '''substitute/rename/evaluate @ src/transforms.py
  environments of leaves @ src/spe.py LeafSPE.transform, RealLeaf.condition__, constrain__''')
P('C08', 'Probabilities follow the mixture, product and leaf rules',
  '''The probability of an event under a mixture is the weighted sum of its probabilities under the components, under a product of independent
  parts it is the product over the parts mentioning the event's variables, and under a leaf it is the base distribution's mass of the solved set relative
  to the retained support. The probability of a disjunction of clauses is that of their union, and log-probabilities equal logarithms of probabilities.''',
  'inputs', 'all distributions, all events',
  'tests compare numbers on a few models; wrong weights, branches or endpoint conventions show only for some node arrangements or event shapes.',
  'src/spe.py src/math_util.py',
  '''mixture @ src/spe.py SumSPE.logprob_mem
  product @ src/spe.py ProductSPE.logprob_mem
  leaves @ src/spe.py ContinuousLeaf.logprob__, DiscreteLeaf.logprob__, NominalLeaf.logprob__, AtomicLeaf.logprob__''')
P('C09', 'Conditioning obeys Bayes rule',
  '''Conditioning a distribution on an event of positive probability gives a distribution in which every event has its probability jointly with the condition divided by
  the probability of the condition: mixtures reweight each surviving component by its prior weight times its probability of the condition and condition that
  component, products condition exactly the parts mentioned, leaves restrict to the solved set. All variables, including derived ones, stay queryable.''',
  'inputs histories', 'all distributions, events, and sequences of conditioning',
  'tests condition some models and check a few probabilities; weight/component pairing after dropping impossible components is history dependent.',
  'src/spe.py',
  '''mixture @ src/spe.py SumSPE.condition_mem
  product @ src/spe.py ProductSPE.condition_mem
  leaves @ src/spe.py *Leaf.condition__''')
P('C10', 'Conditioning on a null event always raises ValueError',
  '''Conditioning on an event of probability zero raises ValueError for every kind of
  distribution node and every shape of event, instead of returning a distribution or failing with another error.''',
  'inputs', 'all distributions and null events',
  'tests try a few null events on a few nodes; each node kind and clause shape has its own path.',
  'src/spe.py',
  '''null checks @ src/spe.py condition/condition_mem/condition__/constrain_mem of every node class''')
P('C11', 'Densities follow the lexicographic mixed-type rule',
  '''The density of an assignment under a mixture is the weighted sum over exactly those components attaining the least number of continuous dimensions among
  components with positive density, under a product the densities multiply and the dimensions add, and constraining to an assignment reweights by
  these densities. The density of a nominal or discrete outcome is its probability.''',
  'inputs', 'all distributions mixing atoms and continuous parts, all assignments',
  'tests evaluate logpdf of a few mixtures; order of components and ties of dimensions are not enumerated.',
  'src/spe.py',
  '''mixture @ src/spe.py SumSPE.logpdf_mem, constrain_mem
  product @ src/spe.py ProductSPE.logpdf_mem, constrain_mem
  leaves @ src/spe.py *Leaf.logpdf__''')
P('C12', 'Truncated leaves are renormalised over their retained support',
  '''A leaf restricted to part of its base distribution's support assigns to any set the base mass of its overlap with that part divided by the base mass of the part,
  counts each end of an integer support exactly as open or closed, and samples only from the retained part. Infinite ends, one-point and empty parts are handled as limits of
  this rule.''',
  'inputs histories', 'all base distributions, restrictions (repeated), query sets',
  'tests condition scipy leaves on a few intervals; closed/open ends of integer supports and repeated restrictions multiply cases.',
  'src/spe.py',
  '''restriction state @ src/spe.py RealLeaf.__init__, ContinuousLeaf, DiscreteLeaf logprob/condition/sample
  ''' .strip())
P('C13', 'Caching never changes the answer of a query',
  '''Every query returns the same result whether caching is enabled, disabled, fresh, or already filled by any earlier sequence of queries on
  models that stay alive, because an answer is reused only for the same operation on the same node with the same event or assignment.''',
  'histories inputs', 'all sequences of queries and shared caches',
  'tests pass a cache in a few scenarios; key collisions require particular pairs of queries.',
  'src/spe.py',
  '''memoisation @ src/spe.py memoize, Memo, get_memo_key
  leaf caches @ src/spe.py LeafSPE.logprob_mem, condition_mem''')
P('C14', 'Queries do not change models, events or arguments',
  '''Querying, conditioning, constraining, transforming, rendering, exporting or sampling a distribution leaves that distribution, its subparts,
  the events, assignments and other arguments passed in unchanged (only explicitly supplied caches and random generators may be updated), and no default argument value accumulates
  state between calls.''',
  'histories inputs', 'all operations and their interleavings on shared nodes',
  'tests rarely re-use objects after operations; aliasing shows only later.',
  'src/spe.py src/transforms.py src/sets.py src/dnf.py src/compilers/spe_to_dict.py src/compilers/spe_to_sppl.py',
  '''immutability by convention @ src/spe.py, src/transforms.py, src/sets.py: attributes are assigned in constructors only''')
P('C15', 'Sampling returns what was asked, from the given generator only',
  '''Asking for N samples returns N independent dictionaries assigning a value to exactly the requested variables (all of them, the requested subset, or the value of the requested
  function of them), every random choice is drawn from the supplied generator when one is supplied, and a mixture draws each component in proportion to its weight in exchangeable order.''',
  'inputs configurations', 'all distributions, subsets of variables, N, generators',
  'tests sample some models without checking generator use, order, or aliasing.',
  'src/spe.py src/math_util.py',
  '''sampling @ src/spe.py SPE.sample, sample_subset, sample_func, sample_many of every node class
  random draws @ src/math_util.py random, flip, logflip''')
P('C16', 'Ill-formed models are rejected at construction',
  '''Building a distribution by weighting, mixing and combining fails with an error when weights are outside (0,1) or do not sum to one, mixture components disagree on their variables, or
  product components share a variable; a successfully built model has exactly the variables of its parts and weights normalised to one.''',
  'inputs programs', 'all ways of combining distributions with the public operators and constructors',
  'tests try a few bad combinations; operator orders and partial sums have separate paths.',
  'src/spe.py',
  '''checks @ src/spe.py SumSPE.__init__, PartialSumSPE, ProductSPE.__init__, SPE.__rmul__/__mul__/__and__/__or__''')
P('C17', 'Equality and hashing are consistent and complete',
  '''Two transforms, events, sets or distributions compare equal only if every parameter that affects their meaning is equal, equal objects have equal hashes,
  every object that defines equality is usable in sets and as a dictionary key, and equality is symmetric and independent of the order in which elements of sets, outcomes of nominal distributions and keyword parameters were given.''',
  'inputs', 'all pairs of objects of the library',
  'tests compare some pairs; a parameter omitted from equality matters only for two objects that differ in it alone.',
  'src/spe.py src/transforms.py src/sets.py',
  '''__eq__ / __hash__ @ src/spe.py, src/transforms.py, src/sets.py''')
P('C18', 'Simplification and sharing preserve the distribution',
  '''Simplifying a mixture or product, flattening nested nodes, merging equal or proportional components and sharing duplicate
  subtrees yields a model giving every event the same probability as the original, with component weights combined by addition for merged components and by
  multiplication for nesting.''',
  'inputs', 'all models',
  'tests simplify small examples; pairing of weights with grouped components depends on order and multiplicities.',
  'src/spe.py',
  '''simplification @ src/spe.py spe_simplify_sum, spe_simplify_sum_leaf, spe_simplify_sum_product, spe_list_to_product
  sharing @ src/spe.py spe_cache_duplicate_subtrees''')
P('C19', 'Programs mean what their imperative reading says',
  '''A model built from assignments, transforms, if/else, switch, for and sequences has the distribution of running the statements in order: each branch applies under its own condition
  and the negation of all earlier ones, its result is weighted by the probability of reaching it, derived variables see the
  values at their point of definition, and impossible branches are dropped.''',
  'programs inputs', 'all programs of the command language',
  'tests translate a few programs; fall-through conditions, weights and dropped branches interact with nesting.',
  'src/compilers/ast_to_spe.py src/compilers/sppl_to_python.py',
  '''command semantics @ src/compilers/ast_to_spe.py Sample, Transform, IfElse, For, Switch, Sequence, Condition''')
P('C20', 'The compiler drops or reorders nothing and is self-contained',
  '''Compiling SPPL source turns every statement into the corresponding command in the same order, in the same block, and any
  statement, target or construct it cannot express is rejected with an error instead of being ignored; the generated code refers only to names it defines or imports.''',
  'programs', 'all SPPL source programs',
  'tests compile some dozens of programs of supported shapes.',
  'src/compilers/sppl_to_python.py',
  '''visitors @ src/compilers/sppl_to_python.py SPPL_Visitor.visit_*''')
P('C21', 'Compiled conditions keep the operators and operands of the source',
  '''A condition written in SPPL source, with comparisons (also chained), membership tests, and/or/not in any nesting, compiles to the event it
  reads as: each comparison operator keeps its direction, strictness and operands, and precedence follows Python.''',
  'programs', 'all condition expressions',
  'tests compile a few conditions.',
  'src/compilers/sppl_to_python.py src/transforms.py',
  '''condition translation @ src/compilers/sppl_to_python.py SPPL_Transformer_Compare.visit_Compare, visit_BoolOp, visit_UnaryOp''')
P('C22', 'Distribution constructors wrap the scipy law of their name on its support',
  '''Each distribution constructor builds a leaf around the scipy law of that name with the given parameters, of the right kind (continuous or integer), whose support covers the support
  scipy documents for those parameters including shifts by loc and scale, so that no probability mass is cut off and parameters reach scipy
  under their own names.''',
  'inputs', 'all distributions in the registry, all parameters',
  'tests instantiate a few distributions, most with defaults.',
  'src/distributions.py src/spe.py',
  '''registry @ src/distributions.py classes with their dist, domain and constructor''')
P('C23', 'Export to a dictionary and back yields an equal model',
  '''Converting any model to its dictionary form and back gives a model equal to the original: every node kind, transform, set and distribution parameter has an entry written and
  read consistently, including weights, domains, open ends, derived variables and environments.''',
  'inputs', 'all models',
  'tests round-trip a few models; per-class branches for writer and reader are separate tables.',
  'src/compilers/spe_to_dict.py',
  '''writer/reader @ src/compilers/spe_to_dict.py spe_to_dict, spe_from_dict, env_to_dict, env_from_dict''')
P('C24', 'Export to SPPL source denotes the same model',
  '''The SPPL program exported from a model whose leaves are continuous, integer or nominal, possibly truncated to an interval and with derived variables, defines the same variables with the same distributions: every mixture becomes a choice with the
  mixture's weights in order, every product a sequence of all its parts, every leaf a sample with its parameters followed by its derived variables in order of dependence.''',
  'inputs', 'all exportable models',
  'tests render a few models.',
  'src/compilers/spe_to_sppl.py',
  '''exporter @ src/compilers/spe_to_sppl.py render_sppl, render_sppl_helper, render_sppl_choice''')
P('C25', 'Every node kind answers every query',
  '''Every kind of distribution node (mixture, product, continuous, integer, nominal and atomic leaf, and the partial and exposed mixtures where they apply) implements every query of the interface
  with its own behaviour, and every dispatch over kinds of nodes, sets, events or transforms handles each kind or raises an explicit error.''',
  'inputs configurations', 'all pairs (node kind, operation)',
  'tests do not instantiate all pairs.',
  'src/spe.py src/transforms.py src/sets.py src/render.py src/compilers/spe_to_dict.py',
  '''interfaces @ src/spe.py SPE, BranchSPE, LeafSPE; src/transforms.py Transform, Event''')
P('C26', 'Mutual information follows its definition',
  '''The mutual information of two events is the sum over the four combinations of the events and their negations of the joint probability times the logarithm of the joint over the product of marginals,
  with null combinations contributing zero; it is symmetric in its arguments.''',
  'inputs', 'all distributions and pairs of events',
  'tests check a few numbers.',
  'src/spe.py', '''mutual information @ src/spe.py SPE.mutual_information''')
P('C27', 'Time limits and symbolic/numeric routing leave no trace',
  '''Whatever way a time-limited symbolic computation ends (result, error or expiry), no pending alarm remains and the previously installed alarm handler is back; expiry or disabling symbolic solving leads to the numeric
  route, which answers the same question.''',
  'fault_sequences configurations', 'all outcomes and times of expiry',
  'tests do not expire the limit.',
  'src/timeout.py src/poly.py',
  '''alarm @ src/timeout.py timeout
  fallback @ src/poly.py solve_poly_inequality, solve_poly_equality''')

NA = {}


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech)
    NA[id] = ' '.join(reason.split())


N('C28', 'Floating point answers are accurate to rounding error',
  '''Probabilities and densities agree with exact real arithmetic up to a small relative error, for all parameters including extreme tails and near-degenerate weights.''',
  'inputs', 'all numeric parameters', 'tests use well-conditioned numbers.',
  'src/math_util.py src/spe.py', 'log-space arithmetic @ src/math_util.py',
  '''quantifies over rounding of runtime floating-point values inside scipy/numpy; no sound static error bound for those library routines is in reach.''')
N('C29', 'Samples follow the distribution that probabilities report',
  '''The empirical frequency of any event among samples converges to the probability the model reports for it.''',
  'inputs', 'all models and events', 'tests sample a few models.',
  'src/spe.py', 'sampling @ src/spe.py sample methods',
  '''statistical convergence and scipy's generators are runtime quantities; the structural clauses (who draws, in what proportion, from which restricted support) are claimed in C12 and C15.''')
N('C30', 'Symbolic solutions returned by the solver are all and only the roots',
  '''Root sets used for polynomial preimages contain every real root and nothing else.''',
  'inputs', 'all polynomials', 'tests solve a few polynomials.',
  'src/poly.py', 'root finding @ src/poly.py solve_poly_equality_symbolically',
  '''correctness of sympy/numpy root finding on runtime coefficients; only the use made of the roots (sign analysis between neighbours, domain clipping) has a static shape and is claimed in C06.''')
N('C31', 'Every query terminates within resources polynomial in the simplified model',
  '''Inference on a model whose expression shares its repeated subtrees takes time proportional to the number of distinct nodes times the size of the event.''',
  'inputs', 'all models', 'tests do not measure growth.',
  'src/spe.py', 'sharing and caching @ src/spe.py memoize',
  '''running time over unbounded model sizes; no static cost bound over sympy and dictionary operations is in reach.''')
