# reference definitions: base class, inner nodes, construction, sampling, simplification
@obl('spe.SPE.prob', 'C08')
def prob(self, event):
    return exp(self.logprob(event))

@obl('spe.SPE.pdf', 'C11')
def pdf(self, assignment):
    return exp(self.logpdf(assignment))

def xlogr(joint, marginals):
    # p log (p / q), 0 when p = 0
    if joint == -inf:
        return 0
    return exp(joint) * (joint - marginals)

@obl('spe.SPE.mutual_information', 'C26', opaque='logdiffexp')
def mutual_information(self, A, B, memo):
    a1 = self.logprob(A)
    b1 = self.logprob(B)
    a0 = logdiffexp(0, a1)
    b0 = logdiffexp(0, b1)
    j11 = self.logprob(A & B)
    j10 = self.logprob(A & ~B)
    j01 = self.logprob(~A & B)
    j00 = logdiffexp(0, logsumexp([j11, j10, j01]))
    return xlogr(j11, a1 + b1) + xlogr(j10, a1 + b0) + xlogr(j01, a0 + b1) + xlogr(j00, a0 + b0)

@obl('spe.SPE.__rmul__', 'C16 C08')
def spe_rmul(self, x):
    try:
        w = sympify_number(x)
    except TypeError:
        return NotImplemented
    if not (0 < x and x < 1):
        raise ValueError()
    return PartialSumSPE([self], [w])

@obl('spe.SPE.__mul__', 'C16 C08')
def spe_mul(self, x):
    return x * self

@obl('spe.SPE.__and__', 'C16 C08')
def spe_and(self, x):
    if isinstance(x, PartialSumSPE):
        return NotImplemented
    if isinstance(x, SPE):
        return ProductSPE([self, x])
    return NotImplemented

@obl('spe.BranchSPE.size', 'C25')
def branch_size(self):
    return 1 + sum([c.size() for c in self.children])

@obl('spe.BranchSPE.get_symbols', 'C25')
def branch_symbols(self):
    return self.symbols

@obl('spe.BranchSPE.logprob', 'C08 C03', opaque='dnf_normalize dnf_factor')
def branch_logprob(self, event, memo):
    d = dnf_normalize(event)
    if d is None:
        return -inf
    return self.logprob_mem(dnf_factor(d), memo)

@obl('spe.BranchSPE.condition', 'C09 C10 C04', opaque='dnf_normalize dnf_factor dnf_to_disjoint_union')
def branch_condition(self, event, memo):
    d = dnf_normalize(event)
    if d is None:
        raise ValueError()
    if isinstance(d, EventOr):
        live = [e for e in d.subexprs if self.logprob_mem(dnf_factor(e), memo) != -inf]
        if not live:
            raise ValueError()
        d = EventOr(live)
    return self.condition_mem(dnf_factor(dnf_to_disjoint_union(d)), memo)

@obl('spe.BranchSPE.logpdf', 'C11')
def branch_logpdf(self, assignment, memo):
    return self.logpdf_mem(assignment, memo)[1]

@obl('spe.BranchSPE.constrain', 'C11')
def branch_constrain(self, assignment, memo):
    return self.constrain_mem(assignment, memo)

# ---------------------------------------------------------------- mixtures
def flat_children(self, children):
    out = []
    for c in children:
        if isinstance(c, type(self)):
            for x in c.children:
                out.append(x)
        else:
            out.append(c)
    return out

@obl('spe.SumSPE.__init__', 'C16 C08 C18 C09', opaque='are_identical')
def sum_init(self, children, weights):
    assert len(children) == len(weights)
    ch, ws = [], []
    for c, w in zip(children, weights):
        if isinstance(c, SumSPE):
            for x in c.children:
                ch.append(x)
            for v in c.weights:
                ws.append(w + v)
        else:
            ch.append(c)
            ws.append(w)
    if not are_identical([c.get_symbols() for c in ch]):
        raise ValueError()
    return {'children': ch, 'weights': ws, 'symbols': ch[0].get_symbols()}

@obl('spe.SumSPE.transform', 'C07 C08')
def sum_transform(self, symbol, expr):
    return SumSPE([c.transform(symbol, expr) for c in self.children], self.weights)

@obl('spe.SumSPE.sample', 'C15', opaque='sample_many')
def sum_sample(self, N, prng):
    return self.sample_many(lambda i, n: self.children[i].sample(n, prng=prng), N, prng=prng)

@obl('spe.SumSPE.sample_subset', 'C15', opaque='sample_many')
def sum_sample_subset(self, symbols, N, prng):
    return self.sample_many(lambda i, n: self.children[i].sample_subset(symbols, n, prng=prng), N, prng=prng)

@obl('spe.SumSPE.sample_func', 'C15', opaque='sample_many')
def sum_sample_func(self, func, N, prng):
    return self.sample_many(lambda i, n: self.children[i].sample_func(func, n, prng=prng), N, prng=prng)

@obl('spe.SumSPE.sample_many', 'C15', opaque='logflip')
def sum_sample_many(self, func, N, prng):
    counts = Counter(logflip(self.weights, self.indexes, N, prng))
    out = []
    for i in counts:
        for s in func(i, counts[i]):
            out.append(s)
    random(prng).shuffle(out)
    return out

@obl('spe.PartialSumSPE.__init__', 'C16', opaque='are_identical')
def partial_init(self, children, weights):
    assert sum(weights) < 1
    if not are_identical([c.get_symbols() for c in children]):
        raise ValueError()
    return {'children': children, 'weights': weights, 'symbols': children[0].get_symbols()}

@obl('spe.PartialSumSPE.__or__', 'C16 C08', opaque='allclose')
def partial_or(self, x):
    if not isinstance(x, PartialSumSPE):
        return NotImplemented
    total = float(sum(self.weights + x.weights))
    if allclose(total, 1):
        return SumSPE(self.children + x.children, [log(w) for w in self.weights + x.weights])
    if total < 1:
        return PartialSumSPE(self.children + x.children, self.weights + x.weights)
    raise ValueError()

@obl('spe.PartialSumSPE.__and__', 'C16')
def partial_and(self, x):
    raise TypeError()

@obl('spe.PartialSumSPE.__rand__', 'C16')
def partial_rand(self, x):
    raise TypeError()

@obl('spe.PartialSumSPE.__mul__', 'C16')
def partial_mul(self, x):
    raise TypeError()

@obl('spe.PartialSumSPE.__rmul__', 'C16')
def partial_rmul(self, x):
    raise TypeError()

@obl('spe.ProductSPE.__init__', 'C16 C08 C18 C09 C11 C15', opaque='are_disjoint get_union')
def product_init(self, children):
    ch = []
    for c in children:
        if isinstance(c, ProductSPE):
            for x in c.children:
                ch.append(x)
        else:
            ch.append(c)
    syms = [c.get_symbols() for c in ch]
    if not are_disjoint(syms):
        raise ValueError()
    return {'children': ch, 'lookup': {s: i for i in range(len(ch)) for s in syms[i]},
            'symbols': frozenset(get_union(syms))}

# ----------------------------------------------------------- simplification
def as_product(children):
    if len(children) == 1:
        return children[0]
    return ProductSPE(children)

@obl('spe.spe_simplify_sum', 'C18 C09', opaque='spe_simplify_sum_leaf spe_simplify_sum_product')
def simplify_sum(spe):
    if isinstance(spe.children[0], LeafSPE):
        return spe_simplify_sum_leaf(spe)
    if isinstance(spe.children[0], ProductSPE):
        return spe_simplify_sum_product(spe)
    assert False

@obl('spe.spe_simplify_sum_leaf', 'C18 C09', opaque='partition_list_blocks')
def simplify_sum_leaf(spe):
    blocks = partition_list_blocks(spe.children)
    if len(blocks) == len(spe.children):
        return spe
    if len(blocks) == 1:
        return spe.children[0]
    return SumSPE([spe.children[b[0]] for b in blocks],
                  [logsumexp([spe.weights[i] for i in b]) for b in blocks])

@obl('spe.spe_simplify_sum_product_helper', 'C18 C09', opaque='spe_list_to_product')
def simplify_helper(state, children_b, w_b):
    (children_a, w_a) = state
    total = logsumexp([w_a, w_b])
    # factors common to both products are kept once; the rest stays a mixture
    pairs = [(i, j) for j in range(len(children_b)) for i in range(len(children_a)) if children_a[i] == children_b[j]]
    if len(pairs) == 0:
        return ([SumSPE([spe_list_to_product(children_a), spe_list_to_product(children_b)], [w_a - total, w_b - total])], total)
    if len(pairs) == len(children_a):
        return (children_a, total)
    in_a = {p[0] for p in pairs}
    in_b = {p[1] for p in pairs}
    rest_a = [children_a[i] for i in range(len(children_a)) if i not in in_a]
    rest_b = [children_b[j] for j in range(len(children_b)) if j not in in_b]
    both = [children_a[i] for i in range(len(children_a)) if i in in_a]
    return ([SumSPE([spe_list_to_product(rest_a), spe_list_to_product(rest_b)], [w_a - total, w_b - total])] + both, total)

@obl('spe.spe_simplify_sum_product', 'C18 C09', opaque='spe_simplify_sum_product_helper spe_list_to_product allclose')
def simplify_product(spe):
    for c in spe.children:
        if not isinstance(c, ProductSPE):
            return spe
    lists = [c.children for c in spe.children]
    r = reduce(lambda st, cw: spe_simplify_sum_product_helper(st, cw[0], cw[1]),
               zip(lists[1:], spe.weights[1:]), (lists[0], spe.weights[0]))
    return spe_list_to_product(r[0])

@obl('spe.spe_list_to_product', 'C18 C08')
def list_to_product(children):
    if len(children) == 1:
        return children[0]
    return ProductSPE(children)

# ----------------------------------------------------------------- utilities
@obl('spe.func_evaluate', 'C15', opaque='func_symbols')
def func_eval(spe, func, samples):
    args = func_symbols(spe, func)
    return [func(**{X.token: s[X] for X in args}) for s in samples]

@obl('spe.func_symbols', 'C15')
def func_syms(spe, func):
    args = [Id(a) for a in getfullargspec(func).args]
    for a in args:
        if a not in spe.get_symbols():
            raise ValueError()
    return args

@obl('spe.merge_samples', 'C15')
def merge(samples):
    return [dict(ChainMap(*row)) for row in zip(*samples)]

@obl('spe.event_factor_to_event', 'C08 C03 C09')
def factor_to_event(event_factor):
    return reduce(lambda a, b: a | b, [reduce(lambda a, b: a & b, [c[s] for s in c]) for c in event_factor])

@obl('math_util.logdiffexp', 'C08 C12 C26 C09', opaque='log1mexp allclose')
def log_diff(a, b):
    # log(e^a - e^b)
    if a > b:
        return a + log1mexp(a - b)
    if allclose(b, a):
        return -inf
    raise ValueError()

@obl('math_util.lognorm', 'C09 C18 C15')
def log_norm(array):
    z = logsumexp(array)
    return [a - z for a in array]

@obl('math_util.logflip', 'C15', opaque='flip lognorm')
def log_flip(logp, array, size, rng):
    return flip(exp(lognorm(logp)), array, size, rng)

@obl('math_util.random', 'C15')
def rnd(x):
    if x:
        return x
    return numpy.random

@obl('math_util.float_to_int', 'C12 C08')
def f2i(a):
    if a == inf or a == -inf:
        return a
    return int(floor(a))

@obl('math_util.isinf_neg', 'C10 C08 C09 C11')
def is_ninf(x):
    return x == -inf

@obl('math_util.isinf_pos', 'C12')
def is_pinf(x):
    return x == inf

@obl('spe.LeafSPE.sample_subset', 'C15 C07', inexact=True)
def leaf_sample_subset(self, symbols, N, prng):
    for s in symbols:
        assert s in self.get_symbols()
    base = self.sample__(N, prng)
    if symbols == {self.symbol}:
        return base
    assert len(base) == N
    out = []
    for sample in base:
        row = {}
        for s in self.env:
            sample[s] = self.env[s].evaluate(sample)
            if s in symbols:
                row[s] = sample[s]
        out.append(row)
    return out

@obl('spe.get_dist_atoms', 'C17')
def dist_atoms(dist):
    return (tuple(getattr(dist.dist, 'xk', ())), tuple(getattr(dist.dist, 'pk', ())))

@obl('spe.SPE.get_memo_key', 'C13')
def memo_key(self, event_factor):
    if isinstance(event_factor, dict):
        return (id(self), tuple([(k, event_factor[k]) for k in event_factor]))
    return (id(self), tuple([tuple([(k, d[k]) for k in d]) for d in event_factor]))

@obl('spe.ExposedSumSPE.__init__', 'C08 C16', opaque='are_identical')
def exposed_init(self, children, spe_weights):
    assert isinstance(spe_weights, NominalLeaf)
    ns = [n for n in spe_weights.support]
    if not are_identical([c.get_symbols() for n in ns for c in flat_children(self, [ProductSPE([NominalLeaf(spe_weights.symbol, {str(n): 1}), children[n]])])]):
        raise ValueError()
    return {'children': [x for n in ns for x in flat_children(self, [ProductSPE([NominalLeaf(spe_weights.symbol, {str(n): 1}), children[n]])])],
            'weights': [spe_weights.logprob(spe_weights.symbol << {n}) for n in ns]}
