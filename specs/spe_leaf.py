# reference definitions: distributions over one base variable
@obl('spe.LeafSPE.logprob', 'C08 C07 C09', bind={'memo': False}, inexact=True)
def leaf_logprob(self, event, memo):
    for s in event.get_symbols():
        assert s in self.env
    base = event.substitute(self.env)
    assert base.get_symbols() == {self.symbol}
    return self.logprob__(base)

@obl('spe.LeafSPE.condition', 'C09 C07 C10', bind={'memo': False}, inexact=True)
def leaf_condition(self, event, memo):
    for s in event.get_symbols():
        assert s in self.env
    base = event.substitute(self.env)
    assert base.get_symbols() == {self.symbol}
    return self.condition__(base)

@obl('spe.LeafSPE.logpdf', 'C11', inexact=True)
def leaf_logpdf(self, assignment, memo):
    return self.logpdf_mem(assignment, memo)[1]

@obl('spe.LeafSPE.constrain', 'C11', inexact=True)
def leaf_constrain(self, assignment, memo):
    return self.constrain_mem(assignment, memo)

@obl('spe.LeafSPE.logpdf_mem', 'C11', inexact=True)
def leaf_logpdf_mem(self, assignment, memo):
    assert len(assignment) == 1
    for k, v in assignment.items():
        assert k == self.symbol
    v = [v for k, v in assignment.items()][0]
    return (1 - self.atomic, self.logpdf__(v))

@obl('spe.LeafSPE.constrain_mem', 'C11', inexact=True)
def leaf_constrain_mem(self, assignment, memo):
    assert len(assignment) == 1
    for k, v in assignment.items():
        assert k == self.symbol
    v = [v for k, v in assignment.items()][0]
    return self.constrain__(v)

@obl('spe.LeafSPE.logprob_mem', 'C08 C09', opaque='event_factor_to_event', bind={'memo': False}, inexact=True)
def leaf_logprob_mem(self, event_factor, memo):
    return self.logprob(event_factor_to_event(event_factor))

@obl('spe.LeafSPE.condition_mem', 'C09', opaque='event_factor_to_event', bind={'memo': False}, inexact=True)
def leaf_condition_mem(self, event_factor, memo):
    return self.condition(event_factor_to_event(event_factor))

@obl('spe.LeafSPE.sample', 'C15', inexact=True)
def leaf_sample(self, N, prng):
    return self.sample_subset(self.get_symbols(), N, prng=prng)

@obl('spe.LeafSPE.sample_func', 'C15', opaque='func_evaluate', inexact=True)
def leaf_sample_func(self, func, N, prng):
    return func_evaluate(self, func, self.sample(N, prng=prng))

@obl('spe.LeafSPE.get_symbols', 'C15 C16', inexact=True)
def leaf_get_symbols(self):
    return frozenset(self.env)

@obl('spe.RealLeaf.transform', 'C07')
def real_transform(self, symbol, expr):
    assert symbol not in self.env
    for s in expr.get_symbols():
        assert s in self.env
    env = OrderedDict(self.env)
    env[symbol] = expr
    return type(self)(self.symbol, self.dist, self.support, self.conditioned, env)

@obl('spe.AtomicLeaf.transform', 'C07')
def atomic_transform(self, symbol, expr):
    assert symbol not in self.env
    for s in expr.get_symbols():
        assert s in self.env
    env = OrderedDict(self.env)
    env[symbol] = expr
    return AtomicLeaf(self.symbol, self.value, env=env)

@obl('spe.NominalLeaf.transform', 'C07 C16')
def nominal_transform(self, symbol, expr):
    raise ValueError()

@obl('spe.RealLeaf.sample__', 'C15 C12')
def real_sample(self, N, prng):
    if self.conditioned:
        u = random(prng).uniform(size=N)
        xs = self.dist.ppf(u * self.Fl + (1 - u) * self.Fu)
    else:
        xs = self.dist.rvs(size=N, random_state=prng)
    return [{self.symbol: x} for x in xs]

@obl('spe.AtomicLeaf.sample__', 'C15')
def atomic_sample(self, N, prng):
    return [{self.symbol: self.value} for i in range(N)]

@obl('spe.NominalLeaf.sample__', 'C15', opaque='flip')
def nominal_sample(self, N, prng):
    return [{self.symbol: x} for x in flip(self.weights, self.outcomes, N, prng)]

@obl('spe.RealLeaf.logcdf', 'C12 C08 C09', opaque='logdiffexp')
def real_logcdf(self, x):
    if not self.conditioned:
        return self.dist.logcdf(x)
    if x > self.xu:
        return 0
    if x < self.xl:
        return -inf
    return logdiffexp(self.dist.logcdf(x), self.logFl) - self.logZ

@obl('spe.RealLeaf.logprob__', 'C08', opaque='logprob_values__')
def real_logprob(self, event):
    return self.logprob_values__(self.support & event.solve())

@obl('spe.RealLeaf.logprob_values__', 'C08 C12 C09 C10')
def real_logprob_values(self, values):
    if values is EmptySet:
        return -inf
    if isinstance(values, FiniteReal):
        return self.logprob_finite__(values)
    if isinstance(values, Interval):
        return self.logprob_interval__(values)
    if isinstance(values, Union):
        return logsumexp([self.logprob_values__(v) for v in values.args])
    assert False

@obl('spe.RealLeaf.condition__', 'C09 C10 C12', opaque='logprob_values__ flatten_values_contiguous')
def real_condition(self, event):
    values = self.support & event.solve()
    if self.logprob_values__(values) == -inf:
        raise ValueError()
    if values == self.support:
        return self
    blocks = self.flatten_values_contiguous(values)
    assert len(blocks) >= 1
    lps = [self.logprob_values__(b) for b in blocks]
    keep = [i for i in range(len(blocks)) if lps[i] != -inf]
    if not keep:
        raise ValueError()
    parts = [type(self)(self.symbol, self.dist, blocks[i], True, self.env) for i in keep]
    if len(keep) == 1:
        return parts[0]
    z = logsumexp([lps[i] for i in keep])
    return SumSPE(parts, [lps[i] - z for i in keep])

@obl('spe.RealLeaf.flatten_values_contiguous', 'C09 C12 C10', self='DiscreteLeaf', opaque='partition_finite_real_contiguous flatten_values_contiguous')
def real_flatten(self, values):
    if isinstance(values, Interval):
        return [values]
    if isinstance(values, FiniteReal):
        return [Range(min(b), max(b)) for b in partition_finite_real_contiguous(values)
                if min(b) == -inf or float(min(b)) == int(min(b))]
    if isinstance(values, Union):
        return [w for v in values for w in self.flatten_values_contiguous(v)]
    assert False

@obl('spe.RealLeaf.flatten_values_contiguous', 'C09 C12 C10', self='ContinuousLeaf', opaque='flatten_values_contiguous')
def real_flatten_continuous(self, values):
    if isinstance(values, Interval):
        return [values]
    if isinstance(values, FiniteReal):
        return []
    if isinstance(values, Union):
        return [w for v in values for w in self.flatten_values_contiguous(v)]
    assert False

@obl('spe.RealLeaf.constrain__', 'C11 C07 C12')
def real_constrain(self, x):
    assert self.logpdf__(x) != -inf
    return AtomicLeaf(self.symbol, x, env=self.env)

@obl('spe.ContinuousLeaf.__init__', 'C12 C08 C15 C09', opaque='logdiffexp')
def continuous_init(self, symbol, dist, support, conditioned, env):
    lo, hi = float(support.left), float(support.right)
    out = {'symbol': symbol, 'dist': dist, 'support': support, 'conditioned': conditioned,
           'env': env or OrderedDict([(symbol, symbol)]), 'xl': lo, 'xu': hi}
    if conditioned:
        out['Fl'] = dist.cdf(lo)
        out['Fu'] = dist.cdf(hi)
        out['logFl'] = dist.logcdf(lo)
        out['logFu'] = dist.logcdf(hi)
        out['logZ'] = logdiffexp(dist.logcdf(hi), dist.logcdf(lo))
    return out

@obl('spe.ContinuousLeaf.logpdf__', 'C11 C12')
def continuous_logpdf(self, x):
    if isinstance(x, str):
        return -inf
    if not self.conditioned:
        return self.dist.logpdf(float(x))
    if x not in self.support:
        return -inf
    return self.dist.logpdf(float(x)) - self.logZ

@obl('spe.ContinuousLeaf.logprob_finite__', 'C08 C12 C10 C09')
def continuous_finite(self, values):
    return -inf

@obl('spe.ContinuousLeaf.logprob_interval__', 'C08 C12 C09 C10', opaque='logdiffexp logcdf')
def continuous_interval(self, values):
    return logdiffexp(self.logcdf(float(values.right)), self.logcdf(float(values.left)))

@obl('spe.DiscreteLeaf.__init__', 'C12 C08 C15 C09', opaque='logdiffexp float_to_int', types={'support': 'Interval'})
def discrete_init(self, symbol, dist, support, conditioned, env):
    # smallest and largest integers of the support
    lo = float_to_int(support.left)
    if support.left_open or not int_or_isinf_neg(support.left):
        lo = lo + 1
    hi = float_to_int(support.right)
    if support.right_open and int_or_isinf_pos(support.right):
        hi = hi - 1
    out = {'symbol': symbol, 'dist': dist, 'support': support, 'conditioned': conditioned,
           'env': env or OrderedDict([(symbol, symbol)]), 'xl': lo, 'xu': hi}
    if conditioned:
        out['Fl'] = dist.cdf(lo - 1)
        out['Fu'] = dist.cdf(hi)
        out['logFl'] = dist.logcdf(lo - 1)
        out['logFu'] = dist.logcdf(hi)
        out['logZ'] = logdiffexp(dist.logcdf(hi), dist.logcdf(lo - 1))
    return out

@obl('spe.DiscreteLeaf.logpdf__', 'C11 C12 C08')
def discrete_logpdf(self, x):
    if isinstance(x, str):
        return -inf
    if not self.conditioned:
        return self.dist.logpmf(float(x))
    if x < self.xl or x > self.xu:
        return -inf
    return self.dist.logpmf(float(x)) - self.logZ

@obl('spe.DiscreteLeaf.logprob_finite__', 'C08 C12 C09 C10')
def discrete_finite(self, values):
    return logsumexp([self.logpdf__(x) for x in values])

@obl('spe.DiscreteLeaf.logprob_interval__', 'C08 C12 C09 C10', opaque='logdiffexp logcdf float_to_int')
def discrete_interval(self, values):
    # F(largest integer in) - F(largest integer below)
    below = float_to_int(values.left)
    if not values.left_open and int_or_isinf_neg(values.left):
        below = below - 1
    top = float_to_int(values.right)
    if values.right_open and int_or_isinf_pos(values.right):
        top = top - 1
    return logdiffexp(self.logcdf(top), self.logcdf(below))

@obl('spe.AtomicLeaf.__init__', 'C11 C12 C08 C09')
def atomic_init(self, symbol, value, env):
    return {'symbol': symbol, 'value': value, 'support': FiniteReal(value),
            'env': env or OrderedDict([(symbol, symbol)])}

@obl('spe.AtomicLeaf.logprob__', 'C08 C09 C10')
def atomic_logprob(self, event):
    return 0 if self.value in event.solve() else -inf

@obl('spe.AtomicLeaf.condition__', 'C09 C10')
def atomic_condition(self, event):
    if self.value in event.solve():
        return self
    raise ValueError()

@obl('spe.AtomicLeaf.logpdf__', 'C11')
def atomic_logpdf(self, x):
    return 0 if x in self.support else -inf

@obl('spe.AtomicLeaf.constrain__', 'C11')
def atomic_constrain(self, x):
    assert self.logpdf__(x) != -inf
    return self

@obl('spe.NominalLeaf.__init__', 'C12 C16 C15 C08 C11')
def nominal_init(self, symbol, dist):
    w = {x: Fraction(dist[x]) for x in dist}
    return {'symbol': symbol, 'dist': w, 'support': FiniteNominal(*dist.keys()), 'env': {symbol: symbol},
            'outcomes': [x for x in w], 'weights': [w[x] for x in w]}

@obl('spe.NominalLeaf.logpdf__', 'C11 C08')
def nominal_logpdf(self, x):
    if x not in self.dist or self.dist[x] == 0:
        return -inf
    return log(self.dist[x].numerator) - log(self.dist[x].denominator)

@obl('spe.NominalLeaf.logprob__', 'C08 C09 C10')
def nominal_logprob(self, event):
    values = self.support & event.solve()
    if values is EmptySet:
        return -inf
    if values == FiniteNominal(b=True):
        return 0
    p = sum([self.dist[x] for x in values])
    return -inf if p == 0 else log(p)

@obl('spe.NominalLeaf.condition__', 'C09 C10 C12')
def nominal_condition(self, event):
    values = self.support & event.solve()
    if values is EmptySet:
        raise ValueError()
    p = sum([self.dist[x] for x in values])
    if p == 0:
        raise ValueError()
    if p == 1:
        return self
    return NominalLeaf(self.symbol, {str(x): (self.dist[x] / p if x in values else 0) for x in self.support})

@obl('spe.NominalLeaf.constrain__', 'C11')
def nominal_constrain(self, x):
    assert self.logpdf__(x) != -inf
    return NominalLeaf(self.symbol, {x: 1})
