# reference definitions: products of independent models
@obl('spe.ProductSPE.logprob_conjunction', 'C08 C09 C10')
def product_conjunction(self, event_factor, J, memo):
    involved = {self.lookup[s] for j in J for s in event_factor[j]}
    return sum([self.logprob_conjunction_key(event_factor, J, key, memo) for key in involved])

@obl('spe.ProductSPE.logprob_conjunction_key', 'C08 C09 C10')
def product_conjunction_key(self, event_factor, J, key, memo):
    clause = {}
    for j in J:
        for symbol in event_factor[j]:
            if self.lookup[symbol] != key:
                continue
            e = event_factor[j][symbol]
            if symbol in clause:
                clause[symbol] = clause[symbol] & e
            else:
                clause[symbol] = e
    if not clause:
        return -inf
    return self.children[key].logprob_mem((clause,), memo)

@obl('spe.ProductSPE.condition_clause', 'C09 C10')
def product_condition_clause(self, clause, memo):
    out = []
    for c in self.children:
        mine = [s for s in c.get_symbols() if s in clause]
        if mine:
            out.append(c.condition_mem(({s: clause[s] for s in mine},), memo))
        else:
            out.append(c)
    return out

@obl('spe.ProductSPE.condition_mem', 'C09 C10', opaque='spe_simplify_sum')
def product_condition(self, event_factor, memo):
    lps = [self.logprob_conjunction([c], [0], memo) for c in event_factor]
    keep = [i for i in range(len(lps)) if lps[i] != -inf]
    if not keep:
        raise ValueError()
    products = [ProductSPE(self.condition_clause(event_factor[i], memo)) for i in keep]
    if len(keep) == 1:
        return products[0]
    z = logsumexp([lps[i] for i in keep])
    return spe_simplify_sum(SumSPE(products, [lps[i] - z for i in keep]))

@obl('spe.ProductSPE.logpdf_mem', 'C11')
def product_logpdf(self, assignment, memo):
    parts = {}
    for s in assignment:
        k = self.lookup[s]
        if k not in parts:
            parts[k] = {}
        parts[k][s] = assignment[s]
    r = [self.children[k].logpdf_mem(parts[k], memo) for k in parts]
    assert r
    return (sum([x[0] for x in r]), sum([x[1] for x in r]))

@obl('spe.ProductSPE.constrain_mem', 'C11')
def product_constrain(self, assignment, memo):
    out = []
    for c in self.children:
        mine = [s for s in c.get_symbols() if s in assignment]
        if mine:
            out.append(c.constrain_mem({s: assignment[s] for s in mine}, memo))
        else:
            out.append(c)
    return ProductSPE(out)

@obl('spe.ProductSPE.sample', 'C15', opaque='merge_samples')
def product_sample(self, N, prng):
    return merge_samples([c.sample(N, prng=prng) for c in self.children])

@obl('spe.ProductSPE.sample_subset', 'C15', opaque='merge_samples')
def product_sample_subset(self, symbols, N, prng):
    groups = {}
    for s in symbols:
        k = self.lookup[s]
        if k not in groups:
            groups[k] = []
        groups[k].append(s)
    return merge_samples([[{} for _ in range(N)]] + [self.children[k].sample_subset(groups[k], N, prng=prng) for k in groups])

@obl('spe.ProductSPE.sample_func', 'C15', opaque='func_evaluate func_symbols')
def product_sample_func(self, func, N, prng):
    return func_evaluate(self, func, self.sample_subset(func_symbols(self, func), N, prng=prng))

@obl('spe.ProductSPE.transform', 'C07')
def product_transform(self, symbol, expr):
    needed = expr.get_symbols()
    for s in needed:
        assert s in self.get_symbols()
    owner = [i for i, c in enumerate(self.children) if all(s in c.get_symbols() for s in needed)]
    assert len(owner) == 1
    k = owner[0]
    return ProductSPE([c.transform(symbol, expr) if i == k else c for i, c in enumerate(self.children)])

@obl('spe.ProductSPE.logprob_mem', 'C08 C04 C10', opaque='logprob_conjunction logdiffexp')
def product_logprob(self, event_factor, memo):
    # inclusion-exclusion over the clauses: sets of clauses in order of size; supersets of an
    # impossible set are impossible and contribute nothing
    n = len(event_factor)
    pos = []
    neg = []
    todo = [([i], i) for i in range(n)]
    null = []
    while todo:
        s, last = todo.pop(0)
        if any(len(b) <= len(s) and all(i in s for i in b) for b in null):
            continue
        lp = self.logprob_conjunction(event_factor, s, memo)
        if len(s) % 2:
            pos.append(lp)
        else:
            neg.append(lp)
        if lp == -inf:
            null.append(s)
        for i in range(last + 1, n):
            todo.append((s + [i], i))
    p = logsumexp(pos)
    if p == -inf or not neg:
        return p
    return logdiffexp(p, logsumexp(neg))
