# reference definitions: mixtures
def lse(xs):
    return logsumexp(xs)

def normalise(xs):
    z = lse(xs)
    return [x - z for x in xs]

@obl('spe.SumSPE.logprob_mem', 'C08 C09 C10')
def sum_logprob(self, event_factor, memo):
    return lse([w + c.logprob_mem(event_factor, memo) for c, w in zip(self.children, self.weights)])

@obl('spe.SumSPE.condition_mem', 'C09 C10')
def sum_condition(self, event_factor, memo):
    lps = [c.logprob_mem(event_factor, memo) for c in self.children]
    keep = [i for i in range(len(self.children)) if lps[i] != -inf]
    if not keep:
        raise ValueError()
    parts = [self.children[i].condition_mem(event_factor, memo) for i in keep]
    if len(keep) == 1:
        return parts[0]
    return SumSPE(parts, normalise([lps[i] + self.weights[i] for i in keep]))

@obl('spe.SumSPE.logpdf_mem', 'C11')
def sum_logpdf(self, assignment, memo):
    ds = [c.logpdf_mem(assignment, memo) for c in self.children]
    live = [p[0] for p in ds if p[1] != -inf]
    if not live:
        return (0, -inf)
    d = min(live)
    return (d, lse([p[1] + w for p, w in zip(ds, self.weights) if p[0] == d]))

@obl('spe.SumSPE.constrain_mem', 'C11')
def sum_constrain(self, assignment, memo):
    ds = [c.logpdf_mem(assignment, memo) for c in self.children]
    keep = [i for i in range(len(self.children)) if ds[i][1] != -inf]
    assert keep
    d = min([ds[i][0] for i in keep])
    best = [i for i in keep if ds[i][0] == d]
    parts = [self.children[i].constrain(assignment, memo) for i in best]
    if len(best) == 1:
        return parts[0]
    return SumSPE(parts, normalise([ds[i][1] + self.weights[i] for i in best]))
