# reference definitions: commands of the modelling language
from sppl.sets import oo

@obl('compilers.ast_to_spe.Skip.interpret', 'C19')
def skip(self, spe=None):
    return spe

@obl('compilers.ast_to_spe.Sample.interpret', 'C19 C07')
def sample(self, spe=None):
    leaf = self.symbol >> self.distribution
    if spe is None:
        return leaf
    return spe & leaf

@obl('compilers.ast_to_spe.Transform.interpret', 'C19 C07')
def transform(self, spe=None):
    assert spe is not None
    return spe.transform(self.symbol, self.expr)

@obl('compilers.ast_to_spe.Condition.interpret', 'C19')
def condition(self, spe=None):
    assert spe is not None
    return spe.condition(self.event)

@obl('compilers.ast_to_spe.Constrain.interpret', 'C19')
def constrain(self, spe=None):
    assert spe is not None
    return spe.constrain(self.assignment)

@obl('compilers.ast_to_spe.Sequence.interpret', 'C19')
def sequence(self, spe=None):
    out = spe
    for c in self.commands:
        out = c.interpret(out)
    return out

@obl('compilers.ast_to_spe.For.interpret', 'C19', inline='interpret')
def loop(self, spe=None):
    out = spe
    for i in range(self.n0, self.n1):
        out = self.f(i).interpret(out)
    return out

@obl('compilers.ast_to_spe.IfElse.interpret', 'C19', opaque='interpret_if_block dnf_normalize')
def ifelse(self, spe=None):
    # each branch under its own condition and the negation of the earlier ones
    assert spe is not None
    tests = self.branches[::2]
    bodies = self.branches[1::2]
    n = len(tests) - 1 if tests[-1] is True else len(tests)
    events = [dnf_normalize(reduce(lambda x, y: x & ~y, tests[:i], tests[i])) for i in range(n)]
    if tests[-1] is True:
        events = events + [dnf_normalize(~reduce(lambda x, y: x | y, tests[:-1]))]
    return interpret_if_block(spe, events, bodies)

@obl('compilers.ast_to_spe.Switch.interpret', 'C19', opaque='interpret_if_block value_to_set')
def switch(self, spe=None):
    # one branch per value, on the event that the symbol takes that value and none of the earlier ones
    if isinstance(self.values, enumerate):
        items = list(self.values)
        sets = [self.value_to_set(v[1]) for v in items]
        bodies = [self.f(*v) for v in items]
    else:
        sets = [self.value_to_set(v) for v in self.values]
        bodies = [self.f(v) for v in self.values]
    own = [reduce(lambda x, s: x & ~s, sets[:i], sets[i]) for i in range(len(sets))]
    return interpret_if_block(spe, [self.symbol << s for s in own], bodies)

@obl('compilers.ast_to_spe.Switch.value_to_set', 'C19')
def value(self, v):
    if isinstance(v, Set):
        return v
    if isinstance(v, str):
        return FiniteNominal(v)
    return FiniteReal(v)

@obl('compilers.ast_to_spe.interpret_if_block', 'C19 C09 C08', opaque='spe_simplify_sum')
def block(spe, events, subcommands):
    # a mixture of the branches that can be reached, weighted by the probability of reaching them
    assert len(events) == len(subcommands)
    memo = Memo()
    lps = [spe.logprob(e, memo) if e is not None else -oo for e in events]
    live = [i for i in range(len(lps)) if not isinf_neg(lps[i])]
    assert live
    ws = [lps[i] for i in live]
    assert allclose(logsumexp(ws), 0)
    children = [subcommands[i].interpret(spe.condition(events[i], memo)) for i in live]
    if len(children) == 1:
        return children[0]
    out = SumSPE(children, ws)
    if os.environ.get('SPPL_NO_SIMPLIFY'):
        return out
    return spe_simplify_sum(out)

@obl('compilers.ast_to_spe.IdArray', 'C19 C20')
def idarray(token, n):
    return [Id('%s[%d]' % (token, i)) for i in range(n)]
