SEEDS = []
def S(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
H = '''
  from math import exp, log, isinf
  from sppl.distributions import *
  from sppl.transforms import Id
  from sppl.spe import *
  X = Id('X'); Y = Id('Y'); Z = Id('Z'); W = Id('W')
'''
S('c08-five-way-overlap', 'C08', 'a disjunction of at least five clauses over a product which overlap in all five clauses at once',
  'the five-clause intersections enter the inclusion-exclusion sum with the wrong sign',
  [('src/spe.py', '(logps_pos if len(subset) % 2 else logps_neg)', '(logps_pos if len(subset) in (1, 3) else logps_neg)')],
  H + '''
  U = uniform(loc=0, scale=1)
  m = (X >> U) & (Y >> U) & (Z >> U) & (W >> U) & (Id('V') >> U)
  p = m.prob((X < .5) | (Y < .5) | (Z < .5) | (W < .5) | (Id('V') < .5))
  print(p)
  assert abs(p - (1 - .5**5)) < 1e-9
  ''')
S('c08-fractional-open-bound', 'C08', 'an integer variable compared strictly with a fractional upper bound',
  'the integer just below a fractional open upper bound is left out of the interval',
  [('src/spe.py', 'offsetr = values.right_open and int_or_isinf_pos(values.right)\n        xl = float_to_int(values.left) - offsetl', 'offsetr = bool(values.right_open)\n        xl = float_to_int(values.left) - offsetl')],
  H + '''
  m = X >> poisson(mu=3)
  a = m.prob(X < 2.5); b = m.prob(X <= 2.5)
  print(a, b)
  assert abs(a - b) < 1e-12
  ''')
S('c10-point-mass-continuous', 'C10', 'conditioning a continuous leaf on an event that holds at isolated points only',
  'the null event is not reported as ValueError',
  [('src/spe.py', '''        if isinf_neg(weight):
            raise ValueError('Conditioning event "%s" has probability zero'
                % (str(event)))''', '''        if values_set is EmptySet:
            raise ValueError('Conditioning event "%s" has probability zero'
                % (str(event)))''')],
  H + '''
  m = X >> norm(loc=0, scale=1)
  try:
      m.condition(X**2 << {4})
      r = 'no error'
  except ValueError:
      r = 'ok'
  except Exception as e:
      r = repr(e)
  print(r)
  assert r == 'ok'
  ''')
S('c11-constrain-first-dimension', 'C11', 'a mixture whose first component with positive density is continuous and a later one has an atom at the value',
  'constrain keeps the components of the dimension of the first surviving component instead of the smallest',
  [('src/spe.py', 'd_min = min(logpdfs_condt[i][0] for i in indexes)', 'd_min = logpdfs_condt[indexes[0]][0]')],
  H + '''
  m = 0.6 * (X >> norm(loc=0, scale=1)) | 0.4 * (X >> atomic(loc=1))
  m = 0.5 * ((X >> norm(loc=0, scale=1)) & (Y >> norm(loc=0, scale=1))) | 0.5 * ((X >> atomic(loc=1)) & (Y >> norm(loc=10, scale=1)))
  c = m.constrain({X: 1})
  p = c.prob(Y > 5)
  print(p)
  assert p > .99
  ''')
S('c12-fractional-left-end', 'C12', 'an integer leaf restricted to a closed interval with a fractional left end',
  'the restricted leaf is normalised as if the integer below the fractional left end belonged to it',
  [('src/spe.py', 'offsetl = support.left_open or not int_or_isinf_neg(support.left)', 'offsetl = support.left_open and int_or_isinf_neg(support.left)')],
  H + '''
  m = (X >> poisson(mu=3)).condition((2.5 <= X) & (X <= 6))
  s = sum(m.prob(X << {k}) for k in range(2, 8))
  print(s, m.xl)
  assert abs(s - 1) < 1e-9 and m.prob(X << {2}) == 0
  ''')
S('c15-truncated-integer-first', 'C15', 'drawing many samples from an integer leaf restricted from below',
  'the smallest value of the restricted support is never sampled',
  [('src/spe.py', 'self.Fl = self.dist.cdf(self.xl - 1)', 'self.Fl = self.dist.cdf(self.xl)')],
  H + '''
  m = (X >> poisson(mu=3)).condition((2 <= X) & (X <= 3))
  s = {int(x[X]) for x in m.sample(500)}
  print(s)
  assert s == {2, 3}
  ''')
S('c18-permuted-common-children', 'C18', 'a disjunctive condition whose branches share children that sit at different positions of the two products',
  'merging products with common children removes the wrong child when the common children are not at the same position',
  [('src/spe.py', 'uniq_children_a = [c for i, c in enumerate(children_a) if i not in dup_a]', 'uniq_children_a = [c for i, c in enumerate(children_a) if i not in dup_b]')],
  H + '''
  U = uniform(loc=0, scale=1)
  x, y, z = (X >> U), (Y >> U), (Z >> U)
  x2 = X >> uniform(loc=0, scale=2)
  s = SumSPE([ProductSPE([x, y, z]), ProductSPE([x2, z, y])][::1], [log(.5), log(.5)])
  s2 = SumSPE([ProductSPE([x, y, z]), ProductSPE([y, x2, z])], [log(.5), log(.5)])
  for q in (s, s2):
      r = spe_simplify_sum(q)
      assert abs(r.prob((X < .5) & (Y < .5)) - q.prob((X < .5) & (Y < .5))) < 1e-9
  ''')
S('c26-implied-event', 'C26', 'events where A and not B is impossible but B without A is not',
  'the term of B without A is dropped whenever A without B is impossible',
  [('src/spe.py', 'm01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp01) else 0', 'm01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp10) else 0')],
  H + '''
  m = (X >> uniform(loc=0, scale=1)) & (Y >> uniform(loc=0, scale=1))
  i = m.mutual_information((X < .5) & (Y < .5), X < .5)
  e = .25 * log(.25/.125) + .25 * log(.25/(.75*.5)) + .5 * log(.5/(.75*.5))
  print(i, e)
  assert abs(i - e) < 1e-9
  ''')
S('c11-open-end-density', 'C11', 'the density of a truncated continuous leaf exactly at an open end of its support',
  'the density is positive at a point outside the restricted support',
  [('src/spe.py', '        if x not in self.support:\n            return -inf\n        return self.dist.logpdf(xf) - self.logZ', '        if not (self.xl <= xf <= self.xu):\n            return -inf\n        return self.dist.logpdf(xf) - self.logZ')],
  H + '''
  m = (X >> norm(loc=0, scale=1)).condition((0 < X) & (X < 2))
  assert m.logpdf({X: 0}) == -float('inf')
  assert m.logpdf({X: 2}) == -float('inf')
  assert m.logpdf({X: 1}) > -10
  ''')
S('c15-derived-symbol-subset', 'C15', 'sampling a strict subset of the symbols of a leaf with derived symbols that does not include the base symbol, in order',
  'a sample asked for a subset holding the base symbol and derived symbols drops the derived symbols',
  [('src/spe.py', 'if symbols == {self.symbol}:', 'if self.symbol in symbols and len(symbols) < len(self.env):')],
  H + '''
  m = (X >> norm(loc=0, scale=1)).transform(Y, X**2).transform(Z, 2*Y)
  s = m.sample_subset({X, Z}, 3)
  print(s)
  assert all(set(r) == {X, Z} for r in s)
  ''')
S('c18-block-weights', 'C18', 'simplifying a sum of leaves in which the same leaf occurs at least twice',
  'the merged leaf gets the largest weight of its copies instead of their total',
  [('src/spe.py', 'weights = [logsumexp([spe.weights[i] for i in block]) for block in partition]\n    return SumSPE(children, weights)', 'weights = lognorm([max(spe.weights[i] for i in block) for block in partition])\n    return SumSPE(children, weights)')],
  H + '''
  a, b = (X >> uniform(loc=0, scale=1)), (X >> uniform(loc=2, scale=1))
  s = SumSPE([a, b, a], [log(.3), log(.4), log(.3)])
  r = spe_simplify_sum(s)
  p = r.prob(X < 1.5)
  print(p)
  assert abs(p - .6) < 1e-9
  ''')
