SEEDS = []
def S(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))

S('c11-dmin-over-null', 'C11', 'a mixture one of whose components has density zero at the assignment but a smaller number of continuous dimensions than the component that has positive density',
  'the minimum dimension is taken over components with zero density too, so the density is reported as zero',
  [('src/spe.py', 'd_min = min(d for (d, w) in logps_noninf)', 'd_min = min(d for (d, w) in logps)')],
  '''
  from math import isinf
  from sppl.distributions import atomic, norm
  from sppl.transforms import Id
  X = Id('X')
  m = 0.3 * (X >> atomic(loc=5)) | 0.7 * (X >> norm(loc=0, scale=1))
  d = m.logpdf({X: 1.5})
  print(d)
  assert not isinf(d)
  ''')
S('c09-weights-of-dropped', 'C09', 'a mixture of three or more components where the condition is impossible under an earlier component but not under two later ones',
  'posterior weights pair surviving components with prior weights by position among the survivors',
  [('src/spe.py', 'logps_joint = [logps_condt[i] + self.weights[i] for i in indexes]', 'logps_joint = [logps_condt[i] + w for i, w in zip(indexes, self.weights)]')],
  '''
  from sppl.distributions import uniform
  from sppl.transforms import Id
  X = Id('X')
  m = 0.2 * (X >> uniform(loc=10, scale=1)) | 0.5 * (X >> uniform(loc=0, scale=1)) | 0.3 * (X >> uniform(loc=2, scale=1))
  c = m.condition(X < 5)
  p = c.prob(X < 1)
  print(p)
  assert abs(p - 0.5 / 0.8) < 1e-9
  ''')
S('c26-independent-term', 'C26', 'an event pair with a null joint negation',
  'the term for both negations uses the marginals of the events instead of their negations',
  [('src/spe.py', 'm00 = exp(lp00) * (lp00 - (lpA0 + lpB0)) if not isinf_neg(lp00) else 0',
    'm00 = exp(lp00) * (lp00 - (lpA1 + lpB0)) if not isinf_neg(lp00) else 0')],
  '''
  from math import log
  from sppl.distributions import uniform
  from sppl.transforms import Id
  X = Id('X'); Y = Id('Y')
  m = (X >> uniform(loc=0, scale=1)) & (Y >> uniform(loc=0, scale=1))
  i = m.mutual_information(X < 0.25, Y < 0.5)
  print(i)
  assert abs(i) < 1e-9
  ''')
S('c12-closed-left-end', 'C12', 'an integer leaf restricted to an interval closed at an integer left end, queried at that end',
  'an integer leaf restricted to a closed left end is renormalised as if the end were open',
  [('src/spe.py', 'self.Fl = self.dist.cdf(self.xl - 1)', 'self.Fl = self.dist.cdf(self.xl)')],
  '''
  from sppl.distributions import poisson
  from sppl.transforms import Id
  X = Id('X')
  m = (X >> poisson(mu=3)).condition((2 <= X) & (X <= 6))
  s = sum(m.prob(X << {k}) for k in range(2, 7))
  print(s)
  assert abs(s - 1) < 1e-9
  ''')
