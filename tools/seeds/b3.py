SEEDS = []
def S(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
H = '''
  from math import exp, log, isinf
  from sppl.distributions import *
  from sppl.transforms import *
  from sppl.sets import *
  from sppl.spe import *
  X = Id('X'); Y = Id('Y'); Z = Id('Z'); W = Id('W')
'''
def raises(code, exc):
    return '''
  try:
      %s
      r = 'no error'
  except %s:
      r = 'ok'
  except Exception as e:
      r = repr(e)
  print(r)
  assert r == 'ok'
  ''' % (code, exc)

S('c01-shared-left-end', 'C01', 'two intervals with the same left and the same right end, one open at both, the other closed on the left only',
  'the left end that one of the intervals excludes is in their intersection',
  [('src/sets.py', "left_open = self.left_open or x.left_open\n                return Interval(self.a, self.b, left_open=left_open, right_open=self.right_open)", "left_open = x.left_open\n                return Interval(self.a, self.b, left_open=left_open, right_open=self.right_open)")],
  H + '''
  a = Interval.open(0, 1) & Interval.Ropen(0, 1)
  b = Interval.Ropen(0, 1) & Interval.open(0, 1)
  print(a, b)
  assert 0 not in a and 0 not in b
  ''')
S('c01-shared-right-end', 'C01', 'two overlapping intervals with the same right end, which only one of them contains',
  'the union loses that end',
  [('src/sets.py', "right_open = br[1] if bm[0] < br[0] else (bm[1] and br[1])", "right_open = br[1]")],
  H + '''
  a = Interval(0, 2) | Interval.Ropen(1, 2)
  b = Interval.Ropen(0, 2) | Interval(1, 2)
  print(a, b)
  assert 2 in a and 2 in b
  ''')
S('c01-nominal-complement-union', 'C01', 'the union of two complements of nominal sets',
  'an element excluded by only one of them is left out',
  [('src/sets.py', "values = {v for v in self.values if v not in x}\n                return FiniteNominal(*values, b=self.b)", "values = {v for v in self.values if x.b or v not in x}\n                return FiniteNominal(*values, b=self.b)")],
  H + '''
  a = (~FiniteNominal('a', 'b')) | (~FiniteNominal('b', 'c'))
  print(a)
  assert 'a' in a and 'c' in a and 'b' not in a
  ''')
S('c02-frozenset', 'C02', 'membership in a frozenset',
  'X << frozenset({...}) is refused',
  [('src/transforms.py', "if isinstance(x, (list, tuple, set, frozenset)):", "if isinstance(x, (list, tuple, set)):")],
  H + '''
  m = X >> poisson(mu=3)
  a = m.prob(X << {1, 2}); b = m.prob(X << frozenset({1, 2}))
  print(a, b)
  assert a == b
  ''')
S('c02-lower-end-of-chain', 'C02', 'a two-sided comparison with a strict lower and a non-strict upper end, on a variable with atoms',
  'the strict lower end is included',
  [('src/transforms.py', "left_open=self.values.left_open,\n            right_open=right_open)", "left_open=right_open and self.values.left_open,\n            right_open=right_open)")],
  H + '''
  m = X >> poisson(mu=3)
  a = m.prob((1 < X) <= 3); b = m.prob(X << {2, 3})
  print(a, b)
  assert abs(a - b) < 1e-9
  ''')
S('c04-four-overlaps', 'C04', 'a disjunction with a clause overlapping at least three earlier ones',
  'only the first two overlapping clauses are subtracted, so the clauses are not disjoint',
  [('src/dnf.py', "(event.subexprs[j] for j in overlap_dict.get(i, [])),", "(event.subexprs[j] for j in overlap_dict.get(i, [])[:2]),")],
  H + '''
  U = uniform(loc=0, scale=1)
  m = (X >> U) & (Y >> U) & (Z >> U) & (W >> U)
  c = m.condition((X < .5) | (Y < .5) | (Z < .5) | (W < .5))
  p = c.prob(W < .5)
  print(p)
  assert abs(p - .5/(1-.5**4)) < 1e-6
  ''')
S('c04-adjacent-clauses', 'C04', 'a disjunction of three clauses, the first and the third overlapping',
  'overlaps are looked for between neighbouring clauses only',
  [('src/dnf.py', "    for i, j in combinations(range(n_clauses), 2):\n", "    for i, j in combinations(range(n_clauses), 2):\n        if 2 < n_clauses and j - i == n_clauses - 1:\n            continue\n")],
  H + '''
  from sppl.dnf import dnf_to_disjoint_union, dnf_normalize
  U = uniform(loc=0, scale=1)
  m = (X >> U) & (Y >> U)
  e = (X < .5) | (X > .9) | (Y < .5)
  c = m.condition(((X < .5) & (Y > .2)) | ((X > .9) & (Y > .7)) | (Y < .5))
  p = c.prob(Y < .5)
  print(p)
  assert abs(p - .5/(.5 + .5*.5 + .1*.3)) < 1e-6
  ''')
S('c05-negated-constant', 'C05', 'the negation of a polynomial with a constant term',
  'the constant term keeps its sign',
  [('src/transforms.py', "return Poly(self.subexpr, [-c for c in self.coeffs])", "return Poly(self.subexpr, [-c if i else c for i, c in enumerate(self.coeffs)])")],
  H + '''
  r = (-(2*X + 1)).evaluate({X: 3})
  print(r)
  assert r == -7
  ''')
S('c05-negative-rational-power', 'C05', 'a power -1/n',
  'X**(-1/n) is X**(1/n)',
  [('src/transforms.py', "return 1 / Radical(self, denom)", "return Radical(self, denom) if denom == 3 else 1 / Radical(self, denom)")],
  H + '''
  r = (X**(-1, 3)).evaluate({X: 8})
  print(r)
  assert abs(float(r) - .5) < 1e-9
  ''')
S('c06-abs-half-open', 'C06', 'the absolute value in a half-open interval, on a variable with atoms',
  'the negative part of the preimage has its open and its closed end exchanged',
  [('src/transforms.py', "ys_neg = transform_interval(ys, -b, -a, flip=True)", "ys_neg = transform_interval(ys, -b, -a, flip=ys.left_open == ys.right_open)")],
  H + '''
  s = (abs(X) << Interval.Ropen(1, 2)).solve()
  print(s)
  assert -1 in s and -2 not in s
  ''')
S('c06-negative-reciprocal', 'C06', 'a reciprocal bounded above by a negative number with an open end',
  'an end of the preimage is excluded that belongs to it',
  [('src/transforms.py', "b_inv = sympy.Pow(b, -1) if b < 0 else -oo\n            ys_prime = transform_interval(ys, b_inv, a_inv, flip=True)", "b_inv = sympy.Pow(b, -1) if b < 0 else -oo\n            ys_prime = transform_interval(ys, b_inv, a_inv, flip=not isinf(a))")],
  H + '''
  s = ((1/X) <= -2).solve()
  print(s)
  assert -sympy.Rational(1,2) in s
  ''')
S('c06-polynomial-open-end', 'C06', 'a polynomial of degree at least two in a two-sided range which excludes its left end, on a variable with atoms',
  'the points where the polynomial takes the excluded value are in the preimage',
  [('src/transforms.py', "(lo, ro) = (not ys.left_open, ys.right_open)", "(lo, ro) = (not ys.left_open or (self.degree > 1 and not ys.right_open), ys.right_open)")],
  H + '''
  m = X >> poisson(mu=3)
  a = m.prob((4 < X**2) <= 16); b = m.prob(X << {3, 4})
  print(a, b)
  assert abs(a - b) < 1e-9
  ''')
S('c07-exponential-base', 'C07', 'a variable defined by an exponential of a derived variable with a base other than e',
  'substitution replaces the base by e',
  [('src/transforms.py', "return Exponential(subexpr_prime, self.base)", "return Exp(subexpr_prime)")],
  H + '''
  m = (X >> norm(loc=0, scale=1)).transform(Y, X + 1).transform(Z, 2**Y)
  a = m.prob(Z < 2); print(a)
  assert abs(a - .5) < 1e-9
  ''')
S('c07-logarithm-base', 'C07', 'a variable defined by a logarithm of a derived variable with a base other than e',
  'substitution replaces the base by e',
  [('src/transforms.py', "return Logarithm(subexpr_prime, self.base)", "return Log(subexpr_prime)")],
  H + '''
  m = (X >> uniform(loc=1, scale=3)).transform(Y, X*1).transform(Z, Logarithm(Y, 2))
  a = m.prob(Z < 1); print(a)
  assert abs(a - 1/3) < 1e-9
  ''')
S('c07-radical-degree', 'C07', 'a root of degree other than two of a derived variable',
  'substitution turns it into a square root',
  [('src/transforms.py', "return Radical(subexpr_prime, self.degree)", "return Sqrt(subexpr_prime)")],
  H + '''
  m = (X >> uniform(loc=0, scale=16)).transform(Y, X*1).transform(Z, Y**(1,4))
  a = m.prob(Z < 1.5); print(a)
  assert abs(a - 5.0625/16) < 1e-9
  ''')
S('c07-piecewise-events', 'C07', 'a piecewise transform of a derived variable',
  'the conditions of the pieces are not substituted',
  [('src/transforms.py', "events_prime = [event.subs(env) for event in self.events]", "events_prime = list(self.events)")],
  H + '''
  m = (X >> norm(loc=0, scale=1)).transform(Y, X + 1).transform(Z, (Y > 0)*Y + (Y <= 0)*(-1*Y))
  a = m.prob(Z < 1); print(a)
  b = (X >> norm(loc=0, scale=1)).prob((-2 < X) < 0)
  assert abs(a - b) < 1e-9
  ''')
S('c08-avoid-any', 'C08', 'a disjunction over a product in which two clauses exclude one another while a third overlaps both',
  'intersections that share one clause with a null intersection are left out of the inclusion-exclusion sum',
  [('src/spe.py', "len(b) <= len(subset) and all(z in subset for z in b)", "len(b) <= len(subset) and any(z in subset for z in b)")],
  H + '''
  U = uniform(loc=0, scale=1)
  m = (X >> U) & (Y >> U)
  p = m.prob(((X < .2) & (Y < .9)) | ((X > .8) & (Y < .9)) | (Y < .5))
  print(p)
  assert abs(p - (.5 + .4*.4)) < 1e-9
  ''')
S('c09-clause-split', 'C09', 'conditioning a product on a conjunction with two variables of one factor',
  'the factor is conditioned on the disjunction of the two literals',
  [('src/spe.py', "spe_clause = ({symbol: clause[symbol] for symbol in symbols},)", "spe_clause = tuple({symbol: clause[symbol]} for symbol in symbols)")],
  H + '''
  U = uniform(loc=0, scale=1)
  s = .5*((X >> U) & (Y >> U)) | .5*((X >> uniform(loc=1, scale=1)) & (Y >> U))
  m = s & (Z >> U)
  c = m.condition((X < .5) & (Y < .5))
  p = c.prob(Y < .5); print(p)
  assert abs(p - 1) < 1e-9
  ''')
S('c10-nominal-twice', 'C10', 'conditioning a nominal variable on an outcome excluded by an earlier condition',
  'ZeroDivisionError instead of ValueError',
  [('src/spe.py', "        if p_event == 0:\n            raise ValueError('Zero probability condition %s' % (event,))\n", "")],
  H + "  m = (X >> choice({'a': .5, 'b': .25, 'c': .25})).condition(X << {'a', 'b'})\n" + raises("m.condition(X << {'c'})", 'ValueError'))
S('c11-product-dimension', 'C11', 'a mixture of products whose components have atoms in a different number of coordinates',
  'the dimension of a product density is the largest of its factors, not their sum',
  [('src/spe.py', "return reduce(lambda x, s: (x[0]+s[0], x[1]+s[1]),", "return reduce(lambda x, s: (max(x[0], s[0]), x[1]+s[1]),")],
  H + '''
  N = norm(loc=0, scale=1)
  m = .5*((X >> N) & (Y >> N)) | .5*((X >> atomic(loc=0)) & (Y >> N))
  a = m.logpdf({X: 0, Y: 0}); b = log(.5) + (Y >> N).logpdf({Y: 0})
  print(a, b)
  assert abs(a - b) < 1e-9
  ''')
S('c12-left-atom', 'C12', 'the smallest integer of a truncated integer leaf',
  'its mass is left out of the distribution function',
  [('src/spe.py', "        elif x < self.xl:\n            return -inf", "        elif x <= self.xl:\n            return -inf")],
  H + '''
  m = (X >> poisson(mu=3)).condition((2 <= X) <= 4)
  a = m.prob(X > 2); b = m.prob(X << {3, 4})
  print(a, b)
  assert abs(a - b) < 1e-9
  ''')
S('c13-hash-key', 'C13', 'two components with equal hashes, such as point masses at -1 and -2',
  'memo entries of one component are used for another',
  [('src/spe.py', "        x = id(self)\n", "        x = hash(self)\n")],
  H + '''
  m = .5*(X >> atomic(loc=-1)) | .5*(X >> atomic(loc=-2))
  a = m.prob(X << {-1.}); print(a)
  b = (.5*(X >> atomic(loc=-1)) | .5*(X >> atomic(loc=-2))).prob(X < -1.5); print(b)
  assert abs(a - .5) < 1e-9 and abs(b - .5) < 1e-9
  ''')
S('c14-shared-env', 'C14', 'using a leaf after a variable was derived from it',
  'transform adds the variable to the leaf it was called on',
  [('src/spe.py', "        env = OrderedDict(self.env)\n        env[symbol] = expr\n        return (type(self))(", "        env = self.env\n        env[symbol] = expr\n        return (type(self))(")],
  H + '''
  m = X >> norm(loc=0, scale=1)
  m.transform(Y, X + 1)
  print(m.get_symbols())
  assert m.get_symbols() == {X}
  ''')
S('c14-partial-sum', 'C14', 'completing one partial mixture twice',
  'adding a component changes the partial mixture itself',
  [('src/spe.py', "        weights = self.weights + x.weights\n", "        weights = self.weights\n        weights += x.weights\n")],
  H + '''
  p = .5*(X >> norm(loc=0, scale=1))
  q = .5*(X >> norm(loc=1, scale=1))
  p | q
  m = p | q
  print(len(m.children))
  ''')
S('c14-mix', 'C14', 'completing one weighted distribution twice',
  'adding a component changes the weighted distribution itself',
  [('src/distributions.py', "        weights = self.weights + x.weights\n", "        weights = self.weights\n        weights.extend(x.weights)\n")],
  H + '''
  p = .5*norm(loc=0, scale=1)
  q = .5*norm(loc=1, scale=1)
  p | q
  m = (X >> (p | q))
  print(len(m.children))
  ''')
S('c15-order-by-component', 'C15', 'a product of two mixtures, sampled several times at once',
  'samples come sorted by component, so that independent variables are paired by rank',
  [('src/spe.py', "        random(prng).shuffle(samples)\n", "")],
  H + '''
  import numpy
  A = lambda V: .5*(V >> uniform(loc=0, scale=1)) | .5*(V >> uniform(loc=5, scale=1))
  m = A(X) & A(Y)
  s = m.sample(200, prng=numpy.random.RandomState(1))
  k = sum((d[X] < 2) == (d[Y] < 2) for d in s)
  print(k)
  assert 60 < k < 140
  ''')
S('c15-prng-func', 'C15', 'sample_func on a mixture with a given random state',
  'the random state is not handed to the components',
  [('src/spe.py', "self.children[i].sample_func(func, n, prng=prng)", "self.children[i].sample_func(func, n)")],
  H + '''
  import numpy
  m = .5*(X >> norm(loc=0, scale=1)) | .5*(X >> norm(loc=5, scale=1))
  f = lambda X: X
  a = m.sample_func(f, 5, prng=numpy.random.RandomState(1)); b = m.sample_func(f, 5, prng=numpy.random.RandomState(1))
  print(a, b)
  assert a == b
  ''')
S('c16-superset-component', 'C16', 'a mixture whose later component has a variable more than the first',
  'the mixture is accepted',
  [('src/sym_util.py', "return all(len(s) == len(intersection) for s in sets)", "return len(sets[0]) == len(intersection)")],
  H + "  N = norm(loc=0, scale=1)\n" + raises("SumSPE([X >> N, (X >> N) & (Y >> N)], [log(.5), log(.5)])", 'ValueError'))
S('c16-unnormalised', 'C16', 'a mixture whose log weights do not sum to one',
  'the mixture is accepted',
  [('src/spe.py', "        assert allclose(float(logsumexp(weights)),  0)\n", "")],
  H + "  N = norm(loc=0, scale=1)\n" + raises("SumSPE([X >> N, X >> N], [log(.5), log(.4)])", 'AssertionError'))
S('c16-redefined', 'C16', 'deriving a variable under a name the leaf has already',
  'the earlier definition is replaced',
  [('src/spe.py', "        assert symbol not in self.env\n        assert all(s in self.env for s in expr.get_symbols())\n        env = OrderedDict(self.env)\n        env[symbol] = expr\n        return (type(self))(", "        assert all(s in self.env for s in expr.get_symbols())\n        env = OrderedDict(self.env)\n        env[symbol] = expr\n        return (type(self))(")],
  H + "  m = (X >> norm(loc=0, scale=1)).transform(Y, X + 1)\n" + raises("m.transform(Y, X + 2)", 'AssertionError'))
S('c16-piecewise-overlap', 'C16', 'a piecewise transform of three pieces, the first and the last overlapping',
  'the pieces are accepted',
  [('src/transforms.py', "            if i == j:\n                continue\n            intersection = di & dj", "            if abs(i - j) != 1:\n                continue\n            intersection = di & dj")],
  H + raises("Piecewise([X, 2*X, 3*X], [X < 0, X > 1, X < -1])", 'ValueError'))
S('c17-env-ignored', 'C17', 'two leaves which differ in the definition of a derived variable',
  'the leaves are equal',
  [('src/spe.py', "            and self.conditioned == x.conditioned \\\n            and self.env == x.env", "            and self.conditioned == x.conditioned")],
  H + '''
  N = norm(loc=0, scale=1)
  a = (X >> N).transform(Y, X + 1); b = (X >> N).transform(Y, X + 2)
  print(a == b)
  assert a != b
  ''')
S('c17-sum-weights', 'C17', 'two mixtures of the same components with different weights',
  'the mixtures are equal',
  [('src/spe.py', "            and self.children == x.children \\\n            and self.weights == x.weights", "            and self.children == x.children")],
  H + '''
  N = norm(loc=0, scale=1); U = uniform(loc=0, scale=1)
  a = .5*(X >> N) | .5*(X >> U); b = .25*(X >> N) | .75*(X >> U)
  print(a == b)
  assert a != b
  ''')
S('c17-radical-degree', 'C17', 'roots of different degree of the same variable',
  'the roots are equal, so that conditions on them are merged',
  [('src/transforms.py', "            and self.subexpr == x.subexpr \\\n            and self.degree == x.degree", "            and self.subexpr == x.subexpr")],
  H + '''
  m = X >> uniform(loc=0, scale=16)
  p = m.prob((X**(1,2) < 3) & (X**(1,4) < 1.5)); print(p)
  assert abs(p - 5.0625/16) < 1e-9
  ''')
S('c17-logarithm-base', 'C17', 'logarithms of one variable in different bases',
  'the logarithms are equal, so that conditions on them are merged',
  [('src/transforms.py', "        return isinstance(x, Logarithm) \\\n            and self.subexpr == x.subexpr \\\n            and self.base == x.base", "        return isinstance(x, Logarithm) \\\n            and self.subexpr == x.subexpr")],
  H + '''
  m = X >> uniform(loc=1, scale=15)
  p = m.prob((Logarithm(X, 2) < 3) & (Logarithm(X, 4) < 1)); print(p)
  assert abs(p - 3/15) < 1e-9
  ''')
S('c17-piecewise-events', 'C17', 'piecewise transforms with the same pieces on different conditions',
  'the transforms are equal',
  [('src/transforms.py', "            and self.subexprs == x.subexprs \\\n            and self.events == x.events", "            and self.subexprs == x.subexprs")],
  H + '''
  a = X * (X > 0); b = X * (X > 1)
  print(a == b)
  assert a != b
  ''')
S('c19-third-branch', 'C19', 'an if/elif/elif/else chain whose first and third tests overlap',
  'a branch excludes the test before it only',
  [('src/compilers/ast_to_spe.py', "                reduce(lambda x, e: x & ~e, conditions[:i], conditions[i])\n                for i in range(len(conditions)-1)", "                reduce(lambda x, e: x & ~e, conditions[max(0, i-1):i], conditions[i])\n                for i in range(len(conditions)-1)")],
  H + '''
  from sppl.compilers.sppl_to_python import SPPL_Compiler
  src = "\\n".join(["X ~= uniform(loc=0, scale=4)", "if X < 1:", "    Y ~= atomic(loc=1)", "elif X > 3:", "    Y ~= atomic(loc=2)", "elif X < 2:", "    Y ~= atomic(loc=3)", "else:", "    Y ~= atomic(loc=4)"])
  m = SPPL_Compiler(src).execute_module().model
  p = m.prob(Y << {3.}); print(p)
  assert abs(p - .25) < 1e-9
  ''')
S('c19-switch-overlap', 'C19', 'a switch over overlapping cases which are not neighbours',
  'a case excludes the one before it only',
  [('src/compilers/ast_to_spe.py', "reduce(lambda x, s: x & ~s, sets[:i], sets[i])", "reduce(lambda x, s: x & ~s, sets[max(0, i-1):i], sets[i])")],
  H + '''
  from sppl.compilers.ast_to_spe import *
  c = Sequence(Sample(X, uniform(loc=0, scale=3)), Switch(X, [Interval(0, 1), Interval.Lopen(2, 3), Interval(0, 2)], lambda s: Sample(Y, atomic(loc=float(s.b)))))
  m = c.interpret()
  p = m.prob(Y << {2.}); print(p)
  assert abs(p - 1/3) < 1e-9
  ''')
S('c20-range-step', 'C20', 'a for loop over a range with a step',
  'the step is dropped',
  [('src/compilers/sppl_to_python.py', "assert len(node.iter.args) in [1, 2], unode", "assert 1 <= len(node.iter.args), unode"),
   ('src/compilers/sppl_to_python.py', "        if len(node.iter.args) == 2:\n            n0", "        if len(node.iter.args) >= 2:\n            n0")],
  H + '''
  from sppl.compilers.sppl_to_python import SPPL_Compiler
  src = "Y = array(4)\\nfor i in range(0, 4, 2):\\n    Y[i] ~= norm(loc=0, scale=1)\\n"
  try:
      m = SPPL_Compiler(src).execute_module().model
      r = len(m.get_symbols()) == 2
  except AssertionError:
      r = True
  print(r)
  assert r
  ''')
S('c20-for-else-of-array', 'C20', 'an array declared with two sizes',
  'the second size is dropped',
  [('src/compilers/sppl_to_python.py', "        assert len(node.value.args) == 1, unode          # must be array(n)\n", "        assert node.value.args, unode          # must be array(n)\n")],
  H + '''
  from sppl.compilers.sppl_to_python import SPPL_Compiler
  src = "Y = array(4, 2)\\nY[0] ~= norm(loc=0, scale=1)\\n"
  try:
      SPPL_Compiler(src)
      r = False
  except AssertionError:
      r = True
  print(r)
  assert r
  ''')
S('c23-discrete-conditioned', 'C23', 'a truncated integer leaf written to a dictionary and read back',
  'the leaf comes back without the truncation',
  [('src/compilers/spe_to_dict.py', "return DiscreteLeaf(symbol, dist, support, conditioned, env=env)", "return DiscreteLeaf(symbol, dist, support, env=env)")],
  H + '''
  from sppl.compilers.spe_to_dict import *
  m = (X >> poisson(mu=3)).condition(X > 4)
  n = spe_from_dict(spe_to_dict(m))
  a = m.prob(X << {5}); b = n.prob(X << {5}); print(a, b)
  assert abs(a - b) < 1e-9
  ''')
S('c23-half-open', 'C23', 'a leaf truncated to a half-open interval, written to a dictionary and read back',
  'the right end takes the openness of the left one',
  [('src/sets.py', "repr(self.left_open), repr(self.right_open))", "repr(self.left_open), repr(self.left_open if self.right_open is None else self.right_open))")],
  H + '''
  from sppl.compilers.spe_to_dict import *
  m = (X >> norm(loc=0, scale=1)).condition((1 < X) <= 2)
  n = spe_from_dict(spe_to_dict(m))
  print(m.support, n.support)
  assert m == n
  ''')
S('c24-second-derived', 'C24', 'a leaf with two derived variables',
  'the exported program defines only the first of them',
  [('src/compilers/spe_to_sppl.py', "            if 1 <= i:\n", "            if i == 1:\n")],
  H + '''
  from sppl.compilers.spe_to_sppl import render_sppl
  from sppl.compilers.sppl_to_python import SPPL_Compiler
  m = (X >> norm(loc=0, scale=1)).transform(Y, X + 1).transform(Z, Y**2)
  n = SPPL_Compiler(render_sppl(m).getvalue()).execute_module().model
  print(n.get_symbols())
  assert n.get_symbols() == m.get_symbols()
  ''')
S('c24-open-right', 'C24', 'an integer leaf truncated to an interval closed on one side only',
  'the exported condition takes the openness of the left end for both',
  [('src/transforms.py', "comp_r = '<' if self.values.right_open else '<='", "comp_r = '<' if self.values.right_open and (self.values.left_open or isinf_pos(self.values.right) or isinf_neg(self.values.left)) else '<='")],
  H + '''
  s = str((1 <= X) < 3); print(s)
  assert s == '(1 <= X) < 3'
  ''')
S('c27-handler-kept', 'C27', 'a program with an alarm handler of its own which solves a polynomial equation',
  'the alarm handler of the caller is not restored',
  [('src/timeout.py', "        signal.signal(signal.SIGALRM, self.handler)\n", "")],
  H + '''
  import signal
  h = lambda *a: None
  signal.signal(signal.SIGALRM, h)
  (X**2 + X < 3).solve()
  print(signal.getsignal(signal.SIGALRM) is h)
  assert signal.getsignal(signal.SIGALRM) is h
  ''')
S('c27-equality-untimed', 'C27', 'a polynomial equation on which the symbolic solver takes long',
  'the symbolic solver runs without a time limit',
  [('src/poly.py', "        with timeout(seconds=TIMEOUT_SYMBOLIC):\n            result_symbolic = solve_poly_equality_symbolically(expr, b)", "        result_symbolic = solve_poly_equality_symbolically(expr, b)")],
  H + '''
  import time, sppl.poly as P
  P.TIMEOUT_SYMBOLIC = 1
  P.solve_poly_inequality_symbolically = lambda *a: time.sleep(15)
  t = time.time()
  x = sympy.Symbol('X')
  try:
      P.solve_poly_equality(x**2 + x, 6)
  except Exception as e:
      print(e)
  print(time.time() - t)
  assert time.time() - t < 10
  ''')
S('c22-laplace', 'C22', 'a Laplace variable below its location',
  'the support is cut at the location',
  [('src/distributions.py', "    dist = scipy.stats.laplace\n    def get_domain(self): return Reals", "    dist = scipy.stats.laplace\n    def get_domain(self): return RealsPosLoc(self.kwargs) if 'loc' in self.kwargs else Reals")],
  H + '''
  p = (X >> laplace(loc=1, scale=1)).prob(X < 1); print(p)
  assert abs(p - .5) < 1e-9
  ''')
S('c03-nominal-complement', 'C03', 'the negation of membership of a derived real variable in a set of strings',
  'the negation does not hold on strings',
  [('src/transforms.py', "                if not self.complemented:\n                    return Strings\n                else:\n                    return EmptySet", "                if not self.complemented:\n                    return EmptySet\n                else:\n                    return EmptySet")],
  H + '''
  e = EventFiniteNominal(X**2, FiniteNominal('a'))
  s = e.invert(FiniteReal(0)); print(s)
  assert 'b' in s
  ''')
S('c03-and-of-or', 'C03', 'the conjunction of a disjunction with a conjunction',
  'the last literal of the conjunction is lost when it has three or more',
  [('src/transforms.py', "        if isinstance(event, EventAnd):\n            events = (self,) + event.subexprs\n            return EventAnd(events)\n        if isinstance(event, (EventBasic, EventOr)):\n            events = (self, event)\n            return EventAnd(events)", "        if isinstance(event, EventAnd):\n            events = (self,) + event.subexprs[:3]\n            return EventAnd(events)\n        if isinstance(event, (EventBasic, EventOr)):\n            events = (self, event)\n            return EventAnd(events)")],
  H + '''
  V = Id('V')
  e = ((X > 0) | (Y > 0)) & ((Z > 0) & (W > 0) & (V > 0) & (X < 5))
  r = e.evaluate({X: 7, Y: 1, Z: 1, W: 1, V: 1}); print(r)
  assert not r
  ''')
