# reference definitions: transforms of a variable
from sympy.abc import X as symX
from sympy.calculus.util import function_range, limit
from itertools import product
from sppl.sets import oo, ExtReals, ExtRealsPos, Reals, Strings

# ---------------------------------------------------------------- generic
@obl('transforms.Transform.substitute', 'C07')
def substitute(self, env):
    e = self
    while expr_in_env(e, env):
        e = e.subs(env)
    return e

@obl('transforms.expr_in_env', 'C07')
def in_env(expr, env):
    # some symbol of the expression is bound to something other than itself
    if not env:
        return env
    return any(env.get(s, s) != s for s in expr.get_symbols())

@obl('transforms.Transform.invert', 'C06', opaque='make_union')
def invert(self, ys):
    hit = self.range() & ys
    if hit is EmptySet:
        return EmptySet
    if isinstance(hit, FiniteReal):
        return self.invert_finite(hit)
    if isinstance(hit, Interval):
        return self.invert_interval(hit)
    if isinstance(hit, Union):
        return make_union(*[self.invert(part) for part in hit.args])
    assert False

# ---------------------------------------------------------------- arithmetic
@obl('transforms.Transform.__add__', 'C05', opaque='polyify sympify_number')
def add(self, x):
    p = polyify(self)
    try:
        v = sympify_number(x)
        c = list(p.coeffs)
        return Poly(p.subexpr, [c[0] + v] + c[1:])
    except TypeError:
        pass
    if not isinstance(x, Transform):
        return NotImplemented
    q = polyify(x)
    if q.subexpr != p.subexpr:
        raise ValueError()
    total = sympy.Poly(p.symexpr, symX) + sympy.Poly(q.symexpr, symX)
    return Poly(p.subexpr, total.all_coeffs()[::-1])

@obl('transforms.Transform.__radd__', 'C05')
def radd(self, x):
    return NotImplemented if isinstance(x, Transform) else self + x

@obl('transforms.Transform.__mul__', 'C05', opaque='polyify sympify_number')
def mul(self, x):
    p = polyify(self)
    try:
        v = sympify_number(x)
        return Poly(p.subexpr, [v * c for c in p.coeffs])
    except TypeError:
        pass
    if isinstance(x, Event):
        return Piecewise((self,), (x,))
    if not isinstance(x, Transform):
        return NotImplemented
    q = polyify(x)
    if q.subexpr != p.subexpr:
        raise ValueError()
    total = sympy.Poly(p.symexpr, symX) * sympy.Poly(q.symexpr, symX)
    return Poly(p.subexpr, total.all_coeffs()[::-1])

@obl('transforms.Transform.__rmul__', 'C05')
def rmul(self, x):
    return NotImplemented if isinstance(x, Transform) else self * x

@obl('transforms.Transform.__truediv__', 'C05', opaque='sympify_number')
def truediv(self, x):
    try:
        v = sympify_number(x)
        return sympy.Rational(1, v) * self
    except TypeError:
        return NotImplemented

@obl('transforms.Transform.__rtruediv__', 'C05', opaque='sympify_number')
def rtruediv(self, x):
    try:
        v = sympify_number(x)
        return Reciprocal(self) if v == 1 else v * Reciprocal(self)
    except TypeError:
        return NotImplemented

@obl('transforms.Transform.__sub__', 'C05')
def sub(self, x):
    return self + (-1 * x)

@obl('transforms.Transform.__rsub__', 'C05')
def rsub(self, x):
    return (-1 * self) + x

@obl('transforms.Transform.__neg__', 'C05')
def neg(self):
    return -1 * self

@obl('transforms.Transform.__abs__', 'C05')
def abs_(self):
    return Abs(self)

@obl('transforms.Transform.__pow__', 'C05', opaque='sympify_number')
def pow_(self, x):
    # numbers: integers and rationals with unit numerator; pairs (a, b) mean a/b
    def integer(n):
        if n > 0:
            return Pow(self, n)
        if n < 0:
            return 1 / Pow(self, -n)
        raise ValueError()
    def rational(q):
        n = q.as_numer_denom()[0]
        d = q.as_numer_denom()[1]
        if d == 1:
            return integer(n)
        if n == 1:
            return Radical(self, d)
        if n == -1:
            return 1 / Radical(self, d)
        raise ValueError()
    try:
        v = sympify_number(x)
        if isinstance(v, (sympy.Integer, int)):
            return integer(v)
        if isinstance(v, sympy.Rational):
            return rational(v)
        raise ValueError()
    except TypeError:
        pass
    try:
        if not isinstance(x, tuple):
            return NotImplemented
        return rational(sympy.Rational(sympify_number(x[0]), sympify_number(x[1])))
    except TypeError:
        return NotImplemented

@obl('transforms.Transform.__rpow__', 'C05', opaque='sympify_number')
def rpow(self, x):
    try:
        v = sympify_number(x)
        if v <= 0:
            raise ValueError()
        return Exponential(self, v)
    except TypeError:
        return NotImplemented

@obl('transforms.polyify', 'C05')
def polyify_(expr):
    return expr if isinstance(expr, Poly) else Poly(expr, (0, 1))

@obl('transforms.make_sympy_polynomial', 'C05 C06')
def sympoly(coeffs):
    return sympy.Add(*[coeffs[i] * symX ** i for i in range(len(coeffs))])

@obl('transforms.Pow', 'C05')
def Pow_(subexpr, n):
    assert 0 <= n
    return Poly(subexpr, [0] * n + [1])

@obl('transforms.Exp', 'C05')
def Exp_(subexpr):
    return Exponential(subexpr, sympy.exp(1))

@obl('transforms.Log', 'C05')
def Log_(subexpr):
    return Logarithm(subexpr, sympy.exp(1))

@obl('transforms.Sqrt', 'C05')
def Sqrt_(subexpr):
    return Radical(subexpr, 2)

@obl('transforms.Abs.__abs__', 'C05')
def abs_abs(self):
    return Abs(self.subexpr)

@obl('transforms.Poly.__neg__', 'C05')
def poly_neg(self):
    return Poly(self.subexpr, [-c for c in self.coeffs])

@obl('transforms.Piecewise.__add__', 'C05')
def piecewise_add(self, x):
    if isinstance(x, Piecewise):
        return Piecewise(self.subexprs + x.subexprs, self.events + x.events)
    return Transform.__add__(self, x)

@obl('transforms.Event.__mul__', 'C05')
def event_mul(self, x):
    if isinstance(x, Transform):
        return Piecewise((x,), (self,))
    return Transform.__mul__(self, x)

# ---------------------------------------------------------------- comparisons
@obl('transforms.Transform.__le__', 'C02 C21', opaque='sympify_number')
def le(self, x):
    try:
        return EventInterval(self, Interval(-oo, sympify_number(x)))
    except TypeError:
        return NotImplemented

@obl('transforms.Transform.__lt__', 'C02 C21', opaque='sympify_number')
def lt(self, x):
    try:
        return EventInterval(self, Interval(-oo, sympify_number(x), None, True))
    except TypeError:
        return NotImplemented

@obl('transforms.Transform.__ge__', 'C02 C21', opaque='sympify_number')
def ge(self, x):
    try:
        return EventInterval(self, Interval(sympify_number(x), oo))
    except TypeError:
        return NotImplemented

@obl('transforms.Transform.__gt__', 'C02 C21', opaque='sympify_number')
def gt(self, x):
    try:
        return EventInterval(self, Interval(sympify_number(x), oo, True))
    except TypeError:
        return NotImplemented

@obl('transforms.Transform.__lshift__', 'C02 C21')
def lshift(self, x):
    if x is EmptySet or isinstance(x, FiniteReal):
        return EventFiniteReal(self, x)
    if isinstance(x, FiniteNominal):
        return EventFiniteNominal(self, x)
    if isinstance(x, Interval):
        return EventInterval(self, x)
    if isinstance(x, (list, tuple, set, frozenset)):
        num = [v for v in list(x) if not isinstance(v, str)]
        nom = [v for v in list(x) if isinstance(v, str)]
        if num and nom:
            return EventOr([EventFiniteReal(self, FiniteReal(*num)), EventFiniteNominal(self, FiniteNominal(*nom))])
        if num:
            return EventFiniteReal(self, FiniteReal(*num))
        if nom:
            return EventFiniteNominal(self, FiniteNominal(*nom))
        return EventFiniteReal(self, EmptySet)
    if isinstance(x, Union):
        return reduce(lambda a, b: a | b, [self << y for y in x.args])
    return NotImplemented

@obl('transforms.EventInterval.__gt__', 'C02 C21', opaque='sympify_number convert_sympy')
def chain_gt(self, x):
    return chain_lower(self, x, True)

@obl('transforms.EventInterval.__ge__', 'C02 C21', opaque='sympify_number convert_sympy')
def chain_ge(self, x):
    return chain_lower(self, x, False)

@obl('transforms.EventInterval.__lt__', 'C02 C21', opaque='sympify_number convert_sympy')
def chain_lt(self, x):
    return chain_upper(self, x, True)

@obl('transforms.EventInterval.__le__', 'C02 C21', opaque='sympify_number convert_sympy')
def chain_le(self, x):
    return chain_upper(self, x, False)

def chain_lower(self, x, open_):
    if not isinf_neg(self.values.left):
        raise ValueError()
    return of_set(self, convert_sympy(sympy.Interval(
        sympify_number(x), self.values.right, left_open=open_, right_open=self.values.right_open)))

def chain_upper(self, x, open_):
    if not isinf_pos(self.values.right):
        raise ValueError()
    return of_set(self, convert_sympy(sympy.Interval(
        self.values.left, sympify_number(x), left_open=self.values.left_open, right_open=open_)))

def of_set(self, s):
    if isinstance(s, Interval):
        return EventInterval(self.subexpr, s)
    if isinstance(s, FiniteReal) or s is EmptySet:
        return EventFiniteReal(self.subexpr, s)
    assert False

# ---------------------------------------------------------------- injective transforms
@obl('transforms.Injective.invert_finite', 'C06', opaque='make_union')
def injective_finite(self, ys):
    return self.subexpr.invert(make_union(*[self.finv(y) for y in ys]))

@obl('transforms.Injective.invert_interval', 'C06')
def injective_interval(self, ys):
    assert isinstance(ys, Interval)
    a = next(iter(self.finv(ys.left)))
    b = next(iter(self.finv(ys.right)))
    if a < b:
        pre = Interval(a, b, ys.left_open, ys.right_open)
    else:
        pre = Interval(b, a, ys.right_open, ys.left_open)
    return self.subexpr.invert(pre)

@obl('transforms.transform_interval', 'C06')
def tinterval(interval, a, b, flip):
    if flip:
        return Interval(a, b, interval.right_open, interval.left_open)
    return Interval(a, b, interval.left_open, interval.right_open)

@obl('transforms.Identity.domain', 'C06')
def id_domain(self):
    return ExtReals

@obl('transforms.Identity.range', 'C06')
def id_range(self):
    return ExtReals

@obl('transforms.Identity.subs', 'C07')
def id_subs(self, env):
    return env[self] if expr_in_env(self, env) else self

@obl('transforms.Identity.evaluate', 'C06 C07', inline='ffwd')
def id_evaluate(self, assignment):
    if self not in assignment:
        raise ValueError()
    return assignment[self]

@obl('transforms.Identity.ffwd', 'C06')
def id_ffwd(self, x):
    return x

@obl('transforms.Identity.finv', 'C06')
def id_finv(self, y):
    return FiniteReal(y) if y in self.range() else EmptySet

@obl('transforms.Identity.invert_finite', 'C06')
def id_invert_finite(self, ys):
    return ys

@obl('transforms.Identity.invert_interval', 'C06')
def id_invert_interval(self, ys):
    return ys

@obl('transforms.Radical.domain', 'C06')
def radical_domain(self):
    return ExtRealsPos

@obl('transforms.Radical.range', 'C06')
def radical_range(self):
    return ExtRealsPos

@obl('transforms.Radical.subs', 'C07')
def radical_subs(self, env):
    return Radical(self.subexpr.subs(env), self.degree) if expr_in_env(self, env) else self

@obl('transforms.Radical.evaluate', 'C06')
def radical_evaluate(self, assignment):
    return self.ffwd(self.subexpr.evaluate(assignment))

@obl('transforms.Radical.ffwd', 'C06')
def radical_ffwd(self, x):
    assert x in self.domain()
    return sympy.Pow(x, sympy.Rational(1, self.degree))

@obl('transforms.Radical.finv', 'C06')
def radical_finv(self, y):
    if y not in self.range():
        return EmptySet
    if isinf_pos(y):
        return FiniteReal(oo)
    return FiniteReal(sympy.Pow(y, sympy.Rational(self.degree, 1)))

@obl('transforms.Exponential.domain', 'C06')
def exp_domain(self):
    return ExtReals

@obl('transforms.Exponential.range', 'C06')
def exp_range(self):
    return ExtRealsPos

@obl('transforms.Exponential.subs', 'C07')
def exp_subs(self, env):
    return Exponential(self.subexpr.subs(env), self.base) if expr_in_env(self, env) else self

@obl('transforms.Exponential.evaluate', 'C06')
def exp_evaluate(self, assignment):
    return self.ffwd(self.subexpr.evaluate(assignment))

@obl('transforms.Exponential.ffwd', 'C06')
def exp_ffwd(self, x):
    assert x in self.domain()
    return sympy.Pow(self.base, x)

@obl('transforms.Exponential.finv', 'C06')
def exp_finv(self, y):
    # increasing for a base above one, decreasing below one
    if y not in self.range():
        return EmptySet
    if isinf_pos(y):
        return FiniteReal(oo) if self.base > 1 else FiniteReal(-oo)
    if y <= 0:
        return FiniteReal(-oo) if self.base > 1 else FiniteReal(oo)
    return FiniteReal(sympy.log(y, self.base))

@obl('transforms.Logarithm.domain', 'C06')
def log_domain(self):
    return ExtRealsPos

@obl('transforms.Logarithm.range', 'C06')
def log_range(self):
    return ExtReals

@obl('transforms.Logarithm.subs', 'C07')
def log_subs(self, env):
    return Logarithm(self.subexpr.subs(env), self.base) if expr_in_env(self, env) else self

@obl('transforms.Logarithm.evaluate', 'C06')
def log_evaluate(self, assignment):
    return self.ffwd(self.subexpr.evaluate(assignment))

@obl('transforms.Logarithm.ffwd', 'C06')
def log_ffwd(self, x):
    assert x in self.domain()
    return sympy.log(x, self.base) if x > 0 else -oo

@obl('transforms.Logarithm.finv', 'C06')
def log_finv(self, y):
    if y not in self.range():
        return EmptySet
    if isinf_pos(y):
        return FiniteReal(oo)
    return FiniteReal(sympy.Pow(self.base, y))

# ---------------------------------------------------------------- many-to-one transforms
@obl('transforms.Abs.domain', 'C06')
def abs_domain(self):
    return ExtReals

@obl('transforms.Abs.range', 'C06')
def abs_range(self):
    return ExtRealsPos

@obl('transforms.Abs.subs', 'C07')
def abs_subs(self, env):
    return Abs(self.subexpr.subs(env)) if expr_in_env(self, env) else self

@obl('transforms.Abs.evaluate', 'C06')
def abs_evaluate(self, assignment):
    return self.ffwd(self.subexpr.evaluate(assignment))

@obl('transforms.Abs.ffwd', 'C06')
def abs_ffwd(self, x):
    assert x in self.domain()
    return x if x > 0 else -x

@obl('transforms.Abs.finv', 'C06')
def abs_finv(self, y):
    return FiniteReal(y, -y) if y in self.range() else EmptySet

@obl('transforms.Abs.invert_finite', 'C06', opaque='make_union')
def abs_invert_finite(self, ys):
    return self.subexpr.invert(make_union(*[self.finv(y) for y in ys]))

@obl('transforms.Abs.invert_interval', 'C06')
def abs_invert_interval(self, ys):
    assert isinstance(ys, Interval)
    pos = Interval(ys.left, ys.right, ys.left_open, ys.right_open)
    neg = Interval(-ys.right, -ys.left, ys.right_open, ys.left_open)
    return self.subexpr.invert(pos | neg)

@obl('transforms.Reciprocal.domain', 'C06')
def rec_domain(self):
    return FiniteReal(oo, -oo) | Interval(-oo, 0, None, True) | Interval(0, oo, True)

@obl('transforms.Reciprocal.range', 'C06')
def rec_range(self):
    return Interval(-oo, 0, None, True) | Interval(0, oo, True)

@obl('transforms.Reciprocal.subs', 'C07')
def rec_subs(self, env):
    return Reciprocal(self.subexpr.subs(env)) if expr_in_env(self, env) else self

@obl('transforms.Reciprocal.evaluate', 'C06')
def rec_evaluate(self, assignment):
    return self.ffwd(self.subexpr.evaluate(assignment))

@obl('transforms.Reciprocal.ffwd', 'C06')
def rec_ffwd(self, x):
    assert x in self.domain()
    return 0 if isinf(x) else sympy.Pow(x, -1)

@obl('transforms.Reciprocal.finv', 'C06')
def rec_finv(self, y):
    if y not in self.range():
        return EmptySet
    if y == 0:
        return FiniteReal(-oo, oo)
    return FiniteReal(sympy.Pow(y, -1))

@obl('transforms.Reciprocal.invert_finite', 'C06', opaque='make_union')
def rec_invert_finite(self, ys):
    return self.subexpr.invert(make_union(*[self.finv(y) for y in ys]))

@obl('transforms.Reciprocal.invert_interval', 'C06')
def rec_invert_interval(self, ys):
    # decreasing on either side of zero: the ends swap, with their flags
    a = ys.left
    b = ys.right
    if 0 <= a and a < b:
        assert 0 < a or ys.left_open
        hi = sympy.Pow(a, -1) if 0 < a else oo
        lo = 0 if isinf(b) else sympy.Pow(b, -1)
    else:
        assert a < b and b <= 0
        assert b < 0 or ys.right_open
        hi = 0 if isinf(a) else sympy.Pow(a, -1)
        lo = sympy.Pow(b, -1) if b < 0 else -oo
    return self.subexpr.invert(Interval(lo, hi, ys.right_open, ys.left_open))

@obl('transforms.Poly.domain', 'C06')
def poly_domain(self):
    return ExtReals

@obl('transforms.Poly.range', 'C06', opaque='convert_sympy')
def poly_range(self):
    r = function_range(self.symexpr, symX, sympy.Reals)
    if isinstance(r, sympy.FiniteSet):
        return FiniteReal(*[float(x) for x in r.args])
    hi = FiniteReal(oo) if r.right == oo else EmptySet
    lo = FiniteReal(-oo) if r.left == -oo else EmptySet
    return convert_sympy(r) | hi | lo

@obl('transforms.Poly.__init__', 'C05 C06 C07')
def poly_init(self, subexpr, coeffs):
    assert len(coeffs) > 1
    if not isinstance(subexpr, Transform):
        raise TypeError()
    return {'subexpr': subexpr, 'symbols': subexpr.symbols, 'coeffs': tuple(coeffs), 'degree': len(coeffs) - 1,
            'symexpr': make_sympy_polynomial(coeffs)}

@obl('transforms.Poly.subs', 'C07')
def poly_subs(self, env):
    return Poly(self.subexpr.subs(env), self.coeffs) if expr_in_env(self, env) else self

@obl('transforms.Poly.evaluate', 'C06')
def poly_evaluate(self, assignment):
    return self.ffwd(self.subexpr.evaluate(assignment))

@obl('transforms.Poly.ffwd', 'C06')
def poly_ffwd(self, x):
    assert x in self.domain()
    return limit(self.symexpr, symX, x) if isinf(x) else self.symexpr.subs(symX, x)

@obl('transforms.Poly.finv', 'C06', opaque='solve_poly_equality')
def poly_finv(self, y):
    return solve_poly_equality(self.symexpr, y) if y in self.range() else EmptySet

@obl('transforms.Poly.invert_finite', 'C06', opaque='make_union')
def poly_invert_finite(self, ys):
    return self.subexpr.invert(make_union(*[self.finv(y) for y in ys]))

@obl('transforms.Poly.invert_interval', 'C06', opaque='solve_poly_inequality')
def poly_invert_interval(self, ys):
    # {p < b or p <= b} minus {p <= a or p < a}: the lower end is excluded exactly when it is closed out
    assert isinstance(ys, Interval)
    upto = solve_poly_inequality(self.symexpr, ys.right, ys.right_open, extended=False)
    below = solve_poly_inequality(self.symexpr, ys.left, not ys.left_open, extended=False)
    return self.subexpr.invert(upto & ~below)

# ---------------------------------------------------------------- piecewise
@obl('transforms.Piecewise.__init__', 'C05 C06 C16', opaque='get_piecewise_symbol get_piecewise_domains')
def piecewise_init(self, subexprs, events):
    for s in subexprs:
        if not isinstance(s, Transform):
            raise TypeError()
    for e in events:
        if not isinstance(e, Event):
            raise TypeError()
    return {'subexprs': list(subexprs), 'events': list(events),
            'symbols': get_piecewise_symbol(subexprs, events), 'domains': get_piecewise_domains(events)}

@obl('transforms.Piecewise.domain', 'C06', opaque='make_union')
def piecewise_domain(self):
    return make_union(*self.domains)

@obl('transforms.Piecewise.range', 'C06', opaque='make_union')
def piecewise_range(self):
    return make_union(*[s.range() for s in self.subexprs])

@obl('transforms.Piecewise.subs', 'C07')
def piecewise_subs(self, env):
    if not expr_in_env(self, env):
        return self
    return Piecewise([s.subs(env) for s in self.subexprs], [e.subs(env) for e in self.events])

@obl('transforms.Piecewise.evaluate', 'C06')
def piecewise_evaluate(self, assignment):
    (symbol,) = self.symbols
    x = symbol.evaluate(assignment)
    for s, d in zip(self.subexprs, self.domains):
        if x in d:
            return s.evaluate(assignment)
    raise ValueError()

@obl('transforms.Piecewise.ffwd', 'C06')
def piecewise_ffwd(self, x):
    return self.subexprs[next(i for i, d in enumerate(self.domains) if x in d)].ffwd(x)

@obl('transforms.Piecewise.finv', 'C06')
def piecewise_finv(self, y):
    return reduce(lambda a, b: a | b, [s.finv(y) & d for s, d in zip(self.subexprs, self.domains)])

@obl('transforms.Piecewise.invert_finite', 'C06')
def piecewise_invert_finite(self, ys):
    return reduce(lambda a, b: a | b, [s.invert(ys) & d for s, d in zip(self.subexprs, self.domains)])

@obl('transforms.Piecewise.invert_interval', 'C06')
def piecewise_invert_interval(self, ys):
    return reduce(lambda a, b: a | b, [s.invert(ys) & d for s, d in zip(self.subexprs, self.domains)])

@obl('transforms.get_piecewise_symbol', 'C05 C16', opaque='get_union')
def piecewise_symbol(subexprs, events):
    if len(subexprs) != len(events):
        raise ValueError()
    s = get_union([x.get_symbols() for x in subexprs])
    if len(s) > 1:
        raise ValueError()
    if s != get_union([x.get_symbols() for x in events]):
        raise ValueError()
    return s

@obl('transforms.get_piecewise_domains', 'C05 C16')
def piecewise_domains(events):
    d = [e.solve() for e in events]
    for i in range(len(d)):
        for j in range(len(d)):
            if i != j and (d[i] & d[j]) is not EmptySet:
                raise ValueError()
    return d

# ---------------------------------------------------------------- construction of the simple transforms
@obl('transforms.Radical.__init__', 'C05 C07')
def radical_init(self, subexpr, degree):
    assert degree != 0
    if not isinstance(subexpr, Transform):
        raise TypeError()
    return {'subexpr': subexpr, 'symbols': subexpr.symbols, 'degree': degree}

@obl('transforms.Exponential.__init__', 'C05 C07')
def exponential_init(self, subexpr, base):
    assert base > 0
    if not isinstance(subexpr, Transform):
        raise TypeError()
    return {'subexpr': subexpr, 'symbols': subexpr.symbols, 'base': base}

@obl('transforms.Logarithm.__init__', 'C05 C07')
def logarithm_init(self, subexpr, base):
    assert base > 1
    if not isinstance(subexpr, Transform):
        raise TypeError()
    return {'subexpr': subexpr, 'symbols': subexpr.symbols, 'base': base}

@obl('transforms.Abs.__init__', 'C05 C07')
def abs_init(self, subexpr):
    if not isinstance(subexpr, Transform):
        raise TypeError()
    return {'subexpr': subexpr, 'symbols': subexpr.symbols}

@obl('transforms.Reciprocal.__init__', 'C05 C07')
def reciprocal_init(self, subexpr):
    if not isinstance(subexpr, Transform):
        raise TypeError()
    return {'subexpr': subexpr, 'symbols': subexpr.symbols}

# ---------------------------------------------------------------- events
@obl('transforms.Event.solve', 'C06')
def event_solve(self):
    if len(self.symbols) > 1:
        raise ValueError()
    return self.invert(FiniteReal(1))

@obl('transforms.EventBasic.solve', 'C06 C03')
def basic_solve(self):
    if isinstance(self.subexpr, Identity):
        return self.values
    return Event.solve(self)

@obl('transforms.Event.range', 'C06')
def event_range(self):
    return FiniteReal(0, 1)

@obl('transforms.Event.to_dnf', 'C03')
def to_dnf(self):
    def one(x, E):
        return x[0] if len(x) == 1 else E(x)
    return one([one(c, EventAnd) for c in self.to_dnf_list()], EventOr)

@obl('transforms.Event.__xor__', 'C03')
def event_xor(self, event):
    if isinstance(event, Event):
        return (self & ~event) | (~self & event)
    return NotImplemented

@obl('transforms.EventBasic.to_dnf_list', 'C03')
def basic_dnf(self):
    return [[self]]

@obl('transforms.EventOr.to_dnf_list', 'C03')
def or_dnf(self):
    return [c for e in self.subexprs for c in e.to_dnf_list()]

@obl('transforms.EventAnd.to_dnf_list', 'C03')
def and_dnf(self):
    return [list(chain.from_iterable(cross)) for cross in product(*[e.to_dnf_list() for e in self.subexprs])]

@obl('transforms.EventBasic.subs', 'C07')
def basic_subs(self, env):
    return type(self)(self.subexpr.subs(env), self.values) if expr_in_env(self, env) else self

@obl('transforms.EventCompound.subs', 'C07')
def compound_subs(self, env):
    return type(self)([e.subs(env) for e in self.subexprs]) if expr_in_env(self, env) else self

@obl('transforms.EventBasic.domain', 'C06')
def basic_domain(self):
    return self.subexpr.domain()

@obl('transforms.EventCompound.domain', 'C06')
def compound_domain(self):
    if len(self.symbols) > 1:
        raise ValueError()
    return reduce(lambda a, b: a & b, [e.domain() for e in self.subexprs])

@obl('transforms.EventBasic.evaluate', 'C03 C06')
def basic_evaluate(self, assignment):
    return self.ffwd(self.subexpr.evaluate(assignment))

@obl('transforms.EventBasic.ffwd', 'C03 C06')
def basic_ffwd(self, x):
    return x in self.values

@obl('transforms.EventOr.evaluate', 'C03')
def or_evaluate(self, assignment):
    return any([e.evaluate(assignment) for e in self.subexprs])

@obl('transforms.EventAnd.evaluate', 'C03')
def and_evaluate(self, assignment):
    return all([e.evaluate(assignment) for e in self.subexprs])

@obl('transforms.EventOr.ffwd', 'C03')
def or_ffwd(self, x):
    return any([e.ffwd(x) for e in self.subexprs])

@obl('transforms.EventAnd.ffwd', 'C03')
def and_ffwd(self, x):
    return all([e.ffwd(x) for e in self.subexprs])

def bigor(xs):
    return reduce(lambda a, b: a | b, xs)

def bigand(xs):
    return reduce(lambda a, b: a & b, xs)

@obl('transforms.EventOr.finv', 'C03 C06')
def or_finv(self, y):
    xs = [e.finv(y) for e in self.subexprs]
    return bigor(xs) if y == 1 else bigand(xs)

@obl('transforms.EventAnd.finv', 'C03 C06')
def and_finv(self, y):
    xs = [e.finv(y) for e in self.subexprs]
    return bigand(xs) if y == 1 else bigor(xs)

@obl('transforms.EventOr.invert_finite', 'C03 C06')
def or_invert(self, ys):
    xs = [e.invert(ys) for e in self.subexprs]
    return bigand(xs) if ys == FiniteReal(0) else bigor(xs)

@obl('transforms.EventAnd.invert_finite', 'C03 C06')
def and_invert(self, ys):
    xs = [e.invert(ys) for e in self.subexprs]
    return bigor(xs) if ys == FiniteReal(0) else bigand(xs)

@obl('transforms.EventOr.__invert__', 'C03')
def or_not(self):
    return bigand([~e for e in self.subexprs])

@obl('transforms.EventAnd.__invert__', 'C03')
def and_not(self):
    return bigor([~e for e in self.subexprs])

@obl('transforms.EventCompound.__init__', 'C03 C07', opaque='get_union')
def compound_init(self, subexprs):
    for e in subexprs:
        assert isinstance(e, Event)
    for e in subexprs:
        if not isinstance(e, Transform):
            raise TypeError()
    return {'subexprs': tuple(subexprs), 'symbols': get_union([e.get_symbols() for e in subexprs])}

@obl('transforms.EventOr.__and__', 'C03')
def or_and(self, event):
    if isinstance(event, EventAnd):
        return EventAnd((self,) + event.subexprs)
    if isinstance(event, (EventBasic, EventOr)):
        return EventAnd((self, event))
    return NotImplemented

@obl('transforms.EventOr.__or__', 'C03')
def or_or(self, event):
    if isinstance(event, EventOr):
        return EventOr(self.subexprs + event.subexprs)
    if isinstance(event, (EventBasic, EventAnd)):
        return EventOr(self.subexprs + (event,))
    return NotImplemented

@obl('transforms.EventAnd.__and__', 'C03')
def and_and(self, event):
    if isinstance(event, EventAnd):
        return EventAnd(self.subexprs + event.subexprs)
    if isinstance(event, (EventBasic, EventOr)):
        return EventAnd(self.subexprs + (event,))
    return NotImplemented

@obl('transforms.EventAnd.__or__', 'C03')
def and_or(self, event):
    if isinstance(event, EventOr):
        return EventOr((self,) + event.subexprs)
    if isinstance(event, (EventBasic, EventAnd)):
        return EventOr((self, event))
    return NotImplemented

def literal(t, s):
    # the literal for membership in a set, or None when it needs a compound
    if s is EmptySet or isinstance(s, FiniteReal):
        return EventFiniteReal(t, s)
    if isinstance(s, FiniteNominal):
        return EventFiniteNominal(t, s)
    if isinstance(s, Interval):
        return EventInterval(t, s)
    return None

@obl('transforms.EventBasic.__and__', 'C03')
def basic_and(self, event):
    if isinstance(event, EventBasic) and event.subexpr == self.subexpr:
        s = self.values & event.values
        if s is EmptySet and isinstance(self, EventFiniteNominal) and isinstance(event, EventFiniteNominal):
            return EventFiniteNominal(self.subexpr, EmptySet)
        lit = literal(self.subexpr, s)
        if lit is not None:
            return lit
    if isinstance(event, EventAnd):
        return EventAnd((self,) + event.subexprs)
    if isinstance(event, (EventBasic, EventOr)):
        return EventAnd((self, event))
    return NotImplemented

@obl('transforms.EventBasic.__or__', 'C03')
def basic_or(self, event):
    if isinstance(event, EventBasic) and event.subexpr == self.subexpr:
        lit = literal(self.subexpr, self.values | event.values)
        if lit is not None:
            return lit
    if isinstance(event, EventOr):
        return EventOr((self,) + event.subexprs)
    if isinstance(event, (EventBasic, EventAnd)):
        return EventOr((self, event))
    return NotImplemented

@obl('transforms.EventInterval.__invert__', 'C03')
def interval_not(self):
    s = ~self.values
    if s is EmptySet:
        return EventFiniteReal(self.subexpr, s)
    if isinstance(s, Interval):
        return EventInterval(self.subexpr, s)
    assert isinstance(s, Union)
    assert len(s.args) == 2
    return EventOr([EventInterval(self.subexpr, s.args[0]), EventInterval(self.subexpr, s.args[1])])

@obl('transforms.EventFiniteReal.__invert__', 'C03')
def finite_not(self):
    s = ~self.values
    if s == Reals:
        return EventInterval(self.subexpr, Reals)
    assert isinstance(s, Union)
    return EventOr([EventInterval(self.subexpr, v) for v in s.args])

@obl('transforms.EventFiniteNominal.__invert__', 'C03')
def nominal_not(self):
    return EventFiniteNominal(self.subexpr, Strings if self.values is EmptySet else ~self.values)

@obl('transforms.EventInterval.finv', 'C03 C06')
def interval_finv(self, y):
    if y not in self.range():
        return EmptySet
    if y == 1:
        return self.values
    if y == 0:
        return ~self.values
    return None

@obl('transforms.EventFiniteReal.finv', 'C03 C06')
def finite_finv(self, y):
    if y not in self.range():
        return EmptySet
    if y == 1:
        return self.values
    if y == 0:
        return ~self.values
    return None

@obl('transforms.EventInterval.invert_finite', 'C03 C06')
def interval_invert(self, ys):
    return self.subexpr.invert(bigor([self.finv(y) for y in ys]))

@obl('transforms.EventFiniteReal.invert_finite', 'C03 C06')
def finite_invert(self, ys):
    return self.subexpr.invert(bigor([self.finv(y) for y in ys]))

@obl('transforms.EventFiniteNominal.finv', 'C03 C06')
def nominal_finv(self, y):
    # a transformed variable is numeric: it is in no set of strings, and outside every finite set of them
    if y not in self.range():
        return EmptySet
    if y == 1:
        if self.values is EmptySet:
            return EmptySet
        if self.transformed:
            return Strings if self.complemented else EmptySet
        return self.values
    if y == 0:
        if self.values is EmptySet:
            return Strings
        if self.transformed:
            return EmptySet if self.complemented else Strings
        return ~self.values
    return None

@obl('transforms.EventFiniteNominal.invert_finite', 'C03 C06')
def nominal_invert(self, ys):
    if ys == FiniteReal(0):
        return self.finv(0)
    if ys == FiniteReal(1):
        return self.finv(1)
    if ys == FiniteReal(0, 1):
        return Strings
    return None

@obl('transforms.EventInterval.__init__', 'C02 C03')
def event_interval_init(self, subexpr, values):
    assert isinstance(values, Interval)
    if not isinstance(subexpr, Transform):
        raise TypeError()
    return {'subexpr': subexpr, 'symbols': subexpr.symbols, 'values': values}

@obl('transforms.EventFiniteReal.__init__', 'C02 C03')
def event_finite_init(self, subexpr, values):
    if not isinstance(subexpr, Transform):
        raise TypeError()
    return {'subexpr': subexpr, 'symbols': subexpr.symbols, 'values': values if values is EmptySet else FiniteReal(*values)}

@obl('transforms.EventFiniteNominal.__init__', 'C02 C03')
def event_nominal_init(self, subexpr, values):
    assert values is EmptySet or isinstance(values, FiniteNominal)
    if not isinstance(subexpr, Transform):
        raise TypeError()
    return {'subexpr': subexpr, 'symbols': subexpr.symbols, 'values': values,
            'transformed': not isinstance(subexpr, Identity), 'complemented': values is not EmptySet and values.b}

@obl('transforms.make_event', 'C16')
def mkevent(event):
    if isinstance(event, Event):
        return event
    raise TypeError()
