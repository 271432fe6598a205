"""Arithmetic on random variables (C05), substitution (C07) and preimages of compositions (C06), decided by abstract interpretation of src/transforms.py.

Values are points of the field of rational functions in indeterminates, extended by uninterpreted exp, log, root and power with their inverse laws; a number is
a prime-field fingerprint of its normal form together with a witness that fixes its order.  Expressions are built by the operators of the current source, evaluated, substituted and
inverted by it, and the result is compared with the same arithmetic done on the values.  Polynomial algebra of sympy is replaced by its definition, the solver by exact solutions.
"""
import math
import random
from fractions import Fraction

from .absint import HOST, INF, SY_EMPTY, Abstract, Interp, Obj, Opaque, Raised, SyFinite, SyInterval, SySet, SyUnion, Unsupported
from .dists import Num, num
from .measure import PR, const, fork_map, install
from .report import Report


class Wrong(Exception):
    pass


IMPLICIT = (TypeError, AttributeError, NameError, OverflowError)


class Q(Num):
    """a rational number of sympy"""
    __slots__ = ('q',)
    number = False
    visible = ('is_number', 'is_real', 'as_numer_denom', 'p', 'q', 'numerator', 'denominator', 'is_integer', 'is_Integer', 'is_Rational')
    is_number = is_real = is_Rational = True

    def __new__(cls, n, d=1):
        if isinstance(n, Q):
            n = n.v
        if isinstance(d, Q):
            d = d.v
        if isinstance(n, Num) or isinstance(d, Num):
            return num(n) / num(d)
        v = Fraction(n) / Fraction(d)
        return object.__new__(Z if v.denominator == 1 else Q)

    def __init__(self, n, d=1):
        v = Fraction(n.v if isinstance(n, Q) else n) / Fraction(d.v if isinstance(d, Q) else d)
        self.q = v
        Num.__init__(self, v.numerator * pow(v.denominator, PR - 2, PR), float(v), v.denominator == 1)

    v = property(lambda s: s.q)
    numerator = p = property(lambda s: s.v.numerator)
    denominator = property(lambda s: s.v.denominator)
    is_integer = is_Integer = property(lambda s: s.v.denominator == 1)

    def as_numer_denom(self):
        return Q(self.v.numerator), Q(self.v.denominator)

    def _op(f, g):
        def op(self, o):
            if isinstance(o, (int, Fraction)) and not isinstance(o, bool):
                o = Q(o)
            if isinstance(o, Q):
                return Q(f(self.v, o.v))
            return g(self, o)
        return op
    __add__ = __radd__ = _op(lambda a, b: a + b, Num.__add__)
    __mul__ = __rmul__ = _op(lambda a, b: a * b, Num.__mul__)
    __sub__ = _op(lambda a, b: a - b, Num.__sub__)
    __rsub__ = _op(lambda a, b: b - a, Num.__rsub__)
    __truediv__ = _op(lambda a, b: a / b, Num.__truediv__)
    __rtruediv__ = _op(lambda a, b: b / a, Num.__rtruediv__)

    def __neg__(self):
        return Q(-self.v)

    def __index__(self):
        if self.v.denominator != 1:
            raise TypeError('not an integer')
        return self.v.numerator
    __int__ = __index__

    def __rmod__(self, o):
        return NotImplemented

    def __rpow__(self, o):
        return NotImplemented

    def __pow__(self, o):
        return NotImplemented if num(o) is NotImplemented else power(self, o)

    def __repr__(self):
        return 'sympy(%s)' % self.v


class Z(Q):
    __slots__ = ()

    def __rmul__(self, o):
        if isinstance(o, list):
            return o * self.v.numerator
        return Q.__rmul__(self, o)


class S(Num):
    """another constant of sympy"""
    __slots__ = ('name',)
    number = False
    visible = ('is_number', 'is_real')
    is_number = is_real = True

    def __init__(self, name, w):
        self.name = name
        Num.__init__(self, const(name), w)

    def __repr__(self):
        return self.name


E = S('E', math.e)
CONSTS = [E, S('pi', math.pi), S('sqrt(2)', math.sqrt(2))]
LOG, ROOT, POW = {}, {}, {}


def asq(x):
    """the exact rational x, or None"""
    if isinstance(x, Q):
        return x.v
    if isinstance(x, int):
        return Fraction(x)
    return None


def power(x, r):
    q = asq(r)
    x = num(x)
    if q is not None and q.denominator == 1:
        n = q.numerator
        for (f, k), y in list(ROOT.items()):
            if y.f == x.f and n % k == 0:
                return power(BASE[f], n // k)
        if n < 0 and x.f == 0:
            return INF
        return Num(pow(x.f, n, PR) if n >= 0 else pow(pow(x.f, PR - 2, PR), -n, PR), x.w ** n)
    if isinstance(r, float) and math.isinf(r):
        return (INF if x.w > 1 else Num(0, 0.0)) if r > 0 else (Num(0, 0.0) if x.w > 1 else INF)
    if q is not None:
        if x.w < 0:
            raise Unsupported('root of a negative number')
        if x.f == 0:
            return x
        if x.f == 1:
            return Num(1, 1.0)
        k = (x.f, q.denominator)
        if k not in ROOT:
            for y in ROOTED.get((x.f, q.denominator), ()):
                return power(y, q.numerator)
            ROOT[k] = Num(const(('root',) + k), x.w ** (1 / q.denominator))
            BASE[x.f] = x
        return power2(ROOT[k], q.numerator)
    r = num(r)
    if r is NotImplemented:
        raise Unsupported('power')
    if x.w <= 0:
        raise Unsupported('power of a negative number')
    if r.f == 0:
        return Num(1, 1.0)
    k = (x.f, r.f)
    if k in UNLOG:
        return UNLOG[k]
    y = Num(const(('pow',) + k), x.w ** r.w)
    POW[(x.f, y.f)] = r
    return y


BASE, UNLOG, ROOTED = {}, {}, {}


def power2(x, n):
    return Num(pow(x.f, n, PR) if n >= 0 else pow(pow(x.f, PR - 2, PR), -n, PR), x.w ** n)


def log(x, b=None):
    b = E if b is None else num(b)
    if isinstance(x, float) and math.isinf(x):
        return x
    x = num(x)
    if x.f == 0:
        return -INF
    if x.w < 0:
        raise Unsupported('logarithm of a negative number')
    if x.f == 1:
        return Num(0, 0.0)
    if (b.f, x.f) in POW:
        return POW[(b.f, x.f)]
    y = Num(const(('log', x.f, b.f)), math.log(x.w) / math.log(b.w))
    UNLOG[(b.f, y.f)] = x
    return y


class SP(Abstract):
    """a polynomial in X of sympy"""
    visible = ('subs', 'atoms', 'free_symbols', 'is_number', 'is_polynomial', 'all_coeffs', 'coeffs', 'degree', 'as_expr')
    is_number = False

    def __init__(self, c):
        self.c = [num(x) for x in c]
        while len(self.c) > 1 and self.c[-1].f == 0:
            self.c.pop()
        self.free_symbols = {self}

    def _lift(self, o):
        if isinstance(o, SP):
            return o
        o = num(o)
        return o if o is NotImplemented else SP([o])

    def __add__(self, o):
        o = self._lift(o)
        if o is NotImplemented:
            return o
        n = max(len(self.c), len(o.c))
        a, b = self.c + [num(0)] * (n - len(self.c)), o.c + [num(0)] * (n - len(o.c))
        return SP([x + y for x, y in zip(a, b)])
    __radd__ = __add__

    def __neg__(self):
        return SP([-x for x in self.c])

    def __sub__(self, o):
        o = self._lift(o)
        return o if o is NotImplemented else self + (-o)

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        o = self._lift(o)
        if o is NotImplemented:
            return o
        out = [num(0)] * (len(self.c) + len(o.c) - 1)
        for i, x in enumerate(self.c):
            for j, y in enumerate(o.c):
                out[i + j] = out[i + j] + x * y
        return SP(out)
    __rmul__ = __mul__

    def __pow__(self, n):
        n = asq(n)
        if n is None or n < 0 or n.denominator != 1:
            raise Unsupported('power of a polynomial')
        out = SP([1])
        for _ in range(int(n)):
            out = out * self
        return out

    def all_coeffs(self):
        return [self.lower(x) for x in self.c[::-1]]

    def lower(self, x):
        if x.i and abs(x.w) < 1e6 and (x.f - round(x.w)) % PR == 0:
            return Q(round(x.w))
        return x

    def degree(self):
        return len(self.c) - 1

    def as_expr(self):
        return self

    def value(self, x):
        x = num(x)
        out = num(0)
        for c in reversed(self.c):
            out = out * x + c
        if abs(out.w) < 1e-9 * max(1, max(abs(c.w) * abs(x.w) ** i for i, c in enumerate(self.c))):
            out = Num(out.f, 0.0 if out.f == 0 else out.w)
        return out

    def fw(self, x):
        out = 0.0
        for c in reversed(self.c):
            out = out * x + c.w
        return out

    def subs(self, *a):
        if len(a) == 1 and isinstance(a[0], dict):
            a = next(iter(a[0].items()))
        if not isinstance(a[0], SP) or len(a[0].c) != 2 or a[0].c[0].f or a[0].c[1].f != 1:
            raise Unsupported('substitution')
        if isinstance(a[1], float) and math.isinf(a[1]) or num(a[1]) is NotImplemented:
            raise Unsupported('substitution of %r' % (a[1],))
        return self.value(a[1])

    def atoms(self, *a):
        return {X}

    def __lt__(self, b):
        return Rel(self, '<', b)

    def __le__(self, b):
        return Rel(self, '<=', b)

    def __gt__(self, b):
        return Rel(self, '>', b)

    def __ge__(self, b):
        return Rel(self, '>=', b)
    __eq__ = object.__eq__
    __hash__ = object.__hash__

    def __repr__(self):
        return 'poly(%s)' % ', '.join(map(repr, self.c))


X = SP([0, 1])


class Rel(Abstract):
    def __init__(self, e, op, b):
        self.e, self.op, self.b = e, op, b


def real_roots(cs):
    """real roots (floats) of a polynomial with simple roots"""
    while len(cs) > 1 and cs[-1] == 0:
        cs = cs[:-1]
    n = len(cs) - 1
    if n < 1:
        return []
    if n == 1:
        return [-cs[0] / cs[1]]

    def f(x):
        out = 0.0
        for c in reversed(cs):
            out = out * x + c
        return out
    crit = real_roots([i * c for i, c in enumerate(cs)][1:])
    R = 1 + max(abs(c / cs[-1]) for c in cs[:-1])
    out = []
    pts = [-R] + sorted(crit) + [R]
    for a, b in zip(pts, pts[1:]):
        fa, fb = f(a), f(b)
        if fa == 0:
            out.append(a)
        elif fa * fb < 0:
            lo, hi = a, b
            for _ in range(200):
                m = (lo + hi) / 2
                if (f(m) < 0) == (fa < 0):
                    lo = m
                else:
                    hi = m
            out.append((lo + hi) / 2)
    return out


class Pieces(SyUnion):
    def __init__(self, *args):
        self.args = tuple(args)


def mid(ps, i):
    if not ps:
        return 0.0
    return ps[0].w - 1 if i == 0 else ps[-1].w + 1 if i == len(ps) else (ps[i - 1].w + ps[i].w) / 2


def build(ps, ok):
    """the sympy set with breakpoints ps and membership ok(x)"""
    places = []
    for i, p in enumerate(ps):
        places += [(None, mid(ps, i)), (p, p)]
    places.append((None, mid(ps, len(ps))))
    flags = [ok(v) for _, v in places]
    out, i = [], 0
    while i < len(places):
        if not flags[i]:
            i += 1
            continue
        j = i
        while j + 1 < len(places) and flags[j + 1]:
            j += 1
        if i == j and places[i][0] is not None:
            out.append(SyFinite(places[i][0]))
        else:
            lo, lopen = (places[i][0], False) if places[i][0] is not None else (places[i - 1][0], True) if i else (-INF, True)
            hi, hopen = (places[j][0], False) if places[j][0] is not None else (places[j + 1][0], True) if j + 1 < len(places) else (INF, True)
            out.append(SyInterval(lo, hi, lopen, hopen))
        i = j + 1
    fin = [p for p in out if isinstance(p, SyFinite)]
    if len(fin) > 1:
        out = [p for p in out if not isinstance(p, SyFinite)] + [SyFinite(*[x for p in fin for x in p.args])]
    return SY_EMPTY if not out else out[0] if len(out) == 1 else Pieces(*out)


def member(s, x):
    """x: Num or float witness that is not an endpoint"""
    if isinstance(s, SyUnion):
        return any(member(a, x) for a in s.args)
    if isinstance(s, SyFinite):
        return isinstance(x, Num) and any(num(a).f == x.f for a in s.args)
    if isinstance(s, SyInterval):
        def lt(a, b):
            aw, bw = (v.w if isinstance(v, Num) else v for v in (a, b))
            return aw < bw
        same = lambda a, b: isinstance(a, Num) and isinstance(b, Num) and a.f == b.f
        if same(s.left, x):
            return not s.left_open
        if same(s.right, x):
            return not s.right_open
        return lt(s.left, x) and lt(x, s.right)
    return False


def ends(s):
    if isinstance(s, SyUnion):
        return [e for a in s.args for e in ends(a)]
    if isinstance(s, SyFinite):
        return [num(a) for a in s.args]
    if isinstance(s, SyInterval):
        return [num(e) for e in (s.left, s.right) if not (isinstance(e, float) and math.isinf(e))]
    return []


class World:
    def __init__(self, P):
        it = self.it = Interp(P, fuel=400000)
        install(it)
        it.free = True
        self.cands = []
        e = it.ext
        e[('os', 'environ')] = {}
        e[('os', 'getenv')] = lambda k, d=None: d
        for n in ('signal', 'alarm', 'setitimer', 'getsignal'):
            e[('signal', n)] = lambda *a: 0
        e[('signal', 'SIGALRM')], e[('signal', 'ITIMER_REAL')] = 14, 0
        e[('sympy.abc', 'X')] = e[('sympy', 'Symbol')] = X
        e[('sympy', 'Symbol')] = lambda *a, **k: X
        it.kinds[id(e[('sympy', 'Symbol')])] = SP
        e[('sympy', 'symbols')] = lambda *a, **k: X
        e[('sympy', 'Rational')], e[('sympy', 'Integer')] = Q, Z
        e[('sympy', 'sympify')] = self.sympify
        e[('sympy', 'Add')] = lambda *a: sum(a[1:], a[0]) if a else 0
        e[('sympy', 'Mul')] = self.mul
        e[('sympy', 'Poly')] = lambda p, *x, **k: p if isinstance(p, SP) else SP([p])
        e[('sympy', 'Pow')] = lambda x, r: x ** r if isinstance(x, SP) else power(x, r) if not (isinstance(x, float) and math.isinf(x)) else self.powinf(x, r)
        e[('sympy', 'log')] = e[('sympy', 'ln')] = log
        e[('sympy', 'sqrt')] = lambda x: power(x, Q(1, 2))
        e[('sympy', 'exp')] = lambda x: E if x == 1 else power(E, x)
        e[('sympy', 'E')] = e[('sympy', 'S', 'Exp1')] = E
        e[('sympy', 'Abs')] = abs
        e[('sympy', 'Reals')] = e[('sympy.S', 'Reals')] = SyInterval(-INF, INF)
        e[('sympy', 'Union')] = Pieces
        e[('sympy', 'SympifyError')] = ValueError
        e[('sympy', 'solveset')] = self.solveset
        e[('sympy', 'nroots')] = lambda p, *a, **k: self.roots(p)
        e[('sympy', 'Intersection')] = self.intersection
        it.kinds[id(self.intersection)] = NoSet
        e[('sympy', 'ConditionSet')] = NoSet
        for m in ('sympy', 'sympy.calculus.util', 'sympy.series'):
            e[(m, 'limit')] = self.limit
        for m in ('sympy.calculus.util', 'sympy.calculus', 'sympy'):
            e[(m, 'function_range')] = self.range
        it.kinds[id(e[('sympy', 'Intersection')])] = NoSet
        for m in ('sets', 'timeout', 'sym_util', 'poly', 'transforms'):
            it.module(m)
        self.g = {**it.module('sets').vars, **it.module('transforms').vars}

    def fn(self, n):
        if n not in self.g or isinstance(self.g[n], Opaque):
            raise Unsupported('no ' + n)
        return self.g[n]

    def sympify(self, x, **k):
        if isinstance(x, (Num, int, float)):
            return x
        if isinstance(x, str):
            if x in TEXT:
                return TEXT[x]
            raise Raised(ValueError('sympify'))
        raise Unsupported('sympify of %r' % (x,))

    def mul(self, *a):
        out = a[0]
        for x in a[1:]:
            out = out * x
        return out

    def powinf(self, x, r):
        q = asq(r)
        if q is None:
            raise Unsupported('power of infinity')
        if q < 0:
            return 0
        return INF if x > 0 or q.numerator % 2 == 0 else -INF

    def roots(self, p):
        ws = real_roots([c.w for c in p.c])
        out = []
        if len(p.c) == 2:
            return [-(p.c[0] / p.c[1])]
        cs = {c.f: c for c in self.cands if p.value(c).f == 0}
        for w in ws:
            c = next((c for c in cs.values() if abs(c.w - w) < 1e-6 * max(1, abs(w))), None)
            if c is None:
                c = Num(const(('a root', tuple(x.f for x in p.c), len(out))), w)
            out.append(c)
        if any(all(o.f != f for o in out) for f in cs):
            raise Unsupported('a double root')
        return out

    def solveset(self, rel, *a, **k):
        if not isinstance(rel, Rel):
            raise Unsupported('solveset')
        e, b = rel.e, num(rel.b)
        ps = sorted(self.roots(e - b), key=lambda x: x.w)
        up = {'<': lambda s: s < 0, '<=': lambda s: s <= 0, '>': lambda s: s > 0, '>=': lambda s: s >= 0}[rel.op]

        def ok(x):
            if isinstance(x, Num):
                return up(0)
            return up(e.fw(x) - b.w)
        return build(ps, ok)

    def intersection(self, *a):
        if any(not isinstance(s, (SyInterval, SyFinite, SyUnion)) and s is not SY_EMPTY for s in a):
            raise Unsupported('intersection')
        ps = {x.f: x for s in a for x in ends(s)}
        return build(sorted(ps.values(), key=lambda x: x.w), lambda x: all(member(s, x) for s in a))

    def limit(self, e, x, v, *a):
        if not isinstance(e, SP) or v not in (INF, -INF):
            raise Unsupported('limit')
        if len(e.c) == 1:
            return e.c[0]
        s = e.c[-1].w > 0
        if v < 0 and len(e.c) % 2 == 0:
            s = not s
        return INF if s else -INF

    def range(self, e, x, dom):
        if not isinstance(e, SP):
            raise Unsupported('range')
        if len(e.c) == 1:
            return SyFinite(e.c[0])
        if len(e.c) % 2 == 0:
            return SyInterval(-INF, INF)
        crit = real_roots([i * c.w for i, c in enumerate(e.c)][1:])
        vals = [e.fw(x) for x in crit]
        w = (min if e.c[-1].w > 0 else max)(vals)
        if len(e.c) == 3:
            c = -(e.c[1] / (e.c[2] * 2))
            m = e.value(c)
        else:
            m = Num(const(('extremum', tuple(c.f for c in e.c))), w)
        return SyInterval(m, INF) if e.c[-1].w > 0 else SyInterval(-INF, m)

    def m(self, o, n, *a, **k):
        return self.it.call(self.it.attr(o, n), a, k)


class NoSet(SySet):
    pass


TEXT = {repr(c): c for c in CONSTS}
for _n in range(-6, 7):
    for _d in (1, 2, 3, 4, 5):
        TEXT[repr(Q(_n, _d))] = Q(_n, _d)


# ---------------------------------------------------------------- expressions
class Undef(Exception):
    """the value is not defined at the point"""


class Outside(Undef):
    """the point is outside of the domain"""


class Node:
    """an expression: how the source built it (obj), its text and its value"""

    def __init__(self, obj, text, f, core=None, poly=None, var='X'):
        self.obj, self.text, self.f, self.var = obj, text, f, var
        self.core = core or self                # the expression it is a polynomial in, and the coefficients
        self.poly = poly or [num(0), num(1)]


def defined(x):
    if isinstance(x, float) and (math.isinf(x) or math.isnan(x)) or isinstance(x, Num) and (math.isinf(x.w) or math.isnan(x.w) or abs(x.w) > 1e9):
        raise Undef()
    return x


def r_log(x, b=E):
    x = num(x)
    if x.f and x.w < 0:
        raise Outside()
    if x.f == 0:
        raise Undef()
    return log(x, b)


def r_root(x, n):
    x = num(x)
    if x.w < 0 and x.f:
        raise Outside()
    return power(x, Q(1, n))


def r_pow(b, x):
    x = num(x)
    if x.w * math.log(b.w) > 20 or x.w * math.log(b.w) < -20:
        raise Undef()
    return power(b, x)


def r_inv(x):
    x = num(x)
    if x.f == 0:
        raise Outside()
    return num(1) / x


class Gen:
    def __init__(self, W, r):
        self.W, self.r = W, r

    def const(self, nonzero=False, positive=False):
        """(source value, Num, text)"""
        r = self.r
        while True:
            k = r.randrange(6)
            if k == 0:
                v = r.choice((1, 2, 3, -1, -2, 5))
            elif k == 1:
                v = r.choice((.5, 2.0, -1.5, .25, 3.0))
            elif k == 2:
                v = Q(r.choice((1, -1, 2, 3, -5)), r.choice((2, 3, 5)))
            elif k == 3:
                v = r.choice(CONSTS)
            else:
                v = Num(r.randrange(1, PR), round(r.uniform(-3, 3), 3))
            if positive and num(v).w <= 0 or abs(num(v).w) < .05:
                continue
            return v, num(v), repr(v) if not isinstance(v, Num) or isinstance(v, (Q, S)) else 'c'

    def base(self, var='X'):
        o = self.W.it.call(self.W.fn('Identity'), (var,), {})
        return Node(o, var, lambda v: v, var=var)

    def op(self, n, f):
        """build with the source; what goes wrong is a finding"""
        try:
            return f()
        except Raised as e:
            if isinstance(e.exc, IMPLICIT) and not e.where:
                raise
            raise Wrong('building %s raises %s(%s)' % (n, type(e.exc).__name__, e.exc))

    def unary(self, t):
        r, W = self.r, self.W
        k = r.choice(('neg', 'abs', 'exp', 'log', 'sqrt', 'pow', 'pow', 'inv', 'invpow', 'root', 'root', 'base', 'tuple', 'invroot'))
        o = t.obj
        mk = lambda n, f, g, **kw: Node(self.op(n, f), n, lambda v: defined(g(t.f(v))), var=t.var, **kw)
        if k == 'neg':
            return mk('-(%s)' % t.text, lambda: -o, lambda x: -num(x), core=t.core, poly=[-c for c in t.poly])
        if k == 'abs':
            return mk('abs(%s)' % t.text, lambda: abs(o), lambda x: abs(num(x)))
        if k == 'exp':
            return mk('Exp(%s)' % t.text, lambda: W.it.call(W.fn('Exp'), (o,), {}), lambda x: r_pow(E, x))
        if k == 'log':
            return mk('Log(%s)' % t.text, lambda: W.it.call(W.fn('Log'), (o,), {}), r_log)
        if k == 'sqrt':
            return mk('Sqrt(%s)' % t.text, lambda: W.it.call(W.fn('Sqrt'), (o,), {}), lambda x: r_root(x, 2))
        if k in ('pow', 'invpow'):
            n = r.choice((1, 2, 2, 3, 4))
            s = 1 if k == 'pow' else -1
            if r.random() < .2:
                e = Q(n * s)
            elif r.random() < .1:
                e = (n * s, 1)
            else:
                e = n * s
            f = lambda x: power2(num(x), n) if s > 0 else r_inv(power2(num(x), n))
            kw = dict(core=t, poly=[num(0)] * n + [num(1)]) if s > 0 else {}
            return mk('(%s)**%r' % (t.text, e), lambda: o ** e, f, **kw)
        if k == 'inv':
            return mk('1/(%s)' % t.text, lambda: 1 / o, r_inv)
        if k in ('root', 'tuple', 'invroot'):
            n = r.choice((2, 3, 4, 5))
            s = -1 if k == 'invroot' else 1
            e = Q(s, n) if k != 'tuple' else (1, n)
            f = (lambda x: r_root(x, n)) if s > 0 else lambda x: r_inv(r_root(x, n))
            return mk('(%s)**%r' % (t.text, e), lambda: o ** e, f)
        b, bn, bt = self.const(positive=True)
        while bn.f == 1:
            b, bn, bt = self.const(positive=True)
        return mk('(%s)**(%s)' % (bt, t.text), lambda: self.rpow(o, b), lambda x: r_pow(bn, x))

    def rpow(self, o, b):
        x = self.W.m(o, '__rpow__', b)
        if x is NotImplemented:
            raise Raised(TypeError('unsupported operand'))
        return x

    def binary(self, t):
        r = self.r
        k = r.choice(('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'rdiv', 'mul', 'add'))
        c, cn, ct = self.const(nonzero=True)
        o = t.obj
        P = t.poly
        mk = lambda n, f, g, poly: Node(self.op(n, f), n, lambda v: defined(g(num(t.f(v)))), var=t.var, **(dict(core=t.core, poly=poly) if poly else {}))
        plus = lambda s: [s * P[0]] + [s * p for p in P[1:]]
        if k == 'add':
            return mk('(%s + %s)' % (t.text, ct), lambda: o + c, lambda x: x + cn, [P[0] + cn] + P[1:])
        if k == 'radd':
            return mk('(%s + %s)' % (ct, t.text), lambda: c + o, lambda x: cn + x, [P[0] + cn] + P[1:])
        if k == 'sub':
            return mk('(%s - %s)' % (t.text, ct), lambda: o - c, lambda x: x - cn, [P[0] - cn] + P[1:])
        if k == 'rsub':
            return mk('(%s - %s)' % (ct, t.text), lambda: c - o, lambda x: cn - x, [cn - P[0]] + [-p for p in P[1:]])
        if k == 'mul':
            return mk('(%s)*%s' % (t.text, ct), lambda: o * c, lambda x: x * cn, [p * cn for p in P])
        if k == 'rmul':
            return mk('%s*(%s)' % (ct, t.text), lambda: c * o, lambda x: cn * x, [p * cn for p in P])
        if k == 'div':
            return mk('(%s)/%s' % (t.text, ct), lambda: o / c, lambda x: x / cn, [p / cn for p in P])
        x = mk('%s/(%s)' % (ct, t.text), lambda: c / o, lambda x: cn * r_inv(x), None)
        if cn.f != 1:
            x.core, x.poly = Node(self.op(x.text, lambda: 1 / o), '1/(%s)' % t.text, lambda v: defined(r_inv(t.f(v))), var=t.var), [num(0), cn]
        return x

    def again(self, t):
        """another polynomial in the core of t"""
        s = t.core
        if s is t and self.r.random() < .3:
            return t
        s = Node(s.obj, s.text, s.f, core=s, var=t.var)
        for _ in range(self.r.choice((1, 1, 2))):
            b = self.binary(s)
            if b.core is s.core:
                s = b
        return s

    def combine(self, t):
        r = self.r
        u = self.again(t)
        k = r.choice(('+', '-', '*'))
        if len(t.poly) + len(u.poly) > 8:
            k = r.choice('+-')
        n = '(%s) %s (%s)' % (t.text, k, u.text)
        zero = num(0)
        size = max(len(t.poly), len(u.poly))
        a, b = t.poly + [zero] * (size - len(t.poly)), u.poly + [zero] * (size - len(u.poly))
        if k == '*':
            poly = SP([1])
            poly = (SP(t.poly) * SP(u.poly)).c
        else:
            poly = [x + y if k == '+' else x - y for x, y in zip(a, b)]
        if all(p.f == 0 for p in poly[1:]):
            return t
        ops = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[k]
        while len(poly) > 1 and poly[-1].f == 0:
            poly = poly[:-1]
        try:
            obj = self.op(n, lambda: ops(t.obj, u.obj))
        except Wrong as e:
            if t.core.core is not t.core and 'ValueError' in str(e):        # a polynomial in a polynomial: may be refused
                raise Undef()
            raise
        return Node(obj, n, lambda v: defined(ops(num(t.f(v)), num(u.f(v)))), core=t.core, poly=poly, var=t.var)

    def expr(self, depth, var='X', base=None):
        t = base or self.base(var)
        for _ in range(depth):
            k = self.r.random()
            t = self.unary(t) if k < .45 else self.binary(t) if k < .8 else self.combine(t)
        return t


def points(r, n=6):
    out = [Num(r.randrange(1, PR), round(r.uniform(-3, 3), 4)) for _ in range(n - 2)]
    return out + [Num(r.randrange(1, PR), round(r.uniform(.2, 2), 4)), num(r.choice((0, 1, -1, 2)))]


def value(t, v):
    try:
        return num(defined(t.f(v)))
    except (Undef, Unsupported, OverflowError, ZeroDivisionError):
        return None


class Bench:
    def __init__(self, P, rule):
        self.rep, self.P, self.und = Report(rule), P, {}
        self.W = World(P)

    def note(self, k):
        self.und[k] = self.und.get(k, 0) + 1

    def guard(self, where, text, f):
        W, rep = self.W, self.rep
        W.it.fuel = 400000
        rep.begin(W.it)
        try:
            bad = f()
        except Unsupported as e:
            return self.note(str(e))
        except Undef:
            return
        except Wrong as e:
            bad = str(e)
        except Raised as e:
            if isinstance(e.exc, (TypeError, AttributeError, NameError, OverflowError)) and not e.where:
                return self.note('%s: %s' % (type(e.exc).__name__, e.exc))
            bad = 'raises %s(%s)' % (type(e.exc).__name__, e.exc)
        except RecursionError:
            bad = 'does not terminate'
        except HOST as e:
            return self.note('host %s: %s' % (type(e).__name__, e))
        rep.took(W.it)
        rep.count(where)
        text = text() if callable(text) else text
        if bad and sum(x.construct == where for x in rep.findings) < 4:
            mod = where.split('.')[0]
            rep.find(where, self.P.modules[mod].path if mod in self.P.modules else mod, '%s: %s' % (text, bad))
        elif not bad and len(rep.samples) < 6 and rep.instances % 53 == 3:
            rep.samples.append({'case': text, 'verdict': 'as defined'})
        return bad

    def done(self, floor):
        self.rep.undecided += ['%d cases: %s' % (v, k) for k, v in sorted(self.und.items(), key=lambda t: -t[1])[:20]]
        self.rep.functions |= {n for n in self.W.it.touched if not n.startswith('<')}
        self.rep.floor = floor
        return self.rep


def clear():
    for t in (LOG, ROOT, POW, BASE, UNLOG, ROOTED):
        t.clear()


def same(a, b):
    a = num(a)
    if a is NotImplemented:
        return False
    return a.f == b.f


def ident(W, v):
    return W.it.call(W.fn('Identity'), (v,), {})


def arith_case(B, k):
    r = random.Random(104729 * k + 11)
    W = B.W
    clear()
    G = Gen(W, r)
    box = ['an expression']

    def f():
        t = G.expr(1 + k % 5)
        box[0] = t.text
        n = 0
        for v in points(r):
            want = value(t, v)
            if want is None:
                continue
            n += 1
            env = {ident(W, 'X'): v}
            if r.random() < .3:
                env[ident(W, 'Y')] = num(2)
            try:
                got = W.m(t.obj, 'evaluate', env)
            except Raised as e:
                if isinstance(e.exc, IMPLICIT) and not e.where:
                    raise
                raise Wrong('its evaluation at X = %r raises %s(%s) although the arithmetic is defined there' % (v, type(e.exc).__name__, e.exc))
            if not same(got, want):
                raise Wrong('at X = %r its value is %r, the arithmetic gives %r' % (v, got, want))
        if not n:
            raise Undef()
        sy = W.m(t.obj, 'get_symbols')
        if [s.attrs.get('token') for s in W.it.listing(sy)] != ['X']:
            raise Wrong('its symbols are %s' % (sy,))
    B.guard('transforms.Transform.arithmetic', lambda: box[0], f)


def reject_case(B, k):
    """expressions the library cannot represent must be refused, not turned into another function"""
    r = random.Random(15485863 * k + 3)
    W = B.W
    clear()
    G = Gen(W, r)
    kind = k % 6
    text = ['']

    def f():
        t = G.expr(r.choice((0, 1, 2)))
        c, cn, ct = G.const()
        val = lambda got, want: None
        if kind == 0:
            u = G.expr(r.choice((0, 1)), var='Y')
            op = r.choice('+-*')
            text[0] = '(%s) %s (%s)' % (t.text, op, u.text)
            g = {'+': lambda: t.obj + u.obj, '-': lambda: t.obj - u.obj, '*': lambda: t.obj * u.obj}[op]
            ref = None
        elif kind == 1:
            u = G.expr(r.choice((1, 2)))
            op = r.choice('+-*')
            text[0] = '(%s) %s (%s)' % (t.text, op, u.text)
            g = {'+': lambda: t.obj + u.obj, '-': lambda: t.obj - u.obj, '*': lambda: t.obj * u.obj}[op]
            ref = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op]
            ref = (lambda h: lambda v: h(num(t.f(v)), num(u.f(v))))(ref)
        elif kind == 2:
            e = r.choice((0, Q(2, 3), Q(3, 2), Q(-2, 3), .5, 2.5, CONSTS[0], (2, 3), (5, 2)))
            text[0] = '(%s) ** %r' % (t.text, e)
            g = lambda: t.obj ** e
            q = Fraction(*e) if isinstance(e, tuple) else e.v if isinstance(e, Q) else Fraction(e) if isinstance(e, (int, float)) else None

            def ref(v):
                x = num(t.f(v))
                if q == 0:
                    return num(1)
                if q is None:
                    return r_pow(x, E) if x.w > 0 else None
                if x.w < 0:
                    return None
                return power2(r_root(x, q.denominator), q.numerator)
        elif kind == 3:
            b = r.choice((0, -1, -2.5, Q(-1, 2), -CONSTS[1]))
            text[0] = '(%r) ** (%s)' % (b, t.text)
            g = lambda: G.rpow(t.obj, b)
            ref = None
        elif kind == 4:
            u = G.expr(r.choice((0, 1)))
            text[0] = '(%s) / (%s)' % (t.text, u.text)
            g = lambda: t.obj / u.obj
            ref = lambda v: num(t.f(v)) * r_inv(u.f(v))
        else:
            s = r.choice(('a', None, [1], (), {1: 2}))
            op = r.choice(('+', '*', '-', '/', '**', 'r+', 'r*', 'r-', 'r/', 'r**'))
            if op == '**' and s == ():
                s = None
            m = {'+': '__add__', '*': '__mul__', '/': '__truediv__', '**': '__pow__', 'r+': '__radd__', 'r*': '__rmul__', 'r/': '__rtruediv__', 'r**': '__rpow__', 'r-': '__rsub__'}
            if r.random() < .2 and op == '+':
                x = G.base()
                t = Node(W.it.call(W.fn('Piecewise'), ([x.obj], [x.obj < G.const()[0]]), {}), 'piecewise', t.f)
            text[0] = '(%s) %s %r' % (t.text, op, s) if op[0] != 'r' else '%r %s (%s)' % (s, op[1:], t.text)

            def g():
                x = W.m(t.obj, m[op], s) if op != '-' else t.obj - s
                if x is NotImplemented:
                    raise Raised(TypeError('unsupported operand'))
                return x
            ref = None
        try:
            o = g()
        except Raised as e:
            if isinstance(e.exc, (ValueError, TypeError, NotImplementedError)):
                return
            if isinstance(e.exc, AssertionError):
                return
            raise Wrong('raises %s instead of refusing the expression' % type(e.exc).__name__)
        except TypeError:
            return
        if ref is None:
            raise Wrong('is accepted, as %s' % (o.cls.name if isinstance(o, Obj) else o))
        for v in points(r, 4):
            try:
                want = ref(v)
                if want is None:
                    continue
                want = num(defined(want))
            except (Undef, OverflowError):
                continue
            got = W.m(o, 'evaluate', {ident(W, 'X'): v})
            if not same(got, want):
                raise Wrong('at X = %r its value is %r, the arithmetic gives %r' % (v, got, want))
    B.guard('transforms.Transform.refusal', lambda: text[0], f)


# ---------------------------------------------------------------- events over expressions
def rand_event(G, t, pts):
    """(object, text, predicate on the value of the variable) for one comparison of t"""
    r, W = G.r, G.W
    if r.random() < .5:
        vs = [x for x in (value(t, v) for v in pts) if x is not None]
        c = r.choice(vs) if vs and r.random() < .7 else G.const()[0]
    else:
        c = G.const()[0]
    cn = num(c)
    op = r.choice(('<', '<=', '>', '>=', 'in', 'set', 'between'))
    o = t.obj
    tx = repr(c)
    if op in ('<', '<=', '>', '>='):
        h = {'<': lambda: o < c, '<=': lambda: o <= c, '>': lambda: o > c, '>=': lambda: o >= c}[op]
        p = {'<': lambda x: x < cn, '<=': lambda x: x <= cn, '>': lambda x: x > cn, '>=': lambda x: x >= cn}[op]
        return h(), '((%s) %s %s)' % (t.text, op, tx), p
    if op == 'in':
        d = G.const()[0]
        return W.m(o, '__lshift__', {c, d}), '((%s) << {%s, %r})' % (t.text, tx, d), lambda x: x == cn or x == num(d)
    lo, ro = r.choice((True, False)), r.choice((True, False))
    d = cn + num(r.choice((.7, 1.3)))
    s = W.it.call(W.fn('Interval'), (c, d), {'left_open': lo, 'right_open': ro})
    return W.m(o, '__lshift__', s), '((%s) << %s%s, %r%s)' % (t.text, '(' if lo else '[', tx, d, ')' if ro else ']'), \
        lambda x: (cn < x or cn == x and not lo) and (x < d or x == d and not ro)


def subs_case(B, k):
    r = random.Random(32452843 * k + 7)
    W = B.W
    clear()
    G = Gen(W, r)
    text = ['']

    def f():
        t = G.expr(r.choice((0, 1, 2, 3)), var='X')
        g = G.expr(r.choice((0, 1, 2)), var='Y')
        h = G.expr(r.choice((0, 1, 1)), var='Z')
        chain = k % 3
        pts = points(r)
        ev = k % 2
        env = {ident(W, 'X'): g.obj}
        inner = g.f
        var = 'Y'
        if chain == 1:
            env[ident(W, 'Y')] = h.obj
            inner = lambda v: g.f(defined(h.f(v)))
            var = 'Z'
        if r.random() < .3:
            env[ident(W, 'V')] = ident(W, 'U')
        how = 'substitute'
        if k % 11 == 3:         # nothing that occurs is substituted
            env = {} if r.random() < .3 else {ident(W, 'V'): r.choice((ident(W, 'U'), h.obj))}
            inner, var, chain = (lambda v: v), 'X', r.choice((0, 2))
        elif k % 11 == 7 and chain != 1:        # the variable by itself
            env[ident(W, 'X')] = ident(W, 'X')
            inner, var, chain = (lambda v: v), 'X', 2
        tab = ', '.join(['X: %s' % g.text] + (['Y: %s' % h.text] if chain == 1 else [])) if var != 'X' else '%d irrelevant or identical replacements' % len(env)
        if ev:
            vals = []
            for v in pts:
                try:
                    vals.append(num(defined(inner(v))))
                except (Undef, Unsupported, OverflowError, ZeroDivisionError):
                    pass
            o, tx, p = rand_event(G, t, vals or pts)
            if r.random() < .5:
                o2, tx2, p2 = rand_event(G, G.base('W'), pts)
                both = r.random() < .5
                o, tx = (o & o2, tx + ' & ' + tx2) if both else (o | o2, tx + ' | ' + tx2)
                join = (lambda a, b: a and b) if both else (lambda a, b: a or b)
            else:
                p2 = None
        else:
            o, tx = t.obj, t.text
        text[0] = '%s with {%s}' % (tx, tab)
        if chain == 2:
            how = 'subs'
        try:
            s = W.m(o, how, env)
        except Raised as e:
            if isinstance(e.exc, IMPLICIT) and not e.where:
                raise
            raise Wrong('%s raises %s(%s)' % (how, type(e.exc).__name__, e.exc))
        n = 0
        for v in pts:
            try:
                x = num(defined(t.f(num(defined(inner(v))))))
            except (Undef, Unsupported, OverflowError, ZeroDivisionError):
                continue
            a = {ident(W, var): v}
            if ev:
                want = p(x)
                if p2:
                    w = r.choice(pts)
                    a[ident(W, 'W')] = w
                    want = join(want, p2(w))
                got = W.it.truth(W.m(s, 'evaluate', a))
                ok = got == want
            else:
                want = x
                got = W.m(s, 'evaluate', a)
                ok = same(got, want)
            n += 1
            if not ok:
                raise Wrong('after substitution it is %r at %s = %r, should be %r' % (got, var, v, want))
        if not n:
            raise Undef()
        sy = sorted(x.attrs.get('token') for x in W.it.listing(W.m(s, 'get_symbols')))
        if sy != sorted({var} | ({'W'} if ev and p2 else set())):
            raise Wrong('after substitution its symbols are %s' % sy)
    B.guard('transforms.Transform.substitute', lambda: text[0], f)


def invert_case(B, k):
    r = random.Random(86028121 * k + 5)
    W = B.W
    clear()
    W.cands = []
    G = Gen(W, r)
    text = ['']

    def f():
        chain = []
        t = G.base()
        for _ in range(1 + k % 4):
            q = r.random()
            t = G.unary(t) if q < .55 else G.binary(t) if q < .85 else G.combine(t)
            chain.append(t)
        pts = points(r, 8)
        vals = {}
        for v in pts:
            x = value(t, v)
            if x is not None:
                vals[v] = x
            W.cands.append(v)
            for s in chain + [c.core for c in chain]:
                y = value(s, v)
                if y is not None:
                    W.cands.append(y)
        if not vals:
            raise Undef()
        ys = sorted({x.f: x for x in vals.values()}.values(), key=lambda x: x.w)
        a = r.choice(ys)
        b = r.choice([y for y in ys if y.w > a.w] or [a + num(1)])
        kind = r.choice(('interval', 'interval', 'ray', 'points', 'union'))
        lo, ro = r.choice((True, False)), r.choice((True, False))
        I = lambda *x, **kw: W.it.call(W.fn('Interval'), x, kw)
        if kind == 'interval':
            s, p = I(a, b, left_open=lo, right_open=ro), lambda x: (a < x or a == x and not lo) and (x < b or x == b and not ro)
            nm = '%s%r, %r%s' % ('([' [not lo], a, b, '])'[ro])
        elif kind == 'ray':
            up = r.random() < .5
            s = I(a, INF, left_open=lo) if up else I(-INF, a, right_open=lo)
            p = (lambda x: a < x or a == x and not lo) if up else (lambda x: x < a or a == x and not lo)
            nm = ('%s%r, oo)' % ('([' [not lo], a)) if up else ('(-oo, %r%s' % (a, '])'[lo]))
        elif kind == 'points':
            s, p = W.it.call(W.fn('FiniteReal'), (a, b), {}), lambda x: x == a or x == b
            nm = '{%r, %r}' % (a, b)
        else:
            c = r.choice([y for y in ys if y.w > b.w] or [b + num(1)])
            s = I(-INF, a, right_open=lo) | I(b, c, left_open=True, right_open=ro)
            p = lambda x: x < a or x == a and not lo or b < x and (x < c or x == c and not ro)
            nm = '(-oo, %r%s or (%r, %r%s' % (a, '])'[lo], b, c, '])'[ro])
        text[0] = 'preimage of %s under %s' % (nm, t.text)
        try:
            inv = W.m(t.obj, 'invert', s)
        except Raised as e:
            if isinstance(e.exc, IMPLICIT) and not e.where:
                raise
            raise Wrong('raises %s(%s)' % (type(e.exc).__name__, e.exc))
        for v in pts:
            if v in vals:
                want = p(vals[v])
            else:
                try:
                    t.f(v)
                    continue
                except Outside:
                    want = False
                except (Undef, Unsupported, OverflowError, ZeroDivisionError):
                    continue
            got = W.it.truth(W.it.contains(v, inv))
            if got != want:
                raise Wrong('%s X = %r, where the value is %s' % ('lacks' if want else 'contains', v, vals[v] if v in vals else 'undefined'))
    B.guard('transforms.Transform.invert', lambda: text[0], f)


def piece_case(B, k):
    r = random.Random(49979687 * k + 13)
    W = B.W
    clear()
    W.cands = []
    G = Gen(W, r)
    text = ['']

    def f():
        x = G.base()
        cuts = sorted([Num(r.randrange(1, PR), round(r.uniform(-2, 2), 3)) for _ in range(r.choice((1, 1, 2)))], key=lambda c: c.w)
        opens = [r.random() < .5 for _ in cuts]
        ts = [G.expr(r.choice((0, 1, 1, 2))) for _ in range(len(cuts) + 1)]
        evs, preds = [], []
        for i in range(len(cuts) + 1):
            lo = cuts[i - 1] if i else None
            hi = cuts[i] if i < len(cuts) else None
            e = None
            if lo is not None:
                e = x.obj > lo if not opens[i - 1] else x.obj >= lo
            if hi is not None:
                h = x.obj < hi if opens[i] else x.obj <= hi
                e = h if e is None else e & h
            evs.append(e)

            def p(v, i=i, lo=lo, hi=hi):
                return (lo is None or lo < v or v == lo and opens[i - 1]) and (hi is None or v < hi or v == hi and not opens[i])
            preds.append(p)
        overlap = r.random() < .15
        if overlap:
            j = r.randrange(len(cuts))
            evs[j] = x.obj <= cuts[j] + num(1)
        order = list(range(len(evs)))
        r.shuffle(order)
        text[0] = ' + '.join('(%s)*[piece %d]' % (ts[i].text, i) for i in order)
        o = None
        try:
            for i in order:
                q = ts[i].obj * evs[i] if r.random() < .5 else evs[i] * ts[i].obj
                o = q if o is None else o + q
        except Raised as e:
            if isinstance(e.exc, IMPLICIT) and not e.where:
                raise
            if overlap and isinstance(e.exc, ValueError):
                return
            raise Wrong('raises %s(%s)' % (type(e.exc).__name__, e.exc))
        if overlap:
            raise Wrong('is accepted although its pieces overlap')
        sub = r.random() < .4
        if sub:
            g = G.base('Y')
            for _ in range(r.choice((0, 1))):
                g = G.binary(g) if r.random() < .8 else G.unary(g)
            text[0] += ' with {X: %s}' % g.text
        pts = points(r) + cuts
        if sub:
            W.cands += pts
            for v in pts:
                y = value(g, v)
                if y is not None:
                    W.cands.append(y)
            o = W.m(o, 'substitute', {ident(W, 'X'): g.obj})
        n = 0
        for v in pts:
            y = value(g, v) if sub else v
            if y is None:
                continue
            i = next(i for i, p in enumerate(preds) if p(y))
            want = value(ts[i], y)
            if want is None:
                continue
            n += 1
            got = W.m(o, 'evaluate', {ident(W, 'Y' if sub else 'X'): v})
            if not same(got, want):
                raise Wrong('at %r its value is %r, the piece gives %r' % (v, got, want))
        if not n:
            raise Undef()
    B.guard('transforms.Piecewise', lambda: text[0], f)


def runner(rule, cases, quick, thorough, floor):
    def run(P, prop, tier):
        n = quick if tier == 'quick' else thorough

        def part(i):
            try:
                B = Bench(P, rule)
            except (Unsupported, Raised) + HOST as e:
                rep = Report(rule)
                rep.missing.append(repr(e))
                rep.floor = floor
                return rep
            for k in range(i, n, 8):
                for c in cases:
                    c(B, k)
            return B.done(floor)
        reps = fork_map(part, 8)
        for r in reps[1:]:
            reps[0].merge(r)
        return reps[0]
    return run


run_arith = runner('arithmetic', (arith_case, reject_case, piece_case), 1200, 20000, 1500)
run_subs = runner('substitution', (subs_case, piece_case), 1500, 25000, 1000)
run_invert = runner('preimages of compositions', (invert_case,), 1600, 25000, 600)
