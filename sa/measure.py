"""Queries over formal measures.

The source is interpreted over abstract models: variables range over order types (endpoints known only by their order), the mass that a
leaf gives to each cell of the order type is an indeterminate, and log-probabilities are elements of the field of rational functions in
those indeterminates (kept as their value at a random point of a prime field, together with a witness valuation that fixes their order).
logsumexp, log, exp, ... act as the operations they denote on that field.  The answer of every query is compared, as a rational function,
with the answer of the defining sums over cells.  Control flow depends on the order type and on which masses vanish only, so every case
decides all distributions, parameters and endpoints of its shape.
"""
import collections
import functools
import itertools
import math
import operator
import os
import random
import re
import types
import warnings

from .heap import changes, record
from .absint import HOST, INF, Abstract, Interp, Obj, Raised, Sym, Tok, Unsupported, rank_of
from .report import Report
from .setalg import IDX, NR, POS, all_nominals, fold, interval, nominal, rand_set, real

PR = (1 << 61) - 1
MID = NR - 1                      # Tok.mirror: rank r is mirrored to MID - r; zero has rank MID/2


class Val(Abstract):
    """a formal probability: fingerprint in a prime field, witness value"""
    __slots__ = ('f', 'w')
    visible = ('numerator', 'denominator')
    number = True

    def __init__(self, f, w):
        self.f, self.w = f % PR, w

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return ONE

    def isinf(self):
        return False

    def __add__(self, o):
        o = val(o)
        return o if o is NotImplemented else Val(self.f + o.f, self.w + o.w)
    __radd__ = __add__

    def __sub__(self, o):
        o = val(o)
        return o if o is NotImplemented else Val(self.f - o.f, self.w - o.w)

    def __rsub__(self, o):
        o = val(o)
        return o if o is NotImplemented else o - self

    def __mul__(self, o):
        o = val(o)
        return o if o is NotImplemented else Val(self.f * o.f, self.w * o.w)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = val(o)
        if o is NotImplemented:
            return o
        if not o.f:
            raise ZeroDivisionError('division by zero')
        return Val(self.f * pow(o.f, PR - 2, PR), self.w / o.w)

    def __rtruediv__(self, o):
        o = val(o)
        return o if o is NotImplemented else o / self

    def __neg__(self):
        return Val(-self.f, -self.w)

    def __abs__(self):
        return self if self.w >= 0 else -self

    def __eq__(self, o):
        if isinstance(o, (str, tuple, list, dict, frozenset, set)) or o is None:
            return False
        if isinstance(o, float) and math.isinf(o):
            return False
        o = val(o)
        if o is NotImplemented:
            raise Unsupported('comparison of a probability')
        return self.f == o.f

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.f)

    def _cmp(self, o):
        if isinstance(o, float) and math.isinf(o):
            return -1 if o > 0 else 1
        o = val(o)
        if o is NotImplemented:
            raise Unsupported('comparison of a probability')
        if self.f == o.f:
            return 0
        d = self.w - o.w
        if abs(d) < 1e-9 * max(abs(self.w), abs(o.w), 1e-12):
            raise Unsupported('order of close probabilities')
        return -1 if d < 0 else 1

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __bool__(self):
        return self.f != 0

    def __repr__(self):
        return 'p%.4g' % self.w


def const(c):
    h = hash(('const', c)) * 2654435761 % PR
    return h or 1


def val(x):
    if isinstance(x, (LogP, Lin)):
        return NotImplemented
    if isinstance(x, Val):
        return x
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return NotImplemented
    if isinstance(x, int):
        return Val(x, float(x))
    if math.isinf(x) or math.isnan(x):
        return NotImplemented
    n, d = x.as_integer_ratio()
    return Val(n * pow(d, PR - 2, PR), x)


ZERO, ONE = Val(0, 0.), Val(1, 1.)


class LogP(Abstract):
    """the logarithm of a formal probability"""
    __slots__ = ('v',)
    number = True

    def __init__(self, v):
        self.v = v

    def isinf(self):
        return self.v.f == 0

    def __add__(self, o):
        o = logp(o)
        return o if o is NotImplemented else LogP(self.v * o.v)
    __radd__ = __add__

    def __sub__(self, o):
        o = logp(o)
        if o is NotImplemented:
            return o
        if not o.v.f:
            if self.v.f:
                return INF
            raise Unsupported('difference of minus infinities')
        return LogP(self.v / o.v)

    def __rsub__(self, o):
        o = logp(o)
        return o if o is NotImplemented else o - self

    def __neg__(self):
        if not self.v.f:
            return INF
        return LogP(ONE / self.v)

    def __mul__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o < 5:
            return LogP(Val(pow(self.v.f, o, PR), self.v.w ** o))
        o = val(o)
        if o is NotImplemented:
            raise Unsupported('product of a log-probability')
        if not self.v.f:
            raise Unsupported('product with minus infinity')
        return Lin(o.w * math.log(self.v.w))
    __rmul__ = __truediv__ = __rtruediv__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (str, tuple, list, dict, frozenset, set)) or o is None:
            return False
        o = logp(o)
        if o is NotImplemented:
            return False
        return self.v == o.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('log', self.v.f))

    def _cmp(self, o):
        if isinstance(o, float) and o == INF:
            return -1
        o = logp(o)
        if o is NotImplemented:
            raise Unsupported('comparison of a log-probability')
        return self.v._cmp(o.v)
    __lt__, __le__, __gt__, __ge__ = Val.__lt__, Val.__le__, Val.__gt__, Val.__ge__

    def __bool__(self):
        return self.v != ONE

    def __repr__(self):
        return 'log %r' % (self.v,)


class Lin(Abstract):
    """a sum of products of probabilities and log-probabilities, known by its witness value"""
    __slots__ = ('w',)
    number = True

    def __init__(self, w):
        self.w = w

    def _op(f):
        def g(self, o):
            if isinstance(o, LogP):
                o = Lin(math.log(o.v.w)) if o.v.f else NotImplemented
            elif not isinstance(o, Lin):
                o = val(o)
            return o if o is NotImplemented else Lin(f(self.w, o.w))
        return g
    __add__, __radd__ = _op(lambda a, b: a + b), _op(lambda a, b: b + a)
    __sub__, __rsub__ = _op(lambda a, b: a - b), _op(lambda a, b: b - a)
    __mul__, __rmul__ = _op(lambda a, b: a * b), _op(lambda a, b: b * a)
    __truediv__ = _op(lambda a, b: a / b)
    __neg__ = lambda self: Lin(-self.w)

    def isinf(self):
        return False

    def __eq__(self, o):
        raise Unsupported('comparison of a sum of logarithms')
    __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __bool__ = __eq__
    __hash__ = None


def logp(x):
    if isinstance(x, LogP):
        return x
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        return NotImplemented
    if x == 0:
        return LogP(ONE)
    if x == -INF:
        return LogP(ZERO)
    if math.isinf(x) or math.isnan(x):
        return NotImplemented
    return LogP(Val(const(x), math.exp(x)))


class Vec(Abstract, list):
    """an array"""
    visible = ('tolist', 'sum', 'copy', 'shape', 'size')

    def isinf(self):
        raise Unsupported('isinf of array')

    def tolist(self):
        return list(self)

    def sum(self):
        return sum(list(self))

    def _el(op, swap=False):
        def f(self, o):
            xs = o if isinstance(o, list) else [o] * len(self)
            return Vec([op(b, a) if swap else op(a, b) for a, b in zip(self, xs)])
        return f
    __add__, __radd__ = _el(lambda a, b: a + b), _el(lambda a, b: a + b, True)
    __sub__, __rsub__ = _el(lambda a, b: a - b), _el(lambda a, b: a - b, True)
    __mul__, __rmul__ = _el(lambda a, b: a * b), _el(lambda a, b: a * b, True)
    __truediv__, __rtruediv__ = _el(lambda a, b: a / b), _el(lambda a, b: a / b, True)
    __neg__ = lambda self: Vec([-a for a in self])


class Fake(Abstract):
    """a host object of which only the listed attributes are known"""

    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.visible = tuple(kw)

    def isinf(self):
        raise Raised(TypeError('must be real number'))

    def __repr__(self):
        return 'law'


def elementwise(f):
    return lambda x, *a, **k: Vec([f(v) for v in x]) if isinstance(x, (list, tuple)) else f(x)


def f_exp(x):
    if isinstance(x, (int, float)):
        return ONE if x == 0 else ZERO if x == -INF else logp(x).v
    if isinstance(x, LogP):
        return x.v
    raise Unsupported('exp')


def f_log(strict):
    def f(x):
        x = val(x)
        if x is NotImplemented:
            raise Unsupported('log')
        if strict and (x.f == 0 or x.w < 0):
            raise ValueError('math domain error')
        return LogP(x)
    return f


def install(it):
    """library functions on the formal domain"""
    it.free = True
    L = it.listing

    def logsumexp(xs, *a, **k):
        if a or k:
            raise Unsupported('logsumexp with weights')
        xs = list(L(xs)) if not isinstance(xs, (LogP, int, float)) else [xs]
        if not xs:
            raise ValueError('zero-size array to reduction operation')
        xs = [logp(x) for x in xs]
        if any(x is NotImplemented for x in xs):
            raise Unsupported('logsumexp')
        return LogP(sum((x.v for x in xs), ZERO))

    def allclose(a, b, *r, **k):
        xs = list(a) if isinstance(a, (list, tuple)) else [a]
        ys = list(b) if isinstance(b, (list, tuple)) else [b] * len(xs)
        for x, y in zip(xs, ys):
            if isinstance(x, LogP) or isinstance(y, LogP):
                x, y = logp(x), logp(y)
            else:
                x, y = val(x), val(y)
            if x is NotImplemented or y is NotImplemented:
                raise Unsupported('allclose')
            if x != y:
                return False
        return True

    def fraction(n, *d):
        if d:
            return val(n) / val(d[0])
        return val(n)

    def floor(x):
        if isinstance(x, (int, float)):
            return math.floor(x)
        raise Unsupported('floor of an abstract number')
    def sympify(x, *a, **k):
        if isinstance(x, str) and not any(c.isdigit() for c in x):
            return Fake(is_number=False)
        if isinstance(x, (Tok, int, float)):
            return x
        raise Unsupported('sympify')
    e = it.ext
    e[('sympy', 'sympify')] = sympify
    e[('sympy', 'SympifyError')] = ValueError
    e[('scipy.special', 'logsumexp')] = logsumexp
    e[('scipy', 'special')] = Fake(logsumexp=logsumexp)
    for m in ('math', 'numpy'):
        el = elementwise if m == 'numpy' else (lambda f: f)
        e[(m, 'exp')] = el(f_exp)
        e[(m, 'log')] = el(f_log(m == 'math'))
        e[(m, 'expm1')] = el(lambda x: f_exp(x) - 1)
        e[(m, 'log1p')] = el(lambda x: f_log(m == 'math')(1 + x))
        e[(m, 'floor')] = floor
        e[(m, 'fsum')] = e[(m, 'sum')] = lambda x: sum(list(L(x)))
    e[('numpy', 'allclose')] = e[('numpy', 'isclose')] = e[('math', 'isclose')] = allclose
    e[('numpy', 'asarray')] = e[('numpy', 'array')] = lambda x, *a, **k: Vec(L(x))
    e[('numpy', 'logaddexp')] = lambda a, b: logsumexp([a, b])
    e[('fractions', 'Fraction')] = fraction
    e[('collections', 'ChainMap')] = lambda *m: {k: v for d in reversed(m) for k, v in d.items()}
    e[('collections', 'Counter')] = lambda xs: {x: list(L(xs)).count(x) for x in L(xs)}
    e[('collections', 'defaultdict')] = lambda f, *a: collections.defaultdict(lambda: it.call(f, (), {}), *a)


# ---------------------------------------------------------------- abstract models and their meaning
REAL, DISC, NOM = 'real', 'integer', 'nominal'


def cells(kind):
    if kind == REAL:
        return [p for p in POS if p not in (INF, -INF)]
    if kind == DISC:
        return list(range(NR))
    return ['a', 'b', 'c']


class Leaf:
    """var, kind, masses {position or string: Val} summing to one; derived variables [(name, function text)]"""

    base = None         # (masses, densities) of the law, if the leaf is a truncation of it

    def __init__(self, var, kind, mass, form, support=None, dens=None, derived=()):
        self.var, self.kind, self.mass, self.form, self.support, self.dens, self.derived = var, kind, mass, form, support, dens or {}, list(derived)

    def truncate(self, s):
        """the law restricted to a set of positive mass"""
        inside = lambda k: s.bits >> IDX[k] & 1
        z = sum((p for k, p in self.mass.items() if inside(k)), ZERO)
        l = Leaf(self.var, self.kind, {k: p / z for k, p in self.mass.items() if inside(k)}, self.form, s, {k: d / z for k, d in self.dens.items() if inside(k)}, self.derived)
        l.base = (self.mass, self.dens)
        return l

    def comps(self):
        return [(ONE, {self.var: self})]

    def vars(self):
        return {self.var: None, **{z: (self.var, f) for z, f in self.derived}}

    def text(self):
        d = ''.join('; %s = %s(%s)' % (z, f, self.var) for z, f in self.derived)
        if self.form == 'atomic':
            return 'atom %s = x%s%s' % (self.var, next(iter(self.mass)), d)
        return '%s%s %s%s%s' % ('truncated ' if self.base else '', self.form, self.var, ' on ' + self.support.text() if self.support is not None and self.kind != NOM else '', d)


class Sum:
    style = None        # 'operators': written w1 * a | w2 * b

    def __init__(self, parts):
        self.parts = parts

    def comps(self):
        return [(w * w2, c) for w, m in self.parts for w2, c in m.comps()]

    def vars(self):
        return self.parts[0][1].vars()

    def text(self):
        return '%smixture(%s)' % ('written ' if self.style else '', ', '.join(m.text() for w, m in self.parts))


class Prod:
    style = None        # 'operators': written a & b

    def __init__(self, parts):
        self.parts = parts

    def comps(self):
        out = [(ONE, {})]
        for m in self.parts:
            out = [(w * w2, {**c, **c2}) for w, c in out for w2, c2 in m.comps()]
        return out

    def vars(self):
        return {k: v for m in self.parts for k, v in m.vars().items()}

    def text(self):
        return '%sproduct(%s)' % ('written ' if self.style else '', ', '.join(m.text() for m in self.parts))


class Exposed:
    """mixture whose choice is a variable of the model"""

    def __init__(self, var, weights, parts):
        self.var, self.weights, self.parts = var, weights, parts

    def comps(self):
        return [(self.weights[n] * w, {**c, self.var: Leaf(self.var, NOM, {n: ONE}, 'nominal')}) for n, m in self.parts.items() for w, c in m.comps()]

    def vars(self):
        return {**next(iter(self.parts.values())).vars(), self.var: None}

    def text(self):
        return 'mixture exposing %s (%s)' % (self.var, ', '.join('%s: %s' % (n, m.text()) for n, m in self.parts.items()))


FUN = {'abs': lambda p: max(p, MID - p), 'id': lambda p: p, 'neg': lambda p: MID - p}


def holds(E, point, vs):
    """truth of an event specification at a point {base variable: cell}"""
    t = E[0]
    if t == 'lit':
        v = E[1]
        x = point[v] if vs[v] is None else FUN[vs[v][1]](point[vs[v][0]])
        s = E[2]
        return x in s.strs if isinstance(x, str) else bool(s.bits >> IDX[x] & 1)
    if t == 'and':
        return all(holds(e, point, vs) for e in E[1:])
    if t == 'or':
        return any(holds(e, point, vs) for e in E[1:])
    return not holds(E[1], point, vs)


def base_vars(E, vs):
    if E[0] == 'lit':
        return {E[1] if vs[E[1]] is None else vs[E[1]][0]}
    return set().union(*[base_vars(e, vs) for e in E[1:]])


def measure(comps, E, vs, fixed=None):
    """probability of E; variables in fixed have the given values"""
    bv = sorted(base_vars(E, vs))
    tot = ZERO
    truth = {}
    for w, c in comps:
        free = [v for v in bv if not fixed or v not in fixed]
        for pt in itertools.product(*[c[v].mass.items() for v in free]):
            point = dict(fixed or {})
            m = w
            for v, (x, p) in zip(free, pt):
                point[v] = x
                m = m * p
            k = tuple(point[v] for v in bv)
            if k not in truth:
                truth[k] = holds(E, point, vs)
            if truth[k]:
                tot = tot + m
    return tot


def etext(E):
    if E[0] == 'lit':
        return '%s in %s' % (E[1], E[2].text())
    if E[0] == 'not':
        return '~(%s)' % etext(E[1])
    return '(%s)' % ((' & ' if E[0] == 'and' else ' | ').join(etext(e) for e in E[1:]))


# ---------------------------------------------------------------- generators
class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.p = random.Random(seed + 1)

    def mass(self):
        return Val(self.p.randrange(1, PR), self.p.uniform(.05, 1))

    def simplex(self, keys, zero=.15):
        r = self.r
        keys = list(keys)
        m = {k: self.mass() for k in keys}
        for k in keys:
            if len([x for x in m.values() if x.f]) > 1 and r.random() < zero:
                m[k] = ZERO
        nz = [k for k in keys if m[k].f]
        s = sum((m[k] for k in nz), ZERO)
        m = {k: v / s for k, v in m.items()}
        last = nz[-1]
        m[last] = ONE - sum((m[k] for k in nz[:-1]), ZERO)
        return m

    def leaf(self, var, kind, derived=True):
        r = self.r
        d = []
        if kind == REAL and derived and r.random() < .35:
            d = [(var + "'", r.choice(['abs', 'id', 'abs']))]
        if kind == NOM:
            return Leaf(var, NOM, self.simplex('abc'[:r.choice((2, 3, 3))]), 'nominal')
        if r.random() < .25:
            return Leaf(var, kind, {r.randrange(NR): ONE}, 'atomic', derived=d)
        a, b = sorted(r.sample(range(NR), 2))
        a, b = (-INF if r.random() < .4 else a), (INF if r.random() < .4 else b)
        if kind == DISC:
            sup = interval(a, b, None, None)
            ks = [k for k in range(NR) if sup.bits >> IDX[k] & 1]
            m = self.simplex(ks)
            return self.cut(Leaf(var, DISC, m, 'integer leaf', sup, derived=d))
        sup = interval(a, b, r.choice((None, None, True)), r.choice((None, None, True)))
        ks = [p for p in POS if p not in (INF, -INF) and p % 1 and sup.bits >> IDX[p] & 1]
        return self.cut(Leaf(var, REAL, self.simplex(ks), 'continuous leaf', sup, {p: self.mass() for p in cells(REAL)}, derived=d))

    trunc = .2          # probability of a truncated leaf

    def cut(self, l):
        r = self.p
        if r.random() >= self.trunc:
            return l
        a, b, lo, ro = l.support.args
        for _ in range(6):
            u, v = sorted(r.sample(range(NR), 2))
            u, v = (-INF if r.random() < .3 else u), (INF if r.random() < .3 else v)
            left = max((u, r.choice((False, True))), (a, bool(lo)))
            right = min((v, r.choice((False, True))), (b, bool(ro)), key=lambda t: (t[0], not t[1]))
            if left[0] >= right[0]:
                continue
            s = interval(left[0], right[0], left[1] or None, right[1] or None)
            if any(p.f and s.bits >> IDX[k] & 1 for k, p in l.mass.items()):
                return l.truncate(s)
        return l

    share = 0       # probability of reusing an earlier part over the same variables
    pool = None

    def model(self, vs, depth, derived=True):
        """vs: {var: kind}"""
        if self.pool is not None:
            derived = False
        if self.pool is None or depth >= 2:
            return self.model1(vs, depth, derived)
        key = tuple(sorted(vs))
        old = self.pool.setdefault(key, [])
        if old and self.r.random() < self.share:
            return self.r.choice(old)
        m = self.model1(vs, depth, derived)
        old.append(m)
        return m

    def model1(self, vs, depth, derived=True):
        r = self.r
        names = list(vs)
        if depth == 0 or (len(names) == 1 and r.random() < .35):
            parts = [self.leaf(v, vs[v], derived) for v in names]
            return parts[0] if len(parts) == 1 else self.styled(Prod(parts))
        if len(names) > 1 and r.random() < .45:
            k = r.randrange(1, len(names))
            r.shuffle(names)
            return self.styled(Prod([self.model({v: vs[v] for v in names[:k]}, depth - 1, derived), self.model({v: vs[v] for v in names[k:]}, depth - 1, derived)]))
        n = r.choice((2, 2, 3)) if self.p.random() > .05 else 1
        parts = [self.model(vs, depth - 1, derived) for _ in range(n)]
        w = list(self.simplex(range(n), 0).values())
        # mixtures need the same variables in all components: derived variables too
        want = [(z, f) for z, f in parts[0].vars().items()]
        for q in parts[1:]:
            align(q, dict(want))
        return self.styled(Sum(list(zip(w, parts))))

    def styled(self, m):
        if self.p.random() < .2 and len(m.parts) > 1:
            m.style = 'operators'
        return m

    def shape(self, kind, wide=False):
        r = self.r
        if kind == NOM:
            if self.p.random() < .06:
                return nominal((), True)
            return r.choice([s for s in all_nominals() if s.strs] if not wide else [nominal(('a', 'b', 'c'), True)])
        n = r.choice((1, 1, 1, 2, 2, 3))
        if kind == DISC:
            fin = [p for p in POS if p not in (INF, -INF)]
            parts = []
            for _ in range(n):
                if r.random() < .3:
                    parts.append(real(*r.sample(fin, r.choice((1, 2, 3)))))
                    continue
                a, b = sorted(r.sample(fin, 2))
                parts.append(interval(-INF if r.random() < .2 else a, INF if r.random() < .2 else b, r.choice((None, True)), r.choice((None, True))))
            return fold(*parts)
        return rand_set(r, n, nominals=0, inf=0)

    def event(self, vs, kinds, depth, neg=.15):
        r = self.r
        if depth == 0 or r.random() < .25:
            v = r.choice(sorted(vs))
            b = v if vs[v] is None else vs[v][0]
            return ('lit', v, self.shape(kinds[b]))
        if r.random() < neg:
            return ('not', self.event(vs, kinds, depth - 1, neg))
        return (r.choice(('and', 'or')),) + tuple(self.event(vs, kinds, depth - 1, neg) for _ in range(r.choice((2, 2, 3))))


def leaves(m):
    return [m] if isinstance(m, Leaf) else [l for p in m.parts for l in leaves(p[1] if isinstance(p, tuple) else p)]


def align(m, want):
    for l in leaves(m):
        l.derived = [(z, f[1]) for z, f in want.items() if f is not None and f[0] == l.var]


# ---------------------------------------------------------------- interpretation
class World:
    def __init__(self, P):
        it = self.it = Interp(P, fuel=400000)
        install(it)
        self.prepare()
        for m in ('sets', 'transforms', 'dnf', 'spe'):
            it.module(m)
        self.g = {**it.module('dnf').vars, **it.module('math_util').vars, **it.module('sets').vars, **it.module('transforms').vars, **it.module('spe').vars}

    def prepare(self):
        pass

    def __getitem__(self, n):
        if n not in self.g:
            raise Unsupported('no ' + n)
        return self.g[n]

    def call(self, f, *a, **k):
        return self.it.call(f, a, k)

    def m(self, o, n, *a, **k):
        return self.it.call(self.it.attr(o, n), a, k)

    def num(self, p, kind):
        if p in (INF, -INF):
            return p
        return Tok(p) if kind != DISC else (int(p) if p == int(p) else float(p))

    def set(self, s, kind):
        if s.kind == 'interval':
            a, b, lo, ro = s.args
            return self.call(self['Interval'], self.num(a, kind), self.num(b, kind), left_open=lo, right_open=ro)
        if s.kind == 'real':
            return self.call(self['FiniteReal'], *[self.num(p, kind) for p in s.args])
        if s.kind == 'nominal':
            return self.call(self['FiniteNominal'], *s.args[0], b=s.args[1])
        out = self.set(s.parts[0], kind)
        for p in s.parts[1:]:
            out = out | self.set(p, kind)
        return out

    def X(self, v):
        return self.call(self['Identity'], v)

    def law(self, m):
        return law(m)

    def fun(self, f, x):
        return {'id': lambda: x, 'abs': lambda: abs(x), 'neg': lambda: -x}[f]()

    def model(self, m):
        if isinstance(m, Leaf):
            x = self.X(m.var)
            if m.form == 'nominal':
                o = self.call(self['NominalLeaf'], x, dict(m.mass))
            elif m.form == 'atomic':
                o = self.call(self['AtomicLeaf'], x, self.num(next(iter(m.mass)), m.kind))
            else:
                o = self.call(self['DiscreteLeaf' if m.kind == DISC else 'ContinuousLeaf'], x, self.law(m), self.set(m.support, m.kind), *([True] if m.base else []))
            for z, f in m.derived:
                o = self.m(o, 'transform', self.X(z), self.fun(f, x))
            return o
        if isinstance(m, Exposed):
            return self.call(self['ExposedSumSPE'], {n: self.model(p) for n, p in m.parts.items()}, self.call(self['NominalLeaf'], self.X(m.var), dict(m.weights)))
        if isinstance(m, Sum):
            ps = [self.model(p) for w, p in m.parts]
            if m.style:
                return self.call(lambda: functools.reduce(operator.or_, [w * o if i % 2 == 0 else o * w for i, ((w, _), o) in enumerate(zip(m.parts, ps))]))
            return self.call(self['SumSPE'], ps, [LogP(w) for w, p in m.parts])
        ps = [self.model(p) for p in m.parts]
        if m.style:
            return self.call(lambda: functools.reduce(operator.and_, ps))
        return self.call(self['ProductSPE'], ps)

    def event(self, E, kinds, vs):
        if E[0] == 'lit':
            v = E[1]
            kind = kinds[v if vs[v] is None else vs[v][0]]
            return self.call(lambda: self.X(v) << self.set(E[2], kind))
        if E[0] == 'not':
            return ~self.event(E[1], kinds, vs)
        out = self.event(E[1], kinds, vs)
        for e in E[2:]:
            o = self.event(e, kinds, vs)
            out = out & o if E[0] == 'and' else out | o
        return out


def law(m):
    """a distribution with the given masses"""
    mass, density = m.base or (m.mass, m.dens)
    items = sorted(mass.items())
    rank = (lambda x: x.rank if isinstance(x, Tok) else x) if m.kind == DISC else rank_of       # integer places are numbered by their rank

    def cdf(x):
        if isinstance(x, (LogP, Val, Sym)):
            raise Unsupported('cdf')
        x = rank(x)
        return sum((p for k, p in items if k <= x), ZERO)

    def dens(x):
        x = rank(x)
        if m.kind == DISC:
            return mass.get(x, ZERO)
        return density[x] if isinstance(x, (int, float)) and x in density else ZERO
    return Fake(cdf=cdf, logcdf=lambda x: LogP(cdf(x)), sf=lambda x: ONE - cdf(x), logsf=lambda x: LogP(ONE - cdf(x)),
                pdf=dens, pmf=dens, logpdf=lambda x: LogP(dens(x)), logpmf=lambda x: LogP(dens(x)),
                args=(m.var, id(m)), kwds={}, dist=Fake(name='law%d' % id(m), xk=(), pk=()))


class Bad(Exception):
    pass


def refused(rule, e):
    """does the error say that the operators of a variable do not accept the operand?"""
    return rule == 'comparison' and isinstance(e, TypeError) and re.match(r"unsupported operand type\(s\) for (<<|&|\||\^): 'Obj' and|'[<>]=?' not supported between instances of '(Obj' and 'Tok|Tok' and 'Obj)'", str(e))


class Run:
    """one analysis run: cases, guarded"""

    def __init__(self, P, prop, rule):
        self.rep = Report(rule)
        self.P, self.prop = P, prop
        self.und = {}
        self.seen = collections.Counter()
        self.W = World(P)
        Tok.zero, Tok.mirror = MID / 2, MID
        self.n = 0

    def guard(self, rule, where, text, f):
        self.n += 1
        self.W.it.fuel = 400000
        self.W.it.order = self.n % 3
        self.rep.begin(self.W.it)
        try:
            bad = f()
        except Unsupported as e:
            self.und[str(e)] = self.und.get(str(e), 0) + 1
            self.rep.count('undecided')
            return None
        except Raised as e:
            if isinstance(e.exc, (TypeError, AttributeError, NameError)) and not e.where and not refused(rule, e.exc):
                k = '%s: %s' % (type(e.exc).__name__, e.exc)
                self.und[k] = self.und.get(k, 0) + 1
                self.rep.count('undecided')
                return None
            bad = 'raises %s%s' % (type(e.exc).__name__, ' (line %s)' % e.where if e.where else '')
        except Bad as e:
            bad = str(e)
        except RecursionError:
            bad = 'does not terminate'
        except HOST as e:
            if not refused(rule, e):
                k = 'host %s: %s' % (type(e).__name__, e)
                self.und[k] = self.und.get(k, 0) + 1
                self.rep.count('undecided')
                return None
            bad = 'is refused: %s' % e
        self.rep.took(self.W.it)
        self.rep.count(rule)
        if bad:
            self.seen[where] += 1
            if self.seen[where] <= 3:
                mod = where.split('.')[0]
                self.rep.find(where, self.P.modules[mod].path if mod in self.P.modules else mod, '%s: %s' % (text, bad))
        elif len(self.rep.samples) < 6 and self.rep.instances % 53 == 7:
            self.rep.samples.append({'case': text, 'verdict': 'as defined'})
        return bad

    def done(self, floor):
        for k, v in sorted(self.und.items(), key=lambda t: -t[1])[:20]:
            self.rep.undecided.append('%d cases: %s' % (v, k))
        self.rep.functions |= {n for n in self.W.it.touched if not n.startswith('<')}
        self.rep.floor = floor
        Tok.zero = Tok.mirror = None
        return self.rep


def same(got, want, what='the answer'):
    """compare a log-probability with a formal probability"""
    g = logp(got) if not isinstance(got, LogP) else got
    if g is NotImplemented:
        raise Unsupported('result of the query')
    if g.v != want:
        raise Bad('%s is log %.4g where the definition gives log %.4g (masses at the witness valuation)' % (what, g.v.w, want.w))


VARS = [{'X': REAL}, {'X': REAL, 'Y': REAL}, {'X': REAL, 'N': NOM}, {'D': DISC}, {'X': REAL, 'Y': REAL, 'N': NOM}, {'X': REAL, 'D': DISC}, {'N': NOM, 'M': NOM}]


def models(G, k):
    vs = VARS[k % len(VARS)]
    depth = (0, 1, 2, 2, 3)[k // len(VARS) % 5]
    if k % 13 == 5 and G.pool is None and depth:
        names = 'ab' if k % 2 else 'abc'
        ps = {n: G.model(vs, depth - 1, False) for n in names}
        return {**vs, 'S': NOM}, Exposed('S', G.simplex(names, 0), ps)
    return vs, G.model(vs, depth)


def split_cases(rule, seed, quick, thorough, floor):
    """decorator: a function deciding case k becomes an analysis over all cases, on all processors"""
    def deco(per_case):
        def run(P, prop, tier, **opt):
            n = quick if tier == 'quick' else thorough
            procs = max(1, min(os.cpu_count() or 1, 8, n // 4))

            def part(i):
                R = Run(P, prop, rule)
                for k in range(i, n, procs):
                    try:
                        per_case(R, Gen(seed * 1000003 + k), k, **opt)
                    except (Unsupported, Raised) + HOST as e:
                        if len(R.rep.missing) < 8:
                            R.rep.missing.append('case %d: %r' % (k, e))
                return R.done(floor)
            reps = fork_map(part, procs)
            rep = reps[0]
            for r in reps[1:]:
                rep.merge(r)
            return rep
        run.per_case = per_case
        return run
    return deco


def fork_map(f, n):
    """[f(0), ..., f(n-1)], each in a process of its own"""
    if n == 1:
        return [f(0)]
    import multiprocessing
    if multiprocessing.current_process().daemon:        # inside a pool (tools/mutate.py)
        out = []
        for i in range(n):
            out.append(f(i))
            if out[-1].findings:
                break
        return out
    ctx = multiprocessing.get_context('fork')
    pipes = []
    for i in range(n):
        r, w = ctx.Pipe(False)

        def child(i=i, w=w):
            try:
                out = f(i)
            except BaseException as e:
                out = Report('?')
                out.missing.append('worker: %r' % (e,))
            w.send(out)
            w.close()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = ctx.Process(target=child)
            p.start()
        w.close()
        pipes.append((p, r))
    out = []
    for p, r in pipes:
        try:
            out.append(r.recv())
        except EOFError:
            rep = Report('?')
            rep.missing.append('worker died')
            out.append(rep)
        p.join()
    return out


@split_cases('event-probability', 11, 200, 4000, 300)
def run_logprob(R, G, k):
    c = case(R, G, k)
    if c is None:
        return
    kinds, m, vs, comps, o = c
    for j in range(4):
        E = G.event(vs, kinds, j % 3)

        def f():
            want, W = measure(comps, E, vs), R.W
            ev = W.event(E, kinds, vs)
            if j == 1:
                p = val(W.m(o, 'prob', ev))
                if p is NotImplemented:
                    raise Unsupported('result of prob')
                if p != want:
                    raise Bad('prob is %.4g where the definition gives %.4g' % (p.w, want.w))
            elif j == 2:
                for memo in (W.call(W['Memo']), False):
                    same(W.m(o, 'logprob', ev, memo), want, 'the log-probability (memo given)')
            else:
                same(W.m(o, 'logprob', ev), want, 'the log-probability')
        R.guard('logprob', 'spe.%s.logprob' % o.cls.name, '%s, event %s' % (m.text(), etext(E)), f)


def case(R, G, k, make=models):
    """build a model -> (kinds, spec, vs, comps, object) or None"""
    kinds, m = make(G, k)
    box = {}
    bad = R.guard('construction', 'spe.SPE', m.text(), lambda: box.update(o=R.W.model(m)))
    if bad or 'o' not in box:
        return None
    return kinds, m, m.vars(), m.comps(), box['o']


@split_cases('conditioning', 23, 200, 4000, 250)
def run_condition(R, G, k, null=None):
    """null: only null events (True), only events of positive probability (False), both (None)"""
    W = R.W

    c = case(R, G, k)
    if c is None:
        return
    kinds, m, vs, comps, o = c
    for j in range(4):
        E = G.event(vs, kinds, j % 3)
        if j == 3 and null is not False:      # likely null
            E = ('and', E, G.event(vs, kinds, 1), G.event(vs, kinds, 1))
        if j == 1 and null is not False:      # points
            v = G.r.choice([v for v in vs if vs[v] is None])
            E = ('lit', v, G.shape(NOM) if kinds[v] == NOM else real(*G.r.sample(range(NR), 2)))
        pe = measure(comps, E, vs)
        probes = [G.event(vs, kinds, d) for d in (0, 0, 1)] + [E]
        E2 = G.event(vs, kinds, 1)
        where = 'spe.%s.condition' % o.cls.name
        if not pe.f:
            if null is not False:
                R.guard('null event', where, '%s, conditioned on the null event %s' % (m.text(), etext(E)), lambda: rejects(R, o, E, kinds, vs))
            continue
        if null is True:
            def live():
                W.m(o, 'condition', W.event(E, kinds, vs))
            R.guard('possible event', where, '%s, conditioned on the event %s of positive probability' % (m.text(), etext(E)), live)
            continue

        def f():
            c = W.m(o, 'condition', W.event(E, kinds, vs))
            check(c, E, pe, probes)
            if {t for t in map(str, symbols(W, c))} != set(vs):
                raise Bad('the conditioned model has the variables %s' % sorted(map(str, symbols(W, c))))
            pe2 = measure(comps, ('and', E, E2), vs)
            if pe2.f:
                check(W.m(c, 'condition', W.event(E2, kinds, vs)), ('and', E, E2), pe2, probes[:2])
            else:
                rejects2(c, E2)

        def check(c, E, pe, probes):
            for F in probes:
                same(W.m(c, 'logprob', W.event(F, kinds, vs)), measure(comps, ('and', E, F), vs) / pe, 'the conditional log-probability of %s given %s' % (etext(F), etext(E)))

        def rejects2(c, E2):
            try:
                W.m(c, 'condition', W.event(E2, kinds, vs))
            except Raised as e:
                if isinstance(e.exc, ValueError):
                    return
                raise
            raise Bad('conditioning again on %s, which is then null, returns a model' % etext(E2))
        R.guard('conditioning', where, '%s, conditioned on %s' % (m.text(), etext(E)), f)


def symbols(W, o):
    return [W.it.attr(s, 'token') for s in W.it.listing(W.m(o, 'get_symbols'))]


def rejects(R, o, E, kinds, vs):
    try:
        R.W.m(o, 'condition', R.W.event(E, kinds, vs))
    except Raised as e:
        if isinstance(e.exc, ValueError):
            return
        raise
    raise Bad('no ValueError')


def run_null(P, prop, tier):
    return run_condition(P, prop, tier, null=True)


def run_bayes(P, prop, tier):
    return run_condition(P, prop, tier, null=False)


def density(comps, x):
    """lexicographic density of the assignment {var: cell} -> [(component, weight)], degree"""
    best, out = None, []
    for w, c in comps:
        d, v = 0, w
        for var, p in x.items():
            l = c[var]
            if l.form == 'continuous leaf':
                d += 1
                v = v * (l.dens[p] if p in l.dens else ZERO)
            else:
                v = v * l.mass.get(p, ZERO)
        if not v.f:
            continue
        if best is None or d < best:
            best, out = d, []
        if d == best:
            out.append((v, c))
    return out


@split_cases('densities', 37, 240, 4000, 300)
def run_density(R, G, k):
    W = R.W

    c = case(R, G, k)
    if c is None:
        return
    kinds, m, vs, comps, o = c
    base = [v for v in vs if vs[v] is None]
    ranks = [p for p in POS if p not in (INF, -INF)]
    for j in range(4):
        names = G.r.sample(base, G.r.randrange(1, len(base) + 1))
        x = {}
        for v in names:
            here = [l for w, cc in comps for l in [cc[v]] if l.form != 'continuous leaf']
            pool = [p for l in here for p in l.mass] if here and G.r.random() < .6 else {REAL: ranks, DISC: list(range(NR)), NOM: ['a', 'b', 'c', 'd']}[kinds[v]]
            x[v] = G.r.choice(pool)
            if kinds[v] != NOM and G.p.random() < .08:
                x[v] = 'a'                        # no number
        sel = density(comps, x)
        total = sum((v for v, _ in sel), ZERO)
        # outside the support of an unconditioned continuous leaf the law itself decides
        text = '%s at %s' % (m.text(), ', '.join('%s=%s' % (v, 'x%s' % p if not isinstance(p, str) else p) for v, p in x.items()))
        probes = [G.event(vs, kinds, d) for d in (0, 0, 1)]

        def asg():
            return {W.X(v): (p if isinstance(p, str) else W.num(p, kinds[v])) for v, p in x.items()}

        def f():
            if j == 1:
                p = val(W.m(o, 'pdf', asg()))
                if p is NotImplemented:
                    raise Unsupported('result of pdf')
                if p != total:
                    raise Bad('the density is %.4g where the definition gives %.4g' % (p.w, total.w))
                return
            same(W.m(o, 'logpdf', asg(), *([W.call(W['Memo'])] if j == 2 else [False] if j == 3 else [])), total, 'the log-density')
        R.guard('logpdf', 'spe.%s.logpdf' % o.cls.name, text, f)
        if not total.f:
            continue

        def g():
            c = W.m(o, 'constrain', asg())
            for F in probes:
                want = sum((v * measure([(ONE, cc)], F, vs, x) for v, cc in sel), ZERO) / total
                same(W.m(c, 'logprob', W.event(F, kinds, vs)), want, 'the log-probability of %s after constraining' % etext(F))
            if {t for t in map(str, symbols(W, c))} != set(vs):
                raise Bad('the constrained model has the variables %s' % sorted(map(str, symbols(W, c))))
        R.guard('constrain', 'spe.%s.constrain' % o.cls.name, text, g)


# ---------------------------------------------------------------- events as truth functions
def points(G, kinds, names, n):
    every = list(itertools.product(*[cells(kinds[v]) + (['d'] if kinds[v] == NOM else []) for v in names]))
    if len(every) > n:
        every = G.r.sample(every, n)
    return [dict(zip(names, p)) for p in every]


def evaluator(W, kinds):
    syms = {v: W.X(v) for v in kinds}

    def at(ev, pt):
        r = W.m(ev, 'evaluate', {syms[v]: (p if isinstance(p, str) else W.num(p, kinds[v])) for v, p in pt.items()})
        return W.it.truth(r)
    return at


class ExprWorld:
    """events over expressions: a literal on X' is a literal on the function of X it stands for"""

    def __init__(self, W):
        self.W = W

    def lit(self, E, kinds, vs):
        v = E[1]
        if vs[v] is None:
            return self.W.X(v)
        return self.W.fun(vs[v][1], self.W.X(vs[v][0]))

    def event(self, E, kinds, vs):
        W = self.W
        if E[0] == 'lit':
            kind = kinds[E[1] if vs[E[1]] is None else vs[E[1]][0]]
            return W.call(lambda: self.lit(E, kinds, vs) << W.set(E[2], kind))
        if E[0] == 'not':
            return ~self.event(E[1], kinds, vs)
        out = self.event(E[1], kinds, vs)
        for e in E[2:]:
            o = self.event(e, kinds, vs)
            out = out & o if E[0] == 'and' else out | o
        return out


EV = [({'X': REAL}, {'X': None, 'A': ('X', 'abs')}), ({'X': REAL, 'Y': REAL}, {'X': None, 'Y': None, 'A': ('X', 'abs')}),
      ({'X': REAL, 'N': NOM}, {'X': None, 'N': None}), ({'X': REAL, 'Y': REAL, 'N': NOM}, {'X': None, 'Y': None, 'N': None}),
      ({'X': REAL, 'Y': REAL}, {'X': None, 'Y': None})]


def compare(W, at, ev, E, vs, pts, what):
    for pt in pts:
        want = holds(E, pt, vs)
        if at(ev, pt) != want:
            raise Bad('%s is %s at %s' % (what, not want, ptext(pt)))


def ptext(pt):
    return ', '.join('%s=%s' % (v, p if isinstance(p, str) else 'x%s' % p) for v, p in sorted(pt.items()))


def clauses(W, dnf):
    return [list(c.values()) for c in W.it.listing(W.call(W['dnf_factor'], dnf))]


@split_cases('event-truth-tables', 41, 480, 8000, 400)
def run_events(R, G, k):
    """Boolean operators and normal forms as truth functions"""
    W = R.W
    X = ExprWorld(W)
    disjoint = R.prop == 'C04'

    kinds, vs = EV[k % len(EV)]
    at = evaluator(W, kinds)
    E = G.event(vs, kinds, (1, 2, 2, 3)[k // len(EV) % 4], neg=.2)
    pts = points(G, kinds, sorted(kinds), 40)
    box = {}

    def build():
        box['e'] = X.event(E, kinds, vs)
        compare(W, at, box['e'], E, vs, pts, 'the event')
    bad = R.guard('operators', 'transforms.Event', etext(E), build)
    if bad or 'e' not in box:
        return
    ev = box['e']

    def dnf():
        compare(W, at, W.m(ev, 'to_dnf'), E, vs, pts, 'its disjunctive normal form')

    def norm():
        n = W.call(W['dnf_normalize'], ev)
        if n is None:
            for pt in pts:
                if holds(E, pt, vs):
                    raise Bad('its normal form is impossible, but it holds at ' + ptext(pt))
            return
        compare(W, at, n, E, vs, pts, 'its normal form')
        cs = clauses(W, n)
        for pt in pts:
            t = any(all(at(e, {v: pt[v] for v in kinds}) for e in c) for c in cs)
            if t != holds(E, pt, vs):
                raise Bad('the factors of its normal form are %s at %s' % (t, ptext(pt)))
        box['n'] = n

    def factor():
        d = W.m(ev, 'to_dnf')
        keys = {v: 'g%d' % (j if k % 3 == 0 else j // 2 if k % 3 == 1 else 0) for j, v in enumerate(sorted(kinds))}
        fs = W.it.listing(W.call(W['dnf_factor'], d, {W.X(v): g for v, g in keys.items()}))
        groups = [{g: e for g, e in clause.items()} for clause in fs]
        for c in groups:
            for g, e in c.items():
                if g not in keys.values():
                    raise Bad('a clause has a factor for %r' % (g,))
                for y in W.it.listing(W.m(e, 'get_symbols')):
                    if not any(keys[v] == g and W.it.truth(y == W.X(v)) for v in keys):
                        raise Bad('the factor %s of a clause mentions a variable of another factor' % g)
        for pt in pts:
            t = any(all(at(e, pt) for e in c.values()) for c in groups)
            if t != holds(E, pt, vs):
                raise Bad('the grouped factors of its normal form are %s at %s' % (t, ptext(pt)))

    def split():
        d = W.call(W['dnf_to_disjoint_union'], box['n'])
        cs = clauses(W, d)
        for pt in pts:
            t = sum(all(at(e, pt) for e in c) for c in cs)
            w = holds(E, pt, vs)
            if bool(t) != w:
                raise Bad('the disjoint clauses are %s at %s' % (bool(t), ptext(pt)))
            if t > 1:
                raise Bad('%d of the disjoint clauses hold at %s' % (t, ptext(pt)))
    if not disjoint:
        R.guard('dnf', 'transforms.Event.to_dnf', etext(E), dnf)
        R.guard('factors', 'dnf.dnf_factor', etext(E), factor)
    R.guard('normal form', 'dnf.dnf_normalize', etext(E), norm)
    if disjoint and 'n' in box:
        R.guard('disjoint union', 'dnf.dnf_to_disjoint_union', etext(E), split)


@split_cases('solutions', 43, 600, 8000, 200)
def run_preimage(R, G, k):
    """the solution of a one-variable event contains exactly the points at which the event holds"""
    W = R.W
    X = ExprWorld(W)

    kinds, vs = (({'X': REAL}, {'X': None, 'A': ('X', 'abs'), 'B': ('X', 'abs')}), ({'N': NOM}, {'N': None}))[k % 5 == 4]
    E = G.event(vs, kinds, (0, 1, 2)[k // 5 % 3], neg=.2)
    base = sorted(kinds)[0]
    at = evaluator(W, kinds)

    def f():
        ev = X.event(E, kinds, vs)
        s = W.m(ev, 'solve')
        for p in cells(kinds[base]):
            want = holds(E, {base: p}, vs)
            got = W.it.contains(p if isinstance(p, str) else W.num(p, kinds[base]), s)
            if W.it.truth(got) != want:
                raise Bad('its solution %s %s=%s' % ('lacks' if want else 'contains', base, p if isinstance(p, str) else 'x%s' % p))
    R.guard('solve', 'transforms.Event.solve', etext(E), f)


@split_cases('indicators', 101, 400, 6000, 150)
def run_indicator(R, G, k):
    """an event is the transform that is 1 where it holds and 0 elsewhere"""
    W = R.W
    X = ExprWorld(W)
    nom = k % 4 == 3
    kinds, vs = ({'N': NOM}, {'N': None}) if nom else ({'X': REAL}, {'X': None, 'A': ('X', 'abs')})
    E = G.event(vs, kinds, (0, 0, 1, 2)[k // 4 % 4], neg=.2)
    base = sorted(kinds)[0]
    value = [frozenset([1]), frozenset([0]), frozenset([0, 1]), frozenset([0, 7]), frozenset([7]), frozenset()][k % 6]
    what = 'interval' if k % 7 == 3 else 'finv' if k % 7 == 5 and E[0] == 'lit' and len(value) == 1 and E[1] == base else 'invert'
    if what == 'interval':
        value = [frozenset([1]), frozenset([0, 1])][k % 2]

    def number(v, p):
        return W.it.contains(p if isinstance(p, str) else W.num(p, kinds[base]), v)

    def f():
        ev = X.event(E, kinds, vs)
        if what == 'finv':
            s = W.m(ev, 'finv', next(iter(value)))
        else:
            if what == 'interval':
                v = W.call(W['Interval'], .5 if len(value) == 1 else -3, 4)
            else:
                v = W.call(W['FiniteReal'], *sorted(value)) if value else W['EmptySet']
            s = W.m(ev, 'invert', v)
        for p in cells(kinds[base]):
            want = int(holds(E, {base: p}, vs)) in value
            if W.it.truth(number(s, p)) != want:
                raise Bad('the preimage of %s %s %s=%s' % (sorted(value), 'lacks' if want else 'contains', base, p if isinstance(p, str) else 'x%s' % p))
        for p in cells(kinds[base])[:6]:
            if E[0] == 'lit' and E[1] == base or vs == {base: None}:
                got = W.m(ev, 'ffwd', p if isinstance(p, str) else W.num(p, kinds[base]))
                if bool(W.it.truth(got)) != holds(E, {base: p}, vs):
                    raise Bad('its value at %s=%s is %s' % (base, p, got))
        d = W.m(ev, 'domain')
        if not nom:
            for p in cells(kinds[base]):
                if not W.it.truth(number(d, p)):
                    raise Bad('its domain lacks x%s' % p)
    R.guard('indicator', 'transforms.Event.invert', '%s, %s of %s' % (etext(E), what, sorted(value)), f)


def odd_comparisons(W):
    """(text, what must be refused)"""
    X, Y = W.X('X'), W.X('Y')
    A = W.call(lambda: abs(X))
    t = Tok(1)
    out = []
    for nm, e in (('X', X), ('abs(X)', A)):
        for bad in ('a', None, []):
            for n, op in (('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)):
                out.append(('%s %s %r' % (nm, n, bad), lambda op=op, e=e, bad=bad: op(e, bad), 'transforms.Transform.__%s__' % op.__name__))
                out.append(('%r %s %s' % (bad, n, nm), lambda op=op, e=e, bad=bad: op(bad, e), 'transforms.Transform.__%s__' % op.__name__))
        for bad in ('abc', None, 3, {'a': 1}):
            out.append(('%s << %r' % (nm, bad), lambda e=e, bad=bad: e << bad, 'transforms.Transform.__lshift__'))
    evs = [('X < x1', lambda: X < t), ('X in {x1}', lambda: X << {t}), ('X < x1 or Y < x1', lambda: (X < t) | (Y < t)), ('X < x1 and Y < x1', lambda: (X < t) & (Y < t)),
           ("N in {'a'}", lambda: W.X('N') << {'a'})]
    for nm, ev in evs:
        for bad in (3, 'a', None, X):
            for n, op in (('&', operator.and_), ('|', operator.or_), ('^', operator.xor)):
                out.append(('(%s) %s %r' % (nm, n, bad), lambda op=op, ev=ev, bad=bad: op(ev(), bad), 'transforms.Event.__%s__' % op.__name__.strip('_')))
    for nm, ev in evs[1:2] + evs[4:]:
        for n, op in (('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)):
            out.append(('(%s) %s x2' % (nm, n), lambda op=op, ev=ev: op(ev(), Tok(2)), 'transforms.EventBasic.__%s__' % op.__name__))
    for n, op in (('<', operator.lt), ('<=', operator.le)):
        out.append(('(X < x1) %s x0' % n, lambda op=op: op(X < t, Tok(0)), 'transforms.EventInterval.__%s__' % op.__name__) if False else
                   ('(x0 < X < x1 closed) %s x2' % n, lambda op=op: op(op(Tok(0), (X < t)), Tok(2)), 'transforms.EventInterval.__%s__' % op.__name__))
    for nm, ev in evs[2:4]:
        out.append(('solve %s' % nm, lambda ev=ev: W.m(ev(), 'solve'), 'transforms.Event.solve'))
        out.append(('domain of %s' % nm, lambda ev=ev: W.m(ev(), 'domain'), 'transforms.EventCompound.domain'))
    for nm, e in (('X', X), ('abs(X)', A), ('X < x1', lambda: X < t), ('X < x1 or Y < x1', evs[2][1])):
        out.append(('%s evaluated without X' % nm, lambda e=e: W.m(e() if callable(e) and not hasattr(e, 'cls') else e, 'evaluate', {Y: Tok(2)}), 'transforms.Transform.evaluate'))
    return out


OPS = {'<': (operator.lt, lambda r: interval(-INF, r, None, True)), '<=': (operator.le, lambda r: interval(-INF, r, None, None)),
       '>': (operator.gt, lambda r: interval(r, INF, True, None)), '>=': (operator.ge, lambda r: interval(r, INF, None, None))}


def run_relational(P, prop, tier):
    R = Run(P, prop, 'comparisons')
    W = R.W
    X = ExprWorld(W)

    def go():
        G = Gen(47)
        vs = {'X': None, 'A': ('X', 'abs')}
        kinds = {'X': REAL}
        at = evaluator(W, kinds)
        cases = []
        for v in ('X', 'A'):
            for r in range(NR):
                for n, (op, s) in OPS.items():
                    cases.append(('%s %s x%s' % (v, n, r), ('lit', v, s(r)), lambda v=v, r=r, op=op: op(X.lit((0, v), kinds, vs), Tok(r)), 'transforms.Transform.__%s__' % op.__name__))
                    flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[n]
                    cases.append(('x%s %s %s' % (r, n, v), ('lit', v, OPS[flip][1](r)), lambda v=v, r=r, op=op: op(Tok(r), X.lit((0, v), kinds, vs)), 'transforms.Transform.__%s__' % OPS[flip][0].__name__))
            for k in range(60 if tier == 'quick' else 600):
                s = G.shape(REAL)
                cases.append(('%s << %s' % (v, s.text()), ('lit', v, s), lambda v=v, s=s: X.lit((0, v), kinds, vs) << W.set(s, REAL), 'transforms.Transform.__lshift__'))
                rs = G.r.sample(range(NR), G.r.choice((1, 2, 3)))
                cases.append(('%s << {%s}' % (v, ', '.join('x%s' % r for r in rs)), ('lit', v, real(*rs)),
                              lambda v=v, rs=rs, mk=G.r.choice((set, list, tuple, frozenset)): X.lit((0, v), kinds, vs) << mk([Tok(r) for r in rs]), 'transforms.Transform.__lshift__'))
            for a in range(NR):
                for b in range(NR):
                    for n, (op, _) in OPS.items():
                        for n2, (op2, _) in OPS.items():
                            if (n[0] == '<') != (n2[0] == '<'):
                                continue
                            # (v n a) closed on the other side by b: b n2' v n a
                            flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[n2]
                            E = ('and', ('lit', v, OPS[n][1](a)), ('lit', v, OPS[flip][1](b)))
                            cases.append(('x%s %s (%s %s x%s)' % (b, n2, v, n, a), E, lambda v=v, a=a, b=b, op=op, op2=op2: op2(Tok(b), op(X.lit((0, v), kinds, vs), Tok(a))),
                                          'transforms.EventInterval.__%s__' % OPS[flip][0].__name__))
        for text, E, mk, where in cases:
            def f():
                ev = mk()
                compare(W, at, ev, E, vs, [{'X': p} for p in cells(REAL)], 'the event')
                s = W.m(ev, 'solve')
                for p in cells(REAL):
                    if W.it.truth(W.it.contains(Tok(p), s)) != holds(E, {'X': p}, vs):
                        raise Bad('the solution of the event is wrong at x%s' % p)
            R.guard('comparison', where, text, f)
        mixed(R, G, tier)
        for text, mk, where in odd_comparisons(W):
            def f():
                try:
                    r = W.call(mk)
                except Raised as e:
                    if isinstance(e.exc, (TypeError, ValueError, AssertionError)):
                        return
                    raise
                except TypeError:
                    return
                if r is NotImplemented:
                    return
                raise Bad('is accepted')
            R.guard('refused', where, text, f)
        kinds, vs = {'N': NOM}, {'N': None}
        at2 = evaluator(W, kinds)
        for s in [s for s in all_nominals() if s.strs]:
            def f():
                ev = W.call(lambda: W.X('N') << W.set(s, NOM))
                compare(W, at2, ev, ('lit', 'N', s), vs, [{'N': p} for p in ('a', 'b', 'c')], 'the event')
                compare(W, at2, ~ev, ('not', ('lit', 'N', s)), vs, [{'N': p} for p in ('a', 'b', 'c')], 'the negated event')
            R.guard('comparison', 'transforms.Transform.__lshift__', 'N << %s' % s.text(), f)
    try:
        go()
    except (Unsupported, Raised, KeyError) as e:
        R.rep.missing.append(repr(e))
    return R.done(150)


def mixed(R, G, tier):
    """membership in collections of numbers and strings"""
    W, r = R.W, G.r
    pts = cells(REAL) + ['a', 'b', 'c', 'd']
    for k in range(60 if tier == 'quick' else 400):
        rs = r.sample(range(NR), r.choice((0, 0, 1, 2)))
        ss = r.sample('abc', r.choice((0, 1, 1, 2)))
        items = [Tok(x) for x in rs] + ss
        r.shuffle(items)
        mk = (set, list, tuple, frozenset)[k % 4]
        form = k % 3 if rs and ss else 0

        def f():
            X = W.X('X')
            if form == 0:
                ev = W.call(lambda: X << mk(items))
            elif form == 1:
                s = W.call(W['FiniteReal'], *[Tok(x) for x in rs]) | W.call(W['FiniteNominal'], *ss)
                ev = W.call(lambda: X << s)
            else:
                ev = W.call(lambda: (X << [Tok(x) for x in rs]) | (X << ss))
            for p in pts:
                got = W.m(ev, 'evaluate', {X: p if isinstance(p, str) else Tok(p)})
                if W.it.truth(got) != (p in (ss if isinstance(p, str) else rs)):
                    raise Bad('is %s at X=%s' % (W.it.truth(got), p if isinstance(p, str) else 'x%s' % p))
        R.guard('comparison', 'transforms.Transform.__lshift__', 'X << %s{%s}' % (mk.__name__, ', '.join(i if isinstance(i, str) else repr(i) for i in items)), f)

    def g():
        X = W.X('X')
        ev = W.call(lambda: X << W['EmptySet'])
        for p in pts:
            if W.it.truth(W.m(ev, 'evaluate', {X: p if isinstance(p, str) else Tok(p)})):
                raise Bad('holds somewhere')
    R.guard('comparison', 'transforms.Transform.__lshift__', 'X << EmptySet', g)


# ---------------------------------------------------------------- caching
def answers(W, o, q, memo):
    """the answer of a query, as data"""
    op, arg = q
    try:
        r = W.m(o, op, arg, **({'memo': memo} if memo is not DEFAULT else {}))
    except Raised as e:
        if isinstance(e.exc, (ValueError, AssertionError)) and (e.where or isinstance(e.exc, ValueError)):
            return ('raises', type(e.exc).__name__)
        raise
    return r


DEFAULT = object()


@split_cases('caching', 53, 160, 2000, 200)
def run_caching(R, G, k):
    """every query gives the same answer without a cache, with a new cache and with a cache filled by other queries"""
    W = R.W
    G.pool, G.share = ({} if k // len(VARS) % 2 else None), .3
    c = case(R, G, k)
    if c is None:
        return
    kinds, m, vs, comps, o = c
    r = G.r
    box = {}

    def prepare():
        qs = []
        subs = [(o, m)] + parts(W, o, m)
        evs = {}
        for j in range(6):
            so, sm = subs[0] if j < 3 else r.choice(subs)
            svs = sm.vars()
            sk = {v: kinds[v] for v in svs if svs[v] is None}
            E = G.event(svs, sk, r.choice((0, 1, 1)))
            ev = W.event(E, kinds, svs)
            for op in ('logprob', 'condition'):
                qs.append((so, (op, ev), '%s(%s)' % (op, etext(E))))
            x = {}
            for v in r.sample(sorted(sk), r.randrange(1, len(sk) + 1)):
                x[v] = r.choice({REAL: [0, .5, 1, 2], DISC: [0, 1, 2], NOM: ['a', 'b', 'd']}[kinds[v]])
            asg = {W.X(v): (p if isinstance(p, str) else W.num(p, kinds[v])) for v, p in x.items()}
            for op in ('logpdf', 'constrain'):
                qs.append((so, (op, asg), '%s(%s)' % (op, ', '.join('%s=%s' % (v, p) for v, p in x.items()))))
        box['qs'] = qs
        box['probes'] = [W.event(G.event(vs, kinds, d), kinds, vs) for d in (0, 1)]
    if R.guard('preparation', 'spe.SPE', m.text(), prepare) or 'qs' not in box:
        return
    qs = box['qs']
    Memo = W['Memo']

    def view(so, r0):
        """comparable form of an answer"""
        if isinstance(r0, Obj):
            out = [frozenset(map(str, symbols(W, r0)))]
            for sym_ in sorted(W.it.listing(W.m(r0, 'get_symbols')), key=lambda s: str(W.it.attr(s, 'token'))):
                for p in box.setdefault('lits', {}).setdefault(str(W.it.attr(sym_, 'token')), lits(sym_)):
                    out.append(logp(W.m(r0, 'logprob', p)))
            return tuple(out)
        return r0 if isinstance(r0, tuple) else logp(r0)

    def lits(sym_):
        n = str(W.it.attr(sym_, 'token'))
        b = n if vs[n] is None else vs[n][0]
        return [W.call(lambda: sym_ << W.set(G.shape(kinds[b]), kinds[b])) for _ in range(2)]

    def base(i):
        so, q, t = qs[i]
        if i not in box:
            W.it.collide = False
            box[i] = view(so, answers(W, so, q, DEFAULT))
        return box[i]

    order = list(range(len(qs)))
    shared = {}

    def pairs():
        shared['m'] = W.call(Memo)

    R.guard('cache', 'spe.Memo', 'a new cache', pairs)
    if 'm' not in shared:
        return
    r.shuffle(order)
    for rnd in (0, 1):
        for i in order:
            so, q, t = qs[i]
            where = 'spe.%s.%s' % (so.cls.name, q[0])

            def f():
                want = base(i)
                W.it.collide = True         # hashes of different objects may agree: only equality tells them apart
                got = view(so, answers(W, so, q, shared['m']))
                if got != want:
                    raise Bad('with a cache filled by other queries of the model the answer is %s, without it %s' % (show(got), show(want)))
                if rnd == 0:
                    got = view(so, answers(W, so, q, W.call(Memo)))
                    if got != want:
                        raise Bad('with an empty cache the answer is %s, without it %s' % (show(got), show(want)))
                    got = view(so, answers(W, so, q, False))
                    if got != want:
                        raise Bad('with caching disabled the answer is %s, by default %s' % (show(got), show(want)))
            R.guard('query', where, '%s: %s' % (m.text(), t), f)
            W.it.collide = False


def show(x):
    return str(x)[:120]


def parts(W, o, m):
    """(object, specification) of the immediate parts, where they correspond"""
    if isinstance(m, (Leaf, Exposed)):
        return []
    ch = list(W.it.listing(W.it.attr(o, 'children')))
    sp = [p[1] if isinstance(p, tuple) else p for p in m.parts]
    if len(ch) != len(sp):
        return []
    return [(c, s) for c, s in zip(ch, sp)]


# ---------------------------------------------------------------- purity
@split_cases('purity', 59, 160, 2000, 200)
def run_purity(R, G, k):
    """queries leave the model, the event and the assignment as they were"""
    W = R.W
    G.pool, G.share = ({} if k // len(VARS) % 2 else None), .3
    c = case(R, G, k)
    if c is None:
        return
    kinds, m, vs, comps, o = c
    for j in range(2):
        E, F = G.event(vs, kinds, 1 + j), G.event(vs, kinds, 1)
        x = {}
        for v in G.r.sample(sorted(kinds), G.r.randrange(1, len(kinds) + 1)):
            x[v] = G.r.choice({REAL: [0, .5, 1, 2], DISC: [0, 1, 2], NOM: ['a', 'b', 'd']}[kinds[v]])
        box = {}

        def prep():
            box['e'], box['f'] = W.event(E, kinds, vs), W.event(F, kinds, vs)
            box['x'] = {W.X(v): (p if isinstance(p, str) else W.num(p, kinds[v])) for v, p in x.items()}
            box['old'] = vs and {n: list(W.it.listing(d)) for n, d in ()}
        if R.guard('preparation', 'transforms.Event', etext(E), prep) or 'x' not in box:
            continue
        e, f, a = box['e'], box['f'], box['x']
        g = W.g
        leaf0 = sorted(kinds)[0]
        new = lambda: W.X('fresh%d' % j)
        ops = [('logprob', lambda: W.m(o, 'logprob', e)), ('prob', lambda: W.m(o, 'prob', e)), ('condition', lambda: W.m(o, 'condition', e)),
               ('logpdf', lambda: W.m(o, 'logpdf', a)), ('constrain', lambda: W.m(o, 'constrain', a)),
               ('transform', lambda: W.m(o, 'transform', new(), W.X(leaf0))),
               ('condition with cache', lambda: W.m(o, 'condition', e, memo=W.call(W['Memo']))),
               ('constrain with cache', lambda: W.m(o, 'constrain', a, memo=W.call(W['Memo']))),
               ('mutual_information', lambda: W.m(o, 'mutual_information', e, f)),
               ('size', lambda: W.m(o, 'size')), ('==', lambda: o == o), ('hash', lambda: hash(o)),
               ('event &', lambda: e & f), ('event |', lambda: e | f), ('event ~', lambda: ~e), ('event ^', lambda: e ^ f), ('event to_dnf', lambda: W.m(e, 'to_dnf')),
               ('event substitute', lambda: W.m(e, 'substitute', {W.X(leaf0): W.X('other')})),
               ('event rename', lambda: W.m(e, 'subs', {W.X(leaf0): W.X('other')})),
               ('dnf_normalize', lambda: W.call(W['dnf_normalize'], e)), ('dnf_to_disjoint_union', lambda: W.call(W['dnf_to_disjoint_union'], W.m(e, 'to_dnf'))),
               ('dnf_factor', lambda: W.call(W['dnf_factor'], W.m(e, 'to_dnf'))),
               ('mixture', lambda: W.call(W['SumSPE'], [o, o], [LogP(Val(3, .3)), LogP(ONE - Val(3, .3))])),
               ]
        for name, op in ops:
            where = 'spe.%s.%s' % (o.cls.name, name.split(' ')[0]) if not name.startswith(('event', 'dnf')) else 'transforms.Event.%s' % name.split(' ')[-1] if name[0] == 'e' else 'dnf.' + name

            def body():
                before = [record([v]) for v in (o, e, f, a)]
                res = None
                try:
                    res = op()
                except Raised:
                    pass                        # what it answers is not the concern of this rule
                for what, rec in zip(('the model', 'the event', 'the second event', 'the assignment'), before):
                    bad = changes(rec)
                    if bad:
                        raise Bad('%s changes %s: %s' % (name, what, bad))
                # ... nor does using the result change them
                if isinstance(res, Obj) and name in ('condition', 'constrain', 'transform'):
                    try:
                        W.m(res, 'transform', W.X('later'), W.X(leaf0))
                    except Raised:
                        pass
                    if any(changes(rec) for rec in before):
                        raise Bad('extending the result of %s changes the original' % name)
            R.guard('purity', where, '%s; event %s' % (m.text(), etext(E)), body)


# ---------------------------------------------------------------- simplification
def shared_sum(G, k):
    """mixtures of products with common factors"""
    r = G.r
    kinds = ({'X': REAL, 'Y': REAL}, {'X': REAL, 'N': NOM}, {'X': REAL, 'Y': REAL, 'N': NOM}, {'X': REAL}, {'N': NOM}, {'X': REAL, 'Y': REAL, 'Z': REAL})[k % 6]
    stock = {v: [G.leaf(v, kinds[v], False) for _ in range(2)] for v in kinds}
    n = r.choice((2, 2, 3, 4))
    parts = []
    for i in range(n):
        names = sorted(kinds)
        if i and r.random() < .5:
            r.shuffle(names)
        ps = [r.choice(stock[v]) for v in names]
        parts.append(ps[0] if len(ps) == 1 else Prod(ps))
    if G.p.random() < .1:
        parts, n = parts[:1], 1                                  # a mixture of one
    elif len(kinds) == 1 and G.p.random() < .25:
        parts = parts[:1] * n                                    # all components equal
    return kinds, Sum(list(zip(G.simplex(range(n), 0).values(), parts)))


@split_cases('simplification', 61, 200, 4000, 200)
def run_simplify(R, G, k):
    W = R.W
    c = case(R, G, k, shared_sum)
    if c is None:
        return
    kinds, m, vs, comps, o = c
    probes = [G.event(vs, kinds, d) for d in (0, 0, 1, 1, 2)]

    def f():
        s = W.call(W['spe_simplify_sum'], o)
        for E in probes:
            same(W.m(s, 'logprob', W.event(E, kinds, vs)), measure(comps, E, vs), 'after simplification the log-probability of %s' % etext(E))
        if {t for t in map(str, symbols(W, s))} != set(vs):
            raise Bad('the simplified model has other variables')
    R.guard('simplify', 'spe.spe_simplify_sum', m.text(), f)


@split_cases('sharing', 67, 200, 4000, 200)
def run_sharing(R, G, k):
    W = R.W
    G.pool, G.share = ({} if k // len(VARS) % 3 else None), .5
    c = case(R, G, k, (models, shared_sum)[k % 2])
    if c is None:
        return
    kinds, m, vs, comps, o = c
    probes = [G.event(vs, kinds, d) for d in (0, 0, 1, 1)]

    def f():
        box = W.model(m)
        s = W.call(W['spe_cache_duplicate_subtrees'], box, {})
        for E in probes:
            same(W.m(s, 'logprob', W.event(E, kinds, vs)), measure(comps, E, vs), 'after sharing the log-probability of %s' % etext(E))
        if not (s == o) or not (o == s) or hash(s) != hash(o):
            raise Bad('the shared model is not equal to the original')
    R.guard('sharing', 'spe.spe_cache_duplicate_subtrees', m.text(), f)


@split_cases('mutual-information', 71, 200, 3000, 200)
def run_mi(R, G, k):
    """mutual information of two events is the sum over the four cells of p log (p / (p_A p_B))"""
    W = R.W
    c = case(R, G, k)
    if c is None:
        return
    kinds, m, vs, comps, o = c
    for j in range(4):
        A, B = G.event(vs, kinds, j % 2), G.event(vs, kinds, j // 2)
        if j == 3 and k % 3 == 0:
            B = A

        def f():
            got = W.m(o, 'mutual_information', W.event(A, kinds, vs), W.event(B, kinds, vs), *([W.call(W['Memo'])] if j == 2 else []))
            a, b = measure(comps, A, vs), measure(comps, B, vs)
            tot, n = 0., 0
            for X, pa in ((A, a), (('not', A), ONE - a)):
                for Y, pb in ((B, b), (('not', B), ONE - b)):
                    p = measure(comps, ('and', X, Y), vs)
                    if p.f:
                        tot += p.w * math.log(p.w / (pa.w * pb.w))
            g = got.w if isinstance(got, Lin) else val(got).w if val(got) is not NotImplemented else math.log(got.v.w) if isinstance(got, LogP) and got.v.f else None
            if g is None:
                raise Bad('the mutual information is %r' % (got,))
            if abs(g - tot) > 1e-7 * max(1, abs(tot)):
                raise Bad('the mutual information is %.6g where the definition gives %.6g (at the witness valuation)' % (g, tot))
        R.guard('mutual information', 'spe.SPE.mutual_information', '%s, events %s and %s' % (m.text(), etext(A), etext(B)), f)
