"""The registry of distributions (C22) and weighting of distributions (C16).

src/distributions.py is interpreted with symbolic keyword parameters (elements of the field of rational functions in the parameters, kept as a
prime-field fingerprint with a witness that fixes signs and order); the leaf that each constructor builds is compared with what scipy's own
declaration of the law says: `name = name_gen(a=.., b=..)` for constant supports (read from the scipy source), and the table SUPPORT for supports
that depend on parameters (scipy's _get_support).
"""
import ast
import glob
import math
import os
import random

from .absint import HOST, INF, Abstract, Frame, Interp, Obj, Raised, Sym, Unsupported
from .measure import PR, const
from .report import Report


class Num(Abstract):
    """a symbolic number: fingerprint, witness, integer or not"""
    __slots__ = ('f', 'w', 'i')
    number = True

    def __init__(self, f, w, i=False):
        self.f, self.w, self.i = f % PR, w, i

    def isinf(self):
        return False

    def _bin(op):
        def f(self, o):
            if isinstance(o, float) and math.isinf(o):
                s = 1 if o > 0 else -1
                if op == '*':
                    if self.f == 0:
                        raise Unsupported('0 * inf')
                    return o if self.w > 0 else -o
                return {'+': o, '-': -o, 'r-': o, '/': 0.0, 'r/': o if self.w > 0 else -o}[op]
            o = num(o)
            if o is NotImplemented:
                return o
            if op == '+':
                return Num(self.f + o.f, self.w + o.w, self.i and o.i)
            if op == '-':
                return Num(self.f - o.f, self.w - o.w, self.i and o.i)
            if op == 'r-':
                return Num(o.f - self.f, o.w - self.w, self.i and o.i)
            if op == '*':
                return Num(self.f * o.f, self.w * o.w, self.i and o.i)
            a, b = (self, o) if op == '/' else (o, self)
            if not b.f:
                raise ZeroDivisionError('division by zero')
            return Num(a.f * pow(b.f, PR - 2, PR), a.w / b.w)
        return f
    __add__ = __radd__ = _bin('+')
    __sub__, __rsub__, __truediv__, __rtruediv__ = _bin('-'), _bin('r-'), _bin('/'), _bin('r/')
    __mul__ = __rmul__ = _bin('*')

    def __neg__(self):
        return Num(-self.f, -self.w, self.i)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self.w >= 0 else -self

    def _cmp(self, o):
        if isinstance(o, float) and math.isinf(o):
            return -1 if o > 0 else 1
        o = num(o)
        if o is NotImplemented:
            raise Unsupported('comparison of a parameter')
        if self.f == o.f:
            return 0
        if abs(self.w - o.w) < 1e-9:
            raise Unsupported('order of close parameters')
        return -1 if self.w < o.w else 1

    def __eq__(self, o):
        if isinstance(o, (str, tuple, list, dict, set, frozenset, Obj)) or o is None:
            return False
        return self._cmp(o) == 0

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __hash__(self):
        return hash(self.f)

    def __bool__(self):
        return self.f != 0

    def __repr__(self):
        return '%.4g' % self.w


def num(x):
    if isinstance(x, Num):
        return x
    if not isinstance(x, (int, float)):
        return NotImplemented
    if isinstance(x, int):
        return Num(int(x), float(x), True)
    if math.isnan(x) or math.isinf(x):
        return NotImplemented
    n, d = x.as_integer_ratio()
    return Num(n * pow(d, PR - 2, PR), x, d == 1)


PI = Num(const('pi'), math.pi)


def fresh(r, lo, hi, integer=False):
    w = float(r.randrange(math.ceil(lo), math.floor(hi) + 1)) if integer else r.uniform(lo, hi)
    return Num(r.randrange(1, PR), w, integer)


class Law(Abstract):
    """scipy.stats.<name>"""
    visible = ('name',)

    def __init__(self, name):
        self.name = name

    def isinf(self):
        raise Raised(TypeError('must be real number'))

    def __call__(self, *a, **k):
        return Frozen(self.name, a, k)

    def __repr__(self):
        return 'scipy.stats.' + self.name


class Frozen(Abstract):
    visible = ('freeze',)

    def __init__(self, name, args, kwds):
        self.name, self.args, self.kwds = name, args, kwds

    def isinf(self):
        raise Raised(TypeError('must be real number'))

    def freeze(self, *a, **k):
        return Frozen(self.name, a, k) if a or k else self

    def __repr__(self):
        return 'scipy.stats.%s(%s)' % (self.name, ', '.join([repr(a) for a in self.args] + ['%s=%r' % t for t in sorted(self.kwds.items())]))


class Stats(Abstract):
    def isinf(self):
        raise Raised(TypeError('must be real number'))


class Made(Abstract):
    """a leaf or mixture that was built"""
    def __init__(self, kind, a, k):
        self.kind, self.a, self.k = kind, a, k

    def isinf(self):
        raise Raised(TypeError('must be real number'))

    def arg(self, i, n, default=None):
        return self.a[i] if len(self.a) > i else self.k.get(n, default)


# ---------------------------------------------------------------- what scipy declares
def scipy_laws():
    """-> {name: (continuous?, a, b, shape names, has _get_support)} from scipy's source"""
    out = {}
    for cont, f in ((True, '_continuous_distns.py'), (False, '_discrete_distns.py')):
        for path in glob.glob('/opt/venv/lib/*/site-packages/scipy/stats/' + f):
            tree = ast.parse(open(path).read())
            classes = {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}

            def const_(e):
                if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
                    return e.value
                if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
                    return -const_(e.operand)
                if isinstance(e, ast.BinOp):
                    a, b = const_(e.left), const_(e.right)
                    return a * b if isinstance(e.op, ast.Mult) else a / b
                if isinstance(e, ast.Attribute) and e.attr in ('pi', 'inf'):
                    return PI if e.attr == 'pi' else INF
                raise Unsupported(ast.dump(e))

            def find(c, names):
                while c is not None:
                    for n in c.body:
                        if isinstance(n, ast.FunctionDef) and n.name in names:
                            return n
                    c = next((classes[b.id] for b in c.bases if isinstance(b, ast.Name) and b.id in classes), None)
                return None
            for n in tree.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) \
                        and isinstance(n.value.func, ast.Name) and n.value.func.id in classes:
                    kw = {k.arg: k.value for k in n.value.keywords}
                    a = const_(kw['a']) if 'a' in kw else (-INF if cont else 0)
                    b = const_(kw['b']) if 'b' in kw else INF
                    cls = classes[n.value.func.id]
                    m = find(cls, ('_pdf', '_pmf', '_logpdf', '_logpmf', '_cdf'))
                    shapes = [x.arg for x in m.args.args[2:]] if m else []
                    out[n.targets[0].id] = (cont, a, b, shapes, find(cls, ('_get_support',)) is not None)
    return out


def S(f, *regimes):
    return f, [dict(r) for r in regimes]


POSP, NEGP = (0.2, 3.0), (-3.0, -0.2)
# supports that depend on the parameters: f(params) -> (a, b) ; regimes {param: (low, high[, 'int']) or constant}
SUPPORT = {
    'genpareto': S(lambda p: (0, INF if p['c'] >= 0 else -1 / p['c']), {'c': POSP}, {'c': NEGP}, {'c': 0.0}),
    'genextreme': S(lambda p: (-INF if p['c'] >= 0 else 1 / p['c'], INF if p['c'] <= 0 else 1 / p['c']), {'c': POSP}, {'c': NEGP}, {'c': 0.0}),
    'genhalflogistic': S(lambda p: (0, 1 / p['c']), {'c': POSP}),
    'kappa4': S(lambda p: (-INF if p['k'] >= 0 else 1 / p['k'], 1 / p['k'] if p['k'] > 0 else INF), {'h': NEGP, 'k': POSP}, {'h': NEGP, 'k': NEGP}, {'h': NEGP, 'k': 0.0}),
    'loguniform': S(lambda p: (p['a'], p['b']), {'a': (0.1, 1), 'b': (2, 5)}),
    'reciprocal': S(lambda p: (p['a'], p['b']), {'a': (0.1, 1), 'b': (2, 5)}),
    'truncexpon': S(lambda p: (0, p['b']), {'b': POSP}),
    'truncnorm': S(lambda p: (p['a'], p['b']), {'a': (-3, -1), 'b': (-.5, 5)}, {'a': (1, 2), 'b': (3, 5)}),
    'vonmises': S(lambda p: (-PI, PI), {'kappa': POSP}),
    'binom': S(lambda p: (0, p['n']), {'n': (2, 9, 'int'), 'p': (.1, .9)}),
    'bernoulli': S(lambda p: (0, 1), {'p': (.1, .9)}),
    'betabinom': S(lambda p: (0, p['n']), {'n': (2, 9, 'int'), 'a': POSP, 'b': POSP}),
    'hypergeom': S(lambda p: (max(p['N'] - (p['M'] - p['n']), 0), min(p['n'], p['N'])),
                   {'M': (20, 30, 'int'), 'n': (4, 7, 'int'), 'N': (8, 11, 'int')}, {'M': (20, 30, 'int'), 'n': (8, 11, 'int'), 'N': (4, 7, 'int')},
                   {'M': (20, 22, 'int'), 'n': (14, 16, 'int'), 'N': (17, 19, 'int')}, {'M': (20, 22, 'int'), 'n': (17, 19, 'int'), 'N': (14, 16, 'int')}),
    'boltzmann': S(lambda p: (0, p['N'] - 1), {'lambda_': POSP, 'N': (2, 9, 'int')}),
    'randint': S(lambda p: (p['low'], p['high'] - 1), {'low': (-9, 0, 'int'), 'high': (1, 9, 'int')}, {'low': (2, 5, 'int'), 'high': (6, 9, 'int')}),
}
ALIAS = {'normal': 'norm', 'trapezoid': 'trapz', 'reciprocal': 'loguniform'}
SPECIAL = ('atomic', 'rv_discrete', 'uniformd', 'discrete')
CIRCULAR = ('vonmises',)          # a law on the circle: any full period is its support, loc and scale do not move it


class Registry:
    def __init__(self, P):
        it = self.it = Interp(P, fuel=100000)
        it.free = True
        it.ext[('sympy', 'pi')] = PI
        it.ext[('sympy', 'oo')] = INF
        it.ext[('math', 'pi')] = it.ext[('numpy', 'pi')] = PI
        it.ext[('math', 'log')] = it.ext[('numpy', 'log')] = lambda x: Sym('log', x)

        class AllStats(Stats):
            visible = type('V', (), {'__contains__': lambda s, n: not n.startswith('_')})()

            def __getattr__(s, n):
                if n.startswith('_'):
                    raise AttributeError(n)
                return Law(n)
        st = AllStats()
        it.ext[('scipy', 'stats')] = st

        orig = it.attr

        def attr(o, n):         # scipy.stats reached as attribute of the module scipy
            if isinstance(o, AllStats):
                return Law(n)
            return orig(o, n)
        it.attr = attr

        old_int, old_float = it.builtins['int'], it.builtins['float']

        def int_(x=0, *a):
            if isinstance(x, Num):
                return x if x.i else Num(const(('int', x.f)), float(int(x.w)), True)
            return old_int(x, *a)

        def float_(x=0.0):
            if isinstance(x, (Law, Frozen, Made)):
                raise TypeError('float of %r' % x)
            return x if isinstance(x, Num) else old_float(x)
        it.builtins.update({'int': int_, 'float': float_})
        it.kinds.update({id(int_): int, id(float_): float})
        spe = {}
        for n in ('ContinuousLeaf', 'DiscreteLeaf', 'NominalLeaf', 'AtomicLeaf', 'SumSPE'):
            def make(*a, _n=n, **k):
                return Made(_n, a, k)
            spe[n] = make
        self.real_spe = it.mods.get('spe')
        it.mods['spe'] = Frame(None, 'spe', spe)
        it.module('sets')
        self.fr = it.module('distributions')

    def call(self, f, *a, **k):
        self.it.fuel = 100000
        return self.it.call(f, a, k)


class Wrong(Exception):
    pass


def covers(R, dom, a, b, discrete):
    """does the registered domain contain [a, b]?"""
    it = R.it
    if not (isinstance(dom, Obj) and dom.cls.name == 'Interval'):
        raise Wrong('the support is %r, not an interval' % (dom,))
    l, r = it.attr(dom, 'left'), it.attr(dom, 'right')
    lo, ro = it.attr(dom, 'left_open'), it.attr(dom, 'right_open')

    def le(x, y):
        if isinstance(x, float) and math.isinf(x) or isinstance(y, float) and math.isinf(y):
            x = x.w if isinstance(x, Num) else x
            y = y.w if isinstance(y, Num) else y
            return x <= y
        return num(x) <= y

    def integral(x):
        return isinstance(x, (int, float)) and not math.isinf(x) and float(x).is_integer() or isinstance(x, Num) and x.i

    def down(x, o, d):
        if discrete and o and integral(x):
            return x + d
        return x
    if not le(down(l, lo, 1), a):
        raise Wrong('the support starts at %s%r, the law at %r' % ('(' if lo else '[', l, a))
    if not le(b, down(r, ro, -1)):
        raise Wrong('the support ends at %r%s, the law at %r' % (r, ')' if ro else ']', b))


def run(P, prop, tier):
    rep = Report('distribution-registry')
    und = {}
    try:
        R = Registry(P)
    except Raised as e:
        rep.missing.append('distributions: %r' % (e.exc,))
        rep.floor = 100
        return rep
    it = R.it
    laws = scipy_laws()
    if not laws:
        rep.missing.append('scipy source not found')
    path = P.modules['distributions'].path
    Base = R.fr.vars.get('RealDistribution')
    names = [n for n, v in R.fr.vars.items() if hasattr(v, 'mro') and Base in v.mro() and it_dist(v) is not None]

    def guard(name, what, f):
        rep.begin(it)
        try:
            bad = f()
        except Unsupported as e:
            und[str(e)] = und.get(str(e), 0) + 1
            return
        except Wrong as e:
            bad = str(e)
        except Raised as e:
            if isinstance(e.exc, (TypeError, AttributeError, NameError)) and not e.where:
                k = '%s: %s' % (type(e.exc).__name__, e.exc)
                und[k] = und.get(k, 0) + 1
                return
            bad = 'raises %s' % type(e.exc).__name__
        except HOST as e:
            k = 'host %s: %s' % (type(e).__name__, e)
            und[k] = und.get(k, 0) + 1
            return
        rep.took(it)
        rep.functions.add('distributions.' + name)
        if bad and sum(x.construct == 'distributions.' + name for x in rep.findings) < 2:
            rep.find('distributions.' + name, path, '%s: %s' % (what, bad))
        elif len(rep.samples) < 6 and rep.instances % 97 == 5:
            rep.samples.append({'case': what, 'verdict': 'as defined'})

    if prop == 'C22':
        seeds = 4 if tier == 'quick' else 20
        for n in names:
            if n in SPECIAL:
                continue
            ref = ALIAS.get(n, n)
            if n not in laws and ref not in laws:
                continue                        # a name scipy does not have: another module's business
            cont, a0, b0, shapes, dep = laws[n if n in laws else ref]
            if n in SUPPORT:
                f, regimes = SUPPORT[n]
            elif dep and ref not in SUPPORT:
                und['support of %s depends on its parameters' % n] = 1
                continue
            else:
                f, regimes = SUPPORT.get(ref, S(lambda p: (a0, b0), {}))
            for reg in regimes:
                for hasloc in (0, 1):
                    for hasscale in ((0, 1) if cont else (0,)):
                        for s in range(seeds):
                            if n in CIRCULAR and (hasloc or hasscale):
                                continue
                            check(R, guard, n, ref, cont, f, reg, shapes, hasloc, hasscale, s)
        special(R, guard, seeds)
        for al, target in R.fr.vars.items():
            if al in ALIAS and hasattr(target, 'mro'):
                guard(al, '%s is %s' % (al, target.name), lambda: None if target.name == ALIAS[al] or target.name == al else 'expected ' + ALIAS[al])
        rep.floor = 500
    else:
        mixtures(R, guard, 40 if tier == 'quick' else 400)
        rep.floor = 20
    rep.undecided += ['%d cases: %s' % (v, k) for k, v in und.items()]
    rep.count('distributions', len(names))
    return rep


def it_dist(c):
    try:
        return c.find('dist')
    except Exception:
        return None


def check(R, guard, n, ref, cont, f, reg, shapes, hasloc, hasscale, s):
    r = random.Random('%s%s%s%s%s' % (n, sorted(reg.items()), hasloc, hasscale, s))
    p = {}
    for k in list(shapes) + [k for k in reg if k not in shapes]:
        v = reg.get(k, POSP)
        p[k] = fresh(r, v[0], v[1], len(v) > 2) if isinstance(v, tuple) else v
    kw = dict(p)
    loc, scale = 0, 1
    if hasloc:
        loc = kw['loc'] = fresh(r, *((-20, -1), (1, 20))[s % 2], not cont)
    if hasscale:
        scale = kw['scale'] = fresh(r, *((.3, .9), (1.2, 9))[s // 2 % 2])
    what = '%s(%s)' % (n, ', '.join('%s=%r' % t for t in kw.items()))

    def go():
        x = Sym('symbol')
        m = R.call(R.call(R.fr.vars[n], **kw), x)
        leaf(m, x, 'ContinuousLeaf' if cont else 'DiscreteLeaf')
        d = m.arg(1, 'dist')
        if not isinstance(d, Frozen):
            raise Unsupported('law of the leaf')
        if d.name not in (n, ref) and ALIAS.get(d.name) != n:
            raise Wrong('the law is scipy.stats.%s' % d.name)
        if d.args:
            raise Unsupported('positional parameters')
        same_kw(d.kwds, kw)
        a, b = f(p)
        covers(R, m.arg(2, 'support'), at(a, loc, scale), at(b, loc, scale), not cont)
    guard(n, what, go)


def at(a, loc, scale):
    if isinstance(a, float) and math.isinf(a):
        return a
    return a * scale + loc


def leaf(m, x, kind):
    if not isinstance(m, Made):
        raise Unsupported('result of the constructor')
    if m.kind != kind:
        raise Wrong('builds a %s' % m.kind)
    if m.arg(0, 'symbol') != x:
        raise Wrong('the leaf is not over the given symbol')
    if m.arg(3, 'conditioned') or m.arg(4, 'env'):
        raise Wrong('the leaf is built as conditioned or with derived variables')


def same_kw(got, want):
    if set(got) != set(want):
        raise Wrong('scipy receives the parameters %s, given were %s' % (sorted(got), sorted(want)))
    for k in want:
        if got[k] != want[k]:
            raise Wrong('scipy receives %s=%r, given was %r' % (k, got[k], want[k]))


def special(R, guard, seeds):
    v = R.fr.vars
    for s in range(seeds * 4):
        r = random.Random('special%d' % s)
        x = Sym('symbol')
        if 'atomic' in v:
            loc = fresh(r, -9, 9, True)

            def go():
                m = R.call(R.call(v['atomic'], loc=loc), x)
                leaf(m, x, 'DiscreteLeaf')
                d = m.arg(1, 'dist')
                if d.name != 'randint':
                    raise Unsupported('law of an atom')
                same_kw(d.kwds, {'low': loc, 'high': loc + 1})
                covers(R, m.arg(2, 'support'), loc, loc, True)
            guard('atomic', 'atomic(loc=%r)' % loc, go)
        n = r.choice((1, 2, 3, 4))
        xk = []
        while len(xk) < n:
            k = fresh(r, -30, 30, True)
            if all(abs(k.w - y.w) >= 1 for y in xk):
                xk.append(k)
        pk = [fresh(r, .05, 1) for _ in xk]

        def atoms(m, probs):
            leaf(m, x, 'DiscreteLeaf')
            d = m.arg(1, 'dist')
            if not isinstance(d, Frozen) or d.name != 'rv_discrete':
                raise Unsupported('law of a table')
            if set(d.kwds) != {'values'} or d.args:
                raise Wrong('scipy receives the parameters %s' % sorted(d.kwds))
            a, b = d.kwds['values']
            a, b = list(R.it.listing(a)), list(R.it.listing(b))
            got, want = list(zip(a, b)), list(zip(xk, probs))
            if len(a) != len(b) or len(got) != len(want) or any(all(p[0] != q[0] or p[1] != q[1] for q in want) for p in got):
                raise Wrong('scipy receives the table %r, expected %r' % (got, want))
            dom = m.arg(2, 'support')
            covers(R, dom, min(xk, key=lambda t: t.w), max(xk, key=lambda t: t.w), True)
        tab = ', '.join('%r: %r' % t for t in zip(xk, pk))
        if 'rv_discrete' in v:
            guard('rv_discrete', 'rv_discrete(values={%s})' % tab, lambda: atoms(R.call(R.call(v['rv_discrete'], values=(tuple(xk), tuple(pk))), x), pk))
        if 'discrete' in v:
            guard('discrete', 'discrete({%s})' % tab, lambda: atoms(R.call(R.call(v['discrete'], dict(zip(xk, pk))), x), pk))
        if 'uniformd' in v:
            guard('uniformd', 'uniformd(values=%r)' % (xk,), lambda: atoms(R.call(R.call(v['uniformd'], values=list(xk)), x), [1. / n] * n))
        if 'choice' in v:
            tabn = {'abcd'[i]: p for i, p in enumerate(pk)}

            def go():
                m = R.call(R.call(v['choice'], dict(tabn)), x)
                leaf(m, x, 'NominalLeaf')
                if dict(m.arg(1, 'dist')) != tabn:
                    raise Wrong('the leaf has the table %r' % (m.arg(1, 'dist'),))
            guard('NominalDistribution', 'choice(%r)' % tabn, go)


def mixtures(R, guard, n):
    """w1*d1 | w2*d2 | ... on a variable"""
    v = R.fr.vars
    if any(k not in v for k in ('norm', 'poisson', 'choice')):
        raise Unsupported('distributions')
    for s in range(n):
        r = random.Random('mix%d' % s)
        k = r.choice((1, 2, 2, 3, 4))
        ws = [fresh(r, .05, .9 / k) for _ in range(k)]
        kind = ('good', 'good', 'one', 'over', 'weight0', 'weight1', 'negative')[s % 7]
        if kind == 'one' and k > 1:
            t = num(1)
            for w in ws[:-1]:
                t = t - w
            ws[-1] = t
        elif kind == 'over':
            k = max(k, 2)
            ws = [fresh(r, 1.1 / k, .9) for _ in range(k)]
        elif kind == 'weight0':
            ws[-1] = r.choice((0, 0.0))
        elif kind == 'weight1':
            ws[-1] = r.choice((1, 1.5, 1.0))
        elif kind == 'negative':
            ws[-1] = -fresh(r, .1, .9)

        def build():
            parts = [R.call(v['norm'], loc=fresh(r, -9, 9)) if r.random() < .6 else R.call(v['poisson'], mu=fresh(r, 1, 9)) for _ in ws]
            x = Sym('symbol')

            def make():
                ps = [w * d for w, d in zip(ws, parts)]
                while len(ps) > 1:
                    i = r.randrange(len(ps) - 1)
                    ps[i:i + 2] = [ps[i] | ps[i + 1]]
                return ps[0]
            m = R.call(R.call(make), x)
            if not isinstance(m, Made) or m.kind != 'SumSPE':
                raise Unsupported('mixture')
            cs, lw = list(m.arg(0, 'children')), list(m.arg(1, 'weights'))
            if len(cs) != len(ws) or len(lw) != len(ws):
                raise Wrong('the mixture has %d components and %d weights for %d distributions' % (len(cs), len(lw), len(ws)))
            want = [R.call(d, x) for d in parts]

            def key(c, w):
                return repr(c.arg(1, 'dist')), w
            got = sorted((key(c, w) for c, w in zip(cs, lw)), key=repr)
            exp = sorted((key(c, Sym('log', w)) for c, w in zip(want, ws)), key=repr)
            if got != exp:
                raise Wrong('the mixture pairs %s, expected %s' % (got, exp))

        def ok():
            build()

        def bad():
            try:
                build()
            except Raised as e:
                if isinstance(e.exc, (ValueError, AssertionError)):
                    return
                raise
            except Unsupported as e:
                if 'log' in str(e):
                    return
                raise
            raise Wrong('is accepted')
        text = ' | '.join('%r*d%d' % (w, i) for i, w in enumerate(ws))
        guard('DistributionMix' if kind in ('good', 'one', 'over') else 'Distribution', text, ok if kind in ('good', 'one') else bad)
