"""Sampling as exact enumeration.

The sampling methods are interpreted over abstract models with a recording random generator whose discrete choices (choice, shuffle,
permutation, multinomial, ...) are enumerated exhaustively, each outcome carrying its formal probability; draws from a law are fresh
indeterminates that remember their law.  The law of the list of samples so obtained, as a table {list of samples: rational function of the
masses}, is compared with the law the model denotes: N independent assignments to exactly the requested variables.  Every draw must come
from the generator that was supplied.
"""
import itertools
import math
import random

from .absint import HOST, INF, Abstract, Raised, Unsupported
from .measure import (DISC, NOM, ONE, PR, REAL, ZERO, Bad, Fake, Gen, Leaf, LogP, Prod, Run, Sum, Val, Vec, World, etext, fork_map, law, leaves, logp, split_cases, val)
from .setalg import IDX, NR, POS, interval

LIMIT = 260                 # outcomes enumerated per case


class TooMany(Exception):
    pass


class Draw(Abstract):
    """a value drawn from a law (by rvs, or as quantile of q), or computed from such values"""
    visible = ('item',)

    def __init__(self, name, key):
        self.name, self.key = name, key

    def item(self):
        return self

    def isinf(self):
        return False

    def __repr__(self):
        return self.name


class Oracle:
    """one path through the tree of discrete random choices"""

    def __init__(self, script):
        self.script, self.used, self.prob = script, [], ONE

    def pick(self, options):
        """options: [(probability, value)]; zero probabilities are not explored"""
        options = [(p, v) for p, v in options if p.f]
        if not options:
            raise ValueError('probabilities do not sum to 1')
        i = len(self.used)
        k = self.script[i][0] if i < len(self.script) else 0
        self.used.append((k, len(options)))
        self.prob = self.prob * options[k][0]
        return options[k][1]


class Rng(Abstract):
    """numpy.random or a numpy.random.RandomState"""
    visible = ('choice', 'shuffle', 'permutation', 'uniform', 'random', 'random_sample', 'rand', 'multinomial', 'permuted')

    def __init__(self, W, name):
        self.W, self.name = W, name

    def use(self):
        self.W.used.add(self.name)

    def isinf(self):
        raise Raised(TypeError('must be real number'))

    def __bool__(self):
        return True

    def __repr__(self):
        return 'generator ' + self.name

    @staticmethod
    def count(size):
        if size is None:
            return None
        if isinstance(size, tuple) and len(size) == 1:
            size = size[0]
        if isinstance(size, bool) or not isinstance(size, int):
            raise Unsupported('size of a sample')
        if size < 0:
            raise ValueError('negative dimensions are not allowed')
        return size

    def each(self, size, f):
        n = self.count(size)
        self.use()
        return f() if n is None else Vec([f() for _ in range(n)])

    def probs(self, n, p):
        if p is None:
            return [ONE / n] * n
        p = [val(x) for x in self.W.it.listing(p)]
        if any(x is NotImplemented for x in p):
            raise Unsupported('probabilities')
        if len(p) != n:
            raise ValueError("'a' and 'p' must have same size")
        if sum(p, ZERO) != ONE or any(x.w < 0 for x in p):
            raise ValueError('probabilities do not sum to 1')
        return p

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, int) else list(self.W.it.listing(a))
        if not replace:
            raise Unsupported('choice without replacement')
        if not a and self.count(size) != 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        ps = self.probs(len(a), p) if a else []
        return self.each(size, lambda: self.W.oracle.pick(list(zip(ps, a))))

    def order(self, n):
        self.use()
        left, out = list(range(n)), []
        while len(left) > 1:
            k = self.W.oracle.pick([(ONE / len(left), i) for i in range(len(left))])
            out.append(left.pop(k))
        return out + left

    def shuffle(self, x):
        if not isinstance(x, list):
            raise Unsupported('shuffle')
        x[:] = [x[i] for i in self.order(len(x))]

    def permutation(self, x):
        xs = list(range(x)) if isinstance(x, int) else list(self.W.it.listing(x))
        return Vec([xs[i] for i in self.order(len(xs))])
    permuted = permutation

    def unit(self):
        self.W.nu += 1
        u = Val(random.Random(self.W.nu * 7919 + 5).randrange(2, PR), .3 + .4 / self.W.nu)
        self.W.units.append(u)
        return u

    def uniform(self, low=0, high=1, size=None):
        if low == 0 and high == 1:
            return self.each(size, self.unit)
        low, high = val(low), val(high)
        if low is NotImplemented or high is NotImplemented:
            raise Unsupported('uniform')
        return self.each(size, lambda: low + (high - low) * self.unit())

    def random_sample(self, size=None):
        return self.each(size, self.unit)
    random = random_sample

    def rand(self, *size):
        return self.random_sample(*size)

    def multinomial(self, n, pvals, size=None):
        if size is not None:
            raise Unsupported('multinomial')
        ps = self.probs(len(list(pvals)), pvals)
        out = [0] * len(ps)
        for i in self.choice(len(ps), self.count(n), p=ps):
            out[i] += 1
        return Vec(out)


class Func(Abstract):
    """the user's function of some of the variables, uninterpreted"""

    def __init__(self, args):
        self.args = list(args)

    def __call__(self, *a, **k):
        if len(a) > len(self.args) or set(k) != set(self.args[len(a):]):
            raise TypeError('unexpected arguments')
        return ('value', tuple(key({**dict(zip(self.args, a)), **k}[n]) for n in self.args))

    def isinf(self):
        raise Raised(TypeError('must be real number'))


def key(v):
    if isinstance(v, Draw):
        return v.key
    if isinstance(v, (str, int, float)):
        return v
    return repr(v)


class Opaque(Abstract):
    """a transform of known variables, uninterpreted"""
    visible = ('evaluate', 'get_symbols', 'symbols')
    serial = 0

    def __init__(self, name, args):
        self.name, self.args = name, args
        self.symbols = frozenset(args)

    def get_symbols(self):
        return self.symbols

    def evaluate(self, assignment):
        xs = []
        for a in self.args:
            if a not in assignment:
                raise Raised(KeyError(a))
            xs.append(assignment[a])
        ks = tuple(key(x) for x in xs)
        d = Draw(self.name + repr(ks), ('of', self.name) + ks)
        d.roots = [r for x in xs for r in getattr(x, 'roots', ())]
        return d

    def isinf(self):
        raise Raised(TypeError('must be real number'))


def quantile(m, ends):
    return ('from', id(m)) if ends == (ZERO.f, ONE.f) else ('quantile', id(m), ends)


class SWorld(World):
    def prepare(self):
        self.used, self.units, self.nu, self.nd, self.oracle = set(), [], 0, 0, None
        self.given = Rng(self, 'supplied')
        self.shared = Rng(self, 'global')
        e = self.it.ext
        e[('numpy', 'random')] = self.shared
        e[('numpy', 'repeat')] = self.repeat

        def spec(f):
            if not isinstance(f, Func):
                raise Unsupported('signature')
            return Fake(args=list(f.args), varargs=None, varkw=None, defaults=None, kwonlyargs=[])

        def signature(f):
            if not isinstance(f, Func):
                raise Unsupported('signature')
            return Fake(parameters={a: None for a in f.args})
        e[('inspect', 'getfullargspec')] = spec
        e[('inspect', 'signature')] = signature

    def repeat(self, a, n):
        a, n = list(self.it.listing(a)), n if isinstance(n, int) else list(self.it.listing(n))
        return Vec([x for i, x in enumerate(a) for _ in range(n if isinstance(n, int) else n[i])])

    def begin(self, script):
        self.oracle = Oracle(script)
        self.used.clear()
        self.units.clear()
        self.nu = self.nd = 0

    def law(self, m):
        f = law(m)

        def fresh(q=None):
            self.nd += 1
            d = Draw('%s#%d' % (m.var, self.nd), None)
            d.roots = [self.nd]
            if q is None:
                d.key = ('from', id(m))
            else:
                q = val(q)
                if q is NotImplemented:
                    raise Unsupported('quantile')
                d.key = quantile(m, self.span(q))
            return d

        def rvs(*a, size=None, random_state=None):
            if len(a) > 2:
                raise Unsupported('rvs')
            if a:
                size = a[0]
            if len(a) == 2:
                random_state = a[1]
            if size is None and not a:
                size = 1
                one = True
            else:
                one = False
            n = Rng.count(size)
            if random_state is None:
                random_state = self.shared
            if not isinstance(random_state, Rng):
                raise Unsupported('random_state')
            random_state.use()
            out = [fresh() for _ in range(n)]
            return out[0] if one else Vec(out)

        def ppf(q):
            return Vec([fresh(x) for x in q]) if isinstance(q, (list, tuple)) else fresh(q)
        kw = {k: getattr(f, k) for k in f.visible}
        return Fake(rvs=rvs, ppf=ppf, **kw)

    def span(self, q):
        """the interval over which q is uniform: q must be affine in exactly one unused unit draw"""
        # q = a + (b - a) u at the fingerprint of u; the ends are found among the masses the leaf can know
        for a, b in self.ends:
            for u in self.units:
                if q == a * u + b * (ONE - u) or q == b * u + a * (ONE - u):
                    self.units.remove(u)
                    return a.f, b.f
        return 'odd', q.f


def part(m, sup):
    """(mass before the restricted support, mass up to its end)"""
    ks = sorted(k for k in m.mass if sup.bits >> IDX[k] & 1)
    lo = sum((p for k, p in m.mass.items() if k < ks[0]), ZERO)
    hi = sum((p for k, p in m.mass.items() if k <= ks[-1]), ZERO)
    return lo, hi


class SGen(Gen):
    """small models for exhaustive enumeration"""
    trunc = 0

    def small(self, vs, depth, n):
        r = self.r
        names = list(vs)
        if len(names) > 1 and (depth == 0 or r.random() < .5):
            r.shuffle(names)
            k = r.randrange(1, len(names))
            return Prod([self.small({v: vs[v] for v in names[:k]}, depth, n), self.small({v: vs[v] for v in names[k:]}, depth, n)])
        if depth == 0 or r.random() < .25:
            return self.leaf1(names[0], vs[names[0]]) if len(names) == 1 else Prod([self.leaf1(v, vs[v]) for v in names])
        ps = [self.small(vs, depth - 1, n) for _ in range(r.choice((2, 2, 3)))]
        return Sum(list(zip(self.simplex(range(len(ps)), 0).values(), ps)))

    def leaf1(self, v, kind):
        l = self.leaf(v, kind, False)
        if kind == NOM:
            l = Leaf(v, NOM, self.simplex('ab', .1), 'nominal')
        return l


def denote(m, W, env):
    """[(probability, {variable: key})] of one sample"""
    if isinstance(m, Sum):
        return [(w * p, d) for w, c in m.parts for p, d in denote(c, W, env)]
    if isinstance(m, Prod):
        out = [(ONE, {})]
        for c in m.parts:
            out = [(p * q, {**d, **e}) for p, d in out for q, e in denote(c, W, env)]
        return out
    if m.kind == NOM:
        return [(p, {m.var: k}) for k, p in m.mass.items() if p.f]
    if m.form == 'atomic':
        k = key(W.num(next(iter(m.mass)), m.kind))
    elif getattr(m, 'cond', None) is not None:
        lo, hi = part(m, m.cond)
        k = quantile(m, (lo.f, hi.f))
    else:
        k = ('from', id(m))
    d = {m.var: k}
    for z, f, args in env.get(m.var, ()):
        d[z] = ('of', f) + tuple(d[a] for a in args)
    return [(ONE, d)]


def enumerate_paths(W, run):
    """[(probability, outcome)] over all discrete random choices"""
    script, out = [], []
    while True:
        W.begin(script)
        W.it.fuel = 400000
        r = run()
        out.append((W.oracle.prob, r))
        if len(out) > LIMIT:
            raise TooMany()
        used = W.oracle.used
        while used and used[-1][0] == used[-1][1] - 1:
            used.pop()
        if not used:
            return out
        script = used[:-1] + [(used[-1][0] + 1, used[-1][1])]


def table(pairs):
    t = {}
    for p, k in pairs:
        t[k] = t.get(k, ZERO) + p
    return {k: v for k, v in t.items() if v.f}


KINDS = [{'X': REAL}, {'X': REAL, 'Y': REAL}, {'X': REAL, 'N': NOM}, {'D': DISC}, {'D': DISC, 'Y': REAL}, {'N': NOM, 'M': NOM}, {'X': REAL, 'Y': REAL, 'N': NOM}]


class SRun(Run):
    def __init__(self, P, prop, rule):
        super().__init__(P, prop, rule)
        self.W = SWorld(P)


def build(R, G, k):
    r = G.r
    W = R.W
    vs = KINDS[k % len(KINDS)]
    m = G.small(vs, (0, 1, 1, 2)[k // len(KINDS) % 4], None)
    env = {}
    for v, kind in vs.items():
        if kind != NOM and r.random() < .4:
            env[v] = [(v + "'", 'f' + v, (v,))]
            if r.random() < .5:
                env[v].append((v + "''", 'g' + v, tuple(r.sample([v, v + "'"], r.choice((1, 2))))))
    for l in leaves(m):
        l.cond = None
        if l.form in ('integer leaf', 'continuous leaf') and r.random() < .45:
            l.cond = restrict(G, l)
    return vs, m, env


def restrict(G, l):
    """an interval meeting the support with positive mass, or None"""
    r = G.r
    for _ in range(8):
        a, b = sorted(r.sample(range(NR), 2))
        s = interval(-INF if r.random() < .25 else a, INF if r.random() < .25 else b, r.choice((None, True)), r.choice((None, True)))
        if any(p.f and s.bits >> IDX[k] & 1 for k, p in l.mass.items()):
            return s
    return None


class Model:
    """an interpreted model with restricted leaves and opaque derived variables"""

    def __init__(self, W, m, env):
        self.W, self.env = W, env

    def make(self, m):
        W = self.W
        if isinstance(m, Sum):
            return W.call(W['SumSPE'], [self.make(p) for w, p in m.parts], [LogP(w) for w, p in m.parts])
        if isinstance(m, Prod):
            return W.call(W['ProductSPE'], [self.make(p) for p in m.parts])
        x = W.X(m.var)
        if m.cond is not None:
            o = W.call(W['DiscreteLeaf' if m.kind == DISC else 'ContinuousLeaf'], x, W.law(m), W.set(m.cond, m.kind), True)
        else:
            o = W.model(m)
        for z, f, args in self.env.get(m.var, ()):
            o = W.m(o, 'transform', W.X(z), Opaque(f, tuple(W.X(a) for a in args)))
        return o


def describe(m):
    if isinstance(m, Leaf):
        return m.text() + (' given ' + m.cond.text() if getattr(m, 'cond', None) is not None else '')
    return '%s(%s)' % ('mixture' if isinstance(m, Sum) else 'product', ', '.join(describe(p[1] if isinstance(p, tuple) else p) for p in m.parts))


@split_cases('law-of-samples', 47, 360, 6000, 120)
def run_sampling(R, G, k):
    if not isinstance(R.W, SWorld):
        R.W = SWorld(R.P)
    G.__class__ = SGen
    W, r = R.W, G.r
    vs, m, env = build(R, G, k)
    want = denote(m, W, env)
    W.ends = [part(l, l.cond) for l in leaves(m) if l.cond is not None] + [(ZERO, ONE)]
    W.begin([])
    o = Model(W, m, env).make(m)
    allvars = sorted({v for p, d in want for v in d})
    ways = ['sample', 'subset', 'subset', 'func']
    how = ways[k % 4] if k % 9 else 'none'
    N = (2, 1, 3, 2, 0)[k // 3 % 5]
    rng = (W.given, W.given, None)[k // 2 % 3]
    sub = r.sample(allvars, r.randrange(1, len(allvars) + 1))
    if how == 'none':
        sub, how = [], 'subset' if k % 2 else 'func'
    where = 'spe.%s.%s' % (o.cls.name, {'sample': 'sample', 'subset': 'sample_subset', 'func': 'sample_func'}[how])
    text = '%d samples%s of %s%s' % (N, {'sample': '', 'subset': ' of %s' % ', '.join(sub), 'func': ' of a function of (%s)' % ', '.join(sub)}[how], describe(m),
                                    ' with derived %s' % ', '.join('%s = %s(%s)' % (z, f, ', '.join(a)) for v in env.values() for z, f, a in v) if env else '')

    def once():
        kw = {} if rng is None else {'prng': rng}
        if how == 'sample':
            out = W.m(o, 'sample', N, **kw)
        elif how == 'subset':
            arg = [W.X(v) for v in sub]
            arg = (arg, frozenset(arg), tuple(arg), set(arg))[k % 4]
            out = W.m(o, 'sample_subset', arg, N, **kw)
        else:
            out = W.m(o, 'sample_func', Func([v for v in sub]), N, **kw)
        if not isinstance(out, (list, tuple)):
            raise Unsupported('samples are not a list')
        if rng is not None and 'global' in W.used:
            raise Bad('a random choice is drawn from the global generator although one was supplied')
        if len(out) != N:
            raise Bad('%d samples are returned where %d were asked for' % (len(out), N))
        if how == 'func':
            return tuple(x[1] if isinstance(x, tuple) and x[:1] == ('value',) else ('?', repr(x)) for x in out)
        seen, res = {}, []
        for i, d in enumerate(out):
            if not isinstance(d, dict):
                raise Bad('a sample is not an assignment')
            names = sorted(str(z) if isinstance(z, str) else W.it.attr(z, 'token') for z in d)
            need = sorted(allvars if how == 'sample' else sub)
            if names != need:
                raise Bad('a sample assigns %s where %s were asked for' % (', '.join(names) or 'nothing', ', '.join(need)))
            for j in range(i):
                if out[j] is d:
                    raise Bad('two samples are the same dictionary')
            for z, v in d.items():
                for x in getattr(v, 'roots', ()):
                    if seen.setdefault(x, i) != i:
                        raise Bad('two samples share one draw')
            res.append(tuple(key({W.it.attr(z, 'token'): v for z, v in d.items()}[n]) for n in need))
        return tuple(res)

    def decide():
        try:
            got = table(enumerate_paths(W, once))
        except TooMany:
            R.rep.count('not enumerated')
            raise Unsupported('too many outcomes')
        order = sub if how == 'func' else sorted(allvars if how == 'sample' else sub)
        one = table((p, tuple(d[v] for v in order)) for p, d in want)
        full = table(
            (math.prod((p for _, p in c), start=ONE), tuple(x for x, _ in c)) for c in itertools.product(one.items(), repeat=N))
        for s in set(got) | set(full):
            a, b = got.get(s, ZERO), full.get(s, ZERO)
            if a != b:
                raise Bad('the samples %s have probability %.4g where the model gives %.4g' % (stext(s), a.w, b.w))

    R.guard('law-of-samples', where, text, decide)


def stext(s):
    def t(x):
        if isinstance(x, tuple) and x:
            if x[0] == 'from':
                return 'draw'
            if x[0] == 'quantile':
                return 'odd quantile' if isinstance(x[2][0], str) else 'restricted draw'
            if x[0] == 'of':
                return '%s(%s)' % (x[1], ', '.join(map(t, x[2:])))
        return str(x)
    return '[%s]' % ', '.join('(%s)' % ', '.join(map(t, d)) for d in s)
