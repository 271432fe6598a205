"""Construction of models: what is refused, and what the accepted ones denote.

Terms of the model-building operators (weighting, mixing, products, the constructors themselves, adding derived variables) are interpreted on
abstract leaves with formal weights.  The definition of well-formedness decides which terms must fail; every other term must succeed, have
exactly the variables of its parts, and give every event the probability of the weighted sum or product it was written as.
"""
import functools
import itertools
import operator

from .absint import INF, Raised, Tok, Unsupported, rank_of
from .measure import DISC, MID, NOM, NR, ONE, REAL, ZERO, Bad, ExprWorld, LogP, Prod, Sum, Val, cells, etext, holds, measure, same, split_cases, symbols, val
from .setalg import interval, real


class Ill(Exception):
    """the term is ill-formed"""


KINDS = {'X': REAL, 'Y': REAL, 'N': NOM, 'D': DISC}
REFUSED = (ValueError, TypeError, AssertionError)


class Part:
    def __init__(self, vs, total, parts):
        self.vs, self.total, self.parts = vs, total, parts


class Terms:
    def __init__(self, G):
        self.G, self.r, self.p = G, G.r, G.p

    def weight(self):
        """a number strictly between 0 and 1"""
        return Val(self.p.randrange(2, 1 << 60), self.p.uniform(.05, .9))

    def weights(self, n, bad=.3):
        w = list(self.G.simplex(range(n), 0).values())
        if self.r.random() < bad:
            i = self.r.randrange(n)
            x = self.weight()
            w[i] = Val(w[i].f * x.f, w[i].w * self.r.choice((.3, .6)) if self.r.random() < .5 else w[i].w + .2)
        return w

    def vs(self):
        r = self.r
        return tuple(sorted(r.sample(sorted(KINDS), r.choice((1, 1, 2)))))

    def spe(self, vs, d):
        r = self.r
        if d == 0 or r.random() < .2:
            ls = [('leaf', self.G.leaf(v, KINDS[v], False)) for v in vs]
            return ls[0] if len(ls) == 1 else ('prod', ls)
        u = r.random()
        if u < .35:
            n = r.choice((1, 2, 2, 3))
            return ('sum', [self.spe(self.other(vs), d - 1) for _ in range(n)], [LogP(w) for w in self.weights(n)] + ([LogP(self.weight())] if r.random() < .05 else []))
        if u < .65:
            n = r.choice((2, 2, 3))
            t = None
            for w in self.weights(n):
                s = ('scale', self.spoil(w), self.spe(self.other(vs), d - 1), r.random() < .5)
                t = s if t is None else ('or', t, s)
            return t
        if len(vs) > 1 or r.random() < .3:
            a, b = (vs[:1], vs[1:] or vs)
            return (r.choice(('and', 'prod')),) + ((lambda x, y: (x, y))(self.spe(a, d - 1), self.spe(b, d - 1)))
        return self.spe(vs, d - 1)

    def other(self, vs):
        return self.vs() if self.r.random() < .06 else vs

    def spoil(self, w):
        r = self.r
        if r.random() > .08:
            return w
        return r.choice([0, 1, ZERO, ONE, -w, w + 1, 2, -1, 'a', None])

    def odd(self):
        """an operator applied to what it is not for"""
        r = self.r
        vs = self.vs()
        a, b = self.spe(vs, 0), self.spe(self.vs(), 0)
        w = self.weight()
        pa = ('scale', w, a, True)
        return r.choice([('or', pa, b), ('or', b, pa), ('or', a, b), ('and', pa, b), ('and', b, pa), ('scale', w, pa, r.random() < .5), pa, ('and', pa, pa),
                         ('or', pa, ('scale', self.weight(), a, False))])


def norm(t):
    if t[0] in ('and', 'prod') and len(t) == 3:
        return (t[0], [t[1], t[2]])
    return t


def denote(t):
    """-> model specification with comps() or Part; raises Ill"""
    t = norm(t)
    k = t[0]
    if k == 'leaf':
        return t[1]
    if k in ('prod', 'and'):
        ms = [denote(x) for x in t[1]]
        if any(isinstance(m, Part) for m in ms):
            raise Ill('an incomplete mixture in a product')
        vs = [v for m in ms for v in m.vars()]
        if len(set(vs)) < len(vs):
            raise Ill('factors sharing a variable')
        return Prod(ms)
    if k == 'sum':
        ms = [denote(x) for x in t[1]]
        if any(isinstance(m, Part) for m in ms):
            raise Ill('an incomplete mixture in a mixture')
        if len({frozenset(m.vars()) for m in ms}) > 1:
            raise Ill('components with different variables')
        ws = [w.v for w in t[2]]
        if len(ws) != len(ms):
            raise Ill('more weights than components')
        if sum(ws, ZERO) != ONE:
            raise Ill('weights that do not sum to one')
        return Sum(list(zip(ws, ms)))
    if k == 'scale':
        m = denote(t[2])
        if isinstance(m, Part):
            raise Ill('an incomplete mixture weighted again')
        w = val(t[1]) if isinstance(t[1], (int, Val)) else None
        if w is None:
            raise Ill('a weight that is no number')
        if not 0 < w.w < 1:
            raise Ill('a weight outside (0, 1)')
        return Part(frozenset(m.vars()), w, [(w, m)])
    a, b = denote(t[1]), denote(t[2])
    if not isinstance(a, Part) or not isinstance(b, Part):
        raise Ill('a mixture of models without weights')
    if a.vs != b.vs:
        raise Ill('components with different variables')
    tot = a.total + b.total
    if tot == ONE:
        return Sum(a.parts + b.parts)
    if tot.w > 1:
        raise Ill('weights that sum to more than one')
    return Part(a.vs, tot, a.parts + b.parts)


def text(t):
    t = norm(t)
    k = t[0]
    if k == 'leaf':
        return t[1].text()
    if k in ('prod', 'and'):
        return ('(%s)' % ' & '.join(map(text, t[1]))) if k == 'and' else 'product(%s)' % ', '.join(map(text, t[1]))
    if k == 'sum':
        return 'mixture(%s; weights %s)' % (', '.join(map(text, t[1])), ', '.join('%.3g' % w.v.w for w in t[2]))
    w = lambda x: x if not isinstance(x, Val) else '%.3g' % x.w
    if k == 'scale':
        return ('%s * %s' if t[3] else '%s (on the right) * %s') % (w(t[1]), text(t[2]))
    return '(%s | %s)' % (text(t[1]), text(t[2]))


def build(W, t):
    t = norm(t)
    k = t[0]
    if k == 'leaf':
        return W.model(t[1])
    if k == 'and':
        a, b = [build(W, x) for x in t[1]]
        return W.call(lambda: operator.and_(a, b))
    if k == 'prod':
        return W.call(W['ProductSPE'], [build(W, x) for x in t[1]])
    if k == 'sum':
        return W.call(W['SumSPE'], [build(W, x) for x in t[1]], list(t[2]))
    if k == 'scale':
        o = build(W, t[2])
        return W.call(lambda: t[1] * o if t[3] else o * t[1])
    a, b = build(W, t[1]), build(W, t[2])
    return W.call(lambda: operator.or_(a, b))


def refused(f):
    """does the interpreted call raise one of the expected exceptions?"""
    try:
        f()
    except Raised as e:
        if isinstance(e.exc, REFUSED):
            return True
        raise
    except TypeError:                  # the host's dispatch of a binary operator
        return True
    return False


@split_cases('construction', 83, 700, 8000, 350)
def run_construct(R, G, k):
    W = R.W
    T = Terms(G)
    if k % 10 == 9:
        return derived(R, G, k)
    if k % 10 == 7:
        return pieces(R, G, k)
    t = T.odd() if k % 10 == 8 else T.spe(T.vs(), 1 + k % 3)
    try:
        m, why = denote(t), None
    except Ill as e:
        m, why = None, str(e)
    tx = text(t)
    if why:
        def f():
            if not refused(lambda: build(W, t)):
                raise Bad('is accepted, although it has %s' % why)
        R.guard('ill-formed', 'spe.SPE', tx, f)
        return

    def g():
        o = build(W, t)
        if isinstance(m, Part):
            if not W.it.isinstance_(o, W['PartialSumSPE']):
                raise Bad('an incomplete mixture is taken for a model')
            return
        if {str(x) for x in symbols(W, o)} != set(m.vars()):
            raise Bad('the model has the variables %s' % sorted(map(str, symbols(W, o))))
        for E in probes:
            same(W.m(o, 'logprob', W.event(E, KINDS, m.vars())), measure(m.comps(), E, m.vars()), 'the log-probability of %s' % etext(E))
    probes = [G.event(m.vars(), KINDS, d) for d in (0, 1)] if not isinstance(m, Part) else []
    R.guard('well-formed', 'spe.SPE', tx, g)


def derived(R, G, k):
    """derived variables and leaves: what must be refused"""
    W, r = R.W, G.r
    kinds = {'X': REAL, 'Y': REAL, 'N': NOM}
    m = r.choice([G.leaf('X', REAL, False), Prod([G.leaf('X', REAL, False), G.leaf('Y', REAL, False)]), Prod([G.leaf('X', REAL, False), G.leaf('N', NOM, False)]),
                  Sum([(w, G.leaf('X', REAL, False)) for w in G.simplex(range(2), 0).values()])])
    have = set(m.vars())
    box = {}
    if R.guard('construction', 'spe.SPE', m.text(), lambda: box.update(o=W.model(m))) or 'o' not in box:
        return
    o = box['o']
    X = W.X
    ab = lambda v: W.call(lambda: abs(X(v)))
    cases = [('a derived variable named like the variable it depends on', lambda: W.m(o, 'transform', X('X'), ab('X'))),
             ('a derived variable of an unknown variable', lambda: W.m(o, 'transform', X('Z'), ab('Q'))),
             ('a derived variable defined by itself', lambda: W.m(o, 'transform', X('Z'), ab('Z'))),
             ('a derived variable given twice', lambda: W.m(W.m(o, 'transform', X('Z'), ab('X')), 'transform', X('Z'), ab('X')))]
    if 'N' in have:
        cases.append(('a derived variable of a nominal variable', lambda: W.m(o, 'transform', X('Z'), ab('N'))))
    if 'Y' in have:
        cases.append(('a derived variable named like another variable', lambda: W.m(o, 'transform', X('Y'), ab('X'))))
        cases.append(('a derived variable named like another derived variable', lambda: W.m(W.m(o, 'transform', X('Z'), ab('X')), 'transform', X('Z'), ab('Y'))))
    w = G.simplex('ab', 0)
    u = Val(w['a'].f * 7, w['a'].w * .5)
    more = [('outcomes whose weights do not sum to one', lambda: W.call(W['NominalLeaf'], X('N'), {'a': u, 'b': w['b']})),
            ('an outcome that is no string', lambda: W.call(W['NominalLeaf'], X('N'), {'a': w['a'], 3: w['b']})),
            ('a name that is no variable', lambda: W.call(W['NominalLeaf'], 'N', {'a': w['a'], 'b': w['b']})),
            ('a derived variable of a nominal variable', lambda: W.m(W.call(W['NominalLeaf'], X('N'), dict(w)), 'transform', X('Z'), ab('N')))]
    pw = [('pieces that overlap', lambda: W.call(W['Piecewise'], [X('X'), ab('X')], [W.call(lambda: X('X') < Tok(1)), W.call(lambda: X('X') < Tok(2))])),
          ('more pieces than events', lambda: W.call(W['Piecewise'], [X('X'), ab('X')], [W.call(lambda: X('X') < Tok(1))])),
          ('pieces of different variables', lambda: W.call(W['Piecewise'], [X('X'), ab('Y')], [W.call(lambda: X('X') < Tok(1)), W.call(lambda: X('X') > Tok(2))])),
          ('pieces and events of different variables', lambda: W.call(W['Piecewise'], [X('X'), ab('X')], [W.call(lambda: X('Y') < Tok(1)), W.call(lambda: X('Y') > Tok(2))])),
          ('a piece that is no event', lambda: W.call(W['Piecewise'], [X('X')], [X('X')])),
          ('events of two variables', lambda: W.call(W['Piecewise'], [X('X'), ab('X')], [W.call(lambda: X('X') < Tok(1)), W.call(lambda: X('Y') > Tok(2))]))]
    for where, cs in (('spe.%s.transform' % o.cls.name, cases), ('spe.NominalLeaf.__init__', more), ('transforms.Piecewise.__init__', pw)):
        for what, f in cs:
            def g():
                if not refused(f):
                    raise Bad('%s is accepted' % what)
            R.guard('ill-formed', where, m.text() if cs is cases else what, g)


def pieces(R, G, k):
    """transforms given by pieces: refused if any two overlap, otherwise each piece where its event holds"""
    W, r = R.W, G.r
    X = ExprWorld(W)
    kinds, vs = {'X': REAL}, {'X': None, 'A': ('X', 'abs')}
    n = (2, 3, 3, 4)[k // 10 % 4]
    if k // 10 % 3:                     # consecutive stretches in any order, perhaps one that meets another
        cuts = sorted(r.sample(range(NR), n - 1))
        Es = []
        for i in range(n):
            lo, hi = cuts[i - 1] if i else -INF, cuts[i] if i < n - 1 else INF
            Es.append(('lit', 'X', interval(lo, hi, True, False)))
        if r.random() < .5:
            i = r.randrange(n)
            Es[i] = ('or', Es[i], ('lit', 'X', r.choice((real(r.randrange(NR)), interval(*sorted(r.sample(range(NR), 2)), True, True)))))
        r.shuffle(Es)
    else:
        Es = [G.event(vs, kinds, 1) for _ in range(n)]
    fs = [r.choice(('id', 'abs')) for _ in Es]
    at = [[holds(E, {'X': p}, vs) for p in cells(REAL)] for E in Es]
    clash = any(a and b for x, y in itertools.combinations(at, 2) for a, b in zip(x, y))
    text = '%s of X on the pieces %s' % (', '.join(fs), '; '.join(map(etext, Es)))
    ops = r.random() < .5

    def make():
        evs = [X.event(E, kinds, vs) for E in Es]
        xs = [W.X('X') if f == 'id' else W.call(lambda: abs(W.X('X'))) for f in fs]
        if not ops:
            return W.call(W['Piecewise'], xs, evs)
        return functools.reduce(operator.add, [W.call(lambda x=x, e=e: x * e) for x, e in zip(xs, evs)])

    def f():
        if clash:
            if not refused(make):
                raise Bad('is accepted although pieces overlap')
            return
        o = make()
        for j, p in enumerate(cells(REAL)):
            i = next((i for i in range(len(Es)) if at[i][j]), None)
            try:
                got = W.m(o, 'evaluate', {W.X('X'): W.num(p, REAL)})
            except Raised as e:
                if i is None and isinstance(e.exc, ValueError):
                    continue
                raise
            if i is None:
                raise Bad('has a value at X=x%s, where no piece is defined' % p)
            if rank_of(got) != (p if fs[i] == 'id' else max(p, MID - p)):
                raise Bad('at X=x%s its value is %s' % (p, got))
    R.guard('pieces', 'transforms.Piecewise', text, f)
