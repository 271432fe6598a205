"""Equality and hashing (C17), decided by abstract interpretation of __init__, __eq__ and __hash__.

Objects of every class are built by interpreting the constructors of the current source on uninterpreted values; for each class and each
constructor argument that affects the meaning, two objects that differ in that argument alone must be unequal, two objects built from
equal arguments (distinct copies, values written differently, elements in another order) must be equal with equal hashes, equality must be
symmetric and consistent with !=, and comparison with anything else must answer False.
"""
import itertools
import types

from .absint import HOST, INF, Interp, Obj, Raised, Sym, Tok, Unsupported
from .report import Report


class Build:
    def __init__(self, P):
        it = self.it = Interp(P, fuel=200000)
        it.free = True
        for m in ('sets', 'transforms', 'spe'):
            it.module(m)
        for m in ('transforms', 'spe', 'sets', 'math_util', 'sym_util'):
            g = it.module(m).vars
            for n in ('allclose', 'logsumexp', 'logdiffexp', 'float_to_int', 'int_or_isinf_neg', 'int_or_isinf_pos', 'make_sympy_polynomial', 'isinf_neg_'):
                if n in g:
                    g[n] = (lambda n: (lambda *a: True if n.startswith(('allclose', 'int_or')) else Sym(n, *map(frz, a))))(n)
        self.g = {**it.module('sets').vars, **it.module('transforms').vars, **it.module('spe').vars}

    def new(self, cls, *a, **k):
        if cls not in self.g:
            raise Unsupported('no class ' + cls)
        self.it.fuel = 200000
        return self.it.call(self.g[cls], a, k)

    def X(self, n='X'):
        return self.new('Identity', n)


def frz(x):
    return tuple(map(frz, x)) if isinstance(x, (list, tuple)) else tuple(sorted((k, frz(v)) for k, v in x.items())) if isinstance(x, dict) else x


def dist(law='norm', args=(), kwds=None, atoms=None):
    d = types.SimpleNamespace(name=law)
    if atoms is not None:
        d.xk, d.pk = atoms
    f = types.SimpleNamespace(dist=d, args=args, kwds=dict(kwds or {}))
    for m in ('cdf', 'logcdf', 'ppf', 'logpdf', 'logpmf'):
        setattr(f, m, lambda *a, m=m: Sym(m, law, frz(args), frz(kwds or {}), frz(atoms or ()), *a))
    return f


a1, a2 = Sym('a'), Sym('b')
alt = Sym('a', alt="'")          # equal to a1, written differently


def cases(B):
    """[(class, base maker, [(what differs, maker)], [(what is equivalent, maker)])]"""
    X, Y = (lambda: B.X('X')), (lambda: B.X('Y'))
    N = B.new
    t = lambda r: Tok(r)
    iv = lambda a, b, lo=None, ro=None: N('Interval', t(a), t(b), left_open=lo, right_open=ro)
    fr = lambda *v: N('FiniteReal', *map(t, v))
    nom = lambda *v, b=None: N('FiniteNominal', *v, b=b)
    out = []
    out.append(('Identity', X, [('the name', Y)], []))
    for c, two in (('Radical', 1), ('Exponential', 1), ('Logarithm', 1), ('Abs', 0), ('Reciprocal', 0)):
        if two:
            out.append((c, lambda c=c: N(c, X(), a1),
                        [('the argument', lambda c=c: N(c, Y(), a1)), ('the parameter', lambda c=c: N(c, X(), a2)),
                         ('the nested argument', lambda c=c: N(c, N('Abs', X()), a1))],
                        [('an equal number of another type', lambda c=c: N(c, X(), alt))]))
        else:
            out.append((c, lambda c=c: N(c, X()), [('the argument', lambda c=c: N(c, Y())), ('the nested argument', lambda c=c: N(c, N('Abs', X())))], []))
    out.append(('Poly', lambda: N('Poly', X(), [a1, a2]),
                [('the argument', lambda: N('Poly', Y(), [a1, a2])), ('the first coefficient', lambda: N('Poly', X(), [a2, a2])),
                 ('the last coefficient', lambda: N('Poly', X(), [a1, a1])), ('the order of the coefficients', lambda: N('Poly', X(), [a2, a1])),
                 ('the degree', lambda: N('Poly', X(), [a1, a2, a1]))],
                [('a tuple of coefficients', lambda: N('Poly', X(), (a1, a2))), ('equal coefficients of another type', lambda: N('Poly', X(), [alt, a2]))]))
    ev = lambda s, lo, hi: N('EventInterval', s, iv(lo, hi, None, True))
    pw = lambda es, vs: N('Piecewise', es, vs)
    out.append(('Piecewise', lambda: pw([X(), N('Abs', X())], [ev(X(), 0, 1), ev(X(), 1, 2)]),
                [('an expression', lambda: pw([X(), N('Reciprocal', X())], [ev(X(), 0, 1), ev(X(), 1, 2)])),
                 ('the symbol', lambda: pw([Y(), N('Abs', Y())], [ev(Y(), 0, 1), ev(Y(), 1, 2)])),
                 ('an event', lambda: pw([X(), N('Abs', X())], [ev(X(), 0, 1), ev(X(), 1, 3)])),
                 ('the pairing', lambda: pw([N('Abs', X()), X()], [ev(X(), 0, 1), ev(X(), 1, 2)]))],
                [('tuples', lambda: pw((X(), N('Abs', X())), (ev(X(), 0, 1), ev(X(), 1, 2))))]))
    out.append(('EventInterval', lambda: ev(X(), 0, 1),
                [('the argument', lambda: ev(Y(), 0, 1)), ('the left end', lambda: ev(X(), 1, 1.5)), ('the right end', lambda: ev(X(), 0, 2)),
                 ('openness of the end', lambda: N('EventInterval', X(), iv(0, 1))), ('the nested argument', lambda: ev(N('Abs', X()), 0, 1))], []))
    out.append(('EventFiniteReal', lambda: N('EventFiniteReal', X(), fr(0, 1)),
                [('the argument', lambda: N('EventFiniteReal', Y(), fr(0, 1))), ('a value', lambda: N('EventFiniteReal', X(), fr(0, 2))),
                 ('number of values', lambda: N('EventFiniteReal', X(), fr(0)))],
                [('order of the values', lambda: N('EventFiniteReal', X(), fr(1, 0)))]))
    out.append(('EventFiniteNominal', lambda: N('EventFiniteNominal', X(), nom('a', 'b')),
                [('the argument', lambda: N('EventFiniteNominal', Y(), nom('a', 'b'))), ('a value', lambda: N('EventFiniteNominal', X(), nom('a', 'c'))),
                 ('the polarity', lambda: N('EventFiniteNominal', X(), nom('a', 'b', b=True)))],
                [('order of the values', lambda: N('EventFiniteNominal', X(), nom('b', 'a')))]))
    for c in ('EventAnd', 'EventOr'):
        out.append((c, lambda c=c: N(c, [ev(X(), 0, 1), ev(Y(), 1, 2)]),
                    [('a part', lambda c=c: N(c, [ev(X(), 0, 1), ev(Y(), 1, 3)])), ('the first part', lambda c=c: N(c, [ev(X(), 0, 2), ev(Y(), 1, 2)])),
                     ('the number of parts', lambda c=c: N(c, [ev(X(), 0, 1), ev(Y(), 1, 2), ev(X(), 2, 3)]))],
                    [('a tuple of parts', lambda c=c: N(c, (ev(X(), 0, 1), ev(Y(), 1, 2)))),
                     ('?the order of parts', lambda c=c: N(c, [ev(Y(), 1, 2), ev(X(), 0, 1)]))]))
    for c, law in (('ContinuousLeaf', 'norm'), ('DiscreteLeaf', 'poisson')):
        kw = {'loc': a1, 'scale': a2}
        sup = lambda: iv(0, 2)

        def leaf(c=c, s=X, d=None, support=None, cond=None, env=None, law=law, kw=kw):
            return N(c, s(), d or dist(law, (a1,), kw), support or sup(), cond, env)
        env = lambda z, f: {X(): X(), B.X(z): f}
        atm = ((a1, a2), (Sym('p'), Sym('q')))
        out.append((c, leaf,
                    [('the symbol', lambda l=leaf: l(s=Y)), ('the law', lambda l=leaf, kw=kw: l(d=dist('other', (a1,), kw))),
                     ('a positional parameter', lambda l=leaf, law=law, kw=kw: l(d=dist(law, (a2,), kw))),
                     ('a keyword parameter', lambda l=leaf, law=law: l(d=dist(law, (a1,), {'loc': a1, 'scale': a1}))),
                     ('the presence of a keyword parameter', lambda l=leaf, law=law: l(d=dist(law, (a1,), {'loc': a1}))),
                     ('the atoms', lambda l=leaf, law=law, kw=kw: l(d=dist(law, (a1,), kw, atoms=atm))),
                     ('the support', lambda l=leaf: l(support=iv(0, 1))), ('openness of the support', lambda l=leaf: l(support=iv(0, 2, None, True))),
                     ('the derived variables', lambda l=leaf: l(env=env('Z', N('Abs', X()))))],
                    [('order of keyword parameters', lambda l=leaf, law=law: l(d=dist(law, (a1,), {'scale': a2, 'loc': a1}))),
                     ('an explicit trivial environment', lambda l=leaf: l(env={X(): X()})),
                     ('equal parameters of another type', lambda l=leaf, law=law, kw=kw: l(d=dist(law, (alt,), kw)))]))
        out.append((c, lambda l=leaf, at=atm, law=law: l(d=dist(law, (), {}, at)),
                    [('the values of the atoms', lambda l=leaf, law=law: l(d=dist(law, (), {}, ((a1, Sym('c')), atm[1])))),
                     ('the weights of the atoms', lambda l=leaf, law=law: l(d=dist(law, (), {}, (atm[0], (Sym('q'), Sym('p'))))))], []))
        out.append((c, lambda l=leaf: l(env=env('Z', N('Abs', X()))),
                    [('the name of a derived variable', lambda l=leaf: l(env=env('W', N('Abs', X())))),
                     ('the definition of a derived variable', lambda l=leaf: l(env=env('Z', N('Reciprocal', X()))))], []))
        out.append((c, lambda l=leaf: l(cond=True), [('?truncation', lambda l=leaf: l(cond=None))], []))
    at = lambda s, v, env=None: N('AtomicLeaf', s, t(v), env)
    out.append(('AtomicLeaf', lambda: at(X(), 0), [('the symbol', lambda: at(Y(), 0)), ('the value', lambda: at(X(), 1)),
                                                  ('the derived variables', lambda: at(X(), 0, {X(): X(), Y(): N('Abs', X())}))], []))
    out.append(('AtomicLeaf', lambda: at(X(), 0, {X(): X(), Y(): N('Abs', X())}),
                [('a derived variable', lambda: at(X(), 0, {X(): X(), Y(): N('Reciprocal', X())})),
                 ('the name of a derived variable', lambda: at(X(), 0, {X(): X(), B.X('W'): N('Abs', X())}))], []))
    nl = lambda s, **d: N('NominalLeaf', s, d)
    p, q = Sym('p'), Sym('q')
    out.append(('NominalLeaf', lambda: nl(X(), a=p, b=q),
                [('the symbol', lambda: nl(Y(), a=p, b=q)), ('an outcome', lambda: nl(X(), a=p, c=q)), ('the weights', lambda: nl(X(), a=q, b=p)),
                 ('a weight', lambda: nl(X(), a=p, b=p))],
                [('order of the outcomes', lambda: nl(X(), b=q, a=p))]))
    L = lambda n, v: at(B.X(n), v)
    out.append(('SumSPE', lambda: N('SumSPE', [L('X', 0), L('X', 1)], [p, q]),
                [('a weight', lambda: N('SumSPE', [L('X', 0), L('X', 1)], [p, p])), ('the pairing of weights', lambda: N('SumSPE', [L('X', 0), L('X', 1)], [q, p])),
                 ('a component', lambda: N('SumSPE', [L('X', 0), L('X', 2)], [p, q])), ('the symbols', lambda: N('SumSPE', [L('Y', 0), L('Y', 1)], [p, q])),
                 ('the number of components', lambda: N('SumSPE', [L('X', 0), L('X', 1), L('X', 2)], [p, q, q]))],
                [('tuples', lambda: N('SumSPE', (L('X', 0), L('X', 1)), (p, q))),
                 ('?the order of the components', lambda: N('SumSPE', [L('X', 1), L('X', 0)], [q, p]))]))
    out.append(('ProductSPE', lambda: N('ProductSPE', [L('X', 0), L('Y', 1)]),
                [('a component', lambda: N('ProductSPE', [L('X', 0), L('Y', 2)])), ('the symbols', lambda: N('ProductSPE', [L('X', 0), L('Z', 1)])),
                 ('the first component', lambda: N('ProductSPE', [L('X', 2), L('Y', 1)])),
                 ('the number of components', lambda: N('ProductSPE', [L('X', 0), L('Y', 1), L('Z', 2)]))],
                [('a tuple', lambda: N('ProductSPE', (L('X', 0), L('Y', 1)))),
                 ('?the order of the components', lambda: N('ProductSPE', [L('Y', 1), L('X', 0)]))]))
    return out


def run(P, prop, tier):
    rep = Report('equality-and-hash')
    try:
        B = Build(P)
        cs = cases(B)
    except (KeyError, Unsupported, Raised) as e:
        rep.missing.append('equality: %r' % (e,))
        rep.floor = 10
        return rep
    it = B.it
    where = {'transforms': P.modules['transforms'].path, 'spe': P.modules['spe'].path}

    def eq(x, y):
        it.fuel = 100000
        r = x == y
        if r is NotImplemented:
            r = False
        return it.truth(r)

    def guard(construct, f):
        mod = getattr(B.g.get(construct.split(' ')[0]), 'mod', None)
        rep.begin(it)
        try:
            bad = f()
        except Unsupported as e:
            rep.undecided.append('%s: %s' % (construct, e))
            return
        except Raised as e:
            bad = 'raises %s(%s)' % (type(e.exc).__name__, e.exc)
        except HOST as e:
            rep.undecided.append('%s: host %s' % (construct, e))
            return
        rep.took(it)
        rep.count(construct.split(' ')[0])
        if bad:
            rep.find('%s.%s' % (mod, construct.split(' ')[0]), where.get(mod, '?'), '%s %s' % (construct, bad))
        elif len(rep.samples) < 6 and rep.instances % 29 == 5:
            rep.samples.append({'case': construct, 'verdict': 'holds'})

    def same(x, y):
        if not eq(x, y):
            return 'objects that mean the same are not equal'
        if not eq(y, x):
            return 'equality is not symmetric'
        if it.truth(x != y):
            return 'objects are both equal and unequal'
        if hash(x) != hash(y):
            return 'equal objects have different hashes'

    def differ(x, y):
        if eq(x, y) or eq(y, x):
            return 'objects that differ in meaning compare equal'
        if not it.truth(x != y):
            return 'objects are neither equal nor unequal'

    def consistent(x, y):
        a, b = eq(x, y), eq(y, x)
        if a != b:
            return 'equality is not symmetric'
        if a and hash(x) != hash(y):
            return 'equal objects have different hashes'
    every = []
    for cls, base, diffs, sames in cs:
        orders = (0, 1)
        for o in orders:
            it.order = o
            guard('%s (built twice)' % cls, lambda: same(base(), base()))
            for what, mk in diffs:
                f = consistent if what[0] == '?' else differ
                guard('%s (differing in %s)' % (cls, what.lstrip('?')), lambda: f(base(), mk()))
            for what, mk in sames:
                f = consistent if what[0] == '?' else same
                guard('%s (with %s)' % (cls, what.lstrip('?')), lambda: f(base(), mk()))
        it.order = 0

        def usable():
            x = base()
            if x not in {x} or {x: 1}[base()] != 1:
                return 'is not usable as a dictionary key'
        guard('%s (as a key)' % cls, usable)
        try:
            every.append((cls, base()))
        except (Unsupported, Raised):
            pass
    for (c, x), (d, y) in itertools.combinations(every, 2):
        if c != d:
            guard('%s (against %s)' % (c, d), lambda: differ(x, y))
    for c, x in every:
        for o in (None, 'X', 3, (1,), {}):
            def f():
                r = x == o
                if r is not NotImplemented and it.truth(r):
                    return 'equals %r' % (o,)
            guard('%s (against %r)' % (c, o), f)
    rep.functions |= {n for n in it.touched if n in ('__eq__', '__hash__', '__init__')}
    rep.floor = 250
    return rep
