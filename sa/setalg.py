"""Set algebra (src/sets.py) decided over order types.

Abstract inputs: sets whose endpoints are abstract numbers.  For every order type of the endpoints (bounded number of them), every
combination of open/closed/infinite ends, both abstract iteration orders, the operators of the current source are interpreted
abstractly and the denotation of the result - the order positions (the endpoints, the gaps between them, the infinities) and the
strings it contains - is compared with the pointwise definition.
"""
import itertools
import random
import time

from . import absint
from .absint import HOST, INF, Interp, Obj, Raised, Tok, Unsupported, rank_of
from .report import Report

NR = 5                                   # finite ranks 0..NR-1; positions: -inf, gap, 0, gap, 1, ..., gap, inf
POS = [-INF] + [r / 2 for r in range(-1, 2 * NR)] + [INF]
IDX = {p: i for i, p in enumerate(POS)}
FULL = (1 << len(POS)) - 1
FINITE = FULL & ~1 & ~(1 << (len(POS) - 1))
STR = ['a', 'b', 'c']
PROBES = ['a', 'b', 'c', 'd']


def tok(p):
    return p if p in (INF, -INF) else Tok(p)


def interval_bits(a, b, lo, ro):
    m = 0
    for i, p in enumerate(POS):
        if (a < p or (a == p and not lo)) and (p < b or (p == b and not ro)):
            m |= 1 << i
    return m


class Shape:
    """an abstract set: how to build it, and what it denotes"""
    __slots__ = ('kind', 'args', 'bits', 'strs', 'parts')

    def __init__(self, kind, args, bits, strs, parts=()):
        self.kind, self.args, self.bits, self.strs, self.parts = kind, args, bits, strs, parts

    def text(self):
        if self.kind == 'fold':
            return ' | '.join(p.text() for p in self.parts)
        if self.kind == 'union':
            return 'Union(%s)' % ', '.join(p.text() for p in self.parts)
        if self.kind == 'interval':
            a, b, lo, ro = self.args
            nm = lambda p: {INF: 'inf', -INF: '-inf'}.get(p, 'x%s' % p)
            return '%s%s,%s%s' % ('(' if lo or a == -INF else '[', nm(a), nm(b), ')' if ro or b == INF else ']')
        if self.kind == 'real':
            return '{%s}' % ', '.join({INF: 'inf', -INF: '-inf'}.get(p, 'x%s' % p) for p in self.args)
        if self.kind == 'nominal':
            return '%s{%s}' % ('~' if self.args[1] else '', ', '.join(self.args[0]))
        return 'EmptySet'


NOSTR = frozenset()


def interval(a, b, lo, ro):
    return Shape('interval', (a, b, lo, ro), interval_bits(a, b, lo or a == -INF, ro or b == INF), NOSTR)


def real(*ps):
    m = 0
    for p in ps:
        m |= 1 << IDX[p]
    return Shape('real', ps, m, NOSTR)


def nominal(vals, b):
    s = frozenset(p for p in PROBES if (p in vals) != bool(b))
    return Shape('nominal', (tuple(vals), b), 0, s)


EMPTY = Shape('empty', (), 0, NOSTR)


def fold(*parts):
    m, s = 0, NOSTR
    for p in parts:
        m |= p.bits
        s |= p.strs
    return Shape('fold', (), m, s, parts) if len(parts) > 1 else parts[0]


def union(*parts):
    f = fold(*parts)
    return Shape('union', (), f.bits, f.strs, parts)


class Bad(Exception):
    pass


class Machine:
    def __init__(self, P):
        self.P = P
        self.it = Interp(P)
        self.it.module('sets')
        g = self.it.get
        self.C = {n: g('sets.' + n) for n in ('EmptySet', 'FiniteNominal', 'FiniteReal', 'Interval', 'Union')}

    def make(self, s):
        it, C = self.it, self.C
        if s.kind == 'empty':
            return C['EmptySet']
        if s.kind == 'interval':
            a, b, lo, ro = s.args
            return it.call(C['Interval'], (tok(a), tok(b)), {'left_open': lo, 'right_open': ro})
        if s.kind == 'real':
            return it.call(C['FiniteReal'], tuple(tok(p) for p in s.args), {})
        if s.kind == 'nominal':
            return it.call(C['FiniteNominal'], s.args[0], {'b': s.args[1]})
        if s.kind == 'union':
            return it.call(C['Union'], tuple(self.make(p) for p in s.parts), {})
        out = self.make(s.parts[0])
        for p in s.parts[1:]:
            out = self.binop('__or__', out, self.make(p))
        return out

    def binop(self, name, a, b):
        import operator
        try:
            return {'__and__': operator.and_, '__or__': operator.or_}[name](a, b)
        except TypeError as e:
            raise Raised(e)

    def denote(self, o, disjoint=False):
        """-> (bits, strings, [overlap descriptions])"""
        it, C = self.it, self.C
        if o is C['EmptySet']:
            return 0, NOSTR, []
        if not isinstance(o, Obj):
            raise Bad('the result is not a set: %r' % (o,))
        n = o.cls.name
        if n == 'FiniteReal':
            m = 0
            for v in it.attr(o, 'values'):
                v = rank_of(v)
                if v not in IDX:
                    raise Unsupported('constant in result')
                m |= 1 << IDX[v]
            if not m:
                raise Bad('a finite set without elements')
            return m, NOSTR, []
        if n == 'Interval':
            a, b = it.attr(o, 'a'), it.attr(o, 'b')
            lo, ro = it.truth(it.attr(o, 'left_open')), it.truth(it.attr(o, 'right_open'))
            a, b = [rank_of(x) for x in (a, b)]
            if a not in IDX or b not in IDX:
                raise Unsupported('constant in result')
            return interval_bits(a, b, lo, ro), NOSTR, []
        if n == 'FiniteNominal':
            vals, b = it.attr(o, 'values'), it.truth(it.attr(o, 'b'))
            return 0, frozenset(p for p in PROBES if (p in vals) != b), []
        if n == 'Union':
            m, s, bad = 0, NOSTR, []
            vs = list(it.listing(it.attr(o, 'values')))
            for v in vs:
                m2, s2, b2 = self.denote(v)
                if m & m2 or s & s2:
                    bad.append('the members of the union overlap')
                if not m2 and not s2:
                    bad.append('an empty member of a union')
                m |= m2
                s |= s2
                bad += b2
            # the iterated members are the same sets
            am = 0
            for v in it.listing(o):
                m2, s2, b2 = self.denote(v)
                am |= m2
            if am != m:
                raise Bad('iterating the union yields other members')
            return m, s, bad
        raise Unsupported('unknown set class ' + n)

    def denotation_text(self, m):
        return '{%s}' % ', '.join({INF: 'inf', -INF: '-inf'}.get(p, 'x%s' % p) for i, p in enumerate(POS) if m >> i & 1)


# ---------------------------------------------------------------- shapes
def all_intervals(ranks, flags=(None, True)):
    out = []
    ends = [-INF] + list(ranks) + [INF]
    for a, b in itertools.combinations(ends, 2):
        for lo in (flags if a != -INF else (None,)):
            for ro in (flags if b != INF else (None,)):
                out.append(interval(a, b, lo, ro))
    return out


def all_reals(ranks, k, inf=True):
    base = ([-INF] if inf else []) + list(ranks) + ([INF] if inf else [])
    return [real(*c) for n in range(1, k + 1) for c in itertools.combinations(base, n)]


def all_nominals():
    out = []
    for n in range(0, 3):
        for c in itertools.combinations(STR[:2] if n < 2 else STR, n):
            if c:
                out.append(nominal(c, None))
                out.append(nominal(c, False))
            out.append(nominal(c, True))
    return out


def rand_interval(rng, ranks=range(NR)):
    ends = list(ranks)
    a, b = sorted(rng.sample(ends, 2))
    if rng.random() < .12:
        a = -INF
    if rng.random() < .12:
        b = INF
    return interval(a, b, rng.choice((None, True, False)), rng.choice((None, True, False)))


def rand_real(rng, inf=.1):
    ps = rng.sample(range(NR), rng.choice((1, 1, 2, 2, 3)))
    if rng.random() < inf:
        ps.append(rng.choice((INF, -INF)))
    return real(*ps)


def rand_set(rng, n, nominals=.25, inf=.1):
    parts = []
    for _ in range(n):
        r = rng.random()
        parts.append(rand_interval(rng) if r < .6 else rand_real(rng, inf))
    if rng.random() < nominals:
        parts.insert(rng.randrange(len(parts) + 1), rng.choice(all_nominals()))
    return fold(*parts)


# ---------------------------------------------------------------- rules
class Checker:
    def __init__(self, P, rep, disjoint):
        self.M = Machine(P)
        self.rep = rep
        self.disjoint = disjoint
        self.seen = set()
        self.und = {}
        self.n = 0

    def guard(self, rule, text, f, where, dup=None):
        """run f, which returns None or a complaint"""
        self.n += 1
        self.M.it.fuel = self.M.it.fuel0
        self.rep.begin(self.M.it)
        self.M.it.order = self.n % 3
        Tok.zero = (None, 0, 1, 2)[0] if self.n % 4 == 0 else self.n % NR
        self.rep.count(rule)
        try:
            c = f()
        except Unsupported as e:
            self.und[str(e)] = self.und.get(str(e), 0) + 1
            self.rep.count('undecided')
            return
        except Raised as e:
            c = 'the operation raises %s' % type(e.exc).__name__ + (' (line %d)' % e.where if e.where else '')
        except Bad as e:
            c = str(e)
        except RecursionError:
            c = 'the operation does not terminate'
        except HOST as e:
            k = 'host %s: %s' % (type(e).__name__, e)
            self.und[k] = self.und.get(k, 0) + 1
            self.rep.count('undecided')
            return
        self.rep.took(self.M.it)
        if c:
            k = (rule, where)
            if k in self.seen:
                self.rep.count('further_violations')
                return
            self.seen.add(k)
            self.rep.find(where, self.loc(where), '%s: %s' % (text, c))
        elif len(self.rep.samples) < 8 and self.n % 97 == 5:
            self.rep.samples.append({'rule': rule, 'case': text})

    def loc(self, where):
        try:
            mod, rest = where.split('.', 1)
            c, m = rest.split('.')
            f = self.M.P.modules[mod].classes[c].find(m)
            return f.where
        except Exception:
            return 'src/sets.py'

    def opname(self, a, op):
        return 'sets.%s.%s' % (a.cls.name, op) if isinstance(a, Obj) else 'sets'

    def binary(self, A, B, op):
        M = self.M
        text = '%s %s %s' % (A.text(), '&' if op == '__and__' else '|', B.text())
        wb, ws = (A.bits & B.bits, A.strs & B.strs) if op == '__and__' else (A.bits | B.bits, A.strs | B.strs)
        names = []

        def f():
            a = M.make(A)
            b = M.make(B)
            names.append(self.opname(a, op))
            # operands must denote what their shape says (checked by the rule that builds them)
            if M.denote(a)[:2] != (A.bits, A.strs) or M.denote(b)[:2] != (B.bits, B.strs):
                if A.kind == 'fold' or B.kind == 'fold':
                    raise Bad('building the operand by union gives another set')
                raise Bad('the constructor gives another set')
            r = M.binop(op, a, b)
            m, s, bad = M.denote(r)
            if self.disjoint:
                if m == wb and bad:
                    return 'the result %r has %s' % (r, bad[0])
                return None
            if (m, s) != (wb, ws):
                return 'the result contains %s %s, membership requires %s %s' % (M.denotation_text(m), sorted(s), M.denotation_text(wb), sorted(ws))
        self.guard('pointwise' + op, text, f, self._where(A, B, op))

    def _where(self, A, B, op):
        k = {'interval': 'Interval', 'real': 'FiniteReal', 'nominal': 'FiniteNominal', 'empty': 'EmptySetC', 'fold': 'Union', 'union': 'Union'}
        return 'sets.%s.%s' % (k[A.kind], op)

    def invert(self, A):
        M = self.M

        def f():
            a = M.make(A)
            r = M.it.hosted(lambda x: ~x, a)
            m, s, bad = M.denote(r)
            if self.disjoint:
                return 'the result has %s' % bad[0] if bad else None
            if A.strs or A.kind == 'nominal':
                want = frozenset(PROBES) - A.strs
                if (m, s) != (0, want):
                    return 'the complement contains the strings %s, expected %s' % (sorted(s), sorted(want))
            else:
                want = FINITE & ~A.bits
                if (m & FINITE, s) != (want, NOSTR):
                    return 'the complement contains %s %s, expected %s' % (M.denotation_text(m & FINITE), sorted(s), M.denotation_text(want))
        self.guard('complement', '~(%s)' % A.text(), f, self._where(A, A, '__invert__'))

    def member(self, A):
        M = self.M

        def f():
            a = M.make(A)
            if A.kind == 'nominal':
                for p in PROBES:
                    if M.it.truth(p in a) != (p in A.strs):
                        return 'membership of the string %r is %s' % (p, p not in A.strs)
                return
            for i, p in enumerate(POS):
                r = M.it.hosted(lambda x, y: x in y, tok(p), a)
                if bool(r) != bool(A.bits >> i & 1):
                    return 'membership of the value at x%s is %s' % (p, bool(r))
        self.guard('membership', 'x in %s' % A.text(), f, self._where(A, A, '__contains__'))

    def equal(self, A, B):
        """equality is of what is denoted up to representation; equal sets hash alike"""
        M = self.M

        def f():
            a, b = M.make(A), M.make(B)
            e = M.it.truth(M.it.hosted(lambda x, y: x == y, a, b))
            if e != M.it.truth(M.it.hosted(lambda x, y: y == x, a, b)):
                return 'equality is not symmetric'
            ne = M.it.truth(M.it.hosted(lambda x, y: x != y, a, b))
            if ne == e:
                return '!= does not negate =='
            if e and M.denote(a)[:2] != M.denote(b)[:2]:
                return 'equal, although their members differ'
            if e and hash(a) != hash(b):
                return 'equal, but the hashes differ'
            if not e and A.kind == B.kind and A.kind != 'fold' and (A.bits, A.strs) == (B.bits, B.strs) and A.strs != frozenset(PROBES):
                return 'unequal, although they denote the same set'
            c = M.make(A)
            if not M.it.truth(M.it.hosted(lambda x, y: x == y, a, c)) or hash(a) != hash(c):
                return 'not equal to, or not hashing like, a copy of itself'
        self.guard('equality', '%s == %s' % (A.text(), B.text()), f, self._where(A, B, '__eq__'))


def cases_binary(tier, seed):
    I3 = all_intervals(range(3))
    I4 = all_intervals(range(4)) if tier == 'thorough' else None
    R = all_reals(range(3), 2)
    R4 = all_reals(range(4), 3)
    N = all_nominals()
    big = I4 or all_intervals(range(4))
    # exhaustive in the order types of two simple operands
    for A, B in itertools.product(big, big):
        yield A, B
    for A in big if tier == 'thorough' else I3:
        for B in R4:
            yield A, B
            yield B, A
    for A, B in itertools.product(R, R):
        yield A, B
    for A, B in itertools.product(N, N):
        yield A, B
    rng = random.Random(seed)
    mixed = N + rng.sample(big, 12) + rng.sample(R4, 8) + [EMPTY]
    for A, B in itertools.product(mixed, mixed):
        yield A, B
    n = 2500 if tier == 'quick' else 60000
    for k in range(n):
        A = rand_set(rng, rng.choice((2, 2, 3)))
        B = rand_set(rng, rng.choice((1, 1, 2, 2, 3)))
        if k % 2:
            A, B = B, A
        yield A, B


def run_algebra(P, prop, tier, budget=None):
    """C01 (and, with disjoint members, the sum over a union that C08/C12 rely on)"""
    disjoint = prop != 'C01'
    rep = Report('set-algebra' if not disjoint else 'union-members-disjoint')
    try:
        C = Checker(P, rep, disjoint)
    except (KeyError, Unsupported, Raised) as e:
        rep.missing.append('sets: %r' % (e,))
        return rep
    t0 = time.time()
    limit = budget or (60 if tier == 'quick' else 700)
    for A, B in cases_binary(tier, 1):
        C.binary(A, B, '__and__')
        C.binary(A, B, '__or__')
        if time.time() - t0 > limit or len(rep.findings) > 4:
            rep.count('stopped_early')
            break
    rng = random.Random(7)
    singles = all_intervals(range(3)) + all_reals(range(3), 3, inf=False) + all_nominals()
    for A in singles:
        C.invert(A)
    for k in range(600 if tier == 'quick' else 6000):
        A = rand_set(rng, rng.choice((2, 3, 3, 4)), nominals=0, inf=0)
        C.invert(A)
    if not disjoint:
        for A in singles + all_reals(range(3), 3):
            C.member(A)
        for k in range(300 if tier == 'quick' else 3000):
            C.member(rand_set(rng, rng.choice((2, 3)), nominals=0))
        constants(C)
        helpers(C)
    finish(C, rep)
    rep.floor = 500
    return rep


def finish(C, rep):
    for k, v in C.und.items():
        rep.undecided.append('%d cases: %s' % (v, k))
    rep.functions |= {'sets.' + n for n in C.M.it.touched if not n.startswith('<')}
    Tok.zero = None


def constants(C):
    """the named sets denote what their names say"""
    M = C.M
    full = interval(-INF, INF, None, None).bits
    # 0 is a constant: its rank is 0 here
    pos = interval(0, INF, None, None).bits
    want = {'Reals': full, 'RealsPos': pos, 'RealsNeg': interval(-INF, 0, None, None).bits, 'ExtReals': FULL,
            'ExtRealsPos': pos | (1 << IDX[INF]), 'Integers': full, 'IntegersPos': interval(0, INF, True, None).bits, 'IntegersPos0': pos}

    def bits(o):
        if isinstance(o, Obj) and o.cls.name == 'Interval':
            a, b = M.it.attr(o, 'a'), M.it.attr(o, 'b')
            for v in (a, b):
                if v not in (0, INF, -INF):
                    raise Unsupported('constant')
            return interval_bits(a, b, M.it.truth(M.it.attr(o, 'left_open')), M.it.truth(M.it.attr(o, 'right_open')))
        if isinstance(o, Obj) and o.cls.name == 'Union':
            m = 0
            for v in M.it.listing(M.it.attr(o, 'values')):
                m |= bits(v)
            return m
        if isinstance(o, Obj) and o.cls.name == 'FiniteReal':
            m = 0
            for v in M.it.attr(o, 'values'):
                m |= 1 << IDX[v]
            return m
        raise Unsupported('constant')
    g = M.it.module('sets').vars
    for n, w in want.items():
        if n not in g:
            continue

        def f(n=n, w=w):
            b = bits(g[n])
            if b != w:
                return 'contains %s, should contain %s' % (M.denotation_text(b), M.denotation_text(w))
        C.guard('constants', n, f, 'sets.' + n)
    if 'Strings' in g:
        def f():
            if M.denote(g['Strings'])[:2] != (0, frozenset(PROBES)):
                return 'is not the set of all strings'
        C.guard('constants', 'Strings', f, 'sets.Strings')


def helpers(C):
    """Interval.open, Lopen, Ropen and the n-ary union and intersection"""
    M = C.M
    for name, fl in (('open', (True, True)), ('Lopen', (True, None)), ('Ropen', (None, True))):
        for a, b in ((0, 1), (-INF, 0), (0, INF)):
            def f(name=name, fl=fl, a=a, b=b):
                mk = M.it.attr(M.C['Interval'], name)
                m = M.denote(M.it.call(mk, (tok(a), tok(b)), {}))[0]
                if m != interval(a, b, *fl).bits:
                    return 'contains %s' % M.denotation_text(m)
            if M.C['Interval'].find(name) is not None:
                C.guard('constructors', 'Interval.%s(x%s, x%s)' % (name, a, b), f, 'sets.Interval.' + name)
    rng = random.Random(3)
    g = M.it.module('sets').vars
    for name in ('make_union', 'make_intersection'):
        if name not in g:
            continue
        for k in range(60):
            parts = [rand_set(rng, rng.choice((1, 1, 2)), nominals=.2) for _ in range(rng.choice((1, 2, 3, 4)))]

            def f(name=name, parts=parts):
                r = M.it.call(g[name], tuple(M.make(p) for p in parts), {})
                m, s, bad = M.denote(r)
                wm, ws = parts[0].bits, parts[0].strs
                for p in parts[1:]:
                    wm, ws = (wm | p.bits, ws | p.strs) if name == 'make_union' else (wm & p.bits, ws & p.strs)
                if (m, s) != (wm, ws):
                    return 'contains %s %s, should contain %s %s' % (M.denotation_text(m), sorted(s), M.denotation_text(wm), sorted(ws))
            C.guard('n-ary', '%s(%s)' % (name, ', '.join(p.text() for p in parts)), f, 'sets.' + name)


def run_equality(P, prop, tier):
    rep = Report('set-equality-and-hash')
    try:
        C = Checker(P, rep, False)
    except (KeyError, Unsupported, Raised) as e:
        rep.missing.append('sets: %r' % (e,))
        return rep
    I3, R, N = all_intervals(range(3), (None, True, False)), all_reals(range(3), 2), all_nominals()
    for L in (all_intervals(range(2), (None, True, False)), R, N):
        for A, B in itertools.product(L, L):
            C.equal(A, B)
    rng = random.Random(5)
    every = I3 + R + N + [EMPTY]
    for k in range(800 if tier == 'quick' else 8000):
        A, B = rng.choice(every), rng.choice(every)
        C.equal(A, B)
    for k in range(500 if tier == 'quick' else 8000):
        A = rand_set(rng, rng.choice((2, 3)))
        parts = list(A.parts) or [A]
        rng.shuffle(parts)
        B = fold(*parts) if k % 2 else rand_set(rng, rng.choice((2, 3)))
        C.equal(A, B)
    finish(C, rep)
    rep.floor = 300
    return rep
