"""Polynomial equations and inequalities, and the time limit on symbolic solving (C27, C06), decided by abstract interpretation.

A polynomial is abstract: all that is known of it is the order in which it meets the levels at hand along the real line (a path that moves between
adjacent regions, with infinite ends).  sympy's solver is replaced by what it promises (the exact solution, a condition it could not solve, an exception, or
not coming back before the alarm), the numeric root finder by the roots in some order of the line, and the alarm by its state (pending seconds, installed handler).
The interpreted source must return the set of points at which the comparison holds - on the symbolic and on the numeric route - and whatever way it ends no alarm
may be pending and the handler installed before must be back.
"""
import random

from .absint import HOST, INF, SY_EMPTY, Abstract, Interp, Obj, Raised, SyFinite, SyInterval, SySet, SyUnion, Sym, Tok, Unsupported
from .measure import fork_map, install
from .report import Report


class Wrong(Exception):
    pass


class XSym(Abstract):
    visible = ('name', 'is_number')
    name, is_number = 'X', False

    def __repr__(self):
        return 'X'


X = XSym()


class Root(Tok):
    """a point of the line, known by a witness of its order; midpoints and offsets are other such points"""
    __slots__ = ()
    visible = ('is_real', 'is_number')
    is_real = is_number = True

    def _v(self, o):
        if isinstance(o, Tok):
            return o.rank
        if isinstance(o, (int, float)):
            return o
        raise Unsupported('arithmetic with %r' % (o,))

    def __add__(self, o):
        return Root(self.rank + self._v(o))
    __radd__ = __add__

    def __sub__(self, o):
        return Root(self.rank - self._v(o))

    def __rsub__(self, o):
        return Root(self._v(o) - self.rank)

    def __mul__(self, o):
        return Root(self.rank * self._v(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Root(self.rank / self._v(o))

    def __neg__(self):
        return Root(-self.rank)

    def __float__(self):
        return float(self.rank)

    def __hash__(self):
        return hash(('tok', self.rank))

    def __repr__(self):
        return 'r%.3g' % self.rank


class Complex(Abstract):
    visible = ('is_real',)
    is_real = False

    def __lt__(self, o):
        raise Raised(TypeError('Invalid comparison of non-real'))
    __le__ = __gt__ = __ge__ = __float__ = __lt__

    def __repr__(self):
        return 'a complex root'


class Level(Tok):
    """a value on the other axis"""
    __slots__ = ('sign',)
    visible = ('is_real', 'is_number')
    is_real = is_number = True

    def __init__(self, rank, sign=1):
        self.rank, self.sign = rank, sign

    def __neg__(self):
        return Level(self.rank, -self.sign)

    def __lt__(self, o):
        self.plain(o)
        return Tok.__lt__(self, o)

    def __le__(self, o):
        self.plain(o)
        return Tok.__le__(self, o)

    def __gt__(self, o):
        self.plain(o)
        return Tok.__gt__(self, o)

    def __ge__(self, o):
        self.plain(o)
        return Tok.__ge__(self, o)

    def __eq__(self, o):
        return isinstance(o, Tok) and self.rank == o.rank and getattr(o, 'sign', 1) == self.sign

    def plain(self, o):
        if isinstance(o, Tok) and getattr(o, 'sign', 1) != self.sign:
            raise Unsupported('order of mirrored levels')
        if isinstance(o, (int, float)) and o not in (INF, -INF):
            raise Unsupported('comparison of a level with a constant')

    def __hash__(self):
        return hash(('tok', self.rank))

    def __repr__(self):
        return '%sy%s' % ('-' if self.sign < 0 else '', self.rank)


class Sign(Abstract):
    """a number of known sign"""
    number = True
    visible = ('is_real', 'is_number', 'is_positive', 'is_negative', 'is_zero')

    def __init__(self, s):
        self.s = s
        self.is_real = self.is_number = True
        self.is_positive, self.is_negative, self.is_zero = s > 0, s < 0, s == 0

    def cmp(self, o):
        if isinstance(o, Sign):
            if self.s != o.s:
                return self.s - o.s
        if isinstance(o, (int, float)) and o == 0 or isinstance(o, float) and o in (INF, -INF):
            return self.s - o
        raise Unsupported('comparison of values of the polynomial')

    def __lt__(self, o):
        return self.cmp(o) < 0

    def __le__(self, o):
        return self.cmp(o) <= 0

    def __gt__(self, o):
        return self.cmp(o) > 0

    def __ge__(self, o):
        return self.cmp(o) >= 0

    def __eq__(self, o):
        return self.cmp(o) == 0

    def __ne__(self, o):
        return self.cmp(o) != 0

    def __neg__(self):
        return Sign(-self.s)

    def __mul__(self, o):
        if isinstance(o, Sign):
            return Sign(self.s * o.s)
        raise Unsupported('arithmetic on values of the polynomial')

    def __float__(self):
        raise Unsupported('value of the polynomial')

    def isinf(self):
        return False
    __hash__ = None


class Path:
    """a polynomial: points[i] is the i-th place (a witness) at which it meets a level, states[2i] the region before it and states[2i+1] the state there
    (odd 2k+1: at level k, even 2k: between levels k-1 and k)"""

    def __init__(self, states, points, levels):
        self.states, self.points, self.levels = states, points, levels

    def at(self, x):
        if x == -INF:
            return -INF if self.states[0] == 0 else INF
        if x == INF:
            return -INF if self.states[-1] == 0 else INF
        for i, p in enumerate(self.points):
            if x < p:
                return self.states[2 * i]
            if x == p:
                return self.states[2 * i + 1]
        return self.states[-1]

    def text(self):
        def nm(s):
            return 'at y%d' % (s // 2) if s % 2 else ('below y0' if s == 0 else 'above y%d' % (s // 2 - 1) + (' below y%d' % (s // 2) if s < 2 * self.levels else ''))
        return 'polynomial that is %s (roots at %s)' % (', '.join(nm(s) for s in self.states), ', '.join('%.3g' % p for p in self.points) or 'none')


class Expr(Abstract):
    """the polynomial, possibly mirrored, possibly with a level subtracted"""
    number = True
    visible = ('subs', 'atoms', 'free_symbols', 'is_number', 'args', 'is_polynomial')
    is_number = False

    def __init__(self, path, sign=1, level=None):
        self.path, self.sign, self.level = path, sign, level
        self.free_symbols = {X}

    def __repr__(self):
        return '%sp(X)%s' % ('-' if self.sign < 0 else '', '' if self.level is None else ' - %r' % (self.level,))

    def atoms(self, *a):
        return {X, 2}

    def __neg__(self):
        if self.level is None:
            return Expr(self.path, -self.sign)
        return Expr(self.path, -self.sign, -self.level)

    def __sub__(self, b):
        if self.level is None and isinstance(b, Level):
            return Expr(self.path, self.sign, b)
        raise Unsupported('arithmetic on the polynomial')

    def __rsub__(self, b):
        return -(self - b)

    def __add__(self, b):
        if isinstance(b, Level):
            return self - (-b)
        raise Unsupported('arithmetic on the polynomial')

    def rel(self, op, b):
        return Rel(self, op, b)

    def __lt__(self, b):
        return Rel(self, '<', b)

    def __le__(self, b):
        return Rel(self, '<=', b)

    def __gt__(self, b):
        return Rel(self, '>', b)

    def __ge__(self, b):
        return Rel(self, '>=', b)
    __eq__ = object.__eq__
    __hash__ = object.__hash__

    def sign_at(self, x, b=None):
        """sign of (sign * p(x) - level) - b"""
        b = self.level if b is None else b
        if self.level is not None and b is not self.level:
            if isinstance(b, (int, float)) and b == 0:
                b = self.level
            else:
                raise Unsupported('comparison of the polynomial')
        if not isinstance(b, Level) or b.sign != self.sign:
            raise Unsupported('level of the polynomial')
        s = self.path.at(x)
        if s in (INF, -INF):
            return self.sign * (1 if s > 0 else -1)
        d = s - b.rank
        return self.sign * ((d > 0) - (d < 0))

    def subs(self, *a):
        if len(a) == 1 and isinstance(a[0], dict):
            a = next(iter(a[0].items()))
        x, v = a
        if x is not X:
            raise Unsupported('substitution')
        if isinstance(v, Tok):
            v = v.rank
        if not isinstance(v, (int, float)):
            raise Unsupported('substitution of %r' % (v,))
        if self.level is None:
            s = self.path.at(v)
            return Level(s, 1) if self.sign > 0 and s not in (INF, -INF) else self.sign * s
        return Sign(self.sign_at(v))


class Rel(Abstract):
    visible = ('args', 'lhs', 'rhs', 'as_set')

    def __init__(self, e, op, b):
        self.e, self.op, self.b = e, op, b

    def __repr__(self):
        return '%r %s %r' % (self.e, self.op, self.b)

    def holds(self, x):
        s = self.e.sign_at(x, self.b)
        return {'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[self.op]


class SyCondition(SySet):
    pass


class SyIntersection(SySet):
    def __new__(cls, *a):
        return object.__new__(cls)

    def __init__(self, *a):
        self.args = a


class SyPieces(SyUnion):
    def __init__(self, *args):
        self.args = tuple(args)


def solution(path, f):
    """the real points x with f(x), as a sympy set"""
    ps = path.points
    places = []
    for i, p in enumerate(ps):
        places += [(None, mid(ps, i)), (p, p)]
    places.append((None, mid(ps, len(ps))))
    ok = [f(v) for _, v in places]
    out, i = [], 0
    while i < len(places):
        if not ok[i]:
            i += 1
            continue
        j = i
        while j + 1 < len(places) and ok[j + 1]:
            j += 1
        if i == j and places[i][0] is not None:
            out.append(SyFinite(Root(places[i][0])))
        else:
            lo, lopen = (Root(places[i][0]), False) if places[i][0] is not None else (Root(places[i - 1][0]), True) if i else (-INF, True)
            hi, hopen = (Root(places[j][0]), False) if places[j][0] is not None else (Root(places[j + 1][0]), True) if j + 1 < len(places) else (INF, True)
            out.append(SyInterval(lo, hi, lopen, hopen))
        i = j + 1
    fin = [p for p in out if isinstance(p, SyFinite)]
    if len(fin) > 1:
        out = [p for p in out if not isinstance(p, SyFinite)] + [SyFinite(*[x for p in fin for x in p.args])]
    return SY_EMPTY if not out else out[0] if len(out) == 1 else SyPieces(*out)


def mid(ps, i):
    if not ps:
        return 0.0
    return ps[0] - 1 if i == 0 else ps[-1] + 1 if i == len(ps) else (ps[i - 1] + ps[i]) / 2


def member(s, x):
    if isinstance(s, SyUnion):
        return any(member(a, x) for a in s.args)
    if isinstance(s, SyFinite):
        return any(a.rank == x for a in s.args)
    if isinstance(s, SyInterval):
        t = Root(x)
        return (s.left < t or (s.left == t and not s.left_open)) and (t < s.right or (t == s.right and not s.right_open))
    return False


class World:
    def __init__(self, P):
        it = self.it = Interp(P, fuel=400000)
        install(it)
        it.free = True
        self.path, self.mode = None, 'exact'
        e = it.ext
        e[('os', 'environ')] = self.environ = {}
        e[('os', 'getenv')] = lambda k, d=None: self.environ.get(k, d)
        e[('os.environ', 'get')] = self.environ.get
        self.alarm, self.handler, self.log = 0, 'previous', []

        def set_signal(sig, h):
            old, self.handler = self.handler, h
            return old

        def set_alarm(n):
            old, self.alarm = self.alarm, n
            return old
        e[('signal', 'signal')] = set_signal
        e[('signal', 'alarm')] = set_alarm
        e[('signal', 'getsignal')] = lambda sig: self.handler
        e[('signal', 'SIGALRM')] = 14
        e[('signal', 'ITIMER_REAL')] = 0
        e[('signal', 'setitimer')] = lambda which, n, m=0: (set_alarm(n), 0)
        e[('sympy', 'ConditionSet')], e[('sympy', 'Intersection')] = SyCondition, self.intersection
        it.kinds[id(e[('sympy', 'Intersection')])] = SyIntersection
        e[('sympy', 'Union')] = SyPieces
        e[('sympy', 'Reals')] = e[('sympy.S', 'Reals')] = SyInterval(-INF, INF)
        e[('sympy', 'solveset')] = self.solveset
        e[('sympy', 'nroots')] = self.nroots
        e[('sympy', 'Symbol')] = XSym
        e[('sympy', 'symbols')] = lambda *a, **k: X
        for m in ('sympy', 'sympy.calculus.util', 'sympy.series'):
            e[(m, 'limit')] = self.limit
        for m in ('sympy.calculus.util', 'sympy.calculus', 'sympy'):
            e[(m, 'function_range')] = self.range
        for m in ('sets', 'timeout', 'sym_util', 'poly', 'transforms'):
            it.module(m)
        g = it.module('transforms').vars
        if 'make_sympy_polynomial' in g:
            g['make_sympy_polynomial'] = lambda c: Expr(self.path)
        g['symX'] = X
        self.g = {**it.module('sets').vars, **g, **it.module('poly').vars}

    def fn(self, n):
        if n not in self.g:
            raise Unsupported('no ' + n)
        return self.g[n]

    def interrupt(self):
        """the alarm goes off"""
        if not self.alarm:
            raise Wrong('symbolic solving runs without a time limit')
        self.alarm = 0
        if self.handler == 'previous':
            raise Wrong('the alarm goes off while the previous handler is installed')
        self.it.call(self.handler, (14, None), {})
        raise Wrong('the handler of the alarm does not interrupt the computation')

    def solveset(self, rel, *a, **k):
        dom = k.get('domain', a[-1] if a else None)
        if not (isinstance(dom, SyInterval) and dom.left == -INF and dom.right == INF):
            raise Unsupported('domain of solveset')
        if not isinstance(rel, Rel):
            raise Unsupported('solveset of %r' % (rel,))
        self.log.append('solveset')
        if self.mode == 'expires':
            self.interrupt()
        if not self.alarm:
            raise Wrong('symbolic solving runs without a time limit')
        if self.mode == 'error':
            raise Raised(NotImplementedError('solveset'))
        if self.mode == 'condition':
            return SyCondition()
        if self.mode == 'half' and rel.e.sign < 0:
            return SyCondition()
        if self.mode == 'intersection':
            return SyIntersection(1, 2)
        return solution(self.path, rel.holds)

    def intersection(self, *a):
        if any(not isinstance(s, (SyInterval, SyFinite, SyUnion)) and s is not SY_EMPTY for s in a):
            return SyIntersection(*a)
        return solution(self.path, lambda x: all(member(s, x) for s in a))

    def nroots(self, e, *a, **k):
        if not isinstance(e, Expr) or e.level is None:
            raise Unsupported('roots of %r' % (e,))
        self.log.append('nroots')
        if self.mode == 'numeric expires' and self.alarm:
            self.interrupt()
        rs = [Root(p) for p in self.path.points if e.sign_at(p) == 0]
        rs += [Complex(), Complex()][:2 * (len(rs) % 2 == 0)]
        random.Random(len(rs)).shuffle(rs)
        return rs

    def limit(self, e, x, v, *a):
        if not isinstance(e, Expr) or e.level is not None or x is not X or v not in (INF, -INF):
            raise Unsupported('limit')
        return e.sign * self.path.at(v)

    def range(self, e, x, dom):
        if not isinstance(e, Expr) or e.level is not None or e.sign < 0:
            raise Unsupported('range')
        p = self.path
        ends = {p.at(-INF), p.at(INF)}
        if len(ends) == 2:
            return SyInterval(-INF, INF)
        if INF in ends:
            return SyInterval(Level(min(p.states)), INF)
        return SyInterval(-INF, Level(max(p.states)))


SCALES = (1.0, .01, 300.0)


def paths(r, levels, n, closed=False):
    """a random polynomial that meets levels n times"""
    top = 2 * levels
    while True:
        states = [r.choice((0, top))]
        for _ in range(n):
            s = states[-1]
            at = r.choice([x for x in (s - 1, s + 1) if 0 < x < top])
            states += [at, r.choice((at - 1, at + 1))]
        turn = max(states) if states[-1] == 0 else min(states)         # where an even polynomial turns last: an even state there would be a level of its own
        if states[-1] in (0, top) and (not closed or states[0] != states[-1] or turn % 2):
            break
        n = n + 1 if r.random() < .5 else max(0, n - 1)
    sc = r.choice(SCALES)
    off = r.uniform(-3, 3)
    pts, x = [], off
    for _ in range(len(states) // 2):
        x += r.uniform(.2, 1) * sc * r.choice((1, 1, 1, .001))
        pts.append(x)
    return Path(states, pts, levels)


class Bench:
    def __init__(self, P):
        self.rep, self.P, self.und, self.W = Report('polynomials'), P, {}, World(P)

    def guard(self, where, text, f):
        W, rep = self.W, self.rep
        W.it.fuel = 400000
        W.alarm, W.handler, W.log = 0, 'previous', []
        rep.begin(W.it)
        try:
            bad = f()
        except Unsupported as e:
            self.und[str(e)] = self.und.get(str(e), 0) + 1
            return
        except Wrong as e:
            bad = str(e)
        except Raised as e:
            if isinstance(e.exc, (TypeError, AttributeError, NameError)) and not e.where:
                k = '%s: %s' % (type(e.exc).__name__, e.exc)
                self.und[k] = self.und.get(k, 0) + 1
                return
            bad = 'raises %s(%s)' % (type(e.exc).__name__, e.exc)
        except RecursionError:
            bad = 'does not terminate'
        except HOST as e:
            k = 'host %s: %s' % (type(e).__name__, e)
            self.und[k] = self.und.get(k, 0) + 1
            return
        rep.took(W.it)
        rep.count(where)
        if bad and sum(x.construct == where for x in rep.findings) < 3:
            mod = where.split('.')[0]
            rep.find(where, self.P.modules[mod].path if mod in self.P.modules else mod, '%s: %s' % (text, bad))
        elif not bad and len(rep.samples) < 6 and rep.instances % 97 == 3:
            rep.samples.append({'case': text, 'verdict': 'as defined'})

    def left(self):
        W = self.W
        if W.alarm:
            return 'an alarm is still pending afterwards'
        if W.handler != 'previous':
            return 'the handler of alarms installed before is not back afterwards'


def check_set(W, s, want, path, what):
    pts = sorted({-INF, INF} | set(path.points) | {mid(path.points, i) for i in range(len(path.points) + 1)})
    for x in pts:
        got = W.it.truth(W.it.contains(x if x in (INF, -INF) else Root(x), s))
        if got != want(x):
            raise Wrong('%s %s %s' % (what, 'lacks' if want(x) else 'contains', 'X = %s' % x if x in (INF, -INF) else 'X = %.4g (p is at state %s)' % (x, path.at(x))))


MODES = ('exact', 'condition', 'intersection', 'half', 'expires', 'error', 'off')


def case(B, k):
    r = random.Random(7919 * k + 5)
    W = B.W
    kind = k % 4
    path = W.path = paths(r, 1 if kind < 3 else 2, r.choice((0, 1, 1, 2, 2, 3, 4, 5)), kind == 3)
    W.mode = mode = r.choice(MODES)
    W.environ.clear()
    if mode == 'off':
        W.environ['SPPL_NO_SYMBOLIC'] = '1'

    def finish(f):
        try:
            s = f()
        except Raised as e:
            bad = B.left()
            if bad:
                raise Wrong('%s (solving ended with %s)' % (bad, type(e.exc).__name__))
            if mode == 'error' and isinstance(e.exc, NotImplementedError):
                return None
            raise
        bad = B.left()
        if bad:
            raise Wrong(bad)
        if mode == 'off' and 'solveset' in W.log:
            raise Wrong('symbolic solving is used although it is disabled')
        return s
    how = {'exact': '', 'off': ', symbolic solving disabled', 'expires': ', time limit expires', 'error': ', solver fails', 'half': ', one side unsolved'}.get(mode, ', solver returns a ' + mode)
    b = Level(1)

    if kind == 0 or kind == 1:
        strict = r.random() < .5
        inf = r.random() < .15

        def f():
            ext = r.choice((None, True, False))
            lev = r.choice((INF, -INF)) if inf else b
            s = finish(lambda: W.it.call(W.fn('solve_poly_inequality'), (Expr(path), lev, strict), {} if ext is None and r.random() < .5 else {'extended': ext}))
            if s is None:
                return

            def want(x):
                v = path.at(x)
                if x in (INF, -INF):
                    if not inf or ext is False:
                        return False
                    return v < lev or (v == lev and not strict)
                if inf:
                    return lev > 0
                return v < b.rank or (v == b.rank and not strict)
            check_set(W, s, want, path, 'the solution')
        B.guard('poly.solve_poly_inequality', '%s, p(X) %s %s%s' % (path.text(), '<' if strict else '<=', 'an infinity' if inf else 'y0', how), f)
    elif kind == 2:
        inf = r.random() < .15

        def f():
            lev = r.choice((INF, -INF)) if inf else b
            s = finish(lambda: W.it.call(W.fn('solve_poly_equality'), (Expr(path), lev), {}))
            if s is not None:
                check_set(W, s, lambda x: path.at(x) == (lev if inf else b.rank), path, 'the solution')
        B.guard('poly.solve_poly_equality', '%s, p(X) = %s%s' % (path.text(), 'an infinity' if inf else 'y0', how), f)
    else:
        def f():
            x = W.it.call(W.fn('Identity'), ('X',), {})
            p = W.it.call(W.fn('Poly'), (x, [1, 2, 3]), {})
            a, c = r.choice(((Level(1), Level(3)), (-INF, Level(1)), (Level(3), INF), (-INF, INF), (Level(1), Level(1)), (Level(3), Level(3))))
            if a == c:
                s = W.it.call(W.fn('FiniteReal'), (a,) + ((Level(4 - a.rank),) if r.random() < .3 else ()) + ((r.choice((INF, -INF)),) if r.random() < .3 else ()), {})
            else:
                s = W.it.call(W.fn('Interval'), (a, c), {'left_open': r.choice((None, True)), 'right_open': r.choice((None, True))})
            t = finish(lambda: W.it.call(W.it.attr(p, 'invert'), (s,), {}))
            if t is not None:
                check_set(W, t, lambda x: W.it.truth(W.it.contains(Level(path.at(x)) if x not in (INF, -INF) else path.at(x), s)), path, 'the preimage of %s' % s)
        B.guard('transforms.Poly.invert', '%s, preimage%s' % (path.text(), how), f)


def run(P, prop, tier):
    n = 2400 if tier == 'quick' else 40000

    def part(i):
        try:
            B = Bench(P)
        except (Unsupported, Raised, KeyError) as e:
            rep = Report('polynomials')
            rep.missing.append(repr(e))
            rep.floor = 1000
            return rep
        for k in range(i, n, 8):
            case(B, k)
        B.rep.undecided += ['%d cases: %s' % (v, k) for k, v in sorted(B.und.items(), key=lambda t: -t[1])[:20]]
        B.rep.functions |= {n for n in B.W.it.touched if not n.startswith('<')}
        B.rep.floor = 1000
        return B.rep
    reps = fork_map(part, 8)
    for r in reps[1:]:
        reps[0].merge(r)
    return reps[0]
