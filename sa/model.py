"""Random interpretation of terms (Gulwani & Necula): alarm suppression only.

Two normal forms that differ may still denote the same function (a law the
normal form does not know).  Before a difference is reported, both terms are
interpreted in finite random models: every uninterpreted symbol becomes a hash
function, known operators keep their meaning.  Only if some model satisfying the
path condition tells them apart is the difference reported.  The analysed source
is never executed here; only terms are interpreted.
"""
import hashlib
import math
import time
from fractions import Fraction
from . import ir
from .ir import Term

TIME = 2.5       # seconds per compared path
NAN = float('nan')


class Reject(Exception):
    """model does not fit"""


class NoEval(Exception):
    pass


class U:
    """universal uninterpreted value"""
    __slots__ = ('h', 'tag', 'lenkey')

    def __init__(self, h, tag='', lenkey=None):
        self.h, self.tag, self.lenkey = h, tag, lenkey if lenkey is not None else h

    def __repr__(self):
        return 'U%s:%x' % (self.tag, self.h % 0xfffff)


class SetV:
    def __init__(self, items):
        self.m = {K(x): x for x in items}

    def __repr__(self):
        return 'Set%r' % (list(self.m.values()),)


class DictV:
    def __init__(self, pairs):
        self.m = {}
        for k, v in pairs:
            self.m[K(k)] = (k, v)

    def items(self):
        return list(self.m.values())

    def __repr__(self):
        return 'Dict%r' % (list(self.m.values()),)


class LamV:
    def __init__(self, model, hs, body, env):
        self.model, self.hs, self.body, self.env = model, hs, body, env


def H(*xs):
    return int(hashlib.md5(repr(xs).encode()).hexdigest(), 16)


def K(v):
    if isinstance(v, U):
        return ('u', v.h)
    if isinstance(v, bool):
        return ('n', float(v))
    if isinstance(v, (int, float, Fraction)):
        if v != v:
            return ('nan',)
        if v in (math.inf, -math.inf):
            return ('inf', v > 0)
        f = float(v)
        if f == 0 or abs(f) < 1e-9:
            return ('n', 0.0)
        return ('n', float('%.6g' % f))
    if isinstance(v, str):
        return ('s', v)
    if v is None:
        return ('none',)
    if isinstance(v, tuple):
        return ('t',) + tuple(K(x) for x in v)
    if isinstance(v, SetV):
        return ('set',) + tuple(sorted(v.m, key=repr))
    if isinstance(v, DictV):
        return ('d',) + tuple(sorted(((k, K(x[1])) for k, x in v.m.items()), key=repr))
    if isinstance(v, LamV):
        args = [U(H('lamarg', i, len(v.hs))) for i in range(len(v.hs))]
        try:
            return ('lam', K(v.model.ev(v.body, {**v.env, **dict(zip(v.hs, args))})))
        except Reject:
            return ('lam?', v.body.key)
    raise NoEval(repr(v))


LOGP = {'logprob', 'logprob_mem', 'logprob__', 'logpdf', 'logpdf__', 'logprob_values__', 'logprob_finite__',
        'logprob_interval__', 'logcdf', 'logpmf', 'logprob_conjunction', 'logprob_conjunction_key'}


class Model:
    def __init__(self, it, seed, facts):
        self.it, self.seed = it, seed
        self.over = {}
        self.lens = {}
        self.classes = {}
        self.extra = {}
        self.cands = None
        self.facts = facts
        self.iterated = set()
        self.allterms = set()
        self.cache = {}

    def prepare(self, terms):
        at = set()
        for t in terms:
            ir.subterms(t, at)
        self.allterms = at
        names = {t.args[1] for t in at if t.op == 'isinst' and isinstance(t.args[1], str)}
        c = set()
        for n in names:
            if self.it.prog.hascls(n):
                for s in self.it.prog.cls(n).allsubs():
                    c.add(s.name)
            else:
                c.add(n)
        self.cands = sorted(c) + ['?']

    def fit(self):
        """make the path condition true in this model, or Reject"""
        for f, v in self.facts:
            if f.op == 'isinst' and isinstance(f.args[1], str):
                x = self.ev(f.args[0], {})
                if isinstance(x, U):
                    self.classes.setdefault(x.h, []).append((f.args[1], v))
            elif f.op == 'lenge':
                x = self.ev(f.args[0], {})
                if isinstance(x, U):
                    lo, hi = self.lens.get(x.lenkey, (0, 6 if self.seed % 5 == 4 else 4))
                    n = f.args[1]
                    lo, hi = (max(lo, n), max(hi, n + 1)) if v else (lo, min(hi, n - 1))
                    self.lens[x.lenkey] = (lo, hi)
        self.cache = {}
        for f, v in self.facts:
            if f.op in ('truth', 'in', 'is', 'isnumber', 'event', 'samekeys', 'isinst', 'has'):
                k = self.atomkey(f, {})
                if k is not None:
                    if k in self.over and self.over[k] != v:
                        raise Reject()
                    self.over[k] = v
        self.cache = {}
        for f, v in self.facts:
            if bool(self.atom(f, {})) != v:
                raise Reject()

    def atomkey(self, a, env):
        if a.op == 'event':
            return ('event', a.args[0])
        vs = [self.ev(x, env) if isinstance(x, Term) else x for x in a.args]
        if a.op == 'truth' and not isinstance(vs[0], U):
            return None
        if a.op == 'in' and not isinstance(vs[1], U):
            return None
        if a.op == 'isnumber' and not isinstance(vs[0], U):
            return None
        return (a.op,) + tuple(K(v) if not isinstance(v, str) or isinstance(a.args[i], Term) else v for i, v in enumerate(vs))

    # ------------------------------------------------------------ coercions
    def num(self, v):
        if isinstance(v, U):
            r = H('num', self.seed, v.h)
            if v.tag == 'logp':
                if r % 60 < (0 if self.seed % 5 == 4 else 36 if self.seed % 3 == 2 else 10):
                    return -math.inf
                return -0.05 - (r // 5 % 100000) / 40000.0
            if v.tag == 'nat':
                return r % 4
            m = r % 7
            x = (r // 7 % 100000) / 30000.0 - 1.6
            if m == 0:
                return float(r // 7 % 5 - 2)
            return x
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float, Fraction)):
            return v
        raise Reject()

    def length(self, v):
        if isinstance(v, tuple):
            return len(v)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, (SetV, DictV)):
            return len(v.m)
        if isinstance(v, U):
            lo, hi = self.lens.get(v.lenkey, (1, 6 if self.seed % 5 == 4 else 4))
            if hi < lo:
                raise Reject()
            r = lo + H('len', self.seed, v.lenkey) % (hi - lo + 1)
            return r
        raise Reject()

    def seqof(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, SetV):
            return tuple(v.m[k] for k in sorted(v.m, key=repr))
        if isinstance(v, DictV):
            return tuple(k for k, _ in v.items())
        if isinstance(v, U):
            return tuple(self.uitem(v, i) for i in range(self.length(v)))
        raise Reject()

    def uitem(self, v, i):
        tag = ''
        if v.tag == 'logpdfpair':
            tag = ('nat', 'logp')[i] if i in (0, 1) else ''
        return U(H('item', v.h, i), tag)

    def boolean(self, v):
        if isinstance(v, U):
            k = ('truth', K(v))
            if k in self.over:
                return self.over[k]
            return H('truth', self.seed, v.h) % 2 == 0
        if isinstance(v, (SetV, DictV)):
            return bool(v.m)
        if isinstance(v, LamV):
            return True
        if v != v:
            raise Reject()
        return bool(v)

    def uclass(self, v):
        cons = self.classes.get(v.h, [])
        ok = [c for c in self.cands if all(self.it.can_be(c, n) == b for n, b in cons)]
        if not ok:
            raise Reject()
        return ok[H('cls', self.seed, v.h) % len(ok)]

    # ------------------------------------------------------------ evaluation
    def atom(self, a, env):
        o = a.op
        A = a.args
        if o == 'exists':
            (h,), L, body = A
            n = self.int(self.ev(L, env))
            return any(self.boolean(self.ev(body, {**env, h: i})) for i in range(n))
        if o == 'event':
            return self.over.get(('event', A[0]), H('event', self.seed, A[0]) % 2 == 0)
        vs = [self.ev(x, env) if isinstance(x, Term) else x for x in A]
        if o == 'eq':
            return self.eq(vs[0], vs[1])
        if o == 'lt':
            x, y = vs
            x, y = self.num(x), self.num(y)
            if x != x or y != y:
                raise Reject()
            return x < y
        if o == 'is':
            return self.eq(vs[0], vs[1])
        if o == 'isninf':
            return isinstance(vs[0], (U, float)) and self.num(vs[0]) == -math.inf
        if o == 'ispinf':
            return isinstance(vs[0], (U, float)) and self.num(vs[0]) == math.inf
        if o == 'lenge':
            return self.length(vs[0]) >= A[1]
        if o == 'truth':
            return self.boolean(vs[0])
        if o == 'isinst':
            v = vs[0]
            c = vs[1]
            if isinstance(v, U):
                if not isinstance(c, str):
                    return H('isinst', self.seed, v.h, K(c)) % 2 == 0
                k = ('isinst', K(v), c)
                if k in self.over:
                    return self.over[k]
                return self.it.can_be(self.uclass(v), c)
            kinds = {int: {'int', 'Number'}, float: {'float', 'Number'}, str: {'str'}, tuple: {'list', 'tuple'}, DictV: {'dict'},
                     SetV: {'set'}, bool: {'bool', 'int'}, Fraction: {'Rational'}}
            return c in kinds.get(type(v), set())
        if o == 'isnumber':
            if isinstance(vs[0], U):
                k = ('isnumber', K(vs[0]))
                return self.over.get(k, H('isnum', self.seed, vs[0].h) % 2 == 0)
            return isinstance(vs[0], (int, float, Fraction))
        if o in ('in', 'has'):
            x, s = vs if o == 'in' else (vs[1], vs[0])
            k = ('in', K(x), K(s))
            if isinstance(s, U):
                if k in self.over:
                    return self.over[k]
                if any(K(y) == K(x) for y in self.seqof(s)):
                    return True
                return H('in', self.seed, k) % 2 == 0
            if isinstance(s, (SetV, DictV)):
                return K(x) in s.m
            if isinstance(s, tuple):
                return any(K(y) == K(x) for y in s)
            raise Reject()
        if o == 'samekeys':
            return H('sk', self.seed, K(vs[0]), K(vs[1])) % 2 == 0
        raise NoEval(o)

    def eq(self, x, y):
        if isinstance(x, U) and isinstance(y, (int, float, Fraction)):
            x = self.num(x)
        if isinstance(y, U) and isinstance(x, (int, float, Fraction)):
            y = self.num(y)
        if isinstance(x, U) and isinstance(y, U):
            return x.h == y.h
        return K(x) == K(y)

    def int(self, v):
        v = self.num(v)
        if v != v or v in (math.inf, -math.inf):
            raise Reject()
        if v != int(v):
            raise Reject()
        if v > 60:
            raise Reject()
        return int(v)

    def ev(self, t, env):
        if not env:
            r = self.cache.get(t)
            if r is not None:
                return r[0]
            r = self.ev1(t, env)
            self.cache[t] = (r,)
            return r
        return self.ev1(t, env)

    def ev1(self, t, env):
        o, A = t.op, t.args
        if o == 'num':
            return int(A[0]) if A[1] == 1 else Fraction(A[0], A[1])
        if o == 'inf':
            return math.inf * A[0]
        if o == 'bool':
            return bool(A[0])
        if o == 'str':
            return A[0]
        if o == 'none':
            return None
        if o == 'bv':
            if A[0] not in env:
                raise NoEval('unbound')
            return env[A[0]]
        if ir.is_atom(t):
            return self.atom(t, env)
        if o == 'ite':
            c = self.atom(A[0], env)
            return self.ev(A[1] if c else A[2], env)
        if o in ('any', 'top'):
            raise NoEval(o)
        if o in ('sym', 'fresh'):
            return U(H(o, A[0]))
        if o == 'lin':
            return self.lin(t, env)
        if o == 'bigcat':
            (h,), L, body = A
            out = []
            for i in range(self.int(self.ev(L, env))):
                out.extend(self.seqof(self.ev(body, {**env, h: i})))
            return tuple(out)
        if o == 'lam':
            return LamV(self, A[0], A[1], env)
        if o == 'foldv':
            f, L, init = A[0], A[0].args[1], A[0].args[2] if len(A[0].args) > 3 else None
            hs, body = A[0].args[0], A[0].args[-1]
            n = self.int(self.ev(L, env))
            init = self.foldinit(A, env)
            acc = init
            for i in range(n):
                acc = self.ev(body, {**env, hs[0]: i, hs[1]: acc})
            return acc
        if o == 'foldx':
            hs, L, body = A[0].args[0], A[0].args[1], A[0].args[-1]
            n = 400 if L.op == 'unbounded' else self.int(self.ev(L, env))
            acc = self.ev(A[0].args[2], env)
            for i in range(n):
                acc = self.ev(body, {**env, hs[0]: i, hs[1]: acc})
                if acc[0] != 'normal':
                    break
            else:
                if L.op == 'unbounded':
                    raise Reject()
            return acc
        if o == 'undef':
            return U(H('undef'))
        if o == 'firstidx':
            lam, L = A
            n = self.int(self.ev(L, env))
            for i in range(n):
                if self.boolean(self.ev(lam.args[-1], {**env, lam.args[0][0]: i})):
                    return i
            raise Reject()
        if o == 'attr':
            v = self.ev(A[0], env)
            n = A[1]
            h = H('attr', K(v), n)
            lk = None
            if n in ('weights', 'indexes', 'children'):
                lk = H('attr', K(v), 'children')
            if n in ('weights',) or n.startswith('log'):
                return U(h, 'logp' if n == 'logF' else '', lk)
            return U(h, '', lk)
        if o == 'new':
            return U(H('new', A[0] if isinstance(A[0], str) else K(self.ev(A[0], env)),
                       tuple((k, K(self.ev(v, env))) for k, v in A[1])))
        if o == 'mcall':
            recv = self.ev(A[0], env)
            args = tuple(K(self.ev(x, env)) for x in A[2])
            tag = 'logp' if A[1] in LOGP else 'logpdfpair' if A[1] == 'logpdf_mem' else ''
            h = H('mcall', K(recv), A[1], args)
            if A[1] == 'prob':
                return math.exp(self.num(U(H('mcall', K(recv), 'logprob', args), 'logp')))
            return U(h, tag, 'pair' if tag == 'logpdfpair' else None)
        if o in ('seq',):
            return tuple(self.ev(x, env) for x in A[0])
        if o == 'cat':
            out = ()
            for x in A[0]:
                out += tuple(self.seqof(self.ev(x, env)))
            return out
        if o == 'call':
            return self.callv(A[0], [self.ev(x, env) for x in A[1]], A[1])
        vs = [self.arg(x, env) for x in A]
        return self.op(o, vs, t, env)

    def foldinit(self, A, env):
        t = A[0].args[2]
        if t.op == 'noinit':
            raise NoEval('noinit')
        return self.ev(t, env)

    def arg(self, x, env):
        if isinstance(x, Term):
            return self.ev(x, env)
        if isinstance(x, tuple):
            return tuple(self.arg(y, env) for y in x)
        return x

    def lin(self, t, env):
        r = 0
        for m, n, d in t.args[0]:
            p = Fraction(n, d)
            for x, e in m:
                v = self.num(self.ev(x, env))
                if v != v:
                    raise Reject()
                if v in (math.inf, -math.inf):
                    v = float(v)
                    p = float(p)
                if e < 0 and v == 0:
                    raise Reject()
                p = (float(p) if isinstance(v, float) else p) * v ** e
            r = (float(r) if isinstance(p, float) else r) + p
            if r != r:
                raise Reject()
        return r

    def callv(self, n, vs, ts):
        if n in ('log', 'log1p') and len(vs) == 1:
            x = self.num(vs[0]) + (1 if n == 'log1p' else 0)
            if x < 0 or x != x:
                raise Reject()
            if x == 0:
                return -math.inf
            return math.log(x) if x != math.inf else x
        if n in ('exp', 'expm1') and len(vs) == 1:
            x = self.num(vs[0])
            if x > 700:
                raise Reject()
            return math.exp(x) - (1 if n == 'expm1' else 0)
        if n == 'abs':
            return abs(self.num(vs[0]))
        if n == 'floor':
            x = self.num(vs[0])
            return x if abs(x) == math.inf else math.floor(x)
        if n == 'int':
            x = self.num(vs[0])
            if abs(x) == math.inf:
                raise Reject()
            return int(x)
        if n == 'sqrt':
            x = self.num(vs[0])
            if x < 0:
                raise Reject()
            return math.sqrt(x)
        if n == 'logsumexp' and len(vs) == 1:
            xs = [self.num(x) for x in self.seqof(vs[0])]
            if not xs:
                raise Reject()
            m = max(xs)
            if m in (-math.inf, math.inf):
                return m
            return m + math.log(sum(math.exp(x - m) for x in xs))
        if n in ('set.union', 'set.intersection', 'set.difference'):
            if all(isinstance(v, SetV) for v in vs):
                m = dict(vs[0].m)
                for v in vs[1:]:
                    if n == 'set.union':
                        m.update(v.m)
                    elif n == 'set.intersection':
                        m = {k: x for k, x in m.items() if k in v.m}
                    else:
                        m = {k: x for k, x in m.items() if k not in v.m}
                return SetV(m.values())
        if n in ('str', 'repr') and isinstance(vs[0], str) and n == 'str':
            return vs[0]
        if n == 'join' and isinstance(vs[0], str):
            return U(H('join', vs[0], tuple(K(x) for x in self.seqof(vs[1]))))
        return U(H('call', n, tuple(K(v) for v in vs)))

    def op(self, o, v, t, env):
        if o == 'item':
            s, i = v
            if isinstance(s, DictV):
                return self.dget(s, i)
            if isinstance(i, U) or not isinstance(i, (int, Fraction, float)) or isinstance(i, bool):
                if isinstance(s, U):
                    return U(H('item', s.h, K(i)))
                raise Reject()
            if isinstance(s, U) and s.lenkey == 'pair':
                return self.uitem(s, int(i) % 2)
            n = self.length(s)
            i = self.int(i)
            if not -n <= i < n:
                raise Reject()
            if i < 0:
                i += n
            return self.uitem(s, i) if isinstance(s, U) else self.seqof(s)[i]
        if o == 'dget':
            return self.dget(v[0], v[1])
        if o == 'dgetd':
            if isinstance(v[0], DictV):
                return v[0].m[K(v[1])][1] if K(v[1]) in v[0].m else v[2]
            raise NoEval(o)
        if o == 'len':
            return self.length(v[0])
        if o == 'rangeof':
            return tuple(range(self.int(v[0])))
        if o == 'slice':
            s = self.seqof(v[0])
            lo = None if v[1] is None else self.int(v[1])
            hi = None if v[2] is None else self.int(v[2])
            return s[lo:hi]
        if o == 'slicestep':
            s = self.seqof(v[0])
            return s[slice(*[None if x is None else self.int(x) for x in v[1:4]])]
        if o == 'big':
            op = v[0]
            xs = self.seqof(v[1])
            if not xs:
                if op == '+':
                    return 0
                if op == '*':
                    return 1
                raise Reject()
            if op in '+*':
                r = self.num(xs[0])
                for x in xs[1:]:
                    r = r + self.num(x) if op == '+' else r * self.num(x)
                if r != r:
                    raise Reject()
                return r
            if op in ('min', 'max'):
                ys = [self.num(x) for x in xs]
                return min(ys) if op == 'min' else max(ys)
            if op in '&|':
                return self.mask(op, xs)
        if o == 'ac':
            return self.mask(v[0], v[1])
        if o == 'inv':
            x = v[0]
            if isinstance(x, U):
                return U((2 ** 128 - 1) ^ x.h)
            if isinstance(x, SetV):
                return U(H('inv', K(x)))
            raise Reject()
        if o == 'put':
            d = v[0]
            if isinstance(d, DictV):
                r = DictV([])
                r.m = dict(d.m)
                r.m[K(v[1])] = (v[1], v[2])
                return r
            if isinstance(d, U):
                ks = self.seqof(d)
                r = DictV([(k, self.dget(d, k)) for k in ks])
                r.m[K(v[1])] = (v[1], v[2])
                return r
            raise Reject()
        if o == 'lput':
            s = list(self.seqof(v[0]))
            i = self.int(v[1])
            if not 0 <= i < len(s):
                raise Reject()
            s[i] = v[2]
            return tuple(s)
        if o == 'dictof':
            ps = [self.seqof(p) for p in self.seqof(v[0])]
            if any(len(p) != 2 for p in ps):
                raise Reject()
            return DictV(ps)
        if o == 'setof':
            return SetV(self.seqof(v[0]))
        if o == 'elems':
            return self.seqof(v[0])
        if o == 'keys':
            return self.seqof(v[0])
        if o in ('sorted',):
            xs = list(self.seqof(v[0]))
            if len(v) > 1:
                raise NoEval('sorted key')
            try:
                return tuple(sorted(xs, key=lambda x: (0, float(x)) if isinstance(x, (int, float, Fraction)) else (1, K(x))))
            except TypeError:
                raise Reject()
        if o == 'reversed':
            return tuple(reversed(self.seqof(v[0])))
        if o in ('setdiff', 'setminus'):
            a, b = [SetV(self.seqof(x)) for x in v[:2]]
            r = [x for k, x in a.m.items() if k not in b.m]
            return SetV(r) if o == 'setdiff' else tuple(r)
        if o in ('setunion', 'setintersection'):
            xs = [x if isinstance(x, SetV) else SetV(self.seqof(x)) for x in self.seqof(v[0])]
            if not xs:
                raise Reject()
            m = dict(xs[0].m)
            for x in xs[1:]:
                if o == 'setunion':
                    m.update(x.m)
                else:
                    m = {k: y for k, y in m.items() if k in x.m}
            return SetV(m.values())
        if o == 'group':
            return self.group(v)
        if o == 'pow':
            a, b = self.num(v[0]), self.num(v[1])
            try:
                r = a ** b
            except (ZeroDivisionError, OverflowError):
                raise Reject()
            if isinstance(r, complex):
                raise Reject()
            return r
        if o == 'apply':
            f = v[0]
            if isinstance(f, LamV):
                args = v[1]
                if len(args) != len(f.hs):
                    raise Reject()
                return self.ev(f.body, {**f.env, **dict(zip(f.hs, args))})
            return U(H('apply', K(f), tuple(K(x) for x in v[1])))
        if o == 'strcat':
            # adjacent text
            out = []
            for x in v[0]:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
            if len(out) == 1 and isinstance(out[0], str):
                return out[0]
            return U(H('strcat', tuple(K(x) for x in out)))
        if o in ('indexerror', 'bigempty'):
            raise Reject()
        if o == 'binop' and v[0] in ('Mod', 'FloorDiv', 'Sub', 'Add', 'Mult', 'Pow', 'LShift', 'RShift'):
            if all(isinstance(x, (int, float, Fraction)) for x in v[1:]):
                a, b = v[1:]
                try:
                    return {'Mod': lambda: a % b, 'FloorDiv': lambda: a // b, 'Sub': lambda: a - b, 'Add': lambda: a + b,
                            'Mult': lambda: a * b, 'Pow': lambda: a ** b, 'LShift': lambda: a << b, 'RShift': lambda: a >> b}[v[0]]()
                except (ZeroDivisionError, OverflowError, TypeError, ValueError):
                    raise Reject()
        if o == 'iter':
            return U(H('iter', K(v[0])))
        if o == 'min':
            return min(self.num(x) for x in v)
        if o == 'den':
            x = self.num(v[0])
            return U(H('den', K(v[0]))) if not isinstance(x, (int, Fraction)) else Fraction(x).denominator
        return U(H('op', o, tuple(K(x) if not isinstance(x, str) else x for x in v)))

    def group(self, v):
        op, init, S = v
        d = DictV([])
        if isinstance(init, DictV):
            d.m = dict(init.m)
        elif isinstance(init, U):
            d = DictV([(k, self.dget(init, k)) for k in self.seqof(init)])
        else:
            raise Reject()
        for p in self.seqof(S):
            k, x = self.seqof(p)
            kk = K(k)
            if op == 'last':
                d.m[kk] = (k, x)
            elif op == 'dict':
                s, y = self.seqof(x)
                old = d.m[kk][1] if kk in d.m else DictV([])
                new = DictV([])
                new.m = dict(old.m)
                new.m[K(s)] = (s, y)
                d.m[kk] = (k, new)
            elif kk not in d.m:
                d.m[kk] = (k, x)
            elif op == 'cat':
                d.m[kk] = (k, tuple(self.seqof(d.m[kk][1])) + tuple(self.seqof(x)))
            elif op == '+':
                d.m[kk] = (k, self.num(d.m[kk][1]) + self.num(x))
            else:
                d.m[kk] = (k, self.mask(op, [d.m[kk][1], x]))
        return d

    def mask(self, op, xs):
        if all(isinstance(x, bool) for x in xs):
            return all(xs) if op == '&' else any(xs)
        r = None
        for x in xs:
            if isinstance(x, SetV):
                raise NoEval('set algebra')
            if not isinstance(x, U):
                raise Reject()
            r = x.h if r is None else (r & x.h if op == '&' else r | x.h)
        return U(r)

    def dget(self, d, k):
        if isinstance(d, DictV):
            if K(k) not in d.m:
                raise Reject()
            return d.m[K(k)][1]
        if isinstance(d, tuple):
            i = self.int(k)
            if not -len(d) <= i < len(d):
                raise Reject()
            return d[i]
        if isinstance(d, U):
            return U(H('item', d.h, K(k)))
        raise Reject()


# ---------------------------------------------------------------- comparing
def close(m, x, y):
    if isinstance(x, U) and isinstance(y, U):
        return x.h == y.h
    nx, ny = isinstance(x, (int, float, Fraction)), isinstance(y, (int, float, Fraction))
    if isinstance(x, U) and ny:
        x, nx = m.num(x), True
    if isinstance(y, U) and nx:
        y, ny = m.num(y), True
    if nx and ny:
        if x != x or y != y:
            raise Reject()
        if x in (math.inf, -math.inf) or y in (math.inf, -math.inf):
            return x == y
        return abs(x - y) <= 1e-6 * max(1, abs(x), abs(y))
    if isinstance(x, U) and isinstance(y, tuple):
        x = m.seqof(x)
    if isinstance(y, U) and isinstance(x, tuple):
        y = m.seqof(y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(close(m, a, b) for a, b in zip(x, y))
    if isinstance(x, DictV) and isinstance(y, DictV):
        return set(x.m) == set(y.m) and all(close(m, x.m[k][1], y.m[k][1]) for k in x.m)
    if isinstance(x, U) and isinstance(y, DictV):
        x, y = y, x
    if isinstance(x, DictV) and isinstance(y, U):
        ks = m.seqof(y)
        return {K(k) for k in ks} == set(x.m) and all(close(m, x.m[K(k)][1], m.dget(y, k)) for k in ks)
    if isinstance(x, SetV) and isinstance(y, U):
        x, y = y, x
    if isinstance(x, U) and isinstance(y, SetV):
        return {K(k) for k in m.seqof(x)} == set(y.m)
    return K(x) == K(y)


def facts_of(it):
    return [(f, v) for f, v in it.allfacts()]


INTERPRETED = {'log', 'log1p', 'exp', 'expm1', 'abs', 'floor', 'int', 'sqrt', 'logsumexp', 'set.union', 'set.intersection',
               'set.difference', 'str', 'join'}


def free_term(t):
    """the model chooses its value freely"""
    if t.op in ('sym', 'fresh', 'attr', 'mcall', 'apply'):
        return True
    if t.op == 'call':
        return t.args[0] not in INTERPRETED
    if t.op == 'item':
        return free_term(t.args[0])
    return False


def models(it, terms, want, tries):
    facts = facts_of(it)
    # identify terms equated on the path
    mp = {}
    for f, v in facts:
        if v and f.op in ('eq', 'is') and isinstance(f.args[0], Term) and isinstance(f.args[1], Term):
            a, b = f.args
            if it.isconstlike(a) or (a.h, len(ir.subterms(a))) < (b.h, len(ir.subterms(b))):
                a, b = b, a
            if not it.isconstlike(a) and a not in mp and a not in ir.subterms(b) and free_term(a):
                mp[a] = b
        if v and f.op == 'isninf' and free_term(f.args[0]):
            mp[f.args[0]] = ir.NINF
        if v and f.op == 'ispinf' and free_term(f.args[0]):
            mp[f.args[0]] = ir.INF
    for _ in range(3):
        facts = [(ir.subst(f, mp), v) for f, v in facts]
        terms = [ir.subst(t, mp) for t in terms]
    nf = []
    for f, v in facts:
        if f.op == 'bool':
            if bool(f.args[0]) != v:
                return
            continue
        if f.op == 'ite':
            nf.append((f, v))
            continue
        nf.append((f, v))
    got = 0
    t0 = time.time()
    for s in range(tries):
        if time.time() - t0 > TIME:
            return
        m = Model(it, s, [])
        m.facts = [(f, v) for f, v in nf if ir.is_atom(f)]
        m.prepare(terms + [f for f, _ in nf])
        try:
            m.fit()
            if any(m.boolean(m.ev(f, {})) != v for f, v in nf if not ir.is_atom(f)):
                continue
        except Reject:
            continue
        except (OverflowError, ZeroDivisionError):
            continue
        got += 1
        yield m, terms
        if got >= want:
            return


def disagree(it, a, b, want=40, tries=400):
    """None: could not evaluate; False: no model tells them apart; str: a model does"""
    n = 0
    try:
        for m, (x, y) in models(it, [a, b], want, tries):
            try:
                vx, vy = m.ev(x, {}), m.ev(y, {})
                ok = close(m, vx, vy)
            except (Reject, OverflowError, ZeroDivisionError):
                continue
            n += 1
            if not ok:
                return 'model %d: %.200s / %.200s' % (m.seed, vx, vy)
    except NoEval:
        return None
    except (TypeError, ValueError, RecursionError):
        return None
    return False if n else None


def feasible(it, tries=400):
    try:
        for m, _ in models(it, [], 1, tries):
            return 'model %d' % m.seed
    except (NoEval, TypeError, ValueError, RecursionError):
        return None
    return None
