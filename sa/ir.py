"""Hash-consed canonical terms: the abstract values of the value-flow analysis.

A Term is an immutable node (op, args).  Smart constructors keep terms in a
normal form, so that two expressions which denote the same function of the
inputs *for the reasons the normal form knows about* are the same object:

  num/inf/bool/str/none  constants                     lin    polynomials
  ite                    ordered, reduced decision node (MTBDD)
  seq/bigcat/cat         sequences (literal, generated by an index, concatenated)
  big                    iterated associative-commutative operator
  ac                     associative-commutative-idempotent & and |
"""
from fractions import Fraction
import hashlib

_table = {}
BINDERS = ('bigcat', 'exists', 'lam', 'fold')


class Term:
    __slots__ = ('op', 'args', 'key', 'free', 'h', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.key < o.key


def _argkey(a):
    if isinstance(a, Term):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_argkey(x) for x in a) + ')'
    return '%s:%r' % (type(a).__name__, a)


def raw(op, *args):
    k = (op, args)
    try:
        return _table[k]
    except KeyError:
        pass
    t = Term()
    t.op, t.args = op, args
    t.key = hashlib.md5((op + '|' + '|'.join(_argkey(a) for a in args)).encode()).hexdigest()
    free, h = set(), 0
    stack = list(args)
    while stack:
        a = stack.pop()
        if isinstance(a, Term):
            free |= a.free
            h = max(h, a.h)
        elif isinstance(a, tuple):
            stack.extend(a)
    if op == 'fresh':
        free.add(args[0])
    if op in BINDERS:
        h = max([h] + [i for i in args[0]])
    t.free, t.h = frozenset(free), h
    _table[k] = t
    return t


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, float):
        if x == float('inf'):
            return INF
        if x == float('-inf'):
            return NINF
        if x != x:
            return raw('nan')
    f = Fraction(x)
    return raw('num', f.numerator, f.denominator)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, str):
        return raw('str', v)
    if v is Ellipsis:
        return raw('ellipsis')
    if isinstance(v, bytes):
        return raw('bytes', repr(v))
    raise ValueError(v)


NONE = raw('none')
TRUE = raw('bool', 1)
FALSE = raw('bool', 0)
INF = raw('inf', 1)
NINF = raw('inf', -1)
ZERO = raw('num', 0, 1)
ONE = raw('num', 1, 1)
TOP = raw('top')          # unknown


def frac(t):
    return Fraction(t.args[0], t.args[1])


def isnum(t):
    return t.op == 'num'


def isconst(t):
    return t.op in ('num', 'bool', 'str', 'none', 'inf')


def boolc(b):
    return TRUE if b else FALSE


# ------------------------------------------------------------------ symbols
def sym(name):
    return raw('sym', name)


_ctr = [0]


def fresh(hint='k'):
    _ctr[0] += 1
    return raw('fresh', '%s#%d' % (hint, _ctr[0]))


def bv(i):
    return raw('bv', i)


# --------------------------------------------------------------- arithmetic
# lin: args = tuple of (mono, n, d); mono = tuple of (term, power) sorted
def _lin_parts(t):
    if t.op == 'num':
        f = frac(t)
        return {(): f} if f else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t is NINF:
        return {((INF, 1),): Fraction(-1)}
    if t.op == 'lin':
        return {m: Fraction(n, d) for m, n, d in t.args[0]}
    return {((t, 1),): Fraction(1)}


def _lin_build(parts):
    parts = {m: c for m, c in parts.items() if c}
    if not parts:
        return ZERO
    # infinity absorbs plain constants
    infm = ((INF, 1),)
    if infm in parts and set(parts) <= {infm, ()}:
        return INF if parts[infm] > 0 else NINF
    if len(parts) == 1:
        (m, c), = parts.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(((m, c.numerator, c.denominator) for m, c in parts.items()),
                         key=lambda x: _argkey(x[0])))
    return raw('lin', items)


def add(a, b):
    p = dict(_lin_parts(a))
    for m, c in _lin_parts(b).items():
        p[m] = p.get(m, Fraction(0)) + c
    return _lin_build(p)


def mul(a, b):
    if a is TOP or b is TOP:
        return TOP
    pa, pb = _lin_parts(a), _lin_parts(b)
    if len(pa) * len(pb) > 200:
        return raw('mulbig', *sorted((a, b)))
    out = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            d = dict(m1)
            for t, e in m2:
                d[t] = d.get(t, 0) + e
            m = tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda x: (x[0].key, x[1])))
            out[m] = out.get(m, Fraction(0)) + c1 * c2
    return _lin_build(out)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    """1/a."""
    p = _lin_parts(a)
    if len(p) == 1:
        (m, c), = p.items()
        if m and all(t is not INF for t, _ in m):
            return _lin_build({tuple((t, -e) for t, e in m): 1 / c})
        if m == ():
            return num(1 / c)
    return raw('lin', ((((a, -1),), 1, 1),))


def power(a, e):
    if e.op == 'num':
        f = frac(e)
        if f == -1:
            return inv(a)
        if f == 1:
            return a
        if f == 0:
            return ONE
        if f.denominator == 1 and 1 < f <= 4:
            r = a
            for _ in range(int(f) - 1):
                r = mul(r, a)
            return r
    return raw('pow', a, e)


# ----------------------------------------------------------------- booleans
# A boolean value is TRUE, FALSE, an atom, or ite(atom, bool, bool).
ATOMS = {'isinst', 'is', 'eq', 'lt', 'truth', 'in', 'has', 'lenge', 'isninf', 'ispinf',
         'exists', 'isnumber', 'event', 'samekeys'}


def is_atom(t):
    return t.op in ATOMS


def is_bool(t):
    if t.op == 'bool' or t.op in ATOMS:
        return True
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


def _top_atom(t):
    if t.op == 'ite':
        return t.args[0]
    return None


def _expand(t):
    """boolean atom in value position -> ite(atom, TRUE, FALSE)"""
    if t.op in ATOMS:
        return raw('ite', t, TRUE, FALSE)
    return t


def _cof(t, atom, val):
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def ite(c, a, b):
    """c: boolean term (const, atom or ite); canonical ordered result."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    c, a, b = _expand(c), _expand(a), _expand(b)
    if c.op != 'ite':
        raise ValueError('not a boolean: %r' % (c,))
    return _ite(c, a, b, {})


def _ite(c, a, b, memo):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b)
    if k in memo:
        return memo[k]
    tops = [t.args[0] for t in (c, a, b) if t.op == 'ite']
    v = min(tops, key=lambda t: t.key)
    c1, c0 = _cof(c, v, 1), _cof(c, v, 0)
    hi = _ite(_expand(c1), _expand(_cof(a, v, 1)), _expand(_cof(b, v, 1)), memo)
    lo = _ite(_expand(c0), _expand(_cof(a, v, 0)), _expand(_cof(b, v, 0)), memo)
    hi, lo = implied(v, hi, lo)
    if hi is lo or implied(v, lo, lo)[0] is hi:
        r = lo
    elif implied(v, hi, hi)[1] is lo:
        r = hi
    else:
        r = raw('ite', v, hi, lo)
    memo[k] = r
    return r


def implied(v, hi, lo):
    """numeric atoms about the same quantity exclude or imply each other"""
    if v.op in ('isninf', 'ispinf'):
        x = v.args[0]
        o = raw('ispinf' if v.op == 'isninf' else 'isninf', x)
        mp = {o: FALSE}
        for a in ite_atoms(hi):
            if a.op == 'lt':
                p, q = a.args
                if p is x and q.op == 'num':
                    mp[a] = boolc(v.op == 'isninf')
                elif q is x and p.op == 'num':
                    mp[a] = boolc(v.op == 'ispinf')
            elif a.op == 'eq' and x in a.args and (a.args[0].op == 'num' or a.args[1].op == 'num'):
                mp[a] = FALSE
        return restrict(hi, mp), lo
    if v.op == 'lt':
        p, q = v.args
        mp = {}
        if q.op == 'num':
            mp[raw('ispinf', p)] = FALSE
            lo = restrict(lo, {raw('isninf', p): FALSE})
        if p.op == 'num':
            mp[raw('isninf', q)] = FALSE
            lo = restrict(lo, {raw('ispinf', q): FALSE})
        if mp:
            hi = restrict(hi, mp)
        return hi, lo
    if v.op == 'eq':
        for x, c in (v.args, v.args[::-1]):
            if isconst(c) and not isconst(x):
                mp = {}
                for a in ite_atoms(hi):
                    if a.op == 'eq' and x in a.args and a is not v:
                        o = a.args[0] if a.args[1] is x else a.args[1]
                        if isconst(o) and not {o.op, c.op} == {'bool', 'num'}:
                            mp[a] = FALSE
                    elif a.op in ('isninf', 'ispinf') and a.args[0] is x:
                        mp[a] = FALSE
                if mp:
                    hi = restrict(hi, mp)
        return hi, lo
    return hi, lo


def ite_atoms(t, acc=None):
    acc = set() if acc is None else acc
    seen, st = set(), [t]
    while st:
        u = st.pop()
        if u.op == 'ite' and u not in seen:
            seen.add(u)
            acc.add(u.args[0])
            st += [u.args[1], u.args[2]]
    return acc


def restrict(t, mp, memo=None):
    if t.op != 'ite':
        return t
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    v, a, b = t.args
    c = mp.get(v)
    if c is TRUE:
        r = restrict(a, mp, memo)
    elif c is FALSE:
        r = restrict(b, mp, memo)
    else:
        x, y = restrict(a, mp, memo), restrict(b, mp, memo)
        r = t if x is a and y is b else x if x is y else raw('ite', v, x, y)
    memo[t] = r
    return r


def bnot(c):
    return ite(c, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def map_leaves(t, f):
    """apply f to each leaf of an MTBDD"""
    if t.op == 'ite':
        return ite(t.args[0], map_leaves(t.args[1], f), map_leaves(t.args[2], f))
    return f(t)


def lift2(t, u, f):
    if t.op == 'ite' and not is_bool(t):
        return ite(t.args[0], lift2(t.args[1], u, f), lift2(t.args[2], u, f))
    if u.op == 'ite' and not is_bool(u):
        return ite(u.args[0], lift2(t, u.args[1], f), lift2(t, u.args[2], f))
    return f(t, u)


def lift1(t, f):
    if t.op == 'ite' and not is_bool(t):
        return ite(t.args[0], lift1(t.args[1], f), lift1(t.args[2], f))
    return f(t)


def leaves(t):
    if t.op == 'ite':
        return leaves(t.args[1]) | leaves(t.args[2])
    return {t}


def eq(a, b):
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        if {a.op, b.op} == {'bool', 'num'}:
            return boolc(_lin_build(_lin_parts(a)) is _lin_build(_lin_parts(b)))
        return FALSE
    if a.op == 'ite' or b.op == 'ite':
        if is_bool(a) and isconst(b) and b.op == 'bool':
            return a if b is TRUE else bnot(a)
        if is_bool(b) and isconst(a) and a.op == 'bool':
            return b if a is TRUE else bnot(b)
        return lift2(a, b, eq)
    if a.op in ATOMS and b.op == 'bool':
        return a if b is TRUE else bnot(a)
    if b.op in ATOMS and a.op == 'bool':
        return b if a is TRUE else bnot(b)
    # infinities
    for x, y in ((a, b), (b, a)):
        if y is NINF:
            return isninf(x)
        if y is INF:
            return ispinf(x)
    for x, y in ((a, b), (b, a)):
        if (y.op == 'none' or y.op == 'const' and y.args[0] == 'EmptySet') and x.op in ('dictof', 'put', 'seq', 'bigcat', 'cat', 'obj', 'new'):
            return FALSE
    # seq literals of different shapes
    if a.op == 'seq' and b.op == 'seq':
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        r = TRUE
        for x, y in zip(a.args[0], b.args[0]):
            r = band(r, eq(x, y))
        return r
    if a.op == 'seq' or b.op == 'seq':
        s, o = (a, b) if a.op == 'seq' else (b, a)
        if not s.args[0]:
            return bnot(lenge(o, 1))
    # len(x) == n
    for x, y in ((a, b), (b, a)):
        if x.op == 'len' and y.op == 'num' and y.args[1] == 1:
            n = y.args[0]
            if n < 0:
                return FALSE
            if n == 0:
                return bnot(lenge(x.args[0], 1))
            return band(lenge(x.args[0], n), bnot(lenge(x.args[0], n + 1)))
    if a.op == 'new' and b.op in ('str', 'num', 'none', 'bool', 'inf'):
        return FALSE
    if b.op == 'new' and a.op in ('str', 'num', 'none', 'bool', 'inf'):
        return FALSE
    x, y = sorted((a, b))
    return raw('eq', x, y)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'ite' or b.op == 'ite':
        return lift2(a, b, lt)
    na = a.op in ('num', 'bool', 'inf')
    nb = b.op in ('num', 'bool', 'inf')
    if na and nb:
        fa, fb = fval(a), fval(b)
        return boolc(fa < fb)
    if b is NINF or a is INF:
        return FALSE
    if b is INF:
        return bnot(ispinf(a))
    if a is NINF:
        return bnot(isninf(b))
    # length comparisons
    if b.op == 'len' and a.op == 'num':
        n = int(frac(a) // 1) + 1
        return lenge(b.args[0], n)
    if a.op == 'len' and b.op == 'num':
        f = frac(b)
        n = int(f) if f.denominator == 1 else int(f // 1) + 1
        return bnot(lenge(a.args[0], n))
    return raw('lt', a, b)


def fval(t):
    if t.op == 'num':
        return frac(t)
    if t.op == 'bool':
        return Fraction(t.args[0])
    return float('inf') * t.args[0]


def le(a, b):
    return bnot(lt(b, a))


def isninf(x):
    if x.op == 'ite':
        return lift1(x, isninf)
    if isconst(x):
        return boolc(x is NINF)
    if x.op in ('len', 'seq', 'new', 'bigcat'):
        return FALSE
    if x.op == 'lin' and len(x.args[0]) == 1 and x.args[0][0][0] and len(x.args[0][0][0]) == 1:
        (m, n, d), = x.args[0]
        (t, e), = m
        if e == 1 and t.op != 'num':
            return isninf(t) if n > 0 else ispinf(t)
    return raw('isninf', x)


def ispinf(x):
    if x.op == 'ite':
        return lift1(x, ispinf)
    if isconst(x):
        return boolc(x is INF)
    if x.op in ('len', 'seq', 'new', 'bigcat'):
        return FALSE
    if x.op == 'lin' and len(x.args[0]) == 1 and x.args[0][0][0] and len(x.args[0][0][0]) == 1:
        (m, n, d), = x.args[0]
        (t, e), = m
        if e == 1 and t.op != 'num':
            return ispinf(t) if n > 0 else isninf(t)
    return raw('ispinf', x)


def lenge(s, n):
    """len(s) >= n"""
    if n <= 0:
        return TRUE
    if s.op == 'ite':
        return lift1(s, lambda u: lenge(u, n))
    if s.op == 'seq':
        return boolc(len(s.args[0]) >= n)
    if s.op == 'cat':
        lits = sum(len(x.args[0]) for x in s.args[0] if x.op == 'seq')
        if lits >= n:
            return TRUE
        rest = [x for x in s.args[0] if x.op != 'seq']
        if len(rest) == 1:
            return lenge(rest[0], n - lits)
        if n - lits == 1:
            r = FALSE
            for x in rest:
                r = bor(r, lenge(x, 1))
            return r
    if s.op == 'bigcat':
        (h,), L, body = s.args
        if n == 1:
            return exists_raw(h, L, map_leaves(body, lambda u: lenge(u, 1)))
        s = units(s)
        if s.op != 'bigcat':
            return lenge(s, n)
        m = purelen(s)
        if m is not None:
            return lt(num(n - 1), m)
    if s.op == 'rangeof':
        return lt(num(n - 1), s.args[0])
    if s.op == 'dictof' or s.op == 'setof':
        inner = s.args[0]
        if n == 1:
            return lenge(inner, 1)
    if s.op == 'slice':
        base, lo, hi = s.args
        if hi is NONE and isnum(lo) and lo.args[0] >= 0:
            return lenge(base, n + lo.args[0])
    if s.op == 'shuffled' or s.op == 'sorted':
        return lenge(s.args[0], n)
    return raw('lenge', s, n)


# ---------------------------------------------------------------- sequences
def seq(*xs):
    return raw('seq', tuple(xs))


EMPTYSEQ = seq()


def bind(fs, body):
    """replace fresh symbols fs by bound variables; returns (hs, body')"""
    hs = []
    for i, f in enumerate(fs):
        h = body.h + 1
        body = subst(body, {f: bv(h)}, hbump=h)
        hs.append(h)
        body = _bump(body, h)
    return tuple(hs), body


class _H:
    pass


def _bump(body, h):
    # record height: wrap through a tiny holder by raising .h via raw copy
    # (h is stored on the binder; the body itself contains bv(h))
    return body


def binder(op, fs, body, *rest):
    """canonical binder node: op((h...), rest..., body)"""
    base = body.h
    for r in rest:
        pass
    mp = {}
    hs = []
    for i, f in enumerate(fs):
        h = base + 1 + i
        mp[f] = bv(h)
        hs.append(h)
    body = subst(body, mp)
    return raw(op, tuple(hs), *rest, body)


def unbind(t):
    """open binder: returns (fresh symbols, body)"""
    hs, body = t.args[0], t.args[-1]
    fs = tuple(fresh() for _ in hs)
    return fs, subst(body, {bv(h): f for h, f in zip(hs, fs)})


def cat(*ss):
    out = []
    for s in ss:
        if s.op == 'cat':
            out.extend(s.args[0])
        elif s is EMPTYSEQ:
            continue
        else:
            out.append(s)
    merged = []
    for s in out:
        if merged and merged[-1].op == 'seq' and s.op == 'seq':
            merged[-1] = seq(*(merged[-1].args[0] + s.args[0]))
        else:
            merged.append(s)
    if not merged:
        return EMPTYSEQ
    if len(merged) == 1:
        return merged[0]
    return raw('cat', tuple(merged))


def bigcat(L, k, body):
    """concatenation over k in range(L) of body (an MTBDD of sequences)."""
    if body is EMPTYSEQ:
        return EMPTYSEQ
    if L.op == 'num' and frac(L).denominator == 1 and frac(L) <= 8 and body.op != 'ite':
        return cat(*[subst(body, {k: num(i)}) for i in range(int(frac(L)))])
    # eta: [S[k] for k in range(len S)] == S
    if body.op == 'seq' and len(body.args[0]) == 1:
        e = body.args[0][0]
        if e.op == 'item' and e.args[1] is k and k.args[0] not in e.args[0].free \
                and length(e.args[0]) is L:
            return e.args[0]
    r = setfilter(L, k, body, EMPTYSEQ)
    if r is not None:
        return bigcat(*r)
    return binder('bigcat', (k,), body, L)


DICT_SYMS = {'assignment', 'clause', 'kwargs', 'env'}
DICTLIST_SYMS = {'event_factor'}
DICT_ATTRS0 = frozenset({'lookup', 'env', 'kwargs', 'kwds', 'variables', 'constants', 'distributions'})
DICT_ATTRS = set(DICT_ATTRS0)


DICTLIST_CALLS = {'dnf_factor'}


def isdict(t):
    """terms known to denote mappings (by the naming of the analysed code)"""
    if t.op == 'sym':
        return t.args[0] in DICT_SYMS
    if t.op == 'item':
        b = t.args[0]
        return b.op == 'sym' and b.args[0] in DICTLIST_SYMS or b.op == 'call' and b.args[0] in DICTLIST_CALLS
    if t.op == 'attr':
        return t.args[1] in DICT_ATTRS
    return t.op in ('dictof', 'put')


def setkind(t):
    """terms known to denote collections of distinct elements, order immaterial"""
    return t.op in ('keys', 'setof', 'setinter') or t.op == 'mcall' and t.args[1] == 'get_symbols' \
        or t.op == 'attr' and t.args[1] == 'symbols'


def setinter(a, b):
    a, b = (x.args[0] if x.op == 'keys' else x for x in (a, b))
    if a is b:
        return a
    return raw('setinter', *sorted((a, b)))


def condatoms(t, acc=None):
    acc = [] if acc is None else acc
    if t.op == 'ite':
        if t.args[0] not in acc:
            acc.append(t.args[0])
        condatoms(t.args[1], acc)
        condatoms(t.args[2], acc)
    elif is_atom(t) and t not in acc:
        acc.append(t)
    return acc


def setfilter(L, k, body, empty):
    """iteration over S restricted to members of M  ->  iteration over S & M"""
    for a in condatoms(body):
        if a.op == 'in' and a.args[0].op == 'item' and a.args[0].args[1] is k:
            S = a.args[0].args[0]
            if k.args[0] in S.free or k.args[0] in a.args[1].free or not setkind(S) or length(S) is not L:
                continue
            if subst(body, {a: FALSE}) is not empty:
                continue
            I = setinter(S, a.args[1])
            n = fresh()
            b = subst(subst(body, {a: TRUE}), {item(S, k): item(I, n)})
            if k.args[0] in b.free:
                continue
            return length(I), n, b
    return None


def purelen(s):
    """length if every index contributes exactly one element, else None"""
    if s.op == 'bigcat':
        ls = leaves(s.args[2])
        ns = {len(x.args[0]) if x.op == 'seq' else None for x in ls}
        if ns == {1}:
            return s.args[1]
    return None


def units(s):
    (h,), L, body = s.args
    def f(u):
        if u.op == 'seq':
            return seq(*([ZERO] * len(u.args[0])))
        return u
    body2 = map_leaves(body, f)
    if body2 is body:
        return s
    fs, b = (lambda k: (k, subst(body2, {bv(h): k})))(fresh())
    return bigcat(L, fs, b)


LEN_FACTS = {}     # term -> canonical length term (class invariants), set per obligation


def length(s):
    if s.op == 'ite':
        return lift1(s, length)
    if s.op == 'seq':
        return num(len(s.args[0]))
    if s.op == 'str':
        return num(len(s.args[0]))
    if s.op == 'cat':
        r = ZERO
        for x in s.args[0]:
            r = add(r, length(x))
        return r
    if s.op == 'bigcat':
        m = purelen(s)
        if m is not None:
            return m
        u = units(s)
        return length(u) if u.op != 'bigcat' else raw('len', u)
    if s.op == 'rangeof':
        return s.args[0]
    if s.op in ('shuffled', 'sorted', 'reversed'):
        return length(s.args[0])
    f = _len_hook(s)
    if f is not None:
        return f
    return raw('len', s)


def _len_hook(s):
    # class invariant: attribute families of equal length
    if s.op == 'attr' and s.args[1] in LEN_ALIAS:
        return raw('len', raw('attr', s.args[0], LEN_ALIAS[s.args[1]]))
    return None


LEN_ALIAS = {'weights': 'children', 'indexes': 'children', 'outcomes': 'weights_nominal'}


def item(s, i):
    if s.op == 'ite' and not is_bool(s):
        return lift1(s, lambda u: item(u, i))
    if i.op == 'ite':
        return lift1(i, lambda u: item(s, u))
    if s.op == 'seq' and i.op == 'num' and i.args[1] == 1:
        xs = s.args[0]
        if -len(xs) <= i.args[0] < len(xs):
            return xs[i.args[0]]
        return raw('indexerror')
    if s.op == 'attr' and s.args[1] == 'indexes':
        return i
    if s.op == 'rangeof':
        return i
    if s.op == 'bigcat' and purelen(s) is not None:
        if i.op == 'num' and i.args[0] < 0:
            i = add(s.args[1], i)
        (h,), L, body = s.args
        return map_leaves(subst(body, {bv(h): i}), lambda u: u.args[0][0])
    if s.op == 'slice':
        base, lo, hi = s.args
        if isnum(lo) and lo.args[0] >= 0 and not (i.op == 'num' and i.args[0] < 0):
            return item(base, add(i, lo))
    if s.op == 'cat' and i.op == 'num' and i.args[1] == 1:
        first, last = s.args[0][0], s.args[0][-1]
        if i.args[0] >= 0 and first.op == 'seq' and i.args[0] < len(first.args[0]):
            return first.args[0][i.args[0]]
        if i.args[0] < 0 and last.op == 'seq' and -i.args[0] <= len(last.args[0]):
            return last.args[0][i.args[0]]
    if isdictop(s):
        return dget(s, i)
    return raw('item', s, i)


def slice_(s, lo, hi):
    if s.op == 'ite':
        return lift1(s, lambda u: slice_(u, lo, hi))
    if lo is NONE:
        lo = ZERO
    if s.op == 'seq' and (hi is NONE or isnum(hi)) and isnum(lo):
        return seq(*s.args[0][lo.args[0]: None if hi is NONE else hi.args[0]])
    if lo is ZERO and hi is NONE:
        return s
    if lo is ZERO and hi.op not in ('num',) or (lo is ZERO and isnum(hi) and hi.args[0] >= 0):
        if hi is length(s):
            return s
        # prefix of length hi (assumed <= len)
        if s.op in ('bigcat',) and purelen(s) is not None and not isnum(hi):
            k = fresh()
            return bigcat(hi, k, seq(item(s, k)))
        if not isnum(hi):
            k = fresh()
            return bigcat(hi, k, seq(item(s, k)))
    if isnum(lo) and lo.args[0] > 0 and hi is NONE and s.op == 'bigcat' and purelen(s) is not None:
        k = fresh()
        return bigcat(sub(s.args[1], lo), k, seq(item(s, add(k, lo))))
    return raw('slice', s, lo, hi)


def exists_raw(h, L, body):
    if body is FALSE:
        return FALSE
    k = fresh()
    return exists(L, k, subst(body, {bv(h): k}))


def exists(L, k, body):
    """exists k in range(L): body"""
    if body is FALSE:
        return FALSE
    if body is TRUE:
        return lt(ZERO, L)
    if L.op == 'num' and frac(L) <= 8:
        r = FALSE
        for i in range(int(frac(L))):
            r = bor(r, subst(body, {k: num(i)}))
        return r
    if isinstance(k, Term) and k.args[0] not in body.free:
        return band(lt(ZERO, L), body)
    body = _expand(body)
    r = setfilter(L, k, body, FALSE)
    if r is not None:
        return exists(*r)
    return binder('exists', (k,), body, L)


# ------------------------------------------------------------- dictionaries
def dget(d, k):
    if d.op == 'ite':
        return lift1(d, lambda u: dget(u, k))
    if d.op == 'put':
        base, k2, v = d.args
        e = eq(k2, k)
        if e is TRUE:
            return v
        if e is FALSE:
            return dget(base, k)
        return ite(e, v, dget(base, k))
    if d.op == 'dictof' and d.args[0].op == 'seq':
        r = None
        for p in d.args[0].args[0]:
            e = eq(p.args[0][0], k)
            if e is TRUE:
                r = p.args[0][1]
            elif e is not FALSE:
                return raw('dget', d, k)
        if r is not None:
            return r
    if d.op == 'dictof' and d.args[0].op == 'bigcat' and purelen(d.args[0]) is not None:
        # {f(k): v(k)} looked up at f(j)
        (h,), L, body = d.args[0].args
        if body.op == 'seq' and k.op != 'num':
            p = body.args[0][0]
            if p.op == 'seq' and len(p.args[0]) == 2:
                keyt, valt = p.args[0]
                m = match1(keyt, bv(h), k)
                if m is not None:
                    return subst(valt, {bv(h): m})
    return raw('dget' if isdictop(d) else 'item', d, k)


def match1(pat, v, t):
    """find u with pat[v:=u] is t (pat a simple term)"""
    if pat is v:
        return t
    if isinstance(pat, Term) and isinstance(t, Term) and pat.op == t.op and len(pat.args) == len(t.args):
        found = None
        for a, b in zip(pat.args, t.args):
            if a is b:
                continue
            if isinstance(a, Term) and isinstance(b, Term):
                m = match1(a, v, b)
                if m is None or (found is not None and found is not m):
                    return None
                found = m
            else:
                return None
        return found
    return None


def keys(d):
    if d.op == 'ite':
        return lift1(d, keys)
    if d.op == 'dictof':
        s = d.args[0]
        return mapseq(s, lambda p: item(p, ZERO))
    return raw('keys', d)


def mapseq(s, f):
    if s.op == 'ite':
        return lift1(s, lambda u: mapseq(u, f))
    if s.op == 'seq':
        return seq(*[f(x) for x in s.args[0]])
    if s.op == 'cat':
        return cat(*[mapseq(x, f) for x in s.args[0]])
    if s.op == 'bigcat':
        (h,), L, body = s.args
        k = fresh()
        body = subst(body, {bv(h): k})
        return bigcat(L, k, map_leaves(body, lambda u: mapseq(u, f)))
    k = fresh()
    return bigcat(length(s), k, seq(f(item(s, k))))


def ditems(d):
    if d.op == 'ite':
        return lift1(d, ditems)
    if d.op == 'dictof':
        return d.args[0]
    return mapseq(keys(d), lambda k: seq(k, dget(d, k)))


def has(d, k):
    if d.op == 'ite':
        return lift1(d, lambda u: has(u, k))
    if d.op == 'put':
        return bor(eq(d.args[1], k), has(d.args[0], k))
    if d.op == 'dictof' or d.op == 'setof' and d.args[0].op in ('seq', 'bigcat', 'cat'):
        s = d.args[0]
        ks = keys(d) if d.op == 'dictof' else s
        return inseq(k, ks)
    if d.op == 'setinter':
        return band(has(d.args[0], k), has(d.args[1], k))
    return raw('in', k, d)


def inseq(x, s):
    if s.op == 'ite':
        return lift1(s, lambda u: inseq(x, u))
    if s.op == 'seq':
        r = FALSE
        for y in s.args[0]:
            r = bor(r, eq(x, y))
        return r
    if s.op == 'cat':
        r = FALSE
        for y in s.args[0]:
            r = bor(r, inseq(x, y))
        return r
    if s.op == 'bigcat':
        (h,), L, body = s.args
        k = fresh()
        body = subst(body, {bv(h): k})
        return exists(L, k, map_leaves(body, lambda u: inseq(x, u)))
    if s.op == 'setof':
        return inseq(x, s.args[0])
    if s.op in ('keys',):
        return has(s.args[0], x)
    if s.op == 'setinter':
        return has(s, x)
    return raw('in', x, s)


def put(d, k, v):
    if d.op == 'dictof' and d.args[0].op == 'seq':
        pairs = list(d.args[0].args[0])
        for i, p in enumerate(pairs):
            e = eq(p.args[0][0], k)
            if e is TRUE:
                pairs[i] = seq(k, v)
                return raw('dictof', seq(*pairs))
            if e is not FALSE:
                break
        else:
            return raw('dictof', seq(*pairs, seq(k, v)))
    if d.op == 'put' and d.args[1] is k:
        return put(d.args[0], k, v)
    return raw('put', d, k, v)


def dictof(s):
    return raw('dictof', s)


# ------------------------------------------------------ AC operators (&, |)
def ac(op, *xs):
    flat = []
    for x in xs:
        if x.op == 'ite' and not is_bool(x):
            i = xs.index(x)
            return ite(x.args[0], ac(op, *(xs[:i] + (x.args[1],) + xs[i + 1:])),
                       ac(op, *(xs[:i] + (x.args[2],) + xs[i + 1:])))
        if x.op == 'ac' and x.args[0] == op:
            flat.extend(x.args[1])
        else:
            flat.append(x)
    u = sorted(set(flat))
    # fuse  item(S,0) op big(op, S[1:])  ->  big(op, S)
    for b in [x for x in u if x.op == 'big' and x.args[0] == op]:
        s = b.args[1]
        if s.op == 'bigcat' and purelen(s) is not None:
            (h,), L, body = s.args
            if body.op == 'seq':
                e = body.args[0][0]
                # body mentions item(X, bv+1): shift candidate
                e0 = subst(e, {bv(h): num(-1)})
                if e0 in u and e0 is not b:
                    k = fresh()
                    full = bigcat(add(L, ONE), k, seq(subst(e, {bv(h): sub(k, ONE)})))
                    rest = [x for x in u if x is not b and x is not e0]
                    return ac(op, big(op, full), *rest)
        if s.op == 'slice' and s.args[1] is ONE and s.args[2] is NONE:
            e0 = item(s.args[0], ZERO)
            if e0 in u:
                rest = [x for x in u if x is not b and x is not e0]
                return ac(op, big(op, s.args[0]), *rest)
    if len(u) == 1:
        return u[0]
    return raw('ac', op, tuple(u))


def invert(x):
    """~x with De Morgan pushed inward"""
    if x.op == 'ite' and not is_bool(x):
        return lift1(x, invert)
    if x.op == 'inv':
        return x.args[0]
    if x.op == 'ac':
        return ac('|' if x.args[0] == '&' else '&', *[invert(y) for y in x.args[1]])
    if x.op == 'big' and x.args[0] in '&|':
        return big('|' if x.args[0] == '&' else '&', mapseq(x.args[1], invert))
    return raw('inv', x)


def big(op, s):
    """iterated operator over a sequence; op in + * & | min max"""
    if s.op == 'ite':
        return lift1(s, lambda u: big(op, u))
    if s.op in ('shuffled', 'sorted', 'reversed'):
        return big(op, s.args[0])
    if op in '&|' and s.op == 'setof':
        return big(op, s.args[0])
    if s.op == 'seq':
        xs = s.args[0]
        if not xs:
            return {'+': ZERO, '*': ONE}.get(op) or raw('bigempty', op)
        r = xs[0]
        for x in xs[1:]:
            r = ap(op, r, x)
        return r
    if s.op == 'cat':
        r = None
        for x in s.args[0]:
            v = big(op, x)
            r = v if r is None else ap(op, r, v)
        return r
    if op == '+' and s.op == 'bigcat' and purelen(s) is not None:
        (h,), L, body = s.args
        if body.op == 'seq':
            e = body.args[0][0]
            if bv(h) not in subterms(e):
                return mul(L, e)
            # linear split: sum(a+b) = sum a + sum b ; constant factors out
            parts = _lin_parts(e)
            if len(parts) > 1:
                r = ZERO
                for m, c in parts.items():
                    k = fresh()
                    r = add(r, big('+', bigcat(L, k, seq(subst(_lin_build({m: c}), {bv(h): k})))))
                return r
            (m, c), = parts.items() or [((), 0)]
            out = tuple((t, p) for t, p in m if bv(h) not in subterms(t))
            inn = tuple((t, p) for t, p in m if bv(h) in subterms(t))
            if (out or c != 1) and inn:
                k = fresh()
                return mul(_lin_build({out: c}), big('+', bigcat(L, k, seq(subst(_lin_build({inn: Fraction(1)}), {bv(h): k})))))
    return raw('big', op, s)


def ap(op, a, b):
    if op == '+':
        return add(a, b)
    if op == '*':
        return mul(a, b)
    if op in '&|':
        return ac(op, a, b)
    return raw('big', op, seq(*sorted((a, b))))


# ------------------------------------------------------------- substitution
def subterms(t, acc=None):
    if acc is None:
        acc = set()
    if t in acc:
        return acc
    acc.add(t)
    for a in t.args:
        _subs(a, acc)
    return acc


def _subs(a, acc):
    if isinstance(a, Term):
        subterms(a, acc)
    elif isinstance(a, tuple):
        for x in a:
            _subs(x, acc)


MK = {}
DICT_OPS = ('dictof', 'put', 'group')


def isdictop(t):
    if t.op == 'foldv':
        return isdictop(t.args[0].args[2])
    return t.op in DICT_OPS


def rebuild(op, args):
    f = MK.get(op)
    if f:
        return f(*args)
    return raw(op, *args)


def subst(t, mp, memo=None, hbump=None):
    if memo is None:
        memo = {}
        mp = {k: v for k, v in mp.items() if k is not v}
        if not mp:
            return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in mp:
        r = mp[t]
    elif not t.args or t.op in ('num', 'str', 'sym', 'fresh', 'bv', 'bool', 'inf'):
        r = t
    else:
        new = tuple(_subst_arg(a, mp, memo) for a in t.args)
        if all(x is y for x, y in zip(new, t.args)):
            r = t
        elif t.op in BINDERS:
            # re-open and re-bind so that heights stay canonical
            hs, body = new[0], new[-1]
            fs = tuple(fresh() for _ in hs)
            body = subst(body, {bv(h): f for h, f in zip(hs, fs)})
            if t.op == 'bigcat':
                r = bigcat(new[1], fs[0], body)
            elif t.op == 'exists':
                r = exists(new[1], fs[0], body)
            else:
                r = binder(t.op, fs, body, *new[1:-1])
        else:
            r = rebuild(t.op, new)
    memo[t] = r
    return r


def _subst_arg(a, mp, memo):
    if isinstance(a, Term):
        return subst(a, mp, memo)
    if isinstance(a, tuple):
        n = tuple(_subst_arg(x, mp, memo) for x in a)
        return n if any(x is not y for x, y in zip(n, a)) else a
    return a


def _mk_lin(items):
    r = ZERO
    for m, n, d in items:
        p = num(Fraction(n, d))
        for t, e in m:
            if e < 0:
                for _ in range(-e):
                    p = mul(p, inv(t))
            else:
                for _ in range(e):
                    p = mul(p, t)
        r = add(r, p)
    return r


def truth(t):
    """boolean of an arbitrary term"""
    if is_bool(t):
        return t
    if t.op == 'ite':
        return lift1(t, truth)
    if t.op == 'num':
        return boolc(t is not ZERO)
    if t.op == 'none':
        return FALSE
    if t.op == 'inf':
        return TRUE
    if t.op == 'str':
        return boolc(t.args[0] != '')
    if t.op in ('seq', 'cat', 'bigcat', 'slice', 'shuffled', 'sorted', 'dictof', 'setof', 'keys', 'rangeof'):
        return lenge(t, 1)
    if t.op == 'put':
        return TRUE
    if t.op == 'len':
        return lenge(t.args[0], 1)
    if t.op in ('lam', 'ext', 'classref', 'func'):
        return TRUE
    if t.op == 'setinter' or setkind(t):
        return lt(ZERO, length(t))
    if isdict(t):
        return lt(ZERO, length(keys(t)))
    return raw('truth', t)


MK.update({
    'ite': ite, 'lin': _mk_lin, 'pow': power, 'seq': lambda xs: seq(*xs),
    'cat': lambda xs: cat(*xs), 'item': item, 'slice': slice_, 'len': length,
    'eq': eq, 'lt': lt, 'isninf': isninf, 'ispinf': ispinf, 'lenge': lenge,
    'dget': dget, 'keys': keys, 'has': has, 'put': put, 'in': inseq,
    'setinter': setinter, 'ac': lambda op, xs: ac(op, *xs), 'inv': invert, 'big': big, 'truth': truth,
})


# ------------------------------------------------------------------ display
def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t)
    if depth < 0:
        return '..'
    d = depth - 1
    o, a = t.op, t.args
    if o == 'num':
        return str(frac(t))
    if o == 'inf':
        return 'inf' if a[0] > 0 else '-inf'
    if o == 'bool':
        return 'True' if a[0] else 'False'
    if o == 'str':
        return repr(a[0])
    if o == 'none':
        return 'None'
    if o in ('sym', 'fresh'):
        return a[0]
    if o == 'bv':
        return 'i%d' % a[0]
    if o == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'dget':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'lin':
        out = []
        for m, n, dd in a[0]:
            c = Fraction(n, dd)
            fs = [show(x, d) + ('' if e == 1 else '^%d' % e) for x, e in m]
            out.append('*'.join(([str(c)] if c != 1 or not fs else []) + fs))
        return '(' + ' + '.join(out) + ')'
    if o == 'seq':
        return '[' + ', '.join(show(x, d) for x in a[0]) + ']'
    if o == 'bigcat':
        b = a[2]
        return '[.. %s for i%d < %s]' % (show(b, d), a[0][0], show(a[1], d))
    if o == 'exists':
        return 'any(%s for i%d < %s)' % (show(a[2], d), a[0][0], show(a[1], d))
    if o == 'ite':
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d), a[1], ', '.join(show(x, d) for x in a[2]))
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1]))
    if o == 'new':
        return '%s(%s)' % (show(a[0], d) if isinstance(a[0], Term) else a[0], ', '.join('%s=%s' % (k, show(v, d)) for k, v in a[1]))
    if o == 'isinst':
        return 'isinstance(%s, %s)' % (show(a[0], d), a[1])
    if o == 'eq':
        return '%s == %s' % (show(a[0], d), show(a[1], d))
    if o == 'lt':
        return '%s < %s' % (show(a[0], d), show(a[1], d))
    if o == 'is':
        return '%s is %s' % (show(a[0], d), show(a[1], d))
    if o == 'lenge':
        return 'len(%s) >= %d' % (show(a[0], d), a[1])
    if o == 'ac':
        return '(' + (' %s ' % a[0]).join(show(x, d) for x in a[1]) + ')'
    if o == 'big':
        return '%s{%s}' % (a[0], show(a[1], d))
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))
