"""Exporters (C23 dictionary and back, C24 SPPL source), decided by abstract interpretation of the writer and the reader.

Models are built by interpreting the constructors of the current source on uninterpreted parameters (every number is an indeterminate whose
text is a name of its own); the exporter is interpreted on them.  The dictionary is passed through the data model of JSON and the reader is
interpreted on it: the result must be the same tree with the same parameters.  The exported program text is parsed and evaluated
symbolically (choices enumerated, samples recorded): it must give every combination of leaves the weight that the model gives it.
"""
import ast
import io
import math
import random
import types

from .absint import HOST, INF, Abstract, Frame, Interp, Obj, Raised, Sym, Tok, Unsupported, rank_of
from .dists import Stats
from .measure import ONE, PR, ZERO, LogP, Val, const, fork_map, install
from .report import Report


class G(Sym):
    """a generic number: different from every constant; its text is its name"""
    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, Sym):
            return self.head == o.head and self.args == o.args
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.head, self.args))

    def __float__(self):            # formatting with %f, %g, ... does not keep the number
        return math.nan

    def __format__(self, spec):
        return format(math.nan, spec) if spec and spec[-1] in 'eEfFgGn%d' else format(str(self), spec)

    def __lt__(self, o):
        raise Unsupported('order of parameters')
    __le__ = __gt__ = __ge__ = __lt__


class NVal(Val):
    """a formal probability whose text is its name"""
    __slots__ = ('name',)

    def __init__(self, v, name):
        super().__init__(v.f, v.w)
        self.name = name

    def __repr__(self):
        return self.name
    __hash__ = Val.__hash__

    def __float__(self):
        return math.nan

    def __format__(self, spec):
        return format(math.nan, spec) if spec and spec[-1] in 'eEfFgGn%' else format(self.name, spec)


class Pt(Tok):
    """an endpoint"""
    __slots__ = ()

    def __float__(self):
        return math.nan

    def __format__(self, spec):
        return format(math.nan, spec) if spec and spec[-1] in 'eEfFgGn%' else format(repr(self), spec)
    __hash__ = Tok.__hash__


def place(x):
    """a representative number for an endpoint expression"""
    if isinstance(x, (Tok, int, float)):
        return rank_of(x)
    if isinstance(x, Sym):
        a = [place(v) for v in x.args]
        if None in a:
            return None
        if x.head in ('+', '-') and len(a) == 2:
            return a[0] + a[1] if x.head == '+' else a[0] - a[1]
        if x.head in ('float_to_int', 'int', 'floor', 'ceil') and a:
            return a[0]
    return None


class Table(Abstract):
    """frozen scipy law"""
    visible = ('dist', 'args', 'kwds', 'cdf', 'logcdf', 'freeze', 'xk', 'pk', 'name')

    def __init__(self, name, args=(), kwds=None):
        self.law, self.args, self.kwds = name, tuple(args), dict(kwds or {})
        if name == 'rv_discrete':
            xk, pk = self.kwds.pop('values')
            self.table = (tuple(xk), tuple(pk))
            self.dist = types.SimpleNamespace(name='Distribution', xk=self.table[0], pk=self.table[1])
        else:
            self.table = None
            self.dist = types.SimpleNamespace(name=name)

    def isinf(self):
        raise Raised(TypeError('must be real number'))

    def freeze(self):
        return self

    def key(self):
        return (self.law, self.args, tuple(sorted(self.kwds.items(), key=str)), self.table)

    def cdf(self, x):
        if isinstance(x, (Tok, Sym)):
            v = place(x)
            if v is None:
                raise Unsupported('cdf %r' % (x,))
            if not math.isinf(v):
                return Val(const(('cdf', repr(self.key()), v)), (v + 3) / 20)
            x = v
        if isinstance(x, float) and math.isinf(x):
            return ONE if x > 0 else ZERO
        raise Unsupported('cdf %r' % (x,))

    def logcdf(self, x):
        return LogP(self.cdf(x))

    def __eq__(self, o):
        return isinstance(o, Table) and self.key() == o.key()

    def __hash__(self):
        return hash(self.law)

    def __repr__(self):
        return '%s%r' % (self.law, self.args + tuple(sorted(self.kwds.items(), key=str)) + (self.table or ()))


class World:
    def __init__(self, P, compilers):
        it = self.it = Interp(P, fuel=400000)
        install(it)
        it.free = True
        for n in ('E', 'pi'):
            it.ext[('sympy', n)] = G(n)
        for n in ('sqrt', 'log', 'exp'):
            it.ext[('sympy', n)] = lambda x, n=n: G(n, x)

        class AllStats(Stats):
            pass
        it.ext[('scipy', 'stats')] = AllStats()
        orig = it.attr

        def attr(o, n):
            if isinstance(o, AllStats):
                return lambda *a, **k: Table(n, a, k)
            if isinstance(o, types.SimpleNamespace) and n == '__dict__':
                raise Unsupported('__dict__')
            return orig(o, n)
        it.attr = attr
        for m in ('sets', 'transforms', 'spe'):
            it.module(m)
        for m in ('transforms', 'spe', 'sets', 'math_util', 'sym_util'):
            g = it.module(m).vars
            for n in ('make_sympy_polynomial', 'logdiffexp', 'float_to_int', 'int_or_isinf_neg', 'int_or_isinf_pos'):
                if n in g:
                    g[n] = (lambda n: (lambda *a: True if n.startswith('int_or') else G(n, *map(frz, a))))(n)
        floaty = it.builtins['float']

        def float_(x=0.0):
            if isinstance(x, (Table,)):
                raise TypeError('float')
            return x if isinstance(x, Val) else floaty(x)

        def int_(x=0, *a):
            return G('int', x) if isinstance(x, (Tok, Sym, Val)) else int(x, *a)

        def round_(x, *a):
            return G('round', x, *a) if isinstance(x, (Tok, Sym, Val)) else round(x, *a)
        it.builtins.update({'float': float_, 'int': int_, 'round': round_})
        it.kinds.update({id(float_): float, id(int_): int})
        it.reprs = True
        self.g = {**it.module('sets').vars, **it.module('transforms').vars, **it.module('spe').vars}
        self.names = {}
        exp = it.ext[('math', 'exp')]

        def named(x):
            v = exp(x)
            if isinstance(v, Val):
                v = NVal(v, 'w%d' % len(self.names))
                self.names[v.name] = v
            return v
        it.ext[('math', 'exp')] = named
        for m in compilers:
            it.module(m)

    def new(self, cls, *a, **k):
        if cls not in self.g:
            raise Unsupported('no class ' + cls)
        return self.it.call(self.g[cls], a, k)

    def fn(self, module, name):
        v = self.it.module(module).vars
        if name not in v:
            raise Unsupported('no %s.%s' % (module, name))
        f = v[name]
        f.frame.vars.update(self.names)           # names of numbers, for eval in the reader
        return f


def frz(x):
    return tuple(map(frz, x)) if isinstance(x, (list, tuple)) else tuple(sorted((k, frz(v)) for k, v in x.items())) if isinstance(x, dict) else x


LAWS = {'continuous': ('norm', 'gamma', 'beta', 'uniform'), 'integer': ('poisson', 'binom', 'randint', 'geom')}


class Gen:
    """random models over an exporter world"""

    def __init__(self, W, seed, sppl=False):
        self.W, self.r, self.p, self.sppl = W, random.Random(seed), random.Random(seed + 1), sppl
        self.n = 0
        W.names.clear()

    def num(self):
        self.n += 1
        x = G('g%d' % self.n)
        self.W.names[str(x)] = x
        return x

    def pt(self, k):
        x = Pt(k)
        self.W.names[repr(x)] = x
        return x

    def simplex(self, n):
        ps = [Val(self.p.randrange(1, PR), self.p.uniform(.05, 1)) for _ in range(n)]
        t = sum(ps, ZERO)
        ps = [p / t for p in ps]
        ps[-1] = ONE - sum(ps[:-1], ZERO)
        out = []
        for p in ps:
            self.n += 1
            v = NVal(p, 'p%d' % self.n)
            self.W.names[v.name] = v
            out.append(v)
        return out

    def const(self):
        r = self.r
        k = r.random()
        if k < .55:
            return self.num()
        E, pi = self.W.it.ext[('sympy', 'E')], self.W.it.ext[('sympy', 'pi')]
        return r.choice([E, pi, G('sqrt', 2), G('log', 3), 2, 3, 0.5])

    def fun(self, x, depth):
        """a transform of x"""
        W, r = self.W, self.r
        if depth == 0:
            return x
        x = self.fun(x, depth - 1 if r.random() < .8 else 0)
        kinds = ['Poly', 'Poly', 'Reciprocal', 'Radical', 'Exponential', 'Abs', 'Logarithm', 'Piecewise']
        k = r.choice(kinds)
        if k == 'Poly':
            return W.new('Poly', x, [self.const() for _ in range(r.choice((2, 3, 4)))])
        if k == 'Radical':
            return W.new('Radical', x, r.choice((2, 3)))
        if k in ('Exponential', 'Logarithm'):
            return W.new(k, x, self.const())
        if k == 'Piecewise':
            es = [x, W.new('Abs', x)]
            return W.new('Piecewise', es, [self.ev(x), self.ev(x, 3)])
        return W.new(k, x)

    def ev(self, x, base=0):
        W, r = self.W, self.r
        k = r.random()
        if k < .5:
            return W.new('EventInterval', x, self.interval(base, base + 2))
        if k < .7:
            return W.new('EventFiniteReal', x, W.new('FiniteReal', *[self.pt(base + i) for i in range(r.choice((1, 2)))]))
        return W.new(r.choice(('EventAnd', 'EventOr')), [W.new('EventInterval', x, self.interval(base, base + 1)), W.new('EventInterval', x, self.interval(base + 1, base + 2))])

    def interval(self, a, b, inf=False):
        r = self.r
        lo = -INF if inf and r.random() < .3 else self.pt(a)
        hi = INF if inf and r.random() < .3 else self.pt(b)
        fl = lambda x: (None if isinstance(x, float) else r.choice((None, True)))
        return self.W.new('Interval', lo, hi, left_open=fl(lo), right_open=fl(hi))

    def leaf(self, var, kind, env):
        W, r = self.W, self.r
        x = W.new('Identity', var)
        if kind == 'nominal':
            keys = r.sample(['a', 'b', 'c c', "d's", 'e"q'], r.choice((1, 2, 3)))
            return W.new('NominalLeaf', x, dict(zip(keys, self.simplex(len(keys)))))
        e = {x: x}
        for z, _ in env:
            src = r.choice(sorted(e, key=str)) if r.random() < .4 else x
            e[W.new('Identity', z)] = self.fun(src, r.choice((1, 1, 2, 3)))
        e = e if env else None
        if kind == 'atomic':
            return W.new('AtomicLeaf', x, self.pt(r.randrange(6)), e)
        if kind == 'integer' and r.random() < .3:
            n = r.choice((1, 2, 3))
            law = Table('rv_discrete', (), {'values': ([self.num() for _ in range(n)], [self.num() for _ in range(n)])})
        else:
            name = r.choice(LAWS[kind])
            ks = r.sample(['loc', 'scale', 'a', 'b', 'mu'], r.choice((0, 1, 2, 3)))
            nargs = r.choice((0, 0, 1, 2)) if not self.sppl else 0
            law = Table(name, [self.num() for _ in range(nargs)], {k: self.num() for k in ks})
        cond = r.choice((None, None, True))
        a, b = sorted(r.sample(range(7), 2))
        return W.new('ContinuousLeaf' if kind == 'continuous' else 'DiscreteLeaf', x, law, self.interval(a, b, True), cond, e)

    def model(self, vs, depth):
        """vs: {variable: (kind, [derived])}"""
        W, r = self.W, self.r
        names = list(vs)
        if depth == 0 or r.random() < .15:
            ls = []
            for v in names:
                kind, env = vs[v]
                if kind != 'nominal':
                    kind = r.choice((kind, kind, kind) + (() if self.sppl else ('atomic',)))
                ls.append(self.leaf(v, kind, env))
            return ls[0] if len(ls) == 1 else W.new('ProductSPE', ls)
        if len(names) > 1 and r.random() < .4:
            r.shuffle(names)
            k = r.randrange(1, len(names))
            return W.new('ProductSPE', [self.model({v: vs[v] for v in names[:k]}, depth - 1), self.model({v: vs[v] for v in names[k:]}, depth - 1)])
        n = r.choice((1, 2, 2, 3, 4, 11) if depth == 1 else (2, 3))
        ps = [self.model(vs, depth - 1) for _ in range(n)]
        return W.new('SumSPE', ps, [LogP(w) for w in self.simplex(n)])

    def make(self, k):
        r = self.r
        vs = {}
        for v in ('X', 'Y', 'W')[:1 + k % 3]:
            kind = r.choice(('continuous', 'integer', 'nominal'))
            vs[v] = (kind, [] if kind == 'nominal' else [(v + str(i), None) for i in range(r.choice((0, 0, 1, 2)))])
        return self.model(vs, k // 3 % 4)


class Wrong(Exception):
    pass


def tree(x, seen=()):
    """structure of a value, for messages and comparison"""
    if isinstance(x, Obj):
        return x.cls.name
    return repr(x)


SKIP = ('hash', 'lookup', '_hash')


def differ(x, y, path='model', seen=None):
    """where two values differ, or None"""
    seen = set() if seen is None else seen
    if isinstance(x, Obj) and isinstance(y, Obj):
        if (id(x), id(y)) in seen:
            return None
        seen.add((id(x), id(y)))
        if x.cls is not y.cls:
            return '%s is a %s, was a %s' % (path, y.cls.name, x.cls.name)
        for k in sorted(set(x.attrs) | set(y.attrs)):
            if k in SKIP or k.startswith('__'):
                continue
            if k not in x.attrs or k not in y.attrs:
                return '%s.%s is missing' % (path, k)
            d = differ(x.attrs[k], y.attrs[k], '%s.%s' % (path, k), seen)
            if d:
                return d
        return None
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        if len(x) != len(y):
            return '%s has %d parts, had %d' % (path, len(y), len(x))
        for i, (a, b) in enumerate(zip(x, y)):
            d = differ(a, b, '%s[%d]' % (path, i), seen)
            if d:
                return d
        return None
    if isinstance(x, dict) and isinstance(y, dict):
        if len(x) != len(y):
            return '%s has %d entries, had %d' % (path, len(y), len(x))
        ys = {str(k): (k, v) for k, v in y.items()}
        for k, v in x.items():
            if str(k) not in ys:
                return '%s has no entry %s' % (path, k)
            d = differ(k, ys[str(k)][0], '%s key' % path, seen) or differ(v, ys[str(k)][1], '%s[%s]' % (path, k), seen)
            if d:
                return d
        return None
    if isinstance(x, (set, frozenset)) and isinstance(y, (set, frozenset)):
        return None if sorted(map(str, x)) == sorted(map(str, y)) else '%s is %s, was %s' % (path, y, x)
    if callable(x) and callable(y) and not isinstance(x, Abstract):
        return None
    if isinstance(x, (Obj, list, tuple, dict)) or isinstance(y, (Obj, list, tuple, dict)):
        return '%s is %r, was %r' % (path, y, x)
    if x is None and y in (None, False) or y is None and x in (None, False):
        return None
    if x is True or y is True or x is None or y is None:
        return None if x is y else '%s is %r, was %r' % (path, y, x)
    return None if x == y else '%s is %r, was %r' % (path, y, x)


def jsonify(x, path='result'):
    """x through the data model of JSON"""
    if x is None or isinstance(x, (bool, str, int, float, Sym, Tok, Val, LogP)):
        return x
    if isinstance(x, (list, tuple)):
        return [jsonify(v, path) for v in x]
    if isinstance(x, dict):
        for k in x:
            if not isinstance(k, str):
                raise Wrong('the dictionary form has the key %r, which is not text' % (k,))
        return {k: jsonify(v, path) for k, v in x.items()}
    raise Wrong('the dictionary form contains %s, which JSON cannot express' % tree(x))


class Bench:
    def __init__(self, P, rule, compilers):
        self.rep = Report(rule)
        self.P, self.und = P, {}
        self.W = World(P, compilers)

    def guard(self, where, what, f):
        rep = self.rep
        self.W.it.fuel = 400000
        rep.begin(self.W.it)
        try:
            bad = f()
        except Unsupported as e:
            self.und[str(e)] = self.und.get(str(e), 0) + 1
            return
        except Wrong as e:
            bad = str(e)
        except Raised as e:
            if isinstance(e.exc, (TypeError, AttributeError)) and not e.where:
                k = '%s: %s' % (type(e.exc).__name__, e.exc)
                self.und[k] = self.und.get(k, 0) + 1
                return
            bad = 'raises %s(%s)' % (type(e.exc).__name__, e.exc)
        except RecursionError:
            bad = 'does not terminate'
        except HOST as e:
            k = 'host %s: %s' % (type(e).__name__, e)
            self.und[k] = self.und.get(k, 0) + 1
            return
        rep.took(self.W.it)
        rep.count(where)
        if bad and sum(x.construct == where for x in rep.findings) < 3:
            mod = where.rsplit('.', 1)[0]
            rep.find(where, self.P.modules[mod].path if mod in self.P.modules else mod, '%s: %s' % (what, bad))
        elif not bad and len(rep.samples) < 6 and rep.instances % 23 == 3:
            rep.samples.append({'case': what[:300], 'verdict': 'as defined'})

    def done(self, floor):
        self.rep.undecided += ['%d cases: %s' % (v, k) for k, v in sorted(self.und.items(), key=lambda t: -t[1])[:20]]
        self.rep.functions |= {n for n in self.W.it.touched if not n.startswith('<')}
        self.rep.floor = floor
        return self.rep


def text(o):
    """short description of an interpreted model"""
    a = o.attrs
    n = o.cls.name
    if n in ('SumSPE', 'ProductSPE'):
        cs = [text(c) for c in a['children']]
        if n == 'SumSPE':
            cs = ['%r*%s' % (w.v if isinstance(w, LogP) else w, c) for w, c in zip(a['weights'], cs)]
        return '%s(%s)' % ('mixture' if n == 'SumSPE' else 'product', ', '.join(cs))
    bits = [str(a.get('symbol'))]
    if 'dist' in a:
        bits.append(str(a['dist']))
    if 'value' in a:
        bits.append(str(a['value']))
    if isinstance(a.get('support'), Obj) and n.endswith(('usLeaf', 'teLeaf')):
        bits.append(str(a['support']) + (' conditioned' if a.get('conditioned') else ''))
    if a.get('env') and len(a['env']) > 1:
        bits.append('{%s}' % ', '.join('%s = %s' % (k, v) for k, v in list(a['env'].items())[1:]))
    return '%s(%s)' % (n, ', '.join(bits))


def split(per_case, rule, compilers, quick, thorough, floor):
    def run(P, prop, tier):
        n = quick if tier == 'quick' else thorough
        procs = 8 if n >= 64 else 1

        def part(i):
            try:
                B = Bench(P, rule, compilers)
            except (Unsupported, Raised, KeyError) as e:
                rep = Report(rule)
                rep.missing.append(repr(e))
                rep.floor = floor
                return rep
            for k in range(i, n, procs):
                per_case(B, k)
            return B.done(floor)
        reps = fork_map(part, procs)
        for r in reps[1:]:
            reps[0].merge(r)
        return reps[0]
    return run


# ---------------------------------------------------------------- C23
DICT = 'compilers.spe_to_dict'


def make(B, salt, k, **kw):
    """a model, built by interpretation (models whose construction needs arithmetic on numbers are passed over)"""
    for j in range(6):
        gen = Gen(B.W, (salt + j) * 1000003 + k, **kw)
        B.W.it.order = k % 3
        B.W.it.fuel = 400000
        try:
            return gen.make(k)
        except (Unsupported, Raised) as e:
            why = 'building: %s' % (e.exc if isinstance(e, Raised) else e)
    B.und[why] = B.und.get(why, 0) + 1


def dict_case(B, k):
    W = B.W
    m = make(B, 91, k)
    if m is None:
        return
    modname = [x for x in B.P.modules if x.endswith('spe_to_dict')][0]

    def f():
        d = W.it.call(W.fn(modname, 'spe_to_dict'), (m,), {})
        if not isinstance(d, dict):
            raise Wrong('the exporter returns %s' % tree(d))
        for how, form in (('', d), (' through JSON', jsonify(d))):
            b = W.it.call(W.fn(modname, 'spe_from_dict'), (form,), {})
            x = differ(m, b)
            if x:
                raise Wrong('after the round trip%s %s' % (how, x))
            r = m == b
            if r is NotImplemented or not W.it.truth(r):
                raise Wrong('after the round trip%s the model is not equal to the original' % how)
            order(b)

    def order(o):
        env = o.attrs.get('env')
        if env:
            seen = set()
            for i, (z, e) in enumerate(env.items()):
                used = {str(s) for s in W.it.listing(W.it.call(W.it.attr(e, 'get_symbols'), (), {}))}
                if i and not used <= seen:
                    raise Wrong('after the round trip a derived variable precedes those it is computed from')
                seen.add(str(z))
        for c in o.attrs.get('children', ()):
            order(c)
    kind = 'spe_from_dict'
    B.guard('%s.%s' % (modname, kind), text(m), f)


run_dict = split(dict_case, 'dictionary-round-trip', ['compilers.spe_to_dict'], 400, 8000, 200)


# ---------------------------------------------------------------- C24
SPPL = 'compilers.spe_to_sppl'
HEADS = ('sppl.distributions', 'sppl.sets', 'sppl.transforms', 'sympy')


def leaf_key(o):
    a = o.attrs
    n = o.cls.name
    env = tuple((repr(k), repr(v)) for k, v in list((a.get('env') or {}).items())[1:])
    if n == 'NominalLeaf':
        return (str(a['symbol']), 'choice', tuple(sorted((str(k), repr(key(w))) for k, w in a['dist'].items())), None, env)
    d = a['dist']
    table = tuple(zip(map(repr, d.table[0]), map(repr, d.table[1]))) if d.table else None
    return (str(a['symbol']), d.law if not table else 'discrete', table or tuple(sorted((k, repr(v)) for k, v in d.kwds.items())),
            repr(a['support']) if a['conditioned'] else None, env)


def key(w):
    return w.f if isinstance(w, Val) else w


def expand(o):
    """[(weight, leaf keys)]"""
    n = o.cls.name
    if n == 'SumSPE':
        return [(w.v * u, ls) for w, c in zip(o.attrs['weights'], o.attrs['children']) for u, ls in expand(c)]
    if n == 'ProductSPE':
        out = [(ONE, ())]
        for c in o.attrs['children']:
            sub = expand(c)
            if len(out) * len(sub) > 3000:
                raise Unsupported('too many combinations')
            out = [(w * u, ls + ms) for w, ls in out for u, ms in sub]
        return out
    return [(ONE, (leaf_key(o),))]


def tally(paths):
    out = {}
    for w, ls in paths:
        k = tuple(sorted(ls))
        out[k] = out[k] + w if k in out else w
    return out


class Program:
    """symbolic evaluation of an exported program"""

    def __init__(self, W, src, scope):
        self.W, self.scope = W, scope
        src = src.replace('~=', '=')
        try:
            self.tree = ast.parse(src)
        except SyntaxError as e:
            raise Wrong('the program is not well formed at %r' % ((e.text or '').strip(),))
        self.steps = 0
        self.tested = {x.id for st in ast.walk(self.tree) if isinstance(st, ast.If) for x in ast.walk(st.test) if isinstance(x, ast.Name)}

    def value(self, node, fr, what):
        try:
            return self.W.it.ex_uncached(node)(fr)
        except Raised as e:
            if isinstance(e.exc, (NameError, KeyError)):
                raise Wrong('%s uses %s, which is not defined' % (what, e.exc))
            raise

    def run(self):
        mods = {'sppl.sets': 'sets', 'sppl.transforms': 'transforms'}
        fr = Frame(None, self.scope)
        body = list(self.tree.body)
        self.laws = False
        while body and isinstance(body[0], ast.ImportFrom):
            st = body.pop(0)
            if st.module == 'sppl.distributions':
                self.laws = True
            elif st.module in mods:
                vs = self.W.it.module(mods[st.module]).vars
                for a in st.names:
                    fr.vars.update({k: v for k, v in vs.items() if not k.startswith('_')} if a.name == '*' else {a.asname or a.name: vs[a.name]})
            elif st.module in ('sympy', 'math'):
                for a in st.names:
                    if (st.module, a.name) in self.W.it.ext:
                        fr.vars[a.asname or a.name] = self.W.it.ext[(st.module, a.name)]
            else:
                raise Unsupported('import of %s' % st.module)
        if not self.laws:
            raise Wrong('the program does not import the distributions')
        fr.vars.update(self.W.names)
        st = {'w': ONE, 'pick': {}, 'choice': {}, 'leaf': {}, 'order': [], 'root': {}, 'fr': fr, 'declared': set()}
        return [(s['w'], tuple(self.finish(s))) for s in self.seq(body, st)]

    def finish(self, s):
        for n, d in s['choice'].items():
            # a choice that is no branch variable is a leaf
            if n not in self.tested:
                yield (n, 'choice', tuple(sorted((k, repr(key(w))) for k, w in d.items())), None, ())
        for n, (law, kw, cond, env) in s['leaf'].items():
            yield (n, law, kw, cond, tuple(env))

    def seq(self, body, s):
        if not body:
            yield s
            return
        self.steps += 1
        if self.steps > 20000:
            raise Unsupported('too many paths')
        st, rest = body[0], body[1:]
        for t in self.step(st, s):
            yield from self.seq(rest, t)

    def step(self, st, s):
        s = dict(s, pick=dict(s['pick']), choice=dict(s['choice']), leaf={k: (a, b, c, list(d)) for k, (a, b, c, d) in s['leaf'].items()}, root=dict(s['root']))
        txt = ast.unparse(st).split('\n')[0]
        if isinstance(st, ast.Pass):
            yield s
            return
        if isinstance(st, ast.Assign):
            if len(st.targets) != 1 or not isinstance(st.targets[0], ast.Name):
                raise Wrong('the program has the statement %s' % txt)
            n = st.targets[0].id
            if n in s['choice'] or n in s['leaf'] or n in s['root']:
                raise Wrong('the program defines %s twice' % n)
            v = st.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'choice':
                d = self.table(v, s['fr'], txt)
                s['choice'][n] = {str(k): w for k, w in d.items()}
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'discrete':
                d = self.table(v, s['fr'], txt)
                s['leaf'][n] = ('discrete', tuple((repr(k), repr(w)) for k, w in d.items()), None, [])
                s['root'][n] = n
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in sum(LAWS.values(), ()) + ('Distribution', 'None', 'rv_discrete'):
                if v.args or any(k.arg is None for k in v.keywords) or v.func.id in ('Distribution', 'None'):
                    raise Wrong('the program samples from %s' % ast.unparse(v))
                s['leaf'][n] = (v.func.id, tuple(sorted((k.arg, repr(self.value(k.value, s['fr'], txt))) for k in v.keywords)), None, [])
                s['root'][n] = n
            else:
                names = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
                known = names & (set(s['root']) | set(s['choice']))
                if not known:
                    raise Wrong('%s is computed from no variable in %s' % (n, txt))
                e = self.value(v, self.scoped(s), txt)
                if not (isinstance(e, Obj) and e.cls.name not in ('FiniteReal',)):
                    raise Wrong('%s is not a transform in %s' % (n, txt))
                used = {str(x) for x in self.W.it.listing(self.W.it.call(self.W.it.attr(e, 'get_symbols'), (), {}))}
                roots = {s['root'].get(u) for u in used}
                if len(roots) != 1 or None in roots:
                    raise Wrong('%s is computed from variables that are not defined before it: %s' % (n, txt))
                s['root'][n] = r = roots.pop()
                s['leaf'][r][3].append((repr(self.ident(n)), repr(e)))
            yield s
            return
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == 'condition':
            c = st.value
            if len(c.args) != 1 or c.keywords:
                raise Wrong('the program has the statement %s' % txt)
            e = self.value(c.args[0], self.scoped(s), txt)
            if not (isinstance(e, Obj) and 'values' in e.attrs and e.attrs['subexpr'].cls.name == 'Identity'):
                raise Wrong('the program conditions on %s' % txt)
            n = str(e.attrs['subexpr'])
            if n not in s['leaf'] or s['leaf'][n][2] or s['leaf'][n][3]:
                raise Wrong('%s is conditioned out of order' % n)
            a, b, _, d = s['leaf'][n]
            s['leaf'][n] = (a, b, repr(e.attrs['values']), d)
            yield s
            return
        if isinstance(st, ast.If):
            var = self.branch(st, s)
            if var is None:
                raise Wrong('the program branches on %s' % txt)
            if var in s['pick']:
                outs = [(s['pick'][var], ONE)]
            else:
                outs = list(s['choice'][var].items())
            for o, w in outs:
                t = dict(s, pick=dict(s['pick'], **{var: o}), w=s['w'] * w)
                node = st
                while True:
                    if self.holds(node.test, o, t):
                        body = node.body
                        break
                    if len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If):
                        node = node.orelse[0]
                        continue
                    if not node.orelse:
                        raise Wrong('no branch for %s = %r' % (var, o))
                    body = node.orelse
                    break
                yield from self.seq(body, t)
            return
        raise Wrong('the program has the statement %s' % txt)

    def ident(self, n):
        return self.W.new('Identity', n)

    def scoped(self, s):
        fr = Frame(s['fr'], s['fr'].mod)
        for n in list(s['root']) + list(s['choice']):
            fr.vars[n] = self.ident(n)
        return fr

    def table(self, v, fr, txt):
        if len(v.args) != 1 or v.keywords or not isinstance(v.args[0], ast.Dict):
            raise Wrong('the program samples from %s' % ast.unparse(v))
        return dict(zip([self.value(k, fr, txt) for k in v.args[0].keys], [self.value(x, fr, txt) for x in v.args[0].values]))

    def branch(self, st, s):
        node, var = st, None
        while True:
            t = node.test
            ok = isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In)) and isinstance(t.left, ast.Name)
            if not ok or t.left.id not in s['choice'] or var not in (None, t.left.id):
                return None
            var = t.left.id
            if len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If):
                node = node.orelse[0]
                continue
            return var

    def holds(self, t, o, s):
        c = t.comparators[0]
        vs = [c] if isinstance(t.ops[0], ast.Eq) else list(getattr(c, 'elts', ()))
        return o in [self.value(x, s['fr'], ast.unparse(t)) for x in vs]


def sppl_case(B, k):
    W = B.W
    m = make(B, 17, k, sppl=True)
    if m is None:
        return
    try:
        want = tally(expand(m))
    except Unsupported as e:
        B.und[str(e)] = B.und.get(str(e), 0) + 1
        return
    modname = [x for x in B.P.modules if x.endswith('spe_to_sppl')][0]

    def f():
        fn = W.fn(modname, 'render_sppl')
        if k % 4 == 3:
            out = io.StringIO()
            r = W.it.call(fn, (m,), {'stream': out})
            if r is not out:
                raise Wrong('the stream that was given is not the one returned')
        else:
            out = W.it.call(fn, (m,), {})
        if not isinstance(out, io.StringIO):
            raise Wrong('the exporter returns %s' % tree(out))
        src = out.getvalue()
        if 'object at 0x' in src or 'sa.' in src:
            raise Unsupported('text of a library object')
        if any(x in src for x in ('float_to_int', 'logdiffexp', 'make_sympy')):
            raise Unsupported('text of a term')
        got = tally(Program(W, src, fn.frame.mod if hasattr(fn.frame, 'mod') else None).run())
        for ls, w in want.items():
            if ls not in got:
                near = min(got, key=lambda g: len(set(g) ^ set(ls)), default=())
                raise Wrong('the program does not have the combination %s (it has %s)' % (sorted(set(ls) - set(near)) or ls, sorted(set(near) - set(ls)) or near))
            if got[ls] != w:
                raise Wrong('the program gives the combination %s another weight' % (ls,))
        for ls in got:
            if ls not in want:
                raise Wrong('the program has the extra combination %s' % (ls,))
    B.guard('%s.render_sppl' % modname, text(m), f)


run_sppl = split(sppl_case, 'exported-program', ['compilers.spe_to_sppl'], 300, 6000, 150)
