"""Programs of the modelling language.

The commands of src/compilers/ast_to_spe.py are interpreted on abstract programs (prior draws, transforms, conditions, alternatives, switches
and loops nested in each other); the model they build is asked for the probability of events.  The definition it is compared with runs the
program on the cells of the abstract outcome space: a draw splits every cell, a condition discards cells and renormalises, an alternative
sends every cell to the first branch whose condition it satisfies.
"""
from .absint import INF, Raised, Unsupported
from .measure import DISC, NOM, ONE, REAL, ZERO, Bad, etext, holds, same, split_cases, symbols
from .setalg import NR, interval, nominal, real

MOD = 'compilers.ast_to_spe'


class Null(Exception):
    """the program conditions on an event that cannot happen"""


class Refuse(Exception):
    """some outcome satisfies no branch"""


# ---------------------------------------------------------------- the definition
class State:
    """{cell of the outcome space: probability}; vs = variables, derived ones as (base, function)"""

    def __init__(self, pts, vs):
        self.pts, self.vs = pts, vs

    def prob(self, E=None):
        return sum((p for x, p in self.pts.items() if E is None or self.has(x, E)), ZERO)

    def has(self, x, E):
        return holds(E, dict(x), self.vs)

    def cut(self, test):
        pts = {x: p for x, p in self.pts.items() if test(x)}
        z = sum(pts.values(), ZERO)
        return z, State({x: p / z for x, p in pts.items() if p.f} if z.f else {}, self.vs)


def meaning(c, st):
    t = c[0]
    if t == 'skip':
        return st
    if t == 'sample':
        l = c[1]
        old = st.pts if st else {(): ONE}
        return State({x + ((l.var, k),): p * q for x, p in old.items() for k, q in l.mass.items() if q.f}, {**(st.vs if st else {}), l.var: None})
    if t == 'transform':
        return State(st.pts, {**st.vs, c[1]: (c[3], c[2])})
    if t == 'condition':
        z, out = st.cut(lambda x: st.has(x, c[1]))
        if not z.f:
            raise Null()
        return out
    if t == 'constrain':
        z, out = st.cut(lambda x: all(dict(x)[v] == k for v, k in c[1].items()))
        if not z.f:
            raise Null()
        return out
    if t == 'seq' or t == 'for':
        for d in c[1]:
            st = meaning(d, st)
        return st
    if t == 'if':
        tests, bodies = zip(*c[1])
        pick = lambda x: next((i for i, e in enumerate(tests) if e is True or st.has(x, e)), None)
    else:
        tests, bodies = zip(*c[2])
        E = [('lit', c[1], s) for s in tests]
        pick = lambda x: next((i for i, e in enumerate(E) if st.has(x, e)), None)
    which = {x: pick(x) for x in st.pts}
    if any(which[x] is None and p.f for x, p in st.pts.items()):
        raise Refuse()
    out, vs = {}, None
    for i, b in enumerate(bodies):
        z, s = st.cut(lambda x: which[x] == i)
        if not z.f:
            continue
        r = meaning(b, s)
        if vs is not None and set(vs) != set(r.vs):
            raise Unsupported('variables of the branches')
        vs = r.vs
        for x, p in r.pts.items():
            x = tuple(sorted(x, key=str))
            out[x] = out.get(x, ZERO) + z * p
    return State(out, vs)


def ptext(c):
    t = c[0]
    if t == 'skip':
        return 'skip'
    if t == 'sample':
        return '%s ~ %s' % (c[1].var, c[1].text())
    if t == 'transform':
        return '%s = %s(%s)' % c[1:]
    if t == 'condition':
        return 'condition(%s)' % etext(c[1])
    if t == 'constrain':
        return 'constrain(%s)' % ', '.join('%s = %s' % i for i in sorted(c[1].items()))
    if t in ('seq', 'for'):
        return '%s{%s}' % ('for' if t == 'for' else '', '; '.join(map(ptext, c[1])))
    if t == 'if':
        return 'if ' + ' elif '.join('%s {%s}' % ('otherwise' if e is True else etext(e), ptext(b)) for e, b in c[1])
    return 'switch %s in %s{%s}' % (c[1], 'enumerate ' if c[3] else '', ', '.join('%s: {%s}' % (s.text(), ptext(b)) for s, b in c[2]))


# ---------------------------------------------------------------- programs
class Progs:
    def __init__(self, G, kinds):
        self.G, self.r, self.kinds = G, G.r, kinds

    def leaf(self, v):
        while True:
            l = self.G.leaf(v, self.kinds[v], False)
            if len(l.mass) > 1 or self.r.random() < .3:
                return l

    def split(self, kind):
        """disjoint or overlapping sets that together hold everything"""
        r = self.r
        if kind == NOM:
            parts = r.choice([[nominal(('a',), False), nominal(('b', 'c'), False)], [nominal(('a',), False), nominal(('b',), False), nominal(('c',), False)], [nominal(('a', 'b'), False), nominal(('b', 'c'), False)],
                              [nominal(('b',), False), nominal(('b',), True)]])
        else:
            a, b = sorted(r.sample(range(NR), 2))
            parts = r.choice([
                [interval(-INF, a, None, None), interval(a, INF, True, None)], [interval(-INF, a, None, True), interval(a, INF, None, None)],
                [interval(-INF, b, None, None), interval(a, INF, None, None)], [interval(-INF, a, None, True), interval(a, b, None, None), interval(b, INF, True, None)],
                [real(a), interval(-INF, b, None, None), interval(a, INF, True, None)], [interval(-INF, b, None, None), interval(a, b, None, True), interval(b, INF, True, None)]])
        parts = list(parts)
        if r.random() < .5:
            r.shuffle(parts)
        return parts

    def cond(self, vs):
        return self.G.event(vs, self.kinds, self.r.choice((0, 0, 1)))

    def observe(self, vs):
        r = self.G.p
        names = [v for v in vs if vs[v] is None and self.kinds[v] in (NOM, DISC)]
        if not names or r.random() < .6:
            return ('condition', self.cond(vs))
        return ('constrain', {v: r.choice('abc') if self.kinds[v] == NOM else r.randrange(NR) for v in r.sample(names, r.randrange(1, len(names) + 1))})

    def body(self, vs, new, depth):
        """a command that gives meaning to exactly the variables new; vs are there already"""
        r = self.r
        if not new:
            if depth and r.random() < .3:
                return self.choice(vs, [], depth)
            return self.observe(vs) if r.random() < .4 else ('skip',)
        out = []
        todo = list(new)
        vs = dict(vs)
        while todo:
            if depth and r.random() < .4:
                k = r.randrange(1, len(todo) + 1)
                out.append(self.choice(vs, todo[:k], depth))
                for z in todo[:k]:
                    vs.update({z[0]: z[1]} if isinstance(z, tuple) else {z: None})
                todo = todo[k:]
                continue
            z = todo.pop(0)
            if isinstance(z, tuple):
                out.append(('transform', z[0], z[1][1], z[1][0]))
                vs[z[0]] = z[1]
            else:
                out.append(('sample', self.leaf(z)))
                vs[z] = None
            if r.random() < .15:
                out.append(self.observe(vs))
            if r.random() < .1:
                out.append(('skip',))
        if len(out) == 1 and r.random() < .5:
            return out[0]
        return (r.choice(('seq', 'seq', 'for')), out)

    def choice(self, vs, new, depth):
        r = self.r
        base = [v for v in vs if vs[v] is None]
        if r.random() < .5:
            v = r.choice(base)
            sets = self.split(self.kinds[v])
            if r.random() < .08:
                sets = sets[:-1]
            return ('switch', v, [(s, self.body(vs, new, depth - 1)) for s in sets], r.random() < .4)
        n = r.choice((1, 1, 2, 3))
        tests = [self.cond(vs) for _ in range(n)]
        u = r.random()
        if u < .6:
            tests.append(True)
        elif u < .9:
            e = tests[0]
            for f in tests[1:]:
                e = ('or', e, f)
            tests.append(('not', e))
        return ('if', [(e, self.body(vs, new, depth - 1)) for e in tests])

    def program(self, k):
        r = self.r
        names = list(self.kinds)
        first, rest = names[:1], names[1:]
        new = list(rest)
        if self.kinds[names[0]] == REAL and r.random() < .4:
            new.insert(r.randrange(len(new) + 1), ("Z", (names[0], r.choice(('abs', 'id')))))
        head = [('sample', self.leaf(v)) for v in first]
        if r.random() < .25 and rest and rest[0] in new:
            head.append(('sample', self.leaf(rest[0])))
            new.remove(rest[0])
        vs = {c[1].var: None for c in head}
        tail = self.body(vs, new, 1 + k % 2)
        if tail[0] == 'skip' or r.random() < .5:
            vs = dict(vs)
            tail = ('seq', [tail, self.choice({v: None for v in self.kinds}, [], 1)])
        return ('seq', head + [tail])


# ---------------------------------------------------------------- interpretation
class Builder:
    def __init__(self, W):
        self.W = W
        self.g = {**W.it.module(MOD).vars}

    def cmd(self, n, *a, **k):
        if n not in self.g:
            raise Unsupported('no command ' + n)
        return self.W.call(self.g[n], *a, **k)

    def value(self, s, kind):
        """a case of a switch, given as the value itself where the language allows it"""
        W = self.W
        if s.kind == 'nominal' and len(s.args[0]) == 1 and not s.args[1]:
            return next(iter(s.args[0]))
        if s.kind == 'real' and len(s.args) == 1:
            return W.num(s.args[0], kind)
        return W.set(s, kind)

    def build(self, c, kinds, vs):
        """-> (command, variables afterwards)"""
        W, t = self.W, c[0]
        if t == 'skip':
            return self.cmd('Skip'), vs
        if t == 'sample':
            l = c[1]

            def dist(symbol):
                if W.it.attr(symbol, 'token') != l.var:
                    raise Bad('draws %s under the name of %s' % (l.var, symbol))
                return W.model(l)
            return self.cmd('Sample', W.X(l.var), dist), {**vs, l.var: None}
        if t == 'transform':
            return self.cmd('Transform', W.X(c[1]), W.call(lambda: W.fun(c[2], W.X(c[3])))), {**vs, c[1]: (c[3], c[2])}
        if t == 'condition':
            return self.cmd('Condition', W.event(c[1], kinds, vs)), vs
        if t == 'constrain':
            return self.cmd('Constrain', {W.X(v): x if isinstance(x, str) else W.num(x, kinds[v]) for v, x in c[1].items()}), vs
        if t == 'seq':
            out = []
            for d in c[1]:
                o, vs = self.build(d, kinds, vs)
                out.append(o)
            return self.cmd('Sequence', *out), vs
        if t == 'for':
            out = []
            for d in c[1]:
                o, vs = self.build(d, kinds, vs)
                out.append(o)
            return self.cmd('For', 3, 3 + len(out), lambda i: out[i - 3]), vs
        if t == 'if':
            args, after = [], vs
            for e, b in c[1]:
                o, after = self.build(b, kinds, vs)
                args += [True if e is True else W.event(e, kinds, vs), o]
            return self.cmd('IfElse', *args), after
        kind = kinds[c[1]]
        outs = [self.build(b, kinds, vs) for s, b in c[2]]
        vals = [self.value(s, kind) for s, b in c[2]]

        def pick(*a):
            if c[3]:
                i, v = a
                if not isinstance(i, int) or v is not vals[i] and v != vals[i]:
                    raise Bad('the body of a case is given another value')
                return outs[i][0]
            for i, w in enumerate(vals):
                if w is a[0]:
                    return outs[i][0]
            raise Bad('the body of a case is given another value')
        return self.cmd('Switch', W.X(c[1]), enumerate(vals) if c[3] else vals, pick), outs[0][1]


VARS = [{'X': REAL, 'Y': REAL}, {'X': REAL, 'N': NOM}, {'N': NOM, 'X': REAL}, {'D': DISC, 'X': REAL}, {'N': NOM, 'X': REAL, 'Y': REAL}, {'X': REAL, 'D': DISC}, {'N': NOM, 'M': NOM}, {'X': REAL}]


@split_cases('program-meaning', 71, 400, 6000, 200)
def run_commands(R, G, k):
    W = R.W
    kinds = VARS[k % len(VARS)]
    pr = Progs(G, kinds).program(k // len(VARS))
    text = ptext(pr)
    simple = k % 5 != 0
    env = W.it.ext.setdefault(('os', 'environ'), {})
    env.clear()
    if not simple:
        env['SPPL_NO_SIMPLIFY'] = '1'
    try:
        want, why = meaning(pr, None), None
    except Null:
        want, why = None, 'a condition of probability zero'
    except Refuse:
        want, why = None, 'an outcome that satisfies no branch'
    box = {}

    def f():
        B = Builder(W)
        prog, vs = B.build(pr, kinds, {})
        if want is None:
            try:
                W.m(prog, 'interpret')
            except Raised as e:
                if isinstance(e.exc, (ValueError, AssertionError)):
                    return
                raise
            raise Bad('a model is built, although the program has %s' % why)
        o = box['o'] = W.m(prog, 'interpret', *([None] if k % 3 == 0 else []))
        got = {str(t) for t in symbols(W, o)}
        if got != set(want.vs):
            raise Bad('the model has the variables %s; the program gives values to %s' % (sorted(got), sorted(want.vs)))
        for E in probes:
            same(W.m(o, 'logprob', W.event(E, kinds, want.vs)), want.prob(E), 'the log-probability of %s' % etext(E))
    def array():
        n = k // 40 % 4
        got = [W.it.attr(x, 'token') for x in W.it.listing(W.call(W.it.module(MOD).vars['IdArray'], 'A', n))]
        if got != ['A[%d]' % i for i in range(n)]:
            raise Bad('its variables are %s' % got)
    if k % 40 == 0 and 'IdArray' in W.it.module(MOD).vars:
        R.guard('array', MOD + '.IdArray', 'an array of %d variables' % (k // 40 % 4), array)
    probes = [G.event(want.vs, kinds, d) for d in (0, 0, 1, 1, 2)] if want else []
    R.guard('program', MOD + '.Command.interpret', text, f)
    env.clear()
