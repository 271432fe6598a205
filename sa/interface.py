"""Every kind of object answers every query (C25).

Two analyses of the current source.  `run_stubs` resolves every query of the interface on every class that can be instantiated (linearised
inheritance) and follows the methods it calls on itself: none may end in a stub of an abstract class.  `run_answers` interprets every query, and
every dispatch over kinds, on abstract instances of each kind: each must give an answer of the right sort (the sort the interface promises for
the query), and binary operations must do so for every pair of kinds."""
import ast
import itertools
import random

from . import export
from .absint import HOST, INF, Obj, Raised, Tok, Unsupported
from .measure import DISC, MID, NOM, REAL, Bad, Exposed, Gen, Leaf, LogP, Prod, Run, Sum, Val, VARS, ONE, holds, cells, interval, measure, models, same, split_cases, symbols
from .report import Report

NODES = ['SumSPE', 'ExposedSumSPE', 'ProductSPE', 'ContinuousLeaf', 'DiscreteLeaf', 'AtomicLeaf', 'NominalLeaf']
NODE_Q = ['size', 'get_symbols', 'sample', 'sample_subset', 'sample_func', 'transform', 'logprob', 'condition', 'logpdf', 'constrain', 'mutual_information', 'prob', 'pdf',
          '__rmul__', '__mul__', '__and__', '__eq__', '__hash__']
FUNS = ['Identity', 'Radical', 'Exponential', 'Logarithm', 'Abs', 'Reciprocal', 'Poly', 'Piecewise']
EVENTS = ['EventInterval', 'EventFiniteReal', 'EventFiniteNominal', 'EventOr', 'EventAnd']
FUN_Q = ['get_symbols', 'domain', 'range', 'substitute', 'subs', 'evaluate', 'ffwd', 'finv', 'invert', 'invert_finite', 'invert_interval', '__add__', '__radd__', '__mul__', '__rmul__',
         '__truediv__', '__rtruediv__', '__sub__', '__rsub__', '__neg__', '__abs__', '__pow__', '__rpow__', '__le__', '__lt__', '__ge__', '__gt__', '__lshift__', '__eq__', '__hash__', '__repr__',
         '__str__']
EVENT_Q = ['get_symbols', 'domain', 'range', 'substitute', 'subs', 'evaluate', 'ffwd', 'finv', 'invert_finite', 'to_dnf', 'to_dnf_list', '__and__', '__or__', '__invert__',
           '__xor__', '__mul__', '__eq__', '__hash__', '__repr__', '__str__']
SETS = ['EmptySetC', 'FiniteNominal', 'FiniteReal', 'Interval', 'Union']
SET_Q = ['__contains__', '__invert__', '__and__', '__or__', '__eq__', '__hash__', '__repr__', '__str__']
KINDS = [('spe', NODES, NODE_Q), ('transforms', FUNS, FUN_Q), ('transforms', EVENTS, EVENT_Q), ('sets', SETS, SET_Q)]


def stub(fn):
    """does the function do nothing but refuse as not implemented?"""
    body = fn.node.body
    if not isinstance(body, list):
        return False
    body = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom))]
    if not body:
        return True
    s = body[0]
    if not isinstance(s, ast.Raise) or s.exc is None:
        return False
    e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
    return isinstance(e, ast.Name) and e.id == 'NotImplementedError'


def own_calls(fn):
    """names of the methods the function uses on its own object"""
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if not names:
        return
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == names[0]:
            yield n.attr, n.lineno


def run_stubs(P, prop, tier):
    rep = Report('no-query-ends-in-a-stub')
    for mod, classes, queries in KINDS:
        for cn in classes:
            if not P.hascls(cn):
                rep.missing.append(cn)
                continue
            c = P.cls(cn)
            for q in queries:
                f = c.find(q)
                if f is None:
                    if c.find_attr(q) or q in ('__eq__', '__hash__', '__repr__', '__str__', '__radd__', '__xor__') or any(not isinstance(b, ast.Name) or not P.resolve(k.mod, b.id) for k in c.mro() for b in k.node.bases):
                        rep.undecided.append('%s.%s' % (cn, q))
                        continue
                    rep.find('%s.%s.%s' % (mod, cn, q), c.mod.path, 'the interface promises %s, %s has none' % (q, cn))
                    rep.instances += 1
                    continue
                rep.instances += 1
                seen, todo = {id(f)}, [(f, [q])]
                while todo:
                    g, trail = todo.pop()
                    rep.functions.add(g.qual)
                    if stub(g):
                        rep.find('%s.%s.%s' % (mod, cn, q), g.where, '%s of %s ends in the stub %s' % (q, cn, g.qual), ['via ' + ' -> '.join(trail)])
                        break
                    for name, line in own_calls(g):
                        h = c.find(name)
                        if h is not None and id(h) not in seen:
                            seen.add(id(h))
                            todo.append((h, trail + [name]))
                if len(rep.samples) < 6 and rep.instances % 40 == 7:
                    rep.samples.append({'class': cn, 'query': q, 'methods_followed': len(seen), 'verdict': 'no stub'})
    rep.floor = 150
    return rep


# ---------------------------------------------------------------- answers
def sort_of(W, x):
    """what an answer is"""
    if isinstance(x, Obj):
        names = [c.name for c in mro(x.cls)]
        for n in ('Set', 'Event', 'Transform', 'PartialSumSPE', 'SPE'):
            if n in names:
                return n
        return x.cls.name
    if x is NotImplemented:
        return 'NotImplemented'
    if isinstance(x, bool):
        return 'bool'
    if isinstance(x, (int, float, Tok, Val, LogP)):
        return 'number'
    return type(x).__name__


def mro(c):
    out = [c]
    for b in c.bases:
        for k in mro(b):
            if k not in out:
                out.append(k)
    return out


def expect(W, x, sorts, what):
    s = sort_of(W, x)
    if s not in sorts:
        raise Bad('%s is %s, not %s' % (what, s if x is not None else 'None', ' or '.join(sorts)))


def instances(W, kinds):
    """abstract instances of each kind of transform and event"""
    X, N = W.X('X'), W.X('N')
    c = lambda n, *a, **k: W.call(W[n], *a, **k)
    t = lambda k: Tok(k)
    ev = c('EventInterval', X, c('Interval', t(2), t(4)))
    ev2 = c('EventInterval', X, c('Interval', t(4), INF, left_open=True))
    return {
        'Identity': X, 'Abs': c('Abs', X), 'Reciprocal': c('Reciprocal', X), 'Radical': c('Radical', X, 2), 'Exponential': c('Exponential', X, 2), 'Logarithm': c('Logarithm', X, 2),
        'Piecewise': c('Piecewise', [X, c('Abs', X)], [ev, ev2]),
        'EventInterval': ev, 'EventFiniteReal': c('EventFiniteReal', X, c('FiniteReal', t(1), t(3))), 'EventFiniteNominal': c('EventFiniteNominal', N, c('FiniteNominal', 'a', 'b')),
        'EventOr of one': c('EventOr', [ev, ev2]), 'EventAnd of one': c('EventAnd', [ev, c('EventFiniteReal', X, c('FiniteReal', t(3)))]),
        'EventOr': c('EventOr', [ev, c('EventFiniteReal', W.X('Y'), c('FiniteReal', t(1)))]), 'EventAnd': c('EventAnd', [ev, c('EventFiniteReal', W.X('Y'), c('FiniteReal', t(1)))]),
    }


def sets_of(W):
    c = lambda n, *a, **k: W.call(W[n], *a, **k)
    t = lambda k: Tok(k)
    return {'EmptySet': W['EmptySet'], 'FiniteNominal': c('FiniteNominal', 'a', 'b'), 'co-finite nominal': c('FiniteNominal', 'a', b=True), 'FiniteReal': c('FiniteReal', t(1), t(3)),
            'Interval': c('Interval', t(2), t(5), right_open=True), 'Union': c('Interval', t(1), t(2)) | c('FiniteReal', t(4)),
            'mixed Union': c('FiniteNominal', 'b') | c('Interval', -INF, t(3))}


def bools(x):
    return isinstance(x, bool) or sort_of(None, x) == 'bool'


def transform_case(R, G, k):
    """every query of every kind of transform and event; every pair of events and of sets"""
    W = R.W
    try:
        T, S = instances(W, {}), sets_of(W)
    except (Unsupported, Raised) as e:
        R.rep.missing.append('instances: %s' % (e.exc if isinstance(e, Raised) else e))
        return
    X, N, Y = W.X('X'), W.X('N'), W.X('Y')

    def each(where, text, f):
        R.guard('answers', where, text, f)
    jobs = []
    for n, t in T.items():
        event = n.split()[0] in EVENTS
        d = {X: Tok(3), Y: Tok(1), N: 'a'}
        w = 'transforms.%s.' % n.split()[0]
        jobs += [(w + 'get_symbols', 'symbols of ' + n, lambda t=t: expect(W, W.m(t, 'get_symbols'), ('frozenset', 'set'), 'it')),
                 (w + 'domain', 'domain of ' + n, lambda t=t: expect(W, W.m(t, 'domain'), ('Set',), 'it')) if n not in ('EventOr', 'EventAnd') else None,
                 (w + 'range', 'range of ' + n, lambda t=t: expect(W, W.m(t, 'range'), ('Set',), 'it')),
                 (w + 'subs', 'renaming the variables of ' + n, lambda t=t, event=event: expect(W, W.m(t, 'subs', {X: W.X('U'), Y: W.X('V'), N: W.X('M')}), ('Event',) if event else ('Transform',), 'it')),
                 (w + '__eq__', 'equality of ' + n, lambda t=t: None if (t == t) is True else 'not equal to itself'),
                 (w + '__hash__', 'hash of ' + n, lambda t=t: hash(t) and None)]
        if not event:
            for sn, s in S.items():
                jobs.append((w + 'invert', 'preimage of %s under %s' % (sn, n), lambda t=t, s=s: expect(W, W.m(t, 'invert', s), ('Set',), 'it')))
                jobs.append((w + '__lshift__', '%s << %s' % (n, sn), lambda t=t, s=s: expect(W, t << s, ('Event',), 'it')))
            for op, f in (('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b)):
                for b in (Tok(2),) + ((INF,) if op[0] == '<' else (-INF,)):
                    jobs.append((w + op, '%s %s %s' % (n, op, b), lambda t=t, f=f, b=b: expect(W, W.call(lambda: f(t, b)), ('Event',), 'it')))
        else:
            jobs += [(w + 'evaluate', 'truth of ' + n, lambda t=t: None if bools(W.m(t, 'evaluate', d)) else 'not a truth value'),
                     (w + '__invert__', '~' + n, lambda t=t: expect(W, ~t, ('Event',), 'it')),
                     (w + 'to_dnf', 'normal form of ' + n, lambda t=t: expect(W, W.m(t, 'to_dnf'), ('Event',), 'it')),
                     (w + 'to_dnf_list', 'normal form of ' + n, lambda t=t: expect(W, W.m(t, 'to_dnf_list'), ('list', 'tuple'), 'it')),
                     ('dnf.dnf_normalize', 'normal form of ' + n, lambda t=t: expect(W, W.call(W['dnf_normalize'], t), ('Event',), 'it')),
                     ('dnf.dnf_factor', 'factors of ' + n, lambda t=t: expect(W, W.call(W['dnf_factor'], W.m(t, 'to_dnf')), ('list', 'tuple'), 'it')),
                     ('dnf.dnf_to_disjoint_union', 'disjoint form of ' + n, lambda t=t: expect(W, W.call(W['dnf_to_disjoint_union'], W.m(t, 'to_dnf')), ('Event',), 'it'))]
            if n not in ('EventOr', 'EventAnd'):
                jobs.append((w + 'solve', 'solution of ' + n, lambda t=t: expect(W, W.m(t, 'solve'), ('Set',), 'it')))
            for m, u in T.items():
                if m.split()[0] in EVENTS:
                    for op, f in (('&', lambda a, b: a & b), ('|', lambda a, b: a | b), ('^', lambda a, b: a ^ b)):
                        jobs.append(('transforms.%s.%s' % (n.split()[0], op), '%s %s %s' % (n, op, m), lambda t=t, u=u, f=f: expect(W, W.call(lambda: f(t, u)), ('Event',), 'it')))
                elif n != 'EventFiniteNominal':
                    jobs.append(('transforms.%s.*' % n, '%s * %s' % (n, m), lambda t=t, u=u: expect(W, W.call(lambda: t * u), ('Transform',), 'it')) if n in ('EventInterval', 'EventFiniteReal') and m != 'Piecewise' else None)
    for n, s in S.items():
        for m, u in S.items():
            for op, f in (('&', lambda a, b: a & b), ('|', lambda a, b: a | b)):
                jobs.append(('sets.%s.%s' % (s.cls.name, op), '%s %s %s' % (n, op, m), lambda s=s, u=u, f=f: expect(W, W.call(lambda: f(s, u)), ('Set',), 'it')))
            jobs.append(('sets.%s.==' % s.cls.name, '%s == %s' % (n, m), lambda s=s, u=u, n=n, m=m: None if (s == u) is (n == m) else 'is %s' % (s == u)))
        for x in (Tok(2), 'a', 'z', INF):
            jobs.append(('sets.%s.in' % s.cls.name, '%s in %s' % (x, n), lambda s=s, x=x: None if bools(W.it.contains(x, s)) else 'no truth value'))
        if n not in ('EmptySet', 'mixed Union'):
            jobs.append(('sets.%s.~' % s.cls.name, '~' + n, lambda s=s: expect(W, ~s, ('Set',), 'it')))
    jobs = [j for j in jobs if j]
    for j in jobs[k::8]:
        each(*j)


@split_cases('every-kind-answers', 79, 8, 8, 300)
def run_kinds(R, G, k):
    transform_case(R, G, k)


def count(o):
    """nodes of a model, counted as a tree"""
    return 1 + sum(count(c) for c in o.attrs.get('children', ()))


def kind_models(G, k):
    """a model of every kind"""
    vs = VARS[k // 8 % len(VARS)]
    j = k % 8
    if j == 7:
        return models(G, k)
    if j == 0:
        return vs, Sum(list(zip(G.simplex(range(2), 0).values(), [G.model(vs, 0, False), G.model(vs, 1, False)])))
    if j == 1:
        names = 'ab'
        return {**vs, 'S': NOM}, Exposed('S', G.simplex(names, 0), {n: G.model(vs, k // 8 % 2, False) for n in names})
    if j == 2:
        vs = VARS[1 + k // 8 % 2]
        return vs, Prod([G.leaf(v, t) for v, t in vs.items()])
    kind = (REAL, DISC, REAL, NOM)[j - 3]
    l = G.leaf('X', kind)
    if j == 5:
        l = Leaf('X', REAL, {3: ONE}, 'atomic', derived=l.derived)
    return {'X': kind}, l


@split_cases('every-node-answers', 83, 112, 2000, 700)
def run_nodes(R, G, k):
    """every query of every kind of node gives an answer of its sort"""
    W = R.W
    kinds, m = kind_models(G, k)
    box = {}
    if R.guard('construction', 'spe.SPE', m.text(), lambda: box.update(o=W.model(m))) or 'o' not in box:
        return
    o, vs, comps = box['o'], m.vars(), m.comps()
    base = [v for v in vs if vs[v] is None]
    w = 'spe.%s.' % o.cls.name

    def each(q, f):
        R.guard(q, w + q, '%s of %s' % (q, m.text()), f)
    E, F = G.event(vs, kinds, k % 3), G.event(vs, kinds, 1)
    pe = measure(comps, E, vs)
    ev = lambda e: W.event(e, kinds, vs)
    first = G.r.choice(base)

    def size():
        n = W.m(o, 'size')
        if n != count(o):
            raise Bad('it is %s, the model has %d nodes' % (n, count(o)))

    def syms():
        got = sorted(symbols(W, o))
        if got != sorted(vs):
            raise Bad('they are %s' % got)

    def condition():
        if pe.f:
            expect(W, W.m(o, 'condition', ev(E)), ('SPE',), 'the conditioned model')

    def assignment():
        pt = {}
        c = G.r.choice([c for _, c in comps])
        for v in base:
            pt[v] = G.r.choice([p for p, q in c[v].mass.items() if q.f])
        return {W.X(v): p if isinstance(p, str) else W.num(p, kinds[v]) for v, p in pt.items()}

    def memo():
        a, b = W.m(o, 'logprob', ev(E)), W.m(o, 'logprob', ev(E), W.call(W['Memo']))
        if a is not b and a != b:
            raise Bad('a memo changes it')
    jobs = [('size', size), ('get_symbols', syms), ('logprob', lambda: expect(W, W.m(o, 'logprob', ev(E)), ('number',), 'it')),
            ('prob', lambda: expect(W, W.m(o, 'prob', ev(E)), ('number',), 'it')), ('logprob', memo), ('condition', condition),
            ('logpdf', lambda: expect(W, W.m(o, 'logpdf', assignment()), ('number',), 'it')), ('pdf', lambda: expect(W, W.m(o, 'pdf', assignment()), ('number',), 'it')),
            ('constrain', lambda: expect(W, W.m(o, 'constrain', assignment()), ('SPE',), 'the constrained model')),
            ('mutual_information', lambda: expect(W, W.m(o, 'mutual_information', ev(E), ev(F)), ('number', 'Lin'), 'it')),
            ('__mul__', lambda: expect(W, W.call(lambda: G.simplex(range(2), 0)[0] * o), ('PartialSumSPE',), 'a weighted model')),
            ('__and__', lambda: expect(W, W.call(lambda: o & W.model(Leaf('Q', NOM, G.simplex('ab', 0), 'nominal'))), ('SPE',), 'the product')),
            ('__eq__', lambda: None if (o == o) is True else 'not equal to itself'), ('__hash__', lambda: hash(o) and None)]
    if kinds[first] != NOM:
        jobs.append(('transform', lambda: expect(W, W.m(o, 'transform', W.X('T'), abs(W.X(first))), ('SPE',), 'the extended model')))
    for q, f in jobs:
        each(q, f)


# ---------------------------------------------------------------- rendering
def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, dict):
        for a, b in x.items():
            yield a
            yield from flat(b)
    else:
        yield x


def label(o):
    return {'ContinuousLeaf': 'RealLeaf', 'DiscreteLeaf': 'RealLeaf'}.get(o.cls.name, o.cls.name)


def need(x, out, what):
    """x occurs in the rendering"""
    if not any(y is x or type(y) is type(x) and y == x for y in out):
        raise export.Wrong('%s is not shown' % what)


def nested(o, x):
    """a rendering (kind, facts) of a model agrees with it"""
    if x is None:
        raise export.Wrong('%s is rendered as nothing' % o.cls.name)
    if not (isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[0], str)):
        raise Unsupported('form of the rendering')
    names = [c.name for c in mro(o.cls)]
    if x[0] not in names:
        raise export.Wrong('%s is rendered as %s' % (o.cls.name, x[0]))
    facts = {f[0]: f[1] for f in x[1]}
    a = o.attrs
    if 'children' in a:
        kids = facts.get('children')
        if kids is None or len(kids) != len(a['children']):
            raise export.Wrong('the children of %s are not all rendered' % o.cls.name)
        if facts.get('n_children', len(kids)) != len(kids):
            raise export.Wrong('%s is said to have %s children' % (o.cls.name, facts['n_children']))
        if 'weights' in a and 'SumSPE' in names:
            ws = facts.get('weights')
            if ws is None or len(ws) != len(kids) or any(not isinstance(w, Val) or w != v.v for w, v in zip(ws, a['weights'])):
                raise export.Wrong('the weights of the mixture are shown as %s' % (ws,))
        for c, y in zip(a['children'], kids):
            nested(c, y)
        return
    out = list(flat(x[1]))
    need(a['symbol'], out, 'the variable')
    for z, t in (a.get('env') or {}).items():
        need(z, out, 'the derived variable %s' % z)
        need(t, out, 'the definition of %s' % z)
    if 'value' in a and a['value'] is not None and 'AtomicLeaf' in names:
        need(a['value'], out, 'the value')
    d = a.get('dist')
    if isinstance(d, export.Table):
        need(d.dist.name, out, 'the distribution')
        for g in list(d.args) + list(d.kwds.values()):
            need(g, out, 'the parameter %s' % (g,))
        need(a['support'], out, 'the support')
        need(a['conditioned'], out, 'the truncation')
    elif isinstance(d, dict):
        for s in d:
            need(s, out, 'the outcome %s' % s)


def concise(o, x):
    if x is None:
        raise export.Wrong('%s is rendered as nothing' % o.cls.name)
    a = o.attrs
    if 'children' in a:
        if not (isinstance(x, (list, tuple)) and len(x) == 2):
            raise Unsupported('form of the rendering')
        if len(x[1]) != len(a['children']):
            raise export.Wrong('the children of %s are not all rendered' % o.cls.name)
        names = [c.name for c in mro(o.cls)]
        if x[0][0] != ('+' if 'SumSPE' in names else '*') or str(len(x[1])) not in x[0]:
            raise export.Wrong('%s with %d children is headed %s' % (o.cls.name, len(x[1]), x[0]))
        for c, y in zip(a['children'], x[1]):
            concise(c, y)
        return
    if [str(k) for k, _ in x] != [str(k) for k in a['env']]:
        raise export.Wrong('the variables of %s are shown as %s' % (o.cls.name, x))


def render_case(B, k):
    W = B.W
    m = export.make(B, 97, k)
    if m is None:
        return
    jobs = [('render.render_nested_lists', nested), ('render.render_nested_lists_concise', concise)]
    for name, check in jobs:
        def f():
            check(m, W.it.call(W.fn('render', name.split('.')[1]), (m,), {}))
        B.guard(name, export.text(m), f)

    def to_dict():
        if W.it.call(W.fn('compilers.spe_to_dict', 'spe_to_dict'), (m,), {}) is None:
            raise export.Wrong('exported as nothing')
    B.guard('compilers.spe_to_dict.spe_to_dict', export.text(m), to_dict)


run_render = export.split(render_case, 'every-kind-is-rendered', ['render', 'compilers.spe_to_dict'], 160, 3000, 300)
