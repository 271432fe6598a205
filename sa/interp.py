"""Abstract interpreter: maps each function of the analysed source to the value
it denotes, as a canonical term, on every branch of its control flow.

* branch conditions become atoms; the analysis is trace-partitioned on atoms;
* loops and comprehensions are never unrolled on unknown sequences: their body
  is analysed once for a generic index and summarised as a sequence term, an
  iterated operator, a grouping, or a fold;
* calls to code of the repository are resolved and analysed in place; calls on
  receivers of unknown class and calls into libraries are uninterpreted;
* whatever the analysis does not understand raises Unsupported: the obligation
  is then undecided on that path (never a violation).
"""
import ast
from . import ir
from .ir import (Term, raw, num, const, seq, NONE, TRUE, FALSE, ZERO, ONE, INF, NINF, EMPTYSEQ)
from .prog import Func, Cls, Module, Program

EMPTYSET = raw('const', 'EmptySet')
ANY = raw('any')           # "no requirement" in a specification


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Complex(Exception):
    """loop outside the comprehension-like fragment"""


class LoopEnd(Exception):
    """the condition of a while loop is false"""


class RaiseSig(Exception):
    def __init__(self, exc, node=None):
        self.exc = exc
        self.node = node


# --------------------------------------------------------------- host values
class Cell:
    """mutable container/object: list, dict, set, obj"""
    n = 0

    def __init__(self, kind, val, cls=None):
        self.kind, self.val, self.cls = kind, val, cls
        Cell.n += 1
        self.id = Cell.n


class SubRef:
    """element of a dict/list cell, retrieved for possible in-place update"""
    def __init__(self, cell, key):
        self.cell, self.key = cell, key


class FuncV:
    def __init__(self, f):
        self.f = f


class Closure:
    def __init__(self, node, frame, name='<lambda>', mod=None):
        self.node, self.frame, self.name, self.mod = node, frame, name, mod


class BoundM:
    def __init__(self, recv, f):
        self.recv, self.f = recv, f


class MethV:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ClsV:
    def __init__(self, c):
        self.c = c


class ExtV:
    def __init__(self, name):
        self.name = name


class ModV:
    def __init__(self, m):
        self.m = m


class SuperV:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class HostFn:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name


class Poison:
    def __init__(self, why):
        self.why = why


class Frame:
    def __init__(self, mod, parent=None, func=None, cls=None):
        self.vars, self.mod, self.parent, self.func, self.cls = {}, mod, parent, func, cls


class Scope:
    def __init__(self, syms, prefix):
        self.syms, self.prefix = syms, prefix
        self.log = []
        self.facts = {}

    def choose(self, atom):
        i = len(self.log)
        v = self.prefix[i] if i < len(self.prefix) else True
        self.log.append((atom, v))
        self.facts[atom] = v
        return v


BUILTIN_TYPES = {'str', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset',
                 'Callable', 'Integer', 'Rational', 'enumerate', 'Fraction', 'type', 'complex', 'Number', 'Iterable'}

# methods whose receivers are models/events/transforms/sets: always uninterpreted
VOCAB = {
    'logprob', 'condition', 'logpdf', 'constrain', 'prob', 'pdf', 'logprob_mem', 'condition_mem',
    'logpdf_mem', 'constrain_mem', 'sample', 'sample_subset', 'sample_func', 'transform',
    'get_symbols', 'solve', 'invert', 'invert_finite', 'invert_interval', 'finv', 'ffwd', 'evaluate',
    'subs', 'substitute', 'to_dnf', 'to_dnf_list', 'domain', 'range', 'interpret', 'size',
    'logprob__', 'condition__', 'logpdf__', 'constrain__', 'sample__', 'logprob_values__',
    'logprob_finite__', 'logprob_interval__', 'logcdf', 'cdf', 'ppf', 'rvs', 'logpmf', 'get_memo_key',
}
IMPURE_DROP = {'memo'}

EXT_CANON = {
    'math.log': 'log', 'numpy.log': 'log', 'math.exp': 'exp', 'numpy.exp': 'exp',
    'math.isinf': 'isinf', 'numpy.isinf': 'isinf', 'numpy.isneginf': 'isneginf', 'numpy.isposinf': 'isposinf',
    'functools.reduce': 'reduce', 'itertools.chain': 'chain', 'itertools.combinations': 'combinations',
    'itertools.product': 'product', 'collections.OrderedDict': 'OrderedDict',
    'collections.Counter': 'Counter', 'collections.ChainMap': 'ChainMap', 'collections.defaultdict': 'defaultdict',
    'collections.Callable': 'Callable', 'collections.abc.Callable': 'Callable',
    'math.inf': 'INF', 'numpy.inf': 'INF', 'sympy.oo': 'INF', 'copy.copy': 'copycopy', 'copy.deepcopy': 'copycopy',
    'scipy.special.logsumexp': 'logsumexp', 'operator.and_': 'op_and', 'operator.or_': 'op_or',
    'operator.add': 'op_add', 'operator.mul': 'op_mul', 'operator.itemgetter': 'itemgetter',
    'operator.attrgetter': 'attrgetter', 'functools.partial': 'partial', 'math.floor': 'floor',
    'numpy.floor': 'floor', 'numpy.log1p': 'log1p', 'math.log1p': 'log1p', 'numpy.expm1': 'expm1',
    'math.expm1': 'expm1', 'itertools.starmap': 'starmap', 'itertools.islice': 'islice', 'itertools.accumulate': 'accumulate',
    'itertools.filterfalse': 'filterfalse', 'math.fsum': 'sum', 'numpy.sum': 'sum', 'sympy.Add': 'sympyAdd',
    'sympy.Integer': 'Integer', 'sympy.Rational': 'Rational', 'fractions.Fraction': 'Fraction',
}

BUILTINS = {
    'len', 'list', 'tuple', 'set', 'frozenset', 'dict', 'str', 'repr', 'float', 'int', 'bool', 'abs',
    'isinstance', 'issubclass', 'type', 'hash', 'id', 'getattr', 'hasattr', 'print', 'next', 'iter', 'filter',
    'map', 'enumerate', 'zip', 'range', 'reversed', 'sorted', 'round', 'callable', 'super', 'sum', 'any', 'all',
    'min', 'max', 'object', 'eval', 'exec', 'NotImplemented', 'setattr', 'vars', 'divmod', 'pow', 'format', 'property',
}


class Interp:
    MAXDEPTH = 14

    def __init__(self, prog, opaque=(), inline=(), assert_raises=False, erase=('memo',), specmod=None):
        self.prog = prog
        self.vocab = (VOCAB | set(opaque)) - set(inline)
        self.opaque_funcs = set(opaque)
        self.assert_raises = assert_raises
        self.erase = set(erase)
        self.specmod = specmod
        self.reset([])
        self.gcache = {}
        self.stats = {'calls': set(), 'unresolved': set(), 'loops': 0, 'paths': 0}

    def reset(self, prefix):
        self.scopes = [Scope(frozenset(), prefix)]
        self.journal = []
        self.stack = []
        self.depth = 0
        self.catching = []
        self.spec_mode = False
        self.tests = set()          # (condition, outcome) met in the source on this path
        self.attrcache = {}
        self.steps = 0

    # ------------------------------------------------------------ deciding
    def lookup(self, atom):
        for s in reversed(self.scopes):
            if atom in s.facts:
                return s.facts[atom]
        return self.theory(atom)

    def allfacts(self):
        for s in self.scopes:
            yield from s.facts.items()

    def known_classes(self, t):
        pos, neg = [], []
        for a, v in self.allfacts():
            if a.op == 'isinst' and a.args[0] is t:
                (pos if v else neg).append(a.args[1])
        return pos, neg

    def theory(self, atom):
        op, a = atom.op, atom.args
        if op == 'isinst':
            return self.th_isinst(a[0], a[1])
        if op == 'lenge':
            for f, v in self.allfacts():
                if f.op == 'lenge' and f.args[0] is a[0]:
                    if v and f.args[1] >= a[1]:
                        return True
                    if not v and f.args[1] <= a[1]:
                        return False
            if a[1] == 1 and a[0].op == 'attr' and a[0].args[1] in ('children', 'weights'):
                return True
            # exists over its index range implies non-empty
            for f, v in self.allfacts():
                if v and f.op == 'exists' and a[1] == 1 and f.args[1].op == 'len' and f.args[1].args[0] is a[0]:
                    return True
            return None
        if op == 'exists':
            # range empty
            L = a[1]
            if L.op == 'len' and self.lookup_quiet(ir.lenge(L.args[0], 1)) is False:
                return False
            return self.th_exists(atom)
        if op == 'lt':
            x, y = a
            f = self.facts_get(raw('lt', y, x))
            if f is True:
                return False
            e = self.facts_get(raw('eq', *sorted((x, y))))
            if e is True:
                return False
            if f is False and e is False:
                return True
            for t, c in ((x, y), (y, x)):
                if self.facts_get(raw('isninf', t)) is True and c.op in ('num',):
                    return t is x
                if self.facts_get(raw('ispinf', t)) is True and c.op in ('num',):
                    return t is y
            # transitivity with numeric constants
            r = self.th_lt_const(x, y)
            if r is not None:
                return r
            return None
        if op == 'eq':
            x, y = a
            l1, l2 = self.facts_get(raw('lt', x, y)), self.facts_get(raw('lt', y, x))
            if l1 is True or l2 is True:
                return False
            if l1 is False and l2 is False:
                return True
            for t, c in ((x, y), (y, x)):
                if self.isconstlike(c):
                    for f, v in self.allfacts():
                        if v and f.op == 'eq' and t in f.args:
                            o = f.args[0] if f.args[1] is t else f.args[1]
                            if self.isconstlike(o) and o is not c:
                                if {o.op, c.op} == {'bool', 'num'}:
                                    continue
                                return False
                    if c.op == 'num':
                        if self.facts_get(raw('isninf', t)) or self.facts_get(raw('ispinf', t)):
                            return False
                        r = self.th_lt_const(t, c), self.th_lt_const(c, t)
                        if True in r:
                            return False
                    if c is NONE and t.op in ('new', 'seq', 'bigcat', 'cat', 'lin', 'num', 'dictof', 'setof', 'put', 'len', 'ac'):
                        return False
                    pos, _ = self.known_classes(t)
                    if pos:
                        if c is NONE or c.op in ('bool',):
                            if not (c.op == 'bool' and set(pos) <= {'int', 'bool'}):
                                return False
                        if c is EMPTYSET:
                            ec = 'EmptySetC'
                            if any(p in BUILTIN_TYPES for p in pos):
                                return False
                            if any(not self.can_be(ec, p) for p in pos):
                                return False
                        if c.op in ('num', 'str') and not any(p in BUILTIN_TYPES for p in pos):
                            return False
                    if c is EMPTYSET and t.op in ('new', 'seq', 'bigcat', 'lin', 'num'):
                        return False
                    if c is EMPTYSET:
                        _, negs = self.known_classes(t)
                        if any(self.can_be('EmptySetC', n) for n in negs):
                            return False
            return None
        if op in ('isninf', 'ispinf'):
            o = raw('ispinf' if op == 'isninf' else 'isninf', a[0])
            if self.facts_get(o) is True:
                return False
            for f, v in self.allfacts():
                if f.op == 'eq' and v and a[0] in f.args:
                    c = f.args[0] if f.args[1] is a[0] else f.args[1]
                    if c.op in ('num', 'none', 'str', 'bool'):
                        return False
                if f.op == 'lt' and a[0] in f.args and v:
                    # x < c  -> not +inf ; c < x -> not -inf
                    if op == 'ispinf' and f.args[0] is a[0]:
                        return False
                    if op == 'isninf' and f.args[1] is a[0]:
                        return False
            return None
        if op == 'truth':
            t = a[0]
            if self.facts_get(raw('eq', *sorted((t, NONE)))) is True or self.facts_get(raw('eq', *sorted((t, FALSE)))) is True:
                return False
            if self.facts_get(raw('eq', *sorted((t, TRUE)))) is True:
                return True
            if t is EMPTYSET:
                return True
            pos, _ = self.known_classes(t)
            for p in pos:
                if self.prog.hascls(p):
                    c = self.prog.cls(p)
                    if not any(m in k.methods for k in c.allsubs() | set(c.mro()) for m in ('__len__', '__bool__')):
                        return True
            if t.op == 'new' and isinstance(t.args[0], str):
                c = self.prog.cls(t.args[0])
                if not (c.find('__len__') or c.find('__bool__')):
                    return True
            return None
        if op == 'is':
            x, y = a
            if self.facts_get(raw('eq', *sorted((x, y)))) is False:
                return False
            return None
        return None

    def th_lt_const(self, x, y):
        """x<y from facts on x (or y) against other numeric constants"""
        if y.op == 'num':
            c = ir.frac(y)
            for f, v in self.allfacts():
                if f.op == 'lt':
                    p, q = f.args
                    if v and p is x and q.op == 'num' and ir.frac(q) <= c:
                        return True        # x<q<=c
                    if v and q is x and p.op == 'num' and ir.frac(p) >= c:
                        return False       # c<=p<x
                    if not v and q is x and p.op == 'num' and ir.frac(p) < c:
                        return True        # x<=p<c
                    if not v and p is x and q.op == 'num' and ir.frac(q) >= c:
                        return False       # x>=q>=c
                if f.op == 'eq' and v and x in f.args:
                    o = f.args[0] if f.args[1] is x else f.args[1]
                    if o.op == 'num':
                        return ir.frac(o) < c
        if x.op == 'num':
            c = ir.frac(x)
            for f, v in self.allfacts():
                if f.op == 'lt':
                    p, q = f.args
                    if v and q is y and p.op == 'num' and ir.frac(p) >= c:
                        return True
                    if v and p is y and q.op == 'num' and ir.frac(q) <= c:
                        return False
                    if not v and p is y and q.op == 'num' and ir.frac(q) > c:
                        return True
                    if not v and q is y and p.op == 'num' and ir.frac(p) <= c:
                        return False
                if f.op == 'eq' and v and y in f.args:
                    o = f.args[0] if f.args[1] is y else f.args[1]
                    if o.op == 'num':
                        return c < ir.frac(o)
        return None

    def th_exists(self, atom):
        """monotonicity: body1 -> body2 by decided/equal structure only"""
        (h,), L, body = atom.args
        for f, v in self.allfacts():
            if f.op == 'exists' and f.args[1] is L and f is not atom:
                (h2,), _, b2 = f.args
                k = raw('fresh', 'q')
                x = ir.subst(body, {ir.bv(h): k})
                y = ir.subst(b2, {ir.bv(h2): k})
                # f true and f.body implies atom.body -> atom true
                if v and ir.ite(y, x, TRUE) is TRUE:
                    return True
                if not v and ir.ite(x, y, TRUE) is TRUE:
                    return False
        return None

    def isconstlike(self, c):
        return c.op in ('num', 'none', 'str', 'bool', 'const', 'inf', 'classref')

    def facts_get(self, atom):
        if not isinstance(atom, Term):
            return None
        if atom.op == 'bool':
            return bool(atom.args[0])
        for s in reversed(self.scopes):
            if atom in s.facts:
                return s.facts[atom]
        return None

    def lookup_quiet(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if ir.is_atom(c):
            return self.lookup(c)
        if c.op == 'ite' and ir.is_bool(c):
            r = self.lookup(c.args[0])
            if r is not None:
                return self.lookup_quiet(c.args[1] if r else c.args[2])
        return None

    def can_be(self, sub, sup):
        if sub == sup:
            return True
        if self.prog.hascls(sub) and self.prog.hascls(sup):
            return self.prog.cls(sub).issub(self.prog.cls(sup))
        return False

    def overlap(self, a, b):
        """may an object be an instance of both?"""
        ra, rb = self.prog.hascls(a), self.prog.hascls(b)
        if ra and rb:
            return bool(self.prog.cls(a).allsubs() & self.prog.cls(b).allsubs())
        if ra != rb:
            return b == 'Callable' or a == 'Callable'
        if a == b:
            return True
        groups = [{'int', 'bool', 'Number'}, {'int', 'Integer', 'Rational', 'Number'}, {'Integer', 'Rational'},
                  {'float', 'Number'}, {'Iterable', 'list', 'tuple', 'set', 'frozenset', 'dict', 'str', 'enumerate'}]
        if any(a in g and b in g for g in groups):
            return True
        known = {'str', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'Fraction', 'enumerate'}
        return not (a in known and b in known)

    def th_isinst(self, t, c):
        if t is EMPTYSET:
            return self.can_be('EmptySetC', c)
        if t.op == 'new' and isinstance(t.args[0], str):
            return self.can_be(t.args[0], c)
        if t.op == 'new':
            k = t.args[0]
            if k.op == 'type':
                return self.lookup(raw('isinst', k.args[0], c))
        rep = self.prog.hascls(c)
        if t.op in ('num', 'str', 'none', 'bool', 'inf', 'seq', 'cat', 'bigcat', 'dictof', 'setof', 'put', 'len', 'keys') and rep:
            return False
        if t.op == 'none':
            return False
        if t.op == 'str':
            return c == 'str'
        if t.op == 'num' and c in ('int', 'float', 'str', 'list', 'tuple', 'dict'):
            return c == 'int' if t.args[1] == 1 and c in ('int', 'float') else c == 'float'
        if t.op == 'inf' and c in ('int', 'float', 'str', 'list', 'tuple', 'dict'):
            return c == 'float'
        if t.op in ('dictof', 'put') and c in BUILTIN_TYPES:
            return c == 'dict'
        pos, neg = self.known_classes(t)
        for p in pos:
            if self.can_be(p, c):
                return True
            if not self.overlap(p, c):
                return False
        for n in neg:
            if self.can_be(c, n):
                return False
        for f, v in self.allfacts():
            if v and f.op == 'eq' and t in f.args:
                o = f.args[0] if f.args[1] is t else f.args[1]
                if self.isconstlike(o) and o is not t:
                    return self.th_isinst(o, c)
        # a negative covering: all direct subclasses excluded, class itself abstract
        return None

    def decide(self, c):
        """truth value of boolean term c on the current path (splits if open)"""
        while True:
            if c is TRUE:
                return True
            if c is FALSE:
                return False
            if c.op == 'ite':
                c = c.args[1] if self.decide(c.args[0]) else c.args[2]
                continue
            if not ir.is_atom(c):
                raise Unsupported('not a boolean: %s' % ir.show(c, 3))
            r = self.lookup(c)
            if r is not None:
                return r
            # resolve decided sub-atoms inside the atom's ite-arguments
            for s in reversed(self.scopes):
                if not s.syms or (c.free & s.syms) or s is self.scopes[0]:
                    if s is self.scopes[0] or (c.free & s.syms):
                        return s.choose(c)

    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise Infeasible()
        if ir.is_atom(c):
            r = self.lookup(c)
            if r is False:
                raise Infeasible()
            if r is None:
                for s in reversed(self.scopes):
                    if s is self.scopes[0] or (c.free & s.syms):
                        s.facts[c] = True
                        return
            return
        # conjunction / single negative literal
        if c.op == 'ite':
            at, hi, lo = c.args
            if hi is FALSE:
                r = self.lookup(at)
                if r is True:
                    raise Infeasible()
                if r is None:
                    for s in reversed(self.scopes):
                        if s is self.scopes[0] or (at.free & s.syms):
                            s.facts[at] = False
                            break
                return self.assume(lo)
            if lo is FALSE:
                self.assume(at)
                return self.assume(hi)
        if not self.decide(c):
            raise Infeasible()

    def force(self, v):
        if isinstance(v, Term):
            while v.op == 'ite' and not ir.is_bool(v):
                v = v.args[1] if self.decide(v.args[0]) else v.args[2]
        return v

    def enum_local(self, syms, thunk, limit=200):
        results, prefix = [], []
        while True:
            sc = Scope(frozenset(syms), prefix)
            self.scopes.append(sc)
            mark = len(self.journal)
            nst, dep, cat_ = len(self.stack), self.depth, len(self.catching)
            r = None
            try:
                r = thunk()
            except Infeasible:
                r = Infeasible
            finally:
                self.scopes.pop()
                self.rollback(mark)
                del self.stack[nst:]
                self.depth = dep
                del self.catching[cat_:]
            if r is not Infeasible:
                results.append((list(sc.log), r))
            p = [v for _, v in sc.log]
            while p and p[-1] is False:
                p.pop()
            if not p:
                break
            p[-1] = False
            prefix = p
            if len(results) > limit:
                raise Unsupported('too many local partitions')
        return results

    def merge(self, paths):
        """[(literals, Term)] -> canonical MTBDD term"""
        if not paths:
            raise Infeasible()
        v0 = paths[0][1]
        if all(v is v0 for _, v in paths):
            return v0
        atoms = {}
        for lits, _ in paths:
            for a, _v in lits:
                atoms[a.key] = a
        if not atoms:
            raise Unsupported('merge')
        a = atoms[min(atoms)]
        hi, lo = [], []
        for lits, v in paths:
            d = {x: y for x, y in lits}
            rest = [(x, y) for x, y in lits if x is not a]
            if a not in d:
                hi.append((rest, v))
                lo.append((rest, v))
            elif d[a]:
                hi.append((rest, v))
            else:
                lo.append((rest, v))
        hi = self.prune(a, True, hi)
        lo = self.prune(a, False, lo)
        if not hi:
            return self.merge(lo)
        if not lo:
            return self.merge(hi)
        return ir.ite(a, self.merge(hi), self.merge(lo))

    def prune(self, a, v, paths):
        """drop partitions contradicting a=v by theory"""
        sc = Scope(frozenset(), [])
        sc.facts[a] = v
        self.scopes.append(sc)
        try:
            out = []
            for lits, val in paths:
                keep = []
                ok = True
                for x, y in lits:
                    r = self.theory(x)
                    if r is not None and r != y:
                        ok = False
                        break
                    if r is None:
                        keep.append((x, y))
                if ok:
                    out.append((keep, val))
            return out
        finally:
            self.scopes.pop()

    # ------------------------------------------------------------- journal
    def rollback(self, mark):
        while len(self.journal) > mark:
            undo = self.journal.pop()
            undo()

    def wcell(self, cell, val):
        old = cell.val
        self.journal.append(lambda: setattr(cell, 'val', old))
        self.note('cell', cell)
        cell.val = val

    def setvar(self, frame, name, v):
        had = name in frame.vars
        old = frame.vars.get(name)

        def undo():
            if had:
                frame.vars[name] = old
            else:
                frame.vars.pop(name, None)
        self.journal.append(undo)
        self.note('var', (frame, name))
        frame.vars[name] = v

    writelogs = ()

    def note(self, kind, what):
        for w in self.writelogs:
            w.append((kind, what))

    # --------------------------------------------------------------- reify
    def reify(self, v):
        if isinstance(v, Term):
            return v
        if isinstance(v, tuple):
            return seq(*[self.reify(x) for x in v])
        if isinstance(v, Cell):
            if v.kind in ('list', 'dict'):
                return v.val
            if v.kind == 'set':
                return raw('setof', v.val)
            if v.kind == 'obj':
                return raw('obj', v.cls.name, tuple(sorted((k, self.reify(x)) for k, x in v.val.items())))
        if isinstance(v, SubRef):
            return ir.dget(self.reify(v.cell), v.key) if v.cell.kind == 'dict' else ir.item(v.cell.val, v.key)
        if isinstance(v, FuncV):
            return raw('func', v.f.qual)
        if isinstance(v, ClsV):
            return raw('classref', v.c.name)
        if isinstance(v, ExtV):
            n = EXT_CANON.get(v.name, v.name)
            if n == 'INF':
                return INF
            return raw('ext', n)
        if isinstance(v, (Closure, BoundM, HostFn, MethV)):
            if isinstance(v, MethV):
                return raw('method', self.reify(v.recv), v.name)
            n = self.arity(v)
            if n is None:
                raise Unsupported('function value of unknown arity')
            fs = [ir.fresh('x') for _ in range(n)]
            body = self.local_value(set(f.args[0] for f in fs), lambda: self.reify(self.call(v, list(fs), {})))
            return ir.binder('lam', tuple(fs), body)
        if isinstance(v, ModV):
            return raw('module', v.m.name)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        raise Unsupported('cannot reify %r' % (v,))

    def local_value(self, syms, thunk):
        return self.merge(self.enum_local(syms, thunk))

    def arity(self, v):
        if isinstance(v, Closure):
            a = v.node.args
            return len(a.args) if not a.vararg else None
        if isinstance(v, BoundM):
            return len(v.f.params()) - 1
        if isinstance(v, FuncV):
            return len(v.f.params())
        return None

    # --------------------------------------------------------- name lookup
    def name(self, frame, n):
        f = frame
        while f is not None:
            if n in f.vars:
                v = f.vars[n]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            f = f.parent
        return self.globalname(frame.mod, n)

    def globalname(self, mod, n):
        r = self.prog.resolve(mod, n) if mod is not None else None
        if r is None and mod is not None and mod is self.specmod:
            r = self.specglobal(n)
        if r is None:
            if n in BUILTINS or n in BUILTIN_TYPES:
                return ExtV(n)
            if n in ('ValueError', 'TypeError', 'AssertionError', 'KeyError', 'NotImplementedError', 'RuntimeError',
                     'IndexError', 'StopIteration', 'Exception', 'AttributeError', 'TimeoutError', 'ZeroDivisionError',
                     'OverflowError', 'LookupError', 'ArithmeticError', 'BaseException', 'OSError', 'NameError'):
                return ExtV(n)
            if n == '__name__':
                return raw('str', mod.name)
            raise Unsupported('unknown name %s' % n)
        return self.resolved(r, n)

    def specglobal(self, n):
        """names used by a specification: repository classes and functions"""
        if n == 'EmptySet':
            return ('const', EMPTYSET)
        if n == 'inf':
            return ('const', INF)
        if n == 'ANY':
            return ('const', ANY)
        fs = [m.ns[n] for m in self.prog.modules.values() if n in m.ns and m.ns[n][0] == 'func']
        if n in self.opaque_funcs and len(fs) == 1:
            return fs[0]
        if n == 'getfullargspec':
            return ('ext', 'inspect.getfullargspec')
        for m in ('sets', 'transforms', 'spe', 'dnf', 'poly', 'compilers.ast_to_spe', 'distributions'):
            if m in self.prog.modules:
                r = self.prog.resolve(m, n)
                if r and r[0] == 'class':
                    return r
        if n in ('logsumexp', 'log', 'exp', 'isinf', 'log1p', 'expm1', 'reduce', 'chain', 'OrderedDict', 'Counter',
                 'ChainMap', 'combinations', 'product', 'floor', 'Fraction'):
            for k, v in EXT_CANON.items():
                if v == n:
                    return ('ext', k)
        if n in ('sympy', 'numpy', 'scipy', 'os'):
            return ('ext', n)
        hits = [m.ns[n] for m in self.prog.modules.values() if n in m.ns and m.ns[n][0] == 'func']
        if len(hits) == 1:
            return hits[0]
        return None

    def resolved(self, r, n):
        if r[0] == 'func':
            return FuncV(r[1])
        if r[0] == 'class':
            if r[1].name == 'EmptySetC':
                return ClsV(r[1])
            return ClsV(r[1])
        if r[0] == 'ext':
            if EXT_CANON.get(r[1]) == 'INF':
                return INF
            return ExtV(r[1])
        if r[0] == 'module':
            return ModV(r[1])
        if r[0] == 'const':
            return r[1]
        if r[0] == 'expr':
            _, node, mod = r
            key = (mod.name, ast.dump(node), n)
            if n == 'EmptySet':
                return EMPTYSET
            if key in self.gcache:
                v = self.gcache[key]
                if v is None:
                    raise Unsupported('recursive global %s' % n)
                return v
            self.gcache[key] = None
            try:
                v = self.eval(node, Frame(mod))
                if isinstance(v, Cell):
                    v = self.reify(v)
            except (Unsupported, RaiseSig):
                v = raw('global', mod.name, n)
            self.gcache[key] = v
            return v
        raise Unsupported('resolve %s' % n)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too large')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Return(self, s, fr):
        raise ReturnSig(self.eval(s.value, fr) if s.value else NONE)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        load = ast.copy_location(_load(s.target), s.target)
        cur = self.eval(load, fr)
        v = self.eval(s.value, fr)
        if isinstance(s.op, ast.Add) and isinstance(cur, Cell) and cur.kind == 'list':
            self.wcell(cur, ir.cat(cur.val, self.tosseq(v)))
            return
        if isinstance(s.op, ast.BitOr) and isinstance(cur, Cell) and cur.kind == 'set':
            self.wcell(cur, ir.cat(cur.val, self.tosseq(v)))
            return
        self.assign(s.target, self.binop(s.op, cur, v), fr)

    def s_If(self, s, fr):
        if self.test(s.test, fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        mark = len(self.journal)
        try:
            c = self.cond(s.test, fr)
        except Unsupported:
            self.rollback(mark)
            return
        if self.assert_raises and not self.spec_mode:
            if not self.decide(c):
                raise RaiseSig('AssertionError', s)
        else:
            self.assume(c)

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise RaiseSig('reraise', s)
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            raise RaiseSig(e.id, s)
        if isinstance(e, ast.Attribute):
            raise RaiseSig(e.attr, s)
        raise RaiseSig('Exception', s)

    def s_Import(self, s, fr):
        for k, v in self.prog.imports(fr.mod, s).items():
            self.setvar(fr, k, self.resolved(v, k))

    def s_ImportFrom(self, s, fr):
        for k, v in self.prog.imports(fr.mod, s).items():
            if v[0] == 'import':
                r = self.prog.resolve(v[1], v[2]) if v[1] in self.prog.modules else None
                if r is None:
                    r = ('module', self.prog.modules[v[3]]) if v[3] in self.prog.modules else ('ext', v[3])
            else:
                r = v
            self.setvar(fr, k, self.resolved(r, k))

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorated local function')
        self.setvar(fr, s.name, Closure(s, fr, s.name, fr.mod))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_Continue(self, s, fr):
        raise ContinueSig()

    def s_Break(self, s, fr):
        raise BreakSig()

    def s_Global(self, s, fr):
        raise Unsupported('global')

    def s_Nonlocal(self, s, fr):
        raise Unsupported('nonlocal')

    def s_With(self, s, fr):
        if len(s.items) != 1:
            raise Unsupported('with')
        it = s.items[0]
        v = self.eval(it.context_expr, fr)
        t = self.reify(v)
        if t.op == 'new' and t.args[0] == 'timeout':
            if it.optional_vars is not None:
                raise Unsupported('with as')
            ev = raw('event', 'timeout', len([1 for a, _ in self.allfacts() if a.op == 'event']) * 0)
            if any('TimeoutError' in c for c in self.catching):
                if self.decide(ev):
                    raise RaiseSig('TimeoutError', s)
            self.block(s.body, fr)
            return
        raise Unsupported('with %s' % ir.show(t, 2))

    EXC_PARENTS = {'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'TimeoutError': ['OSError'],
                   'NotImplementedError': ['RuntimeError'], 'ZeroDivisionError': ['ArithmeticError'],
                   'SympifyError': ['ValueError']}

    def exc_match(self, exc, names):
        if names is None:
            return True
        if exc in names or 'Exception' in names or 'BaseException' in names:
            return True
        return any(p in names for p in self.EXC_PARENTS.get(exc, []))

    def handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [t.id if isinstance(t, ast.Name) else t.attr for t in ts]

    def s_Try(self, s, fr):
        names = []
        for h in s.handlers:
            n = self.handler_names(h)
            names += n if n is not None else ['Exception']
        try:
            self.catching.append(names)
            try:
                self.block(s.body, fr)
            finally:
                self.catching.pop()
        except RaiseSig as e:
            for h in s.handlers:
                if self.exc_match(e.exc, self.handler_names(h)):
                    if h.name:
                        self.setvar(fr, h.name, raw('excval', e.exc))
                    try:
                        self.block(h.body, fr)
                    except RaiseSig as e2:
                        if e2.exc == 'reraise':
                            raise e
                        raise
                    break
            else:
                if s.finalbody:
                    self.block(s.finalbody, fr)
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.orelse, fr)
        self.block(s.finalbody, fr)

    def s_While(self, s, fr):
        # constant-false loops are skipped; everything else is not summarised
        c = self.lookup_quiet(self.cond(s.test, fr))
        if c is False:
            self.block(s.orelse, fr)
            return
        k = ir.fresh('k')

        def one():
            if not self.test(s.test, fr):
                raise LoopEnd()
            self.block(s.body, fr)
        self.stats['loops'] += 1
        if not self.generic_loop(raw('unbounded'), k, one, fr, set()):
            self.block(s.orelse, fr)

    # ---- for ----------------------------------------------------------------
    def s_For(self, s, fr):
        S = self.iterate(self.eval(s.iter, fr))
        broke = self.loop_over(S, s, fr)
        if not broke:
            self.block(s.orelse, fr)

    def loop_over(self, S, s, fr):
        S = self.force(S)
        if S.op == 'seq':
            for x in S.args[0]:
                try:
                    self.assign(s.target, x, fr)
                    self.block(s.body, fr)
                except ContinueSig:
                    continue
                except BreakSig:
                    return True
            return False
        if S.op == 'cat':
            for part in S.args[0]:
                if self.loop_over(part, s, fr):
                    return True
            return False
        self.stats['loops'] += 1
        k = ir.fresh('k')
        if S.op == 'bigcat':
            (h,), L, body = S.args
            body = ir.subst(body, {ir.bv(h): k})
        else:
            L, body = ir.length(S), seq(ir.item(S, k))

        if S.op == 'bigcat' and any(u.op != 'seq' or len(u.args[0]) > 1 for u in ir.leaves(body)):
            L, body = ir.length(S), seq(ir.item(S, k))

        def one():
            leaf = self.force(body)
            for x in leaf.args[0]:
                self.assign(s.target, x, fr)
                self.block(s.body, fr)
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        return self.generic_loop(L, k, one, fr, tnames)

    def snapshot_loc(self, loc):
        kind, w = loc
        if kind == 'cell':
            return w.val
        f, n = w
        return f.vars.get(n)

    def set_loc(self, loc, v):
        kind, w = loc
        if kind == 'cell':
            self.wcell(w, v)
        else:
            self.setvar(w[0], w[1], v)

    def generic_loop(self, L, k, one, fr, tnames):
        locs = {}          # key -> loc
        pre_ids = None

        def key(loc):
            return (loc[0], loc[1].id) if loc[0] == 'cell' else ('var', id(loc[1][0]), loc[1][1])
        known_cells = Cell.n
        accs = {}
        for rnd in range(6):
            log = []
            accs = {}
            inits = {}

            def thunk():
                for kk, loc in locs.items():
                    self.set_loc(loc, accval[kk])
                self.writelogs = tuple(self.writelogs) + (log,)
                try:
                    kind, val = 'normal', None
                    try:
                        one()
                    except ContinueSig:
                        pass
                    except BreakSig:
                        kind = 'break'
                    except LoopEnd:
                        kind = 'end'
                    except ReturnSig as r:
                        kind, val = 'return', self.reify(r.v)
                    except RaiseSig as r:
                        kind, val = 'raise', raw('str', r.exc)
                finally:
                    self.writelogs = self.writelogs[:-1]
                out = {}
                for kk, loc in locs.items():
                    v = self.snapshot_loc(loc)
                    if loc[0] == 'var':
                        if isinstance(v, (Cell,)) and v.id > known_cells:
                            v = Poison('container created in loop')
                        if isinstance(v, Cell):
                            v = ('cellref', v)
                        elif v is None or isinstance(v, (Poison,)):
                            v = v
                        else:
                            v = self.reify(v)
                    else:
                        if loc[1].kind == 'obj':
                            raise Unsupported('object mutated in loop')
                    out[kk] = v
                return kind, val, out
            accval = {}
            for kk, loc in locs.items():
                init = self.snapshot_loc(loc)
                inits[kk] = init
                if loc[0] == 'var':
                    nm = loc[1][1]
                    if init is None or isinstance(init, Poison) or nm in tnames:
                        accval[kk] = Poison('loop-carried %s undefined before loop' % nm)
                        continue
                    if isinstance(init, (Closure, FuncV, BoundM, ClsV, ExtV, MethV)):
                        raise Unsupported('function rebound in loop')
                    if isinstance(init, Cell):
                        # variable rebound to another container
                        accval[kk] = ir.fresh('acc')
                        continue
                a = ir.fresh('acc')
                accval[kk] = a
            accs = {kk: a for kk, a in accval.items() if isinstance(a, Term)}
            syms = {k.args[0]} | {a.args[0] for a in accs.values()}
            res = self.enum_local(syms, thunk)
            new = False
            for kind, what in log:
                loc = (kind, what)
                if kind == 'cell' and what.id > known_cells:
                    continue
                if kind == 'var' and what[0] is not fr and not self.is_ancestor(what[0], fr):
                    continue
                if key(loc) not in locs:
                    locs[key(loc)] = loc
                    new = True
            if not new:
                break
        else:
            raise Unsupported('loop does not stabilise')
        accset = {a.args[0] for a in accs.values()}
        try:
            if L.op == 'unbounded':
                raise Complex()
            return self.nice_loop(L, k, res, locs, inits, accs, accval, accset)
        except Complex:
            return self.state_loop(L, k, res, locs, inits, accs, accval)

    def nice_loop(self, L, k, res, locs, inits, accs, accval, accset):
        """comprehension-like loops: independent accumulators, exits independent of them"""
        def litformula(lits):
            c = TRUE
            for a, v in lits:
                c = ir.band(c, a if v else ir.bnot(a))
            return c
        normal = [(lits, o) for lits, (kd, v, o) in res if kd == 'normal']
        exits = [(lits, kd, v, o) for lits, (kd, v, o) in res if kd != 'normal']
        if exits:
            E = FALSE
            for lits, kd, v, o in exits:
                E = ir.bor(E, litformula(lits))
            if E.free & accset:
                raise Complex('loop exit depends on accumulator')
            ex = ir.exists(L, k, E)
            if self.decide(ex):
                kinds = {(kd, v) for _, kd, v, _ in exits}
                if all(kd == 'raise' for kd, _ in kinds) and len(kinds) == 1:
                    raise RaiseSig(exits[0][2].args[0])
                if len({kd for kd, _ in kinds}) != 1:
                    raise Complex('mixed loop exits')
                kd = exits[0][1]
                if kd == 'raise':
                    raise Complex('several exceptions in loop')
                if kd == 'return':
                    val = self.merge([(lits, v) for lits, _, v, _ in exits])
                    if val.free & accset:
                        raise Complex('loop returns accumulator')
                    if k.args[0] in val.free:
                        w = raw('firstidx', ir.binder('lam', (k,), ir._expand(E)), L)
                        val = ir.subst(val, {k: w})
                    raise ReturnSig(self.force(val))
                # break: allowed when nothing else accumulates
                final = {}
                for kk, loc in locs.items():
                    bvs = [o[kk] for _, _, _, o in exits]
                    nvs = [o[kk] for _, o in normal]
                    if any(isinstance(x, (Poison, tuple)) or x is None for x in bvs + nvs):
                        final[kk] = Poison('loop variable after break')
                        continue
                    if any(x is not accval[kk] for x in nvs):
                        raise Complex('accumulator with break')
                    val = self.merge([(lits, o[kk]) for lits, _, _, o in exits])
                    if val is accval[kk]:
                        continue
                    if val.free & accset:
                        raise Complex('accumulator with break')
                    if k.args[0] in val.free:
                        w = raw('firstidx', ir.binder('lam', (k,), ir._expand(E)), L)
                        val = ir.subst(val, {k: w})
                    final[kk] = val
                for kk, v in final.items():
                    self.set_loc(locs[kk], v)
                return True
        if not normal:
            if exits:
                # every iteration exits: loop body runs at most once
                for kk, loc in locs.items():
                    pass
                return False
            raise Infeasible()
        finals = []
        for kk, loc in locs.items():
            init = inits[kk]
            vals = [o[kk] for _, o in normal]
            if isinstance(accval[kk], Poison) or any(isinstance(v, Poison) or v is None for v in vals):
                finals.append((loc, Poison('loop-local value used after loop')))
                continue
            if any(isinstance(v, tuple) for v in vals):
                finals.append((loc, Poison('container rebound in loop')))
                continue
            N = self.merge([(lits, o[kk]) for lits, o in normal])
            a = accval[kk]
            if N is a:
                continue
            init_t = init if loc[0] == 'cell' else self.reify(init)
            fin = self.summarise(L, k, a, accset, N, init_t, loc)
            finals.append((loc, Poison('last value of loop') if fin is None else fin))
        for loc, v in finals:
            self.set_loc(loc, v)
        return False

    def state_loop(self, L, k, res, locs, inits, accs, accval):
        """any other loop: fold over the tuple (outcome kind, value, variables...)"""
        def pure(v):
            return isinstance(v, Term)
        comp, dead = [], []
        for kk in locs:
            if all(pure(o[kk]) for _, (_, _, o) in res) and (pure(accval[kk]) or isinstance(accval[kk], Poison)):
                comp.append(kk)
            else:
                dead.append(kk)
        deadsyms = {accs[kk].args[0] for kk in dead if kk in accs}
        A = ir.fresh('state')
        mp = {accs[kk]: ir.item(A, num(j + 2)) for j, kk in enumerate(comp) if kk in accs}
        paths, kinds = [], []
        for lits, (kd, v, o) in res:
            name = kd if kd != 'raise' else 'raise:' + v.args[0]
            if name not in kinds and kd != 'normal' and kd != 'end':
                kinds.append(name)
            paths.append((lits, seq(raw('str', name), NONE if v is None or kd == 'raise' else v, *[o[kk] for kk in comp])))
        N = self.merge(paths)
        if N.free & deadsyms:
            raise Unsupported('container rebound in loop')
        N = ir.subst(N, mp)
        init = []
        for kk in comp:
            i = inits[kk]
            if isinstance(accval[kk], Poison):
                init.append(raw('undef'))
            else:
                init.append(i if locs[kk][0] == 'cell' else self.reify(i))
        F = raw('foldx', ir.binder('fold', (k, A), N, L, seq(raw('str', 'normal'), NONE, *init)))
        got = 'normal'
        for name in sorted(kinds):
            if self.decide(ir.eq(ir.item(F, num(0)), raw('str', name))):
                got = name
                break
        for j, kk in enumerate(comp):
            self.set_loc(locs[kk], ir.item(F, num(j + 2)))
        for kk in dead:
            self.set_loc(locs[kk], Poison('loop-local value used after loop'))
        if got == 'break':
            return True
        if got == 'return':
            raise ReturnSig(ir.item(F, num(1)))
        if got.startswith('raise:'):
            raise RaiseSig(got[6:])
        return False

    def poison_cell(self, cell, why):
        raise Unsupported(why)

    def is_ancestor(self, f, fr):
        while fr is not None:
            if f is fr:
                return True
            fr = fr.parent
        return False

    def summarise(self, L, k, a, accset, N, init, loc):
        an = a.args[0]
        if not (N.free & accset):
            return None
        N = self.group_norm(N, a)

        def leafkind(u):
            if u is a:
                return {'cat', 'sum', 'ac&', 'ac|', 'group', 'prod', 'big'}
            ks = set()
            if u.op == 'cat' and u.args[0][0] is a and not (set().union(*[x.free for x in u.args[0][1:]]) & accset):
                ks.add('cat')
            if u.op == 'group' and u.args[1] is a and not (u.args[2].free & accset):
                ks.add('group:' + u.args[0])
            if u.op == 'ac' and a in u.args[1] and not (set().union(*[x.free for x in u.args[1] if x is not a] or [set()]) & accset):
                ks.add('ac' + u.args[0])
            d = ir.sub(u, a)
            if not (d.free & accset):
                ks.add('sum')
            return ks
        ls = ir.leaves(N)
        atoms_ok = not (self.cond_free(N) & accset)
        if atoms_ok:
            kinds = [leafkind(u) for u in ls]
            gk = {x for ks in kinds for x in ks if x.startswith('group:')}
            common = None
            for ks, u in zip(kinds, ls):
                ks2 = set(ks)
                if 'group' in ks2:
                    ks2 |= gk
                common = ks2 if common is None else common & ks2
            if 'cat' in common:
                suf = ir.map_leaves(N, lambda u: EMPTYSEQ if u is a else ir.cat(*u.args[0][1:]))
                return ir.cat(init, ir.bigcat(L, k, suf))
            for g in sorted(gk & common):
                suf = ir.map_leaves(N, lambda u: EMPTYSEQ if u is a else u.args[2])
                return mkgroup(g[6:], init, ir.bigcat(L, k, suf))
            for o in '&|':
                if 'ac' + o in common and any(u is not a for u in ls):
                    suf = ir.map_leaves(N, lambda u: EMPTYSEQ if u is a else seq(ir.ac(o, *[x for x in u.args[1] if x is not a])))
                    return ir.ac(o, init, ir.big(o, ir.bigcat(L, k, suf)))
            if 'sum' in common:
                suf = ir.map_leaves(N, lambda u: EMPTYSEQ if u is a else seq(ir.sub(u, a)))
                return ir.add(init, ir.big('+', ir.bigcat(L, k, suf)))
        if (N.free & accset) == {an}:
            return raw('foldv', ir.binder('fold', (k, a), N, L, init))
        raise Complex('coupled loop accumulators')

    def cond_free(self, N):
        if N.op == 'ite':
            return N.args[0].free | self.cond_free(N.args[1]) | self.cond_free(N.args[2])
        return frozenset()

    def group_norm(self, N, a):
        """recognise 'append/combine into the entry of a key' updates of dict a"""
        if N.op != 'ite':
            return self.group_leaf(N, a)
        at, hi, lo = N.args
        hi, lo = self.group_norm(hi, a), self.group_norm(lo, a)
        if at.op == 'in' and at.args[1] is a:
            key = at.args[0]
            if hi.op == 'put' and lo.op == 'put' and hi.args[0] is a and lo.args[0] is a \
                    and hi.args[1] is key and lo.args[1] is key:
                old, h, l = ir.dget(a, key), hi.args[2], lo.args[2]
                if h.op == 'cat' and h.args[0][0] is old and ir.cat(*h.args[0][1:]) is l:
                    return raw('group', 'cat', a, seq(seq(key, l)))
                for o in '&|':
                    if ir.ac(o, old, l) is h:
                        return raw('group', o, a, seq(seq(key, l)))
                if ir.add(old, l) is h:
                    return raw('group', '+', a, seq(seq(key, l)))
                # nested dict: a[key][s] = v
                if h.op == 'put' and h.args[0] is old and l.op in ('dictof', 'put'):
                    single = ir.put(ir.dictof(EMPTYSEQ), h.args[1], h.args[2])
                    if single is l:
                        return raw('group', 'dict', a, seq(seq(key, seq(h.args[1], h.args[2]))))
        return ir.ite(at, hi, lo)

    def group_leaf(self, u, a):
        # put(a,k,v) with k, v independent of a: overwrite-group
        if u.op == 'put' and u.args[0] is a and not ((u.args[1].free | u.args[2].free) & a.free):
            return raw('group', 'last', a, seq(seq(u.args[1], u.args[2])))
        if u.op == 'put' and u.args[0] is a and u.args[2].op == 'cat':
            x = u.args[2].args[0][0]
            if x.op == 'dgetd' and x.args[0] is a and x.args[1] is u.args[1] and x.args[2] is EMPTYSEQ:
                return raw('group', 'cat', a, seq(seq(u.args[1], ir.cat(*u.args[2].args[0][1:]))))
        return u

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, t.elts)
            for e, x in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
            return
        if isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            if isinstance(obj, Cell) and obj.kind == 'obj':
                d = dict(obj.val)
                d[t.attr] = v
                self.wcell(obj, d)
                return
            raise Unsupported('attribute store on %s' % ast.unparse(t))
        if isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice store')
            key = self.eval(t.slice, fr)
            if isinstance(obj, Term) and isinstance(t.value, ast.Name) and t.value.id in fr.vars \
                    and obj.op in ('item', 'attr', 'sym', 'fresh', 'mcall', 'call'):
                # a container reached through a name: later reads through the
                # same name see the store (other paths to it: see purity rules)
                obj = Cell('dict', obj)
                self.setvar(fr, t.value.id, obj)
            self.store_item(obj, self.reify(key), v)
            return
        raise Unsupported('assign %s' % type(t).__name__)

    def store_item(self, obj, key, v):
        if isinstance(obj, Cell) and obj.kind == 'dict':
            self.wcell(obj, ir.put(obj.val, key, self.reify(v)))
            return
        if isinstance(obj, Cell) and obj.kind == 'list':
            x = self.reify(v)
            if obj.val.op == 'seq' and ir.isnum(key):
                xs = list(obj.val.args[0])
                xs[key.args[0]] = x
                self.wcell(obj, seq(*xs))
                return
            self.wcell(obj, lput(obj.val, key, x))
            return
        if isinstance(obj, SubRef):
            cur = self.reify(obj)
            new = ir.put(cur, key, self.reify(v)) if cur.op in ('dictof', 'put', 'dget', 'dgetd') else lput(cur, key, self.reify(v))
            self.store_item(obj.cell, obj.key, new)
            return
        raise Unsupported('item store')

    def unpack(self, v, elts):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            S = self.tosseq(v)
            i = star[0]
            if S.op == 'seq':
                xs = list(S.args[0])
                tail = n - i - 1
                return xs[:i] + [Cell('list', seq(*xs[i:len(xs) - tail]))] + (xs[len(xs) - tail:] if tail else [])
            if i == n - 1:
                return [ir.item(S, num(j)) for j in range(i)] + [Cell('list', ir.slice_(S, num(i), NONE))]
            raise Unsupported('starred unpack')
        if isinstance(v, tuple):
            if len(v) != n:
                raise Unsupported('unpack arity')
            return list(v)
        t = self.force(self.reify(v)) if not isinstance(v, Cell) else self.tosseq(v)
        t = self.force(t)
        if t.op in ('dictof', 'setof', 'keys', 'put'):
            t = self.tosseq(t)
        if t.op == 'seq':
            if len(t.args[0]) != n:
                raise RaiseSig('ValueError')
            return list(t.args[0])
        # unpacking asserts the length
        return [ir.item(t, num(i)) for i in range(n)]

    # ----------------------------------------------------------- expressions
    def test(self, e, fr):
        """outcome of a condition on this path, noted for confirm.py"""
        r = self.decide(self.cond(e, fr))
        if not self.spec_mode:
            v = r
            while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                e, v = e.operand, not v
            if not isinstance(e, (ast.BoolOp, ast.Constant)):
                self.tests.add((id(e), v))
        return r

    def cond(self, e, fr):
        """boolean term of expression used as a condition"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            for x in e.values:
                c = self.test(x, fr)
                if c != isand:
                    return FALSE if isand else TRUE
            return TRUE if isand else FALSE
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ir.bnot(self.cond(e.operand, fr))
        return self.truth(self.eval(e, fr))

    def truth(self, v):
        if isinstance(v, tuple):
            return ir.boolc(len(v) > 0)
        if isinstance(v, Cell):
            if v.kind == 'obj':
                return TRUE
            return ir.lenge(v.val, 1) if v.kind != 'dict' else ir.truth(v.val)
        if isinstance(v, SubRef):
            v = self.reify(v)
        if isinstance(v, Term):
            if v is EMPTYSET:
                return TRUE
            return ir.truth(v)
        return TRUE

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return self.force(m(e, fr))

    def e_Constant(self, e, fr):
        if isinstance(e.value, complex):
            raise Unsupported('complex')
        return const(e.value)

    def e_Name(self, e, fr):
        return self.name(fr, e.id)

    def e_Tuple(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starseq(e.elts, fr)
        return tuple(self.eval(x, fr) for x in e.elts)

    def starseq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.append(self.tosseq(self.eval(x.value, fr)))
            else:
                out.append(seq(self.reify(self.eval(x, fr))))
        return ir.cat(*out)

    def e_List(self, e, fr):
        return Cell('list', self.starseq(e.elts, fr))

    def e_Set(self, e, fr):
        return Cell('set', self.starseq(e.elts, fr))

    def e_Dict(self, e, fr):
        d = ir.dictof(EMPTYSEQ)
        for k, v in zip(e.keys, e.values):
            if k is None:
                other = self.reify(self.eval(v, fr))
                d = self.dict_update(d, other)
            else:
                kk = self.reify(self.eval(k, fr))
                d = ir.put(d, kk, self.reify(self.eval(v, fr)))
        return Cell('dict', d)

    def dict_update(self, d, other):
        if d.op == 'dictof' and d.args[0] is EMPTYSEQ:
            return other if other.op in ('dictof', 'put') else raw('dictcopy', other) if False else other
        if other.op == 'dictof' and other.args[0].op == 'seq':
            for p in other.args[0].args[0]:
                d = ir.put(d, *p.args[0])
            return d
        return mkgroup('last', d, ir.ditems(other))

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.reify(self.eval(v.value, fr))
                if v.conversion == 114:
                    x = mkcall('repr', x)
                elif v.format_spec is None:
                    x = mkcall('str', x)
                else:
                    x = raw('fmt1', x, self.reify(self.eval(v.format_spec, fr)))
                parts.append(x)
        return strcat(*parts)

    def e_FormattedValue(self, e, fr):
        return mkcall('str', self.reify(self.eval(e.value, fr)))

    def e_Lambda(self, e, fr):
        return Closure(e, fr, '<lambda>', fr.mod)

    def e_IfExp(self, e, fr):
        if self.test(e.test, fr):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            if self.decide(self.truth(v)) != isand:
                if isinstance(v, Term) and ir.is_bool(v):
                    return FALSE if isand else TRUE
                return v
        v = self.eval(e.values[-1], fr)
        return v

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_UnaryOp(self, e, fr):
        if isinstance(e.op, ast.Not):
            return ir.bnot(self.cond(e.operand, fr))
        v = self.reify(self.eval(e.operand, fr))
        if isinstance(e.op, ast.USub):
            return ir.lift1(v, ir.neg)
        if isinstance(e.op, ast.UAdd):
            return v
        return ir.invert(v)

    def e_BinOp(self, e, fr):
        l = self.eval(e.left, fr)
        r = self.eval(e.right, fr)
        return self.binop(e.op, l, r)

    def is_seqval(self, v):
        if isinstance(v, tuple):
            return True
        if isinstance(v, Cell):
            return v.kind == 'list'
        if isinstance(v, SubRef):
            return self.is_seqval(self.reify(v))
        if isinstance(v, Term):
            if v.op in ('seq', 'cat', 'bigcat', 'slice', 'sorted', 'shuffled', 'rangeof'):
                return True
            if v.op == 'attr' and v.args[1] in SEQ_ATTRS:
                return True
            return any(a.op == 'isinst' and a.args[0] is v and a.args[1] in ('list', 'tuple') and t for a, t in self.allfacts())
        return False

    def is_setval(self, v):
        if isinstance(v, Cell):
            return v.kind == 'set'
        return isinstance(v, Term) and v.op in ('setof', 'setdiff')

    def is_strval(self, v):
        if isinstance(v, SubRef):
            v = self.reify(v)
        return isinstance(v, Term) and (v.op in ('str', 'strcat', 'fmt', 'fmt1') or v.op == 'call' and v.args[0] in ('str', 'repr', 'join'))

    def binop(self, op, l, r):
        o = type(op).__name__
        if o == 'Mod' and self.is_strval(l):
            return self.percent(self.reify(l), r)
        if o == 'Add' and (self.is_strval(l) or self.is_strval(r)):
            return strcat(self.reify(l), self.reify(r))
        if o == 'Add' and (self.is_seqval(l) or self.is_seqval(r)):
            res = ir.cat(self.tosseq(l), self.tosseq(r))
            return Cell('list', res) if isinstance(l, Cell) else res
        if o == 'Mult' and (self.is_seqval(l) or self.is_seqval(r)):
            s, n = (l, r) if self.is_seqval(l) else (r, l)
            n = self.reify(n)
            k = ir.fresh('k')
            return Cell('list', ir.bigcat(n, k, self.tosseq(s)))
        if o == 'Mult' and (self.is_strval(l) or self.is_strval(r)):
            s, n = (l, r) if self.is_strval(l) else (r, l)
            return raw('strrep', self.reify(s), self.reify(n))
        if o == 'Sub' and (self.is_setval(l) or self.is_setval(r)):
            return setdiff(self.reify(l), self.reify(r))
        if o == 'BitOr' and self.is_setval(l) and self.is_setval(r):
            return Cell('set', ir.cat(self.tosseq(l), self.tosseq(r)))
        a, b = self.reify(l), self.reify(r)
        if o == 'Add':
            return ir.lift2(a, b, ir.add)
        if o == 'Sub':
            return ir.lift2(a, b, ir.sub)
        if o == 'Mult':
            return ir.lift2(a, b, ir.mul)
        if o == 'Div':
            return ir.mul(a, ir.inv(b))
        if o == 'Pow':
            return ir.power(a, b)
        if o == 'BitAnd' and (ir.setkind(a) or ir.setkind(b)):
            return ir.setinter(a, b)
        if o == 'BitAnd':
            return ir.ac('&', a, b)
        if o == 'BitOr':
            return ir.ac('|', a, b)
        if o == 'FloorDiv' and ir.isnum(a) and ir.isnum(b):
            return num(ir.frac(a) // ir.frac(b))
        if o == 'Mod' and ir.isnum(a) and ir.isnum(b):
            return num(ir.frac(a) % ir.frac(b))
        return raw('binop', o, a, b)

    def percent(self, fmt, r):
        if fmt.op == 'str' and '%' in fmt.args[0]:
            args = list(r) if isinstance(r, tuple) else [r]
            out, i, f, j = [], 0, fmt.args[0], 0
            import re
            pos = 0
            for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXeEfFgGcrsa%])', f):
                if m.start() > pos:
                    out.append(raw('str', f[pos:m.start()]))
                pos = m.end()
                if m.group(5) == '%':
                    out.append(raw('str', '%'))
                    continue
                if m.group(1) or m.group(2) or m.group(3) or m.group(4):
                    return raw('fmt', fmt, seq(*[self.reify(x) for x in args]))
                if j >= len(args):
                    raise Unsupported('format arity')
                x = self.reify(args[j])
                j += 1
                if m.group(5) == 'r':
                    out.append(mkcall('repr', x))
                elif m.group(5) in 'sdi':
                    out.append(mkcall('str', x))
                else:
                    return raw('fmt', fmt, seq(*[self.reify(x) for x in args]))
            if pos < len(f):
                out.append(raw('str', f[pos:]))
            return strcat(*out)
        return raw('fmt', fmt, self.reify(r))

    def e_Compare(self, e, fr):
        l = self.eval(e.left, fr)
        n = len(e.ops)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            r = self.eval(c, fr)
            t = self.compare(op, l, r)
            if i == n - 1:
                return t
            if not self.decide(t if ir.is_bool(t) else ir.truth(t)):
                return FALSE
            l = r

    def compare(self, op, l, r):
        o = type(op).__name__
        if o in ('In', 'NotIn'):
            c = self.contains(l, r)
            return ir.bnot(c) if o == 'NotIn' else c
        if o in ('Is', 'IsNot'):
            c = self.same(l, r)
            return ir.bnot(c) if o == 'IsNot' else c
        a, b = self.reify(l), self.reify(r)
        if o == 'Eq':
            return self.equal(a, b)
        if o == 'NotEq':
            return ir.bnot(self.equal(a, b))
        if o == 'Lt':
            return ir.lt(a, b)
        if o == 'Gt':
            return ir.lt(b, a)
        if o == 'LtE':
            return ir.le(a, b)
        return ir.le(b, a)

    def equal(self, a, b):
        a, b = self.canonset(a), self.canonset(b)
        return ir.eq(a, b)

    def canonset(self, t):
        return t

    def same(self, l, r):
        a, b = self.reify(l), self.reify(r)
        if a is b and a.op in ('none', 'bool', 'const', 'sym', 'fresh', 'item', 'attr', 'classref', 'func', 'ext'):
            return TRUE
        if self.isconstlike(a) or self.isconstlike(b):
            return ir.eq(a, b)
        return raw('is', *sorted((a, b)))

    def contains(self, l, r):
        x = self.reify(l)
        if isinstance(r, Cell) and r.kind == 'dict':
            return ir.has(r.val, x)
        if isinstance(r, Cell) and r.kind == 'obj':
            raise Unsupported('in obj')
        t = self.reify(r)
        t = self.force(t)
        if t is EMPTYSET:
            return FALSE
        if t.op == 'new' and t.args[0] == 'Interval':
            return self.in_interval(x, t)
        if t.op == 'new' and t.args[0] == 'FiniteReal':
            d = dict(t.args[1])
            return ir.inseq(x, d['*'])
        if t.op in ('dictof', 'put'):
            return ir.has(t, x)
        return ir.inseq(x, t)

    def in_interval(self, x, t):
        d = dict(t.args[1])
        lo = ir.ite(d['left_open'], ir.lt(d['a'], x), ir.le(d['a'], x))
        hi = ir.ite(d['right_open'], ir.lt(x, d['b']), ir.le(x, d['b']))
        return ir.band(lo, hi)

    # ---- comprehensions -------------------------------------------------------
    def comp(self, gens, i, fr, leaf):
        g = gens[i]
        S = self.iterate(self.eval(g.iter, fr))

        def each(x):
            self.assign(g.target, x, fr)
            for c in g.ifs:
                if not self.test(c, fr):
                    return EMPTYSEQ
            if i == len(gens) - 1:
                return leaf()
            return self.comp(gens, i + 1, fr, leaf)
        return self.flatmap(S, each)

    def flatmap(self, S, f):
        S = self.force(S)
        if S.op == 'seq':
            return ir.cat(*[f(x) for x in S.args[0]])
        if S.op == 'cat':
            return ir.cat(*[self.flatmap(p, f) for p in S.args[0]])
        k = ir.fresh('k')
        if S.op == 'bigcat':
            (h,), L, body = S.args
            body = ir.subst(body, {ir.bv(h): k})
        else:
            L, body = ir.length(S), seq(ir.item(S, k))
        return self.bigcat_of(L, k, lambda: self.flatmap_leaf(body, f))

    def flatmap_leaf(self, body, f):
        leaf = self.force(body)
        return self.flatmap(leaf, f)

    def bigcat_of(self, L, k, thunk):
        def run():
            try:
                return ('ok', thunk())
            except RaiseSig as r:
                return ('raise', r.exc)
        res = self.enum_local({k.args[0]}, run)
        bad = [(l, v) for l, (s, v) in res if s == 'raise']
        if bad:
            c = FALSE
            for lits, _ in bad:
                t = TRUE
                for a, v in lits:
                    t = ir.band(t, a if v else ir.bnot(a))
                c = ir.bor(c, t)
            if self.decide(ir.exists(L, k, c)):
                if len({v for _, v in bad}) > 1:
                    raise Unsupported('several exceptions')
                raise RaiseSig(bad[0][1])
        good = [(l, v) for l, (s, v) in res if s == 'ok']
        if not good:
            return EMPTYSEQ
        return ir.bigcat(L, k, self.merge(good))

    def compframe(self, fr):
        f = Frame(fr.mod, fr, fr.func, fr.cls)
        return f

    def e_ListComp(self, e, fr):
        f = self.compframe(fr)
        return Cell('list', self.comp(e.generators, 0, f, lambda: seq(self.reify(self.eval(e.elt, f)))))

    def e_GeneratorExp(self, e, fr):
        f = self.compframe(fr)
        return self.comp(e.generators, 0, f, lambda: seq(self.reify(self.eval(e.elt, f))))

    def e_SetComp(self, e, fr):
        f = self.compframe(fr)
        return Cell('set', self.comp(e.generators, 0, f, lambda: seq(self.reify(self.eval(e.elt, f)))))

    def e_DictComp(self, e, fr):
        f = self.compframe(fr)

        def leaf():
            k = self.reify(self.eval(e.key, f))
            return seq(seq(k, self.reify(self.eval(e.value, f))))
        return Cell('dict', ir.dictof(self.comp(e.generators, 0, f, leaf)))

    # ---- sequences ---------------------------------------------------------------
    def tosseq(self, v):
        return self.iterate(v)

    def iterate(self, v):
        """the sequence an iteration over v yields"""
        if isinstance(v, tuple):
            return self.reify(v)
        if isinstance(v, Cell):
            if v.kind in ('list', 'set'):
                return v.val
            if v.kind == 'dict':
                return self.force(ir.keys(v.val))
        t = self.force(self.reify(v))
        if t.op in ('dictof', 'put'):
            return ir.keys(t)
        if t.op == 'setof':
            return t.args[0]
        if t.op == 'str':
            raise Unsupported('iterate string')
        if t.op == 'new' and t.args[0] in ('FiniteReal', 'FiniteNominal'):
            return raw('sorted', dict(t.args[1])['*'])
        if t.op in ('num', 'none', 'bool'):
            raise RaiseSig('TypeError')
        if t.op == 'ac':
            return raw('iter', t)
        if ir.isdict(t):
            return self.force(ir.keys(t))
        return t

    def idxform(self, S):
        """(L, fn) with S[k]=fn(k) for k<L, or None"""
        if S.op == 'bigcat':
            if ir.purelen(S) is None:
                return None
            return S.args[1], lambda k: ir.item(S, k)
        if S.op in ('seq', 'cat'):
            return None
        return ir.length(S), lambda k: ir.item(S, k)

    def zip(self, Ss):
        Ss = [self.force(s) for s in Ss]
        if all(s.op == 'seq' for s in Ss):
            n = min(len(s.args[0]) for s in Ss)
            return seq(*[seq(*[s.args[0][i] for s in Ss]) for i in range(n)])
        forms = [self.idxform(s) for s in Ss]
        if all(forms):
            L = self.minlen([f[0] for f in forms])
            k = ir.fresh('k')
            return ir.bigcat(L, k, seq(seq(*[self.lf(f[1](k)) for f in forms])))
        if all(s.op == 'bigcat' and s.args[1] is Ss[0].args[1] for s in Ss):
            k = ir.fresh('k')
            bodies = [ir.subst(s.args[2], {ir.bv(s.args[0][0]): k}) for s in Ss]

            def thunk():
                lv = [self.force(b) for b in bodies]
                if all(x.op == 'seq' for x in lv) and len({len(x.args[0]) for x in lv}) == 1:
                    return seq(*[seq(*[x.args[0][j] for x in lv]) for j in range(len(lv[0].args[0]))])
                raise Complex()
            try:
                return ir.bigcat(Ss[0].args[1], k, self.local_value({k.args[0]}, thunk))
            except Complex:
                pass
        if all(s.op == 'cat' for s in Ss) and len({len(s.args[0]) for s in Ss}) == 1:
            parts = list(zip(*[s.args[0] for s in Ss]))
            if all(ir.length(x) is ir.length(p[0]) for p in parts for x in p):
                return ir.cat(*[self.zip(list(p)) for p in parts])
        L = self.minlen([ir.length(s) for s in Ss])
        k = ir.fresh('k')
        return ir.bigcat(L, k, seq(seq(*[ir.item(s, k) for s in Ss])))

    def lf(self, t):
        return t

    def minlen(self, Ls):
        L = Ls[0]
        for M in Ls[1:]:
            if M is L:
                continue
            d = ir.sub(L, M)
            if ir.isnum(d):
                L = M if ir.frac(d) > 0 else L
                continue
            e = self.lookup_quiet(ir.eq(L, M))
            if e is True:
                L = min(L, M)
                continue
            L = raw('min', *sorted((L, M)))
        return L

    # ---- attribute / subscript -------------------------------------------------
    def e_Attribute(self, e, fr):
        v = self.eval(e.value, fr)
        name = e.attr
        if name.startswith('__') and not name.endswith('__') and fr.cls is not None:
            pass
        return self.getattr(v, name)

    ALIAS = {'left': 'a', 'right': 'b', 'left_open': 'left_open', '__class__': '__class__', 'args': 'args'}

    def getattr(self, v, name):
        if isinstance(v, SubRef):
            return MethV(v, name)
        if isinstance(v, ModV):
            return self.globalname(v.m, name)
        if isinstance(v, ExtV):
            n = v.name + '.' + name
            if v.name in ('chain',) or EXT_CANON.get(v.name) == 'chain':
                n = 'chain.' + name
            if EXT_CANON.get(n) == 'INF':
                return INF
            return ExtV(n)
        if isinstance(v, ClsV):
            f = v.c.find(name)
            if f:
                return FuncV(f)
            a = v.c.find_attr(name)
            if a:
                return self.eval(a[1], Frame(a[0].mod))
            if name == '__name__':
                return raw('str', v.c.name)
            return MethV(raw('classref', v.c.name), name)
        if isinstance(v, SuperV):
            for c in v.cls.mro()[1:]:
                if name in c.methods:
                    return BoundM(v.self_, c.methods[name])
            return MethV(raw('super', self.reify(v.self_)), name)
        if isinstance(v, Cell):
            if v.kind == 'obj':
                if name in v.val:
                    return v.val[name]
                if name == '__class__':
                    return ClsV(v.cls)
                f = v.cls.find(name)
                if f:
                    return FuncV(f) if f.is_static() else BoundM(v, f)
                a = v.cls.find_attr(name)
                if a:
                    return self.eval(a[1], Frame(a[0].mod))
                raise Unsupported('attribute %s of object' % name)
            return MethV(v, name)
        if isinstance(v, tuple):
            return MethV(self.reify(v), name)
        if isinstance(v, FuncV) and name == '__name__':
            return raw('str', v.f.name)
        if not isinstance(v, Term):
            raise Unsupported('attribute of %r' % (v,))
        return self.termattr(v, name)

    def classes_of(self, t):
        """(class, exact) known for t, most specific"""
        if t is EMPTYSET:
            return self.prog.cls('EmptySetC'), True
        if t.op == 'new':
            k = t.args[0]
            if isinstance(k, str):
                return self.prog.cls(k), True
            if k.op == 'type':
                return self.classes_of(k.args[0])
        best = None
        for p in self.known_classes(t)[0]:
            if self.prog.hascls(p):
                c = self.prog.cls(p)
                if best is None or c.issub(best):
                    best = c
        if best is not None:
            return best, t in self.exact
        return None, False

    exact = frozenset()

    def termattr(self, t, name):
        if name == '__class__':
            if t.op == 'new' and isinstance(t.args[0], str):
                return ClsV(self.prog.cls(t.args[0]))
            return raw('type', t)
        c, exact = self.classes_of(t)
        if c is not None:
            f = c.find(name)
            if f is not None and not self.instance_attr(c, name):
                if f.is_static():
                    return FuncV(f)
                if 'property' in f.decorators():
                    return self.call_func(f, [t], {})
                return MethV(t, name)
        if t.op == 'new' and c is not None:
            at = self.construct(t, c)
            if at is not None and name in at:
                return at[name]
            a = c.find_attr(name)
            if a and at is not None:
                return self.eval(a[1], Frame(a[0].mod))
        if c is not None:
            a = c.find_attr(name)
            if a and not self.instance_attr(c, name) and (exact or not self.sub_overrides(c, name)):
                return self.eval(a[1], Frame(a[0].mod))
        if c is None or c.find(name) is None and not self.instance_attr(c, name):
            if self.is_methodname(name):
                return MethV(t, name)
        if name == 'numerator':
            return ir.mul(t, raw('den', t))
        if name == 'denominator':
            return raw('den', t)
        if name in ('left', 'right'):
            name = {'left': 'a', 'right': 'b'}[name]
        if name in ('left_open', 'right_open'):
            return ir._expand(raw('truth', raw('attr', t, name)))
        return raw('attr', t, name)

    def sub_overrides(self, c, name):
        for s in c.allsubs():
            if s is c:
                continue
            if name in s.attrs or name in s.methods or self.instance_attr(s, name):
                return True
        return False

    _inst = None

    def instance_attr(self, c, name):
        """is self.name assigned in some method of c's MRO?"""
        if Interp._inst is None or Interp._inst[0] is not self.prog:
            Interp._inst = (self.prog, {})
        cache = Interp._inst[1]
        for k in c.mro():
            if k not in cache:
                s = set()
                for f in k.methods.values():
                    ps = f.params()
                    if not ps:
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) \
                                and isinstance(n.value, ast.Name) and n.value.id == ps[0]:
                            s.add(n.attr)
                cache[k] = s
            if name in cache[k]:
                return True
        return name == 'symbols' and any(k.name == 'Transform' for k in c.mro())

    BUILTIN_METHODS = {
        'items', 'keys', 'values', 'get', 'append', 'extend', 'copy', 'index', 'count', 'union', 'intersection',
        'difference', 'issubset', 'issuperset', 'isdisjoint', 'split', 'strip', 'join', 'replace', 'startswith',
        'endswith', 'format', 'add', 'pop', 'remove', 'insert', 'sort', 'reverse', 'update', 'setdefault',
        'discard', 'clear', 'lower', 'upper', 'write', 'popitem', 'lstrip', 'rstrip', 'splitlines', 'translate',
        'is_integer', 'as_integer_ratio', 'most_common', 'elements', 'symmetric_difference',
    }

    def is_methodname(self, name):
        if name in self.BUILTIN_METHODS and name not in ('values', 'copy', 'index', 'count'):
            return True
        if name in ('values',):
            return False
        for f in self.prog.implementers(name):
            return True
        return name in self.vocab

    def construct(self, t, c):
        """attributes of new(C, args): analyse C.__init__"""
        if t in self.attrcache:
            return self.attrcache[t]
        init = c.find('__init__')
        if init is None:
            return {}
        obj = Cell('obj', {}, c)
        d = dict(t.args[1])
        args, kw = [obj], {}
        a = init.node.args
        for p in init.params()[1:]:
            if p in d:
                kw[p] = d[p]
        if a.vararg and '*' in d:
            star = d['*']
            if star.op == 'seq':
                args += list(star.args[0])
                kw = {k: v for k, v in kw.items()}
            elif c.name in ('FiniteReal', 'FiniteNominal', 'Union'):
                self.attrcache[t] = self.construct_star(c, d)
                return self.attrcache[t]
            else:
                args.append(('*', star))
        else:
            for p in a.kwonlyargs:
                if p.arg in d:
                    kw[p.arg] = d[p.arg]
        if a.vararg:
            for p in a.kwonlyargs:
                if p.arg in d:
                    kw[p.arg] = d[p.arg]
        ar, self.assert_raises = self.assert_raises, False
        try:
            self.call_func(init, args, kw)
        except Infeasible:
            raise
        finally:
            self.assert_raises = ar
        self.attrcache[t] = dict(obj.val)
        return obj.val

    def construct_star(self, c, d):
        if c.name in ('FiniteReal', 'FiniteNominal'):
            r = {'values': raw('setof', d['*'])}
            if c.name == 'FiniteNominal':
                r['b'] = d.get('b', NONE)
            return r
        return None

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            S = self.tosseq(v)
            lo = self.reify(self.eval(e.slice.lower, fr)) if e.slice.lower else NONE
            hi = self.reify(self.eval(e.slice.upper, fr)) if e.slice.upper else NONE
            if e.slice.step is not None:
                st = self.reify(self.eval(e.slice.step, fr))
                return raw('slicestep', S, lo, hi, st)
            r = ir.slice_(S, lo, hi)
            return r
        k = self.eval(e.slice, fr)
        return self.getitem(v, k)

    def getitem(self, v, k):
        if isinstance(v, tuple):
            kt = self.reify(k)
            if ir.isnum(kt) and -len(v) <= kt.args[0] < len(v):
                return v[kt.args[0]]
            v = self.reify(v)
        kt = self.reify(k)
        if isinstance(v, Cell) and v.kind == 'dict':
            self.key_check(v.val, kt)
            r = ir.dget(v.val, kt)
            return self.maybe_sub(v, kt, r)
        if isinstance(v, Cell) and v.kind == 'list':
            r = ir.item(v.val, kt)
            return self.maybe_sub(v, kt, r)
        if isinstance(v, Cell) and v.kind == 'obj':
            f = v.cls.find('__getitem__')
            if f:
                return self.call_func(f, [v, k], {})
            raise Unsupported('obj subscript')
        t = self.force(self.reify(v))
        if t.op in ('dictof', 'put'):
            self.key_check(t, kt)
            return ir.dget(t, kt)
        if t.op == 'seq' and ir.isnum(kt):
            r = ir.item(t, kt)
            if r.op == 'indexerror':
                raise RaiseSig('IndexError')
            return r
        if t.op in ('seq', 'bigcat', 'cat', 'slice'):
            return ir.item(t, kt)
        if any(x in c for c in self.catching for x in ('KeyError', 'LookupError')):
            self.key_check(t, kt)
        return ir.item(t, kt)

    def maybe_sub(self, cell, key, r):
        """keep a handle when the element may be a container updated in place"""
        if r.op in ('seq', 'cat', 'bigcat', 'dictof', 'put') or \
                (r.op in ('dget', 'item') and (r.free & {x for s in self.scopes for x in s.syms})):
            return SubRef(cell, key)
        return r

    def key_check(self, d, k):
        if any(x in c for c in self.catching for x in ('KeyError', 'LookupError')):
            if not self.decide(ir.has(d, k)):
                raise RaiseSig('KeyError')

    # ---- calls -----------------------------------------------------------------
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            if f is None:
                raise Unsupported('super')
            g = fr
            while g is not None:
                if g.func is not None and g.func.params() and g.func.params()[0] in g.vars:
                    return SuperV(f.cls, g.vars[g.func.params()[0]])
                g = g.parent
            raise Unsupported('super')
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) \
                and e.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse'):
            # a local list built by an expression becomes an owned container
            g = fr
            n = e.func.value.id
            while g is not None and n not in g.vars:
                g = g.parent
            if g is not None and isinstance(g.vars[n], Term) and g.vars[n].op in ('cat', 'seq', 'slice', 'bigcat', 'sorted', 'reversed'):
                self.setvar(g, n, Cell('list', g.vars[n]))
        fn = self.eval(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                S = self.force(self.tosseq(self.eval(a.value, fr)))
                if S.op == 'seq':
                    args.extend(S.args[0])
                else:
                    args.append(('*', S))
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.reify(self.eval(k.value, fr))
                if d.op == 'dictof' and d.args[0].op == 'seq' and all(p.args[0][0].op == 'str' for p in d.args[0].args[0]):
                    for p in d.args[0].args[0]:
                        kw[p.args[0][0].args[0]] = p.args[0][1]
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        if isinstance(fn, FuncV):
            return self.call_func(fn.f, args, kw)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kw)
        if isinstance(fn, BoundM):
            return self.call_func(fn.f, [fn.recv] + args, kw)
        if isinstance(fn, HostFn):
            return fn.fn(args, kw)
        if isinstance(fn, ClsV):
            return self.instantiate(fn.c, args, kw)
        if isinstance(fn, ExtV):
            return self.call_ext(EXT_CANON.get(fn.name, fn.name), args, kw)
        if isinstance(fn, MethV):
            return self.call_method(fn.recv, fn.name, args, kw)
        if isinstance(fn, Term):
            if fn.op == 'type':
                return self.instantiate_type(fn, args, kw)
            if fn.op == 'classref':
                return self.instantiate(self.prog.cls(fn.args[0]), args, kw)
            if fn.op == 'lam':
                fs, body = ir.unbind(fn)
                ts = [self.reify(a) for a in args]
                if len(fs) == len(ts) and not kw:
                    return self.force(ir.subst(body, dict(zip(fs, ts))))
            if fn.op in ('attr',) and (self.is_methodname(fn.args[1]) or fn.args[1] in ('values', 'copy') and not args):
                return self.call_method(fn.args[0], fn.args[1], args, kw)
            return raw('apply', fn, self.argterm(args, kw))
        raise Unsupported('call of %r' % (fn,))

    def argterm(self, args, kw):
        out = []
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and a[0] == '*':
                out.append(raw('star', a[1]))
            else:
                out.append(self.reify(a))
        for k in sorted(kw):
            if k in self.erase:
                continue
            out.append(raw('kw', k, self.reify(kw[k])))
        return tuple(out)

    def bindargs(self, node, args, kw, frame_defaults):
        """python argument binding -> dict"""
        a = node.args
        pos = a.posonlyargs + a.args
        out = {}
        flat = []
        for x in args:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == '*':
                flat.append(x)
            else:
                flat.append(x)
        stars = [x for x in flat if isinstance(x, tuple) and len(x) == 2 and x[0] == '*']
        if stars:
            if a.vararg is None:
                # unknown-length sequence into fixed parameters
                if len(flat) == 1 and not kw and len(stars) == 1:
                    for i, p in enumerate(pos):
                        out[p.arg] = ir.item(stars[0][1], num(i))
                    return out
                raise Unsupported('star call')
            npos = len(pos)
            if any(isinstance(x, tuple) and len(x) == 2 and x[0] == '*' for x in flat[:npos]):
                raise Unsupported('star call')
            for p, x in zip(pos, flat):
                out[p.arg] = x
            rest = flat[npos:]
            out[a.vararg.arg] = ir.cat(*[x[1] if (isinstance(x, tuple) and len(x) == 2 and x[0] == '*') else seq(self.reify(x)) for x in rest])
        else:
            for p, x in zip(pos, flat):
                out[p.arg] = x
            rest = flat[len(pos):]
            if a.vararg is not None:
                out[a.vararg.arg] = tuple(rest)
            elif rest:
                raise RaiseSig('TypeError')
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in out:
                    raise RaiseSig('TypeError')
                out[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            d = ir.dictof(EMPTYSEQ)
            if '**' in extra:
                d = extra.pop('**')
            for k, v in extra.items():
                d = ir.put(d, raw('str', k), self.reify(v))
            out[a.kwarg.arg] = Cell('dict', d)
        elif extra:
            if set(extra) == {'**'}:
                raise Unsupported('** call')
            raise RaiseSig('TypeError')
        defaults = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p in pos + a.kwonlyargs:
            if p.arg not in out:
                if p.arg in defaults:
                    out[p.arg] = self.eval(defaults[p.arg], frame_defaults)
                else:
                    raise RaiseSig('TypeError')
        return out

    def call_func(self, f, args, kw):
        special = self.special_func(f, args, kw)
        if special is not None:
            return special[0]
        if (f.name in self.opaque_funcs or f.qual in self.opaque_funcs) and self.depth > 0:
            return self.opaque_call(f, args, kw)
        if self.depth >= self.MAXDEPTH:
            raise Unsupported('inlining too deep')
        if self.stack.count(f.qual) >= 1:
            return self.opaque_call(f, args, kw)
        decs = [d for d in f.decorators() if d not in ('staticmethod', 'property', 'memoize', 'classmethod')]
        if decs and any(d.split('.')[-1].split('(')[0] not in ('abstractmethod', 'wraps', 'lru_cache') for d in decs):
            if not self.transparent_decorators:
                raise Unsupported('decorator %s' % decs)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            return self.run_generator(f, args, kw)
        if self.writes_nonlocal(f.node):
            raise Unsupported('global state')
        self.stats['calls'].add(f.qual)
        fr = Frame(f.mod, None, f, f.cls)
        b = self.bindargs(f.node, args, kw, Frame(f.mod))
        fr.vars.update(b)
        return self.run_body(f.node, fr, f.qual)

    transparent_decorators = True

    def writes_nonlocal(self, node):
        return any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(node))

    def run_body(self, node, fr, label):
        self.depth += 1
        self.stack.append(label)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            try:
                self.block(node.body, fr)
            except ReturnSig as r:
                return r.v
            return NONE
        finally:
            self.depth -= 1
            self.stack.pop()

    def run_generator(self, f, args, kw, closure=None):
        raise Unsupported('generator function')

    def call_closure(self, c, args, kw):
        if self.depth >= self.MAXDEPTH:
            raise Unsupported('inlining too deep')
        lab = 'closure@%d' % id(c.node)
        if self.stack.count(lab) >= 2:
            raise Unsupported('recursive closure')
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(c.node)):
            raise Unsupported('generator function')
        fr = Frame(c.mod or c.frame.mod, c.frame, None, None)
        fr.vars.update(self.bindargs(c.node, args, kw, c.frame))
        return self.run_body(c.node, fr, lab)

    def special_func(self, f, args, kw):
        """library-like helpers whose meaning is fixed"""
        if self.spec_mode and f.mod is self.specmod:
            return None
        if f.name == 'sympify_number' and 'sympify_number' not in self.noinline_special:
            x = self.reify(args[0])
            if x.op in ('num', 'inf'):
                return (x,)
            if self.lookup(raw('isinst', x, 'int')) is True or self.lookup(raw('isinst', x, 'float')) is True:
                return (x,)
            a = raw('isnumber', x)
            pos, _ = self.known_classes(x)
            if any(self.prog.hascls(p) for p in pos) or x.op in ('new', 'none', 'str', 'seq', 'setof', 'dictof'):
                raise RaiseSig('TypeError')
            if self.decide(a):
                return (x,)
            raise RaiseSig('TypeError')
        return None

    noinline_special = frozenset()

    def opaque_call(self, f, args, kw):
        try:
            b = self.bindargs(f.node, args, kw, Frame(f.mod))
            ps = [p for p in self.allparams(f.node)]
            ts = tuple(self.reify(b[p]) for p in ps if p not in self.erase)
        except RaiseSig:
            raise
        if f.cls is not None and f.params():
            return raw('mcall', ts[0], f.name, ts[1:])
        return mkcallt(f.name, ts)

    def allparams(self, node):
        a = node.args
        return [p.arg for p in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + \
            [p.arg for p in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])

    def instantiate_type(self, ty, args, kw):
        c, _ = self.classes_of(ty.args[0])
        if c is None or c.find('__init__') is None:
            return raw('new', ty, tuple(('arg%d' % i, x) for i, x in enumerate(self.argterm(args, kw))))
        init = c.find('__init__')
        b = self.bindargs(init.node, [NONE] + args, kw, Frame(init.mod))
        ps = self.allparams(init.node)[1:]
        return self.norm_new(raw('new', ty, tuple((p, self.reify(b[p])) for p in ps)))

    def instantiate(self, c, args, kw):
        if c.name == 'EmptySetC':
            return EMPTYSET
        init = c.find('__init__')
        self.stats['calls'].add(c.mod.name + '.' + c.name)
        if init is None:
            return raw('new', c.name, ())
        b = self.bindargs(init.node, [NONE] + args, kw, Frame(init.mod))
        a = init.node.args
        items = []
        for p in self.allparams(init.node)[1:]:
            nm = '*' if (a.vararg and p == a.vararg.arg) else p
            v = self.reify(b[p])
            items.append((nm, v))
        return self.norm_new(raw('new', c.name, tuple(items)))

    def norm_new(self, t):
        """normal form of constructor terms"""
        k = t.args[0]
        d = dict(t.args[1])
        if k == 'Interval' and 'a' in d:
            for f, inf_ in (('left_open', ir.isninf(d['a'])), ('right_open', ir.ispinf(d['b']))):
                if f in d:
                    d[f] = ir._expand(ir.bor(ir.truth(d[f]), inf_))
            return raw('new', k, tuple((n, d[n]) for n, _ in t.args[1]))
        if k == 'FiniteNominal' and 'b' in d:
            d['b'] = ir._expand(ir.truth(d['b']))
            return raw('new', k, tuple((n, d[n]) for n, _ in t.args[1]))
        return t

    # ---- methods -----------------------------------------------------------------
    def call_method(self, recv, name, args, kw):
        if isinstance(recv, Cell) and recv.kind != 'obj':
            r = self.container_method(recv, name, args, kw)
            if r is not None:
                return r
        if isinstance(recv, SubRef):
            r = self.subref_method(recv, name, args, kw)
            if r is not None:
                return r
            recv = self.reify(recv)
        t = self.force(self.reify(recv))
        c, exact = self.classes_of(t)
        if c is not None:
            f = c.find(name)
            if f is not None and not f.is_static():
                if name not in self.vocab and f.qual not in self.opaque_funcs and \
                        (exact or not any(name in s.methods for s in c.allsubs() if s is not f.cls and s.issub(f.cls) and s is not c)):
                    if self.stack.count(f.qual) == 0:
                        return self.call_func(f, [t] + args, kw)
                return self.opaque_method(t, name, args, kw, f)
        r = self.term_method(t, name, args, kw)
        if r is not None:
            return r
        return self.opaque_method(t, name, args, kw, None)

    def opaque_method(self, t, name, args, kw, f):
        impls = [f] if f is not None else self.prog.implementers(name)
        impls = [g for g in impls if g.params() and not g.is_static()]
        ts = None
        if impls:
            sigs = {tuple(g.params()[1:]) for g in impls}
            if len(sigs) > 1:
                # pick the implementations compatible with this call
                n = len(args) + len(kw)
                ok = [g for g in impls if len(g.params()) - 1 >= n and set(kw) <= set(g.params())]
                impls = ok or impls
            g = impls[0]
            if len({tuple(x.params()[1:]) for x in impls}) == 1 and not g.node.args.vararg:
                try:
                    b = self.bindargs(g.node, [t] + args, kw, Frame(g.mod))
                    ts = tuple(self.reify(b[p]) for p in self.allparams(g.node)[1:] if p not in self.erase)
                except RaiseSig:
                    ts = None
        if ts is None:
            ts = self.argterm(args, kw)
        return mkmcall(t, name, ts)

    def container_method(self, c, name, args, kw):
        A = [self.reify(a) if not (isinstance(a, tuple) and len(a) == 2 and a[0] == '*') else a for a in args] \
            if not any(isinstance(a, (Closure, FuncV, BoundM, MethV, ExtV)) for a in args) else args
        if c.kind == 'list':
            if name == 'append':
                self.wcell(c, ir.cat(c.val, seq(A[0])))
                return NONE
            if name == 'extend':
                self.wcell(c, ir.cat(c.val, self.tosseq(args[0])))
                return NONE
            if name == 'insert' and A[0] is ZERO:
                self.wcell(c, ir.cat(seq(A[1]), c.val))
                return NONE
            if name == 'pop':
                i = A[0] if A else num(-1)
                if c.val.op == 'seq' and ir.isnum(i):
                    xs = list(c.val.args[0])
                    v = xs.pop(i.args[0])
                    self.wcell(c, seq(*xs))
                    return v
                if i is ZERO:
                    v = ir.item(c.val, ZERO)
                    self.wcell(c, ir.slice_(c.val, ONE, NONE))
                    return v
                raise Unsupported('pop')
            if name == 'copy':
                return Cell('list', c.val)
            if name == 'sort':
                self.wcell(c, raw('sorted', c.val, *[self.reify(v) for v in kw.values()]))
                return NONE
            if name in ('index', 'count'):
                return raw('call', 'list.' + name, (c.val, A[0]))
            if name in ('remove', 'reverse', 'clear', 'insert'):
                raise Unsupported('list.%s' % name)
            return None
        if c.kind == 'set':
            if name == 'add':
                self.wcell(c, ir.cat(c.val, seq(A[0])))
                return NONE
            if name == 'update':
                self.wcell(c, ir.cat(c.val, *[self.tosseq(a) for a in args]))
                return NONE
            if name in ('remove', 'discard'):
                self.wcell(c, ir.lift1(setdiff(raw('setof', c.val), raw('setof', seq(A[0]))), lambda u: u.args[0] if u.op == 'setof' else raw('elems', u)))
                return NONE
            return self.term_method(raw('setof', c.val), name, args, kw)
        if c.kind == 'dict':
            if name == 'items':
                return self.force(ir.ditems(c.val))
            if name == 'keys':
                return self.force(ir.keys(c.val))
            if name == 'values':
                return ir.mapseq(self.force(ir.ditems(c.val)), lambda p: ir.item(p, ONE))
            if name == 'copy':
                return Cell('dict', c.val)
            if name == 'get':
                d = A[1] if len(A) > 1 else NONE
                return self.dict_get(c.val, A[0], d)
            if name == 'setdefault':
                d = A[1] if len(A) > 1 else NONE
                if not self.decide(ir.has(c.val, A[0])):
                    self.wcell(c, ir.put(c.val, A[0], d))
                return SubRef(c, A[0])
            if name == 'update':
                for a in A:
                    self.wcell(c, self.dict_update(c.val, a))
                for k, v in kw.items():
                    self.wcell(c, ir.put(c.val, raw('str', k), self.reify(v)))
                return NONE
            if name == 'pop':
                raise Unsupported('dict.pop')
        return None

    def dict_get(self, d, k, default):
        h = ir.has(d, k)
        q = self.lookup_quiet(h)
        if q is True:
            return ir.dget(d, k)
        if q is False:
            return default
        if self.decide(h):
            return ir.dget(d, k)
        return default

    def subref_method(self, r, name, args, kw):
        if name in ('append', 'extend', 'add', 'update', 'insert', 'remove', 'pop', 'setdefault'):
            cur = self.reify(r)
            if name in ('append', 'add'):
                self.store_item(r.cell, r.key, ir.cat(cur, seq(self.reify(args[0]))))
                return NONE
            if name == 'extend':
                self.store_item(r.cell, r.key, ir.cat(cur, self.tosseq(args[0])))
                return NONE
            raise Unsupported('nested %s' % name)
        return None

    def term_method(self, t, name, args, kw):
        if name in ('append', 'extend', 'insert', 'sort', 'reverse', 'popitem', 'setdefault', 'clear', 'discard'):
            raise Unsupported('mutation of a value the analysis does not own')
        if name == 'items' and not args:
            return self.force(ir.ditems(t))
        if name == 'keys' and not args:
            return self.force(ir.keys(t))
        if name == 'values' and not args:
            return ir.mapseq(self.force(ir.ditems(t)), lambda p: ir.item(p, ONE))
        if name == 'get' and args and not (t.op == 'attr' and t.args[1] == 'environ') and t.op not in ('ext',):
            d = self.reify(args[1]) if len(args) > 1 else NONE
            return self.dict_get(t, self.reify(args[0]), d)
        if name == 'copy' and not args:
            return t
        if name in ('union', 'intersection', 'difference', 'issubset', 'isdisjoint', 'issuperset'):
            ts = []
            for a in args:
                if isinstance(a, tuple) and len(a) == 2 and a[0] == '*':
                    ts.append(raw('star', a[1]))
                else:
                    ts.append(self.asset(a))
            if name in ('union', 'intersection') and len(ts) == 1 and ts[0].op == 'star' and ts[0].args[0].op == 'slice' \
                    and t is ir.item(ts[0].args[0].args[0], ZERO) and ts[0].args[0].args[1] is ONE and ts[0].args[0].args[2] is NONE:
                return raw('set' + name, ts[0].args[0].args[0])
            if name in ('union', 'intersection') and len(ts) == 1 and ts[0].op == 'star' and ts[0].args[0].op == 'bigcat':
                L, fn = self.idxform(ts[0].args[0]) or (None, None)
                if L is not None:
                    # first element peeled off with [1:]
                    k = ir.fresh('k')
                    full = ir.bigcat(ir.add(L, ONE), k, seq(fn(ir.sub(k, ONE))))
                    if ir.item(full, ZERO) is t:
                        return raw('set' + name, full)
            if name == 'intersection' and len(ts) == 1 and ts[0].op != 'star':
                return ir.setinter(t, ts[0])
            if name == 'isdisjoint' and len(ts) == 1:
                return ir.bnot(ir.truth(ir.setinter(t, ts[0])))
            if name in ('union', 'intersection'):
                return mkcall('set.' + name, *sorted([t] + ts))
            return mkcall('set.' + name, t, *ts)
        if name == 'join' and args:
            return mkcall('join', t, self.tosseq(args[0]))
        return None

    def asset(self, a):
        """argument of a set method: dict -> its key set"""
        t = self.reify(a)
        if isinstance(a, Cell) and a.kind == 'dict':
            return raw('setof', self.force(ir.keys(t)))
        if t.op == 'keys':
            return t.args[0]
        return t

    # ---- builtins and library functions ---------------------------------------------
    def call_ext(self, n, args, kw):
        h = getattr(self, 'x_' + n.replace('.', '_'), None)
        if h is not None:
            r = h(args, kw)
            if r is not None:
                return r
        return mkcallt(n, self.argterm(args, kw))

    def x_len(self, a, kw):
        if isinstance(a[0], Cell) and a[0].kind == 'set' or (isinstance(a[0], Term) and a[0].op == 'setof'):
            t = self.reify(a[0])
            return raw('len', t)
        if isinstance(a[0], Cell) and a[0].kind == 'dict':
            t = a[0].val
            if t.op == 'dictof':
                return ir.length(t.args[0])
            return raw('len', t)
        t = self.reify(a[0])
        if t.op == 'dictof':
            return ir.length(t.args[0])
        return ir.length(self.iterate(t) if t.op in ('seq', 'cat', 'bigcat', 'keys') or ir.isdict(t) else t)

    def x_list(self, a, kw):
        if not a:
            return Cell('list', EMPTYSEQ)
        return Cell('list', self.tosseq(a[0]))

    def x_tuple(self, a, kw):
        if not a:
            return EMPTYSEQ
        if isinstance(a[0], tuple):
            return a[0]
        return self.tosseq(a[0])

    def x_set(self, a, kw):
        return Cell('set', self.tosseq(a[0]) if a else EMPTYSEQ)

    def x_frozenset(self, a, kw):
        if not a:
            return raw('setof', EMPTYSEQ)
        S = self.tosseq(a[0])
        if S.op in ('call', 'mcall', 'setunion', 'setintersection', 'attr', 'sym') and not self.is_seqval(S):
            return S
        return raw('setof', S)

    def x_dict(self, a, kw):
        d = ir.dictof(EMPTYSEQ)
        if a:
            t = self.reify(a[0])
            if isinstance(a[0], Cell) and a[0].kind == 'dict' or t.op in ('dictof', 'put', 'attr', 'sym', 'item', 'dget', 'call', 'group'):
                d = t
                if t.op == 'call' and t.args[0] == 'ChainMap':
                    d = t
            else:
                d = ir.dictof(self.tosseq(a[0]))
        for k, v in kw.items():
            d = ir.put(d, raw('str', k), self.reify(v))
        return Cell('dict', d)

    x_OrderedDict = x_dict

    def x_defaultdict(self, a, kw):
        raise Unsupported('defaultdict')

    def x_bool(self, a, kw):
        return ir._expand(self.truth(a[0]))

    def x_float(self, a, kw):
        t = self.reify(a[0])
        if t.op == 'str':
            s = t.args[0].lower()
            if s in ('inf', '+inf', 'infinity'):
                return INF
            if s == '-inf':
                return NINF
        return t

    def x_str(self, a, kw):
        return mkcall('str', self.reify(a[0])) if a else raw('str', '')

    def x_repr(self, a, kw):
        return mkcall('repr', self.reify(a[0]))

    def x_isinstance(self, a, kw):
        t = self.force(self.reify(a[0]))
        cs = a[1]
        if isinstance(cs, Cell):
            cs = tuple(cs.val.args[0])
        if isinstance(cs, Term) and cs.op == 'seq':
            cs = tuple(cs.args[0])
        cs = cs if isinstance(cs, tuple) else (cs,)
        r = FALSE
        for c in cs:
            r = ir.bor(r, self.isinst(a[0], t, c))
        return r

    def isinst(self, v, t, c):
        if isinstance(c, ClsV):
            nm = self.prog.clsname(c.c)
        elif isinstance(c, ExtV):
            nm = EXT_CANON.get(c.name, c.name).split('.')[-1]
        elif isinstance(c, Term) and c.op == 'type':
            k, _ = self.classes_of(c.args[0])
            if t.op == 'new' and isinstance(t.args[0], str) and k is not None and not self.prog.cls(t.args[0]).issub(k):
                return FALSE
            if t is c.args[0]:
                return TRUE
            return raw('isinst', t, raw('type', c.args[0]))
        elif isinstance(c, Term) and c.op in ('classref',):
            nm = c.args[0]
        elif isinstance(c, Term) and c.op == 'ext':
            nm = c.args[0].split('.')[-1]
        else:
            raise Unsupported('isinstance class')
        if isinstance(v, Cell) and v.kind != 'obj':
            if self.prog.hascls(nm):
                return FALSE
            return ir.boolc(nm == v.kind)
        if isinstance(v, tuple):
            return ir.boolc(nm == 'tuple')
        if isinstance(v, Cell):
            return ir.boolc(self.can_be(v.cls.name, nm))
        if t.op in ('seq', 'cat', 'bigcat') and nm in ('list', 'tuple'):
            raise Unsupported('list or tuple?')
        r = self.th_isinst(t, nm)
        if r is not None:
            return ir.boolc(r)
        return raw('isinst', t, nm)

    def x_type(self, a, kw):
        v = a[0]
        if isinstance(v, Cell) and v.kind == 'obj':
            return ClsV(v.cls)
        t = self.reify(v)
        if t.op == 'new' and isinstance(t.args[0], str):
            return ClsV(self.prog.cls(t.args[0]))
        return raw('type', t)

    def x_getattr(self, a, kw):
        n = self.reify(a[1])
        if n.op == 'str' and len(a) == 2:
            return self.getattr(a[0], n.args[0])
        return None

    def x_next(self, a, kw):
        S = self.force(self.tosseq(a[0]))
        if len(a) > 1:
            if not self.decide(ir.lenge(S, 1)):
                return a[1]
        if S is EMPTYSEQ:
            raise RaiseSig('StopIteration')
        return self.first(S)

    def first(self, S):
        if S.op == 'bigcat' and ir.purelen(S) is None:
            # first index passing the filter
            (h,), L, body = S.args
            k = ir.fresh('k')
            body = ir.subst(body, {ir.bv(h): k})
            if all(u.op == 'seq' and len(u.args[0]) <= 1 for u in ir.leaves(body)):
                nonempty = ir.map_leaves(body, lambda u: ir.boolc(len(u.args[0]) == 1))
                w = raw('firstidx', ir.binder('lam', (k,), ir._expand(nonempty)), L)
                vals = [u.args[0][0] for u in ir.leaves(body) if u.args[0]]
                if len(vals) == 1:
                    return ir.subst(vals[0], {k: w})
            return ir.item(S, ZERO)
        return ir.item(S, ZERO)

    def x_iter(self, a, kw):
        return self.tosseq(a[0])

    def x_filter(self, a, kw):
        S = self.tosseq(a[1])
        f = a[0]

        def each(x):
            c = self.truth(self.call(f, [x], {})) if not (isinstance(f, Term) and f is NONE) else self.truth(x)
            return seq(x) if self.decide(c) else EMPTYSEQ
        return self.flatmap(S, each)

    def x_filterfalse(self, a, kw):
        S, f = self.tosseq(a[1]), a[0]
        return self.flatmap(S, lambda x: EMPTYSEQ if self.decide(self.truth(self.call(f, [x], {}))) else seq(x))

    def x_map(self, a, kw):
        f = a[0]
        Ss = [self.tosseq(x) for x in a[1:]]
        if len(Ss) == 1:
            return self.flatmap(Ss[0], lambda x: seq(self.reify(self.call(f, [x], {}))))
        Z = self.zip(Ss)
        return self.flatmap(Z, lambda x: seq(self.reify(self.call(f, [ir.item(x, num(i)) for i in range(len(Ss))], {}))))

    def x_starmap(self, a, kw):
        S = self.tosseq(a[1])
        n = self.arity(a[0])
        return self.flatmap(S, lambda x: seq(self.reify(self.call(a[0], [ir.item(x, num(i)) for i in range(n)], {}))))

    def x_enumerate(self, a, kw):
        S = self.force(self.tosseq(a[0]))
        st = self.reify(a[1]) if len(a) > 1 else self.reify(kw['start']) if 'start' in kw else ZERO
        if S.op == 'seq':
            return seq(*[seq(ir.add(num(i), st), x) for i, x in enumerate(S.args[0])])
        f = self.idxform(S)
        k = ir.fresh('k')
        if f is None:
            return ir.bigcat(ir.length(S), k, seq(seq(ir.add(k, st), ir.item(S, k))))
        return ir.bigcat(f[0], k, seq(seq(ir.add(k, st), f[1](k))))

    def x_zip(self, a, kw):
        if len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 2 and a[0][0] == '*':
            return raw('unzip', a[0][1])
        return self.zip([self.tosseq(x) for x in a])

    def x_range(self, a, kw):
        ts = [self.reify(x) for x in a]
        k = ir.fresh('k')
        if len(ts) == 1:
            return ir.bigcat(ts[0], k, seq(k))
        if len(ts) == 2:
            return ir.bigcat(ir.sub(ts[1], ts[0]), k, seq(ir.add(ts[0], k)))
        raise Unsupported('range step')

    def x_sorted(self, a, kw):
        S = self.tosseq(a[0])
        ks = [raw('kw', k, self.reify(v)) for k, v in sorted(kw.items())]
        if S.op == 'sorted' and not ks and len(S.args) == 1:
            return Cell('list', S)
        return Cell('list', raw('sorted', S, *ks))

    def x_reversed(self, a, kw):
        S = self.tosseq(a[0])
        if S.op == 'seq':
            return seq(*reversed(S.args[0]))
        return raw('reversed', S)

    def x_sum(self, a, kw):
        S = self.force(self.tosseq(a[0]))
        init = self.reify(a[1]) if len(a) > 1 else self.reify(kw['start']) if 'start' in kw else ZERO
        if isinstance(init, Term) and init.op == 'seq':
            r = self.flatten(S)
            return ir.cat(init, r)
        return ir.add(init, ir.big('+', self.denum(S)))

    def denum(self, S):
        """booleans summed as numbers: [True for ..] -> ones"""
        return S

    def flatten(self, S):
        return self.flatmap(S, lambda x: self.tosseq(x))

    def x_chain(self, a, kw):
        parts = []
        for x in a:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == '*':
                parts.append(self.flatten(x[1]))
            else:
                parts.append(self.tosseq(x))
        return ir.cat(*parts)

    def x_chain_from_iterable(self, a, kw):
        return self.flatten(self.tosseq(a[0]))

    x_itertools_chain_from_iterable = x_chain_from_iterable

    def any_formula(self, S):
        S = self.force(S)
        if S.op == 'seq':
            r = FALSE
            for x in S.args[0]:
                r = ir.bor(r, ir.truth(x))
            return r
        if S.op == 'cat':
            r = FALSE
            for p in S.args[0]:
                r = ir.bor(r, self.any_formula(p))
            return r
        if S.op == 'bigcat':
            (h,), L, body = S.args
            k = ir.fresh('k')
            body = ir.subst(body, {ir.bv(h): k})
            return ir.exists(L, k, ir.map_leaves(body, lambda u: self.any_leaf(u)))
        k = ir.fresh('k')
        return ir.exists(ir.length(S), k, ir.truth(ir.item(S, k)))

    def any_leaf(self, u):
        if u.op == 'ite':
            return ir.lift1(u, self.any_leaf)
        r = FALSE
        if u.op == 'seq':
            for x in u.args[0]:
                r = ir.bor(r, ir.truth(x))
            return r
        if u.op == 'cat':
            for p in u.args[0]:
                r = ir.bor(r, self.any_leaf(p))
            return r
        if u.op == 'bigcat':
            (h,), L, body = u.args
            k = ir.fresh('k')
            body = ir.subst(body, {ir.bv(h): k})
            return ir.exists(L, k, ir.map_leaves(body, self.any_leaf))
        k = ir.fresh('k')
        return ir.exists(ir.length(u), k, ir.truth(ir.item(u, k)))

    def x_any(self, a, kw):
        return self.any_formula(self.tosseq(a[0]))

    def x_all(self, a, kw):
        S = self.tosseq(a[0])
        return ir.bnot(self.any_formula(ir.mapseq(S, lambda x: ir._expand(ir.bnot(ir.truth(x))))))

    def minmax(self, op, a, kw):
        if kw:
            return None
        S = self.tosseq(a[0]) if len(a) == 1 else seq(*[self.reify(x) for x in a])
        S = self.force(S)
        if S.op == 'seq' and all(x.op in ('num', 'inf') for x in S.args[0]):
            f = min if op == 'min' else max
            return f(S.args[0], key=ir.fval)
        if S.op == 'seq':
            S = seq(*sorted(set(S.args[0])))
            if len(S.args[0]) == 1:
                return S.args[0][0]
        return raw('big', op, S)

    def x_min(self, a, kw):
        return self.minmax('min', a, kw)

    def x_max(self, a, kw):
        return self.minmax('max', a, kw)

    def x_abs(self, a, kw):
        return mkcall('abs', self.reify(a[0]))

    def x_int(self, a, kw):
        t = self.reify(a[0])
        if t.op == 'num' and t.args[1] == 1:
            return t
        if t.op == 'call' and t.args[0] in ('int', 'floor'):
            return t
        return mkcall('int', t)

    def x_isinf(self, a, kw):
        t = self.reify(a[0])
        return ir.bor(ir.isninf(t), ir.ispinf(t))

    def x_isneginf(self, a, kw):
        return ir.isninf(self.reify(a[0]))

    def x_isposinf(self, a, kw):
        return ir.ispinf(self.reify(a[0]))

    def x_log(self, a, kw):
        if len(a) == 1:
            return mklog(self.reify(a[0]))
        return None

    def x_exp(self, a, kw):
        return mkexp(self.reify(a[0]))

    def x_op_and(self, a, kw):
        return self.binop(ast.BitAnd(), *a)

    def x_op_or(self, a, kw):
        return self.binop(ast.BitOr(), *a)

    def x_op_add(self, a, kw):
        return self.binop(ast.Add(), *a)

    def x_op_mul(self, a, kw):
        return self.binop(ast.Mult(), *a)

    def x_partial(self, a, kw):
        f, pre = a[0], a[1:]
        return HostFn(lambda args, k2: self.call(f, list(pre) + list(args), {**kw, **k2}), 'partial')

    def x_itemgetter(self, a, kw):
        i = a[0]
        return HostFn(lambda args, k2: self.getitem(args[0], i), 'itemgetter')

    def x_attrgetter(self, a, kw):
        n = self.reify(a[0]).args[0]
        return HostFn(lambda args, k2: self.getattr(args[0], n), 'attrgetter')

    def x_copycopy(self, a, kw):
        v = a[0]
        if isinstance(v, Cell) and v.kind != 'obj':
            return Cell(v.kind, v.val)
        return self.reify(v)

    def x_sympyAdd(self, a, kw):
        ts = [x[1] if isinstance(x, tuple) and x[0] == '*' else seq(self.reify(x)) for x in a]
        return ir.big('+', ir.cat(*ts))

    def x_callable(self, a, kw):
        if isinstance(a[0], (Closure, FuncV, BoundM, ClsV, ExtV)):
            return TRUE
        return raw('isinst', self.reify(a[0]), 'Callable')

    def x_reduce(self, a, kw):
        f, S = a[0], self.force(self.tosseq(a[1]))
        have = len(a) > 2
        init = a[2] if have else None
        return self.fold(f, S, init, have)

    def fold(self, f, S, init, have):
        if S.op == 'seq':
            xs = list(S.args[0])
            if not have:
                if not xs:
                    raise RaiseSig('TypeError')
                init, xs = xs[0], xs[1:]
            acc = init
            for x in xs:
                acc = self.call(f, [acc, x], {})
            return acc
        if S.op == 'cat':
            parts = S.args[0]
            acc = self.fold(f, parts[0], init, have)
            for p in parts[1:]:
                acc = self.fold(f, p, acc, True)
            return acc
        # generic element
        k, acc = ir.fresh('k'), ir.fresh('acc')
        if S.op == 'bigcat':
            (h,), L, body = S.args
            body = ir.subst(body, {ir.bv(h): k})
        else:
            L, body = ir.length(S), seq(ir.item(S, k))
        if any(u.op != 'seq' for u in ir.leaves(body)):
            L, body = ir.length(S), seq(ir.item(S, k))

        def step():
            leaf = self.force(body)
            a = acc
            for x in leaf.args[0]:
                a = self.reify(self.call(f, [a, x], {}))
            return a
        N = self.local_value({k.args[0], acc.args[0]}, step)
        init_t = self.reify(init) if have else None
        return self.fold_norm(L, k, acc, N, init_t, S)

    def fold_norm(self, L, k, acc, N, init, S):
        an = acc.args[0]
        ls = ir.leaves(N)
        okc = an not in self.cond_free(N)
        for o in '&|':
            if okc and all(u is acc or (u.op == 'ac' and u.args[0] == o and acc in u.args[1]
                                        and all(an not in x.free for x in u.args[1] if x is not acc)) for u in ls):
                suf = ir.map_leaves(N, lambda u: EMPTYSEQ if u is acc else seq(ir.ac(o, *[x for x in u.args[1] if x is not acc])))
                B = ir.big(o, ir.bigcat(L, k, suf))
                return B if init is None else ir.ac(o, init, B)
        if okc and all(an not in ir.sub(u, acc).free for u in ls):
            suf = ir.map_leaves(N, lambda u: EMPTYSEQ if u is acc else seq(ir.sub(u, acc)))
            B = ir.big('+', ir.bigcat(L, k, suf))
            return B if init is None else ir.add(init, B)
        # componentwise pair fold
        if okc and all(u.op == 'seq' for u in ls) and len({len(u.args[0]) for u in ls}) == 1:
            n = len(next(iter(ls)).args[0])
            comps = []
            for i in range(n):
                ai = ir.fresh('acc')
                Ni = ir.map_leaves(N, lambda u: u.args[0][i])
                Ni = ir.subst(Ni, {ir.item(acc, num(i)): ai})
                if an in Ni.free:
                    comps = None
                    break
                ini = None if init is None else ir.item(init, num(i))
                try:
                    comps.append(self.fold_norm(L, k, ai, Ni, ini, ir.mapseq(S, lambda x: ir.item(x, num(i)))))
                except Unsupported:
                    comps = None
                    break
            if comps is not None:
                if init is None:
                    comps = [c for c in comps]
                return tuple(comps)
        # sequence accumulation
        if okc and init is not None and all(u is acc or (u.op == 'cat' and u.args[0][0] is acc) for u in ls):
            suf = ir.map_leaves(N, lambda u: EMPTYSEQ if u is acc else ir.cat(*u.args[0][1:]))
            return ir.cat(init, ir.bigcat(L, k, suf))
        return raw('foldv', ir.binder('fold', (k, acc), N, L, init if init is not None else raw('noinit')))


SEQ_ATTRS = {'children', 'weights', 'indexes', 'subexprs', 'events', 'coeffs', 'commands', 'branches', 'outcomes',
             'distributions', 'domains'}


def mkgroup(op, init, S):
    if op == 'last' and init.op == 'dictof':
        return ir.dictof(ir.cat(init.args[0], S))
    if init.op == 'group' and init.args[0] == op:
        return raw('group', op, init.args[1], ir.cat(init.args[2], S))
    return raw('group', op, init, S)


def lput(s, i, v):
    return raw('lput', s, i, v)


def setdiff(a, b):
    def elems(x):
        return x.args[0] if x.op == 'setof' else x
    A = elems(a)
    if A.op in ('seq', 'bigcat', 'cat') or True:
        B = elems(b)
        if A.op in ('bigcat', 'cat', 'seq'):
            def f(s):
                if s.op == 'seq':
                    return ir.cat(*[ir.ite(ir.inseq(x, B), EMPTYSEQ, seq(x)) for x in s.args[0]]) if len(s.args[0]) == 1 else raw('setminus', s, B)
                return raw('setminus', s, B)
            if A.op == 'bigcat':
                k = ir.fresh('k')
                body = ir.subst(A.args[2], {ir.bv(A.args[0][0]): k})
                if all(u.op == 'seq' and len(u.args[0]) <= 1 for u in ir.leaves(body)):
                    return raw('setof', ir.bigcat(A.args[1], k, ir.map_leaves(body, lambda u: f(u) if u.args[0] else u)))
    return raw('setdiff', a, b)


def strcat(*xs):
    out = []
    for x in xs:
        if x.op == 'strcat':
            out.extend(x.args[0])
        elif x.op == 'str' and x.args[0] == '':
            continue
        else:
            out.append(x)
    m = []
    for x in out:
        if m and m[-1].op == 'str' and x.op == 'str':
            m[-1] = raw('str', m[-1].args[0] + x.args[0])
        else:
            m.append(x)
    if not m:
        return raw('str', '')
    if len(m) == 1:
        return m[0]
    return raw('strcat', tuple(m))


def mklog(x):
    if x.op == 'ite':
        return ir.lift1(x, mklog)
    if x is ONE:
        return ZERO
    if x.op == 'call' and x.args[0] == 'exp':
        return x.args[1][0]
    p = ir._lin_parts(x)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) > 1 or (m and (c != 1 or m[0][1] != 1)):
            if c > 0:
                r = raw('call', 'log', (num(c),)) if c != 1 else ZERO
                for t, e in m:
                    r = ir.add(r, ir.mul(num(e), mklog(t)))
                return r
    return raw('call', 'log', (x,))


def mkexp(x):
    if x.op == 'ite':
        return ir.lift1(x, mkexp)
    if x is ZERO:
        return ONE
    if x is NINF:
        return ZERO
    if x.op == 'call' and x.args[0] == 'log' and len(x.args[1]) == 1:
        return x.args[1][0]
    return raw('call', 'exp', (x,))


def mkcall(n, *ts):
    return mkcallt(n, ts)


def mkcallt(n, ts):
    if n == 'exp' and len(ts) == 1:
        return mkexp(ts[0])
    if n == 'log' and len(ts) == 1:
        return mklog(ts[0])
    if n == 'str' and len(ts) == 1 and ts[0].op in ('str', 'strcat', 'fmt', 'fmt1'):
        return ts[0]
    if n == 'str' and len(ts) == 1 and ts[0].op == 'num' and ts[0].args[1] == 1:
        return raw('str', str(ts[0].args[0]))
    if n == 'logsumexp' and len(ts) >= 1 and ts[0].op == 'seq' and len(ts[0].args[0]) == 1 and len(ts) == 1:
        return ts[0].args[0][0]
    if n == 'logsumexp' and ts and ts[0].op in ('shuffled', 'sorted', 'reversed'):
        return mkcallt(n, (ts[0].args[0],) + tuple(ts[1:]))
    if n == 'logsumexp' and ts and ts[0].op == 'seq':
        return raw('call', n, (seq(*sorted(ts[0].args[0])),) + tuple(ts[1:]))
    return raw('call', n, tuple(ts))


def mkmcall(t, name, ts):
    return raw('mcall', t, name, tuple(ts))


ir.MK['call'] = lambda n, ts: mkcallt(n, ts)
ir.MK['strcat'] = lambda xs: strcat(*xs)
ir.MK['group'] = mkgroup


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return t
