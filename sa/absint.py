"""Abstract interpreter over order types.

The source is interpreted over abstract numbers: a Tok stands for any number at a given place of a linear order, and the
only facts the interpretation may use about it are its order relative to the other tokens, to zero and to the two infinities
(everything else - arithmetic, conversion, formatting - leaves the case undecided).  An operation whose control flow depends only
on those facts behaves alike on all concrete inputs of the same order type, so deciding the finitely many order types of a bounded
number of endpoints decides all inputs of that shape.  Set iteration order is abstract too: the case fixes one of several orders.
"""
import ast
import builtins
import collections
import collections.abc
import copy
import functools
import io
import itertools
import math
import re
import types
import warnings


class Unsupported(Exception):
    pass


HOST = (TypeError, AttributeError, ValueError, LookupError, ArithmeticError, NotImplementedError)   # the model itself fails on an unexpected value: undecided


class Raised(Exception):
    """an exception of the interpreted program"""
    def __init__(self, exc, where=None):
        self.exc, self.where = exc, where


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


INF = float('inf')


def _rk(x):
    if isinstance(x, Tok):
        return x.rank
    if isinstance(x, float) and x in (INF, -INF):
        return x
    if isinstance(x, (int, float)) and not isinstance(x, bool) and x == 0 and Tok.zero is not None:
        return Tok.zero
    if isinstance(x, (int, float)):
        raise Unsupported('comparison of an abstract number with a constant')
    return None


def rank_of(x):
    """the rank of a token or of the constant zero; other values as they are"""
    if isinstance(x, Tok):
        return x.rank
    if isinstance(x, (int, float)) and not isinstance(x, bool) and x == 0 and Tok.zero is not None:
        return Tok.zero
    return x


class Tok:
    """an abstract finite number"""
    visible = ()
    zero = None                 # rank of the number 0 in this case, if decided
    __slots__ = ('rank',)

    def __init__(self, rank):
        self.rank = rank

    def __eq__(self, o):
        r = _rk(o)
        return False if r is None else self.rank == r

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        r = _rk(o)
        return NotImplemented if r is None else self.rank < r

    def __le__(self, o):
        r = _rk(o)
        return NotImplemented if r is None else self.rank <= r

    def __gt__(self, o):
        r = _rk(o)
        return NotImplemented if r is None else self.rank > r

    def __ge__(self, o):
        r = _rk(o)
        return NotImplemented if r is None else self.rank >= r

    def __hash__(self):
        return hash(0) if self.rank == Tok.zero else hash(('tok', self.rank))       # equal numbers hash alike

    def __bool__(self):
        if Tok.zero is None:
            raise Unsupported('truth value of an abstract number')
        return self.rank != Tok.zero

    mirror = None               # if set, the order type is symmetric and x -> -x maps rank r to mirror - r

    def __neg__(self):
        if Tok.mirror is None:
            raise Unsupported('arithmetic on an abstract number')
        return Tok(Tok.mirror - self.rank)

    def __abs__(self):
        return self if self.rank >= (Tok.mirror or 0) / 2 else -self

    def _no(self, o=None):
        raise Unsupported('arithmetic on an abstract number')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __float__ = __int__ = __round__ = __floordiv__ = __mod__ = __pow__ = __rpow__ = _no

    def __repr__(self):
        return 'x%s' % (self.rank,)


class STok(str):
    """an abstract string"""


class Opaque:
    """a value the interpretation knows nothing about"""
    def __init__(self, name):
        self.__dict__['name'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Opaque('%s.%s' % (self.name, n))

    def _no(self, *a, **k):
        raise Unsupported('use of %s' % self.__dict__['name'])
    __call__ = __bool__ = __eq__ = __lt__ = __iter__ = __len__ = __contains__ = __add__ = __getitem__ = _no
    __hash__ = None


class Abstract:
    """base of abstract values of other domains: their own methods say what is known; anything else is unsupported"""
    visible = ()
    number = False


class Sym:
    """an uninterpreted value: equal to values built alike, with no other known properties"""
    __slots__ = ('head', 'args', 'alt')

    def __init__(self, head, *args, alt=''):
        self.head, self.args, self.alt = head, args, alt

    def __eq__(self, o):
        if isinstance(o, Sym):
            return self.head == o.head and self.args == o.args
        if isinstance(o, (int, float, Tok)) and not isinstance(o, bool):
            raise Unsupported('comparison of %r' % (self,))
        return False

    def __hash__(self):
        return hash((self.head, self.args))

    def __bool__(self):
        raise Unsupported('truth value of %r' % (self,))
    __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = lambda self, o=None: Sym.__bool__(self)

    def __call__(self, *a, **k):
        return Sym('call', self, a, tuple(sorted(k.items())))

    def __getitem__(self, k):
        return Sym('[]', self, k)

    def __iter__(self):
        raise Unsupported('iteration over %r' % (self,))

    def __repr__(self):
        return '%s%s%s' % (self.head, '(%s)' % ', '.join(map(repr, self.args)) if self.args else '', self.alt)


def _symop(n, swap=False):
    return lambda s, o: Sym(n, o, s) if swap else Sym(n, s, o)


for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('pow', '**'), ('mod', '%'), ('floordiv', '//')):
    setattr(Sym, '__%s__' % _n, _symop(_o))
    setattr(Sym, '__r%s__' % _n, _symop(_o, True))
Sym.__neg__ = lambda s: Sym('-', s)
Sym.__abs__ = lambda s: Sym('abs', s)


CALLABLE = collections.abc.Callable


class Cls:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, n):
        for c in self.mro():
            if n in c.ns:
                return c.ns[n]
        return None

    def __repr__(self):
        return '<class %s>' % self.name


def _dunder(name, default):
    def f(self, *a):
        m = self.cls.find(name)
        if m is None:
            return default(self, *a)
        return self.interp.call(m, (self,) + a, {})
    return f


def _ni(self, *a):
    return NotImplemented


def _no(msg):
    def f(self, *a):
        raise Raised(TypeError(msg))
    return f


class Obj:
    __slots__ = ('cls', 'attrs', 'interp')

    def __init__(self, interp, cls):
        self.cls, self.attrs, self.interp = cls, {}, interp
    __eq__ = _dunder('__eq__', lambda s, o: s is o)

    def __ne__(self, o):
        m = self.cls.find('__ne__')
        if m is not None:
            return self.interp.call(m, (self, o), {})
        r = self == o
        return r if r is NotImplemented else not self.interp.truth(r)
    __lt__ = _dunder('__lt__', _ni)
    __le__ = _dunder('__le__', _ni)
    __gt__ = _dunder('__gt__', _ni)
    __ge__ = _dunder('__ge__', _ni)
    __and__ = _dunder('__and__', _ni)
    __or__ = _dunder('__or__', _ni)
    __rand__ = _dunder('__rand__', _ni)
    __ror__ = _dunder('__ror__', _ni)
    __sub__ = _dunder('__sub__', _ni)
    __xor__ = _dunder('__xor__', _ni)
    __rsub__ = _dunder('__rsub__', _ni)
    __rxor__ = _dunder('__rxor__', _ni)
    __add__ = _dunder('__add__', _ni)
    __radd__ = _dunder('__radd__', _ni)
    __mul__ = _dunder('__mul__', _ni)
    __rmul__ = _dunder('__rmul__', _ni)
    __truediv__ = _dunder('__truediv__', _ni)
    __rtruediv__ = _dunder('__rtruediv__', _ni)
    __pow__ = _dunder('__pow__', _ni)
    __rpow__ = _dunder('__rpow__', _ni)
    __lshift__ = _dunder('__lshift__', _ni)
    __rlshift__ = _dunder('__rlshift__', _ni)
    __rshift__ = _dunder('__rshift__', _ni)
    __rrshift__ = _dunder('__rrshift__', _ni)
    __mod__ = _dunder('__mod__', _ni)
    __neg__ = _dunder('__neg__', _no('bad operand'))
    __abs__ = _dunder('__abs__', _no('bad operand'))
    __invert__ = _dunder('__invert__', _no('bad operand'))
    __len__ = _dunder('__len__', _no('no len'))
    __hash__ = None

    def __hash__(self):
        m = self.cls.find('__hash__')
        if m is None:
            if self.cls.find('__eq__') is not None:
                raise Raised(TypeError('unhashable'))
            return id(self) >> 4
        h = self.interp.call(m, (self,), {})
        if not isinstance(h, int):
            raise Raised(TypeError('__hash__ should return an integer'))
        return h

    def __contains__(self, x):
        m = self.cls.find('__contains__')
        if m is None:
            return any(x is y or x == y for y in self)
        return self.interp.truth(self.interp.call(m, (self, x), {}))

    def __iter__(self):
        m = self.cls.find('__iter__')
        if m is None:
            raise Raised(TypeError('not iterable'))
        return iter(self.interp.call(m, (self,), {}))

    def __bool__(self):
        m = self.cls.find('__bool__')
        if m is not None:
            return self.interp.truth(self.interp.call(m, (self,), {}))
        m = self.cls.find('__len__')
        if m is not None:
            return self.interp.call(m, (self,), {}) != 0
        return True

    def __call__(self, *a, **k):
        m = self.cls.find('__call__')
        if m is None:
            raise Raised(TypeError('not callable'))
        return self.interp.call(m, (self,) + a, k)

    def _text(self, *names):
        for n in names:
            m = self.cls.find(n)
            if m is not None:
                t = self.interp.call(m, (self,), {})
                if not isinstance(t, str):
                    raise Raised(TypeError('%s returned non-string' % n))
                return t
        return '<%s object>' % self.cls.name

    def __str__(self):
        return self._text('__str__', '__repr__') if self.interp.reprs else repr(self)

    def __repr__(self):
        if self.interp.reprs:
            return self._text('__repr__')
        return '%s(%s)' % (self.cls.name, ', '.join('%s=%r' % kv for kv in sorted(self.attrs.items()) if not isinstance(kv[1], Obj)))


class Fn:
    def __init__(self, node, frame, name, defaults, kwdefaults, body, isgen):
        self.node, self.frame, self.name = node, frame, name
        self.defaults, self.kwdefaults, self.body, self.isgen = defaults, kwdefaults, body, isgen
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.covkey = ('fn', id(node))

    def __repr__(self):
        return '<function %s>' % self.name


class Native:
    """a method of a modelled library class: f(interp, self, *args)"""
    def __init__(self, f):
        self.f = f


class CtxMaker:
    """contextlib.contextmanager(f)"""
    def __init__(self, interp, fn):
        self.interp, self.fn = interp, fn

    def __call__(self, *a, **k):
        return Ctx(self.interp, self.fn, a, k)


class Ctx:
    def __init__(self, interp, fn, a, k):
        self.interp, self.fn, self.a, self.k = interp, fn, a, k


class Static:
    def __init__(self, fn):
        self.fn = fn


class ClsMethod:
    def __init__(self, fn):
        self.fn = fn


class Prop:
    def __init__(self, fn):
        self.fn = fn


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Frame:
    __slots__ = ('vars', 'parent', 'mod', 'cls', 'globals_')

    def __init__(self, parent, mod, vars=None, cls=None):
        self.vars = {} if vars is None else vars
        self.parent, self.mod, self.cls = parent, mod, cls
        self.globals_ = None


EXC = {n: getattr(builtins, n) for n in ('Exception', 'AssertionError', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError',
       'NotImplementedError', 'StopIteration', 'ZeroDivisionError', 'OverflowError', 'RuntimeError', 'LookupError', 'ArithmeticError',
       'TimeoutError', 'BaseException')}


class Interp:
    def __init__(self, P, fuel=20000):
        self.P = P                      # sa.prog.Program
        self.free = False               # library calls uninterpreted (rather than unsupported); undecided assertions hold
        self.mods = {}
        self.order = 0
        self.fuel0 = fuel
        self.collide = False
        self.fuel = fuel
        self.touched = set()
        self.pending = False
        self.cov = set()                # (id of a condition, outcome) and ('fn', id of a function) met since last taken
        self._onyield = None
        self.skipped = []
        self.reprs = False              # str and repr of objects are those of the source
        self.builtins = self._builtins()
        self._code = {}
        self._keep = []

    # ------------------------------------------------------------ host values
    def listing(self, x):
        """iterate x; the order of sets is abstract"""
        if isinstance(x, (set, frozenset)):
            l = sorted(x, key=repr)
            if self.order == 0:
                return l
            if self.order == 1:
                return l[::-1]
            k = self.order % max(1, len(l))
            return l[k:] + l[:k]
        if isinstance(x, Sym):
            raise Unsupported('iteration over %r' % (x,))
        if isinstance(x, (Tok, Opaque, int, float)) or x is None:
            raise Raised(TypeError('not iterable'))
        return x

    def truth(self, v):
        if isinstance(v, (Fn, Cls, Bound)):
            return True
        try:
            return bool(v)
        except (Raised, Unsupported):
            raise
        except Exception as e:
            raise Raised(e)

    def isinf(self, x):
        if isinstance(x, Tok):
            return False
        if isinstance(x, Abstract):
            return x.isinf()
        if isinstance(x, (int, float)):
            return math.isinf(x)
        if isinstance(x, str) or x is None:
            raise Raised(TypeError('must be real number'))
        raise Unsupported('isinf')

    def isinstance_(self, v, k):
        if isinstance(k, tuple):
            return any([self.isinstance_(v, x) for x in k])
        k = self.kinds.get(id(k), k)
        if isinstance(k, Cls):
            return isinstance(v, Obj) and k in v.cls.mro()
        if k is CALLABLE:
            if isinstance(v, Obj):
                return v.cls.find('__call__') is not None
            if isinstance(v, (Sym, Opaque)):
                raise Unsupported('callable')
            return isinstance(v, (Fn, Cls, Bound)) or callable(v)
        if isinstance(v, Cls):
            return k is type
        if isinstance(k, type) and issubclass(k, Abstract):
            return isinstance(v, k)
        if isinstance(k, Opaque):
            if isinstance(v, (Obj, str, tuple, list, frozenset, set, dict, bool)) or v is None:
                return False
            raise Unsupported('isinstance of %s' % k.__dict__['name'])
        if isinstance(v, Abstract):
            if k in (float, object):
                return v.number
            if isinstance(k, type):
                return False
            raise Unsupported('type of an abstract value')
        if isinstance(v, (Tok, Sym)):
            if isinstance(k, type) and issubclass(k, SySet):
                return False
            if k in (str, list, tuple, dict, set, frozenset, bool, type(None)):
                return False
            if self.free and isinstance(v, Tok) and k in (int, float):
                return k is float
            raise Unsupported('type of an abstract number')
        if isinstance(k, type):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return isinstance(v, k)
        raise Unsupported('isinstance')

    def _builtins(self):
        it = self.listing

        def red(f, xs, *init):
            return functools.reduce(lambda a, b: self.call(f, (a, b), {}), it(xs), *init)

        def key(kw):
            if kw.get('key') is not None:
                f = kw['key']
                kw = dict(kw, key=lambda x: self.call(f, (x,), {}))
            return kw

        def getattr_(o, n, *d):
            try:
                return self.attr(o, n)
            except Raised as e:
                if d and isinstance(e.exc, AttributeError):
                    return d[0]
                raise

        def hasattr_(o, n):
            try:
                self.attr(o, n)
                return True
            except Raised as e:
                if isinstance(e.exc, AttributeError):
                    return False
                raise

        def type_(x):
            return x.cls if isinstance(x, Obj) else type(x)

        def float_(x=0.0):
            if isinstance(x, (Tok, Sym, Abstract)):
                if self.free:
                    return x
                raise Unsupported('float of an abstract number')
            return float(x)

        def int_(x=0, *a):
            if isinstance(x, (Tok, Sym, Abstract)):
                raise Unsupported('int of an abstract number')
            return int(x, *a)

        def hash_(x):
            h = hash(x if not isinstance(x, (Fn, Cls, Bound)) else id(x) >> 4)
            return 1 if self.collide else h          # collide: any two hashes may agree

        def map_(f, *xs):
            return [self.call(f, t, {}) for t in zip(*[it(x) for x in xs])]

        def iter_(x):
            return iter(it(x))

        def callable_(f):
            return isinstance(f, (Fn, Cls, Bound)) or callable(f)
        def fset(make):
            return lambda x=(): make(it(x))
        def getmembers(m, pred=None):
            if not isinstance(m, Frame):
                raise Unsupported('getmembers')
            return sorted([(k, v) for k, v in m.vars.items() if pred is None or self.truth(self.call(pred, (v,), {}))], key=lambda t: t[0])

        def unparse(node):
            n = copy.deepcopy(node)
            for x in (n if isinstance(n, list) else [n]):
                ast.fix_missing_locations(x)
            return '\n' + ast.unparse(n) + '\n'

        def nv_visit(interp, o, node):
            m = o.cls.find('visit_' + type(node).__name__)
            if m is None and isinstance(node, ast.Constant):
                old = 'Str' if isinstance(node.value, str) else 'NameConstant' if node.value is None or isinstance(node.value, bool) else 'Num'
                m = o.cls.find('visit_' + old)
            if m is None:
                m = o.cls.find('generic_visit')
            return interp.call(interp.bind(m, o, o.cls), (node,), {})

        def nv_generic(interp, o, node):
            for f, v in ast.iter_fields(node):
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, ast.AST):
                        interp.call(interp.attr(o, 'visit'), (x,), {})

        def nt_generic(interp, o, node):
            for f, v in ast.iter_fields(node):
                if isinstance(v, list):
                    new = []
                    for x in v:
                        if isinstance(x, ast.AST):
                            x = interp.call(interp.attr(o, 'visit'), (x,), {})
                            if x is None:
                                continue
                            if not isinstance(x, ast.AST):
                                new.extend(x)
                                continue
                        new.append(x)
                    v[:] = new
                elif isinstance(v, ast.AST):
                    x = interp.call(interp.attr(o, 'visit'), (v,), {})
                    if x is None:
                        delattr(node, f)
                    else:
                        setattr(node, f, x)
            return node
        b = dict(EXC)
        b.update({
            'isinstance': self.isinstance_, 'len': len, 'any': lambda x: any(self.truth(v) for v in it(x)),
            'all': lambda x: all(self.truth(v) for v in it(x)),
            'sorted': lambda x, **kw: sorted(it(x), **key(kw)), 'min': lambda *a, **kw: min(*[it(x) for x in a] if len(a) == 1 else a, **key(kw)),
            'max': lambda *a, **kw: max(*[it(x) for x in a] if len(a) == 1 else a, **key(kw)),
            'zip': lambda *a: zip(*[it(x) for x in a]), 'enumerate': lambda x, s=0: enumerate(it(x), s), 'range': range,
            'list': fset(list), 'tuple': fset(tuple), 'set': fset(set), 'frozenset': fset(frozenset), 'dict': lambda *a, **k: dict(*a, **k),
            'reversed': lambda x: reversed(list(it(x))), 'map': map_, 'iter': iter_, 'next': next,
            'filter': lambda f, x: [v for v in it(x) if self.truth(v if f is None else self.call(f, (v,), {}))],
            'bool': self.truth, 'hash': hash_, 'float': float_, 'int': int_, 'str': str, 'repr': repr, 'sum': lambda x, *s: sum(it(x), *s),
            'getattr': getattr_, 'hasattr': hasattr_, 'type': type_, 'abs': abs, 'callable': callable_, 'id': lambda x: id(x),
            'object': Cls('object', [], {}, None), 'print': lambda *a, **k: None, 'NotImplemented': NotImplemented,
            'staticmethod': Static, 'classmethod': ClsMethod, 'property': Prop, '__name__': 'm',
        })
        self.kinds = {id(b[n]): t for n, t in (('float', float), ('int', int), ('str', str), ('list', list), ('tuple', tuple), ('dict', dict),
                      ('set', set), ('frozenset', frozenset), ('bool', bool), ('type', type), ('enumerate', enumerate), ('range', range))}
        self.types = {'float': float, 'int': int, 'str': str, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'frozenset': frozenset, 'bool': bool}
        self.ext = {
            ('functools', 'reduce'): red, ('math', 'isinf'): self.isinf, ('math', 'inf'): INF,
            ('itertools', 'chain'): Chain(self), ('itertools', 'combinations'): lambda x, n: list(itertools.combinations(list(it(x)), n)),
            ('itertools', 'product'): lambda *a: list(itertools.product(*[list(it(x)) for x in a])),
            ('itertools', 'accumulate'): lambda x, f=None: list(itertools.accumulate(it(x), (lambda a, c: self.call(f, (a, c), {})) if f else None)),
            ('operator', 'or_'): lambda a, b: a | b, ('operator', 'and_'): lambda a, b: a & b,
            ('operator', 'attrgetter'): lambda n: (lambda o: self.attr(o, n)),
            ('operator', 'itemgetter'): lambda n: (lambda o: o[n]),
            ('numpy', 'isinf'): self.isinf, ('numpy', 'inf'): INF,
            ('collections', 'OrderedDict'): lambda *a: dict(*a),
            ('collections', 'namedtuple'): collections.namedtuple,
            ('types', 'SimpleNamespace'): types.SimpleNamespace,
            ('io', 'StringIO'): io.StringIO,
            ('os', 'linesep'): '\n',
            ('collections', 'Callable'): CALLABLE, ('collections.abc', 'Callable'): CALLABLE,
            ('copy', 'deepcopy'): copy.deepcopy, ('copy', 'copy'): copy.copy,
            ('re', 'sub'): re.sub, ('re', 'MULTILINE'): re.MULTILINE, ('re', 'M'): re.MULTILINE,
            ('re', 'compile'): re.compile, ('re', 'match'): re.match, ('re', 'search'): re.search,
            ('contextlib', 'contextmanager'): lambda f: CtxMaker(self, f),
            ('inspect', 'getmembers'): getmembers,
            ('sympy', 'Interval'): SyInterval, ('sympy', 'FiniteSet'): SyFinite, ('sympy', 'Union'): SyUnion,
            ('sympy', 'EmptySet'): SY_EMPTY, ('sympy.S', 'EmptySet'): SY_EMPTY, ('sympy.S', 'Infinity'): INF, ('sympy.S', 'NegativeInfinity'): -INF,
            ('sympy', 'oo'): INF,
        }
        visit, generic, transform = Native(nv_visit), Native(nv_generic), Native(nt_generic)
        nv = Cls('NodeVisitor', [], {'visit': visit, 'generic_visit': generic}, 'ast')
        self.ext[('ast', 'NodeVisitor')] = nv
        self.ext[('ast', 'NodeTransformer')] = Cls('NodeTransformer', [nv], {'generic_visit': transform}, 'ast')
        self.ext[('astunparse', 'unparse')] = self.ext[('ast', 'unparse')] = unparse
        for n in dir(ast) + ['Str', 'Num', 'NameConstant', 'Bytes']:
            if hasattr_quiet(ast, n) and ('ast', n) not in self.ext and not n.startswith('_'):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.ext[('ast', n)] = getattr(ast, n)
        return b

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = self.P.modules.get(name)
        if m is None:
            raise Unsupported('module ' + name)
        fr = Frame(None, name)
        self.mods[name] = fr
        for st in m.tree.body:
            try:
                self.stmt(st)(fr)
            except (Unsupported, Raised) as e:
                if isinstance(e, Raised):
                    e = 'raises %r' % (e.exc,)
                self.skipped.append('%s:%d: %s' % (name, st.lineno, e))
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        fr.vars[n.id] = Opaque(n.id)
        return fr

    def get(self, dotted):
        mod, name = dotted.split('.', 1)
        v = self.module(mod).vars[name.split('.')[0]]
        for p in name.split('.')[1:]:
            v = self.attr(v, p)
        return v

    def importfrom(self, fr, node):
        for al in node.names:
            nm = al.asname or al.name
            if al.name == '*':
                base = (node.module or '').split('.')[-1]
                if (node.level or (node.module or '').startswith('sppl')) and base in self.P.modules:
                    sub = self.module(base).vars
                    names = sub.get('__all__') or [n for n in sub if not n.startswith('_')]
                    fr.vars.update({n: sub[n] for n in names})
                continue
            if node.level or (node.module or '').startswith('sppl'):
                base = (node.module or '').split('.')[-1]
                base = base if base != 'sppl' else ''
                if base == '' and al.name in self.P.modules:
                    fr.vars[nm] = self.module(al.name)
                elif base in self.P.modules:
                    sub = self.module(base)
                    if al.name in sub.vars:
                        fr.vars[nm] = sub.vars[al.name]
                    else:
                        fr.vars[nm] = Opaque(al.name)
                elif al.name in self.P.modules:
                    fr.vars[nm] = self.module(al.name)
                else:
                    fr.vars[nm] = Opaque(al.name)
            else:
                fr.vars[nm] = self.ext.get((node.module, al.name)) if (node.module, al.name) in self.ext else Opaque('%s.%s' % (node.module, al.name))

    # ------------------------------------------------------------ calls and attributes
    def attr(self, o, n):
        if isinstance(o, Obj):
            m = o.cls.find(n)
            if isinstance(m, Prop):
                return self.call(m.fn, (o,), {})
            if n in o.attrs:
                return o.attrs[n]
            if n == '__class__':
                return o.cls
            if m is None:
                raise Raised(AttributeError(n))
            return self.bind(m, o, o.cls)
        if isinstance(o, Cls):
            m = o.find(n)
            if m is None:
                if n == '__name__':
                    return o.name
                raise Raised(AttributeError(n))
            return m.fn if isinstance(m, Static) else Bound(m.fn, o) if isinstance(m, ClsMethod) else m
        if isinstance(o, Super):
            mro = o.obj.cls.mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if n in c.ns:
                    return self.bind(c.ns[n], o.obj, o.obj.cls)
            if n == '__init__':
                return lambda *a, **k: None
            raise Raised(AttributeError(n))
        if isinstance(o, Opaque):
            return getattr(o, n)
        if isinstance(o, Sym):
            return Sym('.' + n, o)
        if isinstance(o, Abstract):
            if n in o.visible:
                return getattr(o, n)
            raise Unsupported('attribute %s of %s' % (n, type(o).__name__))
        if isinstance(o, ModRef):
            k = (o.name, n)
            if o.name == 'os' and n == 'path':
                return Opaque('os.path')
            if k in self.ext:
                return self.ext[k]
            if any(m == '%s.%s' % k for m, _ in self.ext):
                return ModRef('%s.%s' % k)
            return Opaque('%s.%s' % k)
        if isinstance(o, Frame):
            if n in o.vars:
                return o.vars[n]
            raise Unsupported('attribute of module')
        if isinstance(o, Chain):
            return o.from_iterable if n == 'from_iterable' else Opaque(n)
        if isinstance(o, (list, dict, set, frozenset, tuple, str)):
            if isinstance(o, tuple) and n in getattr(o, '_fields', ()):
                return getattr(o, n)
            if n in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'update', 'isdisjoint', 'extend') or hasattr(o, n):
                return HostMethod(self, o, n)
        if isinstance(o, Fn) and n == '__name__':
            return o.name
        if isinstance(o, Tok) and n in o.visible:
            return getattr(o, n)
        if isinstance(o, (Tok, Fn, Bound)):
            raise Unsupported('attribute %s' % n)
        if isinstance(o, type) and hasattr(o, n):
            return getattr(o, n)
        if isinstance(o, (ast.AST, io.StringIO, types.SimpleNamespace, SySet)):
            if hasattr(o, n):
                return getattr(o, n)
            if isinstance(o, ast.AST) and n in o._fields:       # optional field left out
                return None
            raise Raised(AttributeError(n))
        if isinstance(o, BaseException) and hasattr(o, n):
            return getattr(o, n)
        raise Raised(AttributeError(n))

    def bind(self, m, o, cls):
        if isinstance(m, Native):
            return functools.partial(m.f, self, o)
        if isinstance(m, CtxMaker):
            return lambda *a, **k: Ctx(self, m.fn, (o,) + a, k)
        if isinstance(m, Fn):
            return Bound(m, o)
        if isinstance(m, Static):
            return m.fn
        if isinstance(m, ClsMethod):
            return Bound(m.fn, cls)
        return m

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, (f.self_,) + tuple(args), kw)
        if isinstance(f, Fn):
            self.fuel -= 1
            if self.fuel < 0:
                raise Unsupported('too many calls')
            fr = Frame(f.frame, f.frame.mod)
            v = fr.vars
            params = f.params
            if len(args) > len(params) and not f.vararg:
                raise Raised(TypeError('too many arguments to ' + f.name))
            n = min(len(args), len(params))
            for i in range(n):
                v[params[i]] = args[i]
            if f.vararg:
                v[f.vararg] = tuple(args[n:])
            extra = {}
            for k, x in kw.items():
                if k in params or k in f.kwonly:
                    if k in v:
                        raise Raised(TypeError('multiple values'))
                    v[k] = x
                elif f.kwarg:
                    extra[k] = x
                else:
                    raise Raised(TypeError('unexpected keyword'))
            if f.kwarg:
                v[f.kwarg] = extra
            nd = len(f.defaults)
            for i, p in enumerate(params):
                if p not in v:
                    j = i - (len(params) - nd)
                    if j < 0:
                        raise Raised(TypeError('missing argument'))
                    v[p] = f.defaults[j]
            for p in f.kwonly:
                if p not in v:
                    if p not in f.kwdefaults:
                        raise Raised(TypeError('missing argument'))
                    v[p] = f.kwdefaults[p]
            self.touched.add(f.name)
            self.cov.add(f.covkey)
            if f.isgen:
                if self._onyield is not None:
                    v['$onyield'] = self._onyield
                    self._onyield = None
                    try:
                        f.body(fr)
                    except _Return:
                        pass
                    return None
                v['$yield'] = []
                try:
                    f.body(fr)
                except _Return:
                    pass
                return iter(v['$yield'])
            try:
                return f.body(fr)
            except _Return as r:
                return r.v
        if isinstance(f, Cls):
            if f.mod is None:
                return Obj(self, f)
            o = Obj(self, f)
            init = f.find('__init__')
            if init is not None:
                self.call(init, (o,) + tuple(args), kw)
            return o
        if isinstance(f, Static):
            return self.call(f.fn, args, kw)
        if isinstance(f, Opaque):
            if self.free:
                return Sym(f.__dict__['name'], *args, *sorted(kw.items()))
            f()
        try:
            return f(*args, **kw)
        except (Raised, Unsupported, _Return, RecursionError):
            raise
        except Exception as e:
            raise Raised(e)

    # ------------------------------------------------------------ compile
    def lookup(self, n):
        def f(fr):
            x = fr
            while x is not None:
                if n in x.vars and x.cls is None or (x is fr and n in x.vars):
                    return x.vars[n]
                x = x.parent
            g = self.mods.get(fr.mod)
            if g is not None and n in g.vars:
                return g.vars[n]
            if n in self.builtins:
                return self.builtins[n]
            raise Raised(NameError(n))
        return f

    def ex(self, e):
        k = id(e)
        c = self._code.get(k)
        if c is None:
            m = getattr(self, 'e_' + type(e).__name__, None)
            if m is None:
                def c(fr, t=type(e).__name__):
                    raise Unsupported('expression ' + t)
            else:
                c = m(e)
            self._code[k] = c
        return c

    def ex_uncached(self, e):
        self._keep.append(e)            # ids of nodes are keys of the code cache
        return self.ex(e)

    def e_Constant(self, e):
        v = e.value
        return lambda fr: v

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        o, n = self.ex(e.value), e.attr
        return lambda fr: self.attr(o(fr), n)

    def e_Tuple(self, e):
        p = self.seq(e.elts)
        return lambda fr: tuple(p(fr))

    def e_List(self, e):
        p = self.seq(e.elts)
        return lambda fr: list(p(fr))

    def e_Set(self, e):
        p = self.seq(e.elts)
        return lambda fr: self.hosted(set, p(fr))

    def e_Dict(self, e):
        ks = [self.ex(k) if k is not None else None for k in e.keys]
        vs = [self.ex(v) for v in e.values]

        def f(fr):
            d = {}
            for k, v in zip(ks, vs):
                if k is None:
                    d.update(v(fr))
                else:
                    d[k(fr)] = v(fr)
            return d
        return f

    def hosted(self, f, *a):
        try:
            return f(*a)
        except (Raised, Unsupported, RecursionError):
            raise
        except Exception as x:
            raise Raised(x)

    def seq(self, elts):
        fs = [(isinstance(x, ast.Starred), self.ex(x.value if isinstance(x, ast.Starred) else x)) for x in elts]
        if not any(s for s, _ in fs):
            fs = [f for _, f in fs]
            return lambda fr: [f(fr) for f in fs]

        def g(fr):
            out = []
            for s, f in fs:
                v = f(fr)
                if s:
                    out.extend(self.listing(v))
                else:
                    out.append(v)
            return out
        return g

    def test(self, e):
        """a condition, its atomic parts recorded with their outcomes"""
        if isinstance(e, ast.BoolOp):
            vs = [self.test(v) for v in e.values]
            q = any if isinstance(e.op, ast.Or) else all
            return lambda fr: q(v(fr) for v in vs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.test(e.operand)
            return lambda fr: not v(fr)
        f, t, n = self.ex(e), (id(e), True), (id(e), False)

        def g(fr):
            r = self.truth(f(fr))
            self.cov.add(t if r else n)
            return r
        return g

    def e_IfExp(self, e):
        t, a, b = self.test(e.test), self.ex(e.body), self.ex(e.orelse)
        return lambda fr: a(fr) if t(fr) else b(fr)

    def e_BoolOp(self, e):
        vs = [(self.ex(v), (id(v), True), (id(v), False)) for v in e.values]
        stop = isinstance(e.op, ast.Or)
        last = vs[-1][0]

        def f(fr):
            for v, yes, no in vs:
                r = v(fr)
                if v is last:
                    if r is True or r is False:
                        self.cov.add(yes if r else no)
                    return r
                b = self.truth(r)
                self.cov.add(yes if b else no)
                if b is stop:
                    return r
        return f

    def e_UnaryOp(self, e):
        v = self.ex(e.operand)
        t = type(e.op)
        if t is ast.Not:
            return lambda fr: not self.truth(v(fr))
        op = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[t]
        return lambda fr: self.hosted(op, v(fr))

    BIN = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
           ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b, ast.Mod: lambda a, b: a % b,
           ast.Pow: lambda a, b: a ** b, ast.FloorDiv: lambda a, b: a // b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}

    def e_BinOp(self, e):
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            text, r = e.left.value, self.ex(e.right)

            def fmt(fr):
                v = r(fr)
                return self.hosted(lambda: text % v) if self.reprs or all(isinstance(x, (str, int)) for x in (v if isinstance(v, tuple) else (v,))) else '<text>'
            return fmt
        op = self.BIN.get(type(e.op))
        if op is None:
            return lambda fr: self._unsup('operator')
        a, b = self.ex(e.left), self.ex(e.right)
        return lambda fr: self.hosted(op, a(fr), b(fr))

    def _unsup(self, m):
        raise Unsupported(m)

    def contains(self, x, c):
        if isinstance(c, (str,)) and not isinstance(x, str):
            raise Raised(TypeError('in string'))
        return x in c

    def e_Compare(self, e):
        CMP = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
               ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b, ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b,
               ast.In: self.contains, ast.NotIn: lambda a, b: not self.contains(a, b)}
        marks = {True: (id(e), True), False: (id(e), False)}
        l = self.ex(e.left)
        rs = [(CMP[type(o)], self.ex(c)) for o, c in zip(e.ops, e.comparators)]
        if len(rs) == 1:
            op, r = rs[0]

            def f1(fr):
                v = self.hosted(op, l(fr), r(fr))
                if v is True or v is False:
                    self.cov.add(marks[v])
                return v
            return f1

        def f(fr):
            a = l(fr)
            for op, r in rs:
                b = r(fr)
                v = self.hosted(op, a, b)
                if not self.truth(v):
                    self.cov.add(marks[False])
                    return v
                a = b
            self.cov.add(marks[True])
            return v
        return f

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            def f(fr):
                x = fr
                while x.parent is not None and '$cls' not in x.parent.vars:
                    x = x.parent
                cls = x.parent.vars['$cls']
                return Super(next(iter(x.vars.values())), cls)
            return f
        fn = self.ex(e.func)
        args = self.seq(e.args)
        if isinstance(e.func, ast.Name) and e.func.id == 'eval':
            def ev(fr):
                a = list(args(fr))
                if not isinstance(a[0], str):
                    raise Unsupported('eval')
                try:
                    t = ast.parse(a[0].strip(), mode='eval')
                except SyntaxError as x:
                    raise Raised(x, getattr(e, 'lineno', None))
                inner = Frame(fr, fr.mod)
                for d in reversed(a[1:]):
                    inner = Frame(None, fr.mod) if d is a[1] else inner
                    inner.vars.update(d or {})
                return self.ex_uncached(t.body)(inner)
            return ev
        kws = [(k.arg, self.ex(k.value)) for k in e.keywords]

        def f(fr):
            g = fn(fr)
            a = args(fr)
            kw = {}
            for k, v in kws:
                if k is None:
                    kw.update(v(fr))
                else:
                    kw[k] = v(fr)
            return self.call(g, tuple(a), kw)
        return f

    def e_Subscript(self, e):
        o = self.ex(e.value)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo, hi, st = [self.ex(x) if x is not None else (lambda fr: None) for x in (s.lower, s.upper, s.step)]
            return lambda fr: self.hosted(lambda a, b: a[b], o(fr), slice(lo(fr), hi(fr), st(fr)))
        i = self.ex(e.slice)
        return lambda fr: self.hosted(lambda a, b: a[b], o(fr), i(fr))

    def e_JoinedStr(self, e):
        def spec(n, fr):
            return self.ex(n)(fr)
        ps = [(v.value, None) if isinstance(v, ast.Constant) else (None, (self.ex(v.value), v.conversion, v.format_spec)) for v in e.values]

        def f(fr):
            out = []
            for t, g in ps:
                if g is not None:
                    t = g[0](fr)
                    if self.reprs:
                        t = repr(t) if g[1] == 114 else str(t) if g[1] == 115 else t
                        out.append(self.hosted(format, t, '' if g[2] is None else spec(g[2], fr)))
                        continue
                    if not isinstance(t, (str, int)) or g[2] is not None:
                        return '<text>'
                    t = repr(t) if g[1] == 114 else str(t)
                out.append(t)
            return ''.join(out)
        return f

    def e_Lambda(self, e):
        return self.mkfn(e, '<lambda>', self.ex(e.body))

    def e_NamedExpr(self, e):
        v, t = self.ex(e.value), e.target.id

        def f(fr):
            x = v(fr)
            fr.vars[t] = x
            return x
        return f

    def mkfn(self, node, name, body):
        ds = [self.ex(d) for d in node.args.defaults]
        kd = [(a.arg, self.ex(d)) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None]
        isgen = False
        if isinstance(node, ast.FunctionDef):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    isgen = True
                if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    stack.extend(ast.iter_child_nodes(n))
        return lambda fr: Fn(node, fr, name, [d(fr) for d in ds], {k: d(fr) for k, d in kd}, body, isgen)

    def e_Yield(self, e):
        v = self.ex(e.value) if e.value else (lambda fr: None)

        def f(fr):
            x = fr
            while '$yield' not in x.vars and '$onyield' not in x.vars:
                x = x.parent
            if '$onyield' in x.vars:
                x.vars['$onyield'](v(fr))
            else:
                x.vars['$yield'].append(v(fr))
        return f

    def e_YieldFrom(self, e):
        v = self.ex(e.value)

        def f(fr):
            x = fr
            while '$yield' not in x.vars:
                x = x.parent
            x.vars['$yield'].extend(self.listing(v(fr)))
        return f

    # comprehensions
    def comp(self, e, emit):
        gens = [(self.target(g.target), self.ex(g.iter), [self.test(c) for c in g.ifs]) for g in e.generators]

        def go(fr, i):
            if i == len(gens):
                yield emit(fr)
                return
            tgt, it, ifs = gens[i]
            for v in self.hosted(self.listing, it(fr)):
                tgt(fr, v)
                if all(c(fr) for c in ifs):
                    yield from go(fr, i + 1)
        return lambda fr: go(Frame(fr, fr.mod), 0)

    def e_ListComp(self, e):
        c = self.comp(e, self.ex(e.elt))
        return lambda fr: list(c(fr))

    def e_SetComp(self, e):
        c = self.comp(e, self.ex(e.elt))
        return lambda fr: set(c(fr))

    def e_GeneratorExp(self, e):
        return self.comp(e, self.ex(e.elt))

    def e_DictComp(self, e):
        k, v = self.ex(e.key), self.ex(e.value)
        c = self.comp(e, lambda fr: (k(fr), v(fr)))
        return lambda fr: dict(c(fr))

    # ------------------------------------------------------------ statements
    def target(self, t):
        if isinstance(t, ast.Name):
            n = t.id

            def f(fr, v):
                if fr.globals_ and n in fr.globals_:
                    self.mods[fr.mod].vars[n] = v
                else:
                    fr.vars[n] = v
            return f
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                pre = [self.target(x) for x in t.elts[:i]]
                mid = self.target(t.elts[i].value)
                post = [self.target(x) for x in t.elts[i + 1:]]

                def f(fr, v):
                    v = list(self.listing(v))
                    if len(v) < len(pre) + len(post):
                        raise Raised(ValueError('unpack'))
                    for g, x in zip(pre, v):
                        g(fr, x)
                    mid(fr, v[len(pre):len(v) - len(post)])
                    for g, x in zip(post, v[len(v) - len(post):]):
                        g(fr, x)
                return f
            ts = [self.target(x) for x in t.elts]

            def f(fr, v):
                v = list(self.listing(v))
                if len(v) != len(ts):
                    raise Raised(ValueError('unpack'))
                for g, x in zip(ts, v):
                    g(fr, x)
            return f
        if isinstance(t, ast.Attribute):
            o, n = self.ex(t.value), t.attr

            def f(fr, v):
                x = o(fr)
                if isinstance(x, (ast.AST, types.SimpleNamespace)):
                    setattr(x, n, v)
                    return
                if isinstance(x, Cls):
                    x.ns[n] = v
                    return
                if not isinstance(x, Obj):
                    raise Unsupported('attribute store')
                x.attrs[n] = v
            return f
        if isinstance(t, ast.Subscript):
            o, i = self.ex(t.value), self.ex(t.slice) if not isinstance(t.slice, ast.Slice) else None
            if i is None:
                return lambda fr, v: self._unsup('slice store')

            def f(fr, v):
                self.hosted(lambda a, b, c: a.__setitem__(b, c), o(fr), i(fr), v)
            return f
        return lambda fr, v: self._unsup('target')

    def block(self, body):
        ss = [self.stmt(s) for s in body]
        if len(ss) == 1:
            return ss[0]

        def f(fr):
            for s in ss:
                s(fr)
        return f

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            def f(fr, t=type(s).__name__):
                raise Unsupported('statement ' + t)
            return f
        return m(s)

    def s_Pass(self, s):
        return lambda fr: None
    s_Nonlocal = s_Pass

    def s_Global(self, s):
        def f(fr):
            fr.globals_ = set(fr.globals_ or ()) | set(s.names)
        return f

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return lambda fr: None
        return self.ex(s.value)

    def s_Return(self, s):
        v = self.ex(s.value) if s.value is not None else (lambda fr: None)

        def f(fr):
            raise _Return(v(fr))
        return f

    def s_Assign(self, s):
        v = self.ex(s.value)
        ts = [self.target(t) for t in s.targets]

        def f(fr):
            x = v(fr)
            for t in ts:
                t(fr, x)
        return f

    def s_AnnAssign(self, s):
        if s.value is None:
            return lambda fr: None
        v, t = self.ex(s.value), self.target(s.target)
        return lambda fr: t(fr, v(fr))

    INPLACE = {ast.Add: lambda a, b: a.__iadd__(b) if isinstance(a, list) else a + b}

    def s_AugAssign(self, s):
        op = self.BIN.get(type(s.op))
        if isinstance(s.op, ast.Add):
            def op(a, b):
                if isinstance(a, list):
                    a.extend(self.listing(b))
                    return a
                return a + b
        elif isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            o0 = self.BIN[type(s.op)]

            def op(a, b):
                if isinstance(a, set):
                    r = o0(a, b)
                    a.clear()
                    a.update(r)
                    return a
                return o0(a, b)
        t = self.target(s.target)
        g = ast.copy_location(type(s.target)(**{k: getattr(s.target, k) for k in s.target._fields}), s.target)
        if hasattr(g, 'ctx'):
            g.ctx = ast.Load()
        self._keep = getattr(self, '_keep', [])
        self._keep.append(g)
        cur, v = self.ex(g), self.ex(s.value)
        return lambda fr: t(fr, self.hosted(op, cur(fr), v(fr)))

    def s_If(self, s):
        t, a, b = self.test(s.test), self.block(s.body), self.block(s.orelse) if s.orelse else None

        def f(fr):
            if t(fr):
                a(fr)
            elif b is not None:
                b(fr)
        return f

    def s_For(self, s):
        it, t, body = self.ex(s.iter), self.target(s.target), self.block(s.body)
        orelse = self.block(s.orelse) if s.orelse else None

        def f(fr):
            for v in self.hosted(self.listing, it(fr)):
                t(fr, v)
                try:
                    body(fr)
                except _Break:
                    break
                except _Continue:
                    continue
            else:
                if orelse:
                    orelse(fr)
        return f

    def s_While(self, s):
        c, body = self.test(s.test), self.block(s.body)
        orelse = self.block(s.orelse) if s.orelse else None

        def f(fr):
            n = 0
            while c(fr):
                n += 1
                if n > 2000:
                    raise Unsupported('loop bound')
                try:
                    body(fr)
                except _Break:
                    return
                except _Continue:
                    continue
            if orelse:
                orelse(fr)
        return f

    def s_With(self, s):
        items = [(self.ex(i.context_expr), self.target(i.optional_vars) if i.optional_vars is not None else None) for i in s.items]
        body = self.block(s.body)

        def go(fr, k):
            if k == len(items):
                body(fr)
                return
            c, t = items[k]
            m = c(fr)
            if isinstance(m, Ctx):
                n = []

                def on(v):
                    if n:
                        raise Raised(RuntimeError("generator didn't stop"))
                    n.append(1)
                    if t:
                        t(fr, v)
                    try:
                        go(fr, k + 1)
                    except (_Return, _Break, _Continue) as j:
                        n.append(j)
                self._onyield = on
                self.call(m.fn, m.a, m.k)
                if len(n) > 1:
                    raise n[1]
                if not n:
                    raise Raised(RuntimeError("generator didn't yield"))
            elif isinstance(m, Obj):
                v = self.call(self.attr(m, '__enter__'), (), {})
                if t:
                    t(fr, v)
                try:
                    go(fr, k + 1)
                except Raised as r:
                    if not self.truth(self.call(self.attr(m, '__exit__'), (type(r.exc), r.exc, None), {})):
                        raise
                    return
                except (_Return, _Break, _Continue):
                    self.call(self.attr(m, '__exit__'), (None, None, None), {})
                    raise
                self.call(self.attr(m, '__exit__'), (None, None, None), {})
            else:
                raise Unsupported('with')
        return lambda fr: go(fr, 0)

    def s_Break(self, s):
        def f(fr):
            raise _Break()
        return f

    def s_Continue(self, s):
        def f(fr):
            raise _Continue()
        return f

    def s_Assert(self, s):
        t = self.ex(s.test)

        def f(fr):
            try:
                ok = self.truth(t(fr))
            except Unsupported:
                if not self.free:
                    raise
                ok = True
            if not ok:
                raise Raised(AssertionError(), s.lineno)
        return f

    def s_Raise(self, s):
        v = self.ex(s.exc) if s.exc is not None else None

        def f(fr):
            if v is None:
                raise Unsupported('bare raise')
            x = v(fr)
            if isinstance(x, type) and issubclass(x, BaseException):
                x = x()
            if isinstance(x, BaseException):
                raise Raised(x, s.lineno)
            raise Unsupported('raise')
        return f

    def s_Try(self, s):
        body = self.block(s.body)
        hs = [(self.ex(h.type) if h.type is not None else None, h.name, self.block(h.body), (id(h), True)) for h in s.handlers]
        orelse = self.block(s.orelse) if s.orelse else None
        final = self.block(s.finalbody) if s.finalbody else None

        def f(fr):
            try:
                try:
                    body(fr)
                except Raised as r:
                    for t, n, h, mark in hs:
                        ty = t(fr) if t is not None else BaseException
                        if isinstance(ty, Opaque) or isinstance(ty, tuple) and any(isinstance(x, Opaque) for x in ty):
                            raise Unsupported('except clause')
                        if isinstance(r.exc, ty):
                            self.cov.add(mark)
                            if n:
                                fr.vars[n] = r.exc
                            h(fr)
                            break
                    else:
                        raise
                else:
                    if orelse:
                        orelse(fr)
            finally:
                if final:
                    final(fr)
        return f

    def s_Delete(self, s):
        ts = []
        for t in s.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                ts.append((self.ex(t.value), self.ex(t.slice)))
            else:
                return lambda fr: self._unsup('del')

        def f(fr):
            for o, i in ts:
                self.hosted(lambda a, b: a.__delitem__(b), o(fr), i(fr))
        return f

    def s_FunctionDef(self, s):
        blk = self.block(s.body)

        def body(fr):
            blk(fr)
        mk = self.mkfn(s, s.name, body)
        decs = [self.ex(d) for d in s.decorator_list]

        def f(fr):
            v = mk(fr)
            for d in reversed(decs):
                v = self.call(d(fr), (v,), {})
            fr.vars[s.name] = v
        return f

    def s_ClassDef(self, s):
        bases = [self.ex(b) for b in s.bases]
        body = self.block(s.body)

        def f(fr):
            cf = Frame(fr if fr.parent is not None else None, fr.mod, cls=s.name)
            c = Cls(s.name, [b(fr) for b in bases], cf.vars, fr.mod)
            body(cf)
            # methods do not see the class scope
            hidden = Frame(None, fr.mod, {'$cls': c})
            for k, v in list(cf.vars.items()):
                for w in (v, getattr(v, 'fn', None)):
                    if isinstance(w, Fn) and w.frame is cf:
                        w.frame = hidden
            fr.vars[s.name] = c
        return f

    def s_Import(self, s):
        def f(fr):
            for al in s.names:
                fr.vars[al.asname or al.name.split('.')[0]] = ModRef(al.name if al.asname else al.name.split('.')[0])
        return f

    def s_ImportFrom(self, s):
        return lambda fr: self.importfrom(fr, s)


def hasattr_quiet(o, n):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return hasattr(o, n)


class ModRef:
    def __init__(self, name):
        self.name = name


class SySet:
    """sets of sympy, as far as comparisons use them"""
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__
    __hash__ = None


class SyEmpty(SySet):
    args = ()


SY_EMPTY = SyEmpty()


class SyInterval(SySet):
    def __new__(cls, a, b, left_open=False, right_open=False):
        if a == b:
            return SY_EMPTY if left_open or right_open else SyFinite(a)
        if b < a:
            return SY_EMPTY
        return object.__new__(cls)

    def __init__(self, a, b, left_open=False, right_open=False):
        self.left = self.start = self.inf = a
        self.right = self.end = self.sup = b
        self.left_open = bool(left_open) or a == -INF
        self.right_open = bool(right_open) or b == INF


class SyFinite(SySet):
    def __new__(cls, *args):
        return object.__new__(cls) if args else SY_EMPTY

    def __init__(self, *args):
        self.args = tuple(sorted(dict.fromkeys(args)))

    def __iter__(self):
        return iter(self.args)


class SyUnion(SySet):
    def __init__(self, *args):
        raise Unsupported('sympy.Union')


class Chain:
    def __init__(self, interp):
        self.i = interp

    def __call__(self, *a):
        return [v for x in a for v in self.i.listing(x)]

    def from_iterable(self, xs):
        return [v for x in self.i.listing(xs) for v in self.i.listing(x)]


class HostMethod:
    def __init__(self, interp, o, n):
        self.i, self.o, self.n = interp, o, n

    def __call__(self, *a, **kw):
        if 'key' in kw and kw['key'] is not None:
            f = kw['key']
            kw = dict(kw, key=lambda x: self.i.call(f, (x,), {}))
        if self.n == 'pop' and isinstance(self.o, set):
            l = self.i.listing(self.o)
            v = l[0]
            self.o.remove(v)
            return v
        if self.n in ('extend', 'update', 'union', 'join', 'intersection', 'difference') and not isinstance(self.o, dict):
            a = tuple(list(self.i.listing(x)) for x in a)
        return getattr(self.o, self.n)(*a, **kw)
