"""The SPPL compiler (src/compilers/sppl_to_python.py) decided over program shapes.

Abstract programs: statement and expression trees whose names and constants are uninterpreted atoms.  The translation in the current
source is interpreted abstractly on every shape of a bounded grammar (each statement kind in each context, each Boolean operator
over each comparison, nesting) and the emitted module - as a syntax tree, not as text - is compared with the structural definition
of the translation.  The handlers treat children uniformly, so the shapes stand for all programs built from them.
"""
import ast
import builtins
import itertools
import random
import time

from .absint import HOST, Interp, Raised, Unsupported
from .report import Report

MOD = 'compilers.sppl_to_python'


class Reject(Exception):
    pass


# ---------------------------------------------------------------- canonical expressions
def is_bool(c):
    return isinstance(c, tuple) and c and c[0] == 'B'


class Canon:
    """expression -> canonical value; Boolean structure as a truth table over its atoms"""
    def __init__(self, source):
        self.source = source

    def atom(self, *k):
        return ('B', (repr(k),), (False, True))

    def comb(self, f, xs):
        atoms = sorted({a for x in xs for a in x[1]})
        if len(atoms) > 8:
            raise Unsupported('too many atoms')
        tab = []
        for bits in itertools.product((False, True), repeat=len(atoms)):
            env = dict(zip(atoms, bits))
            vs = []
            for x in xs:
                i = 0
                for a in x[1]:
                    i = 2 * i + env[a]
                vs.append(x[2][i])
            tab.append(f(vs))
        # drop atoms the table does not depend on
        k = 0
        while k < len(atoms):
            n = len(atoms)
            step = 1 << (n - 1 - k)
            if all(tab[i] == tab[i ^ step] for i in range(len(tab))):
                tab = [tab[i] for i in range(len(tab)) if not i & step]
                atoms.pop(k)
            else:
                k += 1
        return ('B', tuple(atoms), tuple(tab))

    def cmp(self, op, l, r):
        t = type(op)
        if is_bool(l) or is_bool(r):
            if not self.source and t in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                return ('chain', t.__name__, l, r)
            return ('boolcompare', t.__name__, l, r)
        if t is ast.Gt:
            return self.atom('lt', r, l)
        if t is ast.GtE:
            return self.atom('le', r, l)
        if t is ast.Lt:
            return self.atom('lt', l, r)
        if t is ast.LtE:
            return self.atom('le', l, r)
        if not self.source:
            return ('python', t.__name__, l, r)      # Python's == or in on a transform is not an event
        if t is ast.Eq:
            return self.atom('in', l, ('set', (r,)))
        if t is ast.NotEq:
            return self.comb(lambda v: not v[0], [self.atom('in', l, ('set', (r,)))])
        if t is ast.In:
            return self.atom('in', l, r)
        if t is ast.NotIn:
            return self.comb(lambda v: not v[0], [self.atom('in', l, r)])
        return ('python', t.__name__, l, r)

    def __call__(self, e):
        if isinstance(e, (ast.Module, ast.Expression)):
            b = e.body[0] if isinstance(e.body, list) else e.body
            return self(b.value if isinstance(b, ast.Expr) else b)
        if isinstance(e, ast.Compare):
            vals = [self(e.left)] + [self(c) for c in e.comparators]
            if len(e.ops) > 1 and not self.source:
                return ('pychain', tuple(type(o).__name__ for o in e.ops), tuple(vals))
            cs = [self.cmp(o, vals[i], vals[i + 1]) for i, o in enumerate(e.ops)]
            return cs[0] if len(cs) == 1 else self.comb(all, cs) if all(map(is_bool, cs)) else ('and', tuple(cs))
        if isinstance(e, ast.BoolOp):
            cs = [self(v) for v in e.values]
            if self.source and all(map(is_bool, cs)):
                return self.comb(all if isinstance(e.op, ast.And) else any, cs)
            if self.source:
                return ('bool', type(e.op).__name__, tuple(cs))
            return ('pybool', type(e.op).__name__, tuple(cs))
        if isinstance(e, ast.UnaryOp):
            v = self(e.operand)
            if is_bool(v) and isinstance(e.op, ast.Invert) or isinstance(e.op, ast.Not) and self.source and is_bool(v):
                return self.comb(lambda x: not x[0], [v])
            if isinstance(e.op, ast.Not) and self.source:
                return ('unary', 'Invert', v)
            return ('unary', type(e.op).__name__, v)
        if isinstance(e, ast.BinOp):
            l, r = self(e.left), self(e.right)
            if isinstance(e.op, ast.LShift):
                return self.atom('in', l, r)
            if is_bool(l) and is_bool(r) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
                return self.comb(all if isinstance(e.op, ast.BitAnd) else any, [l, r])
            return ('bin', type(e.op).__name__, l, r)
        if isinstance(e, ast.Constant):
            return ('const', repr(e.value))
        if isinstance(e, ast.Name):
            return ('name', e.id)
        if isinstance(e, ast.Set):
            return ('set', tuple(sorted((self(x) for x in e.elts), key=repr)))
        if isinstance(e, (ast.List, ast.Tuple)):
            return (type(e).__name__, tuple(self(x) for x in e.elts))
        if isinstance(e, ast.Dict):
            return ('dict', tuple((self(k), self(v)) for k, v in zip(e.keys, e.values)))
        if isinstance(e, ast.Call):
            return ('call', self(e.func), tuple(self(a) for a in e.args), tuple(sorted((k.arg or '**', self(k.value)) for k in e.keywords)))
        if isinstance(e, ast.Subscript):
            return ('sub', self(e.value), self(e.slice))
        if isinstance(e, ast.Attribute):
            return ('attr', self(e.value), e.attr)
        if isinstance(e, ast.Lambda):
            return ('lambda', tuple(a.arg for a in e.args.args), self(e.body))
        if isinstance(e, ast.Starred):
            return ('star', self(e.value))
        if isinstance(e, ast.IfExp):
            return ('if', self(e.test), self(e.body), self(e.orelse))
        return ('other', ast.dump(e))


SRC, OUT = Canon(True), Canon(False)
NAMES = {'Id', 'IdArray', 'Condition', 'Constrain', 'IfElse', 'For', 'Sample', 'Sequence', 'Skip', 'Switch', 'Transform'}


def names_of(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def places(decls):
    """for each array, how many of the constants it interferes with are bound before it"""
    out = {}
    for k, (n, used) in enumerate(decls):
        if n is not None:
            out[n] = sum(1 for m, u in decls[:k] if m is None and u & used)
    return out


# ---------------------------------------------------------------- reference translation (of the preprocessed source)
class Reference:
    def __init__(self, text, dists):
        self.dists = dists
        self.variables, self.arrays, self.constants, self.imports, self.decls = [], {}, [], [], []
        self.used = set()
        self.commands = self.block(ast.parse(text).body, ('global',))

    def block(self, body, ctx):
        out = []
        for st in body:
            out += self.stmt(st, ctx)
        return out

    def names(self, e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}

    def stmt(self, s, ctx):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self.imports.append(ast.dump(s))
            return []
        if isinstance(s, ast.Pass):
            return [('Skip',)]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
            return []
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
            c = s.value
            if c.func.id in ('condition', 'constrain') and len(c.args) == 1 and not c.keywords:
                if c.func.id == 'condition':
                    return [('Condition', SRC(c.args[0]))]
                return [('Constrain', SRC(c.args[0]))]
            raise Reject('unknown command')
        if isinstance(s, ast.If):
            br = []
            n = s
            k = 0
            while True:
                br.append((SRC(n.test), self.block(n.body, ctx + (('elif',) if k else ('if',)))))
                k = 1
                if not n.orelse:
                    if len(br) < 2:
                        raise Reject('if without else')
                    break
                if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                    n = n.orelse[0]
                    continue
                br.append((('const', 'True'), self.block(n.orelse, ctx + ('elif',))))
                break
            return [('IfElse', tuple((t, tuple(b)) for t, b in br))]
        if isinstance(s, ast.For):
            if s.orelse or not isinstance(s.iter, ast.Call) or not isinstance(s.iter.func, ast.Name) or s.iter.keywords:
                raise Reject('for')
            a = s.iter.args
            if s.iter.func.id == 'range' and len(a) in (1, 2) and isinstance(s.target, ast.Name):
                n0, n1 = (('const', '0'), SRC(a[0])) if len(a) == 1 else (SRC(a[0]), SRC(a[1]))
                return [('For', n0, n1, (s.target.id,), tuple(self.block(s.body, ctx + ('for',))))]
            if s.iter.func.id == 'switch' and len(a) == 2 and isinstance(s.target, (ast.Name, ast.Tuple)) and isinstance(a[0], (ast.Name, ast.Subscript)):
                idx = (s.target.id,) if isinstance(s.target, ast.Name) else tuple(x.id for x in s.target.elts)
                return [('Switch', SRC(a[0]), SRC(a[1]), idx, tuple(self.block(s.body, ctx + ('switch',))))]
            raise Reject('for')
        if isinstance(s, ast.Assign):
            if isinstance(s.value, ast.IfExp):
                v = s.value
                node = ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(s.targets, v.orelse)])
                return self.stmt(node, ctx)
            if len(s.targets) != 1:
                raise Reject('several targets')
            t, v = s.targets[0], s.value
            ns = self.names(v)
            self.used |= ns & self.dists
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'array':
                if ctx != ('global',) or not isinstance(t, ast.Name) or t.id in self.variables or t.id in self.arrays or len(v.args) != 1 or v.keywords:
                    raise Reject('array')
                self.arrays[t.id] = SRC(v.args[0])
                self.decls.append((t.id, self.names(v.args[0]) | {t.id}))
                return []
            if ns & self.dists:
                direct = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in self.dists
                mix = isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitOr)
                if not direct and not mix:
                    raise Reject('distribution')
                op = 'Sample'
            elif ns & (set(self.variables) | set(self.arrays)):
                op = 'Transform'
            else:
                if ctx != ('global',) or self.used:
                    raise Reject('constant')
                self.constants.append(ast.dump(ast.parse(ast.unparse(ast.fix_missing_locations(s)))))
                self.decls.append((None, self.names(s)))
                return []
            if isinstance(t, ast.Name):
                if 'for' in ctx:
                    raise Reject('name in for')
                if 'elif' in ctx:
                    if t.id not in self.variables:
                        raise Reject('new name in elif')
                else:
                    if t.id in self.variables or t.id in self.arrays:
                        raise Reject('assigned twice')
                    self.variables.append(t.id)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                if t.value.id not in self.arrays:
                    raise Reject('not an array')
            else:
                raise Reject('target')
            return [(op, SRC(t), SRC(v))]
        raise Reject(type(s).__name__)


# ---------------------------------------------------------------- reading the emitted module
class Emitted:
    def __init__(self, text, model, P):
        try:
            tree = ast.parse(text)
        except SyntaxError as e:
            raise Wrong('the generated code does not parse: %s' % e)
        self.variables, self.arrays, self.constants, self.imports, self.from_, self.decls = {}, {}, [], [], {}, []
        self.command = None
        defined = set(dir(builtins))
        done = False
        for st in tree.body:
            self.check_names(st, defined)
            if isinstance(st, ast.Import):
                self.imports.append(ast.dump(st))
                defined |= {a.asname or a.name.split('.')[0] for a in st.names}
                continue
            if isinstance(st, ast.ImportFrom):
                self.imports.append(ast.dump(st))
                for a in st.names:
                    defined.add(a.asname or a.name)
                    self.from_[a.asname or a.name] = (st.module, a.name)
                    if st.module and st.module.startswith('sppl'):
                        m = st.module[5:]
                        if m not in P.modules or (a.name not in P.modules[m].ns):
                            raise Wrong('the generated code imports %s from %s, which does not define it' % (a.name, st.module))
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                n, v = st.targets[0].id, st.value
                f = v.func.id if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) else None
                if n == 'command':
                    self.command = self.cmd(v)
                elif n == model and isinstance(v, ast.Call) and ast.unparse(v) == 'command.interpret()':
                    done = True
                elif f == 'Id':
                    self.variables[n] = OUT(v.args[0])
                elif f == 'IdArray':
                    self.arrays[n] = (OUT(v.args[0]), OUT(v.args[1]))
                    self.decls.append((n, names_of(v.args[1]) | {n}))
                else:
                    self.constants.append(ast.dump(ast.parse(ast.unparse(st))))
                    self.decls.append((None, names_of(st)))
                defined.add(n)
                continue
            self.constants.append(ast.dump(ast.parse(ast.unparse(st))))
            self.decls.append((None, names_of(st)))
            defined |= {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if self.command is None:
            raise Wrong('the generated code defines no command')
        if not done:
            raise Wrong('the generated code does not interpret the command into %s' % model)

    def check_names(self, st, defined):
        bound = {a.arg for n in ast.walk(st) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs}
        bound |= {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in defined and n.id not in bound:
                raise Wrong('the generated code uses the undefined name %s' % n.id)

    def cmd(self, e):
        """-> list of commands"""
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name)) or e.keywords:
            raise Wrong('not a command: %s' % ast.unparse(e))
        f, a = e.func.id, e.args
        if f == 'Sequence':
            return [c for x in a for c in self.cmd(x)]
        if f == 'Skip' and not a:
            return [('Skip',)]
        if f in ('Sample', 'Transform') and len(a) == 2:
            return [(f, OUT(a[0]), OUT(a[1]))]
        if f in ('Condition', 'Constrain') and len(a) == 1:
            return [(f, OUT(a[0]))]
        if f == 'IfElse':
            if len(a) % 2 or not a:
                raise Wrong('conditions and branches do not pair up: %s' % ast.unparse(e))
            return [('IfElse', tuple((OUT(a[i]), tuple(self.cmd(a[i + 1]))) for i in range(0, len(a), 2)))]
        if f in ('For', 'Switch') and len(a) == 3 and isinstance(a[2], ast.Lambda):
            return [(f, OUT(a[0]), OUT(a[1]), tuple(x.arg for x in a[2].args.args), tuple(self.cmd(a[2].body)))]
        raise Wrong('not a command: %s' % ast.unparse(e))


class Wrong(Exception):
    pass


def skipless(cmds):
    """`pass` has no effect; `else: if` is `elif`"""
    out = []
    for c in cmds:
        if c[0] == 'Skip':
            continue
        if c[0] == 'IfElse':
            br = [(t, skipless(b)) for t, b in c[1]]
            while br[-1][0] == ('const', 'True') and len(br[-1][1]) == 1 and br[-1][1][0][0] == 'IfElse':
                br[-1:] = list(br[-1][1][0][1])
            c = ('IfElse', tuple(br))
        elif c[0] in ('For', 'Switch'):
            c = c[:4] + (skipless(c[4]),)
        out.append(c)
    return tuple(out)


def diff(a, b):
    if len(a) != len(b):
        return 'emits the commands %s where the source has %s' % ([c[0] for c in b], [c[0] for c in a])
    for x, y in zip(a, b):
        if x != y:
            if x[0] != y[0]:
                return 'emits %s where the source has %s' % (y[0], x[0])
            if x[0] == 'IfElse' and len(x[1]) == len(y[1]):
                for (t, p), (u, q) in zip(x[1], y[1]):
                    if t != u:
                        return 'the branch condition becomes %s instead of %s' % (show(u), show(t))
                    if p != q:
                        return diff(p, q)
            if x[0] in ('For', 'Switch') and x[:4] == y[:4]:
                return diff(x[4], y[4])
            return '%s becomes %s instead of %s' % (x[0], show(y[1:]), show(x[1:]))
    return None


def show(t):
    return repr(t)[:300]


# ---------------------------------------------------------------- shapes
CMPS = ['X < e1', 'X <= e1', 'e1 < X', 'e1 <= X', 'X > e1', 'X >= e1', 'X == e1', 'X != e1', 'X in [e1, e2]', 'X not in [e1, e2]', 'e1 > X',
        'X in {e1}', 'Y == "a"', 'Y not in {"a", "b"}', 'Y != "a"', 'X**2 + 3*X < e1', 'A[0] == e1', 'A[1] in [e2]']
CHAINS = ['e1 < X < e2', 'e1 <= X < e2', 'e1 < X <= e2', 'e2 > X >= e1', 'e1 <= X <= Z < e2', 'e1 < A[0] < e2', 'e1 < X**2 <= e2', 'e1 < X != e2',
          'X < e1 < Z', 'e1 < 2*X < e2 < 3*Z']


def conditions(rng, tier):
    base = CMPS + CHAINS
    out = list(base)
    out += ['not %s' % c for c in base] + ['not (%s)' % c for c in base] + ['~(%s)' % c for c in base]
    for c in base:
        for op in ('and', 'or'):
            d = rng.choice(base)
            out += ['%s %s %s' % (c, op, d), '(%s) %s not %s' % (c, op, d), 'not (%s %s %s)' % (c, op, d)]
        out += ['(%s) & (%s)' % (c, rng.choice(base)), '(%s) | (%s)' % (c, rng.choice(base))]

    def rand(d):
        r = rng.random()
        if d == 0 or r < .15:
            return '(%s)' % rng.choice(base)
        if r < .3:
            return 'not %s' % rand(d - 1)
        if r < .4:
            return '(%s %s %s)' % (rand(d - 1), rng.choice('&|'), rand(d - 1))
        op = rng.choice((' and ', ' or '))
        n = rng.choice((2, 2, 3))
        s = op.join(rand(d - 1) for _ in range(n))
        return '(%s)' % s if rng.random() < .7 else s
    out += [rand(2) for _ in range(250 if tier == 'quick' else 4000)]
    return out


HEAD = 'from math import exp\ne1 = 1\ne2 = 2\nA = array(5)\n'
DECL = HEAD + 'X ~= norm(loc=e1)\nZ ~= norm()\nY ~= choice({"a": .5, "b": .5})\n'


def indent(t, n=4):
    return ''.join(' ' * n + l + '\n' for l in t.rstrip('\n').split('\n'))


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def fresh(self):
        self.n += 1
        return 'V%d' % self.n

    def cond(self):
        return self.rng.choice(CMPS + CHAINS + ['X > e1 and Z < e2', 'not X > e1 or Z < e2'])

    def value(self, dist=None):
        r = self.rng
        if dist if dist is not None else r.random() < .5:
            return r.choice(('norm(loc=e1, scale=e2)', 'e1*norm(loc=e1) | (1-e1)*beta(a=e1, b=e2)', 'poisson(mu=e2)', 'choice({"u": .2, "v": .8})',
                             'atomic(loc=e1)', 'norm(loc=e1) if X > e1 else poisson(mu=e2)', 'beta(a=1, b=1) if X > e2 else (norm() if Z < e1 else atomic(loc=e1))'))
        return r.choice(('2*X + e1', 'X**2 - 3*Z', 'exp(X)', 'A[0] + e1', '(X > e1)*X + (X <= e1)*(e2 - X)', 'X if Z > e1 else 3*X', '-X', '(e1 < X < e2)*X + (not e1 < X < e2)*Z'))

    def simple(self, idx):
        r = self.rng
        k = r.random()
        if k < .3:
            return 'condition(%s)\n' % self.cond()
        if k < .4:
            return 'constrain({X: e1, Z: e2})\n'
        if k < .5:
            return 'pass\n'
        tgt = 'A[%s]' % (r.choice(idx) if idx and r.random() < .6 else r.choice(('0', '1', 'e1')))
        return '%s %s %s\n' % (tgt, r.choice(('~=', '=')), self.value())

    def body(self, d, idx, n=None):
        n = n or self.rng.choice((1, 1, 2, 3))
        return ''.join(self.stmt(d, idx) for _ in range(n))

    def stmt(self, d, idx):
        r = self.rng
        k = r.random()
        if d == 0 or k < .35:
            return self.simple(idx)
        if k < .65:
            t = 'if %s:\n%s' % (self.cond(), indent(self.body(d - 1, idx)))
            for _ in range(r.choice((0, 0, 1, 2))):
                t += 'elif %s:\n%s' % (self.cond(), indent(self.body(d - 1, idx)))
            if r.random() < .85 or 'elif' not in t:
                t += 'else:\n%s' % indent(self.body(d - 1, idx))
            return t
        if k < .8:
            i = 'i%d' % d
            a = r.choice(('3', 'e2', 'e1, 4', '1, e2'))
            return 'for %s in range(%s):\n%s' % (i, a, indent(self.body(d - 1, idx + [i])))
        j = 'j%d' % d
        v = r.choice(('X', 'Y', 'A[0]'))
        if r.random() < .3:
            return 'switch (%s) cases (i%d, %s in enumerate([e1, e2])):\n%s' % (v, d, j, indent(self.body(d - 1, idx + [j])))
        return 'switch (%s) cases (%s in %s):\n%s' % (v, j, r.choice(('[e1, e2]', 'range(3)', '["a", "b"]')), indent(self.body(d - 1, idx + [j])))

    def branchvars(self):
        """a variable defined in every branch"""
        r = self.rng
        v = self.fresh()
        t = 'if %s:\n%s' % (self.cond(), indent('%s ~= %s' % (v, 'norm(loc=e1)')))
        for _ in range(r.choice((0, 1, 2))):
            t += 'elif %s:\n%s' % (self.cond(), indent('%s = %s' % (v, '2*X')))
        return t + 'else:\n%s' % indent('%s ~= %s' % (v, r.choice(('beta(a=1, b=e1)', 'atomic(loc=e2)'))))

    def toplevel(self):
        r = self.rng
        t = ''
        for _ in range(r.choice((1, 2, 3))):
            k = r.random()
            if k < .2:
                t += '%s %s %s\n' % (self.fresh(), r.choice(('~=', '=')), self.value())
            elif k < .35:
                t += self.branchvars()
            else:
                t += self.stmt(r.choice((1, 2, 3)), [])
        return t


REJECT = ['while X > e1:\n    pass', 'def f():\n    pass', 'class C: pass', 'X += 1', 'W: int = 3', 'del X', 'with X:\n    pass', 'assert X > e1', 'raise X', 'return X',
          'try:\n    condition(X > e1)\nfinally:\n    pass', 'global X', 'W = V = 2*X', 'W, V = 2*X', 'W.a = 2*X', 'X > e1', 'X', '(condition(X > e1), condition(X < e1))',
          'observe(X > e1)', 'condition(X > e1, X < e2)', 'condition()', 'condition(X > e1, strict=True)', 'constrain({X: e1}, {Z: e2})',
          'if X > e1:\n    condition(Z > e1)', 'for i in range(3):\n    condition(X > e1)\nelse:\n    pass', 'for i in [1, 2]:\n    condition(X > e1)', 'for i in A:\n    condition(X > e1)',
          'for i in range(0, 4, 2):\n    A[i] ~= norm()', 'for i in foo(3):\n    A[i] ~= norm()', 'for i, j in range(3):\n    A[i] ~= norm()', 'W = 2*norm()', 'W = -norm()', 'W = f(norm())',
          'W = norm() + X', 'B[0] ~= norm()', 'X[0] ~= norm()', 'X ~= norm()', 'X = 2*Z', 'k = 3', 'for i in range(3):\n    W ~= norm()', 'for i in range(3):\n    k = 3',
          'if X > e1:\n    W ~= norm()\nelse:\n    V ~= norm()', 'C = array(2, 3)', 'if X > e1:\n    C = array(2)\nelse:\n    pass', 'X = array(3)', 'A = array(3)',
          'if X > e1:\n    X ~= norm()\nelse:\n    pass', 'switch (X, Y) cases (i in [1]):\n    pass', '[condition(X > e1) for i in range(2)]', 'lambda: condition(X > e1)', 'await_ = norm',
          'if X > e1:\n    while True:\n        pass\nelse:\n    pass', 'for i in range(2):\n    A[i] += 1', 'nonlocal X', 'X @ condition(X > e1)', 'not condition(X > e1)', 'condition(X > e1) or condition(Z > e1)']

CONSTANTS = [
    'e3 = e1\ne3 = e3*2\ne3 = e3*2', 'e3 = 1\ne4 = e3\ne3 = 2\ne5 = e3\ne3 = 1\ne6 = e3', 'e3 = 1\ne3 = 1', 'e3 = 2\nB = array(e3)\ne3 = 7\nC = array(e3)', 'e3, e4 = 1, 2\nB = array(e4)\ne4 = e3',
    'B = array(2)\ne3 = 4\nC = array(e3)\ne4 = 5', 'e3 = [1, 2]\ne4 = e3[0]\ne3 = e4\ne4 = e3', 'e3 = "x"\ne4 = {"a": e3}\ne3 = "y"', 'B = array(e1)\ne1 = 5', 'import math\ne3 = math.pi\nimport math',
]
FIXED = [
    '', 'pass', '"""text"""\ncondition(X > e1)', 'import math\ncondition(X > e1)', 'from math import pi\nW ~= norm(loc=pi)', 'W ~= norm()\nV = 2*W\nU = V*W',
    'if X > e1:\n    W ~= norm()\nelse:\n    W = 2*X', 'if X > e1:\n    pass\nelse:\n    if Z > e1:\n        condition(X > e2)\n    else:\n        pass',
    'if X > e1:\n    pass\nelse:\n    if Z > e1:\n        condition(X > e2)\n    else:\n        pass\n    condition(Z < e2)', 'if X > e1:\n    if Z > e2:\n        condition(X > e2)\n    elif Z > e1:\n        pass\nelif Z == e1:\n    pass',
    'A[0] ~= norm()\nfor i in range(1, 5):\n    A[i] = A[i-1] + e1', 'for i in range(2):\n    for j in range(i, 2):\n        A[i+j] ~= norm(loc=i)\n        condition(A[i+j] > j)',
    'switch (Y) cases (y in ["a", "b"]):\n    W ~= {"a": norm(), "b": poisson(mu=e1)}[y]' if False else 'switch (Y) cases (y in ["a", "b"]):\n    A[0] ~= norm()',
    'for i in range(3):\n    switch (X) cases (x in [e1, e2]):\n        A[i] ~= norm(loc=x)', 'W ~= norm() if X > e1 else beta(a=1, b=2)', 'W = X if Z < e1 else (2*X if Z < e2 else 3*X)',
    'condition(X > e1)\ncondition(Z > e1)\ncondition(X < e2)', 'constrain({X: e1})', 'constrain({A[0]: e1, X: e2})', 'W ~= e1*norm() | e2*beta(a=1, b=1) | .1*poisson(mu=3)',
    'A[e1] ~= norm()', 'B = array(e2)\nB[0] ~= norm()' , '# comment\nW ~= norm() # more\n\n\nV = W', 'W ~= norm(loc=X) if False else norm()' if False else 'W ~= norm(\n    loc=e1,\n    scale=2)',
    'W = piecewise(X)' if False else 'W = (X < e1)*X + (X >= e1)*Z', 'W = (not X < e1)*X + (X < e1)*(-X)', 'W ~= norm()\nif W > e1 and X < e2:\n    condition(W < e2)\nelif not (W == e2 or Z in [1, 2]):\n    pass\nelse:\n    condition(Z < e1)',
]


def setup(P, rep):
    it = Interp(P, fuel=10 ** 6)
    m = it.module(MOD)
    comp = m.vars.get('SPPL_Compiler')
    if comp is None:
        rep.missing.append(MOD + '.SPPL_Compiler')
        return None
    dm = P.modules.get('distributions')
    dists = {n for n, v in dm.ns.items() if n.islower() and (v[0] == 'class' or (P.resolve(dm, n) or ('',))[0] == 'class')} if dm else set()
    return it, comp, dists


import re


def preprocess(text):
    text = '\n'.join(l for l in text.split('\n') if l.strip()).replace('~=', '=')
    return re.sub(r'^(\s*)switch\s*\((.+)\)\s*cases\s*\((.+)\s*in\s+(.+)\s*\)\s*:', r'\1for \3 in switch(\2, \4):', text, flags=re.MULTILINE)


def judge(P, it, comp, dists, text, must_accept=True):
    """-> None | complaint; raises Unsupported"""
    it.fuel = it.fuel0
    try:
        ref = Reference(preprocess(text), dists)
    except Reject as e:
        ref = None
        why = e
    try:
        c = it.call(comp, (text,), {'modelname': 'themodel'})
        out = it.call(it.attr(c, 'render_module'), (), {})
    except Raised as e:
        if ref is None:
            return None
        return 'is rejected (%s%s)' % (type(e.exc).__name__, ', line %d' % e.where if e.where else '')
    except RecursionError:
        return 'compilation does not terminate'
    if not isinstance(out, str) or '<text>' in out:
        raise Unsupported('opaque text in the output')
    if ref is None:
        return 'is accepted although it has no translation (%s): %s' % (why, out[out.find('command ='):][:200])
    try:
        em = Emitted(out, 'themodel', P)
    except Wrong as e:
        return str(e)
    if set(em.variables) != set(ref.variables) or any(v != ('const', repr(k)) for k, v in em.variables.items()):
        return 'declares the variables %s instead of %s' % (em.variables, ref.variables)
    if {k: v[1] for k, v in em.arrays.items()} != ref.arrays or any(v[0] != ('const', repr(k)) for k, v in em.arrays.items()):
        return 'declares the arrays %s instead of %s' % (em.arrays, ref.arrays)
    if em.constants != ref.constants:
        return 'emits other constants, or in another order'
    if places(em.decls) != places(ref.decls):
        return 'declares an array at another point of the constants it depends on'
    for i in ref.imports:
        if i not in em.imports:
            return 'an import statement is lost'
    for n in NAMES | ref.used:
        if n in em.from_ and not (em.from_[n][0] or '').startswith('sppl'):
            return 'the name %s is imported from elsewhere' % n
    return diff(skipless(ref.commands), skipless(em.command)) or (
        'an empty program' if not em.command and ref.commands else None)


def run(P, prop, tier):
    rep = Report('program-translation')
    try:
        st = setup(P, rep)
    except (Unsupported, Raised) as e:
        rep.missing.append('%s: %r' % (MOD, e))
        return rep
    if st is None:
        return rep
    it, comp, dists = st
    own = {n.name for n in ast.walk(P.modules[MOD].tree) if isinstance(n, ast.FunctionDef)}
    rng = random.Random(11)
    cases = []
    conds = conditions(rng, tier)
    if prop == 'C21':
        for c in conds:
            cases.append(('condition', DECL + 'condition(%s)\n' % c))
        for c in conds[::3]:
            cases.append(('if', DECL + 'if %s:\n    pass\nelif %s:\n    condition(X > e1)\nelse:\n    pass\n' % (c, rng.choice(conds))))
        for c in conds[::7]:
            cases.append(('transform', DECL + 'W = (%s)*X + (not (%s))*Z\n' % (c, c)))
    else:
        for b in FIXED:
            cases.append(('statement', DECL + b + '\n'))
        for b in CONSTANTS:
            cases.append(('constants', HEAD + b + '\nX ~= norm(loc=e1)\n'))
        for b in REJECT:
            cases.append(('reject', DECL + b + '\n'))
            if '\n' not in b:
                cases.append(('reject', DECL + 'if X > e1:\n    pass\nelse:\n    %s\n' % b))
                cases.append(('reject', DECL + 'for i in range(2):\n    pass\n    %s\n' % b))
        for c in conds[:120]:
            cases.append(('condition', DECL + 'condition(%s)\n' % c))
        for k in range(700 if tier == 'quick' else 12000):
            cases.append(('program', DECL + Gen(rng).toplevel()))
    seen = {}
    und = {}
    t0 = time.time()
    for kind, text in cases:
        if time.time() - t0 > (60 if tier == 'quick' else 600) or len(rep.findings) >= 5:
            rep.count('stopped_early')
            break
        try:
            ast.parse(preprocess(text))
        except SyntaxError:
            rep.count('not_a_program')
            continue
        rep.count('shapes_' + kind)
        try:
            rep.begin(it)
            c = judge(P, it, comp, dists, text)
        except (Unsupported,) + HOST as e:
            und[str(e)] = und.get(str(e), 0) + 1
            continue
        rep.took(it)
        if c:
            key = (kind, c[:40])
            if key in seen:
                continue
            seen[key] = 1
            rep.find('%s:%s' % (MOD, kind), P.modules[MOD].path, 'the program shape %r %s' % (text[len(DECL):] if text.startswith(DECL) else text, c))
        elif len(rep.samples) < 6 and rep.instances % 101 == 7:
            rep.samples.append({'shape': text[len(DECL):], 'verdict': 'translation as defined'})
    for k, v in und.items():
        rep.undecided.append('%d shapes: %s' % (v, k))
    rep.functions |= {MOD + '.' + n for n in it.touched if not n.startswith('<') and n in own}
    rep.floor = 100
    return rep
