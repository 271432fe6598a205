"""Program model of the analysed package: modules, classes, functions, imports.

Reads the *current* source of /repo/src on every run; nothing is imported or
executed.
"""
import ast
import os

REPO = os.environ.get('SPPL_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: exit with an error, never pass."""


class Func:
    def __init__(self, name, node, mod, cls=None, outer=None):
        self.name, self.node, self.mod, self.cls, self.outer = name, node, mod, cls, outer

    @property
    def qual(self):
        return '%s.%s%s' % (self.mod.name, self.cls.name + '.' if self.cls else '', self.name)

    @property
    def where(self):
        return '%s:%d' % (self.mod.path, self.node.lineno)

    def decorators(self):
        return [ast.unparse(d) for d in getattr(self.node, 'decorator_list', [])]

    def is_static(self):
        return 'staticmethod' in self.decorators()

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<Func %s>' % self.qual


class Cls:
    def __init__(self, name, node, mod):
        self.name, self.node, self.mod = name, node, mod
        self.methods = {}
        self.attrs = {}
        self.basenames = [ast.unparse(b) for b in node.bases]
        self.bases = []
        self.subs = set()
        for st in node.body:
            self._member(st)

    def _member(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.methods[st.name] = Func(st.name, st, self.mod, self)
            self.attrs.pop(st.name, None)
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    if isinstance(st.value, ast.Lambda):
                        self.methods[t.id] = Func(t.id, st.value, self.mod, self)
                    elif isinstance(st.value, ast.Name) and st.value.id in self.methods:
                        self.methods[t.id] = self.methods[st.value.id]
                    else:
                        self.attrs[t.id] = st.value
                        self.methods.pop(t.id, None)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
            self.attrs[st.target.id] = st.value

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
            if name in c.methods:
                return None
        return None

    def issub(self, other):
        return other in self.mro()

    def allsubs(self):
        out = {self}
        for s in self.subs:
            out |= s.allsubs()
        return out

    def __repr__(self):
        return '<Cls %s>' % self.name


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.ns = {}        # name -> ('func', Func)|('class', Cls)|('expr', node)|('import', mod, name)|('ext', dotted)
        self.stars = []


def pkgparts(name):
    return name.split('.')


class Program:
    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, 'src')
        self.modules = {}
        self.classes = {}
        self.funcs = {}
        for dp, dn, fn in sorted(os.walk(self.root)):
            dn[:] = [d for d in dn if d != '__pycache__']
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('__init__'):
                        rel = rel[:-9].rstrip('.')
                    self._load(rel, p)
        if not self.modules:
            raise AnalysisBroken('no sources under %s' % self.root)
        self._link()

    def _load(self, name, path):
        with open(path) as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken('cannot parse %s: %s' % (path, e))
        m = Module(name, path, tree)
        m.src = src
        self.modules[name] = m
        self._scan(m, tree.body)

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.ns[st.name] = ('func', Func(st.name, st, m))
            elif isinstance(st, ast.ClassDef):
                c = Cls(st.name, st, m)
                m.ns[st.name] = ('class', c)
                self.classes.setdefault(st.name, []).append(c)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(st.value, ast.Lambda):
                            m.ns[t.id] = ('func', Func(t.id, st.value, m))
                        else:
                            m.ns[t.id] = ('expr', st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) \
                            and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                m.ns[a.id] = ('expr', b)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.ns[st.target.id] = ('expr', st.value)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for k, v in self.imports(m, st).items():
                    m.ns[k] = v
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(m, st.body)
                for h in getattr(st, 'handlers', []):
                    self._scan(m, h.body)
                self._scan(m, st.orelse)

    def imports(self, m, st):
        out = {}
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out[a.asname] = ('ext', a.name)
                else:
                    out[a.name.split('.')[0]] = ('ext', a.name.split('.')[0])
            return out
        if st.level:
            parts = m.name.split('.') if m.name else []
            is_pkg = m.path.endswith('__init__.py')
            up = st.level - (1 if is_pkg else 0)
            base = parts[:len(parts) - up] if up else parts
            target = '.'.join(base + (st.module.split('.') if st.module else []))
        elif st.module and (st.module == 'sppl' or st.module.startswith('sppl.')):
            target = st.module[5:]
        else:
            for a in st.names:
                out[a.asname or a.name] = ('ext', '%s.%s' % (st.module, a.name))
            return out
        for a in st.names:
            if a.name == '*':
                m.stars.append(target)
            else:
                sub = (target + '.' + a.name).strip('.')
                out[a.asname or a.name] = ('import', target, a.name, sub)
        return out

    def resolve(self, m, name, seen=()):
        """-> ('func',F)|('class',C)|('expr',node,Module)|('ext',dotted)|('module',M)|None"""
        if isinstance(m, str):
            m = self.modules.get(m)
            if m is None:
                return None
        if (m.name, name) in seen:
            return None
        seen = seen + ((m.name, name),)
        v = m.ns.get(name)
        if v is None:
            for s in m.stars:
                r = self.resolve(s, name, seen)
                if r:
                    return r
            return None
        if v[0] == 'import':
            _, target, nm, sub = v
            if target in self.modules:
                r = self.resolve(target, nm, seen)
                if r:
                    return r
            if sub in self.modules:
                return ('module', self.modules[sub])
            return ('ext', 'sppl.%s.%s' % (target, nm))
        if v[0] == 'expr':
            # alias of another global?
            if isinstance(v[1], ast.Name):
                r = self.resolve(m, v[1].id, seen)
                if r:
                    return r
            return ('expr', v[1], m)
        return v

    def _link(self):
        for cs in self.classes.values():
            for c in cs:
                for b in c.node.bases:
                    if isinstance(b, ast.Name):
                        r = self.resolve(c.mod, b.id)
                        if r and r[0] == 'class':
                            c.bases.append(r[1])
                            r[1].subs.add(c)
        # private-name mangling is irrelevant: names are looked up per class.

    _made = None

    def instantiated(self, c):
        """is the class constructed by name somewhere in the program?"""
        if self._made is None:
            self._made = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        f = n.func
                        self._made.add(f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else '')
        return c.name in self._made

    # ------------------------------------------------------------- lookup
    def cls(self, name, mod=None):
        if ':' in name:
            mod, name = name.split(':')
        cs = self.classes.get(name, [])
        if mod:
            cs = [c for c in cs if c.mod.name == mod]
        if len(cs) > 1 and not mod:
            pri = [c for c in cs if c.mod.name in ('transforms', 'spe', 'sets')]
            cs = pri or cs
        if not cs:
            raise AnalysisBroken('class %s not found' % name)
        return cs[0]

    def hascls(self, name):
        return bool(self.classes.get(name.split(':')[-1]))

    def clsname(self, c):
        """the name of a class in facts: qualified where ambiguous"""
        return c.name if self.cls(c.name) is c else '%s:%s' % (c.mod.name, c.name)

    def func(self, path):
        """'spe.SumSPE.logprob_mem' or 'math_util.logdiffexp'"""
        parts = path.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if mod in self.modules:
                rest = parts[i:]
                r = self.resolve(self.modules[mod], rest[0])
                if r is None:
                    raise AnalysisBroken('%s not found' % path)
                if len(rest) == 1:
                    if r[0] == 'func':
                        return r[1]
                    raise AnalysisBroken('%s is not a function' % path)
                if r[0] == 'class':
                    f = r[1].find(rest[1])
                    if f is None:
                        raise AnalysisBroken('%s not found' % path)
                    return f
        raise AnalysisBroken('%s not found' % path)

    def all_funcs(self):
        for m in self.modules.values():
            for v in m.ns.values():
                if v[0] == 'func':
                    yield v[1]
                elif v[0] == 'class':
                    for f in v[1].methods.values():
                        yield f

    def implementers(self, name):
        """all repository methods called `name`"""
        out = []
        for cs in self.classes.values():
            for c in cs:
                if name in c.methods:
                    out.append(c.methods[name])
        return out
