"""Obligations: (function of the analysed source) x (reference definition).

A reference definition is Python text in /verif/specs; it is never executed, it
is given to the same abstract interpreter as the source.  On every branch of
the control flow of both (joint trace partition) the two denotations are
compared.  Three outcomes per path: agree / differ / undecided.
"""
import ast
import time
import os
from . import ir, interp, model
from .ir import raw, NONE, TRUE, FALSE, sym
from .interp import (Interp, Infeasible, Unsupported, RaiseSig, ReturnSig, Frame, FuncV, Cell, Scope, ANY)
from .prog import Func, Module, AnalysisBroken


class Obl:
    def __init__(self, name, target, props, spec, opts, specmod):
        self.name, self.target, self.props, self.spec, self.opts, self.specmod = name, target, props, spec, opts, specmod


def load_specs(path, prog):
    """parse a spec file -> (Module for name resolution, [Obl])"""
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    m = Module('spec:' + os.path.basename(path)[:-3], path, tree)
    prog._scan(m, tree.body)
    out = []
    for st in tree.body:
        if not isinstance(st, ast.FunctionDef):
            continue
        for d in st.decorator_list:
            if not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'obl'):
                continue
            target = ast.literal_eval(d.args[0])
            props = ast.literal_eval(d.args[1]).split()
            opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
            fn = Func(st.name, st, m)
            name = '%s#%s' % (target, st.name)
            out.append(Obl(name, target, props, fn, opts, m))
    return m, out


class Path:
    def __init__(self, lits, spec, code, status, why='', witness=None):
        self.lits, self.spec, self.code, self.status, self.why, self.witness = lits, spec, code, status, why, witness
        self.tests = frozenset()


class Result:
    def __init__(self, obl):
        self.obl = obl
        self.paths = []
        self.func = None
        self.error = None
        self.time = 0
        self.inlined = set()
        self.truncated = False

    def count(self, st):
        return sum(1 for p in self.paths if p.status == st)

    @property
    def violations(self):
        return [p for p in self.paths if p.status == 'differ']


def tokens(s):
    return set(s.split()) if isinstance(s, str) else set(s)


def run(prog, obl, maxpaths=3000, maxtime=60, certify=True):
    t0 = time.time()
    res = Result(obl)
    o = obl.opts
    try:
        func = prog.func(obl.target)
    except AnalysisBroken as e:
        res.error = str(e)
        return res
    res.func = func
    parts = obl.target.split('.')
    selfcls = o.get('self')
    if selfcls is None and func.cls is not None and not func.is_static():
        selfcls = parts[-2]
        for c in prog.classes.get(selfcls, []):
            if c.mod.name == '.'.join(parts[:-2]):
                selfcls = prog.clsname(c)
    it = Interp(prog, opaque=tokens(o.get('opaque', '')), inline=tokens(o.get('inline', '')),
                assert_raises=o.get('assert_raises', False), erase=tokens(o.get('erase', 'memo')),
                specmod=obl.specmod)
    it.noinline_special = tokens(o.get('noinline', ''))
    prefix = []
    seen_paths = 0
    while True:
        it.reset(list(prefix))
        p = one_path(it, prog, obl, func, selfcls)
        log = it.scopes[0].log
        if p is not None:
            p.lits = list(log)
            p.tests = frozenset(it.tests)
            if p.status == 'differ?':
                decide_diff(it, p, certify)
            res.paths.append(p)
        seen_paths += 1
        pre = [v for _, v in log]
        while pre and pre[-1] is False:
            pre.pop()
        if not pre:
            break
        pre[-1] = False
        prefix = pre
        if seen_paths >= maxpaths or time.time() - t0 > maxtime:
            res.truncated = True
            break
    res.inlined = it.stats['calls']
    res.time = time.time() - t0
    return res


def mkargs(it, obl, func, selfcls):
    a = obl.spec.node.args
    names = [p.arg for p in a.args]
    args = []
    for i, n in enumerate(names):
        if i == 0 and selfcls and n == 'self':
            s = sym('self')
            it.scopes[0].facts[raw('isinst', s, selfcls)] = True
            c = it.prog.cls(selfcls) if it.prog.hascls(selfcls) else None
            if not obl.opts.get('inexact') and (c is None or not c.subs or it.prog.instantiated(c)):
                it.exact = frozenset([s])
            args.append(s)
        elif n in obl.opts.get('bind', {}):
            args.append(ir.const(obl.opts['bind'][n]))
        else:
            args.append(sym(n))
    kinds = obl.opts.get('types', {})
    for n, c in kinds.items():
        it.scopes[0].facts[raw('isinst', sym(n), c)] = True
    return args, [p.arg for p in a.kwonlyargs], a.vararg.arg if a.vararg else None


def one_path(it, prog, obl, func, selfcls):
    it.exact = frozenset()
    args, kwonly, vararg = mkargs(it, obl, func, selfcls)
    cargs = list(args)
    star = []
    if vararg:
        star = [('*', sym(vararg))]
    ckw = {k: sym(k) for k in kwonly}
    # ---- reference
    it.spec_mode = True
    try:
        s = outcome(it, lambda: it.call_func(obl.spec, args + star, dict(ckw)))
    except Infeasible:
        return None
    except Unsupported as e:
        return Path(None, None, None, 'undecided', 'reference: %s' % e)
    it.spec_mode = False
    if s[0] == 'raise' and s[1] == 'AssertionError' and not it.assert_raises:
        return Path(None, s, None, 'agree', 'outside the precondition')
    # the reference may not leave partially decided conditionals
    # ---- source
    init = func.name == '__init__' and not obl.opts.get('noinit')
    try:
        if init:
            obj = Cell('obj', {}, prog.cls(selfcls))
            c = outcome(it, lambda: it.call_func(func, [obj] + cargs[1:] + star, dict(ckw)))
            if c[0] == 'ret':
                c = ('obj', obj)
        elif obl.opts.get('static') or (func.cls is not None and func.is_static()):
            c = outcome(it, lambda: it.call_func(func, cargs + star, dict(ckw)))
        else:
            c = outcome(it, lambda: it.call_func(func, cargs + star, dict(ckw)))
    except Infeasible:
        return None
    except Unsupported as e:
        return Path(None, s, None, 'undecided', 'source: %s' % e)
    except RecursionError:
        return Path(None, s, None, 'undecided', 'source: recursion')
    if s[0] == 'ret' and s[1] is ANY:
        return Path(None, s, c, 'agree', 'no requirement')
    if c[0] == 'raise' and c[1] == 'AssertionError' and not it.assert_raises:
        return Path(None, s, c, 'agree', 'outside the precondition')
    if c[0] == 'obj':
        # reference returns a dict of attribute values
        if s[0] != 'ret':
            return Path(None, s, c, 'differ?', 'raises')
        try:
            want = s[1]
            if want.op != 'dictof' or want.args[0].op != 'seq':
                return Path(None, s, c, 'undecided', 'reference not a dict')
            w, g = [], []
            for pr in want.args[0].args[0]:
                k, v = pr.args[0]
                if v is ANY:
                    continue
                if k.args[0] not in c[1].val:
                    at = c[1].cls.find_attr(k.args[0])
                    if not at:
                        g.append((k.args[0], raw('missing')))
                    else:
                        g.append((k.args[0], it.reify(it.eval(at[1], Frame(at[0].mod)))))
                else:
                    g.append((k.args[0], it.reify(c[1].val[k.args[0]])))
                w.append((k.args[0], v))
        except Unsupported as e:
            return Path(None, s, c, 'undecided', 'source: %s' % e)
        except Infeasible:
            return None
        for (k, a), (_, b) in zip(w, g):
            if not same(it, a, b):
                return Path(None, ('ret', a), ('ret', b), 'differ?', 'attribute %s' % k)
        return Path(None, ('ret', NONE), ('ret', NONE), 'agree')
    if s[0] != c[0]:
        return Path(None, s, c, 'differ?', 'outcome kind')
    if s[0] == 'raise':
        if s[1] == c[1] or s[1] == 'ANY':
            return Path(None, s, c, 'agree')
        return Path(None, s, c, 'differ?', 'exception kind')
    try:
        if same(it, s[1], c[1]):
            return Path(None, s, c, 'agree')
    except Infeasible:
        return None
    return Path(None, s, c, 'differ?', 'value')


def outcome(it, thunk):
    try:
        v = thunk()
        t = it.reify(v)
        return ('ret', t)
    except RaiseSig as r:
        return ('raise', r.exc)


def strip(t):
    """list/tuple distinction is immaterial; drop it"""
    return t


def refine(it, t, rounds=4):
    """replace atoms decided on this path, and pinned values"""
    for _ in range(rounds):
        mp = {}
        for a in ir.subterms(t):
            if ir.is_atom(a):
                r = it.lookup_quiet(a)
                if r is not None:
                    mp[a] = ir.boolc(r)
        for f, v in list(it.allfacts()):
            if v and f.op == 'eq':
                x, y = f.args
                if it.isconstlike(y) and not it.isconstlike(x):
                    mp[x] = y
                elif it.isconstlike(x) and not it.isconstlike(y):
                    mp[y] = x
            if v and f.op == 'isninf':
                mp[f.args[0]] = ir.NINF
            if v and f.op == 'ispinf':
                mp[f.args[0]] = ir.INF
        n = ir.subst(t, mp) if mp else t
        if n is t:
            return t
        t = n
    return t


def same(it, a, b):
    if a is b:
        return True
    a, b = refine(it, a), refine(it, b)
    if a is b:
        return True
    if has_any(a):
        return match_any(a, b)
    return False


def has_any(t):
    return ANY in ir.subterms(t)


def match_any(a, b):
    if a is ANY:
        return True
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(match_any(x, y) for x, y in zip(a, b))
    if not (isinstance(a, ir.Term) and isinstance(b, ir.Term)):
        return a == b
    return a.op == b.op and len(a.args) == len(b.args) and all(match_any(x, y) for x, y in zip(a.args, b.args))


_words = []


def unknown(it, name):
    """a method of the repository that no reference definition mentions: a helper whose body the analysis could not bring in"""
    if not _words:
        import glob, re
        _words.append(set(re.findall(r'\w+', ' '.join(open(f).read() for f in glob.glob(os.path.join(os.path.dirname(__file__), '..', 'specs', '*.py'))))))
    return name not in _words[0] and not name.startswith('__') and bool(it.prog.implementers(name))


def decide_diff(it, p, certify):
    """alarm suppression: the two denotations must differ in a finite random
    interpretation of the uninterpreted symbols that satisfies the path."""
    if p.why in ('outcome kind', 'exception kind', 'raises'):
        p.status = 'differ'
        if not certify:
            return
        v = model.feasible(it)
        p.status = 'differ' if v else 'undecided'
        p.why += '' if v else ' (path not realised in a model)'
        p.witness = v
        return
    if has_any(p.spec[1]):
        p.status = 'undecided'
        return
    for x in ir.subterms(p.code[1]):
        if isinstance(x, ir.Term) and x.op == 'mcall' and unknown(it, x.args[1]):
            p.status, p.why = 'undecided', 'source: method %s is not resolved' % x.args[1]
            return
    if not certify:
        p.status = 'differ'
        return
    r = model.disagree(it, p.spec[1], p.code[1])
    if r is None:
        p.status, p.why = 'undecided', p.why + ': not evaluated'
    elif r is False:
        p.status, p.why = 'agree', 'by random interpretation'
    else:
        p.status, p.witness = 'differ', r
