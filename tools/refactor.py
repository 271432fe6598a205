#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the analysed source, to test that the checks stay quiet on them.
refactor.py MODE OUTDIR [SEED FRACTION]: writes a rewritten copy of $SPPL_REPO (default /repo) to OUTDIR.  Modes: see MODES."""
import ast
import copy
import os
import random
import shutil
import sys

R = random.Random(1)
FRACTION = 1.0


def chance():
    return R.random() < FRACTION


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def store(x):
    return ast.Name(x, ast.Store())


class Fresh:
    def __init__(self, fn):
        self.used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
        self.k = 0

    def __call__(self, base):
        while True:
            self.k += 1
            n = '%s_%d' % (base, self.k)
            if n not in self.used:
                self.used.add(n)
                return n


def blocks(fn):
    """every statement list of the function, innermost first (nested definitions included)"""
    for n in list(ast.walk(fn))[::-1]:
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))


def rename_locals(fn):
    params = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    outer = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
    imported = {(a.asname or a.name).split('.')[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    local = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - outer - imported
    local |= {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.name} - params
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('eval', 'exec', 'locals') for n in ast.walk(fn)):
        return
    fr = Fresh(fn)
    m = {x: fr('v') for x in sorted(local) if chance()}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in m:
            n.id = m[n.id]
        if isinstance(n, ast.ExceptHandler) and n.name in m:
            n.name = m[n.name]


def rename_params(fn):
    """positional parameters of lambdas and nested functions"""
    fr = Fresh(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Lambda) and not n.args.kwonlyargs and not n.args.defaults and chance():
            m = {a.arg: fr('u') for a in n.args.args}
            for x in ast.walk(n.body):
                if isinstance(x, ast.Lambda):
                    break
            else:
                for a in n.args.args:
                    a.arg = m[a.arg]
                for x in ast.walk(n.body):
                    if isinstance(x, ast.Name) and x.id in m:
                        x.id = m[x.id]


def sub_names(node, m):
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
    return node


def comp_to_loop(fn):
    fr = Fresh(fn)
    for n, f, b in blocks(fn):
        out = []
        for st in b:
            v = getattr(st, 'value', None)
            kinds = (ast.ListComp, ast.DictComp, ast.SetComp)
            pick = None
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(v, kinds):
                pick = v
            elif isinstance(st, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.args and isinstance(v.args[0], kinds + (ast.GeneratorExp,)) \
                    and v.func.id not in ('any', 'all', 'next'):
                pick = v.args[0]
            if pick is None or not chance():
                out.append(st)
                continue
            acc = fr('acc')
            if isinstance(pick, (ast.ListComp, ast.GeneratorExp)):
                init = ast.List([], ast.Load())
                body = ast.Expr(ast.Call(ast.Attribute(name(acc), 'append', ast.Load()), [pick.elt], []))
            elif isinstance(pick, ast.SetComp):
                init = ast.Call(name('set'), [], [])
                body = ast.Expr(ast.Call(ast.Attribute(name(acc), 'add', ast.Load()), [pick.elt], []))
            else:
                init = ast.Dict([], [])
                body = ast.Assign([ast.Subscript(name(acc), pick.key, ast.Store())], pick.value)
            for g in pick.generators[::-1]:
                for c in g.ifs[::-1]:
                    body = ast.If(c, [body], [])
                body = ast.For(g.target, g.iter, [body], [])
            tgt = {x.id for g in pick.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            sub_names(body, {t: fr(t) for t in tgt})
            out += [ast.Assign([store(acc)], init), body]
            if pick is v:
                st.value = name(acc)
            else:
                v.args[0] = name(acc)
            out.append(st)
        setattr(n, f, out)


def loop_to_comp(fn):
    for n, f, b in blocks(fn):
        out = []
        for st in b:
            p = out[-1] if out else None
            if isinstance(st, ast.For) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Expr) and isinstance(p, ast.Assign) and len(p.targets) == 1 \
                    and isinstance(p.targets[0], ast.Name) and isinstance(p.value, ast.List) and not p.value.elts:
                c = st.body[0].value
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) and c.func.value.id == p.targets[0].id:
                    p.value = ast.ListComp(c.args[0], [ast.comprehension(st.target, st.iter, [], 0)])
                    continue
            out.append(st)
        setattr(n, f, out)


def negate(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        return ast.Compare(e.left, [m[type(e.ops[0])]()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def invert_if(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse and chance():
            n.test, n.body, n.orelse = negate(n.test), n.orelse, n.body
        elif isinstance(n, ast.IfExp) and chance():
            n.test, n.body, n.orelse = negate(n.test), n.orelse, n.body


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def nest_returns(fn):
    for n, f, b in blocks(fn):
        for i in range(len(b) - 2, -1, -1):
            st = b[i]
            if isinstance(st, ast.If) and not st.orelse and ends(st.body) and b[i + 1:] and chance():
                st.orelse = b[i + 1:]
                del b[i + 1:]


def flatten_else(fn):
    for n, f, b in blocks(fn):
        for i in range(len(b) - 1, -1, -1):
            st = b[i]
            if isinstance(st, ast.If) and st.orelse and ends(st.body) and chance():
                b[i + 1:i + 1] = st.orelse
                st.orelse = []


def temp_returns(fn):
    fr = Fresh(fn)
    for n, f, b in blocks(fn):
        out = []
        for st in b:
            if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)) and chance():
                t = fr('result')
                out += [ast.Assign([store(t)], st.value), ast.Return(name(t))]
            else:
                out.append(st)
        setattr(n, f, out)


def temp_args(fn):
    """name the first argument of a call and the test of an if"""
    fr = Fresh(fn)
    for n, f, b in blocks(fn):
        out = []
        for st in b:
            v = getattr(st, 'value', None)
            if isinstance(st, (ast.Return, ast.Assign)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp, ast.Subscript, ast.ListComp)) and chance():
                t = fr('arg')
                out.append(ast.Assign([store(t)], v.args[0]))
                v.args[0] = name(t)
            elif isinstance(st, (ast.Return, ast.Assign)) and isinstance(v, ast.BinOp) and isinstance(v.left, (ast.Call, ast.BinOp, ast.Attribute)) and chance():
                t = fr('left')
                out.append(ast.Assign([store(t)], v.left))
                v.left = name(t)
            elif isinstance(st, ast.If) and not isinstance(st.test, (ast.Name, ast.Constant)) and chance() and not (f == 'orelse' and len(b) == 1):
                t = fr('cond')
                out.append(ast.Assign([store(t)], st.test))
                st.test = name(t)
            elif isinstance(st, ast.For) and not isinstance(st.iter, ast.Name) and chance():
                t = fr('items')
                out.append(ast.Assign([store(t)], st.iter))
                st.iter = name(t)
            out.append(st)
        setattr(n, f, out)


def demorgan(fn):
    def boolean(e):
        if isinstance(e, ast.BoolOp) and chance():
            o = ast.Or() if isinstance(e.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), boolean(v)) for v in e.values]))
        return e
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.IfExp, ast.Assert, ast.While)):
            n.test = boolean(n.test)
        if isinstance(n, ast.comprehension):
            n.ifs = [boolean(x) for x in n.ifs]


def split_and(fn):
    """if a and b: X  ->  if a: if b: X"""
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and chance():
            a, rest = n.test.values[0], n.test.values[1:]
            n.test, n.body = a, [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])]


def ifexp_to_if(fn):
    for n, f, b in blocks(fn):
        out = []
        for st in b:
            v = getattr(st, 'value', None)
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(v, ast.IfExp) and chance():
                a, c = copy.deepcopy(st), copy.deepcopy(st)
                a.value, c.value = v.body, v.orelse
                out.append(ast.If(v.test, [a], [c]))
            else:
                out.append(st)
        setattr(n, f, out)


def if_to_ifexp(fn):
    for n, f, b in blocks(fn):
        i = 0
        while i < len(b):
            st = b[i]
            if isinstance(st, ast.If) and len(st.body) == 1 and isinstance(st.body[0], ast.Return) and st.body[0].value is not None and chance():
                if len(st.orelse) == 1 and isinstance(st.orelse[0], ast.Return) and st.orelse[0].value is not None:
                    b[i] = ast.Return(ast.IfExp(st.test, st.body[0].value, st.orelse[0].value))
                elif not st.orelse and i + 2 == len(b) and isinstance(b[i + 1], ast.Return) and b[i + 1].value is not None:
                    b[i:] = [ast.Return(ast.IfExp(st.test, st.body[0].value, b[i + 1].value))]
            i += 1


def gen_to_list(fn):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            n.args = [ast.ListComp(a.elt, a.generators) if isinstance(a, ast.GeneratorExp) and chance() else a for a in n.args]
            return n

    T().visit(fn)


def list_to_gen(fn):
    class T(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all', 'sum', 'max', 'min', 'set', 'frozenset', 'tuple', 'list', 'sorted', 'dict') and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp) and chance():
                n.args = [ast.GeneratorExp(n.args[0].elt, n.args[0].generators)]
            return n
    T().visit(fn)


def enum_loops(fn):
    fr = Fresh(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and chance() and not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate'):
            n.iter = ast.Call(name('enumerate'), [n.iter], [])
            n.target = ast.Tuple([store(fr('index')), n.target], ast.Store())


def any_to_loop(fn):
    fr = Fresh(fn)
    for n, f, b in blocks(fn):
        out = []
        for st in b:
            fld = 'test' if isinstance(st, ast.If) else 'value' if isinstance(st, (ast.Assign, ast.Return)) else None
            v = getattr(st, fld, None) if fld else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('any', 'all') and len(v.args) == 1 and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) \
                    and len(v.args[0].generators) == 1 and chance() and not (f == 'orelse' and len(b) == 1):
                g = v.args[0].generators[0]
                t = fr('found')
                which = v.func.id == 'any'
                test = v.args[0].elt if which else ast.UnaryOp(ast.Not(), v.args[0].elt)
                body = ast.If(test, [ast.Assign([store(t)], ast.Constant(which)), ast.Break()], [])
                for c in g.ifs[::-1]:
                    body = ast.If(c, [body], [])
                loop = ast.For(g.target, g.iter, [body], [])
                sub_names(loop, {x.id: fr(x.id) for x in ast.walk(g.target) if isinstance(x, ast.Name)})
                out += [ast.Assign([store(t)], ast.Constant(not which)), loop]
                setattr(st, fld, name(t))
            out.append(st)
        setattr(n, f, out)


def split_unpack(fn):
    for n, f, b in blocks(fn):
        out = []
        for st in b:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Tuple) \
                    and len(st.value.elts) == len(st.targets[0].elts) and all(isinstance(t, ast.Name) for t in st.targets[0].elts) and chance():
                names = {t.id for t in st.targets[0].elts}
                if not any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(st.value)):
                    out += [ast.Assign([t], v) for t, v in zip(st.targets[0].elts, st.value.elts)]
                    continue
            out.append(st)
        setattr(n, f, out)


def fstrings(fn):
    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple) \
                    and n.left.value.count('%') == n.left.value.count('%s') == len(n.right.elts) and '{' not in n.left.value and '}' not in n.left.value and chance():
                return ast.Call(ast.Attribute(ast.Constant(n.left.value.replace('%s', '{}')), 'format', ast.Load()), n.right.elts, [])
            return n
    T().visit(fn)


def swap_compare(fn):
    """a == b -> not a != b for constants; len(x) == 0 stays"""
    m = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m and isinstance(n.left, ast.Constant) and chance():
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [m[type(n.ops[0])]()]


def reorder_isinstance(fn):
    pass


def lambda_to_def(fn):
    fr = Fresh(fn)
    for n, f, b in blocks(fn):
        out = []
        for st in b:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Lambda) and isinstance(st.targets[0], ast.Name) and chance():
                out.append(ast.FunctionDef(name=st.targets[0].id, args=st.value.args, body=[ast.Return(st.value.body)], decorator_list=[], type_params=[]))
            elif isinstance(st, (ast.Return, ast.Assign)) and isinstance(st.value, ast.Call) and any(isinstance(a, ast.Lambda) for a in st.value.args) and chance():
                for i, a in enumerate(st.value.args):
                    if isinstance(a, ast.Lambda):
                        t = fr('func')
                        out.append(ast.FunctionDef(name=t, args=a.args, body=[ast.Return(a.body)], decorator_list=[], type_params=[]))
                        st.value.args[i] = name(t)
                out.append(st)
            else:
                out.append(st)
        setattr(n, f, out)


def reduce_to_loop(fn):
    fr = Fresh(fn)
    for n, f, b in blocks(fn):
        out = []
        for st in b:
            v = getattr(st, 'value', None)
            if isinstance(st, (ast.Return, ast.Assign)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'reduce' and chance():
                acc, it, x = fr('acc'), fr('it'), fr('x')
                call = lambda a, c: ast.Call(v.args[0], [a, c], [])
                if isinstance(v.args[0], ast.Lambda):
                    g = fr('combine')
                    out.append(ast.FunctionDef(name=g, args=v.args[0].args, body=[ast.Return(v.args[0].body)], decorator_list=[], type_params=[]))
                    call = lambda a, c: ast.Call(name(g), [a, c], [])
                if len(v.args) == 3:
                    out += [ast.Assign([store(acc)], v.args[2]), ast.For(store(x), v.args[1], [ast.Assign([store(acc)], call(name(acc), name(x)))], [])]
                else:
                    out += [ast.Assign([store(it)], ast.Call(name('iter'), [v.args[1]], [])), ast.Assign([store(acc)], ast.Call(name('next'), [name(it)], [])),
                            ast.For(store(x), name(it), [ast.Assign([store(acc)], call(name(acc), name(x)))], [])]
                st.value = name(acc)
            out.append(st)
        setattr(n, f, out)


def noop(fn):
    b = fn.body
    i = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    b.insert(i, ast.Pass())
    b.insert(i, ast.Assign([store('_unused')], ast.Constant(0)))


FN_MODES = {f.__name__: f for f in (rename_locals, rename_params, comp_to_loop, loop_to_comp, invert_if, nest_returns, flatten_else, temp_returns, temp_args, demorgan, split_and,
                                    ifexp_to_if, if_to_ifexp, gen_to_list, list_to_gen, enum_loops, any_to_loop, split_unpack, fstrings, swap_compare, lambda_to_def, reduce_to_loop, noop)}


# ------------------------------------------------------------ whole modules
def plain_args(fn, skip):
    a = fn.args
    if a.kwonlyargs or a.posonlyargs:
        return None
    call = [name(x.arg) for x in a.args]
    if a.vararg:
        call.append(ast.Starred(name(a.vararg.arg), ast.Load()))
    kw = [ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []
    return call[skip:], kw


def movable(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and n.attr.startswith('__') and not n.attr.endswith('__'):
            return False
        if isinstance(n, ast.Name) and n.id in ('super', 'eval', '__class__') or isinstance(n, (ast.Yield, ast.YieldFrom)):
            return False
    return not fn.decorator_list and len(fn.body) > 1


def extract_functions(tree):
    """the bodies of methods become module-level functions"""
    out = []
    for c in tree.body:
        new = []
        if isinstance(c, ast.ClassDef):
            for fn in c.body:
                if isinstance(fn, ast.FunctionDef) and movable(fn) and fn.name != '__init__' and chance() and fn.args.args:
                    p = plain_args(fn, 0)
                    if p is None:
                        continue
                    h = copy.deepcopy(fn)
                    h.name = '_%s_%s_impl' % (c.name.lower().strip('_'), fn.name.strip('_'))
                    h.args.defaults = []
                    new.append(h)
                    fn.body = [ast.Return(ast.Call(name(h.name), *p))]
        out += new + [c]
    tree.body = out


def extract_methods(tree):
    """the second half of a method becomes another method"""
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            add = []
            for fn in c.body:
                if isinstance(fn, ast.FunctionDef) and not fn.decorator_list and not is_gen(fn) and len(fn.body) > 1 and fn.name != '__init__' and chance() and fn.args.args and fn.args.args[0].arg == 'self':
                    if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn) or any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(fn)):
                        continue
                    k = R.randrange(1, len(fn.body)) if FRACTION < 1 else len(fn.body) // 2
                    if k == 0:
                        continue
                    head, tail = fn.body[:k], fn.body[k:]
                    if isinstance(head[0], ast.Expr) and isinstance(head[0].value, ast.Constant) and len(head) == 1:
                        continue
                    if any(isinstance(x, (ast.Continue, ast.Break)) for st in tail for x in [st]):
                        continue
                    bound = {x.arg for x in fn.args.args[1:]} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
                    stores = {x.id for st in head for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    imps = {(a.asname or a.name) for st in head for x in ast.walk(st) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
                    if imps:
                        continue
                    # variables certainly bound in head
                    sure = {t.id for st in head if isinstance(st, ast.Assign) for t in ast.walk(ast.Tuple(st.targets, ast.Store())) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
                    used = {x.id for st in tail for x in ast.walk(st) if isinstance(x, ast.Name)}
                    if used & (stores - sure - bound):
                        continue
                    need = sorted(used & (bound | sure))
                    h = '_%s_rest' % fn.name.strip('_')
                    if c.name and any(isinstance(x, ast.FunctionDef) and x.name == h for x in c.body + add):
                        continue
                    h = '_%s_%s_rest' % (c.name.lower(), fn.name.strip('_'))
                    add.append(ast.FunctionDef(name=h, args=ast.arguments([], [ast.arg('self')] + [ast.arg(x) for x in need], None, [], [], None, []), body=tail, decorator_list=[], type_params=[]))
                    fn.body = head + [ast.Return(ast.Call(ast.Attribute(name('self'), h, ast.Load()), [name(x) for x in need], []))]
            c.body += add


def extract_exprs(tree):
    """comprehension bodies become module-level helpers"""
    new = []
    k = [0]

    class T(ast.NodeTransformer):
        def __init__(self):
            self.scope = []

        def visit_ClassDef(self, n):
            old = self.priv = getattr(self, 'priv', False)
            self.generic_visit(n)
            return n

        def visit_FunctionDef(self, n):
            self.scope.append({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}
                              | {x.name for x in ast.walk(n) if isinstance(x, ast.FunctionDef) and x is not n}
                              | {(a.asname or a.name).split('.')[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names})
            self.generic_visit(n)
            self.scope.pop()
            return n

        def visit_ListComp(self, n):
            self.generic_visit(n)
            e = n.elt
            if not self.scope or isinstance(e, (ast.Name, ast.Constant, ast.Attribute)) or not chance():
                return n
            for x in ast.walk(e):
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) or isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') \
                        or isinstance(x, ast.Name) and x.id in ('super', 'eval'):
                    return n
            local = set().union(*self.scope)
            need = sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name) and x.id in local})
            k[0] += 1
            h = '_element_%d' % k[0]
            new.append(ast.FunctionDef(name=h, args=ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), body=[ast.Return(e)], decorator_list=[], type_params=[]))
            n.elt = ast.Call(name(h), [name(x) for x in need], [])
            return n
    T().visit(tree)
    first = min([i for i, x in enumerate(tree.body) if isinstance(x, (ast.ClassDef, ast.FunctionDef))], default=0)
    tree.body[first:first] = new


def move_methods(tree):
    """order of methods and of functions reversed"""
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            fs = [i for i, x in enumerate(c.body) if isinstance(x, ast.FunctionDef)]
            names = [c.body[i].name for i in fs]
            if len(set(names)) == len(names) and not any(isinstance(x, ast.Assign) for x in c.body) and not any(c.body[i].decorator_list for i in fs):
                vals = [c.body[i] for i in fs][::-1]
                for i, v in zip(fs, vals):
                    c.body[i] = v


def rename_private(tree):
    """module-level helpers and private methods get other names (within one module only)"""
    pass


MOD_MODES = {f.__name__: f for f in (extract_functions, extract_methods, extract_exprs, move_methods)}
MODES = list(FN_MODES) + list(MOD_MODES)


def rewrite(text, modes):
    tree = ast.parse(text)
    for m in modes:
        if m in MOD_MODES:
            MOD_MODES[m](tree)
        else:
            done = set()
            for n in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
                if id(n) in done:
                    continue
                done |= {id(x) for x in ast.walk(n)}
                if is_gen(n) and m in ('temp_returns',):
                    continue
                if chance():
                    FN_MODES[m](n)
        ast.fix_missing_locations(tree)
        tree = ast.parse(ast.unparse(tree))
    return ast.unparse(tree) + '\n'


def main():
    global FRACTION
    modes, out = sys.argv[1].split('+'), sys.argv[2]
    if len(sys.argv) > 3:
        R.seed(int(sys.argv[3]))
    if len(sys.argv) > 4:
        FRACTION = float(sys.argv[4])
    repo = os.environ.get('SPPL_REPO', '/repo')
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(repo, out, ignore=shutil.ignore_patterns('.git', 'build'))
    n = 0
    for root, _, fs in os.walk(os.path.join(out, 'src')):
        if 'tests' in root:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(root, f)
                t = open(p).read()
                u = rewrite(t, modes)
                if u != ast.unparse(ast.parse(t)) + '\n':
                    n += 1
                open(p, 'w').write(u)
    print('%s: %d files changed' % ('+'.join(modes), n))


if __name__ == '__main__':
    main()
