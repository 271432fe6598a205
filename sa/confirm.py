"""Confirmation of disagreements with a reference definition.

A difference between a function and its reference definition that is only one of form (an invariant the value-flow analysis does not know, an
algorithm arranged differently) must not raise an alarm.  The value-flow analysis therefore only raises a suspicion: it names the control path
on which the two denotations differ.  The suspicion is reported unless the analyses that decide answers can vouch for the path, which takes
both: none of them finds a wrong answer anywhere, and they met, in decided cases, every condition of the path with the outcome it has there."""
import ast


def atoms(e):
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            yield from atoms(v)
    elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        yield from atoms(e.operand)
    else:
        yield e


def conditions(fn):
    """[(node, outcomes to be met)] of a function, helpers defined in it included; preconditions (asserts) are not conditions"""
    out = {}

    def need(e):
        if isinstance(e, ast.Constant):
            return
        out[id(e)] = (e, (True, False))

    def walk(n):
        if isinstance(n, ast.Assert):
            return
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for a in atoms(n.test):
                need(a)
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                for a in atoms(c):
                    need(a)
        elif isinstance(n, ast.Compare):
            need(n)
        elif isinstance(n, ast.BoolOp):
            for v in n.values[:-1]:
                for a in atoms(v):
                    need(a)
        elif isinstance(n, ast.ExceptHandler):
            out[id(n)] = (n, (True,))
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(fn)
    return list(out.values())


def text(n):
    return 'except clause' if isinstance(n, ast.ExceptHandler) else ast.unparse(n)


def missing(fn, cov):
    """conditions of the function not met with every outcome"""
    if ('fn', id(fn)) not in cov:
        return ['never called']
    return ['line %d: %s is never %s' % (n.lineno, text(n)[:60], v) for n, vs in conditions(fn) for v in vs if (id(n), v) not in cov]


def vouched(fn, tests, cov):
    """conditions of the path that no decided case met (empty: vouched for)"""
    if ('fn', id(fn.node)) not in cov:
        return ['%s is never called' % fn.qual]
    return ['%s outcome %s' % t for t in tests if t not in cov]


def review(P, prop, tier, reports):
    """drop the disagreements with reference definitions that the other analyses vouch for"""
    from . import registry
    spec = [r for r in reports if r.rule == 'agrees-with-reference']
    sus = [f for r in spec for f in r.findings]
    if not sus or any(r.findings for r in reports if r not in spec):
        return
    cov = set().union(*[r.cov for r in reports])
    done = {registry.key(fn, prop) for fn in registry.ANALYSES[prop]}
    mods = {f.path[0].mod.name for f in sus}
    for fn, p in registry.vouchers(mods):
        if registry.key(fn, p) in done:
            continue
        done.add(registry.key(fn, p))
        r = fn(P, p, tier)
        cov |= r.cov
        if r.findings:
            f = r.findings[0]
            for s in sus:
                s.trace.append('confirmed by [%s] %s: %s' % (f.rule, f.construct, f.msg[:300]))
            return
    for r in spec:
        for f in r.findings:
            out = vouched(f.path[0], f.path[1], cov)
            if not out:
                r.form.append('%s: %s' % (f.construct, f.msg[:300]))
                r.undecided.append('%s: arranged differently from the reference definition; decided by the other analyses' % f.construct)
            else:
                f.trace.append('%d of %d conditions of the path are outside what the other analyses met' % (len(out), len(f.path[1])))
        r.findings = [f for f in r.findings if vouched(f.path[0], f.path[1], cov)]
