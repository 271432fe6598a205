#!/usr/bin/env python3
"""Mutation of the analysed source, to find changes that the reference obligations do not see.
mutate.py MODULE[.CLASS[.FUNC]] [N]: mutants of the matching functions; prints those no obligation tells apart."""
import ast, copy, os, sys, random, shutil, time
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa import prog, oblig
import glob
SRC = os.environ.get('SPPL_REPO', '/repo') + '/src'


def funcs(tree, prefix):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield prefix + '.' + n.name, n
        elif isinstance(n, ast.ClassDef):
            yield from funcs(n, prefix + '.' + n.name)


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}
FN = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'make_union': 'make_intersection', 'make_intersection': 'make_union',
      'isinf_pos': 'isinf_neg', 'isinf_neg': 'isinf_pos', 'EventAnd': 'EventOr', 'EventOr': 'EventAnd', 'logcdf': 'cdf'}


def mutants(fn):
    """(description, mutated copy of fn)"""
    doc = isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant)
    nodes = list(ast.walk(fn))
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} |
                   {a.arg for n in nodes if isinstance(n, ast.arguments) for a in n.args} )
    asserts = set()
    for n in nodes:
        if isinstance(n, ast.Assert):
            asserts |= set(ast.walk(n))
        if isinstance(n, ast.Raise):
            asserts |= set(ast.walk(n)) - {n}
    def mk(i, f, d):
        c = copy.deepcopy(fn)
        m = list(ast.walk(c))[i]
        f(m)
        return ('%s: line %d: %s' % (fn.name, getattr(nodes[i], 'lineno', 0), d), ast.fix_missing_locations(c))
    for i, n in enumerate(nodes):
        if n in asserts:
            continue
        if isinstance(n, ast.Compare):
            for o in CMP.get(type(n.ops[0]), []):
                def f(m, o=o): m.ops[0] = o()
                yield mk(i, f, 'cmp -> %s in %s' % (o.__name__, ast.unparse(n)))
        if isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            for o in BIN.get(type(n.op), []):
                def f(m, o=o): m.op = o()
                yield mk(i, f, 'op -> %s in %s' % (o.__name__, ast.unparse(n)))
        if isinstance(n, ast.AugAssign):
            for o in BIN.get(type(n.op), []):
                def f(m, o=o): m.op = o()
                yield mk(i, f, 'augop -> %s in %s' % (o.__name__, ast.unparse(n)))
        if isinstance(n, ast.BoolOp):
            def f(m): m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield mk(i, f, 'and/or in %s' % ast.unparse(n))
            for k in range(len(n.values)):
                def f(m, k=k): del m.values[k]
                if len(n.values) > 1:
                    yield mk(i, f, 'drop operand %d of %s' % (k, ast.unparse(n)))
        if isinstance(n, (ast.If, ast.IfExp)):
            def f(m): m.test = ast.UnaryOp(ast.Not(), m.test)
            yield mk(i, f, 'negate %s' % ast.unparse(n.test))
        if isinstance(n, ast.comprehension) and n.ifs:
            def f(m): m.ifs = []
            yield mk(i, f, 'drop filter %s' % ast.unparse(n.ifs[0]))
        if isinstance(n, ast.Constant) and not (doc and n is fn.body[0].value):
            if isinstance(n.value, bool):
                def f(m): m.value = not m.value
                yield mk(i, f, 'flip %s' % n.value)
            elif isinstance(n.value, int):
                for d in (1, -1):
                    def f(m, d=d): m.value += d
                    yield mk(i, f, '%d -> %d' % (n.value, n.value + d))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.USub, ast.Not)):
            def f(m): m.op = ast.UAdd() if isinstance(m.op, ast.USub) else m.op
            if isinstance(n.op, ast.USub):
                yield mk(i, f, 'drop minus in %s' % ast.unparse(n))
        for fld in ('value', 'operand'):
            pass
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in FN:
            def f(m): m.func.id = FN[m.func.id]
            yield mk(i, f, '%s -> %s' % (n.func.id, FN[n.func.id]))
        if isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and \
                not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'reduce', 'getattr')):
            def f(m): m.args.reverse()
            yield mk(i, f, 'swap args of %s' % ast.unparse(n)[:60])
        if isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                def f(m, k=k): del m.keywords[k]
                yield mk(i, f, 'drop keyword %s' % n.keywords[k].arg)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
            for o in names:
                if o != n.id:
                    def f(m, o=o): m.id = o
                    yield mk(i, f, 'name %s -> %s' % (n.id, o))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for a, b in (('left', 'right'), ('a', 'b'), ('left_open', 'right_open'), ('xl', 'xu'), ('logFl', 'logFu'), ('Fl', 'Fu')):
                for x, y in ((a, b), (b, a)):
                    if n.attr == x:
                        def f(m, y=y): m.attr = y
                        yield mk(i, f, 'attr %s -> %s in %s' % (x, y, ast.unparse(n)))
        if hasattr(n, 'body') and isinstance(n.body, list):
            for k, st in enumerate(n.body):
                if isinstance(st, (ast.Return, ast.Assert)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                def f(m, k=k):
                    m.body[k] = ast.Pass()
                yield mk(i, f, 'delete %s' % ast.unparse(st)[:60].replace('\n', ' '))
        if isinstance(n, ast.If) and n.orelse:
            def f(m): m.orelse = []
            yield mk(i, f, 'drop else of %s' % ast.unparse(n.test))


def _extra():
    from sa import setalg, measure as m, compiler, dists, equality, export, polys, algebra, sampling, interface, commands, construct
    ms = [(m.run_relational, 'C02'), (m.run_preimage, 'C06'), (m.run_indicator, 'C06'), (m.run_events, 'C03'), (m.run_null, 'C10'), (m.run_density, 'C11'), (m.run_logprob, 'C08'), (m.run_bayes, 'C09'),
          (m.run_mi, 'C26'), (m.run_simplify, 'C18'), (m.run_sharing, 'C18'), (equality.run, 'C17'), (m.run_purity, 'C14'), (m.run_caching, 'C13'), (sampling.run_sampling, 'C15'), (construct.run_construct, 'C16'), (interface.run_nodes, 'C25')]
    pl = [(polys.run, 'C27')]
    return {'poly.py': pl, 'timeout.py': pl, 'sets.py': [(setalg.run_algebra, 'C01'), (setalg.run_algebra, 'C08'), (setalg.run_equality, 'C17')] + ms[:3],
            'spe.py': ms[3:], 'math_util.py': ms[5:6] + ms[-1:], 'dnf.py': ms[2:5] + ms[5:7], 'transforms.py': ms[:3] + [ms[10], (polys.run, 'C27'), (algebra.run_arith, 'C05'), (algebra.run_subs, 'C07'), (algebra.run_invert, 'C06')] + [(export.run_dict, 'C23')],
            'distributions.py': [(dists.run, 'C22'), (dists.run, 'C16')],
            'compilers/sppl_to_python.py': [(compiler.run, 'C20'), (compiler.run, 'C21')],
            'render.py': [(interface.run_render, 'C25')], 'compilers/ast_to_spe.py': [(compiler.run, 'C19'), (commands.run_commands, 'C19')],
            'compilers/spe_to_dict.py': [(export.run_dict, 'C23')], 'compilers/spe_to_sppl.py': [(export.run_sppl, 'C24')]}


EXTRA = _extra()


def load():
    P = prog.Program()
    return P, [o for f in sorted(glob.glob(os.path.dirname(__file__) + '/../specs/*.py')) for o in oblig.load_specs(f, P)[1]]


LEAK = os.environ.get('LEAK')       # report the changes that the reference definitions see but the other analyses vouch for


def leak(job, P, sus, text, t):
    from sa import confirm, registry, measure
    if not sus:
        return job, 'unseen', '', time.time() - t
    cov = set()
    for fn, prop in registry.vouchers({f.mod.name for f, _ in sus}):
        if fn in (measure.run_caching, measure.run_purity) and 'memo' not in text_of(job):
            continue
        r = fn(P, prop, 'quick')
        if r.findings:
            return job, 'differ', r.rule, time.time() - t
        cov |= r.cov
        if all(('fn', id(f.node)) in cov for f, _ in sus) and 0:
            break
    out = [confirm.vouched(f, ts, cov) for f, ts in sus]
    if any(out):
        return job, 'kept', str([x for x in out if x][0][:1]), time.time() - t
    return job, 'leaked', '', time.time() - t


def text_of(job):
    return job[3][max(0, job[3].find('def ' + job[0].split('.')[-1])):][:1500]


def one(job):
    path, relfile, desc, text, names = job
    d = '/tmp/mutwork/%d' % os.getpid()
    if not os.path.isdir(d):
        shutil.copytree(SRC, d)
    p = os.path.join(d, relfile)
    old = open(os.path.join(SRC, relfile)).read()
    open(p, 'w').write(text)
    t = time.time()
    try:
        P = prog.Program(d)
        st = {'agree': 0, 'differ': 0, 'undecided': 0}
        errs, sus = [], []
        for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/../specs/*.py')):
            for o in oblig.load_specs(f, P)[1]:
                if o.name in names:
                    r = oblig.run(P, o, maxtime=20)
                    for k in st:
                        st[k] += r.count(k)
                    if r.error:
                        errs.append(r.error)
                    if st['differ'] and LEAK:
                        sus += [(r.func, p.tests) for p in r.violations]
                    elif st['differ']:
                        return job, 'differ', st, time.time() - t
        if LEAK:
            return leak(job, P, sus, text, t)
        for fn, prop in EXTRA.get(relfile, []):
            r = fn(P, prop, 'quick')
            if r.findings:
                return job, 'differ', {'by': r.rule}, time.time() - t
            if r.undecided:
                st['undecided'] += 1
        return job, 'undecided' if st['undecided'] or errs else 'agree', st, time.time() - t
    except SyntaxError as e:
        return job, 'invalid', str(e), 0
    except RecursionError:
        return job, 'undecided', 'recursion', 0
    finally:
        open(p, 'w').write(old)


def main():
    pat = sys.argv[1]
    only = os.environ.get('ONLY')
    if only:                        # one analysis, without the reference definitions
        for k in EXTRA:
            EXTRA[k] = [x for x in EXTRA[k] if x[0].__name__ in only.split(',') or x[1] in only.split(',')]
        oblig.load_specs = lambda f, P: (None, [])
    N = int(sys.argv[2]) if len(sys.argv) > 2 else 10 ** 9
    P, obls = load()
    cover = {}
    for o in obls:
        r = oblig.run(P, o, maxtime=20)
        if r.func is None:
            continue
        for q in {r.func.qual} | {str(x) for x in r.inlined}:
            cover.setdefault(q, set()).add(o.name)
    jobs = []
    for root, dn, fn in os.walk(SRC):
        for f in sorted(fn):
            if not f.endswith('.py') or 'tests' in root:
                continue
            rel = os.path.relpath(os.path.join(root, f), SRC)
            mod = rel[:-3].replace('/', '.')
            if not (mod + '.').startswith(pat.split('.')[0]) and not mod.startswith(pat) and not pat.startswith(mod):
                continue
            text = open(os.path.join(root, f)).read()
            lines = text.split('\n')
            tree = ast.parse(text)
            for q, node in funcs(tree, mod):
                if not q.startswith(pat):
                    continue
                if q not in cover and rel not in EXTRA:
                    print('NOT COVERED', q)
                    continue
                a = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
                b = node.end_lineno
                for desc, m in mutants(node):
                    body = ast.unparse(m)
                    if body == ast.unparse(node):
                        continue
                    ind = ' ' * node.col_offset
                    new = '\n'.join(lines[:a] + [ind + l for l in body.split('\n')] + lines[b:])
                    jobs.append((q, rel, desc, new, cover.get(q, set())))
    random.seed(1)
    random.shuffle(jobs)
    jobs = jobs[:N]
    print(len(jobs), 'mutants')
    tally = {}
    missed = []
    with Pool(int(os.environ.get('J', '8'))) as pool:
        for job, st, info, t in pool.imap_unordered(one, jobs):
            tally[st] = tally.get(st, 0) + 1
            if st in ('agree', 'undecided', 'leaked'):
                missed.append('%-10s %s | %s | %s' % (st, job[0], job[2], info))
    for m in sorted(missed):
        print(m[:230])
    print(tally)
    shutil.rmtree('/tmp/mutwork', ignore_errors=True)


if __name__ == '__main__':
    main()
