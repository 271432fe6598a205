"""Operations leave their operands as they were.

The families of abstract cases of the other analyses (constructions, arithmetic, substitution, inversion, pieces, mixtures of distributions, set
algebra, sampling) are interpreted again, and every operation the case performs on library objects is watched: what was reachable from its
arguments before the call must be unchanged after it.  Attributes that were absent (or private and empty) may be filled in: keeping a computed
answer is not a change.
"""
import random

from . import algebra, construct, dists, setalg
from .absint import HOST, Bound, Cls, Fn, Interp, Raised, Tok, Unsupported
from .heap import changes, record
from .measure import Gen, Run, fork_map
from .report import Report

def name_of(f):
    if isinstance(f, Bound):
        return name_of(f.fn)
    return getattr(f, 'name', None) or getattr(f, 'qual', None) or '?'


def watch(it):
    """record, on it.impure, the outermost calls that change what their arguments reach"""
    it.impure, it.watched = [], 0
    it.inside = False

    def call(f, args, kw):
        if it.inside or not isinstance(f, (Bound, Fn, Cls)):        # within an operation, or a case's own wrapper
            return Interp.call(it, f, args, kw)
        roots = ([f.self_] if isinstance(f, Bound) else []) + list(args) + list(kw.values())
        rec = record(roots)
        it.inside = True
        it.watched += 1
        try:
            return Interp.call(it, f, args, kw)
        finally:
            it.inside = False
            bad = changes(rec)
            if bad:
                it.impure.append((name_of(f), bad))
    it.call = call


def settle(rep, P, it, und, mod, text, f):
    """interpret a case for its effects only"""
    it.impure, n = [], it.watched
    rep.begin(it)
    try:
        f()
    except (Unsupported, Raised, algebra.Undef, algebra.Wrong, setalg.Bad, dists.Wrong, construct.Bad, construct.Ill, RecursionError) + HOST:
        pass                                    # what the operations answer is not the concern of this rule
    it.inside = False
    rep.took(it)
    rep.count('operations watched', it.watched - n)
    rep.count('cases')
    text = text() if callable(text) else text
    for fn, bad in it.impure[:1]:
        where = '%s.%s' % (mod, fn)
        if sum(x.construct == where for x in rep.findings) < 2:
            rep.find(where, P.modules[mod].path, '%s changes its operands: %s (in %s)' % (fn, bad, text))
    if not it.impure and len(rep.samples) < 6 and rep.counts['cases'] % 97 == 5:
        rep.samples.append({'case': text, 'verdict': '%d operations change nothing' % (it.watched - n)})
    return None


def build_cases(P, rep, tier, i, n):
    R = Run(P, 'C14', 'operands')
    watch(R.W.it)
    R.guard = lambda rule, where, text, f: settle(rep, P, R.W.it, None, 'spe', text, f)
    for k in range(i, n, 8):
        construct.run_construct.per_case(R, Gen(91 * 1000003 + k), k)
    R.done(0)
    rep.functions |= {x for x in R.W.it.touched if not x.startswith('<')}


def expr_cases(P, rep, tier, i, n):
    B = algebra.Bench(P, 'operands')
    watch(B.W.it)
    B.guard = lambda where, text, f: settle(rep, P, B.W.it, None, 'transforms', text, f)
    for k in range(i, n, 8):
        for c in (algebra.arith_case, algebra.subs_case, algebra.piece_case, algebra.invert_case):
            c(B, k)
    rep.functions |= {x for x in B.W.it.touched if not x.startswith('<')}


def mix_cases(P, rep, tier, i, n):
    R = dists.Registry(P)
    watch(R.it)
    mine = random.Random(i)
    dists.mixtures(R, lambda name, what, f: settle(rep, P, R.it, None, 'distributions', what, f), n)
    rep.functions |= {'distributions.' + x for x in R.it.touched if not x.startswith('<')}


def set_cases(P, rep, tier, i, n):
    C = setalg.Checker(P, Report('operands'), False)
    watch(C.M.it)

    def guard(rule, text, f, where, dup=None):
        C.n += 1
        C.M.it.fuel = C.M.it.fuel0
        C.M.it.order = C.n % 3
        settle(rep, P, C.M.it, None, 'sets', text, f)
    C.guard = guard
    r = random.Random(17 + i)
    for k in range(i, n, 8):
        A, B = setalg.rand_set(r, r.choice((1, 2, 2, 3))), setalg.rand_set(r, r.choice((1, 2, 3)))
        C.binary(A, B, '__and__')
        C.binary(A, B, '__or__')
        C.invert(setalg.rand_set(r, r.choice((1, 2, 3)), nominals=0, inf=0))
        C.member(A)
        C.equal(A, B)
    rep.functions |= {'sets.' + x for x in C.M.it.touched if not x.startswith('<')}


def run_operands(P, prop, tier):
    m = 1 if tier == 'quick' else 12
    jobs = [(build_cases, 300 * m), (expr_cases, 240 * m), (set_cases, 400 * m), (mix_cases, 80 * m)]

    def part(i):
        rep = Report('operands')
        for f, n in jobs:
            if f is mix_cases and i:
                continue
            try:
                f(P, rep, tier, i, n)
            except (Unsupported, Raised, KeyError) + HOST as e:
                rep.missing.append('%s: %r' % (f.__name__, e))
            Tok.zero = Tok.mirror = None
        return rep
    reps = fork_map(part, 8)
    for r in reps[1:]:
        reps[0].merge(r)
    reps[0].floor = 800
    return reps[0]
