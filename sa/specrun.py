"""Run the reference-definition obligations that a property depends on."""
import glob
import os
from . import oblig, ir
from .report import Report, VERIF


def path_text(p):
    return '; '.join(('' if v else 'not ') + ir.show(a, 6) for a, v in p.lits) or 'always'


def outcome_text(o):
    if o is None:
        return '?'
    k, v = o
    if k == 'raise':
        return 'raises %s' % v
    return ir.show(v, 12) if isinstance(v, ir.Term) else str(v)


def run(P, prop, tier):
    rep = Report('agrees-with-reference')
    total = 0
    for f in sorted(glob.glob(os.path.join(VERIF, 'specs', '*.py'))):
        m, obls = oblig.load_specs(f, P)
        for o in obls:
            if prop not in o.props:
                continue
            total += 1
            r = oblig.run(P, o, maxpaths=3000 if tier == 'quick' else 20000, maxtime=40 if tier == 'quick' else 400)
            if r.error:
                rep.missing.append('%s: %s' % (o.name, r.error))
                continue
            fn = r.func
            rep.functions.add(fn.qual)
            rep.functions |= {str(x) for x in r.inlined}
            rep.count('obligations')
            for st in ('agree', 'differ', 'undecided'):
                rep.count('paths_' + st, r.count(st))
            agr = r.count('agree')
            if agr or r.count('differ'):
                rep.instances += 1
            for p in r.paths:
                if p.status == 'undecided':
                    rep.undecided.append('%s [%s]: %s' % (o.name, path_text(p)[:200], p.why))
            if r.truncated:
                rep.undecided.append('%s: path or time limit' % o.name)
            if agr and len(rep.samples) < 6:
                p = [p for p in r.paths if p.status == 'agree'][-1]
                rep.samples.append({'function': fn.qual, 'path': path_text(p)[:300], 'denotation': outcome_text(p.code)[:300]})
            for p in r.violations:
                rep.find(o.target, fn.where, 'on path [%s] the function yields %s; the property requires %s' % (
                    path_text(p)[:400], outcome_text(p.code)[:400], outcome_text(p.spec)[:400]),
                    ['reason: %s' % p.why] + ['%s%s' % ('' if v else 'not ', ir.show(a, 8)) for a, v in p.lits] +
                    (['distinguishing interpretation: %s' % (p.witness,)] if p.witness else []))
                rep.findings[-1].path = (fn, p.tests)
    rep.floor = max(1, int(total * 0.5))
    return rep
