import sys, glob, os, builtins
W = int(os.environ.get('W', '500'))
def print(*a):
    builtins.print(' '.join(str(x) for x in a)[:W])

sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import prog, oblig, ir
P = prog.Program()
pat = sys.argv[1] if len(sys.argv) > 1 else ''
verbose = '-v' in sys.argv
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs/*.py'))):
    m, obls = oblig.load_specs(f, P)
    for o in obls:
        if pat not in o.name and pat not in f and pat not in ' '.join(o.props):
            continue
        r = oblig.run(P, o)
        print('%-60s agree=%d differ=%d undec=%d %.2fs %s%s' % (o.name, r.count('agree'), r.count('differ'), r.count('undecided'), r.time, 'TRUNC ' if r.truncated else '', r.error or ''))
        shown = 0
        for p in r.paths:
            if p.status != 'agree' and verbose or p.status == 'differ' or (p.status == 'agree' and p.why and '-a' in sys.argv):
                shown += 1
                if shown > 4: continue
                print('   ', p.status, p.why, p.witness or '')
                print('      path:', '; '.join(('' if v else 'not ') + ir.show(a, 6) for a, v in p.lits))
                if p.spec: print('      spec:', p.spec[0], ir.show(p.spec[1], 14) if isinstance(p.spec[1], ir.Term) else p.spec[1])
                if p.code: print('      code:', p.code[0], ir.show(p.code[1], 14) if isinstance(p.code[1], ir.Term) else p.code[1])
