"""debug helper: run one case modularly, list failing obligations quickly (python3-vt -i tools/dbg.py NAME)"""
import sys, os, tempfile, time; sys.path.insert(0, '/verif')
from vc import runner, contract, solve, terms as tm, symex
from vc.contract import REG, ORDER
from vc.terms import *
def load(name, libs_on=True, quick_ms=2000, secs=3):
    runner.load_contracts()
    c = REG[name]
    libs = [REG[n] for n in ORDER if REG[n].lib]
    cases = list({x.name: x for x in [c] + libs}.values())
    work = tempfile.mkdtemp(prefix='vc_dbg_')
    ll, err, so, p2 = runner.compile_tu(cases, work, native=False)
    if ll is None: print(err[:3000]); sys.exit(1)
    mod = runner.load_module(ll); runner.resolve_symbols(mod, cases)
    pr = solve.Prover(quick_ms=quick_ms, secs=secs)
    t = time.time()
    run = contract.symbolic(mod, c, libs if libs_on else [], pr, inline=not libs_on)
    print('symex %.1fs goals %d used %s' % (time.time() - t, len(run.goals), sorted(run.used)))
    return c, run, pr
def residue(h, e):
    eqs = [x for k in h for x in (k.args if k.op == 'and' else (k,)) if x.op == 'eq' and x.args[0].sort == 'R' and not any(y.op == 'ite' for y in tm.subterms([x]))]
    L = solve.Laurent(eqs); t = rsub(*e.args)
    L.prepare([t]); L.use_hyps(); L.reset(); p = L.reduce(L.lp(t))
    return L, p
def showp(L, p, n=30):
    for m, c in list(p.items())[:n]: print('  ', c, ' '.join('%s^%d' % (tm.show(L.atoms[a], 4), e) for a, e in m))
if __name__ == '__main__':
    c, run, pr = load(sys.argv[1], '-i' not in sys.argv[2:])
    bad = []
    for i, (lab, h, g, w) in enumerate(run.goals):
        t = time.time(); r = pr.prove(h, g)
        if r.status != 'proved' or time.time() - t > 1: print(i, lab, w, r.status, r.backend, '%.1f' % (time.time() - t), tm.show(g, 4)[:300])
        if r.status != 'proved': bad.append(i)
    print('bad', bad)
