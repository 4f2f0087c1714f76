"""Check driver: extract, verify, search counterexamples, write evidence."""
import os, sys, re, json, time, subprocess, tempfile, shutil, random, traceback, multiprocessing, importlib, hashlib, glob
from fractions import Fraction
from . import terms as tm
from .terms import *
from . import ir, symex, solve, contract, replay, lang
from .contract import REG, ORDER, Case
from .symex import ExecError, NeedInvariant
from .evalc import Ev

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = ['clang++', '-std=c++17', '-O0', '-S', '-emit-llvm', '-DNDEBUG', '-ffp-contract=off', '-fno-exceptions', '-fno-rtti', '-w']
GXX = ['g++', '-std=c++17', '-O1', '-DNDEBUG', '-fPIC', '-shared', '-w', '-ffp-contract=off']
HEADERS = ['abstract_line.h', 'approx.h', 'bbox.h', 'bezier_surface.h', 'constants.h', 'constexpr_util.h', 'convex_hull.h', 'distance.h',
           'forward.h', 'intersection.h', 'line.h', 'mat.h', 'mat_ext.h', 'plane.h', 'polygon.h', 'quat.h', 'ray.h', 'scalar.h', 'segment.h',
           'util.h', 'vec.h', 'vec_ext.h']

def load_contracts():
    sys.path.insert(0, VERIF)
    for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n.startswith('_'): continue
        importlib.import_module('contracts.' + n)

def tu_text(cases):
    s = '// generated on every run from /verif/contracts; includes the real headers of /repo\n'
    s += '#include <cstddef>\n#include <cstdint>\n#include <vector>\n#include <array>\n#include <tuple>\n#include <optional>\n#include <iterator>\n'
    for h in HEADERS:
        if os.path.exists(os.path.join(REPO, 'include/vecmath', h)): s += '#include <vecmath/%s>\n' % h
    for c in cases: s += c.wrapper()
    return s

class LazyFuncs(dict):
    """parse function bodies on demand"""
    def __init__(self, mod): self.mod = mod; self.text = {}
    def __contains__(self, k): return k in self.text
    def get(self, k, d=None):
        if k not in self.text: return d
        return self[k]
    def __missing__(self, k):
        f = ir.parse_func(self.mod, self.text[k])
        self[k] = f
        return f

def load_module(path):
    mod = ir.Module()
    mod.funcs = LazyFuncs(mod)
    lines = open(path).read().split('\n')
    i = 0; n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%'):
            p = ir.P(mod, ir.tokenize(ln)); name = ir.unq(p.next()); p.exp('='); p.exp('type'); mod.types[name] = p.type()
        elif ln.startswith('@'):
            try: ir.parse_global(mod, ln)
            except ir.IRError as e:
                m = re.match(r'@("[^"]*"|[-A-Za-z$._0-9]+)', ln)
                mod.globals.pop(m.group(1), None)
        elif ln.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln); mod.decls.add(ir.unq('@' + m.group(1)))
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}': j += 1
            m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
            mod.funcs.text[ir.unq('@' + m.group(1))] = lines[i:j]
            i = j
        i += 1
    return mod

def demangle(names):
    if not names: return {}
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))

def resolve_symbols(mod, cases):
    """mangled callee symbol for every case that names one"""
    calls = {}
    allc = set()
    for c in cases:
        if not c.callee or c.name not in mod.funcs: continue
        cs = []
        for ln in mod.funcs.text[c.name]:
            m = re.search(r'\bcall\b.*?@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
            if m: cs.append(ir.unq('@' + m.group(1)))
        calls[c.name] = cs; allc |= set(cs)
    dm = demangle(sorted(allc))
    for c in cases:
        c.symbol = None
        if c.name in calls:
            hit = {s for s in calls[c.name] if re.search(c.callee, head(dm[s]))}
            if len(hit) == 1 and calls[c.name].count(next(iter(hit))) == 1: c.symbol = next(iter(hit))
    return dm

def head(d):
    """demangled name without its parameter list"""
    depth = 0
    for i, ch in enumerate(d):
        if ch == '<' and not d[:i].endswith('operator') and not d[:i].endswith('operator<'): depth += 1
        elif ch == '>' and not d[:i].endswith('operator') and not d[:i].endswith('operator-') : depth = max(0, depth - 1)
        elif ch == '(' and depth == 0 and not d[:i].endswith('operator'): return d[:i]
    return d

class Cfg:
    pass

def compile_tu(cases, work, native=True):
    src = os.path.join(work, 'wrap.cpp')
    open(src, 'w').write(tu_text(cases))
    inc = ['-I' + os.path.join(REPO, 'include')]
    ll = os.path.join(work, 'wrap.ll'); so = os.path.join(work, 'wrap.so')
    p2 = subprocess.Popen(GXX + inc + [src, '-o', so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) if native else None
    p = subprocess.run(CLANG + inc + [src, '-o', ll], capture_output=True, text=True)
    if p.returncode:
        if p2: p2.kill(); p2.wait()
        return None, p.stderr, None, None
    return ll, '', so, p2

# ------------------------------------------------------------------ one case in a worker
def solve_case(cfg, name, avail, inline):
    c = REG[name]
    t0 = time.time()
    res = dict(name=name, status='ok', obligations=[], used=[], inlined=[], violation=None, error=None, solver_s=0.0, cover=None,
               callee=cfg.dm.get(c.symbol) if c.symbol else None, mode=c.mode, bounded=c.bounded)
    prover = solve.Prover(quick_ms=c.opts.get('quick_ms', cfg.quick_ms), secs=c.opts.get('secs', cfg.secs))
    libs = [REG[n] for n in avail]
    rng = random.Random('%s/%s' % (cfg.seed, name))
    try:
        run = contract.symbolic(cfg.mod, c, libs, prover, inline=inline)
    except (ExecError, ir.IRError, KeyError, RecursionError) as e:
        res['status'] = 'exec-error'
        res['error'] = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VC_DEBUG'): res['error'] += '\n' + traceback.format_exc()
        native_fallback(cfg, c, res, rng)
        res['wall'] = time.time() - t0
        return res
    res['used'] = sorted(run.used)
    res['inlined'] = sorted(n for n in run.ex.functions if n != name)
    res['instrs'] = run.ex.instrs
    # vacuity: the precondition must be satisfiable, and reachable by a concrete input
    cov = cover(cfg, c, run, rng, prover)
    res['cover'] = cov
    if cov is False:
        res['status'] = 'vacuous'; res['error'] = 'precondition unsatisfiable'
        res['wall'] = time.time() - t0
        return res
    failed = []
    for lab, hyps, g, where in run.goals:
        left = cfg.deadline - time.time()
        r = prover.prove(hyps, g, secs=max(2, min(prover.secs, int(left))))
        if r.status != 'proved':
            alt = run.alt.get((lab, g.id, tuple(y.id for y in hyps)))
            if alt:
                hyps, g = alt; r = prover.prove(hyps, g, secs=max(2, min(prover.secs, int(left))))
        res['obligations'].append((lab, where, r.status, r.backend, round(r.time, 3)))
        if r.status != 'proved':
            failed.append((lab, hyps, g, where, r))
            if len(failed) >= 3: break
    res['solver_s'] = prover.time
    if failed:
        res['status'] = 'fail'
        if run.used and not inline:
            res['retry_inline'] = True
            lab, hyps, g, where, r = failed[0]
            res['violation'] = dict(case=c.name, doc=c.doc, callee=res['callee'], body=c.body, obligation=lab, where=where, solver=r.status, backend=r.backend, detail=r.detail, goal=tm.show(g, 5)[:2000], failing_input=None)
            res['wall'] = time.time() - t0
            return res
        counterexample(cfg, c, run, failed, res, rng, prover)
    else:
        conform(cfg, c, run, res, rng)
    res['wall'] = time.time() - t0
    return res

def cover(cfg, c, run, rng, prover):
    if not run.req: return 'no precondition'
    for fs, is_ in replay.samples(c, run, rng, 300):
        env = replay.env_of(c, run, fs, is_)
        if all(Ev(env).ev(r) is True for r in run.req): return 'sampled'
    r = solve.z3_inproc(run.req, FALSE, 8000)
    if r.status == 'refuted': return 'solver'
    if r.status == 'proved': return False
    return 'unknown'

def conform(cfg, c, run, res, rng, n=4):
    """engine sanity: symbolic outputs evaluated on samples agree with the native code"""
    if run.ex.relational or not cfg.so_ready(): return
    S = []
    for fs, is_ in replay.samples(c, run, rng, 60 if c.gen else 200):
        env = replay.env_of(c, run, fs, is_)
        if c.mode == 'R':
            nf = [replay.to_native(c, x) for x in fs]
        else: nf = fs
        if all(Ev(env).ev(r) is True for r in run.req): S.append((fs, is_, nf, env))
        if len(S) >= n: break
    if not S: return
    st, outs = replay.native_many(cfg.so, c, [(s[2], s[1]) for s in S], 20)
    ok = bad = 0
    for s, (fo, io) in zip(S, outs):
        a = replay.agree(c, s[3], run, fo, io)
        if a is True: ok += 1
        elif a is False: bad += 1; res['conform_bad'] = repr((s[0], s[1], fo, io))[:500]
    res['conform'] = (ok, bad)

def fails_at(c, run, failed, env):
    """first failing obligation at env, exactly evaluated"""
    ev = Ev(env)
    for r in run.req:
        if ev.ev(r) is not True: return None
    for f in run.ex.facts:
        if ev.ev(f) is False: return None
    for lab, hyps, g, where, r in failed:
        if ev.ev(g) is False:
            # all hypotheses (path condition, facts) must hold
            if all(ev.ev(h) is True for h in hyps): return (lab, where)
    return None

def counterexample(cfg, c, run, failed, res, rng, prover):
    cands = []
    for lab, hyps, g, where, r in failed:
        m = r.model
        if m is None and r.status == 'refuted':
            r2 = solve.z3_inproc(hyps, g, 10000)
            m = r2.model
        if m is None and r.status == 'unknown':
            r2 = solve.z3_inproc(hyps, g, 5000, 'qfnra-nlsat') if c.mode == 'R' else None
            m = r2.model if r2 else None
        if m:
            fs = [m.get(v, Fraction(0) if c.mode == 'R' else 0) for v in run.fv]
            if c.mode == 'F': fs = [fbits2py(x, v.sort) for x, v in zip(fs, run.fv)]
            is_ = [m.get(v, 0) for v in run.iv]
            cands.append((fs, is_))
            if c.mode == 'R':
                # dyadic roundings of the model, to be exactly representable
                for den in (1, 4, 64, 1 << 20, 1 << 40):
                    cands.append(([Fraction(round(x * den), den) for x in fs], is_))
    consts = replay.harvest([g for _, _, g, _, _ in failed] + [x.v if isinstance(x, symex.RV) else x for x in run.fo])
    tlimit = time.time() + cfg.search_s
    def all_c():
        for x in cands: yield x
        while time.time() < tlimit:
            for x in replay.samples(c, run, rng, 200, consts):
                yield x
                if time.time() > tlimit: return
    so = cfg.so if cfg.wait_so() else None
    best = None
    nsearch = 0
    for fs, is_ in all_c():
        nsearch += 1
        env = replay.env_of(c, run, fs, is_)
        try: hit = fails_at(c, run, failed, env)
        except Exception: hit = None
        if not hit: continue
        nf = [replay.to_native(c, x) for x in fs]
        if so is None: break
        st, fo, io = replay.native_call(so, c, nf, is_)
        rec = dict(case=c.name, obligation=hit[0], where=hit[1], inputs=[repr(x) for x in nf], exact_inputs=[str(x) for x in fs],
                   int_inputs=[sgn(x, 64) for x in is_], native_status=st, native_outputs=[repr(x) for x in (fo or [])], native_int_outputs=io)
        if st != 'ok':
            rec['confirmed'] = True; best = rec; break
        ag = replay.agree(c, env, run, fo, io)
        if hit[0].startswith(('ensures', 'result')):
            bad = replay.native_goal(c, run, fs, is_, fo, io, None if c.mode == 'F' else (1e-9 if c.w == 64 else 1e-4))
            rec['native_violates'] = bad
            if bad or (ag and c.nout):
                rec['confirmed'] = True; best = rec; break
        else:
            # safety obligation: the exact evaluation reaches it; the native run is undefined behaviour
            rec['confirmed'] = True; best = rec; break
        if best is None: best = dict(rec, confirmed=False)
    if (best is None or not best.get('confirmed')) and so is not None:
        native_search(cfg, c, run, res, rng, cands, consts)
        if res.get('violation'): return
    lab, hyps, g, where, r = failed[0]
    res['violation'] = dict(case=c.name, doc=c.doc, callee=res['callee'], body=c.body, obligation=lab, where=where, solver=r.status, backend=r.backend, detail=r.detail,
                            goal=tm.show(g, 5)[:2000], searched=nsearch,
                            failing_input=best if best and best.get('confirmed') else None, unconfirmed=None if (best and best.get('confirmed')) else best)

def native_search(cfg, c, run, res, rng, cands=(), consts=()):
    """run the real code on many inputs, evaluate the contract on its outputs"""
    # exact-arithmetic contracts: only small, exactly representable inputs and a wide tolerance, so that rounding is not mistaken for a violation
    tol = None if c.mode == 'F' else (1e-6 if c.w == 64 else 5e-2)
    lim = 8 if c.w == 64 else 2
    def nice(fs): return c.mode == 'F' or all(abs(x) <= lim and (x * 4).denominator == 1 for x in map(Fraction, fs))
    tlimit = time.time() + cfg.search_s
    n = 0
    first = True
    while time.time() < tlimit:
        S = []
        src = list(cands) if first else []
        first = False
        for fs, is_ in src + list(replay.samples(c, run, rng, 300, consts)):
            if not c.gen and not nice(fs): continue
            nf = [replay.to_native(c, x) for x in fs]
            env = replay.env_of(c, run, fs, is_)
            try:
                rt = c.opts.get('reqtol')
                if rt: good = all(Ev(env, rt, run.fv).ev(r) is not False for r in run.req)
                else: good = all(Ev(env).ev(r) is True for r in run.req)
                if good: S.append((fs, is_, nf))
            except Exception: pass
        if not S: continue
        st, outs = replay.native_many(cfg.so, c, [(s[2], s[1]) for s in S], 20)
        n += len(outs)
        for s, (fo, io) in zip(S, outs):
            try: bad = replay.native_goal(c, run, s[0], s[1], fo, io, tol)
            except Exception: bad = []
            if bad:
                res['violation'] = dict(case=c.name, doc=c.doc, callee=res['callee'], body=c.body, obligation=bad[0], where=c.name, solver='native', backend='native search',
                    failing_input=dict(case=c.name, obligation=bad[0], inputs=[repr(x) for x in s[2]], exact_inputs=[str(x) for x in s[0]], int_inputs=[sgn(x, 64) for x in s[1]],
                                       native_outputs=[repr(x) for x in fo], native_int_outputs=io, confirmed=True))
                return
        if st != 'ok' and len(outs) < len(S):
            s = S[len(outs)]
            res['violation'] = dict(case=c.name, doc=c.doc, callee=res['callee'], body=c.body, obligation='terminates normally', where=c.name, solver='native', backend='native search',
                failing_input=dict(case=c.name, obligation='terminates normally: ' + st, inputs=[repr(x) for x in s[2]], int_inputs=[sgn(x, 64) for x in s[1]], confirmed=True))
            return
    res['native_searched'] = n

class _P: pass

def native_fallback(cfg, c, res, rng):
    """symbolic execution not possible: search natively only"""
    run = _P()
    fv, iv, fcell, icell, fspec, hyps = contract.make_inputs(c)
    run.fv = fv; run.iv = iv
    run.p = c.build(c.params, fspec, icell)
    run.req = hyps + [B(x) for x in contract._lst(c.req(run.p) if c.req else None)]
    if cfg.wait_so():
        native_search(cfg, c, run, res, rng)
    if not res.get('violation'):
        res['violation'] = dict(case=c.name, doc=c.doc, callee=res['callee'], body=c.body, obligation='obligations could not be generated', where=c.name, solver='none', detail=res['error'], failing_input=None)

# ------------------------------------------------------------------ scheduling
def run_tasks(cfg, tasks, limit, stop=None):
    """tasks: [(name, avail, inline)] -> {name: res}"""
    out = {}
    pend = list(tasks)
    running = {}
    while pend or running:
        while pend and len(running) < cfg.jobs:
            t = pend.pop(0)
            r, w = multiprocessing.Pipe(False)
            p = multiprocessing.Process(target=_worker, args=(cfg, t, w))
            p.start(); w.close()
            running[t[0]] = (p, r, time.time())
        done = []
        ready = multiprocessing.connection.wait([x[1] for x in running.values()], timeout=0.5)
        for n, (p, r, t0) in running.items():
            if r in ready:
                try: out[n] = r.recv()
                except EOFError:
                    out[n] = dict(name=n, status='exec-error', error='worker died', obligations=[], used=[], inlined=[], violation=dict(case=n, obligation='obligations could not be generated', where=n, detail='worker died', failing_input=None), solver_s=0, wall=time.time() - t0, callee=None, cover=None, mode=REG[n].mode, bounded=REG[n].bounded)
                p.join(); done.append(n)
            elif time.time() - t0 > limit:
                kill_tree(p.pid); p.join()
                out[n] = dict(name=n, status='timeout', error='time limit', obligations=[], used=[], inlined=[], violation=dict(case=n, obligation='time limit', where=n, detail='time limit of %d s' % limit, failing_input=None), solver_s=0, wall=limit, callee=None, cover=None, mode=REG[n].mode, bounded=REG[n].bounded)
                done.append(n)
        for n in done: del running[n]
        if stop and any(stop(out[n]) for n in done):
            for n, (p, r, t0) in running.items(): kill_tree(p.pid); p.join()
            break
        if time.time() > cfg.deadline + 120 and (pend or running):
            for n, (p, r, t0) in running.items(): kill_tree(p.pid); p.join()
            cfg.unfinished += [t[0] for t in pend] + list(running)
            break
    return out

def kill_tree(pid):
    try:
        kids = subprocess.run(['pgrep', '-P', str(pid)], capture_output=True, text=True).stdout.split()
        for k in kids: kill_tree(int(k))
    except Exception: pass
    try: os.kill(pid, 9)
    except OSError: pass

def _worker(cfg, t, w):
    try:
        r = solve_case(cfg, *t)
    except BaseException as e:
        n = t[0]
        r = dict(name=n, status='exec-error', error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()), obligations=[], used=[], inlined=[], violation=dict(case=n, obligation='obligations could not be generated', where=n, detail='%s: %s' % (type(e).__name__, e), failing_input=None), solver_s=0, wall=0, callee=None, cover=None, mode=REG[n].mode, bounded=REG[n].bounded)
    w.send(r); w.close()

def props_of(c):
    return c.prop if isinstance(c.prop, (list, tuple)) else [c.prop]

def main(argv):
    import multiprocessing.connection
    t0 = time.time()
    pid = argv[0]
    only = [a[7:] for a in argv[1:] if a.startswith('--only=')]
    verbose = '-v' in argv
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    load_contracts()
    own = [REG[n] for n in ORDER if pid in props_of(REG[n]) or pid == 'ALL']
    if tier == 'quick': own = [c for c in own if not c.opts.get('thorough_only')]
    if only: own = [c for c in own if any(re.fullmatch(o, c.name) for o in only)]
    if not own:
        print('no contracts for', pid); return 2
    libs = [REG[n] for n in ORDER if REG[n].lib]
    cases = list({c.name: c for c in own + libs}.values())
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try:
        return check(pid, own, libs, cases, work, tier, seed, t0, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check(pid, own, libs, cases, work, tier, seed, t0, verbose):
    cfg = Cfg()
    cfg.seed = seed; cfg.tier = tier
    cfg.jobs = int(os.environ.get('VC_JOBS', '8'))
    cfg.quick_ms = 3000 if tier == 'quick' else 10000
    cfg.secs = 40 if tier == 'quick' else 300
    cfg.search_s = 20 if tier == 'quick' else 60
    cfg.deadline = t0 + (780 if tier == 'quick' else 7200)
    ll, err, so, sop = compile_tu(cases, work)
    dropped = []
    if ll is None:
        # a library contract may not compile any more: retry with the property's own contracts only
        ll, err2, so, sop = compile_tu(own, work)
        if ll is None:
            sys.stderr.write(err2[:4000] + '\n')
            print('ERROR: the wrappers for %s do not compile against %s' % (pid, REPO))
            return 2
        libs = [c for c in libs if c in own]; cases = own
    cfg.so = so; cfg.sop = sop
    cfg.mod = load_module(ll)
    cfg.dm = resolve_symbols(cfg.mod, cases)
    def wait_so():
        if cfg.sop_done is None:
            t = time.time()
            while time.time() - t < 180:
                if os.path.exists(cfg.so + '.ok'): cfg.sop_done = True; break
                if os.path.exists(cfg.so + '.bad'): cfg.sop_done = False; break
                time.sleep(0.1)
        return bool(cfg.sop_done)
    cfg.sop_done = None
    cfg.wait_so = wait_so
    cfg.so_ready = wait_so
    import threading
    def waiter():
        o, _ = sop.communicate()
        if sop.returncode == 0: open(so + '.ok', 'w').close()
        else:
            open(so + '.bad', 'w').write(o or '')
    th = threading.Thread(target=waiter, daemon=True); th.start()
    avail = [c.name for c in libs if c.symbol]
    sym = {c.symbol: c.name for c in libs if c.symbol}
    results = {}
    bad = set()
    limit = 400 if tier == 'quick' else 3000
    todo = [c.name for c in sorted(own, key=lambda c: -c.opts.get('weight', 1))]
    wave = 0
    inlined_retry = set(); modular = {}
    ownset = {c.name for c in own}
    cfg.unfinished = []; cfg.stopped = False
    def stop(r):
        """the real code was shown to fail: the remaining obligations are not worth waiting for"""
        v = r.get('violation')
        if r['name'] in ownset and v and v.get('failing_input') and not cfg.all_cases: cfg.stopped = True
        return cfg.stopped
    cfg.all_cases = verbose or tier != 'quick'
    while todo and wave < 12:
        wave += 1
        tasks = [(n, [a for a in avail if a not in bad], n in inlined_retry) for n in todo]
        rs = run_tasks(cfg, tasks, limit, stop)
        nxt = []
        for n, r in rs.items():
            if r.get('retry_inline') and n not in inlined_retry:
                inlined_retry.add(n); nxt.append(n); modular[n] = r; continue
            if n in inlined_retry and r['status'] in ('exec-error', 'timeout') and not (r.get('violation') or {}).get('failing_input') and n in modular:
                # the callees cannot be inlined: the failure against their contracts stands
                r = modular[n]
            results[n] = r
            if r['status'] != 'ok' and n in avail and n not in bad: bad.add(n)
        if cfg.stopped or cfg.unfinished: break
        # library contracts used but not yet verified
        for n, r in list(results.items()):
            for u in r['used']:
                if u in REG and u not in results and u not in nxt: nxt.append(u)
        # dependents of failed library contracts are redone without them
        for n, r in list(results.items()):
            if any(u in bad and u != n for u in r['used']) and n not in nxt:
                del results[n]; nxt.append(n)
        todo = nxt
    ownnames = {c.name for c in own}
    return report(cfg, pid, own, ownnames, results, bad, tier, seed, t0, verbose)

def known_findings(pid):
    f = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)) if k.get('property') == pid and k.get('status') == 'open']

def report(cfg, pid, own, ownnames, results, bad, tier, seed, t0, verbose):
    viol = [r for n, r in results.items() if n in ownnames and r['status'] != 'ok']
    nob = sum(len(r['obligations']) for r in results.values())
    ndis = sum(1 for r in results.values() for o in r['obligations'] if o[2] == 'proved')
    if verbose:
        for n, r in sorted(results.items(), key=lambda x: x[1].get('wall', 0)):
            print('%-8s %-34s %5.1fs obl=%d used=%d conform=%s cover=%s %s' % (r['status'], n, r.get('wall', 0), len(r['obligations']), len(r['used']), r.get('conform'), r.get('cover'), (r.get('error') or '')[:3000] if r['status'] != 'ok' else ''))
            if r.get('conform') and r['conform'][1]: print('     conform mismatch', r.get('conform_bad'))
            if r['status'] != 'ok':
                for o in r['obligations']:
                    if o[2] != 'proved': print('     ', o)
                if r.get('violation'): print('     ', json.dumps(r['violation'], default=str)[:1800])
    backends = {}
    for r in results.values():
        for o in r['obligations']:
            if o[2] == 'proved': backends[o[3]] = backends.get(o[3], 0) + 1
    kf = known_findings(pid)
    lines = []
    rc = 0
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    nviol = 0
    for k in kf: lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r in viol:
        v = r.get('violation') or dict(case=r['name'], obligation=r.get('error') or 'failed', failing_input=None)
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.json' % (pid, r['name']))
        json.dump(dict(property=pid, violation=v, obligations=r['obligations'], error=r.get('error')), open(path, 'w'), indent=1, default=str)
        fi = v.get('failing_input')
        line = 'VIOLATION property=%s replay=%s' % (pid, path)
        if not fi: line += ' no-failing-input-found'
        lines.append(line)
        lines.append('  obligation %s of %s: %s' % (v.get('obligation'), r['name'], ('input %s ints %s -> %s %s' % (fi.get('inputs'), fi.get('int_inputs'), fi.get('native_outputs'), fi.get('native_int_outputs'))) if fi else (v.get('detail') or v.get('solver'))))
        nviol += 1; rc = 1
    # a violation with a failing input is reported first, so that it is the line that counts
    lines.sort(key=lambda l: 0)
    if cfg.unfinished and rc == 0:
        print('ERROR: out of time with %d contracts unfinished: %s' % (len(cfg.unfinished), ' '.join(cfg.unfinished[:20]))); return 2
    if nob == 0 and rc == 0:
        print('ERROR: no obligations generated'); return 2
    funcs = sorted({r['callee'] for r in results.values() if r.get('callee')})
    own_funcs = [r.get('callee') or r['name'] for n, r in results.items()]
    inl = set()
    for r in results.values(): inl |= set(r['inlined'])
    dmi = demangle(sorted(inl)) if inl else {}
    vm_inl = sorted({dmi[x] for x in inl if 'vm::' in dmi[x]})
    bounded = sorted('%s: %s' % (r['name'], r['bounded']) for r in results.values() if r.get('bounded'))
    meta = PROPMETA.get(pid, {})
    ev = dict(property=pid, tier=tier, seed=seed, level=meta.get('level', 'proof'), wall_s=round(time.time() - t0, 2),
              violations=nviol,
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='bin/check %s' % pid,
                            trusted_base=TRUSTED, contracts=len(results), own_contracts=len(ownnames),
                            functions_under_contract=sorted({x for x in own_funcs if x}), functions_inlined=len(vm_inl), functions_inlined_list=vm_inl[:400],
                            backends=backends, solver_s=round(sum(r['solver_s'] for r in results.values()), 2),
                            bounded_stand_ins=bounded, failed_library_contracts=sorted(bad - ownnames),
                            vacuity=dict(preconditions=sum(1 for r in results.values() if r.get('cover') not in (None, 'no precondition')), covered=sum(1 for r in results.values() if r.get('cover') in ('sampled', 'solver'))),
                            native_conformance=dict(agree=sum((r.get('conform') or (0, 0))[0] for r in results.values()), disagree=sum((r.get('conform') or (0, 0))[1] for r in results.values()))),
              assumptions=ASSUMPTIONS + meta.get('assumptions', []),
              known_findings=[k['what'] for k in kf])
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    # definite violations (with failing inputs) first
    def key(i):
        l = lines[i]
        return i
    blocks = []
    for l in lines:
        if l.startswith('  ') and blocks: blocks[-1].append(l)
        else: blocks.append([l])
    blocks.sort(key=lambda b: (0 if b[0].startswith('KNOWN') else 2 if b[0].endswith('no-failing-input-found') else 1))
    if any(b[0].startswith('VIOLATION') and not b[0].endswith('no-failing-input-found') for b in blocks):
        # where the real code was shown to fail, the undecided companions are listed without their own alarm line
        nb = []
        for b in blocks:
            if b[0].endswith('no-failing-input-found'): nb.append(['  also undischarged: ' + b[0].split('replay=')[1].split()[0]] + b[1:])
            else: nb.append(b)
        blocks = nb
    for b in blocks: print('\n'.join(b))
    print('%s: %d contracts, %d/%d obligations discharged, %d violation(s), %.1fs' % (pid, len(results), ndis, nob, nviol, time.time() - t0))
    return rc

PROPMETA = {}
TRUSTED = ['clang 18 C++ front end (IR at -O0, no passes)', 'vc/ir.py parser and vc/symex.py executor (checked against native runs on samples every run)',
           'vc/solve.py rational-function normaliser', 'z3 5.3 / cvc5 1.1 / z3 4.8', 'contracts in /verif/contracts']
ASSUMPTIONS = ['R-mode obligations: floating-point arithmetic is treated as exact real arithmetic (no rounding, overflow, underflow, signed zero); literals whose nearest rational has a small denominator stand for that rational',
               'F-mode obligations: bit-precise IEEE-754 binary32/binary64, round-to-nearest-even; NaN payloads not distinguished',
               'libm sqrt/sin/cos/acos/cbrt are assumed to satisfy their mathematical contracts in R mode (sqrt is IEEE-exact in F mode)',
               'NDEBUG build (assertions disabled), operator new never fails']

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
