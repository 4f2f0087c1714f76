"""Contracts on function instances, and their verification."""
from .terms import *
from . import terms as tm
from . import ir, symex, solve, lang, evalc
from .symex import Exec, State, RV, Ptr, PtrSet, UNDEF, ExecError, NeedInvariant, Packed
from .lang import *
import re, time, random, traceback, math, os
from fractions import Fraction

REG = {}          # name -> Case
ORDER = []

class Case:
    def __init__(self, prop, name, params, outs, body, T='double', mode='R', req=None, ens=None, spec=None,
                 callee=None, lib=None, doc='', gen=None, opts=None, bounded=None, pre=''):
        self.prop = prop; self.name = name; self.body = body; self.T = T; self.mode = mode
        self.w = 64 if T == 'double' else 32
        self.params = [(p.split(':', 1)[0], kind(p.split(':', 1)[1])) for p in params.split()]
        self.outs = [(p.split(':', 1)[0], kind(p.split(':', 1)[1])) for p in outs.split()]
        self.req = req; self.ens = ens; self.spec = spec; self.callee = callee
        self.lib = (callee is not None and spec is not None) if lib is None else lib
        self.doc = doc; self.gen = gen; self.opts = opts or {}; self.bounded = bounded; self.pre = pre
        self.symbol = None
        self.nin = sum(k.nf for _, k in self.params); self.niin = sum(k.ni for _, k in self.params)
        self.nout = sum(k.nf for _, k in self.outs); self.niout = sum(k.ni for _, k in self.outs)
        if name in REG: raise ValueError('duplicate case ' + name)
        REG[name] = self; ORDER.append(name)
    def wrapper(self):
        s = self.pre + '\nextern "C" void %s(const %s* in, const long* iin, %s* out, long* iout) {\n  using T = %s; (void)in; (void)iin; (void)out; (void)iout;\n' % (self.name, self.T, self.T, self.T)
        f = i = 0
        for n, k in self.params:
            s += '  ' + k.unpack(n, f, i) + '\n'; f += k.nf; i += k.ni
        for n, k in self.outs:
            s += '  ' + k.decl(n) + '\n'
        s += '  ' + self.body + '\n'
        f = i = 0
        for n, k in self.outs:
            s += '  ' + k.pack(n, f, i) + '\n'; f += k.nf; i += k.ni
        return s + '}\n'
    # structured views
    def build(self, lst, fs, is_):
        r = Rec(); f = i = 0
        for n, k in lst:
            r[n] = k.build(fs[f:f + k.nf], is_[i:i + k.ni]); f += k.nf; i += k.ni
        return r
    def in_kinds(self):
        """[(KI kind)] for integer inputs in order"""
        out = []
        def walk(k):
            if isinstance(k, (KI, KB)): out.append(k)
            elif isinstance(k, KRec):
                for _, q in k.fields: walk(q)
            elif isinstance(k, KA):
                for _ in range(k.n): walk(k.k)
        for _, k in self.params: walk(k)
        return out

    def spec_flat(self, p):
        s = self.spec(p)
        if not isinstance(s, dict) or set(s) != {n for n, _ in self.outs}: s = Rec({self.outs[0][0]: s})
        fs = []; is_ = []
        for n, k in self.outs:
            a, b = k.flat(s[n]); fs += a; is_ += b
        return fs, is_

def case(*a, **k):
    return Case(*a, **k)

def lit_of(case, x):
    """exact value of a floating literal at the case's precision"""
    return Fraction(float(np.float32(x))) if case.T == 'float' else Fraction(float(x))

# ------------------------------------------------------------------ running a wrapper symbolically
class Run:
    pass

def make_inputs(c):
    """symbolic inputs: (scalars for the spec, exec cells, hyps, vars)"""
    hyps = []
    if c.mode == 'R':
        fv = [var('x%d' % i, 'R') for i in range(c.nin)]
        fcell = [RV(v) for v in fv]
        fspec = [Re(v) for v in fv]
    else:
        fv = [var('x%d' % i, 'F%d' % c.w) for i in range(c.nin)]
        fcell = list(fv)
        fspec = [Fl(v) for v in fv]
    iv = []; icell = []
    for j, k in enumerate(c.in_kinds()):
        v = var('n%d' % j, 'I64')
        iv.append(v)
        if k.lo is not None:
            t = I(k.hi, 64)
            for x in range(k.hi - 1, k.lo - 1, -1): t = Ite(icmp('eq', v, I(x, 64)), I(x, 64), t)
            icell.append(t)
            hyps.append(Or([icmp('eq', v, I(x, 64)) for x in range(k.lo, k.hi + 1)]))
        else: icell.append(v)
    return fv, iv, fcell, icell, fspec, hyps

def start(ex, c, fcell, icell):
    st = State()
    ex.cur = st
    fs = c.w // 8
    pin = ex.alloc(st, fs * c.nin, 'inputs'); piin = ex.alloc(st, 8 * c.niin, 'int-inputs')
    pout = ex.alloc(st, fs * c.nout, 'outputs'); piout = ex.alloc(st, 8 * c.niout, 'int-outputs')
    for i, v in enumerate(fcell): st.mem[pin.obj].cells[i * fs] = (fs, 'f', v)
    for i, v in enumerate(icell):
        st.mem[piin.obj].cells[i * 8] = (8, 'i', v.args[0] if isinstance(v, T) and v.op == 'c' else v)
    st.mem[pin.obj].const = True; st.mem[piin.obj].const = True
    return st, [pin, piin, pout, piout]

def finish(ex, c, st, ptrs):
    fs = c.w // 8
    o = st.mem[ptrs[2].obj]; io = st.mem[ptrs[3].obj]
    fo = []; iof = []
    for i in range(c.nout):
        cell = o.cells.get(i * fs)
        v = cell[2] if cell else UNDEF
        if v is UNDEF:
            if cell is None and any(z0 <= i * fs < z1 for z0, z1 in o.zr): v = ex.dom.zero(c.w)
            else: v = ex.concretise_undef(ir.Ty('f', c.w))
        fo.append(v)
    for i in range(c.niout):
        cell = io.cells.get(i * 8)
        v = cell[2] if cell else UNDEF
        if v is UNDEF: v = fresh('undef', 'I64')
        if isinstance(v, int): v = I(v, 64)
        if v.sort == 'B': v = Ite(v, I(1, 64), I(0, 64))
        iof.append(v)
    return fo, iof

def wrap_outs(c, fo, iof):
    fo = [Out(x) if c.mode == 'R' else Fl(x) for x in fo]
    return c.build(c.outs, fo, iof)

# ------------------------------------------------------------------ modular use of a contract
class Binding:
    """how the contract's parameters and results sit in the callee's IR-level signature"""
    pass

def bind(mod, c):
    """discover the calling-convention layout by running the wrapper around the callee symbolically"""
    ex = Exec(mod, c.mode)
    fv = [var('bind_x%d' % i, 'R' if c.mode == 'R' else 'F%d' % c.w) for i in range(c.nin)]
    iv = [var('bind_n%d' % i, 'I64') for i in range(c.niin)]
    fidx = {v: i for i, v in enumerate(fv)}; iidx = {v: i for i, v in enumerate(iv)}
    b = Binding()
    b.args = None
    b.count = 0
    def isin(v):
        if isinstance(v, RV): v = v.v if v.fin else None
        if isinstance(v, T) and v in fidx: return ('f', fidx[v])
        if isinstance(v, T) and v in iidx: return ('i', iidx[v])
        return None
    def handler(ex, st, ins, vals, args):
        b.count += 1
        if b.count > 1: return False
        amap = []
        f = mod.funcs[c.symbol]
        sret = None
        for k, ((ty, v, at), val) in enumerate(zip(args, vals)):
            if 'sret' in at:
                sret = at['sret']; amap.append(('sret',)); continue
            if ty.k == 'ptr':
                if not isinstance(val, Ptr): raise ExecError('bind')
                if val == symex.NULL: amap.append(('null',)); continue
                ob = st.mem.get(val.obj)
                if ob is None: raise ExecError('bind fn ptr')
                cells = []
                for o, cell in sorted(ob.cells.items()):
                    x = isin(cell[2])
                    if x: cells.append((o - val.off, cell[0], cell[1], x))
                    elif cell[2] is UNDEF: pass
                    elif isinstance(cell[2], (int, RV)) or (isinstance(cell[2], T) and cell[2].op == 'c'):
                        cells.append((o - val.off, cell[0], cell[1], ('const', cell[2])))
                    else: raise ExecError('bind: argument is not a plain input')
                amap.append(('ptr', cells))
            else:
                vs = val if isinstance(val, list) else [val]
                out = []
                for v in vs:
                    x = isin(v)
                    if x: out.append(x)
                    else: out.append(('const', v))
                amap.append(('val', out))
        b.args = amap
        # stub the result
        b.syms = {}
        def sym(ty, loc):
            if ty.k == 'f':
                v = ex.dom.inp('bind_r%d' % len(b.syms), ty.w)
                b.syms[(v.v if isinstance(v, RV) else v)] = (loc, ty)
                return v
            if ty.k == 'i':
                if ty.w == 1: v = var('bind_r%d' % len(b.syms), 'B')
                else: v = var('bind_r%d' % len(b.syms), 'I%d' % ty.w)
                b.syms[v] = (loc, ty)
                return v
            raise ExecError('bind: result kind')
        if sret is not None:
            k = [i for i, a in enumerate(amap) if a[0] == 'sret'][0]
            b.ret = 'sret'; b.sretk = k
            for off, ty in ex.flat(sret):
                ex.store(st, ex.padd(vals[k], off), ty, sym(ty, off))
        elif ins.ty.k == 'void':
            raise ExecError('bind: void')
        else:
            b.ret = 'val'
            fl = ex.flat(ins.ty)
            vs = [sym(ty, n) for n, (off, ty) in enumerate(fl)]
            agg = ex.res(ins.ty).k in ('struct', 'arr', 'vec')
            b.agg = agg; b.nret = len(vs)
            st.regs[ins.res] = (vs if agg else vs[0], ins.ty)
        return True
    ex.contracts[c.symbol] = handler
    st, ptrs = start(ex, c, [RV(v) if c.mode == 'R' else v for v in fv], iv)
    st2, _ = ex.call_function(st, c.name, ptrs, None)
    if st2 is None or b.count != 1: raise ExecError('bind: callee not called exactly once')
    fo, iof = finish(ex, c, st2, ptrs)
    b.fout = []; b.iout = []
    for v in fo:
        if isinstance(v, RV): v = v.v
        if v not in b.syms: raise ExecError('bind: output is not a plain result')
        b.fout.append(b.syms[v])
    for v in iof:
        b.iout.append(_unwrap(v, b.syms))
    seen = {loc for loc, _ in b.fout + b.iout}
    if any(loc not in seen and not (ty.k == 'i' and ty.w == 8 and b.ret == 'sret') for loc, ty in b.syms.values()):
        # unused result parts are not allowed (undescribed bytes of a returned object are padding: left undefined)
        raise ExecError('bind: result not fully described')
    covered = set()
    for a in b.args:
        if a[0] == 'ptr': covered |= {x[3] for x in a[1]}
        elif a[0] == 'val': covered |= set(x for x in a[1] if x[0] != 'const')
    need = {('f', i) for i in range(c.nin)} | {('i', i) for i in range(c.niin)}
    if not need <= covered: raise ExecError('bind: input not passed')
    return b

def _unwrap(v, syms):
    for s, (loc, ty) in syms.items():
        if v is s: return (loc, ty)
        if s.sort == 'B' and v is Ite(s, I(1, 64), I(0, 64)): return (loc, ty)
        if s.sort[0] == 'I':
            if v.op in ('isext', 'izext', 'itrunc') and v.args[0] is s: return (loc, ty)
            # bool returned as i8 / i1 tests
            fv = tm.free_vars([v])
            if len(fv) == 1 and fv[0] is s: return (loc, ty)
    raise ExecError('bind: integer output')

import os
TRACE = os.environ.get('VC_TRACE')
def make_handler(mod, c, cache):
    def handler(ex, st, ins, vals, args):
        if c.name not in cache:
            try: cache[c.name] = bind(mod, c)
            except (ExecError, KeyError, AttributeError) as e:
                cache[c.name] = None
                if TRACE: print('contract %s not usable: %s' % (c.name, e), flush=True)
        b = cache[c.name]
        if b is None: return False
        fin = [None] * c.nin; iin = [None] * c.niin
        for a, val, (ty, v, at) in zip(b.args, vals, args):
            if a[0] == 'sret': continue
            if a[0] == 'null':
                if val != symex.NULL: return False
                continue
            if a[0] == 'ptr':
                for off, size, k, x in a[1]:
                    cty = ir.Ty('f', size * 8) if k == 'f' else ir.Ty('i', size * 8) if k == 'i' else ir.Ty('ptr')
                    got = ex.load(st, ex.padd(val, off), cty)
                    if got is UNDEF or isinstance(got, Packed): return False
                    if x[0] == 'f': fin[x[1]] = got
                    elif x[0] == 'i': iin[x[1]] = got
                    elif not _samec(got, x[1]): return False
            else:
                vs = val if isinstance(val, list) else [val]
                for got, x in zip(vs, a[1]):
                    if got is UNDEF: return False
                    if x[0] == 'f': fin[x[1]] = got
                    elif x[0] == 'i': iin[x[1]] = got
                    elif not _samec(got, x[1]): return False
        if c.mode == 'R':
            if not all(isinstance(v, RV) and v.fin for v in fin):
                if TRACE: print('contract %s not applicable: argument not known to be finite: %s' % (c.name, [(tm.show(v.nan, 4), tm.show(v.inf, 4)) for v in fin if not v.fin][:2]), flush=True)
                return False
            fs = [Re(v.v) for v in fin]
        else: fs = [Fl(v) for v in fin]
        is_ = []
        for v in iin:
            if isinstance(v, int): v = I(v, 64)
            if v.sort == 'B': v = Ite(v, I(1, 64), I(0, 64))
            is_.append(v)
        p = c.build(c.params, fs, is_)
        if c.req:
            for r in _lst(c.req(p)):
                if not ex.provably(B(r)):
                    if TRACE: print('contract %s not applicable: precondition %s' % (c.name, tm.show(B(r), 4)), flush=True)
                    return False
        if c.spec is None:
            # relational contract: the result is any value that satisfies the postcondition
            if c.nout and c.mode != 'R': return False
            ex.relational = True
            # (the same value for the same arguments: contracts are on functions of their arguments only)
            mk = (c.name, tuple(x.t.id for x in fs), tuple(x.id for x in is_))
            if mk not in ex.relmemo:
                ex.relmemo[mk] = ([RV(fresh('res_' + c.name, 'R')) if c.opts.get('finite') else RV(fresh('res_' + c.name, 'R'), fresh('nan', 'B'), fresh('inf', 'B')) for _ in range(c.nout)], [fresh('res_' + c.name, 'I64') for _ in range(c.niout)])
            rel, io = ex.relmemo[mk]; io = list(io)
            post = [g for _, g in goals_of(c, p, wrap_outs(c, rel, io))]
            ex.facts.append(Implies(st.pc, And(post)))
            if ex.script is not None and ex.forkres:
                # one run per value of a result with a small range (the range is an obligation of the contract)
                j = 0
                for n, k in c.outs:
                    if isinstance(k, KI) and k.lo is not None: io[j] = I(ex.fork_value(io[j], [(None, v & (1 << 64) - 1) for v in range(k.lo, k.hi + 1)]), 64)
                    j += k.ni
            so = rel
            ex.relcalls.append((c.name, p, wrap_outs(c, rel, io)))
            if 'numif' in c.opts and io and io[0].op == 'c': so = [RV(x.v) if io[0].args[0] >= m else RV(R0, TRUE) for x, m in zip(rel, c.opts['numif'])]
        else: so, io = c.spec_flat(p)
        out = {}
        for (loc, ty), x in zip(b.fout, so):
            if isinstance(x, RV): out[loc] = (x, ty)
            elif c.mode == 'R':
                x = Re.of(x); out[loc] = (RV(x.t, x.nan), ty)
            else: out[loc] = (x.t if isinstance(x, Fl) else F(x, 'F%d' % c.w), ty)
        for (loc, ty), x in zip(b.iout, io):
            x = B(x) if isinstance(x, bool) else x
            if isinstance(x, int): v = x & ((1 << ty.w) - 1)
            elif x.sort == 'B': v = x if ty.w == 1 else Ite(x, I(1, ty.w), I(0, ty.w))
            else:
                v = icast('trunc', x, ty.w) if IW(x.sort) > ty.w else x
                if ty.w == 1: return False
            if isinstance(v, T) and v.op == 'c': v = int(v.args[0])
            out[loc] = (v, ty)
        if b.ret == 'sret':
            for loc, (v, ty) in out.items(): ex.store(st, ex.padd(vals[b.sretk], loc), ty, v)
        else:
            vs = [out[i][0] for i in range(b.nret)]
            st.regs[ins.res] = (vs if b.agg else vs[0], ins.ty)
        ex.used_contracts.add(c.name)
        return True
    return handler

def _samec(a, b):
    if isinstance(a, RV) and isinstance(b, RV): return a == b
    if isinstance(a, T) or isinstance(b, T): return a is b
    return a == b

def _lst(x):
    if x is None: return []
    if isinstance(x, (list, tuple)): return list(x)
    return [x]

# ------------------------------------------------------------------ verification of one case
def goals_of(c, p, o):
    g = []
    if c.spec:
        s = c.spec(p)
        if not isinstance(s, dict) or set(s) != {n for n, _ in c.outs}: s = Rec({c.outs[0][0]: s})
        for n, k in c.outs: g.append(('result-equals-spec:' + n, eq(o[n], s[n])))
    if c.opts.get('finite'): g.append(('finite', And([fin(o[n]) for n, k in c.outs if k.nf])))
    if 'numif' in c.opts:
        # the first result counts the numbers among the others, which are NaN beyond
        (n0, k0), rest = c.outs[0], c.outs[1:]
        for (n, _), m in zip(rest, c.opts['numif']): g.append(('number:' + n, Or([And(icmp('eq', o[n0], I(x, 64)), o[n].fin if x >= m else o[n].nan) for x in range(k0.lo, k0.hi + 1)])))
    for n, k in c.outs:
        if isinstance(k, KI) and k.lo is not None: g.append(('range:' + n, Or([icmp('eq', o[n], I(x, 64)) for x in range(k.lo, k.hi + 1)])))
    if c.ens:
        e = c.ens(p, o)
        if isinstance(e, dict): e = list(e.items())
        if not isinstance(e, (list, tuple)): e = [('ensures', e)]
        for i, x in enumerate(e):
            if isinstance(x, tuple): g.append(('ensures:' + x[0], B(x[1])))
            else: g.append(('ensures#%d' % i, B(x)))
    return g

def symbolic(mod, c, libs, prover, inline=False, bindcache=None):
    """returns a Run with goals [(label, hyps, cond, where)]"""
    cache = {} if bindcache is None else bindcache
    if not (c.opts.get('paths') or c.opts.get('enum') or c.opts.get('forkidx')):
        r, pc = symbolic1(mod, c, libs, prover, inline, cache)
        return r
    # one run per choice of the finite integer inputs and, in path mode, per branch decision
    kinds = c.in_kinds()
    import itertools
    rng = [range(k.lo, k.hi + 1) if k.lo is not None and c.opts.get('enum') else [None] for k in kinds]
    runs = []
    for choice in itertools.product(*rng):
        script = [] if c.opts.get('paths') or c.opts.get('forkidx') else None
        n = 0; shared = {}; mark = top = tm._fresh[0]
        while True:
            # each run names its variables alike, so runs with a common prefix build the same terms
            n += 1; top = max(top, tm._fresh[0])
            if script is not None: tm._fresh[0] = mark
            if n > c.opts.get('maxpaths', 3000): raise NeedInvariant('too many paths in ' + c.name)
            r, pc = symbolic1(mod, c, libs, prover, inline, cache, choice, script, shared)
            runs.append((r, pc))
            if script is None: break
            while script and script[-1][0] + 1 >= script[-1][1]: script.pop()
            if not script: break
            script[-1][0] += 1
        tm._fresh[0] = max(top, tm._fresh[0])
    r = runs[-1][0]
    fo, iof = r.fo, r.iof
    goals = []
    for q, pc in reversed(runs[:-1]):
        fo = [RV(Ite(pc, x.v, y.v), Ite(pc, x.nan, y.nan), Ite(pc, x.inf, y.inf)) if isinstance(x, RV) else Ite(pc, x, y) for x, y in zip(q.fo, fo)]
        iof = [Ite(pc, x, y) for x, y in zip(q.iof, iof)]
        r.used |= q.used
        for k in q.ex.functions: r.ex.functions[k] = r.ex.functions.get(k, 0) + q.ex.functions[k]
    r.goals = [g for q, pc in runs for g in q.goals]
    for q, pc in runs: r.alt.update(q.alt)
    seen = set(); gs = []
    for lab, h, g, w in r.goals:
        k = (lab, tuple(sorted({x.id for x in h})), g.id)
        if k in seen: continue
        seen.add(k); gs.append((lab, h, g, w))
    r.goals = gs
    r.fo, r.iof = fo, iof
    r.paths = len(runs)
    return r

def lemma_of(x, hyps):
    """(formula to assume, formula to prove, hypotheses): a lemma with arguments is proved once for all values of them"""
    if isinstance(x, tuple) and len(x) == 3:
        name, fn, args = x
        vs = [Re(var('lemma_%s_%d' % (name, i), 'R')) for i in range(len(args))]
        return B(fn(*args)), B(fn(*vs)), []
    if isinstance(x, tuple) and len(x) == 4:
        # generalised lemma: each listed term is replaced by a fresh variable in the goal and the hypotheses, and hypotheses
        # that still mention other inputs are dropped, so what is proved implies the lemma
        name, fm, _, ts = x
        ts = [Re.of(t).t for t in ts]; plain = [t for t in ts if t.op == 'var']
        m = {t: var('gen_%s_%d' % (name, i), 'R') for i, t in enumerate(ts) if t.op not in ('var', 'c')}
        g = B(fm); flat = [y for h in hyps for y in (h.args if h.op == 'and' else (h,))]
        sub = tm.subst([g] + flat, m)
        keep = {v.id for v in tm.free_vars([sub[0]])} | {v.id for v in m.values()} | {v.id for v in plain}
        return g, sub[0], [h for h in sub[1:] if all(v.id in keep or not re.fullmatch(r'x\d+', v.args[0]) for v in tm.free_vars([h]))]
    x = B(x[1] if isinstance(x, tuple) else x)
    return x, x, hyps

def symbolic1(mod, c, libs, prover, inline, cache, choice=None, script=None, shared=None):
    r = Run()
    ex = Exec(mod, c.mode, prover=prover.quick)
    ex.maxsym = c.opts.get('maxsym', 40)
    ex.prune = c.opts.get('prune', script is not None)
    if script is not None:
        ex.forkidx = bool(c.opts.get('forkidx')); ex.forkres = bool(c.opts.get('forkres'))
        ex.shared = shared; ex.script = script; ex.maxbranch = c.opts.get('maxbranch', 200)
    ex.canon_args = c.opts.get('canon', False)
    if 'literals' in c.opts:
        ex.literal_map = c.opts['literals'](c)
    if not inline:
        for d in libs:
            if d.symbol and d.mode == c.mode and d.lib and c.prop in d.opts.get('only', (c.prop,)) and not ('literals' in c.opts and d.opts.get('nolit')):
                ex.contracts[d.symbol] = make_handler(mod, d, cache)
    if c.symbol:
        ex.mod_skip = lambda name: name == c.symbol and len(ex.stack) == 1
        if not c.opts.get('recursive'):
            # the contract under proof may be assumed for inner calls only in declared recursive functions
            ex.contracts.pop(c.symbol, None)
    fv, iv, fcell, icell, fspec, hyps = make_inputs(c)
    r.allhyps = list(hyps)
    chc = []
    if choice:
        for j, x in enumerate(choice):
            if x is not None:
                icell[j] = I(x, 64); chc.append(icmp('eq', iv[j], I(x, 64)))
    p = c.build(c.params, fspec, icell)
    req = [B(x) for x in _lst(c.req(p) if c.req else None)]
    ex.hyps = ([] if chc else hyps) + chc + req
    if 'setup' in c.opts: c.opts['setup'](ex, c)
    r.goals = []; r.alt = {}   # alt: the lemma as stated, where a generalisation of it is proved first
    if c.opts.get('prelemmas'):
        # each lemma about the inputs is an obligation of its own, and available to the ones after it
        for n, x in enumerate(c.opts['prelemmas'](p)):
            x, g, h = lemma_of(x, list(ex.hyps))
            r.goals.append(('lemma#%d' % n, h, g, c.name))
            if g is not x: r.alt[('lemma#%d' % n, g.id, tuple(y.id for y in h))] = (list(ex.hyps), x)
            ex.hyps = ex.hyps + [x]
    st, ptrs = start(ex, c, fcell, icell)
    st2, _ = ex.call_function(st, c.name, ptrs, None)
    if st2 is None:
        fo = [ex.concretise_undef(ir.Ty('f', c.w)) for _ in range(c.nout)]
        iof = [fresh('undef', 'I64') for _ in range(c.niout)]
        pc = FALSE
    else:
        fo, iof = finish(ex, c, st2, ptrs)
        pc = st2.pc
    o = wrap_outs(c, fo, iof)
    base = ex.hyps + ex.facts; here = base + ([pc] if pc is not TRUE else [])
    o['_run'] = ex
    if c.opts.get('lemmas'):
        for n, x in enumerate(c.opts['lemmas'](p, o)):
            x, g, h = lemma_of(x, here)
            r.goals.append(('result-lemma#%d' % n, h, g, c.name))
            if g is not x: r.alt[('result-lemma#%d' % n, g.id, tuple(y.id for y in h))] = (here, x)
            base = base + [Implies(pc, x)]; here = here + [x]
    for lab, g in goals_of(c, p, o):
        r.goals.append((lab, here, g, c.name))
    for ob in ex.oblig:
        if c.opts.get('ignore') and any(ob.kind.startswith(x) for x in c.opts['ignore']): continue
        r.goals.append((ob.kind, base + [ob.pc], ob.cond, ob.where))
    r.ex = ex; r.fv = fv; r.iv = iv; r.fo = fo; r.iof = iof
    if chc:
        p0 = c.build(c.params, fspec, make_inputs(c)[3])
        r.req = hyps + [B(x) for x in _lst(c.req(p0) if c.req else None)]
        r.p = p0
    else:
        r.req = hyps + req; r.p = p
    r.o = o
    r.used = set(ex.used_contracts)
    return r, And(chc + ex.choices + [pc])
