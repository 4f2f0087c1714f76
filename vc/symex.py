"""Symbolic executor / verification-condition generator over the parsed IR.

Complete for loops whose trip count is fixed by the code (they are unrolled to the
end, an unfinished loop is an error, never silently cut).  Branches are merged at
immediate postdominators, so results are single ite-terms covering all paths.
"""
from .terms import *
from . import terms as tm
from .ir import Ty, IRError, EXIT
import sys, math, struct
sys.setrecursionlimit(200000)

class ExecError(Exception):
    pass
class NeedInvariant(ExecError):
    pass

class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __eq__(self, o): return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off
    def __hash__(self): return hash((self.obj, self.off))
    def __repr__(self): return 'Ptr(%s+%s)' % (self.obj, self.off)
NULL = Ptr(0, 0)

class PtrSet:
    """guarded alternatives [(guard, Ptr)], guards exclusive and exhaustive under pc"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'PtrSet(%r)' % (self.alts,)
    def __eq__(self, o): return isinstance(o, PtrSet) and self.alts == o.alts
    def __hash__(self): return hash(tuple(self.alts))

class IntPtr:
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def __eq__(self, o): return isinstance(o, IntPtr) and self.p == o.p
    def __hash__(self): return hash(('ip', self.p))

class Packed:
    """an integer register holding the raw bytes of several typed cells"""
    __slots__ = ('cells', 'size')
    def __init__(self, cells, size): self.cells = cells; self.size = size  # [(reloff, size, kind, val)]
    def __eq__(self, o): return isinstance(o, Packed) and self.cells == o.cells
    def __hash__(self): return hash(tuple(self.cells))

def alts_of(p):
    if isinstance(p, Ptr): return [(TRUE, p)]
    if isinstance(p, PtrSet): return p.alts
    raise ExecError('not a pointer: %r' % (p,))

def mkptr(alts):
    d = {}
    for g, p in alts:
        if g is FALSE: continue
        d.setdefault((p.obj, p.off), []).append(g)
    if len(d) == 1:
        (o, f), = d.keys()
        return Ptr(o, f)
    return PtrSet([(Or(gs), Ptr(o, f)) for (o, f), gs in d.items()])

# ---------------------------------------------------------------- R-mode values
class RV:
    """extended real: finite value v unless nan / inf flag holds (sign of inf = sign of v)"""
    __slots__ = ('v', 'nan', 'inf')
    def __init__(self, v, nan=FALSE, inf=FALSE):
        self.v = v; self.nan = nan; self.inf = inf
    @property
    def fin(self): return self.nan is FALSE and self.inf is FALSE
    def __eq__(self, o): return isinstance(o, RV) and self.v is o.v and self.nan is o.nan and self.inf is o.inf
    def __hash__(self): return hash((self.v.id, self.nan.id, self.inf.id))
    def __repr__(self): return 'RV(%r)' % self.v if self.fin else 'RV(%r,nan=%r,inf=%r)' % (self.v, self.nan, self.inf)

class Obj:
    __slots__ = ('size', 'cells', 'zr', 'owner', 'name', 'const', 'freed', 'arr')
    def __init__(self, size, name, owner):
        self.size = size; self.cells = {}; self.zr = []; self.owner = owner; self.name = name
        self.const = False; self.freed = False; self.arr = None
    def clone(self, owner):
        o = Obj(self.size, self.name, owner)
        o.cells = dict(self.cells); o.zr = list(self.zr); o.const = self.const; o.freed = self.freed; o.arr = self.arr
        return o

_sid = [0]
class State:
    __slots__ = ('mem', 'regs', 'pc', 'id', 'prev', 'ret', 'depth')
    def __init__(self):
        _sid[0] += 1; self.id = _sid[0]
        self.mem = {}; self.regs = {}; self.pc = TRUE; self.prev = None; self.ret = None
    def fork(self, cond):
        s = State()
        s.mem = dict(self.mem)
        s.regs = dict(self.regs)
        s.pc = And(self.pc, cond); s.prev = self.prev; s.ret = self.ret
        # both become non-owners of shared objects
        _sid[0] += 1
        self.id = _sid[0]
        return s
    def w(self, o):
        ob = self.mem[o]
        if ob.owner != self.id:
            ob = ob.clone(self.id); self.mem[o] = ob
        return ob

class Obligation:
    __slots__ = ('kind', 'pc', 'cond', 'where', 'name')
    def __init__(self, kind, pc, cond, where):
        self.kind = kind; self.pc = pc; self.cond = cond; self.where = where

MATH1 = {'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'llvm.sqrt.f64': 'sqrt', 'llvm.sqrt.f32': 'sqrt',
         'sin': 'sin', 'sinf': 'sin', 'llvm.sin.f64': 'sin', 'llvm.sin.f32': 'sin',
         'cos': 'cos', 'cosf': 'cos', 'llvm.cos.f64': 'cos', 'llvm.cos.f32': 'cos', 'tan': 'tan', 'tanf': 'tan',
         'acos': 'acos', 'acosf': 'acos', 'asin': 'asin', 'asinf': 'asin', 'atan': 'atan', 'atanf': 'atan',
         'cbrt': 'cbrt', 'cbrtf': 'cbrt', 'exp': 'exp', 'log': 'log',
         'fabs': 'fabs', 'fabsf': 'fabs', 'llvm.fabs.f64': 'fabs', 'llvm.fabs.f32': 'fabs',
         'floor': 'floor', 'floorf': 'floor', 'llvm.floor.f64': 'floor', 'llvm.floor.f32': 'floor',
         'ceil': 'ceil', 'ceilf': 'ceil', 'llvm.ceil.f64': 'ceil', 'llvm.ceil.f32': 'ceil',
         'trunc': 'trunc', 'truncf': 'trunc', 'llvm.trunc.f64': 'trunc', 'llvm.trunc.f32': 'trunc',
         'round': 'round', 'roundf': 'round', 'llvm.round.f64': 'round', 'llvm.round.f32': 'round'}
MATH2 = {'pow': 'pow', 'powf': 'pow', 'llvm.pow.f64': 'pow', 'llvm.pow.f32': 'pow', 'atan2': 'atan2', 'atan2f': 'atan2', 'nextafter': 'nextafter', 'nextafterf': 'nextafter',
         'fmod': 'fmod', 'fmodf': 'fmod', 'fmin': 'fmin', 'fmax': 'fmax', 'fminf': 'fmin', 'fmaxf': 'fmax',
         'llvm.minnum.f64': 'fmin', 'llvm.minnum.f32': 'fmin', 'llvm.maxnum.f64': 'fmax', 'llvm.maxnum.f32': 'fmax',
         'llvm.copysign.f64': 'copysign', 'llvm.copysign.f32': 'copysign'}
TRAPS = {'_ZSt20__throw_length_errorPKc', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt17__throw_bad_allocv',
         '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc', '_ZSt25__throw_bad_function_callv',
         '_ZSt27__throw_bad_optional_accessv', 'abort', '__cxa_pure_virtual', 'llvm.trap', '__assert_fail', '__glibcxx_assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_',
         '_ZSt19__throw_logic_errorPKc', '_ZSt9terminatev', '_ZSt26__throw_bad_variant_accessPKc', '_ZSt26__throw_bad_variant_accessb'}

def nearest_rational(x, single=False, maxden=1080):
    """idealise a literal: the unique small rational whose nearest double (or float) is x"""
    f = Fraction(x)
    if f.denominator <= (1 << 20): return f
    c = f.limit_denominator(maxden)
    if c.denominator > 1:
        if float(c) == x: return c
        if single and float(np.float32(float(c))) == x: return c
    # short decimals (tolerances such as 0.00001)
    d = repr(float(str(np.float32(x)))) if single else repr(x)
    c = Fraction(d)
    if len(d.split('e')[0].replace('.', '').replace('-', '').strip('0')) <= 3 and abs(c) <= 1: return c
    return f

class DomR:
    name = 'R'
    def __init__(self, ex): self.ex = ex
    def const(self, bits, w):
        x = struct.unpack('<d', struct.pack('<Q', bits))[0]
        if x != x: return RV(R0, nan=TRUE)
        if math.isinf(x): return RV(R(1 if x > 0 else -1), inf=TRUE)
        return RV(self.ex.literal(x, w == 32))
    def undef(self): return RV(fresh('undef', 'R'))
    def inp(self, name, w): return RV(var(name, 'R'))
    def cn(self, t): return tm.canonq(t) if self.ex.canon_args == 'all' else t
    def neg(self, a): return RV(rneg(a.v), a.nan, a.inf)
    def fabs(self, a): return RV(rabs(a.v), a.nan, a.inf)
    def add(self, a, b):
        if a.fin and b.fin: return RV(self.cn(radd(a.v, b.v)))
        nan = Or(a.nan, b.nan, And(a.inf, b.inf, Xor(rlt(a.v, R0), rlt(b.v, R0))))
        inf = And(Not(nan), Or(a.inf, b.inf))
        v = Ite(a.inf, a.v, Ite(b.inf, b.v, radd(a.v, b.v)))
        return RV(v, nan, inf)
    def sub(self, a, b): return self.add(a, self.neg(b))
    def mul(self, a, b):
        if a.fin and b.fin: return RV(self.cn(rmul(a.v, b.v)))
        nan = Or(a.nan, b.nan, And(a.inf, Not(b.inf), req(b.v, R0)), And(b.inf, Not(a.inf), req(a.v, R0)))
        inf = And(Not(nan), Or(a.inf, b.inf))
        return RV(rmul(a.v, b.v), nan, inf)
    def div(self, a, b):
        # y == 0: the sign of the zero is not modelled, so the sign of the infinity is arbitrary
        zero = req(b.v, R0) if b.inf is FALSE else And(Not(b.inf), req(b.v, R0))
        if zero is not FALSE:
            if self.ex.provably(Not(zero)): zero = FALSE
        if a.fin and b.fin and zero is FALSE: return RV(self.cn(rdiv(a.v, b.v)))
        azero = And(Not(a.inf), req(a.v, R0))
        nan = Or(a.nan, b.nan, And(a.inf, b.inf), And(zero, azero))
        inf = And(Not(nan), Or(And(a.inf, Not(b.inf)), zero))
        s = fresh('infsign', 'R')
        self.ex.facts.append(Or(req(s, R1), req(s, R(-1))))
        v = Ite(zero, s, rdiv(a.v, b.v))
        if b.inf is not FALSE:
            # a / inf = 0 ; inf / finite keeps the product sign
            v = Ite(zero, s, Ite(And(b.inf, Not(a.inf)), R0, rmul(a.v, b.v) if a.inf is not FALSE else rdiv(a.v, b.v)))
            if a.inf is not FALSE:
                v = Ite(zero, s, Ite(b.inf, R0, Ite(a.inf, rmul(a.v, b.v), rdiv(a.v, b.v))))
        elif a.inf is not FALSE:
            v = Ite(zero, s, Ite(a.inf, rmul(a.v, b.v), rdiv(a.v, b.v)))
        return RV(v, nan, inf)
    def cmp(self, pred, a, b):
        if a.fin and b.fin:
            uno = FALSE
            lt, eq, gt = rlt(a.v, b.v), req(a.v, b.v), rlt(b.v, a.v)
        else:
            uno = Or(a.nan, b.nan)
            o = Not(uno)
            an, bn = rlt(a.v, R0), rlt(b.v, R0)
            ff = And(Not(a.inf), Not(b.inf))
            eq = And(o, Or(And(ff, req(a.v, b.v)), And(a.inf, b.inf, Iff(an, bn))))
            lt = And(o, Or(And(ff, rlt(a.v, b.v)), And(a.inf, an, Not(And(b.inf, bn))), And(b.inf, Not(bn), Not(And(a.inf, Not(an))))))
            gt = And(o, Or(And(ff, rlt(b.v, a.v)), And(b.inf, bn, Not(And(a.inf, an))), And(a.inf, Not(an), Not(And(b.inf, Not(bn))))))
        le = rle(a.v, b.v) if a.fin and b.fin else Or(lt, eq)
        ge = rle(b.v, a.v) if a.fin and b.fin else Or(gt, eq)
        if pred == 'true': return TRUE
        if pred == 'false': return FALSE
        if pred == 'ord': return Not(uno)
        if pred == 'uno': return uno
        base = {'eq': eq, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}
        k = pred[1:]
        if k == 'ne':
            r = And(Not(uno), Not(eq))
        else:
            r = base[k]
        return Or(r, uno) if pred[0] == 'u' else r
    def ite(self, c, a, b):
        if a == b: return a
        return RV(Ite(c, a.v, b.v), Ite(c, a.nan, b.nan), Ite(c, a.inf, b.inf))
    def math1(self, name, a):
        if name == 'fabs': return self.fabs(a)
        if self.ex.canon_args and name in ('sqrt', 'cbrt', 'acos'): a = RV(tm.canonq(a.v), a.nan, a.inf)
        if name == 'sqrt':
            if a.fin and a.v.op not in ('c', 'var') and not any(x.op == 'ite' for x in tm.subterms([a.v])):
                from . import solve
                k = solve.constant_value(a.v, self.ex.hyps)
                if k is not None: a = RV(R(k))
            neg = rlt(a.v, R0)
            if neg is not FALSE and self.ex.nonneg(a.v): neg = FALSE
            if neg is FALSE and a.fin: return RV(rsqrt(a.v))
            nan = Or(a.nan, neg)
            if a.inf is FALSE: return RV(rsqrt(a.v), nan)
            return RV(Ite(a.inf, R1, rsqrt(a.v)), nan, And(a.inf, Not(neg)))
        if name in ('acos', 'asin'):
            bad = Or(rlt(R1, a.v), rlt(a.v, R(-1)), a.inf)
            if bad is not FALSE and self.ex.provably(Not(bad)): bad = FALSE
            return RV(ruf(name, a.v), Or(a.nan, bad))
        if name == 'cbrt':
            if a.fin: return RV(ruf('cbrt', a.v))
            return RV(Ite(a.inf, a.v, ruf('cbrt', a.v)), a.nan, a.inf)
        if name in ('sin', 'cos', 'tan'):
            return RV(ruf(name, a.v), Or(a.nan, a.inf))
        if name == 'trunc': return RV(rtrunc(a.v), a.nan, a.inf)
        if name == 'floor':
            t = rtrunc(a.v)
            return RV(Ite(rlt(a.v, t), rsub(t, R1), t), a.nan, a.inf)
        if name == 'ceil':
            t = rtrunc(a.v)
            return RV(Ite(rlt(t, a.v), radd(t, R1), t), a.nan, a.inf)
        if name == 'round':
            h = R(Fraction(1, 2))
            return RV(Ite(rlt(a.v, R0), rtrunc(rsub(a.v, h)), rtrunc(radd(a.v, h))), a.nan, a.inf)
        return RV(ruf(name, a.v), Or(a.nan, a.inf))
    def math2(self, name, a, b):
        if name in ('fmin', 'fmax'):
            c = self.cmp('olt' if name == 'fmin' else 'ogt', a, b)
            return self.ite(a.nan, b, self.ite(Or(b.nan, c), a, b))
        if name == 'pow' and b.fin and b.v.op == 'c' and b.v.args[0].denominator == 1 and 0 <= b.v.args[0] <= 8 and a.fin:
            r = R1
            for _ in range(int(b.v.args[0])): r = rmul(r, a.v)
            return RV(r)
        return RV(ruf(name, a.v, b.v), Or(a.nan, b.nan, a.inf, b.inf))
    def ext(self, a, w): return a
    def trunc(self, a, w): return a
    def to_int(self, a, w, signed):
        """fptosi / fptoui"""
        lo = R(-(1 << (w - 1))) if signed else R(0)
        hi = R(1 << (w - 1)) if signed else R(1 << w)
        rng = And(Not(a.nan), Not(a.inf), rle(lo, a.v), rlt(a.v, hi))
        if signed is False: rng = And(Not(a.nan), Not(a.inf), rlt(R(-1), a.v), rlt(a.v, hi))
        self.ex.oblige('float-to-int-in-range', rng)
        if a.v.op == 'c':
            return int(rtrunc(a.v).args[0]) & ((1 << w) - 1)
        if a.v.op == 'ite':
            pass
        return mk('r2i', (rtrunc(a.v),), 'I%d' % w)
    def from_int(self, x, w, signed):
        if isinstance(x, int):
            return RV(R(sgn(x, w) if signed else x))
        if x.sort == 'B': return RV(Ite(x, R(-1 if signed else 1), R0))
        if x.op == 'r2i': return RV(x.args[0])
        lv = tm.leaves(x)
        if lv is not None:
            r = None
            for g, v in lv:
                c = R(sgn(v, w) if signed else v)
                r = c if r is None else Ite(g, c, r)
            return RV(r)
        if x.op == 'ite':
            return self.ite(x.args[0], self.from_int(_ic(x.args[1]), w, signed), self.from_int(_ic(x.args[2]), w, signed))
        return RV(mk('i2r' if signed else 'u2r', (x,), 'R'))
    def zero(self, w): return RV(R0)

def _ic(t):
    return t.args[0] if t.op == 'c' else t

class DomF:
    name = 'F'
    def __init__(self, ex): self.ex = ex
    def const(self, bits, w):
        x = struct.unpack('<d', struct.pack('<Q', bits))[0]
        return F(x, 'F%d' % w)
    def undef(self, w=64): return fresh('undef', 'F%d' % w)
    def inp(self, name, w): return var(name, 'F%d' % w)
    def neg(self, a): return tm.fneg(a)
    def add(self, a, b): return fop('fadd', a, b)
    def sub(self, a, b): return fop('fsub', a, b)
    def mul(self, a, b): return fop('fmul', a, b)
    def div(self, a, b): return fop('fdiv', a, b)
    def cmp(self, pred, a, b):
        if pred == 'true': return TRUE
        if pred == 'false': return FALSE
        uno = Or(fisnan(a), fisnan(b))
        if pred == 'ord': return Not(uno)
        if pred == 'uno': return uno
        lt, gt = fcmp('flt', a, b), fcmp('flt', b, a)
        le, ge = fcmp('fle', a, b), fcmp('fle', b, a)
        eq = fcmp('feq', a, b)
        # ordered / unordered via negation where possible
        o = {'eq': eq, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}
        if pred[0] == 'o':
            if pred == 'one': return And(Not(eq), Not(uno))
            return o[pred[1:]]
        return {'ueq': Or(eq, uno), 'une': Not(eq), 'ult': Not(ge), 'ule': Not(gt), 'ugt': Not(le), 'uge': Not(lt)}[pred]
    def ite(self, c, a, b): return Ite(c, a, b)
    def math1(self, name, a):
        if name == 'fabs': return f1('fabs', a)
        if name == 'sqrt': return f1('fsqrt', a)
        if name in ('floor', 'ceil', 'trunc', 'round'): return mk('frti_' + name, (a,), a.sort)
        return mk('fuf', (name, a), a.sort)
    def math2(self, name, a, b):
        if name in ('fmin', 'fmax'):
            c = fcmp('flt', a, b) if name == 'fmin' else fcmp('flt', b, a)
            return Ite(fisnan(a), b, Ite(Or(fisnan(b), c), a, b))
        return mk('fuf', (name, a, b), a.sort)
    def ext(self, a, w): return f1('fcvt', a, 'F%d' % w)
    def trunc(self, a, w): return f1('fcvt', a, 'F%d' % w)
    def to_int(self, a, w, signed):
        s = a.sort
        hi = F(float(1 << (w - 1 if signed else w)), s)
        if signed:
            if w - 1 > (53 if s == 'F64' else 24):
                lo = fcmp('fle', F(-float(1 << (w - 1)), s), a)
            else:
                lo = fcmp('flt', F(-float((1 << (w - 1)) + 1), s), a) if s == 'F64' else fcmp('fle', F(-float(1 << (w - 1)), s), a)
        else:
            lo = fcmp('flt', F(-1.0, s), a)
        self.ex.oblige('float-to-int-in-range', And(lo, fcmp('flt', a, hi)))
        if a.op == 'c':
            x = fbits2py(a.args[0], s)
            if x == x and not math.isinf(x): return int(x) & ((1 << w) - 1)
        return mk('f2i' if signed else 'f2u', (a, w), 'I%d' % w)
    def from_int(self, x, w, signed, fw=64):
        s = 'F%d' % fw
        if isinstance(x, int): return F(float(sgn(x, w) if signed else x), s)
        if x.sort == 'B': return Ite(x, F(-1.0 if signed else 1.0, s), F(0.0, s))
        if x.op == 'f2i' and signed and x.args[0].sort == s: return f1('ftrunc0', x.args[0])
        lv = tm.leaves(x)
        if lv is not None:
            r = None
            for g, v in lv:
                c = F(float(sgn(v, w) if signed else v), s)
                r = c if r is None else Ite(g, c, r)
            return r
        return mk('i2f' if signed else 'u2f', (x,), s)
    def zero(self, w): return F(0.0, 'F%d' % w)

class Exec:
    def __init__(self, mod, mode='R', prover=None):
        self.mod = mod
        self.mode = mode
        self.dom = DomR(self) if mode == 'R' else DomF(self)
        self.nobj = 0
        self.oblig = []
        self.relmemo = {}; self.forkres = False
        self.facts = []          # globally valid assumptions (already guarded)
        self.contracts = {}      # mangled -> handler
        self.stack = []
        self.globptr = {}
        self.cur = None          # current state
        self.prover = prover     # callable(list of hyps, goal, kind) -> bool
        self.hyps = []           # requires
        self.used_contracts = set()
        self.functions = {}      # functions executed (inlined) -> times
        self.instrs = 0
        self.maxunroll = 20000
        self.maxsym = 40
        self.loophook = None
        self.prune = False
        self.literal_map = {}
        self.canon_args = False
        self.relational = False
        self.script = None; self.spos = 0; self.maxbranch = 200; self.shared = None; self.pcount = 0; self.relcalls = []
        self.forkidx = False; self.forked = []; self.choices = []
        self.live_heap = {}
        self.rand_calls = 0
        self._pcache = {}
        self._symdepth = {}
        self.frames = []

    # --- layout
    def size(self, ty):
        if ty._size is None: ty._size, ty._align = self._layout(ty)
        return ty._size
    def align(self, ty):
        self.size(ty); return ty._align
    def _layout(self, ty):
        k = ty.k
        if k == 'i':
            s = (ty.w + 7) // 8
            if s == 3: s = 4
            return s, min(s, 16)
        if k == 'f': return (16, 16) if ty.w == 80 else (ty.w // 8, ty.w // 8)
        if k == 'ptr': return 8, 8
        if k == 'arr': return self.size(ty.el) * ty.n, self.align(ty.el)
        if k == 'vec':
            s = self.size(ty.el) * ty.n
            return s, s
        if k == 'named':
            t = self.mod.types[ty.name]
            return self.size(t), self.align(t)
        if k == 'struct':
            off = 0; al = 1
            for e in ty.els:
                a = 1 if ty.packed else self.align(e)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.size(e)
            off = (off + al - 1) // al * al
            return off, al
        raise ExecError('size of %r' % ty)
    def res(self, ty):
        while ty.k == 'named': ty = self.mod.types[ty.name]
        return ty
    def field_off(self, ty, i):
        off = 0
        for j, e in enumerate(ty.els):
            a = 1 if ty.packed else self.align(e)
            off = (off + a - 1) // a * a
            if j == i: return off
            off += self.size(e)
    def flat(self, ty, off=0):
        """[(offset, scalar Ty)]"""
        ty = self.res(ty)
        if ty.k in ('i', 'f', 'ptr'): return [(off, ty)]
        if ty.k in ('arr', 'vec'):
            out = []
            s = self.size(ty.el)
            for i in range(ty.n): out += self.flat(ty.el, off + i * s)
            return out
        if ty.k == 'struct':
            out = []
            for i, e in enumerate(ty.els): out += self.flat(e, off + self.field_off(ty, i))
            return out
        raise ExecError('flat %r' % ty)

    # --- misc
    def literal(self, x, single):
        if (x, single) in self.literal_map: return self.literal_map[(x, single)]
        return R(nearest_rational(x, single))
    def where(self):
        return ' < '.join(reversed(self.stack[-4:]))
    def oblige(self, kind, cond):
        cond = B(cond)
        if cond is TRUE: return
        self.oblig.append(Obligation(kind, self.cur.pc, cond, self.where()))
    def provably(self, cond):
        """cheap attempt to prove cond under requires, facts and the current path"""
        if cond is TRUE: return True
        if cond is FALSE: return False
        if not self.prover: return False
        pc = self.cur.pc
        sk = None
        if self.script is not None and self.shared is not None:
            # runs that share a prefix of decisions ask the same questions: replayed, so that a time limit cannot change the path tree
            sk = (tuple(e[0] for e in self.script[:self.spos]), cond.id, pc.id, len(self.facts))
            if sk in self.shared: return self.shared[sk]
        k = (cond.id, pc.id, len(self.facts))
        if k in self._pcache: r = self._pcache[k]
        else:
            r = self.prover(self.hyps + self.facts + [pc], cond)
            self._pcache[k] = r
        if sk: self.shared[sk] = r
        return r
    def nonneg(self, t):
        from .solve import is_sum_of_squares
        if is_sum_of_squares(t): return True
        return self.provably(rle(R0, t))

    # --- memory
    def alloc(self, st, size, name):
        self.nobj += 1
        st.mem[self.nobj] = Obj(size, name, st.id)
        if name != 'heap' and self.frames: self.frames[-1].append(self.nobj)
        return Ptr(self.nobj, 0)
    def _chk(self, st, g, p, size, wr=False):
        """bounds / validity; returns True if access may proceed"""
        ob = st.mem.get(p.obj)
        bad = None
        if p.obj == 0: bad = 'null-dereference'
        elif ob is None: bad = 'dangling-pointer'
        elif ob.freed: bad = 'use-after-free'
        elif p.off < 0 or (ob.size is not None and p.off + size > ob.size): bad = 'out-of-bounds'
        elif wr and ob.const: bad = 'write-to-constant'
        if bad:
            self.oblige('memory-safety:' + bad, Not(g))
            return False
        return True
    def load(self, st, p, ty):
        ty = self.res(ty)
        if ty.k in ('arr', 'struct', 'vec'):
            # aggregate loads: list in flat order
            out = []
            for off, t in self.flat(ty):
                out.append(self.load(st, self.padd(p, off), t))
            return out
        size = self.size(ty)
        al = alts_of(p)
        res = None
        for g, q in al:
            if not self._chk(st, g, q, size): continue
            v = self._load1(st, q, ty, size)
            if res is None: res = v
            else: res = self.merge_typed(g, v, res, 8 * size)
        if res is None: return self.undef(ty)
        if self.forkidx and isinstance(res, PtrSet) and len({(q.obj) for g, q in res.alts}) == 1: res = self.fork_ptr(st, res)
        if ty.k == 'i' and ty.w == 1 and isinstance(res, T) and res.sort != 'B': res = self.icast('trunc', res, IW(res.sort), 1)
        return res
    def undef(self, ty):
        return UNDEF
    def concretise_undef(self, ty):
        if ty.k == 'f': return self.dom.undef() if self.mode == 'R' else self.dom.undef(ty.w)
        if ty.k == 'i':
            return fresh('undef', 'B') if ty.w == 1 else fresh('undef', 'I%d' % ty.w)
        return UNDEF
    def _load1(self, st, q, ty, size):
        ob = st.mem[q.obj]
        if ob.arr is not None:
            return ob.arr.load(self, st, ob, q.off, ty)
        c = ob.cells.get(q.off)
        if c is not None:
            csz, ck, cv = c
            if csz == size:
                if ck == ty.k or (cv is UNDEF): return cv
                if ty.k == 'i' and ck in ('f', 'p', 'ptr'):
                    return Packed([(0, csz, ck, cv)], size)
                if ty.k == 'i' and ck == 'i': return cv
                if ty.k == 'f' and ck == 'i':
                    if cv == 0 and isinstance(cv, int): return self.dom.zero(ty.w)
                    if isinstance(cv, Packed) and len(cv.cells) == 1 and cv.cells[0][2] == 'f': return cv.cells[0][3]
                    raise ExecError('int cell loaded as fp')
                if ty.k == 'ptr' and ck == 'i':
                    if isinstance(cv, int) and cv == 0: return NULL
                    if isinstance(cv, IntPtr): return cv.p
                return cv
            if csz > size and ty.k == 'i' and ck == 'i' and isinstance(cv, int):
                return cv & ((1 << (8 * size)) - 1)
        # several cells under an int load
        inside = sorted((o, c) for o, c in ob.cells.items() if o < q.off + size and o + c[0] > q.off)
        if inside:
            if ty.k == 'i' and all(o >= q.off and o + c[0] <= q.off + size for o, c in inside):
                if all(c[1] == 'i' and isinstance(c[2], int) for _, c in inside):
                    tot = sum(c[0] for _, c in inside)
                    if tot == size:
                        v = 0
                        for o, c in inside: v |= c[2] << (8 * (o - q.off))
                        return v
                return Packed([(o - q.off, c[0], c[1], c[2]) for o, c in inside], size)
            if len(inside) == 1:
                o, c = inside[0]
                if c[1] == 'i' and ty.k == 'i' and isinstance(c[2], int):
                    return (c[2] >> (8 * (q.off - o))) & ((1 << (8 * size)) - 1)
            for z0, z1 in ob.zr:
                pass
            raise ExecError('unsupported overlapping load of %r at %r in %s' % (ty, q, ob.name))
        for z0, z1 in ob.zr:
            if z0 <= q.off and q.off + size <= z1:
                if ty.k == 'f': return self.dom.zero(ty.w)
                if ty.k == 'ptr': return NULL
                return 0
        return UNDEF
    def store(self, st, p, ty, v):
        ty = self.res(ty)
        if ty.k in ('arr', 'struct', 'vec'):
            fl = self.flat(ty)
            if v is UNDEF: v = [UNDEF] * len(fl)
            for (off, t), x in zip(fl, v):
                self.store(st, self.padd(p, off), t, x)
            return
        size = self.size(ty)
        al = alts_of(p)
        for g, q in al:
            if not self._chk(st, g, q, size, True): continue
            if len(al) == 1:
                self._store1(st, q, ty, size, v)
            else:
                old = self._load1(st, q, ty, size)
                self._store1(st, q, ty, size, self.merge_typed(g, v, old, 8 * size))
    def _clear(self, ob, off, size):
        cells = ob.cells
        if off in cells and cells[off][0] == size:
            del cells[off]; return
        for o in [o for o, c in cells.items() if o < off + size and o + c[0] > off]:
            c = cells[o]
            if o >= off and o + c[0] <= off + size: del cells[o]
            elif c[1] == 'i' and isinstance(c[2], int):
                # split into bytes
                del cells[o]
                for k in range(c[0]):
                    if not (off <= o + k < off + size): cells[o + k] = (1, 'i', (c[2] >> (8 * k)) & 255)
            elif c[2] is UNDEF: del cells[o]
            else: raise ExecError('partial overwrite of a typed cell')
    def _store1(self, st, q, ty, size, v):
        ob = st.w(q.obj)
        if ob.arr is not None:
            return ob.arr.store(self, st, ob, q.off, ty, v)
        c = ob.cells.get(q.off)
        if c is not None and c[0] == size and not isinstance(v, Packed):
            ob.cells[q.off] = (size, ty.k, v); return
        self._clear(ob, q.off, size)
        if isinstance(v, Packed):
            for o, s, k, x in v.cells: ob.cells[q.off + o] = (s, k, x)
        else:
            ob.cells[q.off] = (size, ty.k, v)
    def padd(self, p, off):
        if isinstance(p, Ptr): return Ptr(p.obj, p.off + off)
        return mkptr([(g, Ptr(q.obj, q.off + off)) for g, q in p.alts])
    def memcpy(self, st, d, s, n):
        if isinstance(n, T): raise ExecError('symbolic memcpy length')
        if n == 0: return
        sal = []
        for g, q in alts_of(s):
            if self._chk(st, g, q, n): sal.append((g, q))
        if not sal: return
        def grab(q):
            ob = st.mem[q.obj]
            if ob.arr is not None: return ob.arr.grab(self, st, ob, q.off, n), []
            cs = {}
            for o, c in ob.cells.items():
                if o < q.off + n and o + c[0] > q.off:
                    if o < q.off or o + c[0] > q.off + n:
                        if c[2] is UNDEF: continue
                        if c[1] == 'i' and isinstance(c[2], int):
                            for k in range(c[0]):
                                if q.off <= o + k < q.off + n:
                                    cs[o + k - q.off] = (1, 'i', (c[2] >> (8 * k)) & 255)
                            continue
                        raise ExecError('memcpy splits a cell')
                    cs[o - q.off] = c
            zr = [(max(z0, q.off) - q.off, min(z1, q.off + n) - q.off) for z0, z1 in ob.zr if z0 < q.off + n and z1 > q.off]
            return cs, zr
        cs, zr = grab(sal[0][1])
        for g, q in sal[1:]:
            c2, z2 = grab(q)
            cs, zr = self._mergecells(g, c2, z2, cs, zr)
        dal = alts_of(d)
        for g, q in dal:
            if not self._chk(st, g, q, n, True): continue
            if len(dal) == 1:
                wc, wz = cs, zr
            else:
                oc, oz = grab(q)
                wc, wz = self._mergecells(g, cs, zr, oc, oz)
            ob = st.w(q.obj)
            self._clear(ob, q.off, n)
            nz = []
            for z0, z1 in ob.zr:
                if z1 <= q.off or z0 >= q.off + n: nz.append((z0, z1))
                else:
                    if z0 < q.off: nz.append((z0, q.off))
                    if z1 > q.off + n: nz.append((q.off + n, z1))
            ob.zr = nz + [(z0 + q.off, z1 + q.off) for z0, z1 in wz]
            for o, c in wc.items(): ob.cells[q.off + o] = c
    def _zero_as(self, c):
        if c[1] == 'f': return self.dom.zero(8 * c[0])
        if c[1] == 'ptr': return NULL
        return 0
    def _mergecells(self, g, c1, z1, c2, z2):
        out = {}
        for o in set(c1) | set(c2):
            a = c1.get(o); b = c2.get(o)
            if a is None:
                a = (b[0], b[1], self._zero_as(b) if any(x <= o and o + b[0] <= y for x, y in z1) else UNDEF)
            if b is None:
                b = (a[0], a[1], self._zero_as(a) if any(x <= o and o + a[0] <= y for x, y in z2) else UNDEF)
            if a[0] != b[0]: raise ExecError('merging cells of different sizes')
            k = a[1] if a[2] is not UNDEF else b[1]
            out[o] = (a[0], k, self.merge_typed(g, a[2], b[2], 8 * a[0]))
        zr = []
        for x0, x1 in z1:
            for y0, y1 in z2:
                lo, hi = max(x0, y0), min(x1, y1)
                if lo < hi: zr.append((lo, hi))
        return out, zr
    def memset(self, st, d, v, n):
        if isinstance(n, T): raise ExecError('symbolic memset')
        if n == 0: return
        al = alts_of(d)
        if len(al) != 1: raise ExecError('memset through symbolic pointer')
        q = al[0][1]
        if not self._chk(st, TRUE, q, n, True): return
        ob = st.w(q.obj)
        self._clear(ob, q.off, n)
        if v == 0:
            ob.zr.append((q.off, q.off + n))
        elif isinstance(v, int) and n <= 64:
            for k in range(n): ob.cells[q.off + k] = (1, 'i', v)
        else:
            raise ExecError('memset non-zero')

    # --- merging
    def merge_val(self, c, a, b):
        """ite(c, a, b) over any value kind"""
        if a is b: return a
        if c is TRUE: return a
        if c is FALSE: return b
        if a is UNDEF: return self.merge_val(c, self.undef_like(b), b)
        if b is UNDEF: return self.merge_val(c, a, self.undef_like(a))
        if isinstance(a, RV) and isinstance(b, RV): return self.dom.ite(c, a, b)
        if isinstance(a, (Ptr, PtrSet)) and isinstance(b, (Ptr, PtrSet)):
            if a == b: return a
            return mkptr([(And(c, g), p) for g, p in alts_of(a)] + [(And(Not(c), g), p) for g, p in alts_of(b)])
        if isinstance(a, IntPtr) and isinstance(b, IntPtr):
            if a == b: return a
            return IntPtr(self.merge_val(c, a.p, b.p))
        if isinstance(a, list) and isinstance(b, list):
            return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Packed) and isinstance(b, Packed):
            if [x[:2] for x in a.cells] == [x[:2] for x in b.cells]:
                return Packed([(x[0], x[1], x[2], self.merge_typed(c, x[3], y[3], 8 * x[1])) for x, y in zip(a.cells, b.cells)], a.size)
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
            raise ExecError('untyped integer merge')
        if isinstance(a, T) or isinstance(b, T):
            s = a.sort if isinstance(a, T) else b.sort
            if isinstance(a, int): a = B(a) if s == 'B' else I(a, IW(s))
            if isinstance(b, int): b = B(b) if s == 'B' else I(b, IW(s))
            if isinstance(a, T) and isinstance(b, T):
                if a.sort == 'B' and b.sort[0] == 'I': a = Ite(a, I(1, IW(b.sort)), I(0, IW(b.sort)))
                if b.sort == 'B' and a.sort[0] == 'I': b = Ite(b, I(1, IW(a.sort)), I(0, IW(a.sort)))
                return Ite(c, a, b)
        raise ExecError('cannot merge %r and %r' % (a, b))
    def undef_like(self, v):
        """an arbitrary value of the same kind (uninitialised memory holds any value)"""
        if isinstance(v, RV): return RV(fresh('undef', 'R'))
        if isinstance(v, T): return fresh('undef', v.sort)
        if isinstance(v, (Ptr, PtrSet)): return Ptr(-1, 0)
        if isinstance(v, IntPtr): return IntPtr(Ptr(-1, 0))
        if isinstance(v, list): return [self.undef_like(x) for x in v]
        if isinstance(v, Packed): return Packed([(o, s, k, self.undef_like(x)) for o, s, k, x in v.cells], v.size)
        if v is UNDEF: return v
        raise ExecError('undef_like %r' % (v,))
    def merge_typed(self, c, a, b, w):
        if isinstance(a, int) and b is UNDEF: b = fresh('undef', 'B' if w == 1 else 'I%d' % w)
        if isinstance(b, int) and a is UNDEF: a = fresh('undef', 'B' if w == 1 else 'I%d' % w)
        if isinstance(a, int) and isinstance(b, T) and b.sort == 'B' and w > 1: b = Ite(b, I(1, w), I(0, w))
        if isinstance(b, int) and isinstance(a, T) and a.sort == 'B' and w > 1: a = Ite(a, I(1, w), I(0, w))
        """merge with known bit width for python ints"""
        if isinstance(a, int) and isinstance(b, int) and a != b:
            if w == 1: return Ite(c, B(a), B(b))
            return Ite(c, I(a, w), I(b, w))
        if isinstance(a, list):
            raise ExecError('typed list merge')
        return self.merge_val(c, a, b)

    def merge_states(self, c, s1, s2, pc0):
        """merge two states of the same frame: s1 under c, s2 under not c"""
        m = State()
        m.pc = pc0
        m.mem = {}
        for o in set(s1.mem) | set(s2.mem):
            a = s1.mem.get(o); b = s2.mem.get(o)
            if a is b or b is None: m.mem[o] = a; continue
            if a is None: m.mem[o] = b; continue
            n = Obj(a.size, a.name, m.id)
            n.const = a.const; n.freed = a.freed and b.freed
            if a.freed != b.freed:
                n.freed = False
            if a.arr is not None or b.arr is not None:
                n.arr = a.arr.merge(self, c, a, b)
            if a.cells == b.cells and a.zr == b.zr:
                n.cells = dict(a.cells); n.zr = list(a.zr)
            else:
                ca, cb = a.cells, b.cells
                cells = {}
                for off in set(ca) | set(cb):
                    x = ca.get(off); y = cb.get(off)
                    if x is y: cells[off] = x; continue
                    if x is None:
                        if any(z0 <= off and off + y[0] <= z1 for z0, z1 in a.zr): x = (y[0], y[1], self._zero_as(y))
                        else: x = (y[0], y[1], UNDEF)
                    if y is None:
                        if any(z0 <= off and off + x[0] <= z1 for z0, z1 in b.zr): y = (x[0], x[1], self._zero_as(x))
                        else: y = (x[0], x[1], UNDEF)
                    if x[0] != y[0]:
                        cells[off] = (x[0], x[1], UNDEF)   # dead temporary with incompatible layouts
                        if off in cells: pass
                        continue
                    k = x[1] if x[2] is not UNDEF else y[1]
                    try:
                        cells[off] = (x[0], k, self.merge_typed(c, x[2], y[2], 8 * x[0]))
                    except ExecError:
                        cells[off] = (x[0], 'poison', UNDEF)
                n.cells = cells
                if a.zr == b.zr: n.zr = list(a.zr)
                else:
                    zr = []
                    for x0, x1 in a.zr:
                        for y0, y1 in b.zr:
                            lo, hi = max(x0, y0), min(x1, y1)
                            if lo < hi: zr.append((lo, hi))
                    # zero ranges on one side only: materialised above for cells known on the other side
                    n.zr = zr
            m.mem[o] = n
        r1, r2 = s1.regs, s2.regs
        regs = {}
        for k in set(r1) & set(r2):
            x, y = r1[k], r2[k]
            if x is y: regs[k] = x; continue
            xv, xt = x; yv, yt = y
            try:
                if xv == yv and not isinstance(xv, T) and not isinstance(yv, T): regs[k] = x; continue
                regs[k] = (self.merge_by_type(c, xv, yv, xt), xt)
            except ExecError:
                pass
        m.regs = regs
        m.ret = None
        if s1.ret is not None and s2.ret is not None:
            v1, t1 = s1.ret; v2, t2 = s2.ret
            m.ret = (self.merge_by_type(c, v1, v2, t1), t1)
        m.prev = None
        return m
    def merge_by_type(self, c, a, b, ty):
        if ty is None or ty.k == 'void': return None
        if isinstance(a, (Ptr, PtrSet)) or isinstance(b, (Ptr, PtrSet)): return self.merge_val(c, a, b)
        ty = self.res(ty)
        if isinstance(a, int) and isinstance(b, int):
            return self.merge_typed(c, a, b, ty.w if ty.k == 'i' else 64)
        if ty.k in ('struct', 'arr', 'vec'):
            fl = self.flat(ty)
            if a is UNDEF: return b
            if b is UNDEF: return a
            return [self.merge_by_type(c, x, y, t) for x, y, (o, t) in zip(a, b, fl)]
        return self.merge_val(c, a, b)

    # --- operands
    def const(self, ty, v):
        """constant or register operand -> value"""
        k = v[0]
        if k == 'reg':
            r = self.cur.regs.get(v[1])
            if r is None: raise ExecError('register %%%s undefined in %s' % (v[1], self.where()))
            return r[0]
        if k == 'int':
            return v[1] & ((1 << ty.w) - 1)
        if k == 'fp': return self.dom.const(v[1], ty.w)
        if k == 'undef':
            ty = self.res(ty)
            if ty.k in ('arr', 'struct', 'vec'): return [UNDEF] * len(self.flat(ty))
            return UNDEF
        if k == 'null': return NULL
        if k == 'zero':
            ty = self.res(ty)
            if ty.k == 'f': return self.dom.zero(ty.w)
            if ty.k == 'i': return 0
            if ty.k == 'ptr': return NULL
            return [self.const(t, ('zero',)) for _, t in self.flat(ty)]
        if k == 'agg':
            out = []
            for t, x in v[1]:
                val = self.const(t, x)
                if isinstance(val, list): out.extend(val)
                else: out.append(val)
            return out
        if k == 'str': return list(v[1])
        if k == 'glob': return self.globalptr(v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base = self.const(*v[3][0])
                return self.gep(v[2], base, v[3][1:])
            if v[1] == 'ptrtoint': return IntPtr(self.const(v[2], v[3]))
        raise ExecError('operand %r' % (v,))
    def globalptr(self, name):
        if name in self.globptr:
            p = self.globptr[name]
            if p.obj not in self.cur.mem and p.obj > 0:
                self.cur.mem[p.obj] = self._globobj[p.obj]
            return p
        if name in self.mod.funcs or name in self.mod.decls:
            p = Ptr(('fn', name), 0)
            self.globptr[name] = p
            return p
        g = self.mod.globals.get(name)
        if g is None: raise ExecError('global ' + name)
        if g[0] == 'alias': return self.const(Ty('ptr'), g[1])
        ty, init, isconst = g
        self.nobj += 1
        ob = Obj(self.size(ty), '@' + name, -1)
        if init is not None:
            val = self.const(ty, init)
            fl = self.flat(ty)
            if not isinstance(val, list): val = [val]
            if len(val) != len(fl): raise ExecError('global init of ' + name)
            for (off, t), x in zip(fl, val): ob.cells[off] = (self.size(t), t.k, x)
        ob.const = isconst
        self._globobj = getattr(self, '_globobj', {})
        self._globobj[self.nobj] = ob
        p = Ptr(self.nobj, 0)
        self.globptr[name] = p
        self.cur.mem[self.nobj] = ob
        return p
    def gep(self, bt, base, idx):
        p = base
        ty = bt
        first = True
        for it, iv in idx:
            x = self.const(it, iv)
            if first:
                scale = self.size(ty); first = False
            else:
                rt = self.res(ty)
                if rt.k == 'struct':
                    if not isinstance(x, int): raise ExecError('symbolic struct index')
                    p = self.padd(p, self.field_off(rt, x)); ty = rt.els[x]; continue
                ty = rt.el; scale = self.size(ty)
            if isinstance(x, int):
                x = sgn(x, it.w)
                if x: p = self.padd(p, x * scale)
            elif isinstance(x, T) and x.sort[0] == 'I':
                lv = tm.leaves(x)
                if lv is None: p = self.sym_index(p, x, it.w, scale); continue
                if self.forkidx:
                    p = self.padd(p, sgn(self.fork_value(x, lv), it.w) * scale); continue
                alts = []
                for g, q in alts_of(p):
                    for h, v in lv:
                        alts.append((And(g, h), Ptr(q.obj, q.off + sgn(v, it.w) * scale)))
                p = mkptr(alts)
            else:
                raise ExecError('gep index %r' % (x,))
        return p
    def fork_value(self, x, lv):
        """one run per value of a symbolic index: the choice becomes a hypothesis of the run"""
        st = self.cur
        k0 = (x.id, st.pc.id)
        for px, ppc, v in self.forked:
            if px is x and (ppc is st.pc or set(ppc.args if ppc.op == 'and' else (ppc,)) <= set(st.pc.args if st.pc.op == 'and' else (st.pc,))): return v
        vals = []
        for h, v in lv:
            if v not in vals: vals.append(v)
        k = self.spos; self.spos += 1
        if k == len(self.script):
            ok = [v for v in vals if not (self.prune or self.forkidx) or not self.provably(Not(icmp('eq', x, I(v, IW(x.sort)))))]
            if not ok: ok = vals[:1]
            self.script.append([0, len(ok), ok])
        v = self.script[k][2][self.script[k][0]]
        c = icmp('eq', x, I(v, IW(x.sort)))
        h = Or(Not(st.pc), c)
        self.hyps.append(h); self.choices.append(h)
        self.forked.append((x, st.pc, v))
        return v
    def fork_ptr(self, st, p):
        """one run per target of a merged pointer: the choice becomes a hypothesis of the run"""
        pcs = set(st.pc.args if st.pc.op == 'and' else (st.pc,))
        for px, ppc, v in self.forked:
            if isinstance(px, PtrSet) and px == p and set(ppc.args if ppc.op == 'and' else (ppc,)) <= pcs: return v
        k = self.spos; self.spos += 1
        if k == len(self.script):
            ok = [i for i, (g, q) in enumerate(p.alts) if not self.provably(Or(Not(st.pc), Not(g)))]
            if not ok: ok = [0]
            self.script.append([0, len(ok), ok])
        g, v = p.alts[self.script[k][2][self.script[k][0]]]
        h = Or(Not(st.pc), g)
        self.hyps.append(h); self.choices.append(h)
        self.forked.append((p, st.pc, v))
        return v
    def sym_index(self, p, x, w, scale):
        for n in (2, 3, 4, 8, 16):
            if self.provably(icmp('ult', x, I(n, w))):
                if self.script is not None:
                    return self.padd(p, self.fork_value(x, [(None, v) for v in range(n)]) * scale)
                return mkptr([(And(g, icmp('eq', x, I(v, w))), Ptr(q.obj, q.off + v * scale)) for g, q in alts_of(p) for v in range(n)])
        raise ExecError('unbounded symbolic index in %s' % self.where())

    # --- running
    def setreg(self, st, name, v, ty):
        st.regs[name] = (v, ty)
    def call_function(self, st, name, args, rty):
        """args: list of values; returns (state or None, value)"""
        f = self.mod.funcs.get(name)
        if f is None: raise ExecError('no body for ' + name)
        if len(self.stack) > 300: raise NeedInvariant('recursion too deep in ' + name)
        self.functions[name] = self.functions.get(name, 0) + 1
        saved = st.regs
        st.regs = {}
        self.frames.append([])
        self.cur = st
        for (ty, pn, at), v in zip(f.params, args):
            if 'byval' in at:
                # callee owns a copy
                p = self.alloc(st, self.size(at['byval']), name + ':byval')
                self.cur = st
                self.memcpy(st, p, v, self.size(at['byval']))
                v = p
            st.regs[pn] = (v, ty)
        self.stack.append(name)
        st.ret = None
        st = self.region(f, f.entry, st, EXIT)
        self.stack.pop()
        locs = self.frames.pop()
        if st is None: return None, None
        ret = st.ret
        st.ret = None
        st.regs = saved
        for o in locs: st.mem.pop(o, None)      # the callee's stack slots die here
        self.cur = st
        return st, (ret[0] if ret else None)

    def region(self, f, block, st, stop):
        visits = {}
        while True:
            if block == stop: return st
            visits[block] = visits.get(block, 0) + 1
            if visits[block] > self.maxunroll: raise NeedInvariant('loop does not finish in ' + f.name)
            nxt = self.block(f, block, st)
            if nxt is None: return None            # dead
            st = self.cur
            kind = nxt[0]
            if kind == 'split' and self.script is not None and not self.forkidx:
                nxt = self.choose(st, nxt[1]); kind = 'jump'
            if kind == 'jump':
                st.prev = block; block = nxt[1]
            elif kind == 'ret':
                if stop == EXIT: return st
                raise ExecError('return inside region of ' + f.name)
            else:
                # symbolic branch: list of (cond, target)
                P = f.ipdom[block]
                st = self.split(f, block, st, nxt[1], P)
                if st is None: return None
                block = P
                if P == EXIT:
                    if stop == EXIT: return st
                    raise ExecError('exit in region')
                st.prev = '<merged>'
    def choose(self, st, branches):
        """path mode: follow the script, extend it with the first alternative"""
        k = self.spos; self.spos += 1
        if k == len(self.script): self.script.append([0, len(branches)])
        if self.spos > self.maxbranch: raise NeedInvariant('too many branches on one path in ' + self.where())
        c, t = branches[self.script[k][0]]
        st.pc = And(st.pc, c)
        return ('jump', t)
    def decide(self, st, c):
        """True/False if the path condition syntactically decides c, or the prover does (prune mode)"""
        if c is TRUE: return True
        if c is FALSE: return False
        pcs = st.pc.args if st.pc.op == 'and' else (st.pc,)
        n = Not(c)
        for x in pcs:
            if x is c: return True
            if x is n: return False
        if self.prune:
            r = False if self.provably(n) else True if self.provably(c) else None
            if r is not None and self.script is not None: st.pc = And(st.pc, c if r else n)   # known, and proved from here on
            return r
        return None
    def split(self, f, block, st, branches, P):
        """branches: [(cond, target)] exclusive, exhaustive"""
        key = (f.name, block, len(self.stack))
        d = self._symdepth.get(key, 0) + 1
        if d > self.maxsym: raise NeedInvariant('unbounded symbolic loop in ' + self.where())
        self._symdepth[key] = d
        pc0 = st.pc
        results = []
        n = len(branches)
        for i, (c, t) in enumerate(branches):
            s = st.fork(c) if i < n - 1 else st
            if i == n - 1:
                s.pc = And(pc0, c)
                # detach
                _sid[0] += 1; s.id = _sid[0]
            s.prev = block
            self.cur = s
            if s.pc is FALSE: continue
            r = self.region(f, t, s, P)
            if r is None: continue
            if P != EXIT: self.phis(f, P, r)
            results.append((c, r))
        self._symdepth[key] = d - 1
        if not results: return None
        c, m = results[-1]
        for c2, r in reversed(results[:-1]):
            m = self.merge_states(c2, r, m, pc0)
        m.pc = pc0
        if len(results) == 1 and n > 1:
            # the other sides trapped: an obligation already demands they are infeasible
            m.pc = And(pc0, c)
        self.cur = m
        return m
    def phis(self, f, block, st):
        """evaluate phi nodes of block for st arriving from st.prev"""
        if st.prev == '<merged>':
            # already evaluated when the inner merge happened at the same block
            return
        vals = []
        self.cur = st
        for ins in f.blocks[block]:
            if ins.op != 'phi': break
            for v, lab in ins.a:
                if lab == st.prev:
                    vals.append((ins.res, self.const(ins.ty, v), ins.ty)); break
            else:
                raise ExecError('phi without matching predecessor')
        for r, v, ty in vals: st.regs[r] = (v, ty)
        st.prev = '<merged>'

    def block(self, f, bname, st):
        self.cur = st
        instrs = f.blocks[bname]
        i = 0
        if instrs[0].op == 'phi':
            if st.prev != '<merged>': self.phis(f, bname, st)
            while instrs[i].op == 'phi': i += 1
        n = len(instrs)
        while i < n:
            ins = instrs[i]; i += 1
            op = ins.op
            self.instrs += 1
            if op == 'br': return ('jump', ins.a)
            if op == 'condbr':
                c = self.const(Ty('i', 1), ins.a[0])
                if c is UNDEF: c = self.concretise_undef(Ty('i', 1))
                if isinstance(c, int): return ('jump', ins.a[1] if c else ins.a[2])
                d = self.decide(st, c)
                if d is not None: return ('jump', ins.a[1] if d else ins.a[2])
                if self.loophook:
                    r = self.loophook(self, f, bname, st, c, ins.a[1], ins.a[2])
                    if r is not None:
                        return r
                return ('split', [(c, ins.a[1]), (Not(c), ins.a[2])])
            if op == 'switch':
                c = self.const(ins.ty, ins.a[0])
                if isinstance(c, int):
                    for v, lab in ins.a[2]:
                        if (v & ((1 << ins.ty.w) - 1)) == c: return ('jump', lab)
                    return ('jump', ins.a[1])
                br = []; rest = TRUE
                for v, lab in ins.a[2]:
                    g = icmp('eq', c, I(v, ins.ty.w))
                    g2 = And(rest, g)
                    if g2 is not FALSE: br.append((g2, lab))
                    rest = And(rest, Not(g))
                if rest is not FALSE: br.append((rest, ins.a[1]))
                if len(br) == 1: return ('jump', br[0][1])
                return ('split', br)
            if op == 'ret':
                st.ret = None if ins.a is None else (self.const(ins.ty, ins.a), ins.ty)
                return ('ret',)
            if op == 'unreachable':
                self.oblige('unreachable-code', FALSE)
                return None
            if op == 'call':
                r = self.call(st, ins)
                if r is None: return None
                st = self.cur
                continue
            v = self.step(st, ins)
            if ins.res is not None: st.regs[ins.res] = (v, ins.ty if op not in ('icmp', 'fcmp') else _I1)
        raise ExecError('block without terminator')

    def fpv(self, v, ty):
        if v is UNDEF: return self.concretise_undef(ty)
        if not isinstance(v, (RV, T)): raise ExecError('not an fp value: %r' % (v,))
        return v

    def step(self, st, ins):
        op = ins.op
        if op == 'alloca':
            cnt = self.const(Ty('i', 64), ins.a)
            return self.alloc(st, self.size(ins.ty) * cnt, self.stack[-1])
        if op == 'load':
            return self.load(st, self.const(Ty('ptr'), ins.a), ins.ty)
        if op == 'store':
            v = self.const(ins.ty, ins.a[0])
            self.store(st, self.const(Ty('ptr'), ins.a[1]), ins.ty, v)
            return None
        if op == 'gep':
            base = self.const(Ty('ptr'), ins.a[0])
            return self.gep(ins.ty, base, ins.a[1])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            if ins.ty.k == 'vec': raise ExecError('vector arithmetic')
            a = self.fpv(self.const(ins.ty, ins.a[0]), ins.ty); b = self.fpv(self.const(ins.ty, ins.a[1]), ins.ty)
            d = self.dom
            return d.add(a, b) if op == 'fadd' else d.sub(a, b) if op == 'fsub' else d.mul(a, b) if op == 'fmul' else d.div(a, b)
        if op == 'fneg':
            return self.dom.neg(self.fpv(self.const(ins.ty, ins.a[0]), ins.ty))
        if op == 'fcmp':
            a = self.fpv(self.const(ins.ty, ins.a[1]), ins.ty); b = self.fpv(self.const(ins.ty, ins.a[2]), ins.ty)
            return _b(self.dom.cmp(ins.a[0], a, b))
        if op == 'icmp':
            return self.icmp(ins.a[0], ins.ty, self.const(ins.ty, ins.a[1]), self.const(ins.ty, ins.a[2]))
        if op in _IOPS:
            return self.binop(op, ins.ty, self.const(ins.ty, ins.a[0]), self.const(ins.ty, ins.a[1]), ins.a[2])
        if op == 'select':
            c = self.const(Ty('i', 1), ins.a[0]); a = self.const(ins.ty, ins.a[1]); b = self.const(ins.ty, ins.a[2])
            if isinstance(c, int): return a if c else b
            return self.merge_by_type(c, a, b, ins.ty)
        if op in ('zext', 'sext', 'trunc'):
            ty, a = ins.a
            v = self.const(ty, a)
            return self.icast(op, v, ty.w, ins.ty.w)
        if op in ('fpext', 'fptrunc'):
            v = self.fpv(self.const(*ins.a), ins.a[0])
            return self.dom.ext(v, ins.ty.w) if op == 'fpext' else self.dom.trunc(v, ins.ty.w)
        if op in ('fptosi', 'fptoui'):
            return self.dom.to_int(self.fpv(self.const(*ins.a), ins.a[0]), ins.ty.w, op == 'fptosi')
        if op in ('sitofp', 'uitofp'):
            x = self.const(*ins.a)
            if x is UNDEF: x = self.concretise_undef(ins.a[0])
            if self.mode == 'R': return self.dom.from_int(x, ins.a[0].w, op == 'sitofp')
            return self.dom.from_int(x, ins.a[0].w, op == 'sitofp', ins.ty.w)
        if op == 'ptrtoint': 
            p = self.const(*ins.a)
            if p == NULL: return 0
            return IntPtr(p)
        if op == 'inttoptr':
            x = self.const(*ins.a)
            if isinstance(x, IntPtr): return x.p
            if x == 0: return NULL
            raise ExecError('inttoptr')
        if op == 'bitcast':
            x = self.const(*ins.a)
            if ins.ty.k == ins.a[0].k and ins.ty.k in ('i', 'f', 'ptr'): return x
            if isinstance(x, Packed) and ins.ty.k == 'f' and len(x.cells) == 1: return x.cells[0][3]
            if ins.ty.k == 'i' and ins.a[0].k == 'f': return Packed([(0, ins.ty.w // 8, 'f', x)], ins.ty.w // 8)
            raise ExecError('bitcast')
        if op == 'freeze': return self.const(ins.ty, ins.a[0])
        if op == 'extractvalue':
            v = self.const(ins.ty, ins.a[0])
            return self.extract(ins.ty, v, ins.a[1])
        if op == 'insertvalue':
            a, t2, b, idx = ins.a
            v = list(self.const(ins.ty, a)); x = self.const(t2, b)
            lo, cnt, _ = self.aggpos(ins.ty, idx)
            v[lo:lo + cnt] = x if isinstance(x, list) else [x]
            return v
        if op == 'extractelement':
            v = self.const(ins.ty, ins.a[0]); i = self.const(Ty('i', 64), ins.a[1])
            return v[i]
        if op == 'insertelement':
            v = list(self.const(ins.ty, ins.a[0])); x = self.const(ins.ty.el, ins.a[1]); i = self.const(Ty('i', 64), ins.a[2])
            v[i] = x
            return v
        if op == 'nop': return None
        raise ExecError('instruction ' + op)
    def aggpos(self, ty, idx):
        lo = 0
        for i in idx:
            ty = self.res(ty)
            if ty.k == 'struct':
                for e in ty.els[:i]: lo += len(self.flat(e))
                ty = ty.els[i]
            else:
                lo += i * len(self.flat(ty.el)); ty = ty.el
        return lo, len(self.flat(ty)), ty
    def extract(self, ty, v, idx):
        lo, cnt, t = self.aggpos(ty, idx)
        if v is UNDEF: return UNDEF
        if self.res(t).k in ('i', 'f', 'ptr'): return v[lo]
        return v[lo:lo + cnt]
    def ival(self, v, w):
        if v is UNDEF: return self.concretise_undef(Ty('i', w))
        return v
    def asT(self, v, w):
        if isinstance(v, int): return B(v) if w == 1 else I(v, w)
        if isinstance(v, T):
            if v.sort == 'B' and w > 1: return Ite(v, I(1, w), I(0, w))
            return v
        raise ExecError('not an integer: %r' % (v,))
    def icast(self, op, v, w1, w2):
        if v is UNDEF: return UNDEF
        if isinstance(v, int):
            if op == 'sext': return sgn(v, w1) & ((1 << w2) - 1)
            return v & ((1 << w2) - 1)
        if isinstance(v, Packed): 
            raise ExecError('cast of packed value')
        if isinstance(v, IntPtr): return v
        if v.sort == 'B':
            return _c(Ite(v, I(-1 if op == 'sext' else 1, w2), I(0, w2)))
        if w2 == 1:
            lv = tm.imap1(lambda x: B(x & 1), v)
            if lv is not None: return _b(lv)
            return _b(icmp('eq', icast('trunc', v, 1), I(1, 1)))
        return _c(icast(op, v, w2))
    def icmp(self, pred, ty, a, b):
        if ty.k == 'ptr' or isinstance(a, (Ptr, PtrSet)) or isinstance(b, (Ptr, PtrSet)) or isinstance(a, IntPtr) or isinstance(b, IntPtr):
            return self.pcmp(pred, a, b)
        w = ty.w
        a = self.ival(a, w); b = self.ival(b, w)
        if isinstance(a, int) and isinstance(b, int):
            return int(icmp(pred, I(a, w), I(b, w)) is TRUE)
        if w == 1:
            a = B(a); b = B(b)
            if pred == 'eq': return _b(Iff(a, b))
            if pred == 'ne': return _b(Xor(a, b))
            raise ExecError('i1 compare')
        return _b(icmp(pred, self.asT(a, w), self.asT(b, w)))
    def pcmp(self, pred, a, b):
        def norm(x):
            if isinstance(x, IntPtr): return x.p
            if isinstance(x, int):
                if x == 0: return NULL
                raise ExecError('pointer/int comparison')
            return x
        if isinstance(a, SymPtrBase) or isinstance(b, SymPtrBase):
            return self.sym_pcmp(pred, a, b)
        a = norm(a); b = norm(b)
        out = FALSE
        for g, p in alts_of(a):
            for h, q in alts_of(b):
                if pred in ('eq', 'ne'):
                    r = (p == q) == (pred == 'eq')
                else:
                    if p.obj != q.obj: raise ExecError('relational comparison of unrelated pointers')
                    k = pred[1:]
                    r = {'lt': p.off < q.off, 'le': p.off <= q.off, 'gt': p.off > q.off, 'ge': p.off >= q.off}[k]
                if r: out = Or(out, And(g, h))
        # exclusive, exhaustive guards
        neg = FALSE
        return _b(simp_cover(out, alts_of(a), alts_of(b)))
    def binop(self, op, ty, a, b, flags):
        w = ty.w
        if isinstance(a, IntPtr) or isinstance(b, IntPtr):
            if op == 'sub' and isinstance(a, IntPtr) and isinstance(b, IntPtr):
                if isinstance(a.p, SymPtrBase) or isinstance(b.p, SymPtrBase): return self.sym_psub(a.p, b.p)
                pa, pb = alts_of(a.p), alts_of(b.p)
                r = None
                for g, p in pa:
                    for h, q in pb:
                        gg = And(g, h)
                        if gg is FALSE: continue
                        if p.obj != q.obj:
                            self.oblige('memory-safety:pointer-difference', Not(gg)); continue
                        v = I(p.off - q.off, w)
                        r = v if r is None else Ite(gg, v, r)
                return _c(r)
            raise ExecError('integer arithmetic on a pointer: ' + op)
        a = self.ival(a, w); b = self.ival(b, w)
        if w == 1:
            if isinstance(a, int) and isinstance(b, int):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            a = B(a); b = B(b)
            return _b({'and': And, 'or': Or, 'xor': Xor}[op](a, b))
        name = 'i' + op
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if isinstance(b, int):
                if b == 0: self.oblige('division-by-zero', FALSE); return 0
            else:
                self.oblige('division-by-zero', icmp('ne', self.asT(b, w), I(0, w)))
        if isinstance(a, int) and isinstance(b, int):
            r = tm._iop(name, w, a, b)
            if 'nsw' in flags and op in ('add', 'sub', 'mul'):
                x, y = sgn(a, w), sgn(b, w)
                e = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if not (-(1 << (w - 1)) <= e < (1 << (w - 1))): self.oblige('signed-overflow', FALSE)
            return r
        ta, tb = self.asT(a, w), self.asT(b, w)
        if 'nsw' in flags and op in ('add', 'sub', 'mul'):
            if tm.leaves(ta) is None or tm.leaves(tb) is None:
                self.oblige('signed-overflow', Not(mk('sovf', (op, ta, tb), 'B')))
        return _c(iop(name, ta, tb))

    # --- calls
    def call(self, st, ins):
        callee, args = ins.a
        if callee[0] == 'reg':
            fv = self.const(Ty('ptr'), callee)
            if isinstance(fv, Ptr) and isinstance(fv.obj, tuple): name = fv.obj[1]
            else: raise ExecError('indirect call')
        else:
            name = callee[1]
        vals = None
        if name.startswith('llvm.'):
            base = name
            if base.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stacksave', 'llvm.stackrestore')): return True
            vals = [self.const(t, v) for t, v, _ in args]
            if base.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.memcpy(st, vals[0], vals[1], vals[2]); return True
            if base.startswith('llvm.memset'):
                self.memset(st, vals[0], vals[1], vals[2]); return True
            if base.startswith('llvm.is.constant'): st.regs[ins.res] = (0, ins.ty); return True
            if base.startswith('llvm.ctlz'):
                if not isinstance(vals[0], int): raise ExecError('symbolic ctlz')
                w = ins.ty.w
                st.regs[ins.res] = (w - vals[0].bit_length(), ins.ty); return True
            if base in ('llvm.fmuladd.f64', 'llvm.fmuladd.f32'):
                a, b, c = [self.fpv(v, t) for v, (t, _, _) in zip(vals, args)]
                st.regs[ins.res] = (self.dom.add(self.dom.mul(a, b), c), ins.ty); return True
            if base == 'llvm.trap':
                self.oblige('trap', FALSE); return None
            if base.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
                w = ins.ty.w
                a, b = self.asT(vals[0], w), self.asT(vals[1], w)
                pr = {'llvm.smax': 'sgt', 'llvm.smin': 'slt', 'llvm.umax': 'ugt', 'llvm.umin': 'ult'}[base[:9]]
                st.regs[ins.res] = (_c(Ite(icmp(pr, a, b), a, b)), ins.ty); return True
            if base.startswith('llvm.abs'):
                w = ins.ty.w
                a = self.asT(vals[0], w)
                st.regs[ins.res] = (_c(Ite(icmp('slt', a, I(0, w)), iop('isub', I(0, w), a), a)), ins.ty); return True
        if name in self.contracts and not self.mod_skip(name):
            vals = [self.const(t, v) for t, v, _ in args]
            r = self.contracts[name](self, st, ins, vals, args)
            if r is not False:
                return r
        if name in MATH1 and name not in self.mod.funcs:
            v = self.fpv(self.const(args[0][0], args[0][1]), args[0][0])
            st.regs[ins.res] = (self.dom.math1(MATH1[name], v), ins.ty); return True
        if name in MATH2 and name not in self.mod.funcs:
            a = self.fpv(self.const(args[0][0], args[0][1]), args[0][0]); b = self.fpv(self.const(args[1][0], args[1][1]), args[1][0])
            st.regs[ins.res] = (self.dom.math2(MATH2[name], a, b), ins.ty); return True
        if name in self.mod.funcs:
            if vals is None: vals = [self.const(t, v) for t, v, _ in args]
            s2, rv = self.call_function(st, name, vals, ins.ty)
            if s2 is None: return None
            self.cur = s2
            if ins.res is not None: s2.regs[ins.res] = (rv, ins.ty)
            # st was mutated or replaced
            return True
        if name in TRAPS:
            self.oblige('no-exception-or-abort', FALSE); return None
        vals = [self.const(t, v) for t, v, _ in args]
        if name in ('_Znwm', '_Znam', '_ZnwmSt11align_val_t'):
            if not isinstance(vals[0], int): return self.alloc_sym(st, ins, vals[0])
            p = self.alloc(st, vals[0], 'heap')
            st.regs[ins.res] = (p, ins.ty); return True
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
            for g, q in alts_of(vals[0]):
                if q.obj != 0 and g is TRUE:
                    if self._chk(st, g, Ptr(q.obj, q.off), 0): st.w(q.obj).freed = True
            return True
        if name in ('memcmp', 'strlen', 'atof', 'strtod'): raise ExecError('external ' + name)
        if name in ('memmove', 'memcpy'):
            self.memcpy(st, vals[0], vals[1], vals[2]); st.regs[ins.res] = (vals[0], ins.ty); return True
        if name == '__cxa_guard_acquire':
            st.regs[ins.res] = (1, ins.ty); return True
        if name in ('__cxa_guard_release', '__cxa_atexit'): 
            if ins.res: st.regs[ins.res] = (0, ins.ty)
            return True
        raise ExecError('external function without contract: ' + name)
    def alloc_sym(self, st, ins, n):
        raise ExecError('symbolic allocation size')
    def mod_skip(self, name):
        return False

class SymPtrBase:
    pass

def simp_cover(out, A, Bs):
    return out

def _b(t):
    if t is TRUE: return 1
    if t is FALSE: return 0
    return t
def _c(t):
    if t.op == 'c': return t.args[0] if t.sort != 'B' else int(t.args[0])
    return t
_I1 = Ty('i', 1)
_IOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
