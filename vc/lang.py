"""Specification language: real (R mode) and IEEE (F mode) scalars, vectors, kinds of parameters."""
from .terms import *
from . import terms as tm
from .symex import RV
from fractions import Fraction
import re

def tob(x): return B(x)

class Re:
    """real-valued specification term (nan flag for 'no result' values)"""
    __slots__ = ('t', 'nan')
    def __init__(self, t, nan=FALSE):
        self.t = t if isinstance(t, T) else R(Fraction(t)); self.nan = nan
    @staticmethod
    def of(x):
        if isinstance(x, Re): return x
        if isinstance(x, Out): return Re(x.v.t, x.nan)
        if isinstance(x, RV): return Re(x.v, x.nan)
        return Re(x)
    def _bin(self, o, f):
        if isinstance(o, (list, tuple)): return NotImplemented
        o = Re.of(o)
        return Re(f(self.t, o.t), Or(self.nan, o.nan))
    def __add__(self, o): return self._bin(o, radd)
    def __radd__(self, o): return self._bin(o, lambda a, b: radd(b, a))
    def __sub__(self, o): return self._bin(o, rsub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: rsub(b, a))
    def __mul__(self, o): return self._bin(o, rmul)
    def __rmul__(self, o): return self._bin(o, lambda a, b: rmul(b, a))
    def __truediv__(self, o): return self._bin(o, rdiv)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: rdiv(b, a))
    def __neg__(self): return Re(rneg(self.t), self.nan)
    def __pow__(self, n):
        r = Re(1)
        for _ in range(n): r = r * self
        return r
    def _cmp(self, o, f):
        o = Re.of(o)
        return And(Not(self.nan), Not(o.nan), f(self.t, o.t))
    def __lt__(self, o): return self._cmp(o, rlt)
    def __le__(self, o): return self._cmp(o, rle)
    def __gt__(self, o): return self._cmp(o, lambda a, b: rlt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: rle(b, a))
    def __eq__(self, o): return self._cmp(o, req)
    def __ne__(self, o): return Not(self._cmp(o, req))
    __hash__ = None
    def __repr__(self): return 'Re(%r)' % self.t

class Out:
    """R-mode output scalar: extended real computed by the code"""
    __slots__ = ('rv',)
    def __init__(self, rv): self.rv = rv
    @property
    def v(self): return Re(self.rv.v)
    @property
    def nan(self): return self.rv.nan
    @property
    def inf(self): return self.rv.inf
    @property
    def fin(self): return And(Not(self.rv.nan), Not(self.rv.inf))
    def __repr__(self): return 'Out(%r)' % self.rv
    # arithmetic on outputs goes through the finite value (guard with .fin)
    def __add__(self, o): return self.v + Re.of(o)
    def __radd__(self, o): return Re.of(o) + self.v
    def __sub__(self, o): return self.v - Re.of(o)
    def __rsub__(self, o): return Re.of(o) - self.v
    def __mul__(self, o):
        if isinstance(o, (list, tuple)): return NotImplemented
        return self.v * Re.of(o)
    def __rmul__(self, o): return Re.of(o) * self.v
    def __truediv__(self, o): return self.v / Re.of(o)
    def __neg__(self): return -self.v
    def __lt__(self, o): return And(self.fin, self.v < Re.of(o))
    def __le__(self, o): return And(self.fin, self.v <= Re.of(o))
    def __gt__(self, o): return And(self.fin, self.v > Re.of(o))
    def __ge__(self, o): return And(self.fin, self.v >= Re.of(o))
    def __eq__(self, o): return And(self.fin, self.v == Re.of(o))
    def __ne__(self, o): return Not(self == o)
    __hash__ = None

class Fl:
    """IEEE scalar"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def c(self, o):
        if isinstance(o, Fl): return o.t
        return F(o, self.t.sort)
    def __add__(self, o): return Fl(fop('fadd', self.t, self.c(o)))
    def __sub__(self, o): return Fl(fop('fsub', self.t, self.c(o)))
    def __mul__(self, o): return Fl(fop('fmul', self.t, self.c(o)))
    def __truediv__(self, o): return Fl(fop('fdiv', self.t, self.c(o)))
    def __rsub__(self, o): return Fl(fop('fsub', self.c(o), self.t))
    def __radd__(self, o): return Fl(fop('fadd', self.c(o), self.t))
    def __rmul__(self, o): return Fl(fop('fmul', self.c(o), self.t))
    def __rtruediv__(self, o): return Fl(fop('fdiv', self.c(o), self.t))
    def __neg__(self): return Fl(fneg(self.t))
    def __lt__(self, o): return fcmp('flt', self.t, self.c(o))
    def __le__(self, o): return fcmp('fle', self.t, self.c(o))
    def __gt__(self, o): return fcmp('flt', self.c(o), self.t)
    def __ge__(self, o): return fcmp('fle', self.c(o), self.t)
    def __eq__(self, o): return fcmp('feq', self.t, self.c(o))
    def __ne__(self, o): return Not(fcmp('feq', self.t, self.c(o)))
    __hash__ = None
    @property
    def isnan(self): return fisnan(self.t)
    @property
    def isinf(self): return fisinf(self.t)
    @property
    def isfin(self): return And(Not(fisnan(self.t)), Not(fisinf(self.t)))
    def same(self, o): return fsame(self.t, self.c(o))
    def __repr__(self): return 'Fl(%r)' % self.t

NANV = Re(0, TRUE)

class Vec(list):
    def __add__(self, o): return Vec(a + b for a, b in zip(self, o))
    def __sub__(self, o): return Vec(a - b for a, b in zip(self, o))
    def __neg__(self): return Vec(-a for a in self)
    def __mul__(self, k):
        if isinstance(k, (list, tuple)): return Vec(a * b for a, b in zip(self, k))
        return Vec(a * k for a in self)
    __rmul__ = __mul__
    def __truediv__(self, k):
        if isinstance(k, (list, tuple)): return Vec(a / b for a, b in zip(self, k))
        return Vec(a / k for a in self)
    __hash__ = None

def dot(a, b):
    r = None
    for x, y in zip(a, b):
        r = x * y if r is None else r + x * y
    return r
def cross(a, b):
    return Vec([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
def sqlen(a): return dot(a, a)
def val(o):
    """finite real values of an output structure"""
    if isinstance(o, Out): return o.v
    if isinstance(o, Rec): return Rec({k: val(v) for k, v in o.items()})
    if isinstance(o, (list, tuple)): return Vec(val(x) for x in o)
    return o
def fin(o):
    if isinstance(o, Out): return o.fin
    if isinstance(o, Rec): return And([fin(v) for v in o.values()])
    if isinstance(o, (list, tuple)): return And([fin(x) for x in o])
    return TRUE
def isnan(o):
    if isinstance(o, Out): return o.nan
    if isinstance(o, Fl): return o.isnan
    if isinstance(o, Re): return o.nan
    return Or([isnan(x) for x in o])
def allnan(o):
    return And([isnan(x) for x in o])

def sqrt(x): 
    x = Re.of(x)
    return Re(rsqrt(x.t), x.nan)
def ite(c, a, b):
    c = B(c)
    if isinstance(a, Rec): return Rec({k: ite(c, a[k], b[k]) for k in a})
    if isinstance(a, (list, tuple)): return Vec(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Fl) or isinstance(b, Fl):
        s = (a if isinstance(a, Fl) else b).t.sort
        at = a.t if isinstance(a, Fl) else F(a, s); bt = b.t if isinstance(b, Fl) else F(b, s)
        return Fl(Ite(c, at, bt))
    if isinstance(a, (bool,)) or isinstance(b, bool) or (isinstance(a, T) and a.sort == 'B') or (isinstance(b, T) and b.sort == 'B'):
        return Ite(c, B(a), B(b))
    if isinstance(a, T) or isinstance(b, T) :
        w = IW((a if isinstance(a, T) else b).sort)
        return Ite(c, I(a, w), I(b, w))
    a = Re.of(a); b = Re.of(b)
    return Re(Ite(c, a.t, b.t), Ite(c, a.nan, b.nan))
def iite(c, a, b, w=64):
    """integer-valued ite"""
    return Ite(B(c), I(a, w), I(b, w))
def ival(x, w=64): return I(x, w)
def ieq(a, b):
    w = IW((a if isinstance(a, T) else b).sort)
    return icmp('eq', I(a, w), I(b, w))
def absr(x):
    if isinstance(x, Fl): return ite(x < 0.0, -x, x)
    x = Re.of(x); return ite(x < 0, -x, x)
def rmin(a, b): a, b = Re.of(a), Re.of(b); return ite(a < b, a, b)
def rmax(a, b): a, b = Re.of(a), Re.of(b); return ite(a > b, a, b)
def rfloor(x):
    x = Re.of(x); t = rtrunc(x.t)
    return Re(Ite(rlt(x.t, t), rsub(t, R1), t))
def rceil(x):
    x = Re.of(x); t = rtrunc(x.t)
    return Re(Ite(rlt(t, x.t), radd(t, R1), t))
def is_int(x):
    x = Re.of(x); return req(x.t, rtrunc(x.t))
def uf(name, *a): return Re(ruf(name, *[Re.of(x).t for x in a]))

def eq(o, s):
    """output structure equals specification structure (same NaN-ness, finite, same value)"""
    if isinstance(s, Rec) or isinstance(o, Rec): return And([eq(o[k], s[k]) for k in s])
    if isinstance(s, (list, tuple)): return And([eq(a, b) for a, b in zip(o, s)])
    if isinstance(o, Fl):
        return o.same(s) if not isinstance(s, Fl) else fsame(o.t, s.t)
    if isinstance(o, T):
        if o.sort == 'B': return Iff(o, B(s))
        return ieq(o, s)
    if isinstance(o, Re): o = Out(RV(o.t, o.nan))
    s = Re.of(s)
    return And(Iff(o.nan, s.nan), Or(o.nan, And(Not(o.inf), req(o.rv.v, s.t))))

def near(o, s):
    return eq(o, s)

class Rec(dict):
    __getattr__ = dict.__getitem__

# ------------------------------------------------------------------ parameter kinds
class Kind:
    """n floating scalars and m integer scalars"""
    nf = 0; ni = 0

class KS(Kind):
    nf = 1
    def ctype(self): return 'T'
    def unpack(self, v, f, i): return 'T %s = in[%d];' % (v, f)
    def pack(self, v, f, i): return 'out[%d] = %s;' % (f, v)
    def decl(self, v): return 'T %s{};' % v
    def build(self, fs, is_): return fs[0]
    def flat(self, x): return [x], []
class KV(Kind):
    def __init__(self, n): self.nf = n; self.n = n
    def ctype(self): return 'vm::vec<T,%d>' % self.n
    def unpack(self, v, f, i): return 'vm::vec<T,%d> %s; for (int i_ = 0; i_ < %d; ++i_) %s[i_] = in[%d + i_];' % (self.n, v, self.n, v, f)
    def pack(self, v, f, i): return 'for (int i_ = 0; i_ < %d; ++i_) out[%d + i_] = %s[i_];' % (self.n, f, v)
    def decl(self, v): return 'vm::vec<T,%d> %s;' % (self.n, v)
    def build(self, fs, is_): return Vec(fs)
    def flat(self, x): return list(x), []
class KM(Kind):
    def __init__(self, r, c): self.r = r; self.c = c; self.nf = r * c
    def unpack(self, v, f, i): return 'vm::mat<T,%d,%d> %s; for (int r_ = 0; r_ < %d; ++r_) for (int c_ = 0; c_ < %d; ++c_) %s[c_][r_] = in[%d + r_ * %d + c_];' % (self.r, self.c, v, self.r, self.c, v, f, self.c)
    def pack(self, v, f, i): return 'for (int r_ = 0; r_ < %d; ++r_) for (int c_ = 0; c_ < %d; ++c_) out[%d + r_ * %d + c_] = %s[c_][r_];' % (self.r, self.c, f, self.c, v)
    def decl(self, v): return 'vm::mat<T,%d,%d> %s;' % (self.r, self.c, v)
    def build(self, fs, is_): return Vec(Vec(fs[i * self.c:(i + 1) * self.c]) for i in range(self.r))
    def flat(self, x): return [e for row in x for e in row], []
class KI(Kind):
    ni = 1
    def __init__(self, lo=None, hi=None, cty='long'): self.lo = lo; self.hi = hi; self.cty = cty
    def unpack(self, v, f, i): return '%s %s = (%s)iin[%d];' % (self.cty, v, self.cty, i)
    def pack(self, v, f, i): return 'iout[%d] = (long)%s;' % (i, v)
    def decl(self, v): return '%s %s = 0;' % (self.cty, v)
    def build(self, fs, is_): return is_[0]
    def flat(self, x): return [], [x]
class KB(Kind):
    ni = 1
    lo = 0; hi = 1
    def unpack(self, v, f, i): return 'bool %s = iin[%d] != 0;' % (v, i)
    def pack(self, v, f, i): return 'iout[%d] = %s ? 1 : 0;' % (i, v)
    def decl(self, v): return 'bool %s = false;' % v
    def build(self, fs, is_):
        x = is_[0]
        if isinstance(x, int): return B(x)
        if x.sort == 'B': return x
        return icmp('ne', x, I(0, IW(x.sort)))
    def flat(self, x): return [], [x]
class KRec(Kind):
    def __init__(self, cty, fields, initfmt=None):
        self.cty = cty; self.fields = fields; self.initfmt = initfmt
        self.nf = sum(k.nf for _, k in fields); self.ni = sum(k.ni for _, k in fields)
    def unpack(self, v, f, i):
        out = []
        names = []
        for n, k in self.fields:
            out.append(k.unpack('%s_%s_' % (v, n), f, i)); f += k.nf; i += k.ni; names.append('%s_%s_' % (v, n))
        if self.initfmt: out.append(self.initfmt.format(ty=self.cty, v=v, **{n: '%s_%s_' % (v, n) for n, _ in self.fields}))
        else:
            out.append('%s %s;' % (self.cty, v))
            for n, k in self.fields: out.append('%s.%s = %s_%s_;' % (v, n, v, n))
        return ' '.join(out)
    def pack(self, v, f, i):
        out = []
        for n, k in self.fields:
            out.append(k.pack('%s.%s' % (v, self.get(n)), f, i)); f += k.nf; i += k.ni
        return ' '.join(out)
    def get(self, n): return n
    def decl(self, v): return '%s %s;' % (self.cty, v)
    def build(self, fs, is_):
        r = Rec(); f = i = 0
        for n, k in self.fields:
            r[n] = k.build(fs[f:f + k.nf], is_[i:i + k.ni]); f += k.nf; i += k.ni
        return r
    def flat(self, x):
        fs = []; is_ = []
        for n, k in self.fields:
            a, b = k.flat(x[n]); fs += a; is_ += b
        return fs, is_
class KSeg(KRec):
    def get(self, n): return {'a': 'start()', 'b': 'end()'}[n]
class KA(Kind):
    """C array of k elements"""
    def __init__(self, n, k): self.n = n; self.k = k; self.nf = n * k.nf; self.ni = n * k.ni
    def unpack(self, v, f, i):
        s = '%s %s[%d];' % (self.k.ctype(), v, self.n)
        for j in range(self.n):
            s += ' { ' + self.k.unpack('e_', f + j * self.k.nf, i + j * self.k.ni) + ' %s[%d] = e_; }' % (v, j)
        return s
    def pack(self, v, f, i):
        return ' '.join(self.k.pack('%s[%d]' % (v, j), f + j * self.k.nf, i + j * self.k.ni) for j in range(self.n))
    def decl(self, v): return '%s %s[%d];' % (self.k.ctype(), v, self.n)
    def build(self, fs, is_): return Vec(self.k.build(fs[j * self.k.nf:(j + 1) * self.k.nf], is_[j * self.k.ni:(j + 1) * self.k.ni]) for j in range(self.n))
    def flat(self, x):
        fs = []; is_ = []
        for e in x:
            a, b = self.k.flat(e); fs += a; is_ += b
        return fs, is_
class KVecStd(KA):
    """std::vector of n elements"""
    def unpack(self, v, f, i):
        s = 'std::vector<%s> %s(%d);' % (self.k.ctype(), v, self.n)
        for j in range(self.n):
            s += ' { ' + self.k.unpack('e_', f + j * self.k.nf, i + j * self.k.ni) + ' %s[%d] = e_; }' % (v, j)
        return s
    def decl(self, v): return 'std::vector<%s> %s(%d);' % (self.k.ctype(), v, self.n)

def kind(s):
    m = re.fullmatch(r'V(\d)', s)
    if m: return KV(int(m.group(1)))
    if s == 'S': return KS()
    if s == 'B': return KB()
    m = re.fullmatch(r'M(\d)x(\d)', s)
    if m: return KM(int(m.group(1)), int(m.group(2)))
    m = re.fullmatch(r'I\((-?\d+),(-?\d+)\)', s)
    if m: return KI(int(m.group(1)), int(m.group(2)))
    if s == 'I': return KI()
    if s == 'U': return KI(cty='unsigned long')
    if s == 'I32': return KI(cty='int')
    m = re.fullmatch(r'BB(\d)', s)
    if m:
        n = int(m.group(1))
        return KRec('vm::bbox<T,%d>' % n, [('min', KV(n)), ('max', KV(n))])
    m = re.fullmatch(r'PL(\d)', s)
    if m:
        n = int(m.group(1))
        return KRec('vm::plane<T,%d>' % n, [('distance', KS()), ('normal', KV(n))])
    m = re.fullmatch(r'RAY(\d)', s)
    if m:
        n = int(m.group(1))
        return KRec('vm::ray<T,%d>' % n, [('origin', KV(n)), ('direction', KV(n))])
    m = re.fullmatch(r'LINE(\d)', s)
    if m:
        n = int(m.group(1))
        return KRec('vm::line<T,%d>' % n, [('point', KV(n)), ('direction', KV(n))])
    m = re.fullmatch(r'SEG(\d)', s)
    if m:
        n = int(m.group(1))
        return KSeg('vm::segment<T,%d>' % n, [('a', KV(n)), ('b', KV(n))], '{ty} {v}({a}, {b});')
    if s == 'Q': return KRec('vm::quat<T>', [('r', KS()), ('v', KV(3))])
    m = re.fullmatch(r'A(\d+):(.*)', s)
    if m: return KA(int(m.group(1)), kind(m.group(2)))
    m = re.fullmatch(r'L(\d+):(.*)', s)
    if m: return KVecStd(int(m.group(1)), kind(m.group(2)))
    raise KeyError(s)
KRec.ctype = lambda self: self.cty
KI.ctype = lambda self: self.cty
KB.ctype = lambda self: 'bool'
KM.ctype = lambda self: 'vm::mat<T,%d,%d>' % (self.r, self.c)
