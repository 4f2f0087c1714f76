"""Hash-consed first-order terms with light simplification.

Sorts: 'B' booleans, 'R' mathematical reals, 'I<w>' bit-vectors, 'F32'/'F64' IEEE-754.
"""
from fractions import Fraction
import struct, math
import numpy as np

class T:
    __slots__ = ('op', 'args', 'sort', 'id')
    def __repr__(self):
        return show(self)
    def __bool__(self):
        raise TypeError('symbolic truth value used as Python bool: %s' % show(self, 3))
    __hash__ = object.__hash__

_tab = {}

def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.sort = sort; t.id = len(_tab)
        _tab[k] = t
    return t

def reset():
    """keep the table (ids stay unique)"""
    pass

def show(t, depth=6):
    if not isinstance(t, T): return str(t)
    if t.op in ('var', 'c'):
        if t.op == 'c' and t.sort in ('F64', 'F32'):
            return repr(fbits2py(t.args[0], t.sort))
        return str(t.args[0])
    if depth == 0: return '..'
    return '(%s %s)' % (t.op, ' '.join(show(a, depth - 1) for a in t.args))

TRUE = mk('c', (True,), 'B')
FALSE = mk('c', (False,), 'B')

def var(name, sort):
    return mk('var', (name,), sort)

_fresh = [0]
def fresh(prefix, sort):
    _fresh[0] += 1
    return mk('var', ('%s!%d' % (prefix, _fresh[0]),), sort)

def B(b):
    if isinstance(b, T): return b
    if b is True or b is False or b in (0, 1): return TRUE if b else FALSE
    raise TypeError('not a formula: %r' % (b,))

# ------------------------------------------------------------ booleans
def Not(a):
    a = B(a)
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'rlt': return rle(a.args[1], a.args[0])
    if a.op == 'rle': return rlt(a.args[1], a.args[0])
    return mk('not', (a,), 'B')

def _nary(op, unit, zero, xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is True or x is False or not isinstance(x, T): x = B(x)
        if x is unit: continue
        if x is zero: return zero
        if x.op == op:
            st.extend(reversed(x.args)); continue
        if x.id in seen: continue
        seen.add(x.id); out.append(x)
    for x in out:
        n = Not(x)
        if n.id in seen: return zero
    if not out: return unit
    if len(out) == 1: return out[0]
    return mk(op, tuple(out), 'B')

def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    return _nary('and', TRUE, FALSE, list(xs))

def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    return _nary('or', FALSE, TRUE, list(xs))

def Implies(a, b):
    return Or(Not(a), b)

def Iff(a, b):
    a = B(a); b = B(b)
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    if Not(a) is b: return FALSE
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')

def Xor(a, b): return Not(Iff(a, b))

def Ite(c, a, b):
    """a, b terms of the same sort"""
    c = B(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
    if c.op == 'not': return Ite(c.args[0], b, a)
    # nested same condition
    if a.op == 'ite' and a.args[0] is c: return Ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c: return Ite(c, a, b.args[2])
    return mk('ite', (c, a, b), a.sort)

# ------------------------------------------------------------ reals
def R(x):
    if isinstance(x, T): return x
    return mk('c', (Fraction(x),), 'R')

R0 = R(0); R1 = R(1)

def radd(a, b):
    if a.op == 'c' and b.op == 'c': return R(a.args[0] + b.args[0])
    if a is R0: return b
    if b is R0: return a
    if a.id > b.id: a, b = b, a
    if (a.op == 'rneg' and a.args[0] is b) or (b.op == 'rneg' and b.args[0] is a): return R0
    return mk('radd', (a, b), 'R')

def rneg(a):
    if a.op == 'c': return R(-a.args[0])
    if a.op == 'rneg': return a.args[0]
    return mk('rneg', (a,), 'R')

def rsub(a, b):
    if a is b: return R0
    return radd(a, rneg(b))

def rmul(a, b):
    if a.op == 'c' and b.op == 'c': return R(a.args[0] * b.args[0])
    if a is R0 or b is R0: return R0
    if a is R1: return b
    if b is R1: return a
    if a.op == 'c' and a.args[0] == -1: return rneg(b)
    if b.op == 'c' and b.args[0] == -1: return rneg(a)
    if a.op == 'rneg': return rneg(rmul(a.args[0], b))
    if b.op == 'rneg': return rneg(rmul(a, b.args[0]))
    if a.id > b.id: a, b = b, a
    return mk('rmul', (a, b), 'R')

def rdiv(a, b):
    if b.op == 'c' and b.args[0] != 0:
        return rmul(a, R(1 / b.args[0]))
    if a is R0: return R0          # callers flag b == 0
    if a.op == 'rneg': return rneg(rdiv(a.args[0], b))
    if b.op == 'rneg': return rneg(rdiv(a, b.args[0]))
    return mk('rdiv', (a, b), 'R')

def rlt(a, b):
    if a.op == 'c' and b.op == 'c': return B(a.args[0] < b.args[0])
    if a is b: return FALSE
    return mk('rlt', (a, b), 'B')

def rle(a, b):
    if a.op == 'c' and b.op == 'c': return B(a.args[0] <= b.args[0])
    if a is b: return TRUE
    return mk('rle', (a, b), 'B')

def req(a, b):
    if a.op == 'c' and b.op == 'c': return B(a.args[0] == b.args[0])
    if a is b: return TRUE
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')

def rsqrt(a):
    if a.op == 'c' and a.args[0] >= 0:
        f = a.args[0]
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator: return R(Fraction(n, d))
    return mk('rsqrt', (a,), 'R')

def rtrunc(a):
    if a.op == 'c':
        f = a.args[0]
        return R(f.numerator // f.denominator if f >= 0 else -((-f.numerator) // f.denominator))
    if a.op == 'rtrunc' or a.op == 'i2r': return a
    if a.op == 'rneg': return rneg(rtrunc(a.args[0]))
    return mk('rtrunc', (a,), 'R')

def ruf(name, *args):
    if name in ('sin', 'cos'):
        r = _trig(name, args[0])
        if r is not None: return r
    if name == 'tan':
        return rdiv(ruf('sin', args[0]), ruf('cos', args[0]))
    if name == 'acos':
        if args[0] is R1: return R0
        return mk('ruf', (name, canon(args[0])), 'R')
    return mk('ruf', (name,) + tuple(args), 'R')

RPI = mk('ruf', ('pi',), 'R')

def _poly(a):
    """{monomial as tuple of term ids: coefficient} of a small polynomial term, and id -> term; None if not polynomial"""
    from . import solve
    N = solve.Norm()
    try: n, d = N.rf(a)
    except solve.TooBig: return None
    if d or len(n) > 12: return None
    return n, N.atoms

def canon(a):
    """canonical form of a small polynomial term (so that equal arguments of functions become the same term)"""
    if a.op in ('c', 'var'): return a
    q = _poly(a)
    if q is None: return a
    return _build(q[0], q[1])

def _build(n, atoms):
    r = R0
    for m in sorted(n):
        t = R1
        for x, e in m:
            for _ in range(e): t = rmul(t, atoms[x])
        r = radd(r, rmul(R(n[m]), t))
    return r

def canonq(a):
    """canonical form of a rational function, numerator over a product of factors"""
    from . import solve
    if a.op in ('c', 'var'): return a
    if any(x.op == 'ite' for x in subterms([a])): return a
    N = solve.Norm()
    try: n, d = N.rf(a)
    except solve.TooBig: return a
    # cancel common powers of single variables
    d = dict(d)
    for k in list(d):
        if len(k) != 1: continue
        (m, c), = k
        if c != 1 or len(m) != 1 or m[0][1] != 1: continue
        a = m[0][0]; e = min([dict(x).get(a, 0) for x in n] + [d[k]])
        if e <= 0: continue
        n = {tuple((b, f - (e if b == a else 0)) for b, f in x if b != a or f > e): y for x, y in n.items()}
        d[k] -= e
        if not d[k]: del d[k]
    t = _build(n, N.atoms)
    if not d: return t
    q = R1
    for k in sorted(d, key=lambda k: sorted(k)):
        f = _build(dict(k), N.atoms)
        for _ in range(d[k]): q = rmul(q, f)
    return rdiv(t, q)

def _trig(name, a):
    """parity, multiples of pi/2 and inverse functions"""
    q = _poly(a)
    if q is None: return mk('ruf', (name, a), 'R')
    n, atoms = q
    n = dict(n)
    quarter = 0
    pim = ((RPI.id, 1),)
    if pim in n:
        k = n[pim] * 2
        if k.denominator == 1: quarter = int(k) % 4; del n[pim]
        elif k.denominator == 3:
            # sums with multiples of pi/6
            m = int(k * 3) % 12; del n[pim]
            b = _build(n, atoms); s_, c_ = ruf('sin', b), ruf('cos', b)
            h, w = R(Fraction(1, 2)), rmul(R(Fraction(1, 2)), rsqrt(R(3)))
            cs = [(R1, R0), (w, h), (h, w)]; x, y = cs[m % 3]
            for _ in range(m // 3): x, y = rneg(y), x
            return radd(rmul(s_, x), rmul(c_, y)) if name == 'sin' else rsub(rmul(c_, x), rmul(s_, y))
    if quarter:
        # sin(x + pi/2) = cos x, sin(x + pi) = -sin x ...
        b = _build(n, atoms)
        s_, c_ = ruf('sin', b), ruf('cos', b)
        if name == 'sin': return [s_, c_, rneg(s_), rneg(c_)][quarter]
        return [c_, rneg(s_), rneg(c_), s_][quarter]
    if not n: return R0 if name == 'sin' else R1
    neg = n[min(n)] < 0
    if neg: n = {m: -c for m, c in n.items()}
    if len(n) == 1:
        (m, c), = n.items()
        if len(m) == 1 and m[0][1] == 1:
            f = atoms[m[0][0]]
            if f.op == 'ruf' and f.args[0] in ('acos', 'asin', 'atan2'):
                r = None
                if f.args[0] in ('acos', 'asin'):
                    u = f.args[1]
                    w = rsqrt(rsub(R1, rmul(u, u)))
                    cs = (u, w) if f.args[0] == 'acos' else (w, u)
                else:
                    y, x = f.args[1], f.args[2]
                    l = rsqrt(radd(rmul(x, x), rmul(y, y)))
                    z = And(req(x, R0), req(y, R0))
                    cs = (Ite(z, R1, rdiv(x, l)), Ite(z, R0, rdiv(y, l)))
                if c == 1: r = cs
                elif c == 2: r = (rsub(rmul(R(2), rmul(cs[0], cs[0])), R1), rmul(R(2), rmul(cs[0], cs[1])))
                elif c == Fraction(1, 2) and f.args[0] == 'acos':
                    h = R(Fraction(1, 2))
                    r = (rsqrt(rmul(h, radd(R1, cs[0]))), rsqrt(rmul(h, rsub(R1, cs[0]))))
                if r is not None:
                    if name == 'cos': return r[0]
                    return rneg(r[1]) if neg else r[1]
    b = _build(n, atoms)
    t = mk('ruf', (name, b), 'R')
    return rneg(t) if neg and name == 'sin' else t

def third_of_acos(a):
    """u if a is acos(u) / 3"""
    if a.op != 'rmul': return None
    for k, f in (a.args, a.args[::-1]):
        if k.op == 'c' and k.args[0] == Fraction(1, 3) and f.op == 'ruf' and f.args[0] == 'acos': return f.args[1]
    return None

def rabs(a):
    return Ite(rlt(a, R0), rneg(a), a)

# ------------------------------------------------------------ bit-vectors
def IW(s): return int(s[1:])

def I(x, w):
    if isinstance(x, T): return x
    return mk('c', (x & ((1 << w) - 1),), 'I%d' % w)

def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x

def leaves(t, limit=64):
    """if t is an ite tree over integer constants, list [(guard, int)], else None"""
    if t.op == 'c': return [(TRUE, t.args[0])]
    if t.op != 'ite': return None
    acc = {}
    n = [0]
    def go(t, g):
        n[0] += 1
        if n[0] > 4 * limit: return False
        if t.op == 'c':
            acc.setdefault(t.args[0], []).append(g); return True
        if t.op != 'ite': return False
        g1 = And(g, t.args[0])
        if g1 is not FALSE and not go(t.args[1], g1): return False
        g2 = And(g, Not(t.args[0]))
        if g2 is not FALSE and not go(t.args[2], g2): return False
        return True
    if not go(t, TRUE): return None
    if len(acc) > limit: return None
    return [(Or(gs), v) for v, gs in acc.items()]

def _istree(t):
    return t.op == 'c' or (t.op == 'ite' and _istree(t.args[1]) and _istree(t.args[2]))

def _treesize(t):
    return 1 if t.op == 'c' else _treesize(t.args[1]) + _treesize(t.args[2])

def imap2(f, a, b, depth=0):
    """apply binary python f on constant leaves of ite trees a, b; None if not trees"""
    if a.op == 'c' and b.op == 'c': return f(a.args[0], b.args[0])
    if not (_istree(a) and _istree(b)): return None
    if _treesize(a) * _treesize(b) > 256: return None
    memo = {}
    def go(a, b):
        k = (a.id, b.id)
        if k in memo: return memo[k]
        if a.op == 'ite':
            r = Ite(a.args[0], go(a.args[1], b), go(a.args[2], b))
        elif b.op == 'ite':
            r = Ite(b.args[0], go(a, b.args[1]), go(a, b.args[2]))
        else:
            r = f(a.args[0], b.args[0])
        memo[k] = r
        return r
    return go(a, b)

def _iop(name, w, x, y):
    M = (1 << w) - 1
    if name == 'iadd': return (x + y) & M
    if name == 'isub': return (x - y) & M
    if name == 'imul': return (x * y) & M
    if name == 'iand': return x & y
    if name == 'ior': return x | y
    if name == 'ixor': return x ^ y
    if name == 'ishl': return (x << y) & M if y < w else 0
    if name == 'ilshr': return x >> y if y < w else 0
    if name == 'iashr': return (sgn(x, w) >> min(y, w - 1)) & M
    if name == 'iudiv': return x // y if y else M
    if name == 'iurem': return x % y if y else x
    if name == 'isdiv':
        a, b = sgn(x, w), sgn(y, w)
        if b == 0: return M if a >= 0 else 1
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & M
    if name == 'isrem':
        a, b = sgn(x, w), sgn(y, w)
        if b == 0: return x
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & M
    raise KeyError(name)

def iop(name, a, b):
    w = IW(a.sort)
    r = imap2(lambda x, y: I(_iop(name, w, x, y), w), a, b)
    if r is not None: return r
    z = I(0, w)
    if name in ('iadd', 'ior', 'ixor'):
        if a is z: return b
        if b is z: return a
    if name in ('isub', 'ishl', 'ilshr', 'iashr') and b is z: return a
    if name == 'imul' and b.op == 'c' and b.args[0] == 1: return a
    return mk(name, (a, b), a.sort)

def icmp(pred, a, b):
    w = IW(a.sort)
    f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y,
         'ult': lambda x, y: x < y, 'ule': lambda x, y: x <= y, 'ugt': lambda x, y: x > y, 'uge': lambda x, y: x >= y,
         'slt': lambda x, y: sgn(x, w) < sgn(y, w), 'sle': lambda x, y: sgn(x, w) <= sgn(y, w),
         'sgt': lambda x, y: sgn(x, w) > sgn(y, w), 'sge': lambda x, y: sgn(x, w) >= sgn(y, w)}[pred]
    r = imap2(lambda x, y: B(f(x, y)), a, b)
    if r is not None: return r
    if pred == 'eq':
        if a is b: return TRUE
        if a.id > b.id: a, b = b, a
        return mk('eq', (a, b), 'B')
    if pred == 'ne': return Not(icmp('eq', a, b))
    if pred in ('ugt', 'uge', 'sgt', 'sge'):
        return icmp({'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred], b, a)
    if a is b: return B(pred in ('ule', 'sle'))
    return mk('i' + pred, (a, b), 'B')

def imap1(f, a):
    return imap2(lambda x, y: f(x), a, I(0, 1))

def icast(kind, a, w2):
    w = IW(a.sort)
    if w == w2: return a
    if kind == 'zext': r = imap1(lambda x: I(x, w2), a)
    elif kind == 'sext': r = imap1(lambda x: I(sgn(x, w), w2), a)
    else: r = imap1(lambda x: I(x, w2), a)
    if r is not None: return r
    return mk('i' + kind, (a, w2), 'I%d' % w2)

# ------------------------------------------------------------ IEEE floats
def fbits2py(bits, sort):
    if sort == 'F64': return struct.unpack('<d', struct.pack('<Q', bits))[0]
    return struct.unpack('<f', struct.pack('<I', bits))[0]

def py2fbits(x, sort):
    if sort == 'F64':
        b = struct.unpack('<Q', struct.pack('<d', float(x)))[0]
        return 0x7ff8000000000000 if x != x else b
    with np.errstate(all='ignore'):
        b = int(np.float32(x).view(np.uint32))
    return 0x7fc00000 if x != x else b

def F(x, sort):
    return mk('c', (py2fbits(x, sort),), sort)

def np_of(bits, sort):
    if sort == 'F64': return np.uint64(bits).view(np.float64)
    return np.uint32(bits).view(np.float32)

def _canon(x, sort):
    if x != x: return 0x7ff8000000000000 if sort == 'F64' else 0x7fc00000
    return int(x.view(np.uint64 if sort == 'F64' else np.uint32))

def np_fop(name, a, b):
    with np.errstate(all='ignore'):
        if name == 'fadd': return a + b
        if name == 'fsub': return a - b
        if name == 'fmul': return a * b
        if name == 'fdiv': return a / b
    raise KeyError(name)

def fop(name, a, b):
    if a.op == 'c' and b.op == 'c':
        return mk('c', (_canon(np_fop(name, np_of(a.args[0], a.sort), np_of(b.args[0], b.sort)), a.sort),), a.sort)
    if name in ('fadd', 'fmul') and a.id > b.id: a, b = b, a
    if name == 'fmul':
        one = F(1.0, a.sort)
        if a is one: return b
        if b is one: return a
    if name == 'fdiv' and b is F(1.0, a.sort): return a
    if name == 'fsub' and b is F(0.0, a.sort): return a       # x - (+0) == x for every x
    if name == 'fadd' and (a is F(-0.0, a.sort)): return b
    if name == 'fadd' and (b is F(-0.0, a.sort)): return a
    return mk(name, (a, b), a.sort)

def fneg(a):
    if a.op == 'c':
        return mk('c', (_canon(-np_of(a.args[0], a.sort), a.sort),), a.sort)
    if a.op == 'fneg': return a.args[0]
    return mk('fneg', (a,), a.sort)

def fcmp(name, a, b):
    """flt, fle, feq (IEEE; false on NaN)"""
    if a.op == 'c' and b.op == 'c':
        x = np_of(a.args[0], a.sort); y = np_of(b.args[0], b.sort)
        return B(bool({'flt': x < y, 'fle': x <= y, 'feq': x == y}[name]))
    if a is b:
        if name == 'flt': return FALSE
        return Not(fisnan(a))
    if name == 'feq' and a.id > b.id: a, b = b, a
    return mk(name, (a, b), 'B')

def fisnan(a):
    if a.op == 'c': return B(bool(np.isnan(np_of(a.args[0], a.sort))))
    if a.op in ('fneg', 'fabs'): return fisnan(a.args[0])
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2].op == 'c':
        return Ite(a.args[0], fisnan(a.args[1]), fisnan(a.args[2]))
    return mk('fisnan', (a,), 'B')

def fisinf(a):
    if a.op == 'c': return B(bool(np.isinf(np_of(a.args[0], a.sort))))
    return mk('fisinf', (a,), 'B')

def fsame(a, b):
    """SMT equality: all NaNs identified, +0 and -0 distinguished"""
    if a is b: return TRUE
    if a.op == 'c' and b.op == 'c': return B(a.args[0] == b.args[0])
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')

def f1(name, a, sort=None):
    """unary: fabs, fsqrt, fcvt (to sort), frti_rtz (integral, toward zero, zero result is +0)"""
    sort = sort or a.sort
    if name == 'fcvt' and sort == a.sort: return a
    if a.op == 'c':
        x = np_of(a.args[0], a.sort)
        with np.errstate(all='ignore'):
            if name == 'fabs': y = np.abs(x)
            elif name == 'fsqrt': y = np.sqrt(x)
            elif name == 'fcvt': y = (np.float64 if sort == 'F64' else np.float32)(x)
            elif name == 'ftrunc0': y = np.trunc(x) + (np.float64 if sort == 'F64' else np.float32)(0.0)
            else: y = None
        if y is not None: return mk('c', (_canon(y, sort),), sort)
    return mk(name, (a,), sort)

# ------------------------------------------------------------ traversal helpers
def subterms(ts):
    seen = set(); out = []
    st = [t for t in ts if isinstance(t, T)]
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id); out.append(t)
        for a in t.args:
            if isinstance(a, T) and a.id not in seen: st.append(a)
    return out

def topo(ts):
    seen = set(); out = []
    st = [(t, 0) for t in ts]
    while st:
        t, ph = st.pop()
        if ph: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, 1))
        for a in t.args:
            if isinstance(a, T) and a.id not in seen: st.append((a, 0))
    return out

def free_vars(ts):
    return [t for t in subterms(ts) if t.op == 'var']

def rebuild(t, args):
    op = t.op
    if op in ('var', 'c'): return t
    f = _REB.get(op)
    if f: return f(t, args)
    return mk(op, args, t.sort)

def _eqr(t, a):
    s = a[0].sort
    if s == 'R': return req(*a)
    if s == 'B': return Iff(*a)
    if s[0] == 'I': return icmp('eq', *a)
    return fsame(*a)

_REB = {
    'not': lambda t, a: Not(a[0]), 'and': lambda t, a: And(*a), 'or': lambda t, a: Or(*a),
    'ite': lambda t, a: Ite(*a), 'eq': _eqr,
    'radd': lambda t, a: radd(*a), 'rneg': lambda t, a: rneg(*a), 'rmul': lambda t, a: rmul(*a),
    'rdiv': lambda t, a: rdiv(*a), 'rlt': lambda t, a: rlt(*a), 'rle': lambda t, a: rle(*a),
    'rsqrt': lambda t, a: rsqrt(*a), 'rtrunc': lambda t, a: rtrunc(*a),
    'fadd': lambda t, a: fop('fadd', *a), 'fsub': lambda t, a: fop('fsub', *a),
    'fmul': lambda t, a: fop('fmul', *a), 'fdiv': lambda t, a: fop('fdiv', *a),
    'fneg': lambda t, a: fneg(*a), 'flt': lambda t, a: fcmp('flt', *a), 'fle': lambda t, a: fcmp('fle', *a),
    'feq': lambda t, a: fcmp('feq', *a), 'fisnan': lambda t, a: fisnan(*a), 'fisinf': lambda t, a: fisinf(*a),
    'fabs': lambda t, a: f1('fabs', a[0]), 'fsqrt': lambda t, a: f1('fsqrt', a[0]),
    'fcvt': lambda t, a: f1('fcvt', a[0], t.sort), 'ftrunc0': lambda t, a: f1('ftrunc0', a[0]),
    'izext': lambda t, a: icast('zext', a[0], a[1]), 'isext': lambda t, a: icast('sext', a[0], a[1]),
    'itrunc': lambda t, a: icast('trunc', a[0], a[1]),
    'iult': lambda t, a: icmp('ult', *a), 'iule': lambda t, a: icmp('ule', *a),
    'islt': lambda t, a: icmp('slt', *a), 'isle': lambda t, a: icmp('sle', *a),
}
for _n in ('iadd', 'isub', 'imul', 'iand', 'ior', 'ixor', 'ishl', 'ilshr', 'iashr', 'iudiv', 'iurem', 'isdiv', 'isrem'):
    _REB[_n] = (lambda n: (lambda t, a: iop(n, *a)))(_n)

def subst(ts, m):
    """simultaneous substitution; m: {T: T}; returns list"""
    memo = {k.id: v for k, v in m.items()}
    for t in topo(ts):
        if t.id in memo: continue
        if any(isinstance(a, T) for a in t.args):
            na = tuple(memo[a.id] if isinstance(a, T) else a for a in t.args)
            memo[t.id] = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
        else:
            memo[t.id] = t
    return [memo[t.id] for t in ts]
