"""Discharging obligations: rational-function normaliser, z3 (in process), z3 / cvc5 (subprocess)."""
from .terms import *
from . import terms as tm
import z3, time, subprocess, tempfile, os, math
from fractions import Fraction

Z3BIN = '/usr/local/bin/z3-new'
for _p in ('/usr/local/bin/z3-new', '/usr/bin/z3-new', '/opt/veriftools/bin/z3-new'):
    if os.path.exists(_p): Z3BIN = _p
CVC5BIN = 'cvc5'

# ------------------------------------------------------------------ polynomials
class Poly:
    """dict monomial -> Fraction; monomial = tuple of (atom id, exp) sorted"""
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
    def key(self): return frozenset(self.d.items())

class TooBig(Exception): pass
LIMIT = 60000

def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + c
        if x == 0: r.pop(m, None)
        else: r[m] = x
    return r
def pneg(a): return {m: -c for m, c in a.items()}
def mmul(m, n):
    if not m: return n
    if not n: return m
    i = j = 0; out = []
    while i < len(m) and j < len(n):
        if m[i][0] == n[j][0]:
            out.append((m[i][0], m[i][1] + n[j][1])); i += 1; j += 1
        elif m[i][0] < n[j][0]: out.append(m[i]); i += 1
        else: out.append(n[j]); j += 1
    out.extend(m[i:]); out.extend(n[j:])
    return tuple(out)
def pmul(a, b, red=None):
    if len(a) * len(b) > 4000000: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n)
            x = r.get(k, 0) + c * e
            if x == 0: r.pop(k, None)
            else: r[k] = x
    if len(r) > LIMIT: raise TooBig()
    return red(r) if red else r
PONE = {(): Fraction(1)}

class Norm:
    """normalise real terms to num/den; den = dict{frozenset poly: exp}"""
    def __init__(self):
        self.memo = {}
        self.atoms = {}      # atom id -> T
        self.squares = {}    # atom id of sqrt -> polynomial of its argument
        self.cubes = {}
    def atom(self, t):
        self.atoms[t.id] = t
        return {((t.id, 1),): Fraction(1)}
    def reduce(self, p):
        """apply s^2 -> arg, c^3 -> arg"""
        if not self.squares and not self.cubes: return p
        for _ in range(50):
            hit = False
            out = {}
            for m, c in p.items():
                tgt = None
                for a, e in m:
                    if e >= 2 and a in self.squares: tgt = (a, e, 2, self.squares[a]); break
                    if e >= 3 and a in self.cubes: tgt = (a, e, 3, self.cubes[a]); break
                if tgt is None:
                    x = out.get(m, 0) + c
                    if x == 0: out.pop(m, None)
                    else: out[m] = x
                    continue
                hit = True
                a, e, k, q = tgt
                rest = tuple((x, (y if x != a else e - k)) for x, y in m if not (x == a and e == k))
                for n, d in q.items():
                    kk = mmul(rest, n)
                    x = out.get(kk, 0) + c * d
                    if x == 0: out.pop(kk, None)
                    else: out[kk] = x
            p = out
            if len(p) > LIMIT: raise TooBig()
            if not hit: return p
        raise TooBig()
    def rf(self, t):
        for s in tm.topo([t]):
            if s.sort == 'R' and s.id not in self.memo: self.memo[s.id] = self._rf(s)
        return self.memo[t.id]
    def _rf(self, s):
        op = s.op
        if op == 'c':
            c = s.args[0]
            return ({(): c} if c else {}, {})
        M = self.memo
        if op == 'radd':
            return self.add(M[s.args[0].id], M[s.args[1].id])
        if op == 'rneg':
            n, d = M[s.args[0].id]
            return (pneg(n), d)
        if op == 'rmul':
            (n1, d1), (n2, d2) = M[s.args[0].id], M[s.args[1].id]
            n = pmul(n1, n2, self.reduce)
            if not n: return ({}, {})
            d = dict(d1)
            for k, e in d2.items(): d[k] = d.get(k, 0) + e
            return self.cancel(n, d)
        if op == 'rdiv':
            (n1, d1), (n2, d2) = M[s.args[0].id], M[s.args[1].id]
            if not n2: return (self.atom(s), {})
            n = n1
            for k, e in d2.items():
                for _ in range(e): n = pmul(n, dict(k), self.reduce)
            d = dict(d1)
            # normalise constant factor of n2
            if len(n2) == 1:
                (m, c), = n2.items()
                n = {a: b / c for a, b in n.items()}
                for a, e in m:
                    k = frozenset({((a, 1),): Fraction(1)}.items()); d[k] = d.get(k, 0) + e
            else:
                lead = n2[min(n2)]
                n = {a: b / lead for a, b in n.items()}
                k = frozenset((a, b / lead) for a, b in n2.items())
                d[k] = d.get(k, 0) + 1
            return self.cancel(n, d)
        if op == 'rsqrt':
            n, d = M[s.args[0].id]
            if s.id not in self.squares and not d:
                self.squares[s.id] = n
            return (self.atom(s), {})
        if op == 'ruf' and s.args[0] == 'cbrt':
            n, d = M[s.args[1].id]
            if not d: self.cubes[s.id] = n
            return (self.atom(s), {})
        return (self.atom(s), {})
    def cancel(self, n, d):
        """cancel monomial denominators"""
        if not d or not n: return (n, d if n else {})
        for k in list(d):
            if len(k) == 1:
                (m, c), = k
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    e = min(dict(mm).get(a, 0) for mm in n)
                    e = min(e, d[k])
                    if e > 0:
                        nn = {}
                        for mm, c in n.items():
                            nn[tuple((x, y - e if x == a else y) for x, y in mm if not (x == a and y == e))] = c
                        n = nn
                        if d is not None:
                            d = dict(d)
                            d[k] -= e
                            if d[k] == 0: del d[k]
            elif frozenset(n.items()) == k:
                n = PONE; d = dict(d); d[k] -= 1
                if d[k] == 0: del d[k]
        return (n, d)
    def add(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if not n1: return y
        if not n2: return x
        if d1 == d2: 
            n = padd(n1, n2)
            return (n, d1) if n else ({}, {})
        l = dict(d1)
        for k, e in d2.items(): l[k] = max(l.get(k, 0), e)
        for k, e in l.items():
            for _ in range(e - d1.get(k, 0)): n1 = pmul(n1, dict(k), self.reduce)
            for _ in range(e - d2.get(k, 0)): n2 = pmul(n2, dict(k), self.reduce)
        n = padd(n1, n2)
        return (n, l) if n else ({}, {})
    def is_zero(self, t):
        n, d = self.rf(t)
        n = self.reduce(n)
        return not n

def ratio(p, q):
    """k > 0 rational with p = k^2 q"""
    if len(p) != len(q) or not p: return None
    m = next(iter(p))
    if m not in q: return None
    r = p[m] / q[m]
    if r <= 0: return None
    import math
    a, b = math.isqrt(r.numerator), math.isqrt(r.denominator)
    if a * a != r.numerator or b * b != r.denominator: return None
    for m, c in p.items():
        if m not in q or c != r * q[m]: return None
    return Fraction(a, b)

class Laurent:
    """polynomials over atoms with integer exponents: every non-constant denominator is an atom of its own (assumed non-zero,
    the caller shows that), and a variable that occurs alone and linearly in a denominator is expressed through it.
    Equations among the hypotheses that fix the square of an atom are used as rewrite rules."""
    def __init__(self, hyps=(), signs=None):
        self.atoms = {}
        self.hyps = hyps
        self.signs = signs or {}    # variable id -> its known sign
        self.sub = {}        # variable id -> Laurent polynomial
        self.dens = {}       # den id -> True (atom)
        self.squares = {}    # atom id -> polynomial for its square
        self.cubes = {}
        self.pairs = {}      # {sqrt atom, sqrt atom} -> polynomial for their product
        self.roots = {}      # sqrt atom id -> its radicand
        self.memo = {}
    def reset(self):
        self.memo = {}; self.roots = {}; self.pairs = {}
    def sqrt_atom(self, s, P):
        """sqrt(k^2 P) is k sqrt(P), and sqrt(P) sqrt(Q) is k sqrt(R) if P Q = k^2 R"""
        if len(P) == 1:
            # sqrt(k^2) where the sign of k is known
            (m, c), = P.items()
            k = ratio({(): c}, {(): Fraction(1)})
            if k is not None and all(e % 2 == 0 and (a in self.signs or a in self.roots) for a, e in m):
                for a, e in m:
                    if (e // 2) % 2: k *= self.signs.get(a, 1)
                return {tuple((a, e // 2) for a, e in m): k}
        for a, Q in self.roots.items():
            k = ratio(P, Q)
            if k is not None and a != s.id: return {((a, 1),): k}
        self.squares[s.id] = P
        new = s.id not in self.roots
        self.roots[s.id] = P
        if new and 3 <= len(self.roots) <= 6:
            R = list(self.roots.items())
            for i in range(len(R)):
                for j in range(i):
                    key = tuple(sorted((R[i][0], R[j][0])))
                    if key in self.pairs or len(R[i][1]) * len(R[j][1]) > 400: continue
                    pr = self.mul(R[i][1], R[j][1])
                    for n in range(len(R)):
                        if n == i or n == j: continue
                        k = ratio(pr, R[n][1])
                        if k is not None: self.pairs[key] = {((R[n][0], 1),): k}; break
        return self.atom(s)
    def atom(self, t, e=1):
        self.atoms[t.id] = t
        return {((t.id, e),): Fraction(1)}
    def mul(self, a, b):
        if len(a) * len(b) > 3000000: raise TooBig()
        r = {}
        for m, c in a.items():
            for n, e in b.items():
                k = mmul(m, n)
                if any(x[1] == 0 for x in k): k = tuple(x for x in k if x[1] != 0)
                x = r.get(k, 0) + c * e
                if x == 0: r.pop(k, None)
                else: r[k] = x
        if len(r) > LIMIT: raise TooBig()
        return self.reduce(r)
    def reduce(self, p):
        if not self.squares and not self.cubes: return p
        for _ in range(60):
            hit = False
            out = {}
            for m, c in p.items():
                tgt = None
                for a, e in m:
                    if e >= 2 and a in self.squares: tgt = (a, 2, self.squares[a]); break
                    if e >= 3 and a in self.cubes: tgt = (a, 3, self.cubes[a]); break
                if tgt is None and self.pairs:
                    pos = [a for a, e in m if e >= 1 and a in self.roots]
                    for i in range(len(pos)):
                        for j in range(i):
                            key = tuple(sorted((pos[i], pos[j])))
                            if key in self.pairs: tgt = (key, 1, self.pairs[key])
                if tgt is None:
                    x = out.get(m, 0) + c
                    if x == 0: out.pop(m, None)
                    else: out[m] = x
                    continue
                hit = True
                a, k, q = tgt
                rest = tuple((x, y - k if x in (a if isinstance(a, tuple) else (a,)) else y) for x, y in m)
                rest = tuple(x for x in rest if x[1] != 0)
                for n, d in q.items():
                    kk = mmul(rest, n)
                    if any(x[1] == 0 for x in kk): kk = tuple(x for x in kk if x[1] != 0)
                    x = out.get(kk, 0) + c * d
                    if x == 0: out.pop(kk, None)
                    else: out[kk] = x
            p = out
            if len(p) > LIMIT: raise TooBig()
            if not hit: return p
        raise TooBig()
    def lp(self, t):
        if t.id in self.memo: return self.memo[t.id]
        for s in tm.topo([t]):
            if s.sort == 'R' and s.id not in self.memo: self.memo[s.id] = self._lp(s)
        return self.memo[t.id]
    def _lp(self, s):
        if s.id in self.dens: return self.atom(s)
        return self._def(s)
    def _def(self, s):
        op = s.op; M = self.memo
        if op == 'c': return {(): s.args[0]} if s.args[0] else {}
        if op == 'radd': return padd(M[s.args[0].id], M[s.args[1].id])
        if op == 'rneg': return pneg(M[s.args[0].id])
        if op == 'rmul': return self.mul(M[s.args[0].id], M[s.args[1].id])
        if op == 'rdiv':
            d = M[s.args[1].id]
            if len(d) == 1:
                (m, c), = d.items()
                return self.mul(M[s.args[0].id], {tuple((a, -e) for a, e in m): 1 / c})
            if not d: return self.atom(s)
            return self.mul(M[s.args[0].id], self.atom(s.args[1], -1))
        if op == 'rsqrt':
            return self.sqrt_atom(s, M[s.args[0].id])
        if op == 'ruf' and s.args[0] == 'cbrt':
            self.cubes[s.id] = M[s.args[1].id]
            return self.atom(s)
        if op == 'var' and s.id in self.sub: return self.sub[s.id]
        return self.atom(s)
    def _def2(self, s):
        """defining polynomial of a denominator atom"""
        for x in s.args: 
            if isinstance(x, T): self.lp(x)
        return self._def(s)
    def prepare(self, roots):
        """collect denominators, and eliminate one variable by each"""
        order = [s.args[1] for s in tm.topo(roots) if s.op == 'rdiv' and s.args[1].op not in ('c', 'var', 'rsqrt', 'ite')]
        seen = set(); dl = []
        for d in order:
            if d.id not in seen: seen.add(d.id); dl.append(d)
        if len(dl) > 40: raise TooBig()
        for d in dl:
            self.memo = {}
            p = self.lp(d)
            if len(p) <= 1: continue
            # a variable alone in one monomial and nowhere else
            cnt = {}
            for m in p:
                for a, e in m: cnt[a] = cnt.get(a, 0) + 1
            pick = None
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and cnt[m[0][0]] == 1 and self.atoms[m[0][0]].op == 'var':
                    pick = (m, c); break
            if pick:
                m, c = pick
                rest = {k: -x / c for k, x in p.items() if k != m}
                v = m[0][0]
                self.sub[v] = padd({((d.id, 1),): 1 / c}, rest)
                self.atoms[d.id] = d
                # earlier substitutions must not mention v
                for o in list(self.sub):
                    if o != v: self.sub[o] = self.replace(self.sub[o], v)
            self.dens[d.id] = True
        self.memo = {}
    def replace(self, p, v):
        out = {}
        for m, c in p.items():
            e = dict(m).get(v, 0)
            if e == 0: out = padd(out, {m: c}); continue
            if e < 0: raise TooBig()
            q = {tuple(x for x in m if x[0] != v): c}
            for _ in range(e): q = self.mul(q, self.sub[v])
            out = padd(out, q)
        return out
    def use_hyps(self):
        for h in self.hyps:
            if h.op != 'eq' or h.args[0].sort != 'R': continue
            try: p = self.reduce(padd(self.lp(h.args[0]), pneg(self.lp(h.args[1]))))
            except TooBig: continue
            if not p or len(p) > 40: continue
            best = None
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 2 and m[0][0] not in self.squares:
                    a = m[0][0]
                    if any(x == a and mm != m for mm in p for x, _ in mm): continue
                    if best is None or a > best[0]: best = (a, m, c)
            if best:
                a, m, c = best
                self.squares[a] = {k: -x / c for k, x in p.items() if k != m}
                for o in list(self.squares):
                    try: self.squares[o] = self.reduce(self.squares[o])
                    except TooBig: self.squares.pop(a); break
    def is_zero(self, t):
        self.prepare([t])
        if self.hyps: self.use_hyps(); self.reset()
        return not self.clear(self.reduce(self.lp(t)))
    def clear(self, p):
        """multiply by the square roots occurring in denominators (non-zero there)"""
        for _ in range(6):
            if not p: return p
            neg = {}
            for m in p:
                for a, e in m:
                    if e < 0 and a in self.roots: neg[a] = min(neg.get(a, 0), e)
            if not neg: return p
            p = self.mul(p, {tuple((a, -e + (-e) % 2) for a, e in sorted(neg.items())): Fraction(1)})
        return p

def constant_value(t, hyps):
    """the rational constant t equals under the equations among hyps, if the normaliser finds one"""
    eqs = []
    for h in hyps:
        for x in (h.args if h.op == 'and' else (h,)):
            if x.op == 'eq' and x.args[0].sort == 'R' and not any(y.op == 'ite' for y in tm.subterms([x])): eqs.append(x)
    try:
        L = Laurent(eqs)
        L.prepare([t])
        if eqs: L.use_hyps(); L.reset()
        p = L.reduce(L.lp(t))
    except TooBig: return None
    if not p: return Fraction(0)
    if len(p) == 1 and () in p: return p[()]
    return None

def signs_of(hyps):
    r = {}
    for h in hyps:
        for x in (h.args if h.op == 'and' else (h,)):
            if x.op in ('rlt', 'rle'):
                a, b = x.args
                if b.op == 'var' and a.op == 'c' and a.args[0] >= 0: r[b.id] = 1
                if a.op == 'var' and b.op == 'c' and b.args[0] <= 0: r[a.id] = -1
    return r

def laurent_identity(a, b, hyps=(), signs=None):
    try: return Laurent(hyps, signs).is_zero(rsub(a, b))
    except TooBig: return False

def poly_identity(a, b):
    """a == b as rational functions (wherever denominators are non-zero)"""
    try:
        return Norm().is_zero(rsub(a, b))
    except TooBig:
        return False

def is_sum_of_squares(t):
    try:
        N = Norm()
        n, d = N.rf(t)
    except TooBig:
        return False
    if d:
        return False
    for m, c in n.items():
        if c < 0: return False
        for a, e in m:
            if e % 2 and N.atoms[a].op != 'rsqrt': return False
    return True

# ------------------------------------------------------------------ z3 lowering
RNE = z3.RNE()
class Lower:
    def __init__(self, absrem=False):
        self.absrem = absrem     # integer remainders by their defining facts for small quotients only (sound for proofs)
        self.m = {}
        self.ax = []
        self.vars = {}
        self.ufs = {}
        self.n = 0
    def fs(self, s): return z3.Float64() if s == 'F64' else z3.Float32()
    def t(self, root):
        for s in tm.topo([root]):
            if s.id not in self.m: self.m[s.id] = self._l(s)
        return self.m[root.id]
    def newreal(self, p='q'):
        self.n += 1
        return z3.Real('%s_aux_%d' % (p, self.n))
    def _l(self, s):
        op, sort = s.op, s.sort
        a = [self.m[x.id] if isinstance(x, T) else x for x in s.args]
        if op == 'var':
            nm = s.args[0]
            if sort == 'R': v = z3.Real(nm)
            elif sort == 'B': v = z3.Bool(nm)
            elif sort[0] == 'I': v = z3.BitVec(nm, IW(sort))
            elif sort == 'Z': v = z3.Int(nm)
            else: v = z3.FP(nm, self.fs(sort))
            self.vars[s] = v
            return v
        if op == 'c':
            v = s.args[0]
            if sort == 'B': return z3.BoolVal(v)
            if sort == 'R': return z3.RealVal(str(v))
            if sort == 'Z': return z3.IntVal(v)
            if sort[0] == 'I': return z3.BitVecVal(v, IW(sort))
            fs = self.fs(sort)
            x = np_of(v, sort)
            if x != x: return z3.fpNaN(fs)
            return z3.fpBVToFP(z3.BitVecVal(v, 64 if sort == 'F64' else 32), fs)
        if op == 'not': return z3.Not(a[0])
        if op == 'and': return z3.And(*a)
        if op == 'or': return z3.Or(*a)
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op == 'eq': return a[0] == a[1]
        if op == 'radd': return a[0] + a[1]
        if op == 'rneg': return -a[0]
        if op == 'rmul': return a[0] * a[1]
        if op == 'rlt': return a[0] < a[1]
        if op == 'rle': return a[0] <= a[1]
        if op == 'rdiv':
            q = self.newreal('q')
            self.ax.append(z3.Implies(a[1] != 0, q * a[1] == a[0]))
            return q
        if op == 'rsqrt':
            q = self.newreal('s')
            self.ax.append(z3.Implies(a[0] >= 0, z3.And(q >= 0, q * q == a[0])))
            return q
        if op == 'rtrunc':
            self.n += 1
            r = z3.ToReal(z3.Int('tr_aux_%d' % self.n))
            self.ax.append(z3.And(z3.Implies(a[0] >= 0, z3.And(r <= a[0], a[0] < r + 1, r >= 0)), z3.Implies(a[0] < 0, z3.And(a[0] <= r, r - 1 < a[0], r <= 0))))
            return r
        if op == 'ruf':
            return self.uf(s, a)
        if op == 'i2r': return z3.ToReal(z3.BV2Int(a[0], True))
        if op == 'u2r': return z3.ToReal(z3.BV2Int(a[0], False))
        if op == 'r2i': return z3.Int2BV(z3.ToInt(a[0]), IW(sort))
        if op == 'z2r': return z3.ToReal(a[0])
        if op == 'zle': return a[0] <= a[1]
        if op == 'zlt': return a[0] < a[1]
        if op == 'zadd': return a[0] + a[1]
        if op[0] == 'i' and op != 'i2f':
            if op == 'iadd': return a[0] + a[1]
            if op == 'isub': return a[0] - a[1]
            if op == 'imul': return a[0] * a[1]
            if op == 'iand': return a[0] & a[1]
            if op == 'ior': return a[0] | a[1]
            if op == 'ixor': return a[0] ^ a[1]
            if op == 'ishl': return a[0] << a[1]
            if op == 'ilshr': return z3.LShR(a[0], a[1])
            if op == 'iashr': return a[0] >> a[1]
            if op == 'iudiv': return z3.UDiv(a[0], a[1])
            if op in ('iurem', 'isrem') and self.absrem and s.args[1].op != 'c':
                self.n += 1
                x, c = a
                r = z3.BitVec('rem_aux_%d' % self.n, IW(sort))
                pre = z3.And(x >= 0, c > 0) if op == 'isrem' else c != 0
                self.ax.append(z3.Implies(pre, z3.And(z3.ULT(r, c), z3.Implies(z3.ULT(x, c), r == x), z3.Implies(z3.And(z3.UGE(x, c), z3.ULT(x - c, c)), r == x - c))))
                return r
            if op == 'iurem': return z3.URem(a[0], a[1])
            if op == 'isdiv': return a[0] / a[1]
            if op == 'isrem': return z3.SRem(a[0], a[1])
            if op == 'iult': return z3.ULT(a[0], a[1])
            if op == 'iule': return z3.ULE(a[0], a[1])
            if op == 'islt': return a[0] < a[1]
            if op == 'isle': return a[0] <= a[1]
            if op == 'izext': return z3.ZeroExt(a[1] - IW(s.args[0].sort), a[0])
            if op == 'isext': return z3.SignExt(a[1] - IW(s.args[0].sort), a[0])
            if op == 'itrunc': return z3.Extract(a[1] - 1, 0, a[0])
        if op == 'sovf':
            x, y = a[1], a[2]
            if a[0] == 'add': return z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
            if a[0] == 'sub': return z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
            return z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
        if op == 'fadd': return z3.fpAdd(RNE, a[0], a[1])
        if op == 'fsub': return z3.fpSub(RNE, a[0], a[1])
        if op == 'fmul': return z3.fpMul(RNE, a[0], a[1])
        if op == 'fdiv': return z3.fpDiv(RNE, a[0], a[1])
        if op == 'fneg': return z3.fpNeg(a[0])
        if op == 'fabs': return z3.fpAbs(a[0])
        if op == 'fsqrt': return z3.fpSqrt(RNE, a[0])
        if op == 'flt': return z3.fpLT(a[0], a[1])
        if op == 'fle': return z3.fpLEQ(a[0], a[1])
        if op == 'feq': return z3.fpEQ(a[0], a[1])
        if op == 'fisnan': return z3.fpIsNaN(a[0])
        if op == 'fisinf': return z3.fpIsInf(a[0])
        if op == 'fcvt': return z3.fpFPToFP(RNE, a[0], self.fs(sort))
        if op == 'ftrunc0':
            r = z3.fpRoundToIntegral(z3.RTZ(), a[0])
            return z3.If(z3.fpIsZero(r), z3.fpPlusZero(self.fs(sort)), r)
        if op == 'frti_trunc': return z3.fpRoundToIntegral(z3.RTZ(), a[0])
        if op == 'frti_floor': return z3.fpRoundToIntegral(z3.RTN(), a[0])
        if op == 'frti_ceil': return z3.fpRoundToIntegral(z3.RTP(), a[0])
        if op == 'frti_round': return z3.fpRoundToIntegral(z3.RNA(), a[0])
        if op == 'f2i': return z3.fpToSBV(z3.RTZ(), a[0], z3.BitVecSort(a[1]))
        if op == 'f2u': return z3.fpToUBV(z3.RTZ(), a[0], z3.BitVecSort(a[1]))
        if op == 'i2f': return z3.fpSignedToFP(RNE, a[0], self.fs(sort))
        if op == 'u2f': return z3.fpUnsignedToFP(RNE, a[0], self.fs(sort))
        if op == 'fuf':
            fs = [x for x in a if not isinstance(x, str)]
            key = ('fuf', s.args[0], sort, len(fs))
            if key not in self.ufs:
                self.ufs[key] = z3.Function('fuf_%s_%s' % (s.args[0], sort), *([x.sort() for x in fs] + [self.fs(sort)]))
            return self.ufs[key](*fs)
        if op == 'bvar': return a[0]
        raise KeyError(op)
    def uf(self, s, a):
        name = s.args[0]
        lst = self.ufs.setdefault(name, [])
        q = self.newreal(name)
        args = a[1:]
        # congruence with earlier applications
        for q2, a2 in lst:
            self.ax.append(z3.Implies(z3.And(*[x == y for x, y in zip(args, a2)]), q == q2))
        lst.append((q, args))
        x = args[0] if args else None
        if name == 'cbrt':
            self.ax.append(q * q * q == x)
        if name in ('sin', 'cos'):
            other = 'cos' if name == 'sin' else 'sin'
            self.ax.append(z3.And(q <= 1, q >= -1))
            for q2, a2 in self.ufs.get(other, []):
                if a2[0].eq(x):
                    self.ax.append(q * q + q2 * q2 == 1)
        if name == 'acos':
            self.ax.append(q >= 0)
        if name == 'pi':
            self.ax.append(z3.And(q > z3.Q(314159265, 100000000), q < z3.Q(314159266, 100000000)))
        return q

class Result:
    __slots__ = ('status', 'model', 'backend', 'time', 'detail')
    def __init__(self, status, model=None, backend='', t=0.0, detail=''):
        self.status = status; self.model = model; self.backend = backend; self.time = t; self.detail = detail

def _val(sort, v):
    if v is None: return None
    if sort == 'R':
        if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return Fraction(0)
    if sort == 'B': return z3.is_true(v)
    if sort == 'Z': return v.as_long()
    if sort[0] == 'I': return v.as_long()
    # float: bits
    if z3.is_fp(v):
        if v.isNaN(): return 0x7ff8000000000000 if sort == 'F64' else 0x7fc00000
        b = z3.simplify(z3.fpToIEEEBV(v))
        if z3.is_bv_value(b): return b.as_long()
    return 0

class LinLower(Lower):
    """products and quotients of variables are unconstrained atoms (sound for proofs only)"""
    def _l(self, s):
        if s.op == 'rmul' and s.args[0].op != 'c' and s.args[1].op != 'c':
            v = self.newreal('m')
            if s.args[0] is s.args[1]: self.ax.append(v >= 0)
            return v
        if s.op == 'rdiv' and s.args[1].op != 'c': return self.newreal('q')
        if s.op == 'rsqrt':
            v = self.newreal('s'); self.ax.append(v >= 0); return v
        if s.op == 'ruf': return self.newreal('u')
        return Lower._l(self, s)

def has_nonlinear(ts):
    return any(s.op in ('rdiv', 'rsqrt', 'ruf') or (s.op == 'rmul' and s.args[0].op != 'c' and s.args[1].op != 'c') for s in tm.subterms(ts))

def z3_linear(hyps, goal, ms):
    L = LinLower()
    s = z3.Solver(); s.set('timeout', int(ms))
    t = time.time()
    for h in hyps: s.add(L.t(h))
    s.add(z3.Not(L.t(goal)))
    for x in L.ax: s.add(x)
    try: r = s.check()
    except z3.Z3Exception: return Result('unknown', backend='z3')
    return Result('proved' if r == z3.unsat else 'unknown', backend='z3:linear', t=time.time() - t)

class PolyLower(Lower):
    """every comparison of reals is expanded to a polynomial whose monomials are unconstrained atoms (even ones non-negative);
    sound for proofs only"""
    def __init__(self, eqs=()):
        Lower.__init__(self)
        self.N = Laurent(eqs)
        self.mon = {}
        self.memo = {}
    def setup(self, roots):
        N = self.N
        N.prepare(roots)
        if N.hyps: N.use_hyps(); N.reset()
    def mono(self, m):
        if m not in self.mon:
            v = self.mon[m] = self.newreal('m')
            if len(m) == 1 and m[0][1] == 1: self.real_atom(m[0][0], v)
            if all(e % 2 == 0 or self.nonneg_atom(a) for a, e in m): self.ax.append(v >= 0)
            if len(m) > 1 or m[0][1] != 1:
                # monomials with denominators: sign agrees with the one of the positive power
                pass
        return self.mon[m]
    def nonneg_atom(self, a):
        t = self.N.atoms[a]
        return t.op == 'rsqrt' or (t.op == 'ruf' and t.args[0] == 'acos')
    def real_atom(self, a, v):
        t = self.N.atoms[a]
        if t.op == 'ite':
            c = self.t(t.args[0])
            self.ax.append(z3.If(c, v == self.poly(t.args[1]), v == self.poly(t.args[2])))
        elif a in self.N.dens:
            self.ax.append(v == self.pz(self.N._def2(t)))
    def pz(self, p):
        r = z3.RealVal(0)
        terms = []
        for m, c in p.items():
            q = z3.Q(c.numerator, c.denominator)
            terms.append(q if m == () else q * self.mono(m))
        return z3.Sum(terms) if terms else r
    def zero_axioms(self):
        """x = 0 iff x^2 = 0, and products with a zero factor vanish"""
        byatom = {}
        for m in list(self.mon):
            for a, e in m:
                if e > 0 and m != ((a, 1),): byatom.setdefault(a, []).append(m)
        for a in set(byatom) | set(self.N.squares):
            x = ((a, 1),)
            if a in self.N.dens: continue
            v = self.mono(x)
            for m in byatom.get(a, []): self.ax.append(z3.Implies(v == 0, self.mon[m] == 0))
            sq = ((a, 2),)
            if sq in self.mon: self.ax.append(z3.Implies(self.mon[sq] <= 0, v == 0))
            if a in self.N.squares:
                q = self.pz(self.N.squares[a])
                self.ax.append((v == 0) == (q == 0)); self.ax.append(q >= 0)
    def poly(self, t): return self.pz(self.N.reduce(self.N.lp(t)))
    def t(self, root):
        for s in tm.topo([root]):
            if s.id not in self.memo and s.sort == 'B': self.memo[s.id] = self._b(s)
        return self.memo[root.id]
    def _b(self, s):
        op = s.op
        if op in ('rlt', 'rle') or (op == 'eq' and s.args[0].sort == 'R'):
            d = self.poly(rsub(s.args[0], s.args[1]))
            return d < 0 if op == 'rlt' else d <= 0 if op == 'rle' else d == 0
        a = [self.memo[x.id] if isinstance(x, T) and x.sort == 'B' else None for x in s.args]
        if op == 'c': return z3.BoolVal(s.args[0])
        if op == 'and': return z3.And(*a)
        if op == 'or': return z3.Or(*a)
        if op == 'not': return z3.Not(a[0])
        if op == 'ite': return z3.If(a[0], a[1], a[2])
        if op in ('eq', 'iff') and a[0] is not None: return a[0] == a[1]
        return z3.Bool('b!%d' % s.id)

def z3_polylin(hyps, goal, ms):
    t = time.time()
    try:
        eqs = []
        for h in hyps:
            for x in (h.args if h.op == 'and' else (h,)):
                if x.op == 'eq' and x.args[0].sort == 'R' and not any(y.op == 'ite' for y in tm.subterms([x])): eqs.append(x)
        L = PolyLower(eqs)
        L.setup([h for h in hyps] + [goal])
        s = z3.Solver(); s.set('timeout', int(ms))
        for h in hyps: s.add(L.t(h))
        s.add(z3.Not(L.t(goal)))
        L.zero_axioms()
        for x in L.ax: s.add(x)
        r = s.check()
    except (TooBig, z3.Z3Exception, KeyError, RecursionError): return Result('unknown', backend='z3')
    return Result('proved' if r == z3.unsat else 'unknown', backend='z3:polylin', t=time.time() - t)

def extract_model(L, m):
    out = {}
    for t, v in L.vars.items():
        x = m.eval(v, model_completion=True)
        out[t] = _val(t.sort, x)
    return out

def z3_inproc(hyps, goal, ms, tactic=None, absrem=False):
    """status proved / refuted / unknown"""
    L = Lower(absrem)
    try:
        hs = [L.t(h) for h in hyps]
        g = L.t(goal)
    except RecursionError:
        return Result('unknown', backend='z3')
    if tactic:
        s = z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    s.set('timeout', int(ms))
    for h in hs: s.add(h)
    for x in L.ax: s.add(x)
    s.add(z3.Not(g))
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return Result('unknown', backend='z3', t=time.time() - t, detail=str(e))
    dt = time.time() - t
    if r == z3.unsat: return Result('proved', backend='z3' + (':' + tactic if tactic else ''), t=dt)
    if r == z3.sat: return Result('refuted', extract_model(L, s.model()), 'z3', dt)
    return Result('unknown', backend='z3', t=dt, detail=s.reason_unknown())

def smt2(hyps, goal, logic='ALL'):
    L = Lower()
    hs = [L.t(h) for h in hyps]; g = L.t(goal)
    s = z3.Solver()
    for h in hs: s.add(h)
    for x in L.ax: s.add(x)
    s.add(z3.Not(g))
    txt = s.to_smt2()
    return txt, L

def run_bins(hyps, goal, secs, which=('z3', 'cvc5', 'z3nl')):
    """run subprocess solvers in parallel; first definite answer wins (models only reported as refuted)"""
    txt, L = smt2(hyps, goal)
    isfp = 'FloatingPoint' in txt
    d = tempfile.mkdtemp(prefix='vcsmt')
    procs = []
    t0 = time.time()
    try:
        f1 = os.path.join(d, 'q.smt2')
        open(f1, 'w').write('(set-logic ALL)\n' + txt)
        f2 = os.path.join(d, 'nl.smt2')
        open(f2, 'w').write(txt.replace('(check-sat)', '(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr simplify %s))' % ('qffp' if isfp else 'qfnra-nlsat')))
        cmds = []
        if 'z3' in which: cmds.append(('z3', [Z3BIN, '-T:%d' % secs, f1]))
        if 'cvc5' in which: cmds.append(('cvc5', [CVC5BIN, '--tlimit=%d' % (secs * 1000)] + ([] if isfp else ['--nl-cov']) + [f1]))
        if 'z3nl' in which: cmds.append(('z3:nlsat', [Z3BIN, '-T:%d' % secs, f2]))
        if 'z3old' in which: cmds.append(('z3-4.8', ['/usr/bin/z3', '-T:%d' % secs, f1]))
        for nm, c in cmds:
            procs.append((nm, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        pend = list(procs)
        while pend and time.time() - t0 < secs + 2:
            for it in list(pend):
                nm, p = it
                if p.poll() is not None:
                    out = p.stdout.read().strip().split('\n')[0]
                    pend.remove(it)
                    if out == 'unsat': return Result('proved', backend=nm, t=time.time() - t0)
                    if out == 'sat': return Result('refuted', None, nm, time.time() - t0)
            time.sleep(0.01)
        return Result('unknown', backend='portfolio', t=time.time() - t0)
    finally:
        for nm, p in procs:
            if p.poll() is None: p.kill(); p.wait()
        for x in os.listdir(d): os.unlink(os.path.join(d, x))
        os.rmdir(d)

def find_ite_cond(ts):
    """an ite condition to split on: an outermost one in value position"""
    layer = list(ts); seen = set()
    while layer:
        nxt = []
        best = None
        for s in layer:
            if s.id in seen: continue
            seen.add(s.id)
            if s.op == 'ite' and s.sort == 'R':
                c = s.args[0]
                n = sum(1 for x in tm.subterms([c]) if x.op == 'ite')
                if best is None or n < best[0]: best = (n, c)
                nxt += [s.args[1], s.args[2]]
            else: nxt += [x for x in s.args if isinstance(x, T)]
        if best: return best[1]
        layer = nxt
    return None

def assume_atom(ts, c, val):
    """substitute condition c by val in terms (also its negation)"""
    m = {c: TRUE if val else FALSE}
    if c.op == 'and' and val:
        for x in c.args: m[x] = TRUE
    if c.op == 'or' and not val:
        for x in c.args: m[x] = FALSE
    for k in list(m):
        n = Not(k)
        if n.op != 'not': m[n] = Not(m[k])
    return tm.subst(ts, m)

def propagate(hyps, goal):
    """hypotheses variable = constant are substituted (and kept)"""
    m = {}
    for h in hyps:
        for x in (h.args if h.op == 'and' else (h,)):
            if x.op == 'eq' and x.args[0].sort != 'B':
                a, b = x.args
                if a.op == 'c': a, b = b, a
                if a.op == 'var' and b.op == 'c' and a not in m: m[a] = b
    if not m: return hyps, goal
    keep = [mk('eq', (a, b) if a.id < b.id else (b, a), 'B') for a, b in m.items()]
    sub = tm.subst(list(hyps) + [goal], m)
    return [h for h in sub[:-1] if h is not TRUE] + keep, sub[-1]

def trig_facts(ts):
    """sin^2 + cos^2 = 1 for every argument that occurs"""
    args = {}
    for s in tm.subterms(ts):
        if s.op == 'ruf' and s.args[0] in ('sin', 'cos'): args[s.args[1].id] = s.args[1]
    out = []
    for a in args.values():
        x, y = mk('ruf', ('sin', a), 'R'), mk('ruf', ('cos', a), 'R')
        out.append(req(radd(rmul(x, x), rmul(y, y)), R1))
        u = tm.third_of_acos(a)
        if u is not None:
            # cos(acos(u) / 3), which lies in [1/2, 1], and the triple angle formula; sin(acos(u) / 3) is not negative
            out.append(Or(rlt(R1, u), rlt(u, R(-1)), And(req(rsub(rmul(R(4), rmul(y, rmul(y, y))), rmul(R(3), y)), u), rle(R(Fraction(1, 2)), y), rle(R0, x))))
    return out

class Prover:
    def __init__(self, quick_ms=2000, secs=30, log=None, bins=('z3', 'cvc5', 'z3nl')):
        self.quick_ms = quick_ms; self.secs = secs
        self.stats = {}
        self.guards = {}
        self.time = 0.0
        self.bins = bins
    def note(self, r):
        self.stats[r.backend] = self.stats.get(r.backend, 0) + 1
        self.time += r.time
    def quick(self, hyps, goal, ms=400):
        g = B(goal)
        if g is TRUE: return True
        if g is FALSE: return False
        lits = set()
        for h in hyps:
            for x in (h.args if h.op == 'and' else (h,)): lits.add(x.id)
        if g.id in lits: return True
        if g.op == 'rle' and (rlt(*g.args).id in lits or req(*g.args).id in lits): return True
        if g.op == 'not' and g.args[0].op == 'eq' and g.args[0].args[0].sort == 'R':
            a, b = g.args[0].args
            if rlt(a, b).id in lits or rlt(b, a).id in lits: return True
        hyps, g = propagate(hyps, g)
        if g is TRUE: return True
        h = relevant(hyps, g, 2)
        if has_nonlinear([g] + h):
            if z3_linear(h, g, ms).status == 'proved': return True
            if self.polylin(h, g, ms, hyps).status == 'proved': return True
        return z3_inproc(h, g, ms).status == 'proved'
    def prove(self, hyps, goal, secs=None):
        secs = secs or self.secs
        hyps = [B(h) for h in hyps if B(h) is not TRUE]
        goal = B(goal)
        t0 = time.time()
        hyps, goal = propagate(hyps, goal)
        hyps = hyps + trig_facts(hyps + [goal])
        r = self._prove(hyps, goal, secs, 0)
        r.time = time.time() - t0
        self.note(r)
        return r
    def ring(self, hyps, e):
        eqs = []
        for h in hyps:
            for x in (h.args if h.op == 'and' else (h,)):
                if x.op == 'eq' and x.args[0].sort == 'R' and not any(y.op == 'ite' for y in tm.subterms([x])): eqs.append(x)
        if poly_identity(*e.args):
            x = self.opaque(hyps, e, [e])
            if x is None or x[0] is TRUE or (x[0].op == 'eq' and poly_identity(*x[0].args)): return True
        sg = signs_of(hyps)
        if laurent_identity(*e.args, hyps=eqs, signs=sg):
            x = self.opaque(hyps, e, [e] + eqs)
            if x is None: return True
            n = [y for y in x[1:] if y.op == 'eq']
            return x[0] is TRUE or x[0].op == 'eq' and laurent_identity(*x[0].args, hyps=n, signs=sg)
        return False
    def polylin(self, hyps, goal, ms, ctx=None):
        r = z3_polylin(hyps, goal, ms)
        if r.status != 'proved': return r
        x = self.opaque(ctx or hyps, goal, [goal] + list(hyps))
        if x is None: return r
        return z3_polylin(x[1:], x[0], ms)
    def opaque(self, hyps, goal, ts):
        """Normalisation reads a * (1/a) as 1 and sqrt(a)^2 as a. Quotients and roots in ts that hyps and not goal do not show to be
        defined are replaced by fresh variables with the conditional definition; None if there are none."""
        bad = {}
        for s in tm.topo(ts):
            if s.op == 'rdiv' and s.args[1].op != 'c': g = Not(req(s.args[1], R0))
            elif s.op == 'rsqrt': g = rle(R0, s.args[0])
            else: continue
            if not self.defined(hyps, goal, g): bad[s] = g
        if not bad: return None
        if os.environ.get('VC_OPAQUE'): print('opaque', [tm.show(s, 4)[:80] for s in bad], flush=True)
        m = {}; facts = []
        for s, g in bad.items():
            v = tm.var('opaque_%d' % s.id, 'R'); m[s] = v
            facts.append(Or(Not(g), req(rmul(v, s.args[1]), s.args[0])) if s.op == 'rdiv' else And(rle(R0, v), Or(Not(g), req(rmul(v, v), s.args[0]))))
        # inner terms first: the arguments of an outer term may themselves be replaced
        out = tm.subst(list(ts) + facts, m)
        return out
    def defined(self, hyps, goal, g):
        if g is TRUE: return True
        if g.op == 'not' and any(x.op == 'rmul' for x in g.args[0].args):
            # a product is not zero if no factor is
            m = [x for x in g.args[0].args if x.op == 'rmul'][0]
            if all(y is R0 or y is m for y in g.args[0].args) and all(self.defined(hyps, goal, Not(req(y, R0))) for y in m.args): return True
        if g.op == 'rle' and is_sum_of_squares(g.args[1]): return True
        key = (g.id, goal.id, tuple(h.id for h in hyps))
        c = self.guards
        if key in c: return c[key]
        if len(c) > 20000: c.clear()
        ctx = list(hyps) + [Not(goal)]
        lits = set()
        for h in ctx:
            for x in (h.args if h.op == 'and' else (h,)): lits.add(x.id)
        a = g.args[1] if g.op == 'rle' else None
        r = g.id in lits or (a is not None and (rlt(R0, a).id in lits or req(a, R0).id in lits))
        if not r and g.op == 'not':
            for b in g.args[0].args:
                if rlt(R0, b).id in lits or rlt(b, R0).id in lits: r = True
        if not r:
            k2 = (g.id, tuple(h.id for h in hyps))
            if k2 in c: r = c[k2]
            else:
                r = self._defined(list(hyps), g); c[k2] = r
            if not r and goal is not FALSE: r = self._defined(ctx, g)
        c[key] = r
        return r
    def _defined(self, ctx, g):
        if g.op == 'not' and any(x.op == 'rsqrt' for x in g.args[0].args):
            # a root is not zero if its radicand equals one whose root is known to be positive; polynomials only
            a = [x for x in g.args[0].args if x.op == 'rsqrt'][0].args[0]
            flat = lambda t: not any(x.op in ('rdiv', 'rsqrt', 'ite') for x in tm.subterms([t]))
            if R0 in g.args[0].args and flat(a):
                fs = [x for h in ctx for x in (h.args if h.op == 'and' else (h,))]
                eqs = [x for x in fs if x.op == 'eq' and x.args[0].sort == 'R' and flat(x)]
                for x in fs:
                    b = x.args[1] if x.op == 'rlt' and x.args[0] is R0 else None
                    if b is not None and b.op == 'rsqrt' and flat(b.args[0]) and laurent_identity(a, b.args[0], hyps=eqs): return True
        if z3_linear(ctx, g, 200).status == 'proved': return True
        h = relevant(ctx, g)
        r = z3_inproc(h, g, 500).status
        if r == 'proved': return True
        return len(h) < len(ctx) and z3_inproc(ctx, g, 500).status == 'proved'
    def _prove(self, hyps, goal, secs, depth):
        if goal is TRUE: return Result('proved', backend='simplify')
        if any(h is FALSE for h in hyps): return Result('proved', backend='simplify')
        hs = set()
        for h in hyps:
            for x in (h.args if h.op == 'and' else (h,)): hs.add(x.id)
        if goal.id in hs: return Result('proved', backend='simplify')
        if goal.op == 'and':
            be = set()
            for g in goal.args:
                r = self._prove(hyps, g, secs, depth)
                if r.status != 'proved': return r
                be.add(r.backend)
            return Result('proved', backend='+'.join(sorted(be)))
        if goal.op == 'or':
            # a or b: assume the negation of side conditions
            lits = goal.args
            eqs = [x for x in lits if x.op == 'eq' and x.args[0].sort == 'R']
            for e in eqs:
                if self.ring(hyps, e): return Result('proved', backend='ring')
            if len(eqs) == 1:
                side = [Not(x) for x in lits if x is not eqs[0]]
                return self._prove(hyps + side, eqs[0], secs, depth)
        if goal.op == 'eq' and goal.args[0].sort == 'R':
            if any(x.op == 'ite' for x in tm.subterms([goal])):
                m = {}
                for h in hyps:
                    for x in (h.args if h.op == 'and' else (h,)):
                        m[x] = TRUE
                        n = Not(x)
                        if n.op not in ('not', 'c'): m[n] = FALSE
                        if x.op == 'not': m[x.args[0]] = FALSE
                g2 = tm.subst([goal], m)[0]
                if g2 is not goal: return self._prove(hyps, g2, secs, depth)
            if self.ring(hyps, goal): return Result('proved', backend='ring')
            # case split on ite conditions, normalise in every case
            if depth < 12:
                c = find_ite_cond([goal])
                if c is not None:
                    r = z3_inproc(hyps, goal, min(self.quick_ms, 700))
                    if r.status != 'unknown': return r
                    be = set(['split'])
                    for val in (True, False):
                        lit = c if val else Not(c)
                        sub = assume_atom(hyps + [goal], c, val)
                        nh, ng = sub[:-1], sub[-1]
                        if any(h is FALSE for h in nh): continue
                        r = self._prove(nh + [lit], ng, secs, depth + 1)
                        if r.status != 'proved': return r
                        be.add(r.backend)
                    return Result('proved', backend='+'.join(sorted(be)))
        if any(x.op in ('iurem', 'isrem') and x.args[1].op != 'c' for x in tm.subterms([goal])):
            r = z3_inproc(hyps, goal, self.quick_ms * 5, absrem=True)
            if r.status == 'proved': return r
        if has_nonlinear([goal] + hyps):
            r = z3_linear(hyps, goal, self.quick_ms)
            if r.status == 'proved': return r
            r = self.polylin(hyps, goal, self.quick_ms)
            if r.status == 'proved': return r
        r = z3_inproc(hyps, goal, self.quick_ms)
        if r.status != 'unknown': return r
        rl = relevant(hyps, goal)
        if len(rl) < len(hyps):
            r2 = z3_inproc(rl, goal, self.quick_ms)
            if r2.status == 'proved': return r2
        r2 = run_bins(hyps, goal, secs, self.bins)
        return r2 if r2.status != 'unknown' else r

def relevant(hyps, goal, rounds=1):
    """hypotheses sharing variables with the goal (transitively, rounds times)"""
    gv = {t.id for t in tm.free_vars([goal])}
    info = [(h, {t.id for t in tm.free_vars([h])}) for h in hyps]
    for _ in range(rounds):
        out = []; nv = set(gv)
        for h, v in info:
            if v & gv: out.append(h); nv |= v
        gv = nv
    return out
