"""Concrete evaluation of terms: exact rationals (high-precision where irrational) with
three-valued comparisons, IEEE arithmetic for F sorts."""
from .terms import *
from . import terms as tm
from fractions import Fraction
import math
import mpmath
from mpmath import mpf
mpmath.mp.prec = 300
EPS_IRR = mpf(10) ** -60

class EvalError(Exception): pass

def isq(x): return isinstance(x, Fraction)
def tomp(x):
    if isinstance(x, Fraction): return mpf(x.numerator) / mpf(x.denominator)
    return mpf(x)
def fsqrt_exact(x):
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
    return mpmath.sqrt(tomp(x))
def bin_(op, a, b):
    if isq(a) and isq(b):
        return a + b if op == '+' else a * b if op == '*' else a / b
    a = tomp(a); b = tomp(b)
    return a + b if op == '+' else a * b if op == '*' else a / b

# three-valued booleans: True, False, None
def k_not(a): return None if a is None else (not a)
def k_and(xs):
    r = True
    for x in xs:
        if x is False: return False
        if x is None: r = None
    return r
def k_or(xs):
    r = False
    for x in xs:
        if x is True: return True
        if x is None: r = None
    return r

def _rna(v):
    """nearest integer, halves away from zero"""
    r = np.trunc(v)
    if np.abs(v - r) >= type(v)(0.5): r = r + np.copysign(type(v)(1), v)
    return r

class Ev:
    def __init__(self, env, tol=None, inexact=()):
        """env: {T var: value}; reals Fraction, bools bool, ints int, floats bits.
        tol: None = exact; otherwise comparisons of computed values that differ by less than
        tol * (magnitude of the computation) are undecided; comparisons between exactly given
        inputs and constants stay exact.  inexact: variables that carry rounding already"""
        self.env = env; self.memo = {}; self.tol = tol; self.mag = {}
        self.inexact = {v.id for v in inexact}
    def raw(self, t): return t.op == 'c' or (t.op == 'var' and t.id not in self.inexact)
    def magn(self, t):
        """magnitude of the operands that produced t: rounding errors are relative to it"""
        for s in tm.topo([t]):
            if s.sort != 'R' or s.id in self.mag: continue
            v = self.memo.get(s.id)
            v = abs(tomp(v)) if v is not None and not isinstance(v, bool) else mpf(0)
            op = s.op
            g = lambda i: self.mag.get(s.args[i].id, mpf(0))
            w = lambda i: abs(tomp(self.memo[s.args[i].id])) if self.memo.get(s.args[i].id) is not None else mpf(0)
            if op in ('var', 'c'): m = v
            elif op == 'radd': m = g(0) + g(1)
            elif op == 'rneg': m = g(0)
            elif op == 'rmul': m = g(0) * g(1)
            elif op == 'rdiv':
                b = w(1)
                m = (g(0) / b) * max(mpf(1), g(1) / b) if b > 0 else v
            elif op == 'rsqrt':
                m = g(0) / v if v > 0 else mpmath.sqrt(g(0))
            elif op == 'ite':
                c = self.memo.get(s.args[0].id)
                m = g(1) if c is True else g(2) if c is False else max(g(1), g(2))
            elif op == 'rtrunc': m = v
            elif op == 'ruf':
                m = max([mpf(1), v] + [g(i) for i in range(1, len(s.args))])
            else: m = v
            self.mag[s.id] = max(m, v)
        return self.mag.get(t.id, mpf(0))
    def close(self, a, b, t=None):
        """a ~ b within undecidable distance"""
        if isq(a) and isq(b) and (self.tol is None or (t is not None and self.raw(t.args[0]) and self.raw(t.args[1]))): return False
        d = abs(tomp(a) - tomp(b))
        m = 1 + abs(tomp(a)) + abs(tomp(b))
        if self.tol is None: return d <= m * EPS_IRR
        if t is not None: m = 1 + self.magn(t.args[0]) + self.magn(t.args[1])
        return d <= m * mpf(self.tol)
    def eq(self, a, b, t=None):
        if isq(a) and isq(b) and (self.tol is None or (t is not None and self.raw(t.args[0]) and self.raw(t.args[1]))): return a == b
        if self.tol is None: return True if self.close(a, b, t) else False
        return None if self.close(a, b, t) else False
    def lt(self, a, b, t=None):
        if self.close(a, b, t): return None
        return (a < b) if (isq(a) and isq(b)) else tomp(a) < tomp(b)
    def le(self, a, b, t=None):
        if self.close(a, b, t): return None
        return (a <= b) if (isq(a) and isq(b)) else tomp(a) <= tomp(b)
    def ev(self, root):
        m = self.memo
        # iterative, lazy on ite / and / or so that guarded undefined parts are not evaluated
        st = [root]
        while st:
            t = st[-1]
            if t.id in m: st.pop(); continue
            op = t.op
            if op == 'var':
                if t in self.env: m[t.id] = self.env[t]
                else: m[t.id] = self.default(t)
                st.pop(); continue
            if op == 'c':
                v = t.args[0]
                m[t.id] = v
                st.pop(); continue
            if op == 'ite':
                c = t.args[0]
                if c.id not in m: st.append(c); continue
                cv = m[c.id]
                if cv is None:
                    # undecided: evaluate both; if equal fine, else undecided
                    a, b = t.args[1], t.args[2]
                    need = [x for x in (a, b) if x.id not in m]
                    if need: st.extend(need); continue
                    va, vb = m[a.id], m[b.id]
                    if t.sort == 'B': m[t.id] = va if va == vb else None
                    elif t.sort == 'R':
                        if va is None or vb is None or self.eq(va, vb) is False: m[t.id] = None
                        else: m[t.id] = va
                    else: m[t.id] = va if va == vb else None
                    st.pop(); continue
                x = t.args[1] if cv else t.args[2]
                if x.id not in m: st.append(x); continue
                m[t.id] = m[x.id]; st.pop(); continue
            if op in ('and', 'or'):
                stop = False if op == 'and' else True
                done = False; need = None
                for x in t.args:
                    if x.id not in m: need = x; break
                    if m[x.id] is stop: m[t.id] = stop; done = True; break
                if done: st.pop(); continue
                if need is not None: st.append(need); continue
                m[t.id] = (k_and if op == 'and' else k_or)([m[x.id] for x in t.args])
                st.pop(); continue
            need = [x for x in t.args if isinstance(x, T) and x.id not in m]
            if need: st.extend(need); continue
            a = [m[x.id] if isinstance(x, T) else x for x in t.args]
            if any(isinstance(x, T) and m[x.id] is None for x in t.args):
                m[t.id] = None
            else:
                m[t.id] = self.ap(t, op, a)
            st.pop()
        return m[root.id]
    def default(self, t):
        if t.sort == 'R': return Fraction(0)
        if t.sort == 'B': return False
        return 0
    def ap(self, t, op, a):
        s = t.sort
        if op == 'not': return k_not(a[0])
        if op == 'eq':
            s0 = t.args[0].sort
            if s0 == 'R': return self.eq(a[0], a[1], t)
            return a[0] == a[1]
        if op == 'radd': return bin_('+', a[0], a[1])
        if op == 'rneg': return -a[0]
        if op == 'rmul': return bin_('*', a[0], a[1])
        if op == 'rdiv':
            if a[1] == 0 or (not isq(a[1]) and abs(a[1]) < EPS_IRR): return None
            return bin_('/', a[0], a[1])
        if op == 'rlt': return self.lt(a[0], a[1], t)
        if op == 'rle': return self.le(a[0], a[1], t)
        if op == 'rsqrt':
            if isq(a[0]):
                if a[0] < 0: return None
                return fsqrt_exact(a[0])
            if a[0] < 0:
                return mpf(0) if a[0] > -EPS_IRR else None
            return mpmath.sqrt(a[0])
        if op == 'rtrunc':
            x = a[0]
            if self.tol is not None and not self.raw(t.args[0]):
                n = mpmath.nint(tomp(x))
                if abs(tomp(x) - n) <= mpf(self.tol) * (1 + self.magn(t.args[0])): return None
            if isq(x): return Fraction(math.trunc(x))
            n = mpmath.nint(x)
            if abs(x - n) < EPS_IRR: return None
            return Fraction(int(x))
        if op == 'ruf':
            if a[0] == 'pi': return +mpmath.pi
            x = tomp(a[1])
            f = {'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'acos': mpmath.acos, 'asin': mpmath.asin, 'atan': mpmath.atan, 'exp': mpmath.exp, 'log': mpmath.log}.get(a[0])
            try:
                if a[0] == 'cbrt': 
                    if isq(a[1]):
                        sg = -1 if a[1] < 0 else 1
                        n = round(abs(a[1].numerator) ** (1 / 3)); d = round(a[1].denominator ** (1 / 3))
                        if n ** 3 == abs(a[1].numerator) and d ** 3 == a[1].denominator: return Fraction(sg * n, d)
                    return mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x)
                if a[0] == 'pow': return mpmath.power(x, tomp(a[2]))
                if a[0] == 'atan2': return mpmath.atan2(x, tomp(a[2]))
                if f is None: return None
                if a[0] in ('acos', 'asin') and abs(x) > 1: return None
                r = f(x)
                if a[0] == 'cos' and isq(a[1]) and a[1] == 0: return Fraction(1)
                if a[0] == 'sin' and isq(a[1]) and a[1] == 0: return Fraction(0)
                return r if not isinstance(r, mpmath.mpc) else None
            except Exception:
                return None
        if op == 'i2r': return Fraction(sgn(a[0], IW(t.args[0].sort)))
        if op == 'u2r': return Fraction(a[0])
        if op == 'z2r': return Fraction(a[0])
        if op == 'zle': return a[0] <= a[1]
        if op == 'zlt': return a[0] < a[1]
        if op == 'zadd': return a[0] + a[1]
        if op == 'r2i':
            if not isq(a[0]): return None
            return int(a[0]) & ((1 << IW(s)) - 1)
        if op in ('izext', 'itrunc', 'isext'):
            w = IW(t.args[0].sort)
            x = sgn(a[0], w) if op == 'isext' else a[0]
            return x & ((1 << a[1]) - 1)
        if op in ('iult', 'iule', 'islt', 'isle'):
            w = IW(t.args[0].sort)
            x, y = a
            if op[1] == 's': x, y = sgn(x, w), sgn(y, w)
            return x < y if op[2:] == 'lt' else x <= y
        if op == 'sovf':
            w = IW(t.args[1].sort)
            x, y = sgn(a[1], w), sgn(a[2], w)
            e = x + y if a[0] == 'add' else x - y if a[0] == 'sub' else x * y
            return not (-(1 << (w - 1)) <= e < (1 << (w - 1)))
        if op[0] == 'i' and op != 'i2f': return tm._iop(op, IW(s), a[0], a[1])
        # floats via constant folding
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return tm._canon(np_fop(op, np_of(a[0], s), np_of(a[1], s)), s)
        if op == 'fneg': return tm._canon(-np_of(a[0], s), s)
        if op in ('flt', 'fle', 'feq'):
            s0 = t.args[0].sort
            x, y = np_of(a[0], s0), np_of(a[1], s0)
            return bool(x < y) if op == 'flt' else bool(x <= y) if op == 'fle' else bool(x == y)
        if op == 'fisnan': return bool(np.isnan(np_of(a[0], t.args[0].sort)))
        if op == 'fisinf': return bool(np.isinf(np_of(a[0], t.args[0].sort)))
        if op in ('fabs', 'fsqrt', 'fcvt', 'ftrunc0'):
            c = mk('c', (a[0],), t.args[0].sort)
            return f1(op, c, s).args[0]
        if op.startswith('frti_'):
            x = np_of(a[0], s)
            with np.errstate(all='ignore'):
                y = {'frti_trunc': np.trunc, 'frti_floor': np.floor, 'frti_ceil': np.ceil}.get(op, _rna)(x)
            return tm._canon(type(x)(y), s)
        if op == 'f2i':
            x = float(np_of(a[0], t.args[0].sort))
            if x != x or math.isinf(x): return None
            return int(x) & ((1 << a[1]) - 1)
        if op == 'f2u':
            x = float(np_of(a[0], t.args[0].sort))
            if x != x or math.isinf(x): return None
            return int(x) & ((1 << a[1]) - 1)
        if op == 'i2f': return py2fbits(float(sgn(a[0], IW(t.args[0].sort))), s)
        if op == 'u2f': return py2fbits(float(a[0]), s)
        if op == 'fuf': return None
        raise KeyError(op)
