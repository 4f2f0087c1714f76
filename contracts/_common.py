from vc.contract import *
from vc.lang import *
from vc.terms import *
from fractions import Fraction
SH = {'double': 'd', 'float': 'f'}
TS = ('double', 'float')
def num(o, s):
    """numeric equality of IEEE scalars (signs of zero are not distinguished), NaN equals NaN"""
    return Or(o == s, And(o.isnan, s.isnan if isinstance(s, Fl) else FALSE))
def mmul(a, b):
    return Vec(Vec(sum((a[i][k] * b[k][j] for k in range(1, len(b))), a[i][0] * b[0][j]) for j in range(len(b[0]))) for i in range(len(a)))
def mvec(m, v):
    return Vec(dot(r, v) for r in m)
def vecm(v, m):
    return Vec(dot([m[i][j] for i in range(len(v))], v) for j in range(len(m[0])))
def transp(m): return Vec(Vec(m[i][j] for i in range(len(m))) for j in range(len(m[0])))
def ident(n): return Vec(Vec(Re(1) if i == j else Re(0) for j in range(n)) for i in range(n))
def det(m):
    n = len(m)
    if n == 1: return m[0][0]
    r = None
    for j in range(n):
        t = m[0][j] * det([[row[k] for k in range(n) if k != j] for row in m[1:]])
        if j % 2: t = -t
        r = t if r is None else r + t
    return r
def veq(a, b): return And([x == y for x, y in zip(a, b)])
def meq(a, b): return And([x == y for r, q in zip(a, b) for x, y in zip(r, q)])
def all_fin(*a): return And([fin(x) for x in a])
def unit(v): return sqlen(v) == 1
def runit(rng, n=3):
    """random rational unit vector"""
    while True:
        t = [Fraction(rng.randint(-6, 6), rng.choice([1, 2, 3])) for _ in range(n - 1)]
        s = sum(x * x for x in t)
        v = [2 * x / (1 + s) for x in t] + [(s - 1) / (1 + s)]
        rng.shuffle(v)
        if rng.random() < 0.4:
            v = [Fraction(0)] * n; v[rng.randrange(n)] = Fraction(rng.choice([1, -1]))
        return v
def rvec(rng, n=3, k=8):
    return [Fraction(rng.randint(-k, k), rng.choice([1, 1, 1, 2, 4])) for _ in range(n)]
def rs(rng, k=8): return Fraction(rng.randint(-k, k), rng.choice([1, 1, 2, 4]))
import numpy as np
PIR = Re(RPI)
def _pilit(c):
    """the library's constant pi stands for the number pi"""
    m = {}
    for k in (Fraction(1), Fraction(2), Fraction(1, 2), Fraction(1, 4)):
        x = float(k) * 3.141592653589793
        v = RPI if k == 1 else (PIR * k).t
        m[(x, False)] = v; m[(float(k) * float(np.float32(3.141592653589793)), True)] = v; m[(float(np.float32(x)), True)] = v
    return m
PIOPT = dict(literals=_pilit)
def sin(x): return uf('sin', x)
def cos(x): return uf('cos', x)

# lemmas over the reals, proved as obligations of the contracts that use them
def L_sqlen(*v): return ('sqlen', lambda *x: sqlen(Vec(x)) >= 0, list(v))
def L_unit_bound(c, q): return ('unit_bound', lambda c, q: Implies(And(q == 1 - c * c, q >= 0), And(c <= 1, c >= -1)), [c, q])
def L_sqrt(u): return ('sqrt', lambda u: Implies(u >= 0, And(sqrt(u) >= 0, Iff(sqrt(u) == 0, u == 0), Iff(sqrt(u) > 0, u > 0))), [u])
def L_ratio(n, u, v): return ('ratio', lambda n, u, v: Implies(And(n >= 0, u > 0, v > 0), n / (u * v) >= 0), [n, u, v])
def L_prod(a, b): return ('prod', lambda a, b: And(Iff(a * b == 0, Or(a == 0, b == 0)), Implies(And(a > 0, b > 0), a * b > 0)), [a, b])
def L_lagrange(n, u, v, d): return ('lagrange', lambda n, u, v, d: Implies(And(n == u * v - d * d, n >= 0), And(Implies(u == 0, n == 0), Implies(v == 0, n == 0))), [n, u, v, d])
def cross_lemmas(a, b):
    """facts about |a x b|, |a| and |b|"""
    n, u, v = sqlen(cross(a, b)), sqlen(a), sqlen(b)
    return [L_sqlen(*cross(a, b)), L_sqlen(*a), L_sqlen(*b), L_sqrt(n), L_sqrt(u), L_sqrt(v), ('lagrange-identity', n == u * v - dot(a, b) * dot(a, b)), L_lagrange(n, u, v, dot(a, b)), L_prod(sqrt(u), sqrt(v)), L_ratio(sqrt(n), sqrt(u), sqrt(v))]
