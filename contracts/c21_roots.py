"""C21 quadratic, cubic and quartic equations"""
from contracts._common import *
from vc import terms as tm
P = 'C21'
def cq(x): return Re(tm.canonq(Re.of(x).t))
def csqrt(x): return sqrt(cq(x))
def ccbrt(x): return uf('cbrt', cq(x))
def ieq(x, n): return icmp('eq', x, I(n, 64))
def clear(x, e): return Or(x == 0, x > e, x < -e)
def num(rng, k=4): return Fraction(rng.randint(-k, k), rng.choice([1, 1, 2]))
def nz(rng, k=3): return Fraction(rng.choice([-1, 1]) * rng.randint(1, k), rng.choice([1, 2]))
def mulp(*f):
    r = [Fraction(1)]
    for g in f:
        n = [Fraction(0)] * (len(r) + len(g) - 1)
        for i, x in enumerate(r):
            for j, y in enumerate(g): n[i + j] += x * y
        r = n
    return r
for T_ in TS:
    t = SH[T_]; k = dict(T=T_)
    # -------------------------------------------------- quadratic
    D2 = lambda p: (p.b / (2 * p.a)) ** 2 - p.c / p.a
    g2 = lambda rng: (mulp([nz(rng)], [Fraction(1), num(rng)], [Fraction(1), num(rng)]) + [Fraction(0)] if rng.random() < .7 else [nz(rng), num(rng), num(rng), Fraction(0)], [])
    # as factorisation: a x^2 + b x + c is a (x - s)(x - r), a (x - s)^2 or has a negative discriminant
    case(P, 'quadratic' + t, 'a:S b:S c:S e:S', 'n:I(0,2) s:S r:S', 'const auto q_ = vm::solve_quadratic(a, b, c, e); n = static_cast<long>(std::get<0>(q_)); s = std::get<1>(q_); r = std::get<2>(q_);',
         req=lambda p, D2=D2: [p.a != 0, p.e >= 0, clear(D2(p), p.e)], gen=g2, **k, callee='vm::solve_quadratic<', lib=True, opts=dict(paths=True, canon=True, numif=(1, 2)),
         ens=lambda p, o, D2=D2: [('two', Implies(ieq(o.n, 2), And(D2(p) > 0, -p.b == p.a * (o.s.v + o.r.v), p.c == p.a * o.s.v * o.r.v))), ('double', Implies(ieq(o.n, 1), And(D2(p) == 0, -p.b == 2 * p.a * o.s.v, p.c == p.a * o.s.v * o.s.v))), ('none', Implies(ieq(o.n, 0), D2(p) < 0))])
    case(P, 'quadratic_roots' + t, 'a:S b:S c:S e:S x:S', 'n:I s:S r:S', 'const auto q_ = vm::solve_quadratic(a, b, c, e); n = static_cast<long>(std::get<0>(q_)); s = std::get<1>(q_); r = std::get<2>(q_);',
         req=lambda p, D2=D2: [p.a != 0, p.e >= 0, clear(D2(p), p.e)], gen=lambda rng, g2=g2: (g2(rng)[0] + [num(rng)], []), **k, opts=dict(paths=True, canon=True, prelemmas=lambda p, D2=D2: [('square', lambda a, b, c, x, d, y: Implies(And(a != 0, a * x * x + b * x + c == 0, 2 * a * d == b, a * y == c), (x + d) * (x + d) == d * d - y), [p.a, p.b, p.c, p.x, p.b / (2 * p.a), p.c / p.a])]),
         ens=lambda p, o: (lambda f: [('root0', Implies(icmp('ne', o.n, I(0, 64)), f(o.s.v) == 0)), ('root1', Implies(ieq(o.n, 2), f(o.r.v) == 0)), ('complete', Implies(f(p.x) == 0, Or(And(Not(o.s.nan), o.s.v == p.x), And(Not(o.r.nan), o.r.v == p.x))))])(lambda x: p.a * x * x + p.b * x + p.c))
    # -------------------------------------------------- cubic
    A3 = lambda p: p.b / p.a
    p3 = lambda p: cq((3 * p.c / p.a - A3(p) ** 2) / 9)
    q3 = lambda p: cq((2 * A3(p) ** 3 - 9 * A3(p) * (p.c / p.a) + 27 * p.d / p.a) / 54)
    D3 = lambda p: cq(q3(p) ** 2 + p3(p) ** 3)
    def g3(rng):
        if rng.random() < .3: return [nz(rng), num(rng), num(rng), num(rng), Fraction(0)], []
        x = num(rng); y = x if rng.random() < .5 else num(rng); z = y if rng.random() < .3 else num(rng)
        return mulp([nz(rng)], [Fraction(1), -x], [Fraction(1), -y], [Fraction(1), -z]) + [Fraction(0)], []
    def ens3(p, o, A3=A3, D3=D3):
        A, B_, C, D = A3(p), p.c / p.a, p.d / p.a, D3(p); s0, s1, s2 = o.s.v, o.r.v, o.t.v; e1 = A + s0; f1 = B_ + s0 * e1
        vi = lambda x, y, z: [A == -(x + y + z), B_ == x * y + y * z + z * x, C == -(x * y * z)]
        return [('three%d' % i, Implies(ieq(o.n, 3), g)) for i, g in enumerate(vi(s0, s1, s2))] + [('three-discriminant', Implies(ieq(o.n, 3), D < 0)), ('three-distinct', Implies(ieq(o.n, 3), And(s0 != s1, s1 != s2, s2 != s0)))] + \
               [('two%d' % i, Implies(ieq(o.n, 2), g)) for i, g in enumerate(vi(s0, s1, s1))] + [('two-discriminant', Implies(ieq(o.n, 2), And(D == 0, s0 != s1)))] + \
               [('one', Implies(ieq(o.n, 1), C + s0 * f1 == 0)), ('one-rest', Implies(ieq(o.n, 1), Or(And(D > 0, e1 * e1 < 4 * f1), And(D == 0, A == -3 * s0, B_ == 3 * s0 * s0))))]
    def terms3(p, p3=p3, q3=q3, D3=D3, A3=A3):
        A, P_, Q, D = A3(p), p3(p), q3(p), D3(p); D2 = csqrt(D); U, W = ccbrt(D2 - Q), ccbrt(D2 + Q); Z = ccbrt(-Q); G, H = csqrt(-P_), csqrt(-(P_ ** 3)); u = cq(-Q / H)
        return A, P_, Q, D, D2, U, W, Z, G, H, u, cos(uf('acos', u) / 3), sin(uf('acos', u) / 3)
    def fin3(p, o, terms3=terms3, ens3=ens3, late=lambda p: late(p)):
        tt = terms3(p); A, P_, Q, D, D2, U, W, Z, G, H, u, C, S = tt
        gen = list(tt) + [p.c / p.a, p.d / p.a]
        n = o.n.args[0] if o.n.op == 'c' else None
        single = any(x.op == 'ruf' and x.args[0] == 'cbrt' for x in tm.subterms([o.s.v.t]))   # which of the two cases with one root
        case = [('sign', D < 0)] if n == 3 else [('sign', And(D == 0, Q != 0))] if n == 2 else [('sign', D > 0), ('value', o.s.v == U - W - A / 3)] if n == 1 and single else [('sign', And(D == 0, Q == 0))] if n == 1 else []
        differ = [('differ', lambda x, y, z, A, B_, C, p, q, D: Implies(And(A == -(x + y + z), B_ == x * y + y * z + z * x, C == -(x * y * z), B_ == 3 * p + A * A / 3, C == 2 * q + p * A + A ** 3 / 27, D == q * q + p * p * p), ((x - y) * (y - z) * (z - x)) ** 2 == -108 * D), [o.s.v, o.r.v, o.t.v, A, p.c / p.a, p.d / p.a, P_, Q, D])] if n == 3 else []
        return case + late(p) + [(lab, g, 'abs', gen) for lab, g in ens3(p, o) if 'distinct' not in lab] + differ + [('discriminant', D == Q * Q + P_ ** 3)] + [(lab, g, 'abs', gen + [o.s.v, o.r.v, o.t.v]) for lab, g in ens3(p, o) if 'distinct' in lab]
    def lem3(p, terms3=terms3):
        A, P_, Q, D, D2, U, W, Z, G, H, u, C, S = terms3(p)
        return [('discriminant', D == Q * Q + P_ ** 3), ('negative', lambda p, q, D: Implies(And(D < 0, D == q * q + p * p * p), p < 0), [P_, Q, D]), ('negative-cube', lambda p: Implies(p < 0, -p * p * p > 0), [P_]),
                ('cosine', lambda p, q, D, H, u: Implies(And(D < 0, D == q * q + p * p * p, H * H == -p * p * p, H > 0, u * H == -q), And(u < 1, u > -1)), [P_, Q, D, H, u])]
    def late(p, terms3=terms3):
        A, P_, Q, D, D2, U, W, Z, G, H, u, C, S = terms3(p)
        return [L_sqrt(D), ('root', Implies(D > 0, And(D2 * D2 == D, D2 > 0))), ('cube0', Z ** 3 == -Q), ('cube1', U ** 3 == D2 - Q), ('cube2', W ** 3 == D2 + Q),
                ('cube', lambda x, y: Implies(x * x * x == y * y * y, x == y), [U * W, P_]),
                ('one', lambda p, q, D, r, U, W: Implies(And(D > 0, D == q * q + p * p * p, r * r == D, r > 0, U * U * U == r - q, W * W * W == r + q), (U * W) ** 3 == p ** 3), [P_, Q, D, D2, U, W]),
                ('cube', lambda x, y: Implies(x * x * x == y * y * y, x == y), [Z * Z, -P_]),
                ('double', lambda p, q, D, Z: Implies(And(D == 0, D == q * q + p * p * p, Z * Z * Z == -q), (Z * Z) ** 3 == (-p) ** 3), [P_, Q, D, Z]),
                
                ('cube-root', lambda p, G, H: Implies(And(p < 0, G * G == -p, G >= 0, H >= 0, H * H == -p * p * p), H == G * G * G), [P_, G, H]),
                ('chebyshev', Implies(D < 0, 4 * C ** 3 - 3 * C == u)), ('cosine-value', Implies(D < 0, u * G ** 3 == -Q)), ('pythagoras', S * S + C * C == 1), ('radius', Implies(D < 0, And(G * G == -P_, G >= 0))),
                ('linear', p.c / p.a == 3 * P_ + A * A / 3), ('constant', p.d / p.a == 2 * Q + P_ * A + A ** 3 / 27),
                ('triple', lambda p, q, D: Implies(And(D == 0, q == 0, D == q * q + p * p * p), p == 0), [P_, Q, D]),
                ('product', lambda A, p, q, Z: Implies(And(Z * Z == -p, Z * Z * Z == -q), 2 * q + p * A + A ** 3 / 27 == -((2 * Z - A / 3) * (-Z - A / 3) ** 2)), [A, P_, Q, Z]),
                ('distinct', lambda q, Z: Implies(And(q != 0, Z * Z * Z == -q), Z != 0), [Q, Z]),
                ('apart', lambda U, W, r, q: Implies(And(r > 0, U ** 3 == r - q, W ** 3 == r + q), (U + W) ** 2 > 0), [U, W, D2, Q]),
                ('rest', lambda A, p, U, W: (lambda s: Implies(U * W == p, (A + s) ** 2 - 4 * (3 * p + A * A / 3 + s * (A + s)) == -3 * (U + W) ** 2))(U - W - A / 3), [A, P_, U, W])]
    case(P, 'cubic' + t, 'a:S b:S c:S d:S e:S', 'n:I(1,3) s:S r:S t:S', 'const auto q_ = vm::solve_cubic(a, b, c, d, e); n = static_cast<long>(std::get<0>(q_)); s = std::get<1>(q_); r = std::get<2>(q_); t = std::get<3>(q_);',
         req=lambda p, D3=D3, q3=q3: [p.a != 0, p.e >= 0, clear(D3(p), p.e), Implies(D3(p) == 0, clear(q3(p), p.e))], gen=g3, **k, callee='vm::solve_cubic<', lib=True, opts=dict(paths=True, canon=True, numif=(1, 2, 3), prelemmas=lem3, lemmas=fin3, **PIOPT), ens=ens3)
    # -------------------------------------------------- quartic (epsilon 0: only exact zeros count as zero)
    # every quartic is a ((x + h)^4 + p (x + h)^2 + q (x + h) + r)
    def form(p):
        A, B_, C, D = p.b / p.a, p.c / p.a, p.d / p.a, p.e / p.a; h = A / 4; P_ = B_ - 6 * h * h; Q = C - 2 * P_ * h - 4 * h ** 3; R_ = D - Q * h - P_ * h * h - h ** 4
        return [('cubic-term', p.b == 4 * p.a * h), ('quadratic-term', p.c == p.a * (P_ + 6 * h * h)), ('linear-term', p.d == p.a * (Q + 2 * P_ * h + 4 * h ** 3)), ('constant-term', p.e == p.a * (R_ + Q * h + P_ * h * h + h ** 4))]
    case(P, 'quartic_form' + t, 'a:S b:S c:S d:S e:S', 'k:S', 'k = a + b + c + d + e;', req=lambda p: [p.a != 0], ens=lambda p, o, form=form: form(p), **k)
    def g4(rng):
        if rng.random() < .3: h, p_, q, r = num(rng), num(rng), num(rng), num(rng)
        else:
            h, z, u, v = num(rng), num(rng), num(rng), num(rng)   # (y^2 + v y + z - u)(y^2 - v y + z + u)
            p_, q, r = 2 * z - v * v, 2 * u * v, z * z - u * u
        return [nz(rng), h, p_, q, r, num(rng)], []
    def ens4(p, o):
        f = lambda x: (lambda y: y ** 4 + p.p * y * y + p.q * y + p.r)(x + p.h); s = [o.s, o.t, o.u, o.v]
        return [('root%d' % i, Or([ieq(o.n, j) for j in range(i + 1)] + [And(s[i].fin, f(s[i].v) == 0)])) for i in range(4)] + [('complete', Implies(f(p.x) == 0, Or([And(Not(y.nan), icmp('ugt', o.n, I(i, 64)), y.v == p.x) for i, y in enumerate(s)])))]
    def fin4(p, o):
        f = lambda y: y ** 4 + p.p * y * y + p.q * y + p.r
        cn = lambda x: x.args[0] if x.op == 'c' else None
        ys = [s.v + p.h for s in (o.s, o.t, o.u, o.v)[:cn(o.n) or 0]] + [p.x + p.h]
        l = []
        cub = [(q, r) for nm, q, r in o._run.relcalls if nm.startswith('cubic')]; quad = [(q, r) for nm, q, r in o._run.relcalls if nm.startswith('quadratic')]
        for q, r in quad:
            n = cn(r.n)
            for y in ys:
                if n == 2: l.append(('factors', lambda y, b, c, s, t: Implies(And(-b == s + t, c == s * t), y * y + b * y + c == (y - s) * (y - t)), [y, q.b, q.c, r.s.v, r.r.v]))
                if n == 1: l.append(('square', lambda y, b, c, s: Implies(And(-b == 2 * s, c == s * s), y * y + b * y + c == (y - s) * (y - s)), [y, q.b, q.c, r.s.v]))
                if n == 0: l.append(('positive', lambda y, b, c: Implies((b / 2) ** 2 - c < 0, y * y + b * y + c > 0), [y, q.b, q.c]))
        for q, r in cub:
            n = cn(r.n); v = lambda y, b, c, d: y ** 3 + b * y * y + c * y + d
            z = r.s.v; W = [z] if n == 1 else [z, r.r.v, r.r.v] if n == 2 else [z, r.r.v, r.t.v]
            if n in (2, 3): vi = lambda y, b, c, d, s0, s1, s2: Implies(And(-b == s0 + s1 + s2, c == s0 * s1 + s1 * s2 + s2 * s0, -d == s0 * s1 * s2), v(y, b, c, d) == (y - s0) * (y - s1) * (y - s2))
            else: vi = lambda y, b, c, d, s0: Implies(d + s0 * (c + s0 * (b + s0)) == 0, v(y, b, c, d) == (y - s0) * (y * y + (b + s0) * y + c + s0 * (b + s0)))
            quads = not (q.b.t.op == 'c' and q.b.t.args[0] == 0)
            for y in [z] if quads else ys:
                l.append(('cubic%s' % n, vi, [y, q.b, q.c, q.d] + W))
                if n == 1: l.append(('rest', lambda y, b, c: Implies(b * b < 4 * c, y * y + b * y + c > 0), [y, q.b + z, q.c + z * (q.b + z)]))
            if not quads:
                l += [('product', lambda y, p, q, r: Implies(r == 0, y ** 4 + p * y * y + q * y + r == y * (y ** 3 + p * y + q)), [y, p.p, p.q, p.r]) for y in ys]
                continue
            u, w = z * z - p.r, 2 * z - p.p; su, sw = csqrt(u), csqrt(w); sg = Ite(B(p.q < 0), R(-1), R(1)); g = Re(sg) * sw
            dz = [y for y in (W[1:] if n in (2, 3) else [])]
            l += [('resolvent', z ** 3 - p.p / 2 * z * z - p.r * z + p.r * p.p / 2 - p.q * p.q / 8 == 0), ('product', 4 * u * w == p.q * p.q),
                  ('root-u', Implies(u >= 0, And(su >= 0, su * su == u))), ('root-v', Implies(w >= 0, And(sw >= 0, sw * sw == w))),
                  ('middle', lambda q, u, w, a, b: Implies(And(u >= 0, w >= 0, 4 * u * w == q * q, a >= 0, b >= 0, a * a == u, b * b == w), And(Implies(q >= 0, 2 * a * b == q), Implies(q < 0, 2 * a * b == -q))), [p.q, u, w, su, sw]),
                  ('zero-u', Implies(u == 0, su == 0)), ('zero-v', Implies(w == 0, sw == 0))]
            l += [('factorisation', lambda y, p, q, r, z, a, b: Implies(And(a * a == z * z - r, b * b == 2 * z - p, 2 * a * b == q), y ** 4 + p * y * y + q * y + r == (y * y + b * y + z - a) * (y * y - b * y + z + a)), [y, p.p, p.q, p.r, z, su, b]) for y in ys for b in (sw, -sw)]
            y = ys[-1]
            l += [('no-root', lambda y, p, q, r, z, u, w: Implies(And(u == z * z - r, w == 2 * z - p, 4 * u * w == q * q, Or(u < 0, w < 0), y ** 4 + p * y * y + q * y + r == 0), And(w < 0, z == -y * y, 3 * z * z - p * z - r == 0)), [y, p.p, p.q, p.r, z, u, w]),
                  ('multiple', lambda z, b, c, e, f: Implies(And(e == b + z, f == c + z * e), 3 * z * z + 2 * b * z + c == z * z + e * z + f), [z, q.b, q.c, q.b + z, q.c + z * (q.b + z)])]
            if n in (2, 3): l.append(('simple', lambda b, c, s0, s1, s2: Implies(And(-b == s0 + s1 + s2, c == s0 * s1 + s1 * s2 + s2 * s0), 3 * s0 * s0 + 2 * b * s0 + c == (s0 - s1) * (s0 - s2)), [q.b, q.c] + W))
        if len(quad) == 2:
            at = lambda q, y: y * y + q.b * y + q.c
            for y in ys: l.append(('split', f(y) == at(quad[0][0], y) * at(quad[1][0], y)))
            y = ys[-1]
            l.append(('zero-product', lambda f, a, b: Implies(And(f == a * b, f == 0), Or(a == 0, b == 0)), [f(y), at(quad[0][0], y), at(quad[1][0], y)]))
            for q, r in quad:
                n = cn(r.n)
                if n in (1, 2): l.append(('zero-factor', lambda y, s, t, a: Implies(And(a == (y - s) * (y - t), a == 0), Or(y == s, y == t)), [y, r.s.v, r.r.v if n == 2 else r.s.v, at(q, y)]))
                l.append(('factor', at(q, y) == ((y - r.s.v) * (y - (r.r.v if n == 2 else r.s.v)))) if n in (1, 2) else ('positive', at(q, y) > 0))
        return l
    case(P, 'quartic' + t, 'a:S h:S p:S q:S r:S x:S', 'n:I(0,4) s:S t:S u:S v:S', 'const auto q_ = vm::solve_quartic(a, 4 * a * h, a * (p + 6 * h * h), a * (q + 2 * p * h + 4 * h * h * h), a * (r + q * h + p * h * h + h * h * h * h), T(0)); n = static_cast<long>(std::get<0>(q_)); s = std::get<1>(q_); t = std::get<2>(q_); u = std::get<3>(q_); v = std::get<4>(q_);',
         req=lambda p: [p.a != 0], gen=g4, **k, opts=dict(paths=True, canon='all', forkres=True, prune=False, maxpaths=4000, lemmas=fin4), ens=ens4)
