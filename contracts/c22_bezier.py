"""C22 biquadratic Bezier patches"""
from contracts._common import *
P = 'C22'
def bern(x): return [(1 - x) * (1 - x), 2 * x * (1 - x), x * x]
def surf(c, u, v):
    bu, bv = bern(u), bern(v); n = len(c[0]); r = Vec([Re(0)] * n)
    for i in range(3):
        for j in range(3): r = r + c[3 * i + j] * (bv[i] * bu[j])
    return r
CTL = 'std::array<std::array<vm::vec<T,%d>,3>,3> c_; for (int i_ = 0; i_ < 3; ++i_) for (int j_ = 0; j_ < 3; ++j_) c_[i_][j_] = c[3 * i_ + j_]; '
EV = 'vm::evaluate_quadratic_bezier_surface(%s, %s, %s)'
for T_ in TS:
    for S in (1, 2, 3):
        q = '%d%s' % (S, SH[T_]); k = dict(T=T_); V = 'V%d' % S; ctl = CTL % S
        case(P, 'bezier' + q, 'c:A9:%s u:S v:S' % V, 'r:' + V, ctl + 'r = ' + EV % ('c_', 'u', 'v') + ';', spec=lambda p: surf(p.c, p.u, p.v), **k)
        case(P, 'bezier_corners' + q, 'c:A9:' + V, 'a:%s b:%s d:%s e:%s' % (V, V, V, V), ctl + ' '.join('%s = %s;' % (n, EV % ('c_', 'T(%d)' % x, 'T(%d)' % y)) for n, x, y in (('a', 0, 0), ('b', 1, 0), ('d', 0, 1), ('e', 1, 1))), spec=lambda p: Rec(a=p.c[0], b=p.c[2], d=p.c[6], e=p.c[8]), **k)
        # the point is a convex combination: whatever half space holds all control points holds it, too
        def lem(p):
            bu, bv = bern(p.u), bern(p.v); l = []
            for i in range(3):
                for j in range(3):
                    l.append(('term', lambda a, b, f, k: Implies(And(a >= 0, b >= 0, f <= k), a * b * f <= a * b * k), [bv[i], bu[j], dot(p.n, p.c[3 * i + j]), p.k]))
            B = lambda x: And((1 - x) * (1 - x) >= 0, 2 * x * (1 - x) >= 0, x * x >= 0) if False else Implies(And(x >= 0, x <= 1), And((1 - x) * (1 - x) >= 0, 2 * x * (1 - x) >= 0, x * x >= 0))
            one = sum((bv[i] * bu[j] for i in range(3) for j in range(3)), Re(0))
            return [('bern-u', B, [p.u]), ('bern-v', B, [p.v])] + l + [('partition', one == 1), ('sum', sum((bv[i] * bu[j] * dot(p.n, p.c[3 * i + j]) for i in range(3) for j in range(3)), Re(0)) <= sum((bv[i] * bu[j] * p.k for i in range(3) for j in range(3)), Re(0)))]
        case(P, 'bezier_hull' + q, 'c:A9:%s u:S v:S n:%s k:S' % (V, V), 'r:' + V, ctl + 'r = ' + EV % ('c_', 'u', 'v') + ';', **k, req=lambda p: [p.u >= 0, p.u <= 1, p.v >= 0, p.v <= 1] + [dot(p.n, x) <= p.k for x in p.c],
             opts=dict(prelemmas=lem), gen=lambda rng, S=S: (rvec(rng, 9 * S, 3) + [Fraction(rng.randint(0, 4), 4), Fraction(rng.randint(0, 4), 4)] + rvec(rng, S, 2) + [rs(rng, 20)], []),
             ens=lambda p, o: [('finite', fin(o.r)), ('in-half-space', dot(p.n, val(o.r)) <= p.k)])
    # affine maps commute with evaluation, and exchanging rows and columns exchanges the parameters
    case(P, 'bezier_affine' + SH[T_], 'c:A9:V3 u:S v:S m:M3x3 t:V3', 'r:V3 s:V3', CTL % 3 + 'r = m * %s + t; for (int i_ = 0; i_ < 3; ++i_) for (int j_ = 0; j_ < 3; ++j_) c_[i_][j_] = m * c_[i_][j_] + t; s = %s;' % (EV % ('c_', 'u', 'v'), EV % ('c_', 'u', 'v')), T=T_, ens=lambda p, o: [('finite', fin(o.r)), ('same', veq(o.r, val(o.s)))])
    case(P, 'bezier_transpose' + SH[T_], 'c:A9:V3 u:S v:S', 'r:V3 s:V3', CTL % 3 + 'r = %s; std::swap(c_[0][1], c_[1][0]); std::swap(c_[0][2], c_[2][0]); std::swap(c_[1][2], c_[2][1]); s = %s;' % (EV % ('c_', 'u', 'v'), EV % ('c_', 'v', 'u')), T=T_, ens=lambda p, o: [('finite', fin(o.r)), ('same', veq(o.r, val(o.s)))])
