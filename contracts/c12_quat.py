"""C12 quaternions"""
from contracts._common import *
P = 'C12'
def qn(q): return q.r * q.r + sqlen(q.v)
def ham(a, b): return Rec(r=a.r * b.r - dot(a.v, b.v), v=b.v * a.r + a.v * b.r + cross(a.v, b.v))
def rot(q, w): return w * (q.r * q.r - sqlen(q.v)) + q.v * (2 * dot(q.v, w)) + cross(q.v, w) * (2 * q.r)
def uq(p): return [qn(p.q) == 1]
def guq(nv):
    return lambda rng: (runit(rng, 4) + [x for _ in range(nv) for x in rvec(rng)], [])
for T_ in TS:
    t = SH[T_]
    case(P, 'qmul' + t, 'a:Q b:Q', 'r:Q', 'r = a * b;', T=T_, callee=r'vm::operator\*<', spec=lambda p: ham(p.a, p.b))
    case(P, 'qconj' + t, 'a:Q', 'r:Q', 'r = a.conjugate();', T=T_, callee='::conjugate', spec=lambda p: Rec(r=p.a.r, v=-p.a.v))
    case(P, 'qpos' + t, 'a:Q', 'r:Q', 'r = +a;', T=T_, spec=lambda p: p.a)
    case(P, 'qneg' + t, 'a:Q', 'r:Q', 'r = -a;', T=T_, spec=lambda p: Rec(r=-p.a.r, v=p.a.v))
    case(P, 'qscale' + t, 'a:Q k:S', 'r:Q s:Q', 'r = a * k; s = k * a;', T=T_, spec=lambda p: Rec(r=Rec(r=p.a.r * p.k, v=p.a.v * p.k), s=Rec(r=p.a.r * p.k, v=p.a.v * p.k)))
    case(P, 'qzero' + t, '', 'r:Q', 'r = vm::quat<T>();', T=T_, spec=lambda p: Rec(r=Re(0), v=Vec([Re(0)] * 3)))
    case(P, 'qparts' + t, 's:S w:V3', 'r:Q', 'r = vm::quat<T>(s, w);', T=T_, spec=lambda p: Rec(r=p.s, v=p.w))
    case(P, 'qvec' + t, 'q:Q w:V3', 'r:V3', 'r = q * w;', T=T_, callee=r'vm::operator\*<', spec=lambda p: rot(p.q, p.w))
    case(P, 'qnorm' + t, 'a:Q b:Q', 'r:Q', 'r = a * b;', T=T_, ens=lambda p, o: [('norm-multiplicative', And(fin(o.r), qn(val(o.r)) == qn(p.a) * qn(p.b)))])
    case(P, 'qassoc' + t, 'a:Q b:Q c:Q', 'r:Q s:Q', 'r = (a * b) * c; s = a * (b * c);', T=T_, ens=lambda p, o: [('associative', And(o.r.r == o.s.r, veq(o.r.v, o.s.v)))])
    case(P, 'qcompose' + t, 'a:Q b:Q w:V3', 'r:V3 s:V3', 'r = (a * b) * w; s = a * (b * w);', T=T_, ens=lambda p, o: [('composes', veq(o.r, val(o.s)))])
    case(P, 'qinverse' + t, 'q:Q w:V3', 'r:V3 s:V3', 'r = q.conjugate() * (q * w); s = q * (q.conjugate() * w);', T=T_, req=uq, gen=guq(1), spec=lambda p: Rec(r=p.w, s=p.w))
    case(P, 'qisometry' + t, 'q:Q w:V3 u:V3', 'r:V3 s:V3', 'r = q * w; s = q * u;', T=T_, req=uq, gen=guq(2),
         ens=lambda p, o: [('length', sqlen(val(o.r)) == sqlen(p.w)), ('angle', dot(val(o.r), val(o.s)) == dot(p.w, p.u)), ('orientation', veq(cross(val(o.r), val(o.s)), rot(p.q, cross(p.w, p.u))))])
    case(P, 'qaxisangle' + t, 'a:V3 h:S', 'r:Q', 'r = vm::quat<T>(a, h * T(2));', T=T_, opts=dict(PIOPT), req=lambda p: [unit(p.a)], gen=lambda rng: (runit(rng) + [rs(rng, 3)], []),
         ens=lambda p, o: [('half-angle', And(o.r.r == cos(p.h), veq(o.r.v, p.a * sin(p.h))))])
    case(P, 'qrodrigues' + t, 'a:V3 h:S w:V3', 'r:V3', 'r = vm::quat<T>(a, h * T(2)) * w;', T=T_, opts=dict(PIOPT), req=lambda p: [unit(p.a)], gen=lambda rng: (runit(rng) + [rs(rng, 3)] + rvec(rng), []),
         ens=lambda p, o: (lambda c, s: [('counter-clockwise%d' % i, And(o.r[i].fin, o.r[i].v == (p.w * c + cross(p.a, p.w) * s + p.a * (dot(p.a, p.w) * (1 - c)))[i])) for i in range(3)])(
             cos(p.h) * cos(p.h) - sin(p.h) * sin(p.h), 2 * sin(p.h) * cos(p.h)))
    case(P, 'qangle' + t, 'q:Q', 'r:S', 'r = q.angle();', T=T_, req=uq, gen=guq(0), spec=lambda p: 2 * uf('acos', p.q.r))
    case(P, 'qaxis' + t, 'q:Q', 'r:V3', 'r = q.axis();', T=T_, req=uq, gen=guq(0), opts=dict(prelemmas=lambda p: [('norm', 1 - p.q.r * p.q.r == sqlen(p.q.v))]),
         ens=lambda p, o: (lambda z: [('no-axis', Implies(z, veq(o.r, p.q.v))), ('unit', Implies(Not(z), And(fin(o.r), sqlen(val(o.r)) == 1))), ('along-imaginary-part', And(veq(cross(val(o.r), p.q.v), [0, 0, 0]), dot(val(o.r), p.q.v) >= 0))])(
             And([absr(x) <= Fraction(1, 1000) for x in p.q.v])))
    CL = Fraction(999, 1000)
    case(P, 'qfromto' + t, 'a:V3 b:V3', 'r:Q w:V3', 'r = vm::quat<T>(a, b); w = r * a;', T=T_, req=lambda p: [unit(p.a), unit(p.b)], gen=lambda rng: (lambda a: (a + (runit(rng) if rng.random() < .6 else [-x for x in a] if rng.random() < .5 else a), []))(runit(rng)),
         opts=dict(PIOPT, paths=True, prelemmas=lambda p: (lambda c: [('lagrange', sqlen(cross(p.a, p.b)) == 1 - c * c), L_sqlen(*cross(p.a, p.b)), L_unit_bound(c, sqlen(cross(p.a, p.b))), ('not-parallel', Or(c >= CL, c <= -CL, And(sqlen(cross(p.a, p.b)) > 0, 1 - c * c > 0, 1 - c > 0, 1 + c > 0))), L_sqrt(sqlen(cross(p.a, p.b))), ('root', Or(c >= CL, c <= -CL, sqrt(sqlen(cross(p.a, p.b))) > 0))])(dot(p.a, p.b))),
         ens=lambda p, o: [('maps-first-onto-second%d' % i, Or(dot(p.a, p.b) >= CL, dot(p.a, p.b) <= -CL, o.w[i] == p.b[i])) for i in range(3)] + [('nearly-equal-vectors%d' % i, Or(dot(p.a, p.b) < CL, o.w[i] == p.a[i])) for i in range(3)] + [('nearly-opposite-vectors%d' % i, Or(dot(p.a, p.b) > -CL, o.w[i] == -p.a[i])) for i in range(3)] +
             [('unit', qn(val(o.r)) == 1), ('shortest-arc', And(val(o.r).r >= 0)), ('axis-orthogonal', And(dot(val(o.r).v, p.a) == 0, Or(dot(p.a, p.b) >= CL, dot(p.a, p.b) <= -CL, dot(val(o.r).v, p.b) == 0)))])
    for nm, md, z in (('eq', 'F', 0.0),):
        def same(p): return And(Or(p.a.r == p.b.r, p.a.r == -p.b.r), And([x == y for x, y in zip(p.a.v, p.b.v)]))
        case(P, 'qeq' + t, 'a:Q b:Q', 'r:B s:B', 'r = a == b; s = a != b;', T=T_, mode='F', req=lambda p: [Not(x.isnan) for x in [p.a.r, p.b.r] + list(p.a.v) + list(p.b.v)], ens=lambda p, o, same=same: [('equal', Iff(o.r, same(p))), ('unequal', Iff(o.s, Not(same(p))))])
    case(P, 'qis_equal' + t, 'a:Q b:Q e:S', 'r:B', 'r = vm::is_equal(a, b, e);', T=T_,
         spec=lambda p: And(Or(absr(p.a.r - p.b.r) <= p.e, absr(p.a.r + p.b.r) <= p.e), And([absr(x - y) <= p.e for x, y in zip(p.a.v, p.b.v)])))
