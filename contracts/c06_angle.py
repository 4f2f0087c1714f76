"""C06 angles and cyclic indices, constants"""
from contracts._common import *
import numpy as np
P = 'C06'
PI = 3.141592653589793
def lit(T_, x): return Fraction(float(np.float32(x))) if T_ == 'float' else Fraction(float(x))
def fcon(x, p): pass
for T_ in TS:
    t = SH[T_]
    pi = lit(T_, PI)
    case(P, 'to_radians_' + t, 'd:S', 'r:S', 'r = vm::to_radians(d);', T=T_, spec=lambda p, pi=pi: p.d * pi / 180, callee='vm::to_radians<', opts=dict(nolit=True))
    case(P, 'to_degrees_' + t, 'd:S', 'r:S', 'r = vm::to_degrees(d);', T=T_, spec=lambda p, pi=pi: p.d * 180 / pi, callee='vm::to_degrees<', opts=dict(nolit=True))
    case(P, 'deg_rad_roundtrip_' + t, 'd:S', 'r:S q:S', 'r = vm::to_degrees(vm::to_radians(d)); q = vm::to_radians(vm::to_degrees(d));', T=T_, spec=lambda p: Rec(r=p.d, q=p.d))
    for nm, o_ in (('radians', 2 * pi), ('degrees', Fraction(360))):
        case(P, 'normalize_%s_%s' % (nm, t), 'd:S', 'r:S', 'r = vm::normalize_%s(d);' % nm, T=T_, req=lambda p, o_=o_: [p.d / o_ < 2 ** 50, p.d / o_ > -2 ** 50],
             ens=lambda p, o, o_=o_: [('range', And(o.r >= 0, o.r < o_)), ('same-angle', And(o.r.fin, o.r.v == p.d - o_ * rfloor(p.d / o_)))])
    case(P, 'constants_' + t, '', 'pi:S two:S half:S quarter:S e:S a:S b:S c:S d:S f:S th:S',
         'using C = vm::constants<T>; pi = C::pi(); two = C::two_pi(); half = C::half_pi(); quarter = C::quarter_pi(); th = C::three_half_pi(); e = C::e(); a = C::almost_zero(); b = C::point_status_epsilon(); c = C::correct_epsilon(); d = C::colinear_epsilon(); f = C::angle_epsilon();',
         T=T_, mode='F', ens=lambda p, o: [('pi', o.pi == PI), ('two-pi', o.two == 2 * PI), ('half-pi', o.half == PI / 2), ('quarter-pi', o.quarter == PI / 4), ('e', o.e == 2.718281828459045),
            ('three-half-pi', And(o.th >= (4.7123885 if o.th.t.sort == 'F32' else 4.712388980384689), o.th <= (4.7123895 if o.th.t.sort == 'F32' else 4.71238898038469))),
            ('tolerances', And(o.a == 0.001, o.b == 0.0001, o.c == 0.001, o.d == 0.00001, o.f == 0.00000001))])
L62 = 1 << 62
def ul(a, b): return icmp('ult', I(a, 64) if not isinstance(a, T) else a, I(b, 64) if not isinstance(b, T) else b)
def cyc(i, n, s, d):
    return None
# index < count, stride < count: the cyclic neighbour
for cty, k, w, lim in (('size_t', 'U', 64, 1 << 62), ('int', 'I32', 32, 1 << 30)):
    def R_(p, lim=lim): return [icmp('sle', I(1, 64), p.c) , icmp('sle', p.c, I(lim, 64)), icmp('sle', I(0, 64), p.i), icmp('slt', p.i, p.c), icmp('sle', I(0, 64), p.s), icmp('slt', p.s, p.c)]
    def R1_(p, lim=lim): return [icmp('sle', I(1, 64), p.c) , icmp('sle', p.c, I(lim, 64)), icmp('sle', I(0, 64), p.i), icmp('slt', p.i, p.c)]
    case(P, 'succ_' + cty, 'i:%s c:%s s:%s' % (k, k, k), 'r:' + k, 'r = vm::succ(i, c, s);', callee='vm::succ<', req=R_,
         spec=lambda p: Ite(icmp('slt', iop('iadd', p.i, p.s), p.c), iop('iadd', p.i, p.s), iop('isub', iop('iadd', p.i, p.s), p.c)))
    case(P, 'pred_' + cty, 'i:%s c:%s s:%s' % (k, k, k), 'r:' + k, 'r = vm::pred(i, c, s);', callee='vm::pred<', req=R_,
         spec=lambda p: Ite(icmp('sle', p.s, p.i), iop('isub', p.i, p.s), iop('iadd', p.i, iop('isub', p.c, p.s))))
    case(P, 'succ1_' + cty, 'i:%s c:%s' % (k, k), 'r:' + k, 'r = vm::succ(i, c);', req=lambda p, R1_=R1_: R1_(p) + [icmp('sle', I(2, 64), p.c)],
         spec=lambda p: Ite(icmp('slt', iop('iadd', p.i, I(1, 64)), p.c), iop('iadd', p.i, I(1, 64)), I(0, 64)))
    case(P, 'pred1_' + cty, 'i:%s c:%s' % (k, k), 'r:' + k, 'r = vm::pred(i, c);', req=lambda p, R1_=R1_: R1_(p) + [icmp('sle', I(2, 64), p.c)],
         spec=lambda p: Ite(icmp('sle', I(1, 64), p.i), iop('isub', p.i, I(1, 64)), iop('isub', p.c, I(1, 64))))
    case(P, 'pred_succ_' + cty, 'i:%s c:%s s:%s' % (k, k, k), 'r:%s q:%s' % (k, k), 'r = vm::pred(vm::succ(i, c, s), c, s); q = vm::succ(vm::pred(i, c, s), c, s);', req=R_,
         spec=lambda p: Rec(r=p.i, q=p.i))
