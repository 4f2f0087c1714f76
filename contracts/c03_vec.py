"""C03 vector algebra"""
from contracts._common import *
P = 'C03'
for T_ in TS:
    for S in (2, 3, 4):
        t = '%s%d' % (SH[T_], S); V = 'V%d' % S
        case(P, 'dot_' + t, 'a:%s b:%s' % (V, V), 'r:S', 'r = vm::dot(a, b);', T=T_, callee=r'vm::dot<', spec=lambda p: dot(p.a, p.b))
        for nm, op, f in (('add', '+', lambda p: p.a + p.b), ('sub', '-', lambda p: p.a - p.b), ('mulc', '*', lambda p: p.a * p.b)):
            case(P, 'vec_%s_%s' % (nm, t), 'a:%s b:%s' % (V, V), 'r:' + V, 'r = a %s b;' % op, T=T_, callee=r'vm::operator\%s<' % op, spec=f)
        case(P, 'vec_neg_' + t, 'a:' + V, 'r:' + V, 'r = -a;', T=T_, callee=r'vm::operator-<', spec=lambda p: -p.a)
        case(P, 'vec_pos_' + t, 'a:' + V, 'r:' + V, 'r = +a;', T=T_, spec=lambda p: p.a)
        case(P, 'vec_muls_' + t, 'a:%s k:S' % V, 'r:' + V, 'r = a * k;', T=T_, callee=r'vm::operator\*<', spec=lambda p: p.a * p.k)
        case(P, 'vec_smul_' + t, 'k:S a:' + V, 'r:' + V, 'r = k * a;', T=T_, callee=r'vm::operator\*<', spec=lambda p: p.a * p.k)
        case(P, 'vec_divs_' + t, 'a:%s k:S' % V, 'r:' + V, 'r = a / k;', T=T_, callee=r'vm::operator/<', req=lambda p: [p.k != 0], spec=lambda p: p.a / p.k)
        case(P, 'vec_sdiv_' + t, 'k:S a:' + V, 'r:' + V, 'r = k / a;', T=T_, callee=r'vm::operator/<', req=lambda p: [x != 0 for x in p.a], spec=lambda p: Vec(p.k / x for x in p.a))
        case(P, 'vec_divc_' + t, 'a:%s b:%s' % (V, V), 'r:' + V, 'r = a / b;', T=T_, callee=r'vm::operator/<', req=lambda p: [x != 0 for x in p.b], spec=lambda p: p.a / p.b)
        case(P, 'squared_length_' + t, 'a:' + V, 'r:S', 'r = vm::squared_length(a);', T=T_, callee='vm::squared_length<', spec=lambda p: sqlen(p.a))
        case(P, 'length_' + t, 'a:' + V, 'r:S', 'r = vm::length(a);', T=T_, callee='vm::length<', spec=lambda p: sqrt(sqlen(p.a)))
        case(P, 'distance_' + t, 'a:%s b:%s' % (V, V), 'r:S', 'r = vm::distance(a, b);', T=T_, callee='vm::distance<', spec=lambda p: sqrt(sqlen(p.a - p.b)))
        case(P, 'squared_distance_' + t, 'a:%s b:%s' % (V, V), 'r:S', 'r = vm::squared_distance(a, b);', T=T_, callee='vm::squared_distance<', spec=lambda p: sqlen(p.a - p.b))
        nz = lambda p: [sqlen(p.a) > 0]
        case(P, 'normalize_' + t, 'a:' + V, 'r:' + V, 'r = vm::normalize(a);', T=T_, callee='vm::normalize<', req=nz, spec=lambda p: p.a / sqrt(sqlen(p.a)))
        case(P, 'normalize_unit_' + t, 'a:' + V, 'r:' + V, 'r = vm::normalize(a);', T=T_, req=nz,
             ens=lambda p, o: [('unit', And(fin(o.r), sqlen(val(o.r)) == 1)), ('same-direction', veq(p.a, val(o.r) * sqrt(sqlen(p.a))))])
        case(P, 'to_homogeneous_' + t, 'a:' + V, 'r:V%d' % (S + 1), 'r = vm::to_homogeneous_coords(a);', T=T_, callee='vm::to_homogeneous_coords<', spec=lambda p: Vec(list(p.a) + [Re(1)]))
        case(P, 'to_cartesian_' + t, 'a:V%d' % (S + 1), 'r:' + V, 'r = vm::to_cartesian_coords(a);', T=T_, callee='vm::to_cartesian_coords<', req=lambda p: [p.a[-1] != 0], spec=lambda p: Vec(list(p.a)[:-1]) / p.a[-1])
        case(P, 'homog_roundtrip_' + t, 'a:%s w:S' % V, 'r:%s q:%s' % (V, V), 'r = vm::to_cartesian_coords(vm::to_homogeneous_coords(a)); q = vm::to_cartesian_coords(vm::to_homogeneous_coords(a) * w);', T=T_, req=lambda p: [p.w != 0], spec=lambda p: Rec(r=p.a, q=p.a))
        # colinearity, parallelism, betweenness
        def gram(p):
            u = p.a - p.c; v = p.b - p.a
            return sqlen(u) * sqlen(v) - dot(u, v) * dot(u, v)
        case(P, 'is_colinear_' + t, 'a:%s b:%s c:%s e:S' % (V, V, V), 'r:B', 'r = vm::is_colinear(a, b, c, e);', T=T_, req=lambda p: [p.e >= 0], spec=lambda p, gram=gram: Or(gram(p) == 0, absr(gram(p)) <= p.e))
        case(P, 'is_colinear_def_' + t, 'a:%s b:%s c:%s' % (V, V, V), 'r:B', 'r = vm::is_colinear(a, b, c);', T=T_, spec=lambda p, gram=gram: absr(gram(p)) <= Fraction(1, 100000))
        case(P, 'is_parallel_' + t, 'a:%s b:%s e:S' % (V, V), 'r:B', 'r = vm::is_parallel(a, b, e);', T=T_, req=lambda p: [sqlen(p.a) > 0, sqlen(p.b) > 0],
             spec=lambda p: absr(absr(dot(p.a / sqrt(sqlen(p.a)), p.b / sqrt(sqlen(p.b)))) - 1) <= p.e)
        case(P, 'is_parallel_def_' + t, 'a:%s b:%s' % (V, V), 'r:B', 'r = vm::is_parallel(a, b);', T=T_, req=lambda p: [sqlen(p.a) > 0, sqlen(p.b) > 0],
             spec=lambda p: absr(absr(dot(p.a / sqrt(sqlen(p.a)), p.b / sqrt(sqlen(p.b)))) - 1) <= Fraction(1, 100000))
        case(P, 'is_unit_' + t, 'a:%s e:S' % V, 'r:B', 'r = vm::is_unit(a, e);', T=T_, callee='vm::is_unit<', spec=lambda p: absr(sqrt(sqlen(p.a)) - 1) <= p.e)
        # p = s + k * (e - s)  (every colinear p when s != e)
        case(P, 'is_between_' + t, 's:%s e:%s k:S' % (V, V), 'r:B', 'r = vm::is_between(s + (e - s) * k, s, e);', T=T_, spec=lambda p: Or(veq(p.s, p.e), And(p.k >= 0, p.k <= 1)))
    case(P, 'cross_' + SH[T_], 'a:V3 b:V3', 'r:V3', 'r = vm::cross(a, b);', T=T_, callee='vm::cross<', spec=lambda p: cross(p.a, p.b))
    case(P, 'cross_laws_' + SH[T_], 'a:V3 b:V3', 'r:V3 s:V3', 'r = vm::cross(a, b); s = vm::cross(b, a);', T=T_,
         ens=lambda p, o: [('orthogonal', And(dot(val(o.r), p.a) == 0, dot(val(o.r), p.b) == 0)), ('anticommutative', veq(val(o.r), -val(o.s))), ('lagrange', sqlen(val(o.r)) == sqlen(p.a) * sqlen(p.b) - dot(p.a, p.b) * dot(p.a, p.b))])
    pi2 = 2 * (Fraction(3.141592653589793) if T_ == 'double' else Fraction(13176795, 4194304))
    case(P, 'measure_angle_' + SH[T_], 'v:V3 axis:V3 up:V3', 'r:S', 'r = vm::measure_angle(v, axis, up);', T=T_,
         spec=lambda p, pi2=pi2: (lambda a: ite(dot(cross(p.axis, p.v), p.up) >= 0, a, pi2 - a))(uf('acos', ite(dot(p.v, p.axis) < -1, -1, ite(dot(p.v, p.axis) > 1, 1, dot(p.v, p.axis))))))
    for n in (1, 2, 3, 4):
        for S in (2, 3):
            case(P, 'average_%s%d_%d' % (SH[T_], S, n), 'a:A%d:V%d' % (n, S), 'r:V%d' % S, 'r = vm::average(a, a + %d);' % n, T=T_,
                 spec=lambda p, n=n: sum(p.a[1:], p.a[0]) / n, bounded='lists of %d points' % n)
