"""C05 rounding and snapping"""
from contracts._common import *
P = 'C05'
BIG = 2 ** 52
def rti(k, x): return Fl(mk('frti_' + k, (x.t,), x.t.sort))
def away(x):
    """nearest integer, halves away from zero (real)"""
    x = Re.of(x)
    return ite(x >= 0, rfloor(x + Fraction(1, 2)), rceil(x - Fraction(1, 2)))
def up(x): x = Re.of(x); return ite(x >= 0, rceil(x), rfloor(x))
def rt(x): return Re(rtrunc(Re.of(x).t))
def big(x): return And(x < BIG, x > -BIG)
for T_ in TS:
    t = SH[T_]
    for nm, k in (('trunc', 'trunc'), ('floor', 'floor'), ('ceil', 'ceil'), ('round', 'round'), ('round_down', 'trunc')):
        case(P, '%s_F%s' % (nm, t), 'v:S', 'r:S', 'r = vm::%s(v);' % nm, T=T_, mode='F', req=lambda p: [p.v.isfin],
             ens=lambda p, o, k=k: o.r == rti(k, p.v), opts=dict(secs=120))
    case(P, 'round_up_F' + t, 'v:S', 'r:S', 'r = vm::round_up(v);', T=T_, mode='F', req=lambda p: [p.v.isfin],
         ens=lambda p, o: o.r == ite(p.v < 0.0, rti('floor', p.v), rti('ceil', p.v)))
    # real-arithmetic contracts, used by the functions below
    for nm, f in (('trunc', rt), ('floor', rfloor), ('ceil', rceil), ('round', away), ('round_down', rt), ('round_up', up)):
        case(P, '%s_R%s' % (nm, t), 'v:S', 'r:S', 'r = vm::%s(v);' % nm, T=T_, req=lambda p: [big(p.v)], spec=lambda p, f=f: f(p.v), callee='vm::%s<' % nm)
    case(P, 'fract_' + t, 'v:S', 'r:S', 'r = vm::fract(v);', T=T_, req=lambda p: [big(p.v)], spec=lambda p: p.v - rt(p.v), callee='vm::fract<')
    case(P, 'mod_' + t, 'x:S y:S', 'r:S', 'r = vm::mod(x, y);', T=T_, req=lambda p: [p.y != 0, big(p.x / p.y)], spec=lambda p: p.x - p.y * rt(p.x / p.y),
         ens=lambda p, o: [('smaller-than-divisor', absr(o.r.v) < absr(p.y)), ('sign-of-dividend', Or(o.r.v * p.x > 0, o.r.v == 0))], callee='vm::mod<')
    case(P, 'snap_' + t, 'v:S g:S', 'r:S', 'r = vm::snap(v, g);', T=T_, req=lambda p: [p.g > 0, big(p.v / p.g)], spec=lambda p: p.g * away(p.v / p.g),
         ens=lambda p, o: [('nearest', absr(o.r.v - p.v) * 2 <= p.g)], callee='vm::snap<')
    case(P, 'snapUp_' + t, 'v:S g:S', 'r:S', 'r = vm::snapUp(v, g);', T=T_, req=lambda p: [p.g > 0, big(p.v / p.g)], spec=lambda p: p.g * up(p.v / p.g),
         ens=lambda p, o: [('within-one-cell', absr(o.r.v - p.v) < p.g), ('away-from-zero', absr(o.r.v) >= absr(p.v))], callee='vm::snapUp<')
    case(P, 'snapDown_' + t, 'v:S g:S', 'r:S', 'r = vm::snapDown(v, g);', T=T_, req=lambda p: [p.g > 0, big(p.v / p.g)], spec=lambda p: p.g * rt(p.v / p.g),
         ens=lambda p, o: [('within-one-cell', absr(o.r.v - p.v) < p.g), ('towards-zero', absr(o.r.v) <= absr(p.v))], callee='vm::snapDown<')
    cor = lambda v, e: ite(absr(v - away(v)) < e, away(v), v)
    case(P, 'correct_' + t, 'v:S e:S', 'r:S', 'r = vm::correct(v, 0u, e);', T=T_, req=lambda p: [big(p.v)], spec=lambda p: cor(p.v, p.e))
    case(P, 'correctd_' + t, 'v:S', 'r:S', 'r = vm::correct(v);', T=T_, req=lambda p: [big(p.v)], spec=lambda p: cor(p.v, Fraction(1, 1000)))
    for S in (2, 3, 4):
        V = 'V%d' % S; q = '%d%s' % (S, t)
        for nm, f in (('trunc', rt), ('floor', rfloor), ('ceil', rceil), ('round', away), ('fract', lambda x: x - rt(x))):
            case(P, 'v%s_%s' % (nm, q), 'v:' + V, 'r:' + V, 'r = vm::%s(v);' % nm, T=T_, req=lambda p: [big(x) for x in p.v], spec=lambda p, f=f: Vec(f(x) for x in p.v), callee='vm::%s<' % nm)
        for nm, f in (('snap', away), ('snapUp', up), ('snapDown', rt)):
            case(P, 'v%s_%s' % (nm, q), 'v:%s g:%s' % (V, V), 'r:' + V, 'r = vm::%s(v, g);' % nm, T=T_, req=lambda p: [And(g > 0, big(x / g)) for x, g in zip(p.v, p.g)],
                 spec=lambda p, f=f: Vec(g * f(x / g) for x, g in zip(p.v, p.g)))
        case(P, 'vmod_' + q, 'v:%s g:%s' % (V, V), 'r:' + V, 'r = vm::mod(v, g);', T=T_, req=lambda p: [And(g != 0, big(x / g)) for x, g in zip(p.v, p.g)],
             spec=lambda p: Vec(x - g * rt(x / g) for x, g in zip(p.v, p.g)))
        case(P, 'vcorrect_' + q, 'v:%s e:S' % V, 'r:' + V, 'r = vm::correct(v, 0u, e);', T=T_, req=lambda p: [big(x) for x in p.v], spec=lambda p, cor=cor: Vec(cor(x, p.e) for x in p.v))
        case(P, 'visintegral_' + q, 'v:%s e:S' % V, 'r:B', 'r = vm::is_integral(v, e);', T=T_, req=lambda p: [big(x) for x in p.v] + [p.e >= 0], spec=lambda p: And([absr(x - away(x)) <= p.e for x in p.v]))
        case(P, 'visintegral0_' + q, 'v:%s' % V, 'r:B', 'r = vm::is_integral(v);', T=T_, req=lambda p: [big(x) for x in p.v], spec=lambda p: And([x == away(x) for x in p.v]))
