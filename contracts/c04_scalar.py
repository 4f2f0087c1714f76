"""C04 scalar selection"""
from contracts._common import *
P = 'C04'
def nonan(*a): return [Not(x.isnan) for x in a]
for T_ in TS:
    t = SH[T_]
    for n in (2, 3, 4):
        names = 'abcd'[:n]
        ps = ' '.join(x + ':S' for x in names)
        args = ', '.join(names)
        def lo(p, names=names): return [p[x] for x in names]
        case(P, 'min%d_%s' % (n, t), ps, 'r:S', 'r = vm::min(%s);' % args, T=T_, mode='F', req=lambda p, lo=lo: nonan(*lo(p)),
             ens=lambda p, o, lo=lo: [('lower-bound', And([o.r <= x for x in lo(p)])), ('is-one-of', Or([o.r == x for x in lo(p)]))])
        case(P, 'max%d_%s' % (n, t), ps, 'r:S', 'r = vm::max(%s);' % args, T=T_, mode='F', req=lambda p, lo=lo: nonan(*lo(p)),
             ens=lambda p, o, lo=lo: [('upper-bound', And([o.r >= x for x in lo(p)])), ('is-one-of', Or([o.r == x for x in lo(p)]))])
        case(P, 'absmin%d_%s' % (n, t), ps, 'r:S', 'r = vm::abs_min(%s);' % args, T=T_, mode='F', req=lambda p, lo=lo: nonan(*lo(p)),
             ens=lambda p, o, lo=lo: [('least-magnitude', And([absr(o.r) <= absr(x) for x in lo(p)])), ('is-one-of', Or([o.r == x for x in lo(p)]))])
        case(P, 'absmax%d_%s' % (n, t), ps, 'r:S', 'r = vm::abs_max(%s);' % args, T=T_, mode='F', req=lambda p, lo=lo: nonan(*lo(p)),
             ens=lambda p, o, lo=lo: [('greatest-magnitude', And([absr(o.r) >= absr(x) for x in lo(p)])), ('is-one-of', Or([o.r == x for x in lo(p)]))])
        def safe(p, o, up, lo=lo):
            xs = lo(p)
            return [('nan-only-if-all-nan', Iff(o.r.isnan, And([x.isnan for x in xs]))),
                    ('bound', And([Or(x.isnan, (o.r >= x) if up else (o.r <= x)) for x in xs])),
                    ('is-one-of', Or([o.r.isnan] + [o.r == x for x in xs]))]
        case(P, 'safemin%d_%s' % (n, t), ps, 'r:S', 'r = vm::safe_min(%s);' % args, T=T_, mode='F', ens=lambda p, o, f=safe: f(p, o, False))
        case(P, 'safemax%d_%s' % (n, t), ps, 'r:S', 'r = vm::safe_max(%s);' % args, T=T_, mode='F', ens=lambda p, o, f=safe: f(p, o, True))
    case(P, 'rabs_' + t, 'a:S', 'r:S', 'r = vm::abs(a);', T=T_, spec=lambda p: absr(p.a), callee='vm::abs<')
    case(P, 'abs_' + t, 'a:S', 'r:S', 'r = vm::abs(a);', T=T_, mode='F',
         ens=lambda p, o: [('nan', Iff(o.r.isnan, p.a.isnan)), ('value', Or(p.a.isnan, And(o.r >= 0.0, Or(o.r == p.a, o.r == -p.a))))])
    case(P, 'isnan_' + t, 'a:S', 'r:B', 'r = vm::is_nan(a);', T=T_, mode='F', spec=lambda p: p.a.isnan)
    case(P, 'isinf_' + t, 'a:S', 'r:B', 'r = vm::is_inf(a);', T=T_, mode='F', spec=lambda p: p.a.isinf)
    case(P, 'nanv_' + t, '', 'r:S', 'r = vm::nan<T>();', T=T_, mode='F', ens=lambda p, o: o.r.isnan)
    case(P, 'clamp_' + t, 'v:S lo:S hi:S', 'r:S', 'r = vm::clamp(v, lo, hi);', T=T_, mode='F', req=lambda p: nonan(p.v, p.lo, p.hi) + [p.lo <= p.hi],
         ens=lambda p, o: o.r == ite(p.v < p.lo, p.lo, ite(p.v > p.hi, p.hi, p.v)))
    case(P, 'clamp01_' + t, 'v:S', 'r:S', 'r = vm::clamp(v);', T=T_, mode='F', req=lambda p: nonan(p.v),
         ens=lambda p, o: o.r == ite(p.v < 0.0, 0.0, ite(p.v > 1.0, Fl(F(1.0, p.v.t.sort)), p.v)))
    case(P, 'sign_' + t, 'v:S', 'r:S', 'r = vm::sign(v);', T=T_, mode='F', req=lambda p: nonan(p.v),
         ens=lambda p, o: [And(Implies(p.v > 0.0, o.r == 1.0), Implies(p.v < 0.0, o.r == -1.0), Implies(p.v == 0.0, o.r == 0.0))])
    case(P, 'step_' + t, 'e:S v:S', 'r:S', 'r = vm::step(e, v);', T=T_, mode='F', req=lambda p: nonan(p.e, p.v),
         ens=lambda p, o: [And(Implies(p.v < p.e, o.r == 0.0), Implies(Not(p.v < p.e), o.r == 1.0))])
    case(P, 'contains_' + t, 'v:S s:S e:S', 'r:B', 'r = vm::contains(v, s, e);', T=T_, mode='F', req=lambda p: nonan(p.v, p.s, p.e),
         spec=lambda p: Or(And(p.s <= p.v, p.v <= p.e), And(p.e <= p.v, p.v <= p.s)))
    case(P, 'mix_' + t, 'x:S y:S a:S', 'r:S', 'r = vm::mix(x, y, a);', T=T_, spec=lambda p: p.x + p.a * (p.y - p.x), callee='vm::mix<')
    def sstep(p):
        s = (p.v - p.e0) / (p.e1 - p.e0)
        s = ite(s < 0, 0, ite(s > 1, 1, s))
        return s * s * (3 - 2 * s)
    case(P, 'smoothstep_' + t, 'e0:S e1:S v:S', 'r:S', 'r = vm::smoothstep(e0, e1, v);', T=T_, req=lambda p: [p.e0 < p.e1], spec=sstep,
         ens=lambda p, o: [('range', And(o.r >= 0, o.r <= 1)), ('below', Implies(p.v <= p.e0, o.r == 0)), ('above', Implies(p.v >= p.e1, o.r == 1))])
    case(P, 'absdiff_' + t, 'a:S b:S', 'r:S', 'r = vm::abs_difference(a, b);', T=T_, spec=lambda p: absr(absr(p.a) - absr(p.b)), callee='vm::abs_difference<')
    for S in (2, 3, 4):
        V = 'V%d' % S; q = '%d%s' % (S, t)
        fz = lambda p: [x.isfin for x in p.a] + [fin_(x) for x in p.b]
        nn2 = lambda p: nonan(*p.a) + nonan(*p.b)
        case(P, 'vmin_' + q, 'a:%s b:%s' % (V, V), 'r:' + V, 'r = vm::min(a, b);', T=T_, mode='F', req=nn2,
             ens=lambda p, o: And([And(r <= x, r <= y, Or(r == x, r == y)) for r, x, y in zip(o.r, p.a, p.b)]))
        case(P, 'vmax_' + q, 'a:%s b:%s' % (V, V), 'r:' + V, 'r = vm::max(a, b);', T=T_, mode='F', req=nn2,
             ens=lambda p, o: And([And(r >= x, r >= y, Or(r == x, r == y)) for r, x, y in zip(o.r, p.a, p.b)]))
        case(P, 'vmin3_' + q, 'a:%s b:%s c:%s' % (V, V, V), 'r:' + V, 'r = vm::min(a, b, c);', T=T_, mode='F', req=lambda p: nonan(*p.a) + nonan(*p.b) + nonan(*p.c),
             ens=lambda p, o: And([And(r <= x, r <= y, r <= z, Or(r == x, r == y, r == z)) for r, x, y, z in zip(o.r, p.a, p.b, p.c)]))
        case(P, 'vmax3_' + q, 'a:%s b:%s c:%s' % (V, V, V), 'r:' + V, 'r = vm::max(a, b, c);', T=T_, mode='F', req=lambda p: nonan(*p.a) + nonan(*p.b) + nonan(*p.c),
             ens=lambda p, o: And([And(r >= x, r >= y, r >= z, Or(r == x, r == y, r == z)) for r, x, y, z in zip(o.r, p.a, p.b, p.c)]))
        case(P, 'vabsmin_' + q, 'a:%s b:%s' % (V, V), 'r:' + V, 'r = vm::abs_min(a, b);', T=T_, mode='F', req=nn2,
             ens=lambda p, o: And([And(absr(r) <= absr(x), absr(r) <= absr(y), Or(r == x, r == y)) for r, x, y in zip(o.r, p.a, p.b)]))
        case(P, 'vabsmax_' + q, 'a:%s b:%s' % (V, V), 'r:' + V, 'r = vm::abs_max(a, b);', T=T_, mode='F', req=nn2,
             ens=lambda p, o: And([And(absr(r) >= absr(x), absr(r) >= absr(y), Or(r == x, r == y)) for r, x, y in zip(o.r, p.a, p.b)]))
        case(P, 'vabs_' + q, 'a:' + V, 'r:' + V, 'r = vm::abs(a);', T=T_, mode='F', req=lambda p: nonan(*p.a),
             ens=lambda p, o: And([And(r >= 0.0, Or(r == x, r == -x)) for r, x in zip(o.r, p.a)]))
        case(P, 'vclamp_' + q, 'v:%s lo:%s hi:%s' % (V, V, V), 'r:' + V, 'r = vm::clamp(v, lo, hi);', T=T_, mode='F',
             req=lambda p: nonan(*(list(p.v) + list(p.lo) + list(p.hi))) + [x <= y for x, y in zip(p.lo, p.hi)],
             ens=lambda p, o: And([r == ite(v < l, l, ite(v > h, h, v)) for r, v, l, h in zip(o.r, p.v, p.lo, p.hi)]))
        case(P, 'vsign_' + q, 'v:' + V, 'r:' + V, 'r = vm::sign(v);', T=T_, mode='F', req=lambda p: nonan(*p.v),
             ens=lambda p, o: And([And(Implies(v > 0.0, r == 1.0), Implies(v < 0.0, r == -1.0), Implies(v == 0.0, r == 0.0)) for r, v in zip(o.r, p.v)]))
        case(P, 'vstep_' + q, 'e:%s v:%s' % (V, V), 'r:' + V, 'r = vm::step(e, v);', T=T_, mode='F', req=lambda p: nonan(*p.v) + nonan(*p.e),
             ens=lambda p, o: And([And(Implies(v < e, r == 0.0), Implies(Not(v < e), r == 1.0)) for r, v, e in zip(o.r, p.v, p.e)]))
        case(P, 'vmix_' + q, 'x:%s y:%s a:%s' % (V, V, V), 'r:' + V, 'r = vm::mix(x, y, a);', T=T_, callee='vm::mix<', spec=lambda p: p.x + p.a * (p.y - p.x))
        case(P, 'vsmoothstep_' + q, 'e0:%s e1:%s v:%s' % (V, V, V), 'r:' + V, 'r = vm::smoothstep(e0, e1, v);', T=T_, req=lambda p: [x < y for x, y in zip(p.e0, p.e1)],
             spec=lambda p, f=sstep: Vec(f(Rec(e0=a, e1=b, v=v)) for a, b, v in zip(p.e0, p.e1, p.v)))
        case(P, 'visnan_' + q, 'a:' + V, 'r:B', 'r = vm::is_nan(a);', T=T_, mode='F', spec=lambda p: Or([x.isnan for x in p.a]))
