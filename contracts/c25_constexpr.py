"""C25 compile-time variants"""
from contracts._common import *
P = 'C25'
def inf_or(x): return x
for T_ in TS:
    s = SH[T_]; k = dict(T=T_)
    # Newton iteration: the step invariant 2 curr prev = prev^2 + x, curr > 0 makes a fixed point the square root (partial correctness: that the iteration reaches a fixed point depends on rounding)
    def gnr(rng):
        x = Fraction(rng.randint(1, 40), rng.choice([1, 4])); p = Fraction(rng.randint(1, 8), rng.choice([1, 2]))
        if rng.random() < .3: return [x, x, Fraction(0)], []
        if rng.random() < .4: return [p * p, p, p], []
        return [x, (p + x / p) / 2, p], []
    case(P, 'sqrt_c_nr_' + s, 'x:S c:S p:S', 'r:S', 'r = vm::sqrt_c_nr(x, c, p);', callee='vm::sqrt_c_nr<', req=lambda p: [p.x >= 0, p.c >= 0, p.p >= 0, Or(And(p.p == 0, p.c == p.x), And(p.x > 0, p.p > 0, p.c > 0, 2 * p.c * p.p == p.p * p.p + p.x))], spec=lambda p: sqrt(p.x),
         gen=gnr, opts=dict(recursive=True, prelemmas=lambda p: [('fix', lambda x, c, q: Implies(And(c == q, 2 * c * q == q * q + x, c > 0), c * c == x), [p.x, p.c, p.p]), ('pos', lambda x, c: Implies(And(x > 0, c > 0), c + x / c > 0), [p.x, p.c])]), **k)
    case(P, 'sqrt_c_' + s, 'x:S', 'r:S', 'r = vm::sqrt_c(x);', callee='vm::sqrt_c<', req=lambda p: [p.x >= 0], spec=lambda p: sqrt(p.x), **k)
    case(P, 'sqrt_c_neg_' + s, 'x:S', 'r:S', 'r = vm::sqrt_c(x);', req=lambda p: [p.x < 0], ens=lambda p, o: [('nan', o.r.nan)], **k)
    case(P, 'sqrt_c_special_' + s, 'x:S', 'r:S', 'r = vm::sqrt_c(x);', mode='F', req=lambda p: [Or(p.x.isnan, And(p.x.isinf, p.x > 0), And(p.x.isinf, p.x < 0))], ens=lambda p, o: [('same', Iff(Or(p.x.isnan, p.x < 0), o.r.isnan)), ('infinite', Implies(p.x > 0, And(o.r.isinf, o.r > 0)))], opts=dict(prune=True), **k)
    for S in (2, 3, 4):
        t = '%s%d' % (s, S); V = 'V%d' % S; nz = lambda p: [sqlen(p.a) > 0]
        case(P, 'length_c_' + t, 'a:' + V, 'r:S', 'r = vm::length_c(a);', callee='vm::length_c<', spec=lambda p: sqrt(sqlen(p.a)), **k)
        case(P, 'distance_c_' + t, 'a:%s b:%s' % (V, V), 'r:S', 'r = vm::distance_c(a, b);', callee='vm::distance_c<', spec=lambda p: sqrt(sqlen(p.a - p.b)), **k)
        case(P, 'normalize_c_' + t, 'a:' + V, 'r:' + V, 'r = vm::normalize_c(a);', callee='vm::normalize_c<', req=nz, spec=lambda p: p.a / sqrt(sqlen(p.a)), **k)
        case(P, 'is_unit_c_' + t, 'a:%s e:S' % V, 'r:B s:B', 'r = vm::is_unit_c(a, e); s = vm::is_unit(a, e);', ens=lambda p, o: [('definition', Iff(o.r, absr(sqrt(sqlen(p.a)) - 1) <= p.e)), ('same', Iff(o.r, o.s))], **k)
        case(P, 'is_parallel_c_' + t, 'a:%s b:%s e:S' % (V, V), 'r:B s:B', 'r = vm::is_parallel_c(a, b, e); s = vm::is_parallel(a, b, e);', req=lambda p: [sqlen(p.a) > 0, sqlen(p.b) > 0], ens=lambda p, o: [('same', Iff(o.r, o.s))], **k)
        case(P, 'is_parallel_c_def_' + t, 'a:%s b:%s' % (V, V), 'r:B s:B', 'r = vm::is_parallel_c(a, b); s = vm::is_parallel(a, b);', req=lambda p: [sqlen(p.a) > 0, sqlen(p.b) > 0], ens=lambda p, o: [('same', Iff(o.r, o.s))], **k)
        case(P, 'is_between_c_' + t, 's:%s e:%s k:S' % (V, V), 'r:B', 'r = vm::is_between_c(s + (e - s) * k, s, e);', spec=lambda p: Or(veq(p.s, p.e), And(p.k >= 0, p.k <= 1)), **k)
    from contracts.c20_lines import affm, lin, gm
    for S in (2, 3):
        q = '%d%s' % (S, s); M = 'M%dx%d' % (S + 1, S + 1)
        case(P, 'seg_length_c' + q, 'a:SEG%d' % S, 'r:S s:S', 'r = a.length_c(); s = a.length();', ens=lambda p, o: [('definition', o.r == sqrt(sqlen(p.a.b - p.a.a))), ('same', eq(o.r, o.s))], **k)
        for nm, K in (('line', 'LINE'), ('ray', 'RAY')):
            K += str(S)
            case(P, nm + '_transform_c' + q, 'a:%s m:%s' % (K, M), 'r:%s s:%s' % (K, K), 'r = a.transform_c(m); s = a.transform(m);', req=lambda p, S=S: affm(p, S) + [sqlen(lin(p.m, p.a.direction)) != 0], gen=lambda rng, S=S: (rvec(rng, S) + runit(rng, S) + gm(rng, S), []),
                 ens=lambda p, o: [('same', eq(o.r, o.s))], **k)
    case(P, 'plane_transform_c' + s, 'a:PL3 m:M4x4', 'r:PL3 s:PL3', 'r = a.transform_c(m); s = a.transform(m);', req=lambda p: affm(p, 3) + [sqlen(lin(p.m, p.a.normal)) != 0], gen=lambda rng: ([rs(rng)] + runit(rng, 3) + gm(rng, 3), []),
         ens=lambda p, o: [('same', eq(o.r, o.s))], **k)
