"""C19 minimum distances"""
from contracts._common import *
from contracts.c20_lines import lexlt, L_sq
P = 'C19'
AZ = Fraction(1, 1000)
def quad(w, u, v, s, t): return sqlen(w + u * s - v * t)
# |w + s u - t v|^2 is convex in (s, t): a point where it does not decrease in any permitted direction is its minimum
def L_form(a, b, c, x, y): return ('form', lambda a, b, c, x, y: Implies(And(a > 0, a * c - b * b >= 0), a * x * x - 2 * b * x * y + c * y * y >= 0), [a, b, c, x, y])
def L_step(f0, f1, gs, gt, q, x, y): return ('step', lambda f0, f1, gs, gt, q, x, y: Implies(And(f1 == f0 + q + 2 * x * gs + 2 * y * gt, q >= 0, x * gs >= 0, y * gt >= 0), f1 >= f0), [f0, f1, gs, gt, q, x, y])
def L_free(g, x): return ('free', lambda g, x: Implies(g == 0, x * g >= 0), [g, x])
def L_low(g, t, t1): return ('low', lambda g, t, t1: Implies(And(t1 >= 0, Or(g == 0, t == 0), g >= 0), (t1 - t) * g >= 0), [g, t, t1])
def L_both(g, s, s1, h): return ('both', lambda g, s, s1, h: Implies(And(s1 >= 0, s1 <= h, Or(g == 0, And(s == 0, g >= 0), And(s == h, g <= 0))), (s1 - s) * g >= 0), [g, s, s1, h])
def L_sgn(n, d): return ('sgn', lambda n, d: Implies(d > 0, And(Iff(n / d < 0, n < 0), Iff(n / d > 0, n > 0))), [n, d])
def dots(w, u, v): return sqlen(u), dot(u, v), sqlen(v), dot(u, w), dot(v, w)
def optimal(w, u, v, s, t, s1, t1, sc, h=1, gen=True, back=None, more=(), D0=None):
    """lemmas leading to quad(s1, t1) >= quad(s, t): no permitted move of s (kind sc) or t (on a ray) lowers the distance"""
    a, b, c, d, e = dots(w, u, v); gs = d + s * a - t * b; gt = t * c - e - s * b
    x, y = s1 - s, t1 - t; q = a * x * x - 2 * b * x * y + c * y * y
    d0, e0 = dot(u, -w), dot(v, -w); w0 = Vec(rsub_ for rsub_ in back) if back else -w; d1, e1 = dot(u, w0), dot(v, w0)
    A = [a, b, c, d, e, d0, e0, d1, e1] + list(more)
    l = [('d0', d0 == -d), ('e0', e0 == -e), ('d1', d1 == -d), ('e1', e1 == -e), ('on-ray', t >= 0, 'abs', A), ('stationary-ray', Or(gt == 0, t == 0), 'abs', A), ('sign-ray', gt >= 0, 'abs', A)]
    if sc == 'line': l += [('stationary-other', gs == 0, 'abs', A), L_free(gs, x)]
    elif sc == 'ray': l += [('on-other', s >= 0, 'abs', A), ('stationary-other', Or(gs == 0, s == 0), 'abs', A), ('sign-other', gs >= 0, 'abs', A), L_low(gs, s, s1)]
    else: l += [('on-other', And(s >= 0, s <= h), 'abs', A), ('stationary-other', Or(gs == 0, s == 0, s == h), 'abs', A), ('sign-low', Or(s > 0, gs >= 0), 'abs', A), ('sign-high', Or(s < h, gs <= 0), 'abs', A), L_both(gs, s, s1, Re.of(h))]
    E = lambda s, t: sqlen(w) + s * s * a + t * t * c + 2 * s * d - 2 * t * e - 2 * s * t * b
    E0, E1, Q0, Q1 = E(s, t), E(s1, t1), quad(w, u, v, s, t), quad(w, u, v, s1, t1)
    l += [L_low(gt, t, t1), L_form(a, b, c, x, y), ('expansion', lambda W, a, b, c, d, e, s, t, s1, t1: (lambda E, x, y: E(s1, t1) == E(s, t) + (a * x * x - 2 * b * x * y + c * y * y) + 2 * x * (d + s * a - t * b) + 2 * y * (t * c - e - s * b))(lambda s, t: W + s * s * a + t * t * c + 2 * s * d - 2 * t * e - 2 * s * t * b, s1 - s, t1 - t), [sqlen(w), a, b, c, d, e, s, t, s1, t1])]
    l += [('gram', And(a > 0, a * c - b * b >= 0), 'abs', A), L_step(E0, E1, gs, gt, q, x, y), ('least', E0 <= E1, 'abs', [E0, E1, gs, gt, q, x, y, s, t, s1, t1, Re.of(h)] + A)]
    l += [('value', Q0 == E0), ('value1', Q1 == E1), ('minimum', Q0 <= Q1, 'abs', [Q0, Q1, E0, E1])]
    if D0 is not None: l += [('attained', D0 == Q0), ('distance', D0 <= Q1, 'abs', [D0, Q0, Q1])]
    return l if gen else [x[:2] if len(x) == 4 else x for x in l]
def band(x): return Or(x == 0, absr(x) > AZ)
OUT = 'd:S x:S y:S p:B'
def body(call): return 'const auto r_ = %s; d = r_.distance; x = r_.position1; y = r_.position2; p = r_.parallel;' % call
for T_ in TS:
    t_ = SH[T_]
    for S in (2, 3):
        q = '%d%s' % (S, t_); k = dict(T=T_); V = 'V%d' % S; RY = 'RAY%d' % S; L = 'LINE%d' % S; SG = 'vm::segment<T,%d>' % S
        gr = lambda rng, S=S: rvec(rng, S, 4) + runit(rng, S)
        # point and ray: the witness is any ray parameter
        case(P, 'ray_point' + q, 'r:%s c:%s s:S' % (RY, V), 'd:S x:S', 'const auto r_ = vm::squared_distance(r, c); d = r_.distance; x = r_.position;', req=lambda p: [unit(p.r.direction), p.s >= 0], gen=lambda rng, S=S, gr=gr: (gr(rng) + rvec(rng, S, 4) + [abs(rs(rng))], []), **k,
             opts=dict(paths=True, lemmas=lambda p, o: [('foot', sqlen(p.r.origin + p.r.direction * p.s - p.c) == sqlen(p.c - p.r.origin) - 2 * p.s * dot(p.c - p.r.origin, p.r.direction) + p.s * p.s), ('convex', lambda s, f, g: And(Implies(f <= 0, Implies(s >= 0, g <= g - 2 * s * f + s * s)), g - f * f <= g - 2 * s * f + s * s), [p.s, dot(p.c - p.r.origin, p.r.direction), sqlen(p.c - p.r.origin)])]),
             ens=lambda p, o: [('position', And(o.x >= 0, o.x == rmax(0, dot(p.c - p.r.origin, p.r.direction)))), ('attained', o.d == sqlen(p.r.origin + p.r.direction * o.x.v - p.c)), ('minimum', o.d <= sqlen(p.r.origin + p.r.direction * p.s - p.c))])
        # segment from u to u + n e
        segr = lambda p: [unit(p.e), p.n > 0, lexlt([Re(0)] * len(p.e), p.e)]
        def segl(p):
            z = (p.u + p.e * p.n) - p.u
            return [('pos%d' % i, lambda n, d: Implies(n > 0, And(Iff(d > 0, n * d > 0), Iff(d == 0, n * d == 0))), [p.n, x]) for i, x in enumerate(p.e)] + [('length', sqlen(p.e * p.n) == p.n * p.n), L_sq(p.n), ('root', sqrt(sqlen(z)) == p.n)] + [('normal%d' % i, (z / sqrt(sqlen(z)))[i] == p.e[i]) for i in range(len(z))]
        def gseg(rng, S=S):
            e = runit(rng, S)
            if e < [Fraction(0)] * S: e = [-x for x in e]
            return rvec(rng, S, 4) + e + [abs(rs(rng)) + 1]
        MK = 'const %s s_(u, u + n * e); ' % SG
        case(P, 'seg_point' + q, 'u:%s e:%s n:S c:%s s:S' % (V, V, V), 'd:S x:S', MK + 'const auto r_ = vm::squared_distance(s_, c); d = r_.distance; x = r_.position;', req=lambda p: segr(p) + [p.s >= 0, p.s <= p.n], gen=lambda rng, S=S, gseg=gseg: (gseg(rng) + rvec(rng, S, 4) + [abs(rs(rng, 3))], []), **k,
             opts=dict(paths=True, prelemmas=segl, lemmas=lambda p, o: [('foot', sqlen(p.c - (p.u + p.e * p.s)) == sqlen(p.c - p.u) - 2 * p.s * dot(p.c - p.u, p.e) + p.s * p.s), ('convex', lambda s, f, g, n: And(Implies(And(f <= 0, s >= 0), g <= g - 2 * s * f + s * s), g - f * f <= g - 2 * s * f + s * s, Implies(And(f >= n, s <= n), g - 2 * n * f + n * n <= g - 2 * s * f + s * s)), [p.s, dot(p.c - p.u, p.e), sqlen(p.c - p.u), p.n]), ('foot2', sqlen(p.c - (p.u + p.e * o.x.v)) == sqlen(p.c - p.u) - 2 * o.x.v * dot(p.c - p.u, p.e) + o.x.v * o.x.v)]),
             ens=lambda p, o: [('position', And(o.x >= 0, o.x <= p.n)), ('attained', o.d == sqlen(p.c - (p.u + p.e * o.x.v))), ('minimum', o.d <= sqlen(p.c - (p.u + p.e * p.s)))])
        # ray and line
        D = lambda u, v: sqlen(u) * sqlen(v) - dot(u, v) * dot(u, v)
        par = dict(ens=lambda p, o: [('parallel', o.p)])
        def cmpl(o, w, u, v, dom, s1, t1, extra=lambda s, t: []):
            s, t = o.y.v, o.x.v
            return [('finite', fin(Vec([o.x, o.y, o.d]))), ('attained', o.d == quad(w, u, v, s, t))] + dom(s, t) + [('minimum', o.d <= quad(w, u, v, s1, t1))]
        for nm, kd in (('line', L), ('ray', RY)):
            fo = 'point' if nm == 'line' else 'origin'
            call = 'vm::squared_distance(r, l)'
            W = lambda p, fo=fo: p.l[fo] - p.r.origin
            base = lambda p, nm=nm: [unit(p.r.direction), unit(p.l.direction), p.t >= 0] + ([p.s >= 0] if nm == 'ray' else [])
            def bands(p, nm=nm, W=W):
                a, b, c, d, e = dots(W(p), p.l.direction, p.r.direction)
                return [a * c - b * b > AZ] + ([band(b * e - c * d), band(a * e - b * d), band(e)] if nm == 'ray' else [])
            g = lambda rng, S=S, gr=gr: (gr(rng) + gr(rng) + [rs(rng), rs(rng)], [])
            dom = lambda s, t, nm=nm: [('on-ray', t >= 0)] + ([('on-other', s >= 0)] if nm == 'ray' else [])
            case(P, 'ray_%s' % nm + q, 'r:%s l:%s s:S t:S' % (RY, kd), OUT, body(call), req=lambda p, base=base, bands=bands: base(p) + bands(p), gen=g, **k,
                 opts=dict(paths=True, lemmas=lambda p, o, W=W, nm=nm: optimal(W(p), p.l.direction, p.r.direction, o.y.v, o.x.v, p.s, p.t, nm, D0=o.d.v, back=p.r.origin - p.l['point' if nm == 'line' else 'origin'])),
                 ens=lambda p, o, W=W, dom=dom: [('not-parallel', Not(o.p))] + cmpl(o, W(p), p.l.direction, p.r.direction, dom, p.s, p.t))
            case(P, 'ray_%s_par' % nm + q, 'r:%s o:%s f:B s:S t:S' % (RY, V), OUT, 'const vm::%s<T,%d> l(o, f ? r.direction : -r.direction); ' % (nm, S) + body(call), req=lambda p, nm=nm: [unit(p.r.direction), p.t >= 0] + ([p.s >= 0] if nm == 'ray' else []), gen=lambda rng, S=S, gr=gr: (gr(rng) + rvec(rng, S, 4) + [rs(rng), rs(rng)], [rng.randint(0, 1)]), **k,
                 opts=dict(paths=True, lemmas=lambda p, o, nm=nm: (lambda u: optimal(p.o - p.r.origin, u, p.r.direction, o.y.v, o.x.v, p.s, p.t, nm, D0=o.d.v, gen=False))(ite(p.f, p.r.direction, -p.r.direction))),
                 ens=lambda p, o, dom=dom: (lambda u: [('parallel', o.p)] + cmpl(o, p.o - p.r.origin, u, p.r.direction, dom, p.s, p.t))(ite(p.f, p.r.direction, -p.r.direction)))
        # ray and segment from u to u + n e
        call = 'vm::squared_distance(r, s_)'
        def segbands(p):
            n = p.n; a, b, c, d, e = dots(p.u - p.r.origin, p.e, p.r.direction)
            return [n * n * (a * c - b * b) > AZ, band(n * (b * e - c * d)), band(n * n * (a * e - b * d)), band(e), band(e + n * b)]
        def seggen(p, o):
            z = (p.u + p.e * p.n) - p.u; w, v = p.u - p.r.origin, p.r.direction; a, b, c, d, e = dots(w, p.e, v); A, B_, C, D_, E_ = dots(w, z, v)
            return [('code-a', A == p.n * p.n), ('code-a1', a == 1), ('code-c1', c == 1), ('code-b', B_ == p.n * b), ('code-d', D_ == p.n * d), ('code-root', sqrt(A) == p.n)] + optimal(w, p.e, v, o.y.v, o.x.v, p.s, p.t, 'seg', h=p.n, D0=o.d.v, back=p.r.origin - p.u, more=[A, B_, D_, p.n, p.s, p.t])
        sdom = lambda p: lambda s, t: [('on-ray', t >= 0), ('on-segment', And(s >= 0, s <= p.n))]
        case(P, 'ray_seg' + q, 'r:%s u:%s e:%s n:S s:S t:S' % (RY, V, V), OUT, MK + body(call), req=lambda p, segr=segr, segbands=segbands: segr(p) + [unit(p.r.direction), p.t >= 0, p.s >= 0, p.s <= p.n] + segbands(p), gen=lambda rng, gr=gr, gseg=gseg: (gr(rng) + gseg(rng) + [abs(rs(rng, 3)), abs(rs(rng))], []), **k,
             opts=dict(paths=True, prelemmas=segl, lemmas=seggen), ens=lambda p, o, sdom=sdom, cmpl=cmpl: [('not-parallel', Not(o.p))] + cmpl(o, p.u - p.r.origin, p.e, p.r.direction, sdom(p), p.s, p.t))
        case(P, 'ray_seg_par' + q, 'r:%s u:%s n:S s:S t:S f:B' % (V, 'RAY%d' % S), OUT, 'const auto e = u.direction; const %s s_(u.origin, u.origin + n * e); const vm::ray<T,%d> r_r(r, f ? e : -e); ' % (SG, S) + body('vm::squared_distance(r_r, s_)'), req=lambda p: [unit(p.u.direction), p.n > 0, lexlt([Re(0)] * len(p.r), p.u.direction), p.t >= 0, p.s >= 0, p.s <= p.n],
             gen=lambda rng, S=S, gseg=gseg: (rvec(rng, S, 4) + gseg(rng) + [abs(rs(rng, 3)), abs(rs(rng))], [rng.randint(0, 1)]), **k,
             opts=dict(paths=True, prelemmas=lambda p, segl=segl: segl(Rec(u=p.u.origin, e=p.u.direction, n=p.n)), lemmas=lambda p, o: optimal(p.u.origin - p.r, p.u.direction, ite(p.f, p.u.direction, -p.u.direction), o.y.v, o.x.v, p.s, p.t, 'seg', h=p.n, D0=o.d.v, gen=False)),
             ens=lambda p, o, sdom=sdom, cmpl=cmpl: [('parallel', o.p)] + cmpl(o, p.u.origin - p.r, p.u.direction, ite(p.f, p.u.direction, -p.u.direction), sdom(p), p.s, p.t))

        # distance is the square root of squared_distance, at the same positions
        OUT2 = 'd:S x:S y:S p:B d2:S x2:S y2:S p2:B'
        two = lambda a, b: 'const auto q_ = vm::distance(%s, %s); d = q_.distance; x = q_.position1; y = q_.position2; p = q_.parallel; const auto r_ = vm::squared_distance(%s, %s); d2 = r_.distance; x2 = r_.position1; y2 = r_.position2; p2 = r_.parallel;' % (a, b, a, b)
        same = lambda p, o: [('root', And(Iff(o.d.nan, o.d2.nan), Implies(Not(o.d2.nan), o.d.v == sqrt(o.d2.v)))), ('same', And(eq(o.x, o.x2), eq(o.y, o.y2), Iff(o.p, o.p2)))]
        same1 = lambda p, o: [('root', And(Iff(o.d.nan, o.d2.nan), Implies(Not(o.d2.nan), o.d.v == sqrt(o.d2.v)))), ('same', eq(o.x, o.x2))]
        OUT1 = 'd:S x:S d2:S x2:S'
        one = lambda a, b: 'const auto q_ = vm::distance(%s, %s); d = q_.distance; x = q_.position; const auto r_ = vm::squared_distance(%s, %s); d2 = r_.distance; x2 = r_.position;' % (a, b, a, b)
        case(P, 'root_ray_point' + q, 'r:%s c:%s' % (RY, V), OUT1, one('r', 'c'), req=lambda p: [unit(p.r.direction)], ens=same1, gen=lambda rng, S=S, gr=gr: (gr(rng) + rvec(rng, S, 4), []), **k)
        case(P, 'root_seg_point' + q, 's:SEG%d c:%s' % (S, V), OUT1, one('s', 'c'), req=lambda p: [lexlt(p.s.a, p.s.b)], ens=same1, **k)
        case(P, 'root_ray_line' + q, 'r:%s l:%s' % (RY, L), OUT2, two('r', 'l'), req=lambda p: [unit(p.r.direction), unit(p.l.direction)], ens=same, gen=lambda rng, S=S, gr=gr: (gr(rng) + gr(rng), []), **k)
        case(P, 'root_ray_ray' + q, 'r:%s l:%s' % (RY, RY), OUT2, two('r', 'l'), req=lambda p: [unit(p.r.direction), unit(p.l.direction)], ens=same, gen=lambda rng, S=S, gr=gr: (gr(rng) + gr(rng), []), **k)
        case(P, 'root_ray_seg' + q, 'r:%s s:SEG%d' % (RY, S), OUT2, two('r', 's'), req=lambda p: [unit(p.r.direction), lexlt(p.s.a, p.s.b)], ens=same, gen=lambda rng, S=S, gr=gr: (gr(rng) + rvec(rng, S, 4) + rvec(rng, S, 4), []), **k)
    case(P, 'colinear' + t_, 'b:B x:S d:S y:S m:S', 'r:B s:B', 'const auto q_ = b ? vm::line_distance<T>::Parallel(x, d, y) : vm::line_distance<T>::NonParallel(x, d, y); r = q_.is_colinear(m); s = q_.is_colinear();', T=T_,
         ens=lambda p, o: [('max', Iff(o.r, And(p.b, p.d <= p.m))), ('default', Implies(And(o.s, p.d > AZ * 2), FALSE)), ('default-holds', Implies(And(p.b, p.d <= AZ / 2), o.s))])
