"""C16 intersections of rays and lines with planes and triangles, and of two planes"""
from contracts._common import *
P = 'C16'
AZ = Fraction(1, 1000)
def pd(pl, x): return dot(x, pl.normal) - pl.distance
def grp(S): return lambda rng: (rvec(rng, S) + runit(rng, S) + [rs(rng)] + runit(rng, S), [])
for T_ in TS:
    t = SH[T_]
    for S in (2, 3):
        q = '%d%s' % (S, t)
        def fs(p): return dot(p.r.direction, p.p.normal)
        def ss(p): return (p.p.distance - dot(p.r.origin, p.p.normal)) / fs(p)
        case(P, 'ray_plane' + q, 'r:RAY%d p:PL%d' % (S, S), 's:S', 's = vm::intersect_ray_plane(r, p);', T=T_, req=lambda p: [unit(p.p.normal)], gen=grp(S), callee='vm::intersect_ray_plane<', lib=True, opts=dict(paths=True),
             ens=lambda p, o, fs=fs, ss=ss: [('parallel', Implies(absr(fs(p)) <= AZ, o.s.nan)), ('behind', Implies(And(absr(fs(p)) > AZ, ss(p) < -AZ), o.s.nan)), ('distance', Implies(And(absr(fs(p)) > AZ, ss(p) >= -AZ), o.s == ss(p)))])
        case(P, 'ray_plane_on' + q, 'r:RAY%d p:PL%d' % (S, S), 's:S x:V%d' % S, 's = vm::intersect_ray_plane(r, p); x = vm::point_at_distance(r, s);', T=T_, req=lambda p: [unit(p.p.normal)], gen=grp(S), opts=dict(paths=True),
             ens=lambda p, o: [('on-plane', Or(o.s.nan, And(fin(o.x), pd(p.p, val(o.x)) == 0))), ('on-ray', Or(o.s.nan, veq(o.x, p.r.origin + p.r.direction * o.s.v))), ('ahead', Or(o.s.nan, o.s >= -AZ))])
    lf = lambda p: dot(p.l.direction, p.p.normal)
    ls = lambda p: (p.p.distance - dot(p.l.point, p.p.normal)) / dot(p.l.direction, p.p.normal)
    case(P, 'line_plane' + t, 'l:LINE3 p:PL3', 's:S', 's = vm::intersect_line_plane(l, p);', T=T_, req=lambda p: [unit(p.p.normal)], gen=grp(3), callee='vm::intersect_line_plane<', lib=True, opts=dict(paths=True),
         ens=lambda p, o, lf=lf, ls=ls: [('parallel', Implies(absr(lf(p)) <= AZ, o.s.nan)), ('distance', Implies(absr(lf(p)) > AZ, o.s == ls(p))), ('on-plane', Implies(absr(lf(p)) > AZ, dot(p.l.direction * o.s.v, p.p.normal) == p.p.distance - dot(p.l.point, p.p.normal)))])
    case(P, 'line_plane_on' + t, 'l:LINE3 p:PL3', 's:S', 's = vm::intersect_line_plane(l, p);', T=T_, req=lambda p: [unit(p.p.normal)], gen=grp(3), opts=dict(paths=True),
         ens=lambda p, o: [('on-plane', Or(o.s.nan, And(o.s.fin, pd(p.p, p.l.point + p.l.direction * o.s.v) == 0)))])
    # every ray not parallel to the triangle meets its plane in p1 + v e1 + w e2 at the distance u
    ta = lambda p: dot(cross(p.d, p.f), p.e)
    case(P, 'ray_triangle' + t, 'p1:V3 e:V3 f:V3 d:V3 u:S v:S w:S', 's:S', 's = vm::intersect_ray_triangle(vm::ray<T,3>(p1 + v * e + w * f - u * d, d), p1, p1 + e, p1 + f);', T=T_, opts=dict(paths=True),
         gen=lambda rng: (rvec(rng, 3, 4) + rvec(rng, 3, 4) + rvec(rng, 3, 4) + rvec(rng, 3, 4) + [rs(rng, 4), Fraction(rng.randint(-1, 5), 4), Fraction(rng.randint(-1, 5), 4)], []),
         ens=lambda p, o, ta=ta: (lambda a, hit: [('parallel', Implies(absr(a) <= AZ, o.s.nan)), ('hit', Implies(And(absr(a) > AZ, hit), o.s == p.u)), ('miss', Implies(And(absr(a) > AZ, Not(hit)), o.s.nan))])(ta(p), And(p.u >= 0, p.v >= 0, p.w >= 0, p.v + p.w <= 1)))
    case(P, 'ray_triangle_parallel' + t, 'r:RAY3 a:V3 b:V3 c:V3', 's:S', 's = vm::intersect_ray_triangle(r, a, b, c);', T=T_, opts=dict(paths=True), req=lambda p: [absr(dot(cross(p.r.direction, p.c - p.a), p.b - p.a)) <= AZ], ens=lambda p, o: [('none', o.s.nan)])
    def pplem(p, nm):
        a, b = p.p.normal, p.q.normal; c = dot(a, b); k = 1 - c * c; n = sqlen(cross(a, b)); rj = b - a * dot(b, a)
        return [('lagrange-identity', n == k), L_sqlen(*cross(a, b)), ('rejection', sqlen(rj) == k), L_sqrt(k), L_sqrt(n), L_sqrt(sqlen(rj)), ('slope', dot(rj, b) == k), ('same-root', sqrt(sqlen(rj)) == sqrt(k))] + \
            [('steep', lambda k: Implies(k >= 0, Iff(sqrt(k) > AZ, k > AZ * AZ)), [k])] + ([('gradient', dot(rj / sqrt(sqlen(rj)), b) == sqrt(k))] if nm != 'same' else [])
    AZ2 = AZ * AZ
    for nm, rq in (('cross', lambda p: sqlen(cross(p.p.normal, p.q.normal)) > AZ2), ('near', lambda p: And(sqlen(cross(p.p.normal, p.q.normal)) <= AZ2, sqlen(cross(p.p.normal, p.q.normal)) > 0)), ('same', lambda p: sqlen(cross(p.p.normal, p.q.normal)) == 0)):
        def ppens(p, o, nm=nm):
            n = cross(p.p.normal, p.q.normal)
            if nm != 'cross': return [('none', And(veq(o.r.point, [0, 0, 0]), veq(o.r.direction, [0, 0, 0])))]
            return [('direction%d' % i, o.r.direction[i] == n[i] / sqrt(sqlen(n))) for i in range(3)] + [('point-finite', fin(o.r.point)), ('point-on-first', pd(p.p, val(o.r.point)) == 0), ('point-on-second', pd(p.q, val(o.r.point)) == 0)]
        case(P, 'plane_plane_%s%s' % (nm, t), 'p:PL3 q:PL3', 'r:LINE3', 'r = vm::intersect_plane_plane(p, q);', T=T_, req=lambda p, rq=rq: [unit(p.p.normal), unit(p.q.normal), rq(p)], gen=lambda rng: ([rs(rng)] + runit(rng) + [rs(rng)] + runit(rng), []),
             opts=dict(paths=True, prelemmas=lambda p, nm=nm: pplem(p, nm)), ens=ppens)
