"""C18 rays and spheres"""
from contracts._common import *
P = 'C18'
for T_ in TS:
    t = SH[T_]
    for S in (2, 3):
        q = '%d%s' % (S, t)
        g = lambda rng, S=S: (rvec(rng, S, 4) + runit(rng, S) + rvec(rng, S, 4) + [abs(rs(rng, 5)), abs(rs(rng, 5))], [])
        on = lambda p, x: sqlen(p.r.origin + p.r.direction * x - p.c) == p.k * p.k
        def lem(p):
            df = p.r.origin - p.c; b = dot(df, p.r.direction); c = sqlen(df) - p.k * p.k; D = 2 * b * (2 * b) - 4 * c
            return [('surface', Iff(on(p, p.s), p.s * p.s + 2 * b * p.s + c == 0)), L_sqrt(D), ('two-roots', lambda s, b, c, D: Implies(And(s * s + 2 * b * s + c == 0, D == 2 * b * (2 * b) - 4 * c), And(D >= 0, Or(2 * s == -2 * b + sqrt(D), 2 * s == -2 * b - sqrt(D)))), [p.s, b, c, D])]
        case(P, 'ray_sphere' + q, 'r:RAY%d c:V%d k:S s:S' % (S, S), 'd:S', 'd = vm::intersect_ray_sphere(r, c, k);', T=T_, req=lambda p: [unit(p.r.direction), p.k >= 0], gen=g, opts=dict(paths=True, prelemmas=lem),
             ens=lambda p, o, on=on: [('not-negative', Or(o.d.nan, o.d >= 0)), ('on-sphere', Or(o.d.nan, And(o.d.fin, on(p, o.d.v)))), ('no-miss', Implies(And(p.s >= 0, on(p, p.s)), Not(o.d.nan))), ('nearest', Implies(And(p.s > 0, on(p, p.s)), o.d <= p.s))])
