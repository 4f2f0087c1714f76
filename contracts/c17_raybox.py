"""C17 rays and boxes"""
from contracts._common import *
P = 'C17'
def valid(b): return [x <= y for x, y in zip(b.min, b.max)]
def inb(b, x): return And([And(lo <= v, v <= hi) for lo, v, hi in zip(b.min, x, b.max)])
for T_ in TS:
    t = SH[T_]
    for S in (2, 3):
        q = '%d%s' % (S, t)
        g = lambda rng, S=S: (lambda a, d: (rvec(rng, S, 4) + rvec(rng, S, 2) + a + [x + abs(y) for x, y in zip(a, d)] + [abs(rs(rng, 4))], []))(rvec(rng, S, 3), rvec(rng, S, 4))
        case(P, 'ray_box' + q, 'r:RAY%d b:BB%d s:S' % (S, S), 'd:S', 'd = vm::intersect_ray_bbox(r, b);', T=T_, req=lambda p: valid(p.b) + [p.s >= 0, Or([x != 0 for x in p.r.direction])], gen=g, opts=dict(weight=4),
             ens=lambda p, o, S=S: (lambda h, w: [('distance-not-negative', Or(o.d.nan, o.d >= 0))] + [('hit-in-box%d' % i, Or(o.d.nan, And(p.b.min[i] <= h[i], h[i] <= p.b.max[i]))) for i in range(S)] +
                 [('hit-on-boundary', Or([o.d.nan] + [Or(h[i] == p.b.min[i], h[i] == p.b.max[i]) for i in range(S)])),
                  ('no-miss', Implies(inb(p.b, w), Not(o.d.nan))), ('first-hit-from-outside', Implies(And(inb(p.b, w), Not(inb(p.b, p.r.origin))), o.d <= p.s)), ('exit-from-inside', Implies(And(inb(p.b, w), inb(p.b, p.r.origin)), o.d >= p.s))])(
                 p.r.origin + p.r.direction * o.d.v, p.r.origin + p.r.direction * p.s))
