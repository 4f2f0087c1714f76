"""C14 box predicates (bit-precise IEEE semantics for NaN-free arguments)"""
from contracts._common import *
P = 'C14'
def nn(*vs): return [Not(x.isnan) for v in vs for x in v]
def valid(b): return [x <= y for x, y in zip(b.min, b.max)]
def inb(b, x): return And([And(lo <= v, v <= hi) for lo, v, hi in zip(b.min, x, b.max)])
RNG = '(int)(r_[%d] == vm::bbox<T,%d>::Range::less ? 1 : r_[%d] == vm::bbox<T,%d>::Range::within ? 2 : r_[%d] == vm::bbox<T,%d>::Range::greater ? 3 : 0)'
for T_ in TS:
    t = SH[T_]
    for S in (2, 3):
        q = '%d%s' % (S, t); V = 'V%d' % S; BB = 'BB%d' % S
        k = dict(T=T_, mode='F')
        W = lambda p: nn(p.a.min, p.a.max) + valid(p.a)
        WP = lambda p: nn(p.a.min, p.a.max, p.x) + valid(p.a)
        WB = lambda p: nn(p.a.min, p.a.max, p.b.min, p.b.max) + valid(p.a) + valid(p.b)
        case(P, 'bb_valid' + q, 'a:%s u:%s v:%s' % (BB, V, V), 'r:B s:B', 'r = a.is_valid(); s = vm::bbox<T,%d>::is_valid(u, v);' % S, req=lambda p: nn(p.a.min, p.a.max, p.u, p.v), **k,
             ens=lambda p, o: [('member', Iff(o.r, And(valid(p.a)))), ('static', Iff(o.s, And([x <= y for x, y in zip(p.u, p.v)])))])
        case(P, 'bb_empty' + q, 'a:' + BB, 'r:B', 'r = a.is_empty();', req=W, callee='::is_empty', spec=lambda p: Or([x == y for x, y in zip(p.a.min, p.a.max)]), **k)
        case(P, 'bb_contains' + q, 'a:%s x:%s' % (BB, V), 'r:B', 'r = a.contains(x);', req=WP, callee='::contains', spec=lambda p: inb(p.a, p.x), **k)
        case(P, 'bb_contains_box' + q, 'a:%s b:%s' % (BB, BB), 'r:B', 'r = a.contains(b);', req=WB, callee='::contains', spec=lambda p: And(inb(p.a, p.b.min), inb(p.a, p.b.max)), **k)
        case(P, 'bb_encloses' + q, 'a:%s b:%s' % (BB, BB), 'r:B', 'r = a.encloses(b);', req=WB, callee='::encloses', spec=lambda p: And([And(l < m, n < h) for l, m, n, h in zip(p.a.min, p.b.min, p.b.max, p.a.max)]), **k)
        case(P, 'bb_intersects' + q, 'a:%s b:%s' % (BB, BB), 'r:B s:B', 'r = a.intersects(b); s = b.intersects(a);', req=WB, **k,
             ens=lambda p, o: (lambda e: [('share-a-point', Iff(o.r, e)), ('symmetric', Iff(o.s, e))])(And([And(l <= n, m <= h) for l, m, n, h in zip(p.a.min, p.b.min, p.b.max, p.a.max)])))
        case(P, 'bb_witness' + q, 'a:%s b:%s x:%s' % (BB, BB, V), 'r:B s:B t:B u:B v:B', 'r = a.intersects(b); s = a.contains(b); t = a.encloses(b); u = a.contains(x); v = b.contains(x);', req=lambda p, WB=WB: WB(p) + nn(p.x), **k,
             ens=lambda p, o: [('common-point-means-intersection', Implies(And(o.u, o.v), o.r)), ('contained-points', Implies(And(o.s, o.v), o.u)), ('enclosed-is-contained', Implies(o.t, o.s)), ('contained-intersects', Implies(o.s, o.r))])
        case(P, 'bb_constrain' + q, 'a:%s x:%s' % (BB, V), 'r:' + V, 'r = a.constrain(x);', req=WP, **k,
             ens=lambda p, o: [('nearest%d' % i, o.r[i] == ite(x < lo, lo, ite(x > hi, hi, x))) for i, (lo, x, hi) in enumerate(zip(p.a.min, p.x, p.a.max))])
        case(P, 'bb_position' + q, 'a:%s x:%s' % (BB, V), ' '.join('i%d:I' % i for i in range(S)), 'const auto r_ = a.relative_position(x); ' + ' '.join('i%d = %s;' % (i, RNG % ((i, S) * 3)) for i in range(S)), req=WP, **k,
             ens=lambda p, o, S=S: [('axis%d' % i, ieq(o['i%d' % i], Ite(p.x[i] < p.a.min[i], I(1, 64), Ite(p.x[i] > p.a.max[i], I(3, 64), I(2, 64))))) for i in range(S)])
        case(P, 'bb_eq' + q, 'a:%s b:%s' % (BB, BB), 'r:B s:B', 'r = a == b; s = a != b;', req=lambda p: nn(p.a.min, p.a.max, p.b.min, p.b.max), **k,
             ens=lambda p, o: (lambda e: [('equal', Iff(o.r, e)), ('unequal', Iff(o.s, Not(e)))])(And(veq(p.a.min, p.b.min), veq(p.a.max, p.b.max))))
        case(P, 'bb_is_equal' + q, 'a:%s b:%s e:S' % (BB, BB), 'r:B', 'r = vm::is_equal(a, b, e);', T=T_, spec=lambda p: And([absr(x - y) <= p.e for x, y in zip(list(p.a.min) + list(p.a.max), list(p.b.min) + list(p.b.max))]))
        # over exact arithmetic: the constrained point is in the box and no point of the box is closer
        case(P, 'bb_constrain_near' + q, 'a:%s x:%s y:%s' % (BB, V, V), 'r:' + V, 'r = a.constrain(x);', T=T_, req=lambda p: valid(p.a) + [inb(p.a, p.y)],
             ens=lambda p, o: [('inside', And(fin(o.r), inb(p.a, val(o.r))))] + [('closest%d' % i, absr(o.r[i].v - p.x[i]) <= absr(p.y[i] - p.x[i])) for i in range(len(p.x))])
