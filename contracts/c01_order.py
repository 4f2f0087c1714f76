"""C01 total order on vectors, matrices, segments, lists"""
from contracts._common import *
P = 'C01'
def cmp1(x, y):
    """-1 / 0 / 1 of two IEEE scalars, NaN greatest and equal to itself -> (lt, gt)"""
    lt = Or(And(Not(x.isnan), y.isnan), x < y)
    gt = Or(And(x.isnan, Not(y.isnan)), x > y)
    return lt, gt
def lex(a, b):
    lt, gt = FALSE, FALSE
    for x, y in reversed(list(zip(a, b))):
        l, g = cmp1(x, y)
        lt = Or(l, And(Not(g), lt)); gt = Or(g, And(Not(l), gt))
    return lt, gt
def sgn3(lt, gt): return Ite(lt, I(-1, 64), Ite(gt, I(1, 64), I(0, 64)))
for T_ in TS:
    t = SH[T_]
    for S in (2, 3, 4):
        V = 'V%d' % S; q = '%d%s' % (S, t)
        case(P, 'compare_' + q, 'a:%s b:%s' % (V, V), 'r:I', 'r = vm::compare(a, b);', T=T_, mode='F', ens=lambda p, o: [('sign', And(Iff(icmp('slt', o.r, I(0, 64)), lex(p.a, p.b)[0]), Iff(icmp('slt', I(0, 64), o.r), lex(p.a, p.b)[1])))])
        case(P, 'ops_' + q, 'a:%s b:%s' % (V, V), 'lt:B le:B gt:B ge:B eq:B ne:B', 'lt = a < b; le = a <= b; gt = a > b; ge = a >= b; eq = a == b; ne = a != b;', T=T_, mode='F',
             spec=lambda p: (lambda l, g: Rec(lt=l, le=Not(g), gt=g, ge=Not(l), eq=And(Not(l), Not(g)), ne=Or(l, g)))(*lex(p.a, p.b)))
        if S < 4:
            case(P, 'trans_' + q, 'a:%s b:%s c:%s' % (V, V, V), 'ab:B bc:B ac:B ab2:B bc2:B ac2:B', 'ab = a < b; bc = b < c; ac = a < c; ab2 = a <= b; bc2 = b <= c; ac2 = a <= c;', T=T_, mode='F',
                 ens=lambda p, o: [('strict-transitive', Implies(And(o.ab, o.bc), o.ac)), ('transitive', Implies(And(o.ab2, o.bc2), o.ac2))])
        for L1 in (0, 1, 2):
            for L2 in (0, 1, 2):
                if S != 3 and (L1, L2) not in ((2, 2), (1, 2)): continue
                def spec(p, L1=L1, L2=L2, S=S):
                    lt = B(L1 < L2); gt = B(L1 > L2)
                    for i in reversed(range(min(L1, L2))):
                        l, g = lex(p.a[i], p.b[i])
                        lt = Or(l, And(Not(g), lt)); gt = Or(g, And(Not(l), gt))
                    return lt, gt
                case(P, 'rangecmp_%s_%d%d' % (q, L1, L2), 'a:A%d:%s b:A%d:%s' % (max(L1, 1), V, max(L2, 1), V), 'r:I', 'r = vm::compare<T>(a, a + %d, b, b + %d);' % (L1, L2), T=T_, mode='F',
                     ens=lambda p, o, spec=spec: [('sign', And(Iff(icmp('slt', o.r, I(0, 64)), spec(p)[0]), Iff(icmp('slt', I(0, 64), o.r), spec(p)[1])))],
                     bounded='lists of %d and %d vectors' % (L1, L2))
