"""C02 comparisons with a tolerance"""
from contracts._common import *
P = 'C02'
def close(a, b, e):
    if isinstance(a, (list, tuple)): return And([close(x, y, e) for x, y in zip(a, b)])
    return absr(a - b) <= e
def tlex(a, b, e):
    """lexicographic comparison where components closer than e count as equal -> (lt, gt)"""
    lt, gt = FALSE, FALSE
    for x, y in reversed(list(zip(a, b))):
        l, g = x - y < -e, x - y > e
        lt = Or(l, And(Not(g), lt)); gt = Or(g, And(Not(l), gt))
    return lt, gt
def sgn_is(r, lg): return And(Iff(icmp('slt', r, I(0, 64)), lg[0]), Iff(icmp('slt', I(0, 64), r), lg[1]))
pos = lambda p: [p.e >= 0]
AZ = {'double': Fraction(1, 1000), 'float': Fraction(1, 1000)}
def flatm(m): return Vec(m[i][j] for j in range(len(m[0])) for i in range(len(m)))
def lst(x): return x if isinstance(x, list) else [x]
for T_ in TS:
    t = SH[T_]
    case(P, 'eq_s' + t, 'a:S b:S e:S', 'r:B', 'r = vm::is_equal(a, b, e);', T=T_, req=pos, spec=lambda p: close(p.a, p.b, p.e), callee='vm::is_equal<')
    case(P, 'z_s' + t, 'a:S e:S', 'r:B', 'r = vm::is_zero(a, e);', T=T_, req=pos, spec=lambda p: absr(p.a) <= p.e, callee='vm::is_zero<')
    # a NaN is equal to nothing
    case(P, 'eq_nan' + t, 'a:S b:S e:S', 'r:B z:B', 'r = vm::is_equal(a, b, e); z = vm::is_zero(a, e);', T=T_, mode='F',
         ens=lambda p, o: [('nan-differs', Implies(Or(p.a.isnan, p.b.isnan), Not(o.r))), ('nan-not-zero', Implies(p.a.isnan, Not(o.z))), ('identical-equal', Implies(And(p.a.isfin, p.a == p.b, p.e >= 0.0), o.r))])
    ops = [('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')]
    def ospec(lo, hi):
        """x in relation to the interval around v; lo: x < v - e, hi: x > v + e"""
        return Rec(eq=And(Not(lo), Not(hi)), ne=Or(lo, hi), lt=lo, le=Not(hi), gt=hi, ge=Not(lo))
    fl = lambda r: Rec(eq=r.eq, ne=r.ne, lt=r.gt, le=r.ge, gt=r.lt, ge=r.le)
    for dflt in (False, True):
        n = '_def' if dflt else ''
        par = 'x:S v:S' + ('' if dflt else ' e:S')
        con = 'const vm::approx<T> ap(v%s); ' % ('' if dflt else ', e')
        ez = AZ[T_]
        E_ = (lambda p, ez=ez: Re(ez)) if dflt else (lambda p: p.e)
        case(P, 'approx_r%s_%s' % (n, t), par, ' '.join('%s:B' % o for o, _ in ops), con + ' '.join('%s = x %s ap;' % (o, s) for o, s in ops), T=T_, req=None if dflt else pos,
             spec=lambda p, E_=E_: ospec(p.x < p.v - E_(p), p.x > p.v + E_(p)))
        case(P, 'approx_l%s_%s' % (n, t), par, ' '.join('%s:B' % o for o, _ in ops), con + ' '.join('%s = ap %s x;' % (o, s) for o, s in ops), T=T_, req=None if dflt else pos,
             spec=lambda p, E_=E_: fl(ospec(p.x < p.v - E_(p), p.x > p.v + E_(p))))
    for S in (2, 3, 4):
        V = 'V%d' % S; q = '%d%s' % (S, t)
        case(P, 'eq_v' + q, 'a:%s b:%s e:S' % (V, V), 'r:B', 'r = vm::is_equal(a, b, e);', T=T_, req=pos, spec=lambda p: close(p.a, p.b, p.e), callee='vm::is_equal<')
        case(P, 'z_v' + q, 'a:%s e:S' % V, 'r:B', 'r = vm::is_zero(a, e);', T=T_, req=pos, spec=lambda p: And([absr(x) <= p.e for x in p.a]), callee='vm::is_zero<')
        case(P, 'cmp_v' + q, 'a:%s b:%s e:S' % (V, V), 'r:I', 'r = vm::compare(a, b, e);', T=T_, req=pos, ens=lambda p, o: [('sign', sgn_is(o.r, tlex(p.a, p.b, p.e)))])
        case(P, 'approx_v' + q, 'a:%s b:%s e:S' % (V, V), 'eq:B ne:B eq2:B ne2:B', 'const vm::approx<vm::vec<T,%d>> ap(b, e); eq = a == ap; ne = a != ap; eq2 = ap == a; ne2 = ap != a;' % S, T=T_, req=pos,
             spec=lambda p: (lambda c: Rec(eq=c, ne=Not(c), eq2=c, ne2=Not(c)))(close(p.a, p.b, p.e)))
        def lexs(a, b):
            lt, gt = tlex(a, b, Re(0)); return lt, gt
        def vsh(v, e): return Vec(x + e for x in v)
        case(P, 'approx_vord' + q, 'a:%s b:%s e:S' % (V, V), 'lt:B le:B gt:B ge:B lt2:B le2:B gt2:B ge2:B',
             'const vm::approx<vm::vec<T,%d>> ap(b, e); lt = a < ap; le = a <= ap; gt = a > ap; ge = a >= ap; lt2 = ap < a; le2 = ap <= a; gt2 = ap > a; ge2 = ap >= a;' % S, T=T_, req=pos,
             spec=lambda p: Rec(lt=lexs(p.a, vsh(p.b, -p.e))[0], le=Not(lexs(p.a, vsh(p.b, p.e))[1]), gt=lexs(p.a, vsh(p.b, p.e))[1], ge=Not(lexs(p.a, vsh(p.b, -p.e))[0]),
                                lt2=lexs(p.b, vsh(p.a, -p.e))[0], le2=Not(lexs(p.b, vsh(p.a, p.e))[1]), gt2=lexs(p.b, vsh(p.a, p.e))[1], ge2=Not(lexs(p.b, vsh(p.a, -p.e))[0])))
        M = 'M%dx%d' % (S, S)
        for (R_, C_) in ((S, S), (2, 3)) if S == 2 else ((S, S),):
            M = 'M%dx%d' % (R_, C_); mq = '%d%d%s' % (R_, C_, t)
            case(P, 'eq_m' + mq, 'a:%s b:%s e:S' % (M, M), 'r:B', 'r = vm::is_equal(a, b, e);', T=T_, req=pos, spec=lambda p: close(p.a, p.b, p.e), callee='vm::is_equal<')
            case(P, 'z_m' + mq, 'a:%s e:S' % M, 'r:B', 'r = vm::is_zero(a, e);', T=T_, req=pos, spec=lambda p: And([absr(x) <= p.e for r in p.a for x in r]))
            case(P, 'eqop_m' + mq, 'a:%s b:%s' % (M, M), 'e:B n:B', 'e = a == b; n = a != b;', T=T_, spec=lambda p: Rec(e=meq(p.a, p.b), n=Not(meq(p.a, p.b))))
            case(P, 'cmp_m' + mq, 'a:%s b:%s e:S' % (M, M), 'r:I', 'r = vm::compare(a, b, e);', T=T_, req=pos, ens=lambda p, o: [('sign', sgn_is(o.r, tlex(flatm(p.a), flatm(p.b), p.e)))])
            case(P, 'approx_m' + mq, 'a:%s b:%s e:S' % (M, M), 'eq:B ne:B eq2:B ne2:B', 'const vm::approx<vm::mat<T,%d,%d>> ap(b, e); eq = a == ap; ne = a != ap; eq2 = ap == a; ne2 = ap != a;' % (R_, C_), T=T_, req=pos,
                 spec=lambda p: (lambda c: Rec(eq=c, ne=Not(c), eq2=c, ne2=Not(c)))(close(p.a, p.b, p.e)))
        if S > 3: continue
        def clr(a, b, e): return And([close(a[k], b[k], e) for k in a])
        def eqr(a, b): return clr(a, b, Re(0))
        for nm, K in (('bbox', 'BB%d' % S), ('plane', 'PL%d' % S), ('ray', 'RAY%d' % S), ('line', 'LINE%d' % S)):
            case(P, 'eq_%s%s' % (nm, q), 'a:%s b:%s e:S' % (K, K), 'r:B', 'r = vm::is_equal(a, b, e);', T=T_, req=pos, spec=lambda p, f=clr: f(p.a, p.b, p.e))
            if nm != 'line':
                case(P, 'eqop_%s%s' % (nm, q), 'a:%s b:%s' % (K, K), 'e:B n:B', 'e = a == b; n = a != b;', T=T_, spec=lambda p, f=eqr: Rec(e=f(p.a, p.b), n=Not(f(p.a, p.b))))
        case(P, 'approx_line' + q, 'a:LINE%d b:LINE%d e:S' % (S, S), 'eq:B eq2:B', 'const vm::approx<vm::line<T,%d>> ap(b, e); eq = a == ap; eq2 = ap == a;' % S, T=T_, req=pos,
             spec=lambda p, f=clr: (lambda c: Rec(eq=c, eq2=c))(f(p.a, p.b, p.e)))
        ordd = lambda x: Not(tlex(x.a, x.b, Re(0))[1])
        case(P, 'eq_seg' + q, 'a:SEG%d b:SEG%d e:S' % (S, S), 'r:B', 'r = vm::is_equal(a, b, e);', T=T_, req=lambda p, ordd=ordd: [p.e >= 0, ordd(p.a), ordd(p.b)], spec=lambda p, f=clr: f(p.a, p.b, p.e))
        case(P, 'cmp_seg' + q, 'a:SEG%d b:SEG%d e:S' % (S, S), 'r:I', 'r = vm::compare(a, b, e);', T=T_, req=lambda p, ordd=ordd: [p.e >= 0, ordd(p.a), ordd(p.b)],
             ens=lambda p, o: [('sign', sgn_is(o.r, tlex(list(p.a.a) + list(p.a.b), list(p.b.a) + list(p.b.b), p.e)))])
