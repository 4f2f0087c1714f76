"""C07 component selection, axes, construction"""
from contracts._common import *
P = 'C07'
def nonan(*a): return [Not(x.isnan) for x in a]
def pick(v, i):
    r = v[-1]
    for k in reversed(range(len(v) - 1)): r = ite(icmp('eq', i, I(k, 64)), v[k], r)
    return r
def cnt(cs):
    r = I(0, 64)
    for c in cs: r = iop('iadd', r, Ite(c, I(1, 64), I(0, 64)))
    return r
def kth(p, key, x):
    """x has exactly rank k from the top: fewer than k+1 elements above, more than k at or above"""
    above = cnt([key(y) > key(x) for y in p.v]); atabove = cnt([key(y) >= key(x) for y in p.v])
    return And(icmp('sle', above, p.k), icmp('slt', p.k, atabove))
idf = lambda x: x
for T_ in TS:
    # used by callers: any index of a component of largest magnitude
    case(P, 'find_abs_max3' + SH[T_], 'v:V3', 'r:I(0,2)', 'r = vm::find_abs_max_component(v);', T=T_, callee='vm::find_abs_max_component<', lib=True,
         ens=lambda p, o: [('in-range', icmp('ult', o.r, I(3, 64))), ('largest', Or([And([ieq(o.r, i)] + [absr(p.v[i]) >= absr(x) for x in p.v]) for i in range(3)]))], opts=dict(paths=True))
for T_ in TS:
    t = SH[T_]
    for S in (2, 3, 4):
        V = 'V%d' % S; q = '%d%s' % (S, t)
        K = 'I(0,%d)' % (S - 1)
        # four components: over the reals (finite values), to keep the path count down
        MD = 'R' if S == 4 else 'F'
        nn = None if S == 4 else (lambda p: nonan(*p.v))
        Z0, Z1 = (0, 1) if S == 4 else (0.0, 1.0)
        for nm, key in (('max', idf), ('abs_max', absr)):
            case(P, 'find_%s_%s' % (nm, q), 'v:%s k:%s' % (V, K), 'r:U', 'r = vm::find_%s_component(v, (size_t)k);' % nm, T=T_, mode=MD, req=nn,
                 ens=lambda p, o, key=key, S=S: [('in-range', icmp('ult', o.r, I(S, 64))), ('rank', kth(p, key, pick(p.v, o.r)))], opts=dict(paths=True, enum=True))
            case(P, 'get_%s_%s' % (nm, q), 'v:%s k:%s' % (V, K), 'r:S', 'r = vm::get_%s_component(v, (size_t)k);' % nm, T=T_, mode=MD, req=nn,
                 ens=lambda p, o, key=key: [('rank', kth(p, key, o.r)), ('is-a-component', Or([o.r == x for x in p.v]))], opts=dict(paths=True, enum=True))
        case(P, 'find_all_' + q, 'v:' + V, 'r:A%d:U' % S, ' '.join('r[%d] = vm::find_abs_max_component(v, %d);' % (i, i) for i in range(S)), T=T_, mode=MD, req=nn,
             ens=lambda p, o, S=S: [('permutation', And([Not(ieq(o.r[i], o.r[j])) for i in range(S) for j in range(i)])), ('sorted', And([absr(pick(p.v, o.r[i])) >= absr(pick(p.v, o.r[i + 1])) for i in range(S - 1)]))], opts=dict(paths=True, enum=True))
        def axisok(p, o, S=S):
            # o.r is +-e_i for some i of rank k; sign follows the component
            return Or([And([(r == Z0) if j != i else ite(p.v[i] < Z0, r == -Z1, r == Z1) for j, r in enumerate(o.r)] + [kth(p, absr, p.v[i])]) for i in range(S)])
        case(P, 'axis_of_%s' % q, 'v:%s k:%s' % (V, K), 'r:' + V, 'r = vm::get_abs_max_component_axis(v, (size_t)k);', T=T_, mode=MD, req=nn, ens=lambda p, o, f=axisok: [('axis', f(p, o))], opts=dict(paths=True, enum=True))
        case(P, 'axis_' + q, 'k:' + K, 'r:' + V, 'r = vm::vec<T,%d>::axis((size_t)k);' % S, T=T_, spec=lambda p, S=S: Vec(ite(ieq(p.k, j), Re(1), Re(0)) for j in range(S)))
        case(P, 'fill_' + q, 'x:S', 'r:' + V, 'r = vm::vec<T,%d>::fill(x);' % S, T=T_, callee='::fill', spec=lambda p, S=S: Vec([p.x] * S))
        st = [('zero', 'pos_x', 0)]
        case(P, 'statics_' + q, '', 'z:%s o:%s px:%s py:%s nx:%s ny:%s d:%s' % ((V,) * 7),
             'using W = vm::vec<T,%d>; z = W::zero(); o = W::one(); px = W::pos_x(); py = W::pos_y(); nx = W::neg_x(); ny = W::neg_y(); d = W();' % S, T=T_,
             spec=lambda p, S=S: Rec(z=Vec([Re(0)] * S), d=Vec([Re(0)] * S), o=Vec([Re(1)] * S), px=Vec([Re(1)] + [Re(0)] * (S - 1)), nx=Vec([Re(-1)] + [Re(0)] * (S - 1)),
                                     py=Vec([Re(0), Re(1)] + [Re(0)] * (S - 2)), ny=Vec([Re(0), Re(-1)] + [Re(0)] * (S - 2))))
        if S >= 3:
            case(P, 'statics_z_' + q, '', 'p:%s n:%s' % (V, V), 'using W = vm::vec<T,%d>; p = W::pos_z(); n = W::neg_z();' % S, T=T_,
                 spec=lambda p, S=S: Rec(p=Vec([Re(0), Re(0), Re(1)] + [Re(0)] * (S - 3)), n=Vec([Re(0), Re(0), Re(-1)] + [Re(0)] * (S - 3))))
        case(P, 'statics_nan_' + q, '', 'n:%s x:%s m:%s' % (V, V, V), 'using W = vm::vec<T,%d>; n = W::nan(); x = W::max(); m = W::min();' % S, T=T_, mode='F',
             ens=lambda p, o: [('nan', And([x.isnan for x in o.n])), ('max', And([And(x.isfin, x >= y) for x in o.x for y in [Fl(F(1.7976931348623157e308 if x.t.sort == 'F64' else 3.4028234663852886e38, x.t.sort))]])),
                               ('min', And([x == Fl(F(2.2250738585072014e-308 if x.t.sort == 'F64' else 1.1754943508222875e-38, x.t.sort)) for x in o.m]))])
        acc = ['x', 'y', 'z', 'w'][:S]
        case(P, 'access_' + q, 'v:%s k:%s' % (V, K), ' '.join('%s:S' % a for a in acc) + ' e:S', ' '.join('%s = v.%s();' % (a, a) for a in acc) + ' e = v[(size_t)k];', T=T_,
             spec=lambda p, acc=acc: Rec(dict([(a, p.v[i]) for i, a in enumerate(acc)] + [('e', pick(p.v, p.k))])))
        if S >= 3:
            case(P, 'sub_' + q, 'v:' + V, 'xy:V2 xz:V2 yz:V2 xyz:V3', 'xy = v.xy(); xz = v.xz(); yz = v.yz(); xyz = v.xyz();', T=T_,
                 spec=lambda p: Rec(xy=Vec([p.v[0], p.v[1]]), xz=Vec([p.v[0], p.v[2]]), yz=Vec([p.v[1], p.v[2]]), xyz=Vec(p.v[:3])))
        else:
            case(P, 'sub_' + q, 'v:' + V, 'xy:V2', 'xy = v.xy();', T=T_, spec=lambda p: p.v)
        if S == 4: case(P, 'sub4_' + q, 'v:V4', 'r:V4', 'r = v.xyzw();', T=T_, spec=lambda p: p.v)
        for n in range(1, S + 1):
            if n == 1: continue
            case(P, 'slice%d_%s' % (n, q), 'v:%s k:I(0,%d)' % (V, S - n), 'r:V%d' % n, 'r = vm::slice<%d>(v, (size_t)k);' % n, T=T_, spec=lambda p, n=n, S=S: Vec(pick(p.v[i:i + S - n + 1], p.k) for i in range(n)))
        for n in (2, 3, 4):
            case(P, 'conv%d_%s' % (n, q), 'v:' + V, 'r:V%d' % n, 'r = vm::vec<T,%d>(v);' % n, T=T_, spec=lambda p, n=n: Vec((list(p.v) + [Re(0)] * 4)[:n]))
        case(P, 'ctor_' + q, 'v:' + V, 'r:%s i:%s' % (V, V), 'r = vm::vec<T,%d>(%s); i = vm::vec<T,%d>{%s};' % (S, ', '.join('v[%d]' % i for i in range(S)), S, ', '.join('v[%d]' % i for i in range(S))), T=T_, spec=lambda p: Rec(r=p.v, i=p.v))
        for n in range(2, S):
            case(P, 'extend%d_%s' % (n, q), 'v:V%d w:V%d' % (n, S - n) if S - n > 1 else 'v:V%d w:S' % n, 'r:' + V, 'r = vm::vec<T,%d>(v, %s);' % (S, ', '.join('w[%d]' % i for i in range(S - n)) if S - n > 1 else 'w'), T=T_,
                 spec=lambda p: Vec(list(p.v) + (list(p.w) if isinstance(p.w, list) else [p.w])))
        O = 'float' if T_ == 'double' else 'double'
        case(P, 'convt_' + q, 'v:' + V, 'r:' + V, 'vm::vec<%s,%d> x_(v); r = vm::vec<T,%d>(x_);' % (O, S, S), T=T_, mode='F', ens=lambda p, o: [('nearest', And([num(r, Fl(f1('fcvt', f1('fcvt', v.t, 'F32' if v.t.sort == 'F64' else 'F64'), v.t.sort))) for r, v in zip(o.r, p.v)]))])
    case(P, 'swizzle_' + t, 'v:V3 k:I(0,2)', 'r:V3', 'r = vm::swizzle(v, (size_t)k);', T=T_, spec=lambda p: Vec(pick([p.v[(i + 1) % 3], p.v[(i + 2) % 3], p.v[i]], p.k) for i in range(3)))
    case(P, 'unswizzle_' + t, 'v:V3 k:I(0,2)', 'r:V3 s:V3', 'r = vm::unswizzle(vm::swizzle(v, (size_t)k), (size_t)k); s = vm::swizzle(vm::unswizzle(v, (size_t)k), (size_t)k);', T=T_, spec=lambda p: Rec(r=p.v, s=p.v))
