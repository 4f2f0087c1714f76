"""C26 operators lifted to lists and arrays"""
from contracts._common import *
P = 'C26'
N = 3
def aff(m, v):
    n = len(v); h = mvec(m, Vec(list(v) + [Re(1)]))
    return Vec(x / h[n] for x in h[:n])
def affr(v, m):
    n = len(v); h = vecm(Vec(list(v) + [Re(1)]), m)
    return Vec(x / h[n] for x in h[:n])
for T_ in TS:
    k = dict(T=T_); t = SH[T_]
    for n in (0, 1, 2, 3):
        bd = dict(bounded='lists of %d elements' % n)
        def lists(name, params, V, expr, one, req=None, n=n, bd=bd, arr=True):
            """expr mentions l; the result has the same length and the i-th element is one(p, l[i])"""
            ps = (params + ' ' if params else '')
            if n == 0:
                nm = '%s_vec0%s' % (name, t)
                case(P, nm, ps.strip(), 'n:I', 'std::vector<vm::vec<T,%s>> l; const auto r_ = %s; n = (long)r_.size();' % (V[1], expr), req=req, ens=lambda p, o: [('empty', ieq(o.n, 0))], **bd, **k)
                return
            rq = (lambda p, req=req: [y for x in p.l for y in req(p, x)]) if req else None
            case(P, '%s_vec%d%s' % (name, n, t), ps + 'l:L%d:%s' % (n, V), 'n:I r:A%d:%s' % (n, V), 'const auto r_ = %s; n = (long)r_.size(); for (int i_ = 0; i_ < %d && i_ < n; ++i_) r[i_] = r_[i_];' % (expr, n), req=rq, **bd, **k,
                 ens=lambda p, o, one=one, n=n: [('length', ieq(o.n, n))] + [('element%d' % i, eq(o.r[i], one(p, p.l[i]))) for i in range(n)])
            if n == N and arr:
                case(P, '%s_arr%d%s' % (name, n, t), ps + 'l:A%d:%s' % (n, V), 'r:A%d:%s' % (n, V), 'std::array<vm::vec<T,%s>,%d> m_; for (int i_ = 0; i_ < %d; ++i_) m_[i_] = l[i_]; { const auto& l = m_; const auto r_ = %s; for (int i_ = 0; i_ < %d; ++i_) r[i_] = r_[i_]; }' % (V[1], n, n, expr, n), req=rq, **bd, **k,
                     ens=lambda p, o, one=one, n=n: [('element%d' % i, eq(o.r[i], one(p, p.l[i]))) for i in range(n)])
        for S in (2, 3, 4):
            V = 'V%d' % S; s = str(S)
            lists('list_add' + s, 'd:' + V, V, 'l + d', lambda p, x: x + p.d)
            lists('list_radd' + s, 'd:' + V, V, 'd + l', lambda p, x: x + p.d)
            lists('list_mul' + s, 'f:S', V, 'l * f', lambda p, x: x * p.f)
            lists('list_rmul' + s, 'f:S', V, 'f * l', lambda p, x: x * p.f)
            M = 'M%dx%d' % (S, S)
            lists('list_matvec' + s, 'm:' + M, V, 'm * l', lambda p, x: mvec(p.m, x))
            lists('list_vecmat' + s, 'm:' + M, V, 'l * m', lambda p, x: vecm(x, p.m))
            if S > 2:
                W = 'V%d' % (S - 1)
                lists('list_mataff' + s, 'm:' + M, W, 'm * l', lambda p, x: aff(p.m, x), req=lambda p, x=None: [] if x is None else [mvec(p.m, Vec(list(x) + [Re(1)]))[len(x)] != 0])
                lists('list_affmat' + s, 'm:' + M, W, 'l * m', lambda p, x: affr(x, p.m), req=lambda p, x=None: [] if x is None else [vecm(Vec(list(x) + [Re(1)]), p.m)[len(x)] != 0])
