"""C09 determinant, adjugate, linear systems, inverse"""
from contracts._common import *
P = 'C09'
def minor(m, i, j): return [[m[a][b] for b in range(len(m)) if b != j] for a in range(len(m)) if a != i]
for T_ in TS:
    t = SH[T_]
    for S in (2, 3, 4):
        M = 'M%dx%d' % (S, S); V = 'V%d' % S; q = '%d%s' % (S, t)
        case(P, 'det' + q, 'm:' + M, 'r:S', 'r = vm::compute_determinant(m);', T=T_, callee='vm::compute_determinant<', spec=lambda p: det(p.m))
        case(P, 'adj' + q, 'm:' + M, 'r:' + M, 'r = vm::compute_adjugate(m);', T=T_, spec=lambda p, S=S: Vec(Vec((det(minor(p.m, j, i)) if S > 1 else Re(1)) * (1 if (i + j) % 2 == 0 else -1) for j in range(S)) for i in range(S)))
        case(P, 'det_mul' + q, 'a:%s b:%s' % (M, M), 'r:S u:S v:S', 'r = vm::compute_determinant(a * b); u = vm::compute_determinant(a); v = vm::compute_determinant(b);', T=T_,
             ens=lambda p, o: [('multiplicative', o.r == o.u * o.v)]) if S < 4 else None
        fo = dict(forkidx=True, prune=False)
        case(P, 'lup' + q, 'a:%s b:%s' % (M, V), 'k:B x:' + V, 'const auto r_ = vm::lup_solve(a, b); k = std::get<0>(r_); x = std::get<1>(r_);', T=T_, opts=fo,
             ens=lambda p, o: [('solves-row%d' % i, Implies(o.k, And(fin(o.x), dot(p.a[i], val(o.x)) == p.b[i]))) for i in range(len(p.b))])
        case(P, 'inv' + q, 'a:%s' % M, 'k:B x:' + M, 'const auto r_ = vm::invert(a); k = std::get<0>(r_); x = std::get<1>(r_);', T=T_, opts=fo,
             ens=lambda p, o, S=S: [('right-inverse%d%d' % (i, j), Implies(o.k, And(fin(o.x), dot(p.a[i], [val(o.x)[k][j] for k in range(S)]) == (1 if i == j else 0)))) for i in range(S) for j in range(S)])
        import itertools
        EPS = Fraction(1, 10**15)
        perms = list(itertools.permutations(range(S)))
        tab = '{' + ','.join('{' + ','.join(map(str, x)) + '}' for x in perms) + '}'
        # row-permuted upper triangular matrices with a diagonal of at least 1e-15 are always accepted
        nu = S * (S + 1) // 2
        fill = ' '.join('a_[%d][pt_[k][%d]] = u[%d];' % (c, r, i) for i, (r, c) in enumerate([(r, c) for r in range(S) for c in range(r, S)]))
        diag = [i for i, (r, c) in enumerate([(r, c) for r in range(S) for c in range(r, S)]) if r == c]
        case(P, 'accept' + q, 'u:A%d:S k:I(0,%d)' % (nu, len(perms) - 1), 'r:B s:B', 'static const int pt_[%d][%d] = %s; auto a_ = vm::mat<T,%d,%d>::zero(); %s r = std::get<0>(vm::invert(a_)); s = std::get<0>(vm::lup_solve(a_, vm::vec<T,%d>()));' % (len(perms), S, tab, S, S, fill, S), T=T_,
             req=lambda p, diag=diag: [absr(p.u[i]) >= 2 * EPS for i in diag], ens=lambda p, o: [('invertible-accepted', o.r), ('solvable-accepted', o.s)], opts=dict(fo, enum=True))
        case(P, 'reject' + q, 'a:%s' % M, 'r:B s:B', 'r = std::get<0>(vm::invert(a)); s = std::get<0>(vm::lup_solve(a, vm::vec<T,%d>()));' % S, T=T_, opts=dict(fo),
             ens=lambda p, o: [('same-decision', Iff(o.r, o.s))])
    def ex2(p):
        P0 = rmax(absr(p.a[0][0]), absr(p.a[1][0]))
        return And(P0 >= EPS, absr(det(p.a)) >= EPS * P0)
    case(P, 'exact2' + t, 'a:M2x2', 'r:B', 'r = std::get<0>(vm::invert(a));', T=T_, opts=dict(fo), spec=ex2)
