"""C23 convex hulls of coplanar points: every configuration of three and four points is one of those listed, up to the order in the list"""
from contracts._common import *
import itertools
P = 'C23'
EPS = Fraction(1, 100000)
def D(a, b, c): return (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
def ieq(n, k): return icmp('eq', n, I(k, 64))
def pt(ax, x, y, z):
    """the point with the coordinates x, y in the projection along the axis and z along it"""
    return {0: (z, x, y), 1: (y, z, x), 2: (x, y, z)}[ax]
def after(q, a): return And(q[1] >= a[1], Implies(q[1] == a[1], q[0] <= a[0]))
def band(*v): return [Or(D(*q) == 0, D(*q) * D(*q) > EPS) for q in itertools.combinations(v, 3)]
def dom(a, d): return Implies(And(a < 1, a > -1, d != 0), absr(a * d) < absr(d))
def area(a, b, d): return And(d * d * (1 + a * a + b * b) >= d * d, Implies(d == 0, d * d * (1 + a * a + b * b) == 0))
def cr(x1, y1, x2, y2): return x1 * y2 - x2 * y1
def half(x, y): return And(y >= 0, Implies(y == 0, x <= 0))
def trans(x1, y1, x2, y2, x3, y3):
    a, b, c = cr(x1, y1, x2, y2), cr(x2, y2, x3, y3), cr(x1, y1, x3, y3)
    return Implies(And(half(x1, y1), half(x2, y2), half(x3, y3), a > 0, b > 0), c > 0)
def plucker(x1, y1, x2, y2, x3, y3):
    a, b, c = cr(x1, y1, x2, y2), cr(x2, y2, x3, y3), cr(x1, y1, x3, y3)
    return And(c * y2 == a * y3 + b * y1, c * x2 == a * x3 + b * x1)
def trans2(a, b, c, x1, y1, x2, y2, x3, y3): return Implies(And(half(x1, y1), half(x2, y2), half(x3, y3), a > 0, b > 0, c * y2 == a * y3 + b * y1, c * x2 == a * x3 + b * x1, b == x2 * y3 - x3 * y2, a == x1 * y2 - x2 * y1), c > 0)
for T_ in TS:
    t = SH[T_]
    case(P, 'hull_same' + t, 'a:V3 b:V3', 'r:B', 'r = a == b;', T=T_, callee='vm::operator==<', lib=True, spec=lambda p: veq(p.a, p.b))
    def conf(nm, n, ax, order, params, pts, req, gen, extra=lambda p, V: [], **kw):
        """one configuration: pts are C++ expressions of the projected points, in the given order"""
        body = 'const vm::vec<T,2> q_[] = {%s}; const std::vector<vm::vec<T,3>> v_{%s}; const auto h_ = vm::convex_hull<T>(v_); m = long(h_.size()); for (std::size_t i = 0; i < h_.size() && i < %d; ++i) { r[i] = h_[i]; }' % (
            ', '.join(pts), ', '.join('vm::vec<T,3>(%s)' % ', '.join(pt(ax, 'q_[%d][0]' % i, 'q_[%d][1]' % i, '(c + a * q_[%d][0] + b * q_[%d][1])' % (i, i))) for i in order), n)
        VV = kw.pop('V'); flat = kw.pop('flat', False)
        if flat: body = 'const T a = 0, b = 0; ' + body
        def pl(p): return (Re(0), Re(0)) if flat else (p.a, p.b)
        def pre(p): return req(p) if flat else [p.a < 1, p.a > -1, p.b < 1, p.b > -1] + req(p)
        def ens(p, o):
            V = VV(p)
            if kw.get('empty'): return [('empty', ieq(o.m, 0))]
            g = [('not-empty', Or([ieq(o.m, k) for k in range(3, n + 1)]))]
            inv = [pt(ax, 0, 1, 2).index(i) for i in range(3)]
            R_ = [Vec([o.r[i][inv[k]] for k in range(3)]) for i in range(n)]
            for m in range(3, n + 1):
                for j in range(m):
                    a, b = R_[j], R_[(j + 1) % m]
                    g.append(('input%d.%d' % (m, j), Implies(ieq(o.m, m), Or([And(a[0].fin, a[1].fin, a[2].fin, a[0].v == w[0], a[1].v == w[1], a[2].v == (p.c if flat else p.c + p.a * w[0] + p.b * w[1])) for w in V]))))
                    for i in range(j): g.append(('distinct%d.%d.%d' % (m, i, j), Implies(ieq(o.m, m), Not(And(R_[i][0].v == a[0].v, R_[i][1].v == a[1].v)))))
                    for i, w in enumerate(V): g.append(('side%d.%d.%d' % (m, j, i), Implies(ieq(o.m, m), D([x.v for x in a], [x.v for x in b], w) >= 0)))
            return g
        def lem(p):
            V = VV(p); W = [V[i] for i in order]; l = extra(p, V)
            fa, fb = pl(p)
            Q = [Vec(pt(ax, w[0], w[1], p.c + fa * w[0] + fb * w[1])) for w in W]
            for i, j in itertools.combinations(range(1, n), 2):
                N = cross(Q[j] - Q[0], Q[i] - Q[0]); d = D(W[0], W[j], W[i]); u, w = (ax + 1) % 3, (ax + 2) % 3
                l += [('normal', And(N[ax] == d, N[u] == -fa * d, N[w] == -fb * d)), ('dominant', dom, [fa, d]), ('dominant', dom, [fb, d]), ('axis', Implies(d != 0, And(absr(N[u]) < absr(N[ax]), absr(N[w]) < absr(N[ax])))),
                      ('area', sqlen(N) == d * d * (1 + fa * fa + fb * fb)), ('area', area, [fa, fb, d])]
                A_, B_ = Q[0] - Q[j], Q[i] - Q[0]; e = dot(A_, B_) * dot(A_, B_) - sqlen(A_) * sqlen(B_)
                l += [('colinear', e == -sqlen(N)), ('colinear', And(Implies(d == 0, e == 0), Implies(d != 0, e < -EPS)))]
            return l
        case(P, nm, ('' if flat else 'a:S b:S ') + 'c:S ' + params, 'm:I(0,%d) r:A%d:V3' % (n, n), body, T=T_, req=pre, ens=ens, gen=gen, bounded='%d points' % n, opts=dict(paths=True, forkres=True, prelemmas=lem, weight=4, maxpaths=2000, **kw.get('opts', {})))
    def g1(rng): return [Fraction(rng.randint(-2, 2))]
    def g0(rng): return [Fraction(rng.randint(-1, 1), 2), Fraction(rng.randint(-1, 1), 2), Fraction(rng.randint(-2, 2))]
    def gp(k):
        def f(rng):
            p = sorted([(Fraction(rng.randint(-3, 3)), Fraction(rng.randint(-2, 2))) for _ in range(k)], key=lambda q: (q[1], -q[0]))
            import functools
            a = p[0]; r = sorted(p[1:], key=functools.cmp_to_key(lambda u, v: -1 if D(a, u, v) > 0 else 1))
            return [x for q in [a] + r for x in q]
        return f
    def ordered(p, V):
        X = [x for w in V[1:] for x in w - V[0]]
        x1, y1, x2, y2, x3, y3 = X
        return [('plucker', plucker, X), ('transitive', trans2, [cr(x1, y1, x2, y2), cr(x2, y2, x3, y3), cr(x1, y1, x3, y3)] + X), ('order', D(V[0], V[1], V[3]) > 0)]
    QUICK = {(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)}
    for ax in (0, 1, 2):
        for o in itertools.permutations(range(3)):
            conf('hull3%s_%s%s' % ('xyz'[ax], ''.join(map(str, o)), t), 3, ax, o, 'v:A3:V2', ['v[0]', 'v[1]', 'v[2]'], lambda p: [after(p.v[1], p.v[0]), after(p.v[2], p.v[0]), D(*p.v) > 0] + band(*p.v), lambda rng: (g0(rng) + gp(3)(rng), []), V=lambda p: p.v, opts=dict(thorough_only=T_ != 'double' and o != (0, 1, 2)))
    for o in itertools.permutations(range(4)):
        if T_ != 'double': continue
        k = dict(flat=True, opts=dict(thorough_only=o not in QUICK))
        # distinct angles around the first point
        conf('hull4_%s%s' % (''.join(map(str, o)), t), 4, 2, o, 'v:A4:V2', ['v[0]', 'v[1]', 'v[2]', 'v[3]'], lambda p: [after(p.v[i], p.v[0]) for i in (1, 2, 3)] + [D(p.v[0], p.v[1], p.v[2]) > 0, D(p.v[0], p.v[2], p.v[3]) > 0] + band(*p.v), lambda rng: (g1(rng) + gp(4)(rng), []), extra=ordered, V=lambda p: p.v, **k)
        # two on one ray from the first point (or equal to each other or to it)
        for s_ in (1, -1):
            def gray(rng, s_=s_):
                v = gp(3)(rng)
                if s_ < 0: v = v[:2] + v[4:] + v[2:4]
                return g1(rng) + v + [Fraction(rng.choice([0, 0, 1, 1, 2]), 2)], []
            def ray(p): a, b = p.v[0], p.v[1]; return Vec([a[k] + p.k * (b[k] - a[k]) for k in (0, 1)])
            def along(p, V): return [('on-ray', And(D(V[0], V[1], V[2]) == 0, D(V[0], V[2], V[3]) == p.k * D(V[0], V[1], V[3])))]
            conf('hullray%s_%s%s' % ('lr'[s_ < 0], ''.join(map(str, o)), t), 4, 2, o, 'v:A3:V2 k:S', ['v[0]', 'v[1]', '(v[0] + k * (v[1] - v[0]))', 'v[2]'], lambda p, s_=s_: [after(p.v[1], p.v[0]), after(p.v[2], p.v[0]), D(*p.v) * s_ > 0, p.k >= 0, p.k <= 1] + band(p.v[0], p.v[1], ray(p), p.v[2]), gray, extra=along, V=lambda p: [p.v[0], p.v[1], ray(p), p.v[2]], **k)
    for n in (3, 4):
        V3 = lambda p, n=n: [Vec([p.u[k] + p.k[i] * p.w[k] for k in (0, 1)]) for i in range(n)]
        conf('hullline%d%s' % (n, t), n, 2, range(n), 'u:V2 w:V2 k:A%d:S' % n, ['(u + k[%d] * w)' % i for i in range(n)], lambda p: [], lambda rng, n=n: (g0(rng) + [Fraction(rng.randint(-2, 2)) for _ in range(4 + n)], []), V=V3, empty=True)
