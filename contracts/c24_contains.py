"""C24 points in convex polygons"""
from contracts._common import *
P = 'C24'
AZ = Fraction(1, 1000)
def c2(a, b): return a[0] * b[1] - a[1] * b[0]
def up(a, b): return And(a[1] <= 0, b[1] > 0)
def down(a, b): return And(a[1] > 0, b[1] <= 0)
def box0(a): return And([And(x <= AZ, x >= -AZ) for x in a])
def near(a, b):
    """some point of the edge is within the tolerance of the origin along the first coordinate, or an end point is"""
    k = c2(a, b); d = b[1] - a[1]; e = AZ
    return Or(box0(a[:2]), And(absr(a[1]) <= e, absr(b[1]) <= e, a[0] * b[0] <= 0), And(up(a, b), k <= e * d, -k <= e * d), And(down(a, b), k <= -e * d, -k <= -e * d))
def par(o): return o
def ins(V): return Or(And([c2(a, b) > 0 for a, b in zip(V, V[1:] + V[:1])]), And([c2(a, b) < 0 for a, b in zip(V, V[1:] + V[:1])]))
def turn(V, i): n = len(V); a, b, c = V[i], V[(i + 1) % n], V[(i + 2) % n]; return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
def convex(V): n = len(V); return Or(And([turn(V, i) > 0 for i in range(n)]), And([turn(V, i) < 0 for i in range(n)]))
ARR = 'std::array<vm::vec<T,3>,%d>'
AX = {0: (1, 2), 1: (2, 0), 2: (0, 1)}
def outside(V, o):
    """strictly outside of some edge, and farther than the tolerance from all edges"""
    E = list(zip(V, V[1:] + V[:1]))
    return [Or([c2(a, b) * o < 0 for a, b in E])] + [Not(near(a, b)) for a, b in E]
def parity(V, s):
    """lemmas for a convex polygon of orientation s: the origin is right of the up-crossing edge and left of the down-crossing edge only if it is not outside of any edge, and never the other way round"""
    n = len(V); y = [v[1] for v in V]; C = [c2(a, b) for a, b in zip(V, V[1:] + V[:1])]; t = [turn(V, i) for i in range(n)]; X = [x for v in V for x in v]
    def F(t, k, m): d = (m - k) % n; return 0 if d < 2 else t[k] if d == 2 else t[(k - 1) % n]
    def pair(f):
        def g(*z):
            W = [Vec(z[2 * i:2 * i + 2]) for i in range(n)]
            return f([w[1] for w in W], [c2(a, b) for a, b in zip(W, W[1:] + W[:1])], [turn(W, i) for i in range(n)])
        return g
    l = []
    for i in range(n):
        for j in range(n):
            if i == j: continue
            a, b, c, d = i, (i + 1) % n, j, (j + 1) % n
            l.append(('order', pair(lambda y, C, t, i=i, j=j, a=a, b=b, c=c, d=d: C[i] * (y[c] - y[d]) + C[j] * (y[b] - y[a]) == y[c] * F(t, i, d) - y[d] * F(t, i, c)), X))
            l.append(('not-reversed', lambda ya, yb, yc, yd, ci, cj, fc, fd: Implies(And(ya <= 0, yb > 0, yc > 0, yd <= 0, fc * s >= 0, fd * s >= 0, ci * (yc - yd) + cj * (yb - ya) == yc * fd - yd * fc), Or(ci * s >= 0, cj * s >= 0)), [y[a], y[b], y[c], y[d], C[i], C[j], Re.of(F(t, i, c)), Re.of(F(t, i, d))]))
            for k in range(n):
                if k in (i, j): continue
                l.append(('between', pair(lambda y, C, t, i=i, j=j, k=k, a=a, b=b, c=c, d=d: C[k] * (C[i] * (y[c] - y[d]) + C[j] * (y[b] - y[a])) == C[i] * (y[c] * F(t, k, d) - y[d] * F(t, k, c)) + C[j] * (y[b] * F(t, k, a) - y[a] * F(t, k, b))), X))
                l.append(('inner', lambda ya, yb, yc, yd, ci, cj, ck, fa, fb, fc, fd: Implies(And(ya <= 0, yb > 0, yc > 0, yd <= 0, ci * s > 0, cj * s > 0, fa * s >= 0, fb * s >= 0, fc * s >= 0, fd * s >= 0, ck * (ci * (yc - yd) + cj * (yb - ya)) == ci * (yc * fd - yd * fc) + cj * (yb * fa - ya * fb)), ck * s >= 0), [y[a], y[b], y[c], y[d], C[i], C[j], C[k]] + [Re.of(F(t, k, m)) for m in (a, b, c, d)]))
    if n == 4:
        l.append(('diagonals', pair(lambda y, C, t: y[0] * t[1] + y[2] * t[3] == y[1] * t[2] + y[3] * t[0]), X))
        l.append(('alternating', lambda y0, y1, y2, y3, t0, t1, t2, t3: Implies(And(t0 * s > 0, t1 * s > 0, t2 * s > 0, t3 * s > 0, y0 * t1 + y2 * t3 == y1 * t2 + y3 * t0), And(Not(And(y0 > 0, y2 > 0, y1 <= 0, y3 <= 0)), Not(And(y1 > 0, y3 > 0, y0 <= 0, y2 <= 0)))), y + t))
    return l
for T_ in TS:
    t = SH[T_]; k = dict(T=T_)
    g = lambda rng: ([Fraction(rng.randint(-3, 3), rng.choice([1, 1, 2])) for _ in range(6)], [])
    case(P, 'edge' + t, 'a:V3 b:V3', 'r:I(-1,1)', 'r = vm::detail::handle_polygon_edge_intersection(a, b);', callee='vm::detail::handle_polygon_edge_intersection<', lib=True, gen=g, opts=dict(paths=True), **k,
         ens=lambda p, o: [('crossing', Implies(icmp('eq', o.r, I(1, 64)), Or(And(up(p.a, p.b), c2(p.a, p.b) > 0), And(down(p.a, p.b), c2(p.a, p.b) < 0)))), ('no-crossing', Implies(icmp('eq', o.r, I(0, 64)), And(Not(And(up(p.a, p.b), c2(p.a, p.b) >= 0)), Not(And(down(p.a, p.b), c2(p.a, p.b) <= 0))))),
                           ('on-edge', Implies(icmp('eq', o.r, I(-1, 64)), near(p.a, p.b)))])
    for n in (3, 4):
        for ax in (0, 1, 2):
            A = 'A%d:V3' % n; pj = lambda v, ax=ax: Vec([v[i] for i in AX[ax]])
            VV = lambda p, pj=pj: [pj(v - p.c) for v in p.v]
            nm = '%d%s%s' % (n, 'xyz'[ax], t)
            call = 'r = vm::polygon_contains_point(c, vm::axis::%s, v, v + %d);' % ('xyz'[ax], n)
            gg = lambda rng, n=n: (rvec(rng, 3, 2) + [x for _ in range(n) for x in rvec(rng, 3, 3)], [])
            case(P, 'inside' + nm, 'c:V3 v:' + A, 'r:B', call, req=lambda p, VV=VV: [convex(VV(p)), ins(VV(p))], gen=gg, opts=dict(paths=True, forkres=True, lemmas=lambda p, o, VV=VV: [('plane', B(o.r), 'abs', [x for v in VV(p) for x in v])]), bounded='%d vertices' % n, **k, ens=lambda p, o: [('contained', o.r)])
            for o in (1, -1):
                case(P, 'outside%s%s' % ('pn'[o < 0], nm), 'c:V3 v:' + A, 'r:B', call, req=lambda p, VV=VV, o=o: [And([turn(VV(p), i) * o > 0 for i in range(len(p.v))])] + outside(VV(p), o), gen=gg, opts=dict(paths=True, forkres=True, prune=False, prelemmas=lambda p, VV=VV, o=o: parity(VV(p), o), lemmas=lambda p, o, VV=VV: [('plane', Not(o.r), 'abs', [c2(a, b) for a, b in zip(VV(p), VV(p)[1:] + VV(p)[:1])] + [turn(VV(p), i) for i in range(len(p.v))] + [x for v in VV(p) for x in v])]), bounded='%d vertices' % n, **k, ens=lambda p, o: [('not-contained', Not(o.r))])
        # in space: the vertices lie in the plane through the point with the given normal
        nm = '%d%s' % (n, t); A = 'A%d:V3' % n
        D = lambda p: [v - p.c for v in p.v]
        def edges(p, D=D): V = D(p); return list(zip(V, V[1:] + V[:1]))
        def turns(p, D=D): V = D(p); n = len(V); return [(V[(i + 1) % n] - V[i], V[(i + 2) % n] - V[(i + 1) % n]) for i in range(n)]
        def L_copl(a, u, w, n): return ('coplanar%d' % a, lambda *z: (lambda u, w, n: Implies(And(dot(u, n) == 0, dot(w, n) == 0), cross(u, w)[a] * sqlen(n) == n[a] * dot(cross(u, w), n)))(Vec(z[:3]), Vec(z[3:6]), Vec(z[6:])), list(u) + list(w) + list(n))
        def L_sign(k, q, m, d): return ('sign', lambda k, q, m, d: Implies(And(q > 0, k * q == m * d, m != 0, d != 0), And(Iff(k > 0, m * d > 0), Iff(k < 0, m * d < 0), Iff(m > 0, m * d * d > 0), Iff(d > 0, m * m * d > 0), Iff(m * d > 0, Iff(m > 0, d > 0)))), [k, q, m, d])
        mx = lambda p, a: And([absr(p.n[a]) >= absr(p.n[b]) for b in range(3)])
        prj = lambda p, a, D=D: [Vec([v[i] for i in AX[a]]) for v in D(p)]
        loop = lambda V: list(zip(V, V[1:] + V[:1]))
        for o in (1, -1):
            for where in ('inside', 'outside'):
                inn = where == 'inside'
                def rq(p, D=D, edges=edges, o=o, inn=inn, turns=turns, mx=mx, prj=prj, loop=loop):
                    l = [dot(v, p.n) == 0 for v in D(p)] + [dot(cross(a, b), p.n) * o > 0 for a, b in turns(p)]
                    if inn: return l + [dot(cross(a, b), p.n) * o > 0 for a, b in edges(p)]
                    return l + [Or([dot(cross(a, b), p.n) * o < 0 for a, b in edges(p)])] + [Implies(mx(p, a), And([Not(near(u, w)) for u, w in loop(prj(p, a))])) for a in range(3)]
                # projecting along the major axis of the normal keeps or flips the orientation of all pairs of edges
                def sel(p, a, E, inn, prj=prj, loop=loop):
                    C = [c2(u, w) for u, w in loop(prj(p, a))]; T3 = [turn(prj(p, a), i) for i in range(len(p.v))]
                    return Or([And([x * s > 0 for x in T3] + ([x * s > 0 for x in C] if inn else [Or([x * s < 0 for x in C])])) for s in (1, -1)])
                def lem(p, edges=edges, D=D, turns=turns, inn=inn, mx=mx, sel=sel):
                    ET = edges(p) + turns(p); E = [cross(u, w) for u, w in ET]; dz = [dot(u, p.n) for uw in ET for u in uw]; X = [x for v in D(p) for x in v]; n = len(p.v)
                    l = [('nonzero', sqlen(p.n) > 0)]
                    for a in (0, 1, 2):
                        for u, w in ET: l += [L_copl(a, u, w, p.n), L_sign(cross(u, w)[a], sqlen(p.n), p.n[a], dot(cross(u, w), p.n))]
                    l += [('in-plane', x == 0) for x in dz]
                    l += [('major%d' % a, lambda *n, a=a: Implies(And([sqlen(Vec(n)) > 0] + [absr(n[a]) >= absr(n[b]) for b in range(3)]), n[a] != 0), list(p.n)) for a in range(3)]
                    f = lambda a, s: And([e[a] * s > 0 for e in E[n:]] + ([e[a] * s > 0 for e in E[:n]] if inn else [Or([e[a] * s < 0 for e in E[:n]])]))
                    l += [('axis%d' % a, Implies(mx(p, a), Or(f(a, 1), f(a, -1))), 'abs', [e[a] for e in E] + [dot(e, p.n) for e in E] + [sqlen(p.n)] + list(p.n) + dz) for a in range(3)]
                    return l + [('projected%d' % a, Implies(mx(p, a), sel(p, a, E, inn)), 'abs', X + list(p.n)) for a in range(3)]
                def pl(V, goal):
                    t3 = [turn(V, i) for i in range(len(V))]; X = [c2(a, b) for a, b in zip(V, V[1:] + V[:1])] + t3 + [x for v in V for x in v]
                    return [y for s in (1, -1) for y in parity(V, s) + [('plane', Implies(And([x * s > 0 for x in t3]), goal), 'abs', X)]]
                def fin_(p, o, pl=pl, D=D, sel=sel, inn=inn, prj=prj, loop=loop):
                    X = [x for v in D(p) for x in v]; f = [v for x, _, v in o._run.forked if 'find_abs_max' in str(x.args[0])]; goal = B(o.r) if inn else Not(o.r)
                    if not f: return [('plane', goal, 'abs', X + list(p.n))]
                    return [('selected', sel(p, f[0], None, inn), 'abs', X + list(p.n))] + ([] if inn else [('distant', And([Not(near(u, w)) for u, w in loop(prj(p, f[0]))]), 'abs', X + list(p.n))]) + ([('plane', goal, 'abs', X)] if inn else pl(prj(p, f[0]), goal))
                def gn(rng, n=n, o=o):
                    # a convex polygon around or beside c in a plane with a random normal
                    while True:
                        u, w = rvec(rng, 3, 3), rvec(rng, 3, 3)
                        nn = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
                        if any(nn): break
                    q = [(0, 0), (3, -1), (4, 2), (1, 3)][:n]; d = (rng.randint(-6, 1), rng.randint(-4, 1)); q = [(a + d[0], b + d[1]) for a, b in q]
                    c = rvec(rng, 3, 2); r = rng.randrange(n); q = q[r:] + q[:r]; k = rng.choice([1, 2])
                    return c + [x * o * k for x in nn] + [c[i] + a * u[i] + b * w[i] for a, b in q for i in range(3)], []
                case(P, 'normal_%s%s%s' % (where, 'pn'[o < 0], nm), 'c:V3 n:V3 v:' + A, 'r:B', 'r = vm::polygon_contains_point(c, n, v, v + %d);' % n, req=rq, gen=gn, bounded='%d vertices' % n, **k, opts=dict(paths=True, forkres=True, prune=False, prelemmas=lem, lemmas=fin_, weight=20), ens=(lambda p, o: [('contained', o.r)]) if inn else (lambda p, o: [('not-contained', Not(o.r))]))
        # the variants agree: without normal the plane is that of the first three vertices; with get; the ray's hit is the hit on the plane if that is contained
        case(P, 'auto' + nm, 'c:V3 v:' + A, 'r:B s:B k:B g:B', 'const auto n_ = vm::plane_normal(v[0], v[1], v[2]); k = std::get<0>(n_); if (k) { r = vm::polygon_contains_point(c, v, v + %d); s = vm::polygon_contains_point(c, std::get<1>(n_), v, v + %d); const int i_[] = {0, 1, 2, 3}; g = vm::polygon_contains_point(c, i_, i_ + %d, [&](const int i) { return v[i]; }); }' % (n, n, n), bounded='%d vertices' % n, **k,
             ens=lambda p, o: [('same', Implies(o.k, Iff(o.r, o.s))), ('same-get', Implies(o.k, Iff(o.r, o.g)))])
        gr = lambda rng, n=n: (rvec(rng, 3, 3) + runit(rng, 3) + [rs(rng, 3)] + runit(rng, 3) + [x for _ in range(n) for x in rvec(rng, 3, 3)], [])
        case(P, 'ray' + nm, 'r:RAY3 p:PL3 v:' + A, 'd:S s:S c:B', 'd = vm::intersect_ray_polygon(r, p, v, v + %d); s = vm::intersect_ray_plane(r, p); c = !vm::is_nan(s) && vm::polygon_contains_point(vm::point_at_distance(r, s), p.normal, v, v + %d);' % (n, n), req=lambda p: [unit(p.p.normal)], gen=gr, bounded='%d vertices' % n, **k,
             ens=lambda p, o: [('hit', Implies(o.c, eq(o.d, o.s))), ('miss', Or(o.c, o.d.nan))])
        case(P, 'rayauto' + nm, 'r:RAY3 v:' + A, 'd:S s:S k:B', 'const auto q_ = vm::from_points(v, v + %d); k = std::get<0>(q_); d = vm::intersect_ray_polygon(r, v, v + %d); s = k ? vm::intersect_ray_polygon(r, std::get<1>(q_), v, v + %d) : std::numeric_limits<T>::quiet_NaN();' % (n, n, n), bounded='%d vertices' % n, **k,
             ens=lambda p, o: [('same', eq(o.d, o.s)), ('degenerate', Or(o.k, o.d.nan))])
