"""C13 planes"""
from contracts._common import *
P = 'C13'
AZ = Fraction(1, 1000); PSE = Fraction(1, 10000); ANG = Fraction(1, 10**8)
def pd(pl, x): return dot(x, pl.normal) - pl.distance
ST = '(s_ == vm::plane_status::above ? 1 : s_ == vm::plane_status::below ? 2 : s_ == vm::plane_status::inside ? 3 : 0)'
def st(d, e): return Ite(B_(d > e), I(1, 64), Ite(B_(d < -e), I(2, 64), I(3, 64)))
def B_(x): return x
def gp(n, S=3): return lambda rng: ([rs(rng)] + runit(rng, S) + [x for _ in range(n) for x in rvec(rng, S)], [])
def hom(v): return Vec(list(v) + [Re(1)])
for T_ in TS:
    t = SH[T_]
    for S in (2, 3):
        q = '%d%s' % (S, t); V = 'V%d' % S; PL = 'PL%d' % S
        U = lambda p: [unit(p.p.normal)]
        case(P, 'pl_anchored' + q, 'x:%s n:%s' % (V, V), 'r:' + PL, 'r = vm::plane<T,%d>(x, n);' % S, T=T_, spec=lambda p: Rec(distance=dot(p.x, p.n), normal=p.n))
        case(P, 'pl_parts' + q, 'd:S n:%s' % V, 'r:%s z:%s' % (PL, PL), 'r = vm::plane<T,%d>(d, n); z = vm::plane<T,%d>();' % (S, S), T=T_, spec=lambda p, S=S: Rec(r=Rec(distance=p.d, normal=p.n), z=Rec(distance=Re(0), normal=Vec([Re(0)] * S))))
        case(P, 'pl_anchor' + q, 'p:' + PL, 'r:' + V, 'r = p.anchor();', T=T_, callee='::anchor', spec=lambda p: p.p.normal * p.p.distance)
        case(P, 'pl_dist' + q, 'p:%s x:%s' % (PL, V), 'r:S', 'r = p.point_distance(x);', T=T_, callee='::point_distance', spec=lambda p: pd(p.p, p.x))
        case(P, 'pl_status' + q, 'p:%s x:%s e:S' % (PL, V), 'r:I', 'const auto s_ = p.point_status(x, e); r = %s;' % ST, T=T_, req=lambda p: [p.e >= 0], spec=lambda p: st(pd(p.p, p.x), p.e))
        case(P, 'pl_status_def' + q, 'p:%s x:%s' % (PL, V), 'r:I', 'const auto s_ = p.point_status(x); r = %s;' % ST, T=T_, spec=lambda p: st(pd(p.p, p.x), PSE))
        case(P, 'pl_flip' + q, 'p:%s x:%s e:S' % (PL, V), 'r:%s a:I b:I' % PL, 'r = p.flip(); { const auto s_ = p.point_status(x, e); a = %s; } { const auto s_ = r.point_status(x, e); b = %s; }' % (ST, ST), T=T_, req=lambda p: [p.e >= 0],
             ens=lambda p, o: [('negated', And(o.r.distance == -p.p.distance, veq(o.r.normal, -p.p.normal))), ('swaps', And(Iff(ieq(o.a, 1), ieq(o.b, 2)), Iff(ieq(o.a, 2), ieq(o.b, 1)), Iff(ieq(o.a, 3), ieq(o.b, 3))))])
        case(P, 'pl_project' + q, 'p:%s x:%s' % (PL, V), 'r:%s' % V, 'r = p.project_point(x);', T=T_, callee='::project_point', req=U, gen=gp(1, S), spec=lambda p: p.x - p.p.normal * pd(p.p, p.x))
        case(P, 'pl_project_on' + q, 'p:%s x:%s' % (PL, V), 'r:%s' % V, 'r = p.project_point(x);', T=T_, req=U, gen=gp(1, S), ens=lambda p, o: [('on-plane', And(fin(o.r), pd(p.p, val(o.r)) == 0))])
        small = lambda p: absr(dot(p.d, p.p.normal)) <= AZ
        case(P, 'pl_projdir' + q, 'p:%s x:%s d:%s' % (PL, V, V), 'r:%s' % V, 'r = p.project_point(x, d);', T=T_, req=U, gen=gp(2, S),
             ens=lambda p, o, small=small: [('undefined-iff-parallel', Iff(small(p), allnan(o.r))), ('defined', Or(small(p), fin(o.r))), ('on-plane', Or(small(p), pd(p.p, val(o.r)) == 0))] +
                 [('along-direction%d' % i, Or(small(p), o.r[i] == p.x[i] - p.d[i] * (pd(p.p, p.x) / dot(p.d, p.p.normal)))) for i in range(len(p.x))])
        case(P, 'pl_projvec' + q, 'p:%s x:%s' % (PL, V), 'r:%s' % V, 'r = p.project_vector(x);', T=T_, callee='::project_vector', req=U, gen=gp(1, S), spec=lambda p: p.x - p.p.normal * dot(p.x, p.p.normal))
        case(P, 'pl_projvecdir' + q, 'p:%s x:%s d:%s' % (PL, V, V), 'r:%s' % V, 'r = p.project_vector(x, d);', T=T_, req=lambda p, U=U, small=small: U(p) + [Not(small(p))], gen=gp(2, S), spec=lambda p: p.x - p.d * (dot(p.x, p.p.normal) / dot(p.d, p.p.normal)))
        case(P, 'pl_is_equal' + q, 'a:%s b:%s e:S' % (PL, PL), 'r:B', 'r = vm::is_equal(a, b, e);', T=T_, spec=lambda p: And([absr(p.a.distance - p.b.distance) <= p.e] + [absr(x - y) <= p.e for x, y in zip(p.a.normal, p.b.normal)]))
        case(P, 'pl_eq' + q, 'a:%s b:%s' % (PL, PL), 'r:B s:B', 'r = a == b; s = a != b;', T=T_, ens=lambda p, o: (lambda e: [('equal', Iff(o.r, e)), ('unequal', Iff(o.s, Not(e)))])(And(p.a.distance == p.b.distance, veq(p.a.normal, p.b.normal))))
    # transformation by an angle-preserving affine map k R x + d (rotation, reflection, uniform scaling, translation)
    qn = lambda q: q.r * q.r + sqlen(q.v)
    rot = lambda q, w: w * (q.r * q.r - sqlen(q.v)) + q.v * (2 * dot(q.v, w)) + cross(q.v, w) * (2 * q.r)
    for sg, cond in ((1, lambda p: p.k > 0), (-1, lambda p: p.k < 0)):
        case(P, 'pl_transform_%s%s' % ('pos' if sg > 0 else 'neg', t), 'p:PL3 q:Q k:S d:V3', 'r:PL3', 'r = p.transform(vm::translation_matrix(d) * (vm::rotation_matrix(q) * vm::scaling_matrix(vm::vec<T,3>(k, k, k))));', T=T_,
             req=lambda p, qn=qn, cond=cond: [unit(p.p.normal), qn(p.q) == 1, cond(p)], gen=lambda rng, sg=sg: ([rs(rng)] + runit(rng) + runit(rng, 4) + [Fraction(sg * rng.randint(1, 4))] + rvec(rng), []),
             opts=dict(prelemmas=lambda p, rot=rot: (lambda v: [('scaled', sqlen(v) == p.k * p.k), ('square', lambda k, s: Implies(And(k != 0, s == k * k), s > 0), [p.k, sqlen(v)]), L_sqrt(sqlen(v)), ('length', sqrt(sqlen(v)) > 0)])(rot(p.q, p.p.normal) * p.k)),
             spec=lambda p, sg=sg, rot=rot: (lambda n: Rec(distance=sg * p.k * p.p.distance + dot(p.d, n), normal=n))(rot(p.q, p.p.normal) * sg))
    case(P, 'pl_translate' + t, 'p:PL3 d:V3', 'r:PL3', 'r = p.transform(vm::translation_matrix(d));', T=T_, req=lambda p: [unit(p.p.normal)], gen=gp(1), spec=lambda p: Rec(distance=p.p.distance + dot(p.d, p.p.normal), normal=p.p.normal))
    ins = lambda v, i, x: Vec(list(v)[:i] + [x] + list(v)[i:])
    case(P, 'pl_at' + t, 'p:PL3 x:V2 a:I(0,2)', 'r:S', 'r = p.at(x, (vm::axis::type)a);', T=T_, opts=dict(enum=True, paths=True),
         ens=lambda p, o: [('at%d' % i, Implies(ieq(p.a, i), And(o.r.fin, ite(p.p.normal[i] == 0, o.r.v == 0, pd(p.p, Vec(list(p.x)[:i] + [o.r.v] + list(p.x)[i:])) == 0)))) for i in range(3)])
    for i, nm in enumerate('xyz'):
        case(P, 'pl_%sAt%s' % (nm, t), 'p:PL3 x:V2', 'r:S', 'r = p.%sAt(x);' % nm, T=T_, req=lambda p, i=i: [p.p.normal[i] != 0], ens=lambda p, o, i=i: [('on-plane', And(o.r.fin, pd(p.p, Vec(list(p.x)[:i] + [o.r.v] + list(p.x)[i:])) == 0))])
    def nrm(p): return cross(p.c - p.a, p.b - p.a)
    def okn(p, e):
        u, v, n = sqlen(p.c - p.a), sqlen(p.b - p.a), sqlen(nrm(p))
        return And(u > 0, v > 0, sqrt(n) / (sqrt(u) * sqrt(v)) >= e)
    l3 = lambda p: cross_lemmas(p.c - p.a, p.b - p.a)
    case(P, 'pl_normal' + t, 'a:V3 b:V3 c:V3 e:S', 'k:B r:V3', 'const auto r_ = vm::plane_normal(a, b, c, e); k = std::get<0>(r_); r = std::get<1>(r_);', T=T_, req=lambda p: [p.e > 0], opts=dict(paths=True, prelemmas=l3),
         ens=lambda p, o: [('accepted-iff-not-colinear', Iff(o.k, okn(p, p.e))), ('zero-if-colinear', Or(o.k, veq(o.r, [0, 0, 0])))] + [('normal%d' % i, Or(Not(o.k), o.r[i] == nrm(p)[i] / sqrt(sqlen(nrm(p))))) for i in range(3)])
    case(P, 'pl_normal_def' + t, 'a:V3 b:V3 c:V3', 'k:B r:V3', 'const auto r_ = vm::plane_normal(a, b, c); k = std::get<0>(r_); r = std::get<1>(r_);', T=T_, callee='vm::plane_normal<', lib=True, opts=dict(paths=True, only=('C24',), finite=True, prelemmas=l3),
         ens=lambda p, o: [('accepted-iff-not-colinear', Iff(o.k, okn(p, ANG))), ('zero-if-colinear', Or(o.k, veq(o.r, [0, 0, 0])))] + [('normal%d' % i, Or(Not(o.k), o.r[i] == nrm(p)[i] / sqrt(sqlen(nrm(p))))) for i in range(3)])
    fpe = lambda p, o: [('accepted-iff-not-colinear', Iff(o.k, okn(p, ANG)))] + [('contains-%s' % n, Or(Not(o.k), And(fin(o.r), pd(val(o.r), p[n]) == 0))) for n in 'abc'] + [('normal%d' % i, Or(Not(o.k), o.r.normal[i] == nrm(p)[i] / sqrt(sqlen(nrm(p))))) for i in range(3)] + \
        [('empty-if-colinear', Or(o.k, And(o.r.distance == 0, veq(o.r.normal, [0, 0, 0]))))]
    case(P, 'pl_from3' + t, 'a:V3 b:V3 c:V3', 'k:B r:PL3', 'const auto r_ = vm::from_points(a, b, c); k = std::get<0>(r_); r = std::get<1>(r_);', T=T_, opts=dict(paths=True, prelemmas=l3), ens=fpe)
    case(P, 'pl_fromrange3' + t, 'a:V3 b:V3 c:V3 d:V3 n:I(3,4)', 'k:B r:PL3', 'const vm::vec<T,3> l_[4] = {a, b, c, d}; const auto r_ = vm::from_points(l_, l_ + n); k = std::get<0>(r_); r = std::get<1>(r_);', T=T_, opts=dict(paths=True, enum=True, prelemmas=l3), ens=fpe)
    case(P, 'pl_fromrange_get' + t, 'a:V3 b:V3 c:V3', 'k:B r:PL3', 'const vm::vec<T,3> l_[3] = {a, b, c}; const int i_[3] = {0, 1, 2}; const auto r_ = vm::from_points(i_, i_ + 3, [&](const int i) { return l_[i]; }); k = std::get<0>(r_); r = std::get<1>(r_);', T=T_, opts=dict(paths=True, prelemmas=l3), ens=fpe)
    case(P, 'pl_fromrange_few' + t, 'a:V3 b:V3 n:I(0,2)', 'k:B', 'const vm::vec<T,3> l_[3] = {a, b, a}; k = std::get<0>(vm::from_points(l_, l_ + n));', T=T_, opts=dict(enum=True), ens=lambda p, o: [('rejected', Not(o.k))])
    case(P, 'pl_horizontal' + t, 'x:V3', 'r:PL3', 'r = vm::horizontal_plane(x);', T=T_, spec=lambda p: Rec(distance=p.x[2], normal=Vec([Re(0), Re(0), Re(1)])))
    case(P, 'pl_orthogonal' + t, 'x:V3 d:V3', 'r:PL3', 'r = vm::orthogonal_plane(x, d);', T=T_, req=lambda p: [sqlen(p.d) > 0], spec=lambda p: (lambda n: Rec(distance=dot(p.x, n), normal=n))(p.d / sqrt(sqlen(p.d))))
    case(P, 'pl_aligned' + t, 'x:V3 d:V3', 'r:PL3', 'r = vm::aligned_orthogonal_plane(x, d);', T=T_, opts=dict(paths=True),
         ens=lambda p, o: [('axis', Or([And([absr(p.d[i]) >= absr(y) for y in p.d] + [o.r.normal[j] == (0 if j != i else ite(p.d[i] < 0, Re(-1), Re(1))) for j in range(3)]) for i in range(3)])), ('contains-position', And(fin(o.r), pd(val(o.r), p.x) == 0))])
