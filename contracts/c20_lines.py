"""C20 lines, rays, segments and polygons as point sets"""
from contracts._common import *
P = 'C20'
EPS = Fraction(1, 10000)
def lexlt(a, b):
    r = FALSE
    for x, y in reversed(list(zip(a, b))): r = Or(x < y, And(x == y, r))
    return r
def lexc(a, b): return Ite(lexlt(a, b), I(-1, 64), Ite(lexlt(b, a), I(1, 64), I(0, 64)))
def sign(o, lt, gt): return And(Iff(icmp('slt', o, I(0, 64)), lt), Iff(icmp('slt', I(0, 64), o), gt))
def aff(m, v):
    n = len(v); h = mvec(m, Vec(list(v) + [Re(1)])); return Vec(x / h[n] for x in h[:n])
def lin(m, v): n = len(v); return Vec(dot(list(m[i])[:n], v) for i in range(n))
def affm(p, S): return [p.m[S][j] == (1 if j == S else 0) for j in range(S + 1)]
def gm(rng, S): return rvec(rng, S * (S + 1), 3) + [Fraction(0)] * S + [Fraction(1)]
def order(a, b): return ite(lexlt(a, b), Vec(a), Vec(b)), ite(lexlt(a, b), Vec(b), Vec(a))
def samepts(a, b, c, d): return Or(And(veq(a, c), veq(b, d)), And(veq(a, d), veq(b, c)))
def L_sq(n): return ('sq', lambda n: Implies(n > 0, sqrt(n * n) == n), [n])
def conl(p):
    u, x = p.u, p.u + p.d * p.s + p.w; z = (p.u + p.d * p.n) - p.u; g = z / sqrt(sqlen(z)); f = dot(x - u, g); y = u + g * f
    return [('normal%d' % i, g[i] == p.d[i]) for i in range(len(g))] + [('position', f == p.s)] + [('foot%d' % i, y[i] - x[i] == -p.w[i]) for i in range(len(g))] + [('aside', sqlen(y - x) == sqlen(p.w))]
def near_(a, b, e): return And([absr(x - y) <= e for x, y in zip(a, b)])
for T_ in TS:
    t = SH[T_]; U_ = 'float' if T_ == 'double' else 'double'
    for S in (2, 3):
        q = '%d%s' % (S, t); k = dict(T=T_); V = 'V%d' % S; L = 'LINE%d' % S; RY = 'RAY%d' % S; SG = 'SEG%d' % S; M = 'M%dx%d' % (S + 1, S + 1)
        # lines
        gl = lambda rng, S=S: (rvec(rng, S) + runit(rng, S), [])
        case(P, 'line_canon' + q, 'l:' + L, 'r:' + L, 'r = l.make_canonical();', req=lambda p: [unit(p.l.direction)], gen=gl, **k,
             ens=lambda p, o: [('finite', fin(o.r)), ('orthogonal', dot(val(o.r.point), val(o.r.direction)) == 0), ('on-line', veq(o.r.point, p.l.point - p.l.direction * dot(p.l.point, p.l.direction))),
                 ('direction', Or(veq(o.r.direction, p.l.direction), veq(o.r.direction, -p.l.direction))), ('sign', Or([And([o.r.direction[j] == 0 for j in range(i)] + [o.r.direction[i] > 0]) for i in range(len(p.l.direction))]))])
        # two lines described by a shared point pair: b is any line; the same point set iff parallel and b's point on a
        def same(p):
            w = p.b.point - p.a.point; c = dot(w, p.a.direction)
            return And(Or(veq(p.b.direction, p.a.direction), veq(p.b.direction, -p.a.direction)), veq(w, p.a.direction * c))
        def g2(rng, S=S):
            a, d = rvec(rng, S), runit(rng, S)
            if rng.random() < 0.5: return (a + d + rvec(rng, S) + runit(rng, S), [])
            s, f = rs(rng), rng.choice([1, -1])
            return (a + d + [x + s * y for x, y in zip(a, d)] + [f * y for y in d], [])
        case(P, 'line_eq' + q, 'a:%s b:%s' % (L, L), 'e:B n:B', 'e = a == b; n = a != b;', req=lambda p: [unit(p.a.direction), unit(p.b.direction)], gen=g2, **k,
             ens=lambda p, o, same=same: [('equal-iff-same', Iff(o.e, same(p))), ('unequal-iff-different', Iff(o.n, Not(same(p))))])
        case(P, 'line_is_equal' + q, 'a:%s b:%s e:S' % (L, L), 'r:B', 'r = vm::is_equal(a, b, e);', req=lambda p: [p.e >= 0], spec=lambda p: And(near_(p.a.point, p.b.point, p.e), near_(p.a.direction, p.b.direction, p.e)), **k)
        case(P, 'ray_eq' + q, 'a:%s b:%s e:S' % (RY, RY), 'r:B s:B u:B', 'r = vm::is_equal(a, b, e); s = a == b; u = a != b;', req=lambda p: [p.e >= 0],
             spec=lambda p: (lambda x: Rec(r=And(near_(p.a.origin, p.b.origin, p.e), near_(p.a.direction, p.b.direction, p.e)), s=x, u=Not(x)))(And(veq(p.a.origin, p.b.origin), veq(p.a.direction, p.b.direction))), **k)
        for nm, K, C, fo in (('line', L, 'vm::line<%s,%d>', 'point'), ('ray', RY, 'vm::ray<%s,%d>', 'origin')):
            case(P, nm + '_ctor' + q, 'u:%s v:%s a:%s' % (V, V, K), 'r:%s s:%s w:%s x:%s y:%s' % (K, K, K, V, V), 'r = %s(u, v); s = %s(); const %s w_(a); w = %s(w_); x = a.get_origin(); y = a.get_direction();' % (C % ('T', S), C % ('T', S), C % (U_, S), C % ('T', S)), **k,
                 spec=lambda p, fo=fo, S=S: Rec(r=Rec({fo: p.u, 'direction': p.v}), s=Rec({fo: Vec([Re(0)] * S), 'direction': Vec([Re(0)] * S)}), w=p.a, x=p.a[fo], y=p.a.direction))
            case(P, nm + '_transform' + q, 'a:%s m:%s' % (K, M), 'r:' + K, 'r = a.transform(m);', req=lambda p, S=S: affm(p, S) + [sqlen(lin(p.m, p.a.direction)) != 0], gen=lambda rng, S=S: (rvec(rng, S) + runit(rng, S) + gm(rng, S), []), **k,
                 opts=dict(prelemmas=lambda p: [L_sqlen(*lin(p.m, p.a.direction)), L_sqrt(sqlen(lin(p.m, p.a.direction)))]),
                 ens=lambda p, o, fo=fo: (lambda d, n: [('origin', veq(o.r[fo], aff(p.m, p.a[fo]))), ('finite', fin(o.r))] + [('direction%d' % i, o.r.direction[i] * n == d[i]) for i in range(len(d))])(lin(p.m, p.a.direction), sqrt(sqlen(lin(p.m, p.a.direction)))))
            case(P, nm + '_project' + q, 'a:%s x:%s s:S' % (K, V), 'd:S y:%s z:%s' % (V, V), 'd = vm::distance_to_projected_point(a, x); y = vm::point_at_distance(a, s); z = vm::project_point(a, x);', **k, gen=lambda rng, S=S: (rvec(rng, S) + runit(rng, S) + rvec(rng, S) + [rs(rng)], []), req=lambda p: [unit(p.a.direction)],
                 ens=lambda p, o, fo=fo: [('distance', o.d == dot(p.x - p.a[fo], p.a.direction)), ('point', veq(o.y, p.a[fo] + p.a.direction * p.s)), ('projection', veq(o.z, p.a[fo] + p.a.direction * o.d.v)), ('orthogonal', dot(p.x - val(o.z), p.a.direction) == 0)])
            case(P, nm + '_dtp' + q, 'a:%s x:%s' % (K, V), 'd:S', 'd = vm::distance_to_projected_point(a, x);', callee='vm::distance_to_projected_point<', spec=lambda p, fo=fo: dot(p.x - p.a[fo], p.a.direction), **k)
            case(P, nm + '_pat' + q, 'a:%s s:S' % K, 'y:' + V, 'y = vm::point_at_distance(a, s);', callee='vm::point_at_distance<', spec=lambda p, fo=fo: p.a[fo] + p.a.direction * p.s, **k)
        case(P, 'ray_status' + q, 'a:%s x:%s' % (RY, V), 'r:I', 'using E_ = vm::plane_status; const auto r_ = a.point_status(x); r = r_ == E_::above ? 1 : r_ == E_::below ? -1 : r_ == E_::inside ? 0 : 7;', **k,
             spec=lambda p, T_=T_: (lambda s, e: iite(s > e, 1, iite(s < -e, -1, 0)))(dot(p.a.direction, p.x - p.a.origin), EPS))
        # segments
        gs = lambda rng, S=S: (rvec(rng, S, 3) + rvec(rng, S, 3), [])
        nz = lambda p: [sqlen(p.a.b - p.a.a) != 0]
        sl = lambda p: [L_sqlen(*(p.a.b - p.a.a)), L_sqrt(sqlen(p.a.b - p.a.a))]
        case(P, 'seg_ctor' + q, 'u:%s v:%s' % (V, V), 'a:%s b:%s x:%s' % (V, V, V), 'const vm::segment<T,%d> s_(u, v); a = s_.start(); b = s_.end(); x = s_.get_origin();' % S, spec=lambda p: (lambda o: Rec(a=o[0], b=o[1], x=o[0]))(order(p.u, p.v)), **k)
        case(P, 'seg_swap' + q, 'u:%s v:%s' % (V, V), 'e:B n:B i:B', 'const vm::segment<T,%d> s_(u, v), t_(v, u); e = s_ == t_; n = s_ != t_; i = vm::is_equal(s_, t_, T(0));' % S, spec=lambda p: Rec(e=TRUE, n=FALSE, i=TRUE), **k)
        case(P, 'seg_ops' + q, 'a:%s b:%s' % (SG, SG), 'c:I e:B n:B lt:B le:B gt:B ge:B', 'c = vm::compare(a, b); e = a == b; n = a != b; lt = a < b; le = a <= b; gt = a > b; ge = a >= b;', gen=lambda rng, S=S: ([Fraction(rng.randint(0, 1)) for _ in range(4 * S)], []), **k,
             ens=lambda p, o: (lambda a, b: (lambda lt, gt: [('sign', sign(o.c, lt, gt)), ('equal-iff-same-ends', Iff(o.e, samepts(p.a.a, p.a.b, p.b.a, p.b.b))), ('unequal', Iff(o.n, Not(o.e))), ('less', Iff(o.lt, lt)), ('less-equal', Iff(o.le, Not(gt))), ('greater', Iff(o.gt, gt)), ('greater-equal', Iff(o.ge, Not(lt)))])(
                 lexlt(list(a[0]) + list(a[1]), list(b[0]) + list(b[1])), lexlt(list(b[0]) + list(b[1]), list(a[0]) + list(a[1]))))(order(p.a.a, p.a.b), order(p.b.a, p.b.b)))
        case(P, 'seg_measure' + q, 'a:' + SG, 'l:S s:S c:' + V, 'l = a.length(); s = a.squared_length(); c = a.center();', gen=gs, spec=lambda p: Rec(l=sqrt(sqlen(p.a.b - p.a.a)), s=sqlen(p.a.b - p.a.a), c=(p.a.a + p.a.b) / Re(2)), **k)
        case(P, 'seg_direction' + q, 'a:' + SG, 'd:%s e:%s' % (V, V), 'd = a.direction(); e = a.get_direction();', gen=gs, req=nz, opts=dict(prelemmas=sl), **k,
             ens=lambda p, o: (lambda s, e, n: [('finite', fin(o.d))] + [('points-to-end%d' % i, s[i] + o.d[i] * n == e[i]) for i in range(len(s))] + [('same', veq(o.e, val(o.d)))])(*order(p.a.a, p.a.b), sqrt(sqlen(p.a.b - p.a.a))))
        case(P, 'seg_transform' + q, 'a:%s m:%s' % (SG, M), 'r:' + SG, 'r = a.transform(m);', req=lambda p, S=S: affm(p, S), gen=lambda rng, S=S: (rvec(rng, S, 3) + rvec(rng, S, 3) + gm(rng, S), []), **k,
             spec=lambda p: (lambda u, v: (lambda o: Rec(a=o[0], b=o[1]))(order(u, v)))(aff(p.m, p.a.a), aff(p.m, p.a.b)))
        case(P, 'seg_translate' + q, 'a:%s d:%s' % (SG, V), 'r:%s s:%s' % (SG, SG), 'r = a.translate(d); s = vm::translate(a, d);', spec=lambda p: (lambda o: Rec(r=o, s=o))((lambda u, v: Rec(a=u + p.d, b=v + p.d))(*order(p.a.a, p.a.b))), **k)
        case(P, 'seg_project' + q, 'a:%s x:%s s:S' % (SG, V), 'd:S y:%s z:%s' % (V, V), 'd = vm::distance_to_projected_point(a, x); y = vm::point_at_distance(a, s); z = vm::project_point(a, x);', req=nz, opts=dict(prelemmas=sl), gen=lambda rng, S=S: (rvec(rng, 3 * S, 3) + [rs(rng)], []), **k,
             ens=lambda p, o: (lambda s, e, n: [('distance', o.d * n == dot(p.x - s, e - s)), ('finite', And(fin(o.y), fin(o.z)))] + [('point%d' % i, (o.y[i] - s[i]) * n == (e[i] - s[i]) * p.s) for i in range(len(s))] + [('projection%d' % i, (o.z[i] - s[i]) * n == (e[i] - s[i]) * o.d.v) for i in range(len(s))])(*order(p.a.a, p.a.b), sqrt(sqlen(p.a.b - p.a.a))))
        case(P, 'seg_vertices' + q, 'l:A2:' + SG, 'r:A4:%s n:I' % V, 'std::vector<vm::vec<T,%d>> v_; vm::segment<T,%d>::get_vertices(l, l + 2, std::back_inserter(v_)); n = (long)v_.size(); for (int i_ = 0; i_ < 4 && i_ < n; ++i_) r[i_] = v_[i_];' % (S, S), bounded='2 segments', **k,
             spec=lambda p: Rec(n=I(4, 64), r=Vec(list(order(p.l[0].a, p.l[0].b)) + list(order(p.l[1].a, p.l[1].b)))))
        # containment of the point start + s * direction + w with w orthogonal to the direction
        case(P, 'seg_contains' + q, 'u:%s d:%s n:S s:S w:%s e:S' % (V, V, V), 'r:B', 'r = vm::segment<T,%d>(u, u + n * d).contains(u + s * d + w, e);' % S, req=lambda p: [unit(p.d), p.n > 0, dot(p.w, p.d) == 0, p.e >= 0, lexlt([Re(0)] * len(p.d), p.d)],
             gen=lambda rng, S=S: (lambda d, w: (rvec(rng, S) + d + [abs(rs(rng)) + 1, rs(rng)] + [x - dd * sum(y * z for y, z in zip(w, d)) for x, dd in zip(w, d)] + [abs(rs(rng, 3))], []))(runit(rng, S), rvec(rng, S, 1)),
             opts=dict(paths=True, prelemmas=lambda p: [('pos%d' % i, lambda n, d: Implies(n > 0, And(Iff(d > 0, n * d > 0), Iff(d == 0, n * d == 0))), [p.n, x]) for i, x in enumerate(p.d)] + [('length', sqlen(p.d * p.n) == p.n * p.n), L_sq(p.n), ('root', sqrt(sqlen(p.d * p.n)) == p.n), ('square', lambda s, n, e: Implies(And(n > 0, e >= 0), And(Implies(And(s >= 0, s <= n), s * s <= n * n + e * e), Implies(s > n + e, s * s > n * n + e * e))), [p.s, p.n, p.e]), *conl(p)]), **k,
             ens=lambda p, o: [('contains-near', Implies(And(p.s >= 0, p.s <= p.n, sqlen(p.w) <= p.e * p.e), o.r)), ('excludes-aside', Implies(sqlen(p.w) > p.e * p.e, Not(o.r))), ('excludes-beyond', Implies(Or(p.s < -p.e, p.s > p.n + p.e), Not(o.r)))])
        # narrowing keeps the end points ordered
        if T_ == 'double':
            case(P, 'seg_narrow' + q, 'u:%s v:%s' % (V, V), 'a:%s b:%s e:B' % (V, V), 'const vm::segment<float,%d> s_(vm::segment<double,%d>(u, v)); a = vm::vec<T,%d>(s_.start()); b = vm::vec<T,%d>(s_.end()); e = s_ == vm::segment<float,%d>(vm::vec<float,%d>(u), vm::vec<float,%d>(v));' % ((S,) * 7), mode='F', **k,
                 req=lambda p: [x.isfin for x in list(p.u) + list(p.v)], ens=lambda p, o: [('ordered', Not(lexlt(o.b, o.a))), ('same-as-narrowed-points', o.e)])
        # polygons
        def distinct(l): return [Not(veq(l[i], l[j])) for i in range(len(l)) for j in range(i)]
        def rot(l, r): return list(l[r:]) + list(l[:r])
        def first(l): return [And([Not(lexlt(l[j], l[r])) for j in range(len(l)) if j != r]) for r in range(len(l))]
        def canon(l):
            """rotation that brings the least vertex to the front"""
            r = Vec(rot(l, len(l) - 1))
            for i in reversed(range(len(l) - 1)): r = ite(first(l)[i], Vec(rot(l, i)), r)
            return r
        def rotof(a, b): return Or([And([veq(x, y) for x, y in zip(a, rot(b, r))]) for r in range(len(b))])
        for n in (1, 2, 3, 4):
            if n == 4 and S == 3: continue
            nq = '%d_%s' % (n, q); A = 'A%d:%s' % (n, V); PG = 'vm::polygon<T,%d>' % S; bd = dict(bounded='%d vertices' % n, **k); po = dict(opts=dict(paths=True, forkidx=True, weight=3))
            mk = 'std::vector<vm::vec<T,%d>> v_(l, l + %d); const %s p_(v_); ' % (S, n, PG)
            gp = lambda rng, n=n, S=S: ([Fraction(rng.randint(0, 2)) for _ in range(n * S)], [])
            D = lambda p: distinct(p.l)
            get = 'n = (long)p_.vertexCount(); for (int i_ = 0; i_ < %d && i_ < n; ++i_) r[i_] = p_.vertices()[i_];' % n
            case(P, 'poly_ctor' + nq, 'l:' + A, 'r:%s n:I' % A, mk + get, req=D, gen=gp, **bd, **po, spec=lambda p, n=n: Rec(r=canon(p.l), n=I(n, 64)))
            case(P, 'poly_center' + nq, 'l:' + A, 'c:' + V, mk + 'c = p_.center();', req=D, gen=gp, **bd, **po, spec=lambda p, n=n: sum(p.l[1:], p.l[0]) / Re(n))
            case(P, 'poly_has' + nq, 'l:%s x:%s' % (A, V), 'h:B', mk + 'h = p_.hasVertex(x);', req=D, **bd, **po, spec=lambda p: Or([veq(x, p.x) for x in p.l]))
            case(P, 'poly_invert' + nq, 'l:' + A, 'r:%s n:I' % A, mk.replace('p_(', 'q_(') + 'const auto p_ = q_.invert(); ' + get, req=D, gen=gp, **bd, **po, spec=lambda p, n=n: Rec(r=(lambda c: Vec([c[0]] + list(c[:0:-1])))(canon(p.l)), n=I(n, 64)))
            case(P, 'poly_translate' + nq, 'l:%s d:%s' % (A, V), 'r:%s n:I' % A, mk.replace('p_(', 'q_(') + 'const auto p_ = q_.translate(d); ' + get, req=D, **bd, **po, spec=lambda p, n=n: Rec(r=Vec(x + p.d for x in canon(p.l)), n=I(n, 64)))
            case(P, 'poly_iter' + nq, 'l:' + A, 'r:%s s:%s a:I b:I' % (A, A), mk + 'a = 0; for (const auto& x_ : p_) { if (a < %d) r[a] = x_; ++a; } b = 0; for (auto i_ = p_.rbegin(); i_ != p_.rend(); ++i_) { if (b < %d) s[b] = *i_; ++b; }' % (n, n), req=D, gen=gp, **bd, **po, spec=lambda p, n=n: (lambda c: Rec(r=c, s=Vec(c[::-1]), a=I(n, 64), b=I(n, 64)))(canon(p.l)))
            if n > 1 and n < 4:
                mk2 = mk + 'std::vector<vm::vec<T,%d>> w_(m, m + %d); const %s q_(w_); ' % (S, n, PG)
                g2 = lambda rng, n=n, S=S: ([Fraction(rng.randint(0, 1)) for _ in range(2 * n * S)], [])
                case(P, 'poly_eq' + nq, 'l:%s m:%s' % (A, A), 'e:B d:B i:B', mk2 + 'e = p_ == q_; d = p_ != q_; i = vm::isEqual(p_, q_, T(0));', req=lambda p: distinct(p.l) + distinct(p.m), gen=g2, **bd, **po,
                     ens=lambda p, o: [('equal-iff-rotated', Iff(o.e, rotof(p.l, p.m))), ('unequal', Iff(o.d, Not(o.e))), ('is-equal', Iff(o.i, o.e))])
                case(P, 'poly_unoriented' + nq, 'l:%s m:%s' % (A, A), 'c:I', mk2 + 'c = vm::compareUnoriented(p_, q_);', req=lambda p: distinct(p.l) + distinct(p.m), gen=g2, **bd, **po,
                     ens=lambda p, o: [('zero-iff-same-up-to-direction', Iff(ieq(o.c, 0), Or(rotof(p.l, p.m), rotof(p.l, Vec(p.m[::-1])))))])
