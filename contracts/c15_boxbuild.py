"""C15 box construction"""
from contracts._common import *
import itertools
P = 'C15'
def valid(b): return [x <= y for x, y in zip(b.min, b.max)]
def lo(a, b): return Vec(rmin(x, y) for x, y in zip(a, b))
def hi(a, b): return Vec(rmax(x, y) for x, y in zip(a, b))
def box(a, b): return Rec(min=a, max=b)
def hull(pts):
    a = b = pts[0]
    for x in pts[1:]: a, b = lo(a, x), hi(b, x)
    return box(a, b)
def corner(b, m): return Vec(b.max[i] if (m >> i) & 1 else b.min[i] for i in range(len(b.min)))
for T_ in TS:
    t = SH[T_]
    for S in (2, 3):
        q = '%d%s' % (S, t); V = 'V%d' % S; BB = 'BB%d' % S; C = 'vm::bbox<T,%d>' % S
        k = dict(T=T_)
        W = lambda p: valid(p.a); W2 = lambda p: valid(p.a) + valid(p.b)
        case(P, 'bb_ctor' + q, 'u:%s v:%s m:S n:S' % (V, V), 'a:%s b:%s c:%s d:%s' % ((BB,) * 4), 'a = %s(u, v); b = %s(m, n); c = %s(n); d = %s();' % ((C,) * 4), req=lambda p: [x <= y for x, y in zip(p.u, p.v)] + [p.m <= p.n, p.n >= 0], **k,
             spec=lambda p, S=S: Rec(a=box(p.u, p.v), b=box(Vec([p.m] * S), Vec([p.n] * S)), c=box(Vec([-p.n] * S), Vec([p.n] * S)), d=box(Vec([Re(0)] * S), Vec([Re(0)] * S))))
        case(P, 'bb_convert' + q, 'a:' + BB, 'r:' + BB, 'const vm::bbox<%s,%d> r_(a); r = %s(r_);' % ('float' if T_ == 'double' else 'double', S, C), req=W, spec=lambda p: p.a, **k)
        case(P, 'bb_center' + q, 'a:' + BB, 'c:%s s:%s v:S' % (V, V), 'c = a.center(); s = a.size(); v = a.volume();', req=W, **k,
             spec=lambda p: (lambda s: Rec(c=(p.a.min + p.a.max) / Re(2), s=s, v=s[0] * s[1] * (s[2] if len(s) == 3 else 1)))(p.a.max - p.a.min))
        case(P, 'bb_merge' + q, 'a:%s b:%s' % (BB, BB), 'r:' + BB, 'r = vm::merge(a, b);', req=W2, callee='vm::merge<', spec=lambda p: box(lo(p.a.min, p.b.min), hi(p.a.max, p.b.max)), **k)
        case(P, 'bb_merge_pt' + q, 'a:%s x:%s' % (BB, V), 'r:' + BB, 'r = vm::merge(a, x);', req=W, callee='vm::merge<', spec=lambda p: box(lo(p.a.min, p.x), hi(p.a.max, p.x)), **k)
        case(P, 'bb_repair' + q, 'u:%s v:%s' % (V, V), 'r:' + BB, '%s a_; a_.min = u; a_.max = v; r = vm::repair(a_);' % C, spec=lambda p: box(lo(p.u, p.v), hi(p.u, p.v)), **k)
        case(P, 'bb_intersect' + q, 'a:%s b:%s' % (BB, BB), 'r:' + BB, 'r = vm::intersect(a, b);', req=W2, **k,
             ens=lambda p, o: (lambda m, n: (lambda ok: [('empty-if-disjoint', Or(ok, And([x == 0 for x in list(o.r.min) + list(o.r.max)])))] + [('common-part', Or(Not(ok), And(veq(o.r.min, m), veq(o.r.max, n))))])(And([x <= y for x, y in zip(m, n)])))(hi(p.a.min, p.b.min), lo(p.a.max, p.b.max)))
        case(P, 'bb_expand' + q, 'a:%s f:S' % BB, 'r:' + BB, 'r = a.expand(f);', req=lambda p: valid(p.a) + [p.f >= 0], spec=lambda p: box(Vec(x - p.f for x in p.a.min), Vec(x + p.f for x in p.a.max)), **k)
        case(P, 'bb_translate' + q, 'a:%s d:%s' % (BB, V), 'r:' + BB, 'r = a.translate(d);', req=W, spec=lambda p: box(p.a.min + p.d, p.a.max + p.d), **k)
        # builder: nothing, first point, first box, and the step from any state
        case(P, 'bb_builder0' + q, 'x:%s a:%s' % (V, BB), 'i:B j:B k:B r:%s s:%s' % (BB, BB), 'typename %s::builder u_, v_; i = u_.initialized(); u_.add(x); v_.add(a); j = u_.initialized(); k = v_.initialized(); r = u_.bounds(); s = v_.bounds();' % C, req=W, **k,
             ens=lambda p, o: [('initially-empty', Not(o.i)), ('initialized', And(o.j, o.k)), ('single-point', And(veq(o.r.min, p.x), veq(o.r.max, p.x))), ('single-box', And(veq(o.s.min, p.a.min), veq(o.s.max, p.a.max)))])
        case(P, 'bb_builder_step' + q, 'a:%s b:%s x:%s' % (BB, BB, V), 'r:%s s:%s j:B k:B' % (BB, BB), 'typename %s::builder u_, v_; u_.add(a); v_.add(a); u_.add(x); v_.add(b); j = u_.initialized(); k = v_.initialized(); r = u_.bounds(); s = v_.bounds();' % C, req=W2, **k,
             ens=lambda p, o: [('point-min%d' % i, o.r.min[i] == rmin(p.a.min[i], p.x[i])) for i in range(len(p.x))] + [('point-max%d' % i, o.r.max[i] == rmax(p.a.max[i], p.x[i])) for i in range(len(p.x))] +
                 [('box-min%d' % i, o.s.min[i] == rmin(p.a.min[i], p.b.min[i])) for i in range(len(p.x))] + [('box-max%d' % i, o.s.max[i] == rmax(p.a.max[i], p.b.max[i])) for i in range(len(p.x))] + [('stays-initialized', And(o.j, o.k))])
        for n in range(0, 4):
            if n:
                case(P, 'bb_merge_all%d_%s' % (n, q), 'l:A%d:%s' % (n, V), 'r:' + BB, 'r = %s::merge_all(l, l + %d);' % (C, n), spec=lambda p: hull(list(p.l)), bounded='%d points' % n, **k)
                case(P, 'bb_builder_range%d_%s' % (n, q), 'l:A%d:%s' % (n, V), 'i:B r:' + BB, 'typename %s::builder u_; u_.add(l, l + %d); i = u_.initialized(); r = u_.bounds();' % (C, n), bounded='%d points' % n, **k,
                     ens=lambda p, o: (lambda h: [('initialized', o.i)] + [('min%d' % i, o.r.min[i] == h.min[i]) for i in range(len(h.min))] + [('max%d' % i, o.r.max[i] == h.max[i]) for i in range(len(h.min))])(hull(list(p.l))))
            else:
                case(P, 'bb_builder_none_' + q, '', 'i:B', 'typename %s::builder u_; const vm::vec<T,%d>* l_ = nullptr; u_.add(l_, l_); i = u_.initialized();' % (C, S), ens=lambda p, o: [('uninitialized', Not(o.i))], **k)
    W = lambda p: valid(p.a); C = 'vm::bbox<T,3>'; k = dict(T=T_)
    case(P, 'bb_corner' + t, 'a:BB3 x:B y:B z:B', 'r:V3', 'using K_ = %s::Corner; r = a.corner(x ? K_::max : K_::min, y ? K_::max : K_::min, z ? K_::max : K_::min);' % C, req=W, spec=lambda p: Vec(ite(c, h, l) for c, l, h in zip((p.x, p.y, p.z), p.a.min, p.a.max)), **k)
    case(P, 'bb_vertices' + t, 'a:BB3', 'l:A8:V3 m:A8:V3 n:I', 'n = 0; a.for_each_vertex([&](const vm::vec<T,3>& v_) { if (n < 8) l[n] = v_; ++n; }); const auto r_ = a.vertices(); for (int i_ = 0; i_ < 8; ++i_) m[i_] = r_[i_];', req=W, **k,
         ens=lambda p, o: [('eight', ieq(o.n, 8))] + [('%s-corner%d' % (nm, m), Or([veq(x, corner(p.a, m)) for x in o[ky]])) for nm, ky in (('visits', 'l'), ('lists', 'm')) for m in range(8)])
    EDG = [(m, m | (1 << i)) for m in range(8) for i in range(3) if not (m >> i) & 1]
    case(P, 'bb_edges' + t, 'a:BB3', 'l:A12:V3 m:A12:V3 n:I', 'n = 0; a.for_each_edge([&](const vm::vec<T,3>& u_, const vm::vec<T,3>& v_) { if (n < 12) { l[n] = u_; m[n] = v_; } ++n; });', req=W, **k,
         ens=lambda p, o, EDG=EDG: [('twelve', ieq(o.n, 12))] + [('edge%d-%d' % (u, v), Or([Or(And(veq(x, corner(p.a, u)), veq(y, corner(p.a, v))), And(veq(x, corner(p.a, v)), veq(y, corner(p.a, u)))) for x, y in zip(o.l, o.m)])) for u, v in EDG])
    # corners of each face clockwise seen from outside
    def face(ax, sg):
        u, v = (ax + 1) % 3, (ax + 2) % 3
        s = (1 << ax) if sg > 0 else 0
        l = [s | (1 << u) | (1 << v), s | (1 << u), s, s | (1 << v)]      # u,v both high; v low; both low; u low  -> clockwise about +ax
        return l if sg > 0 else l[::-1]
    def facesens(p, o):
        g = [('six', ieq(o.n, 6))]
        for ax in range(3):
            for sg in (1, -1):
                f = face(ax, sg); N = [sg if i == ax else 0 for i in range(3)]
                g.append(('face-%s%s' % ('+' if sg > 0 else '-', 'xyz'[ax]), Or([And(veq(o.w[j], N), Or([And([veq(o[nm][j], corner(p.a, f[(r + i) % 4])) for i, nm in enumerate('bcde')]) for r in range(4)])) for j in range(6)])))
        return g
    case(P, 'bb_faces' + t, 'a:BB3', 'b:A6:V3 c:A6:V3 d:A6:V3 e:A6:V3 w:A6:V3 n:I', 'n = 0; a.for_each_face([&](const vm::vec<T,3>& b_, const vm::vec<T,3>& c_, const vm::vec<T,3>& d_, const vm::vec<T,3>& e_, const vm::vec<T,3>& w_) { if (n < 6) { b[n] = b_; c[n] = c_; d[n] = d_; e[n] = e_; w[n] = w_; } ++n; });', req=W, ens=facesens, **k)
    def aff(m, v): return Vec(dot(list(m[i])[:3], v) + m[i][3] for i in range(3))
    def tens(p, o):
        g = [('finite', fin(o.r))]
        for i in range(3):
            g += [('contains-corner%d-%d' % (m, i), And(o.r.min[i].v <= aff(p.m, corner(p.a, m))[i], aff(p.m, corner(p.a, m))[i] <= o.r.max[i].v)) for m in range(8)]
            g += [('tight-min%d' % i, Or([o.r.min[i] == aff(p.m, corner(p.a, m))[i] for m in range(8)])), ('tight-max%d' % i, Or([o.r.max[i] == aff(p.m, corner(p.a, m))[i] for m in range(8)]))]
        return g
    case(P, 'bb_transform' + t, 'a:BB3 m:M4x4', 'r:BB3', 'r = a.transform(m);', req=lambda p: valid(p.a) + [p.m[3][j] == (1 if j == 3 else 0) for j in range(4)], ens=tens, opts=dict(weight=5),
         gen=lambda rng: (lambda a, d: (a + [x + abs(y) for x, y in zip(a, d)] + rvec(rng, 12) + [Fraction(x) for x in (0, 0, 0, 1)], []))(rvec(rng), rvec(rng)), **k)
