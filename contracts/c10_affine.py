"""C10 affine and projective matrices"""
from contracts._common import *
P = 'C10'
def mz(n, f): return Vec(Vec(Re.of(f(i, j)) for j in range(n)) for i in range(n))
def i32(x): return Re(mk('i2r', (icast('trunc', x, 32),), 'R'))
def kd(i, j): return 1 if i == j else 0
def hom(v): return Vec(list(v) + [Re(1)])
for T_ in TS:
    t = SH[T_]
    for S in (2, 3):
        M = 'M%dx%d' % (S + 1, S + 1); V = 'V%d' % S; q = '%d%s' % (S, t)
        case(P, 'translation' + q, 'd:' + V, 'r:' + M, 'r = vm::translation_matrix(d);', T=T_, callee='vm::translation_matrix<', spec=lambda p, S=S: mz(S + 1, lambda i, j: p.d[i] if j == S and i < S else kd(i, j)))
        case(P, 'translate_point' + q, 'd:%s v:%s' % (V, V), 'r:' + V, 'r = vm::translation_matrix(d) * v;', T=T_, spec=lambda p: p.v + p.d)
        case(P, 'translation_of' + q, 'm:' + M, 'r:' + M, 'r = vm::translation_matrix(m);', T=T_, callee='vm::translation_matrix<', spec=lambda p, S=S: mz(S + 1, lambda i, j: p.m[i][j] if j == S and i < S else kd(i, j)))
        case(P, 'strip' + q, 'm:' + M, 'r:' + M, 'r = vm::strip_translation(m);', T=T_, callee='vm::strip_translation<', spec=lambda p, S=S: mz(S + 1, lambda i, j: 0 if j == S and i < S else p.m[i][j]))
        case(P, 'scaling' + q, 'd:' + V, 'r:' + M, 'r = vm::scaling_matrix(d);', T=T_, callee='vm::scaling_matrix<', spec=lambda p, S=S: mz(S + 1, lambda i, j: (p.d[i] if i < S else 1) if i == j else 0))
        case(P, 'scale_point' + q, 'd:%s v:%s' % (V, V), 'r:' + V, 'r = vm::scaling_matrix(d) * v;', T=T_, spec=lambda p: p.v * p.d)
        case(P, 'decompose' + q, 'm:' + M, 'r:' + M, 'r = vm::translation_matrix(m) * vm::strip_translation(m);', T=T_, req=lambda p, S=S: [p.m[S][j] == kd(S, j) for j in range(S + 1)],
             spec=lambda p: p.m)
    for k, nm in enumerate('xyz'):
        case(P, 'mirror_%s%s' % (nm, t), 'v:V3', 'r:V3', 'r = vm::mirror_matrix<T>(vm::axis::%s) * v;' % nm, T=T_, spec=lambda p, k=k: Vec(-p.v[i] if i == k else p.v[i] for i in range(3)))
    case(P, 'mirror_dyn' + t, 'a:I(0,9)', 'r:M4x4', 'r = vm::mirror_matrix<T>((vm::axis::type)a);', T=T_, spec=lambda p: mz(4, lambda i, j: (ite(ieq(p.a, i), Re(-1), Re(1)) if i < 3 else 1) if i == j else 0))
    sh = 'Sxy:S Sxz:S Syx:S Syz:S Szx:S Szy:S'
    case(P, 'shear' + t, sh + ' v:V3', 'r:V3 m:M4x4', 'm = vm::shear_matrix(Sxy, Sxz, Syx, Syz, Szx, Szy); r = m * v;', T=T_,
         spec=lambda p: Rec(r=Vec([p.v[0] + p.Syx * p.v[1] + p.Szx * p.v[2], p.v[1] + p.Sxy * p.v[0] + p.Szy * p.v[2], p.v[2] + p.Sxz * p.v[0] + p.Syz * p.v[1]]),
                            m=Vec([Vec([Re(1), p.Syx, p.Szx, Re(0)]), Vec([p.Sxy, Re(1), p.Szy, Re(0)]), Vec([p.Sxz, p.Syz, Re(1), Re(0)]), Vec(map(Re, (0, 0, 0, 1)))])))
    fo = dict(forkidx=True, prune=False)
    case(P, 'coordsys' + t, 'x:V3 y:V3 z:V3 o:V3', 'k:B r:M4x4',
         'k = std::get<0>(vm::invert(vm::mat<T,4,4>(x[0], y[0], z[0], o[0], x[1], y[1], z[1], o[1], x[2], y[2], z[2], o[2], 0, 0, 0, 1))); r = vm::coordinate_system_matrix(x, y, z, o);', T=T_, opts=fo,
         ens=lambda p, o: [('frame-to-standard%d%d' % (i, j), Implies(o.k, And(fin(o.r), dot(val(o.r)[i], hom(p.o) if j == 3 else Vec(list([p.x, p.y, p.z][j]) + [Re(0)])) == kd(i, j)))) for i in range(4) for j in range(4)])
    case(P, 'coordsys_rel' + t, 'x:V3 y:V3 z:V3 o:V3', 'r:M4x4', 'r = vm::coordinate_system_matrix(x, y, z, o);', T=T_, opts=fo, lib=True, callee='vm::coordinate_system_matrix<',
         ens=lambda p, o: [('finite', fin(o.r))] + [('frame-to-standard%d%d' % (i, j), Or(And(meq(val(o.r), ident(4))), dot(val(o.r)[i], hom(p.o) if j == 3 else Vec(list([p.x, p.y, p.z][j]) + [Re(0)])) == kd(i, j))) for i in range(4) for j in range(4)])
    def nz(v): return [x != 0 for x in v]
    def osz(p): return p.o.max - p.o.min
    case(P, 'scalebox' + t, 'o:BB3 n:BB3 v:V3', 'r:V3 m:M4x4', 'm = vm::scale_bbox_matrix(o, n); r = m * v;', T=T_, req=lambda p: nz(osz(p)),
         spec=lambda p: (lambda f: Rec(r=p.n.min + (p.v - p.o.min) * f, m=mz(4, lambda i, j: kd(i, j) if i == 3 else (p.n.min[i] - f[i] * p.o.min[i] if j == 3 else (f[i] if i == j else 0)))))((p.n.max - p.n.min) / osz(p)))
    case(P, 'scaleanchor' + t, 'o:BB3 s:V3 a:V3 v:V3', 'r:V3 m:M4x4', 'm = vm::scale_bbox_matrix_with_anchor(o, s, a); r = m * v;', T=T_, req=lambda p: nz(osz(p)),
         spec=lambda p: (lambda f: Rec(r=p.a + (p.v - p.a) * f, m=mz(4, lambda i, j: kd(i, j) if i == 3 else (p.a[i] - f[i] * p.a[i] if j == 3 else (f[i] if i == j else 0)))))(p.s / osz(p)))
    for ax in range(3):
        for sg in (1, -1):
            nm = ('pos_' if sg > 0 else 'neg_') + 'xyz'[ax]
            def sp(p, ax=ax, sg=sg):
                f = (p.v[ax] - p.b.min[ax]) / (p.b.max[ax] - p.b.min[ax]) if sg > 0 else (p.b.max[ax] - p.v[ax]) / (p.b.max[ax] - p.b.min[ax])
                return Vec(p.v[i] if i == ax else p.v[i] + p.d[i] * f for i in range(3))
            case(P, 'shearbox_%s%s' % (nm, t), 'b:BB3 d:V3 v:V3', 'r:V3', 'r = vm::shear_bbox_matrix(b, vm::vec<T,3>::%s(), d) * v;' % nm, T=T_, req=lambda p: nz(p.b.max - p.b.min), spec=sp)
    case(P, 'view' + t, 'd:V3 u:V3', 'r:M4x4', 'r = vm::view_matrix(d, u);', T=T_, callee='vm::view_matrix<',
         spec=lambda p: (lambda s: (lambda u: Vec([Vec(list(s) + [Re(0)]), Vec(list(u) + [Re(0)]), Vec([-x for x in p.d] + [Re(0)]), Vec(map(Re, (0, 0, 0, 1)))]))(cross(s, p.d)))(cross(p.d, p.u)))
    def dg(rows): return Vec(Vec(Re.of(x) for x in r) for r in rows)
    case(P, 'ortho' + t, 'n:S f:S l:S tp:S rt:S b:S', 'r:M4x4', 'r = vm::ortho_matrix(n, f, l, tp, rt, b);', T=T_, req=lambda p: [p.rt != p.l, p.tp != p.b, p.f != p.n],
         spec=lambda p: dg([[2 / (p.rt - p.l), 0, 0, -(p.l + p.rt) / (p.rt - p.l)], [0, 2 / (p.tp - p.b), 0, -(p.tp + p.b) / (p.tp - p.b)], [0, 0, -2 / (p.f - p.n), -(p.f + p.n) / (p.f - p.n)], [0, 0, 0, 1]]))
    case(P, 'persp' + t, 'fov:S n:S f:S w:I32 h:I32', 'r:M4x4', 'r = vm::perspective_matrix(fov, n, f, w, h);', T=T_, opts=dict(PIOPT),
         req=lambda p: [p.f != p.n, p.n > 0, icmp('slt', I(0, 64), p.w), icmp('slt', I(0, 64), p.h), icmp('slt', p.w, I(1 << 20, 64)), icmp('slt', p.h, I(1 << 20, 64)), sin(p.fov * PIR / 360) > 0, cos(p.fov * PIR / 360) > 0],
         gen=lambda rng: ([Fraction(rng.randint(20, 120)), Fraction(rng.randint(1, 8)), Fraction(rng.randint(9, 100))], [rng.randint(1, 2000), rng.randint(1, 2000)]),
         spec=lambda p: (lambda v, asp: dg([[p.n / (v * asp), 0, 0, 0], [0, p.n / v, 0, 0], [0, 0, -(p.f + p.n) / (p.f - p.n), -2 * p.f * p.n / (p.f - p.n)], [0, 0, -1, 0]]))(
             sin(p.fov * PIR / 360) / cos(p.fov * PIR / 360) * Fraction(3, 4) * p.n, i32(p.w) / i32(p.h)))
for T_ in TS:
    t = SH[T_]
    fo = dict(forkidx=True, prune=False)
    nanm = lambda o: allnan([x for r in o.r for x in r])
    case(P, 'points8' + t, 'a:V3 b:V3 c:V3 d:V3 e:V3 f:V3 g:V3 h:V3', 'r:M4x4', 'r = vm::points_transformation_matrix(a, b, c, d, e, f, g, h);', T=T_, opts=dict(fo, weight=9), lib=True, callee='vm::points_transformation_matrix<',
         ens=lambda p, o: [('affine', Or(nanm(o), And(fin(o.r), veq(val(o.r)[3], [0, 0, 0, 1]))))] + [('maps-%s%d' % (i, k), Or(nanm(o), dot(val(o.r)[k], hom(p[i])) == p[j][k])) for i, j in zip('abcd', 'efgh') for k in range(3)])
    case(P, 'points6' + t, 'a:V3 b:V3 c:V3 e:V3 f:V3 g:V3', 'r:M4x4', 'r = vm::points_transformation_matrix(a, b, c, e, f, g);', T=T_,
         req=lambda p: [Or([x != 0 for x in cross(p.b - p.a, p.c - p.a)]), Or([x != 0 for x in cross(p.f - p.e, p.g - p.e)])],
         ens=lambda p, o: [('affine', Or(nanm(o), And(fin(o.r), veq(val(o.r)[3], [0, 0, 0, 1]))))] + [('maps-%s%d' % (i, k), Or(nanm(o), dot(val(o.r)[k], hom(p[i])) == p[j][k])) for i, j in zip('abc', 'efg') for k in range(3)])
    import itertools
    for n, pm in enumerate(itertools.permutations(range(3))):
        def ptr(p, pm=pm):
            v = [p.b - p.a, p.c - p.a, p.d - p.a]
            return [absr(v[pm[i]][i]) >= Fraction(1, 10**14) for i in range(3)] + [v[pm[i]][j] == 0 for i in range(3) for j in range(i)]
        case(P, 'points_accept%d%s' % (n, t), 'a:V3 b:V3 c:V3 d:V3 e:V3 f:V3 g:V3 h:V3', 'r:M4x4', 'r = vm::points_transformation_matrix(a, b, c, d, e, f, g, h);', T=T_, opts=dict(fo),
             req=ptr, ens=lambda p, o: [('defined-for-independent-edges', fin(o.r))])
    for nm, par, call in (('dir', ' m:V3', 'd, n, m'), ('nor', '', 'd, n')):
        dd = (lambda p: p.m) if nm == 'dir' else (lambda p: p.n)
        def pens(p, o, dd=dd):
            r = val(o.r); no = meq(r, ident(4))
            return ([('finite', fin(o.r))] + [('affine%d' % i, Or(no, r[3][i] == (1 if i == 3 else 0))) for i in range(4)] if False else [('finite', fin(o.r))]) + \
                [('direction-to-z%d' % i, Or(no, dot(r[i], Vec(list(dd(p)) + [Re(0)])) == (1 if i == 2 else 0))) for i in range(4)] + \
                [('anchor-to-origin%d' % i, Or(no, dot(r[i], hom(p.n * p.d)) == (1 if i == 3 else 0))) for i in range(4)]
        case(P, 'planeproj_%s%s' % (nm, t), 'd:S n:V3' + par, 'r:M4x4', 'r = vm::plane_projection_matrix(%s);' % call, T=T_,
             opts=dict(paths=True), req=lambda p, dd=dd: [unit(p.n), unit(dd(p))], ens=pens,
             gen=lambda rng, nm=nm: ([rs(rng)] + runit(rng) + (runit(rng) if nm == 'dir' else []), []))
        # the in-plane axes: X at right angles to the normal and to Z (if X dominates the normal) or X (otherwise), Y completes the frame
        for dn, e in (('xdom', (0, 0, 1)), ('other', (1, 0, 0))):
            def axq(p, dn=dn, dd=dd): return [unit(p.n), unit(dd(p)), And(absr(p.n[0]) > absr(p.n[1]), absr(p.n[0]) > absr(p.n[2])) if dn == 'xdom' else Or(absr(p.n[0]) < absr(p.n[1]), absr(p.n[0]) < absr(p.n[2]))]
            def axl(p, e=e):
                X = cross(p.n, Vec(map(Re, e))); L = sqrt(sqlen(X))
                return [('axis-defined', sqlen(X) > 0), L_sqrt(sqlen(X)), ('frame', sqlen(cross(p.n, X / L)) == 1), ('frame-length', sqrt(sqlen(cross(p.n, X / L))) == 1)]
            def axe(p, o, e=e):
                r = val(o.r); no = meq(r, ident(4)); X = cross(p.n, Vec(map(Re, e))); L = sqrt(sqlen(X))
                return [('plane-%s-axis%d' % (m_, i), Or(no, dot(r[i], Vec(list(a_) + [Re(0)])) == (L if i == k_ else 0))) for k_, m_, a_ in ((0, 'x', X), (1, 'y', cross(p.n, X))) for i in range(4)]
            case(P, 'planeaxes_%s_%s%s' % (nm, dn, t), 'd:S n:V3' + par, 'r:M4x4', 'r = vm::plane_projection_matrix(%s);' % call, T=T_, opts=dict(paths=True, prelemmas=axl), req=axq, ens=axe,
                 gen=lambda rng, nm=nm: ([rs(rng)] + runit(rng) + (runit(rng) if nm == 'dir' else []), []))
