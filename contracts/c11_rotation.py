"""C11 rotation matrices"""
from contracts._common import *
import math
P = 'C11'
def m4(rows): return Vec(Vec(Re.of(x) for x in list(r) + [0] * (4 - len(r))) if len(r) < 4 else Vec(Re.of(x) for x in r) for r in list(rows) + ([[0, 0, 0, 1]] if len(rows) == 3 else []))
def rodr(a, c, s):
    x, y, z = a; k = 1 - c
    return m4([[x * x * k + c, x * y * k - z * s, x * z * k + y * s], [x * y * k + z * s, y * y * k + c, y * z * k - x * s], [x * z * k - y * s, y * z * k + x * s, z * z * k + c]])
def m3(m): return Vec(Vec(list(r)[:3]) for r in list(m)[:3])
def orth(m, tag=''):
    m = val(m) if not isinstance(m, Vec) or not isinstance(m[0][0], Re) else m
    return [('rows-orthonormal%d%d' % (i, j), dot(m[i], m[j]) == (1 if i == j else 0)) for i in range(4) for j in range(i, 4)] + [('no-reflection', det(m3(m)) == 1)]
def qn(q): return q.r * q.r + sqlen(q.v)
def rot(q, w): return w * (q.r * q.r - sqlen(q.v)) + q.v * (2 * dot(q.v, w)) + cross(q.v, w) * (2 * q.r)
gaa = lambda n: (lambda rng: (runit(rng) + [rs(rng, 3)] + [x for _ in range(n) for x in rvec(rng)], []))
def euler_m(r, p, y):
    X = m4([[1, 0, 0], [0, cos(r), -sin(r)], [0, sin(r), cos(r)]]); Y = m4([[cos(p), 0, sin(p)], [0, 1, 0], [-sin(p), 0, cos(p)]]); Z = m4([[cos(y), -sin(y), 0], [sin(y), cos(y), 0], [0, 0, 1]])
    return mmul(Z, mmul(Y, X))
for T_ in TS:
    t = SH[T_]
    case(P, 'rot_axis' + t, 'a:V3 n:S', 'r:M4x4', 'r = vm::rotation_matrix(a, n);', T=T_, callee='vm::rotation_matrix<', req=lambda p: [unit(p.a)], gen=gaa(0), spec=lambda p: rodr(p.a, cos(p.n), sin(p.n)), opts=dict(PIOPT))
    case(P, 'rot_axis_proper' + t, 'a:V3 n:S', 'r:M4x4', 'r = vm::rotation_matrix(a, n);', T=T_, req=lambda p: [unit(p.a)], gen=gaa(0), ens=lambda p, o: [('finite', fin(o.r))] + orth(o.r) + [('axis-fixed', veq(mvec(m3(val(o.r)), p.a), p.a))], opts=dict(PIOPT))
    case(P, 'rot_axis_vec' + t, 'a:V3 n:S w:V3', 'r:V3', 'r = vm::rotation_matrix(a, n) * w;', T=T_, req=lambda p: [unit(p.a)], gen=gaa(1), opts=dict(PIOPT),
         spec=lambda p: p.w * cos(p.n) + cross(p.a, p.w) * sin(p.n) + p.a * (dot(p.a, p.w) * (1 - cos(p.n))))
    case(P, 'rot_axis_inverse' + t, 'a:V3 n:S w:V3', 'r:V3', 'r = vm::rotation_matrix(a, -n) * (vm::rotation_matrix(a, n) * w);', T=T_, req=lambda p: [unit(p.a)], gen=gaa(1), opts=dict(PIOPT), spec=lambda p: p.w)
    case(P, 'rot_axis_quat' + t, 'a:V3 h:S w:V3', 'r:V3 s:V3', 'r = vm::rotation_matrix(vm::quat<T>(a, h * T(2))) * w; s = vm::quat<T>(a, h * T(2)) * w;', T=T_, req=lambda p: [unit(p.a)], gen=gaa(1), opts=dict(PIOPT),
         ens=lambda p, o: (lambda c, s: [('quaternion-matrix%d' % i, And(o.r[i].fin, o.r[i].v == (p.w * c + cross(p.a, p.w) * s + p.a * (dot(p.a, p.w) * (1 - c)))[i])) for i in range(3)] + [('same%d' % i, o.r[i] == val(o.s[i])) for i in range(3)])(
             cos(p.h) * cos(p.h) - sin(p.h) * sin(p.h), 2 * sin(p.h) * cos(p.h)))
    guq = lambda n: (lambda rng: (runit(rng, 4) + [x for _ in range(n) for x in rvec(rng)], []))
    case(P, 'rot_quat' + t, 'q:Q', 'r:M4x4', 'r = vm::rotation_matrix(q);', T=T_, callee='vm::rotation_matrix<', spec=lambda p: (lambda w, x, y, z: m4([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]))(p.q.r, *p.q.v))
    case(P, 'rot_quat_vec' + t, 'q:Q w:V3', 'r:V3 s:V3', 'r = vm::rotation_matrix(q) * w; s = q * w;', T=T_, req=lambda p: [qn(p.q) == 1], gen=guq(1), ens=lambda p, o: [('like-quaternion', veq(o.r, val(o.s))), ('rotated', veq(o.r, rot(p.q, p.w)))])
    case(P, 'rot_quat_proper' + t, 'q:Q', 'r:M4x4', 'r = vm::rotation_matrix(q);', T=T_, req=lambda p: [qn(p.q) == 1], gen=guq(0), ens=lambda p, o: [('finite', fin(o.r))] + orth(o.r))
    case(P, 'rot_rpy' + t, 'a:S b:S c:S', 'r:M4x4', 'r = vm::rotation_matrix(a, b, c);', T=T_, callee='vm::rotation_matrix<', gen=lambda rng: ([rs(rng, 3) for _ in range(3)], []), spec=lambda p: euler_m(p.a, p.b, p.c), opts=dict(PIOPT))
    case(P, 'rot_rpy_proper' + t, 'a:S b:S c:S', 'r:M4x4', 'r = vm::rotation_matrix(a, b, c);', T=T_, gen=lambda rng: ([rs(rng, 3) for _ in range(3)], []), ens=lambda p, o: [('finite', fin(o.r))] + orth(o.r), opts=dict(PIOPT))
    for nm, rq in (('pos', lambda p: [cos(p.b) > 0]), ('neg', lambda p: [cos(p.b) < 0]), ('up', lambda p: [sin(p.b) == 1, cos(p.b) == 0]), ('down', lambda p: [sin(p.b) == -1, cos(p.b) == 0])):
        case(P, 'euler_%s%s' % (nm, t), 'a:S b:S c:S', 'r:M4x4', 'const auto e_ = vm::rotation_matrix_to_euler_angles(vm::rotation_matrix(a, b, c)); r = vm::rotation_matrix(e_[0], e_[1], e_[2]);', T=T_, req=rq,
             gen=(lambda rng: ([rs(rng, 3) for _ in range(3)], [])) if nm in ('pos', 'neg') else (lambda rng, k=1 if nm == 'up' else -1, f=T_ == 'float': ([rs(rng, 3), Fraction(float(np.float32(k * math.pi / 2)) if f else k * math.pi / 2), rs(rng, 3)], [])),
             opts=dict(PIOPT, paths=True, reqtol=1e-6),
             ens=lambda p, o: [('rebuilds-rotation%d%d' % (i, j), And(o.r[i][j].fin, o.r[i][j].v == euler_m(p.a, p.b, p.c)[i][j])) for i in range(4) for j in range(4)])
    CL = Fraction(999, 1000)
    case(P, 'rot_fromto' + t, 'a:V3 b:V3', 'w:V3', 'w = vm::rotation_matrix(a, b) * a;', T=T_, req=lambda p: [unit(p.a), unit(p.b)], gen=lambda rng: (lambda a: (a + (runit(rng) if rng.random() < .6 else [-x for x in a] if rng.random() < .5 else a), []))(runit(rng)),
         opts=dict(PIOPT, paths=True, prelemmas=lambda p: (lambda c: [('lagrange', sqlen(cross(p.a, p.b)) == 1 - c * c), L_sqlen(*cross(p.a, p.b)), L_unit_bound(c, sqlen(cross(p.a, p.b))), ('not-parallel', Or(c >= CL, c <= -CL, And(sqlen(cross(p.a, p.b)) > 0, 1 - c * c > 0, 1 - c > 0, 1 + c > 0))), L_sqrt(sqlen(cross(p.a, p.b))), ('root', Or(c >= CL, c <= -CL, sqrt(sqlen(cross(p.a, p.b))) > 0))])(dot(p.a, p.b))),
         ens=lambda p, o: [('maps-first-onto-second%d' % i, Or(dot(p.a, p.b) >= CL, dot(p.a, p.b) <= -CL, o.w[i] == p.b[i])) for i in range(3)] + [('nearly-equal-vectors%d' % i, Or(dot(p.a, p.b) < CL, o.w[i] == p.a[i])) for i in range(3)] + [('nearly-opposite-vectors%d' % i, Or(dot(p.a, p.b) > -CL, o.w[i] == -p.a[i])) for i in range(3)])
