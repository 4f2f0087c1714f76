"""C08 matrix algebra"""
from contracts._common import *
P = 'C08'
from contracts.c07_select import pick
SHAPES = [(2, 2), (3, 3), (4, 4), (2, 3), (3, 2)]
def mz(r, c, f): return Vec(Vec(f(i, j) for j in range(c)) for i in range(r))
def const(rows): return Vec(Vec(Re(x) for x in r) for r in rows)
for T_ in TS:
    t = SH[T_]
    for (r, c) in SHAPES:
        M = 'M%dx%d' % (r, c); q = '%d%d%s' % (r, c, t); CT = 'vm::mat<T,%d,%d>' % (r, c)
        one = lambda p: p.a
        case(P, 'm_add' + q, 'a:%s b:%s' % (M, M), 'r:' + M, 'r = a + b;', T=T_, callee=r'vm::operator\+<', spec=lambda p: p.a + p.b)
        case(P, 'm_sub' + q, 'a:%s b:%s' % (M, M), 'r:' + M, 'r = a - b;', T=T_, callee=r'vm::operator-<', spec=lambda p: p.a - p.b)
        case(P, 'm_neg' + q, 'a:' + M, 'r:' + M, 'r = -a;', T=T_, callee=r'vm::operator-<', spec=lambda p: -p.a)
        case(P, 'm_pos' + q, 'a:' + M, 'r:' + M, 'r = +a;', T=T_, spec=one)
        case(P, 'm_muls' + q, 'a:%s k:S' % M, 'r:' + M, 'r = a * k;', T=T_, callee=r'vm::operator\*<', spec=lambda p: Vec(x * p.k for x in p.a))
        case(P, 'm_smul' + q, 'k:S a:' + M, 'r:' + M, 'r = k * a;', T=T_, callee=r'vm::operator\*<', spec=lambda p: Vec(x * p.k for x in p.a))
        case(P, 'm_divs' + q, 'a:%s k:S' % M, 'r:' + M, 'r = a / k;', T=T_, callee=r'vm::operator/<', req=lambda p: [p.k != 0], spec=lambda p: Vec(x / p.k for x in p.a))
        for c2 in ((c,) if r == c else (2, 3)):
            case(P, 'm_mul%s_%d' % (q, c2), 'a:%s b:M%dx%d' % (M, c, c2), 'r:M%dx%d' % (r, c2), 'r = a * b;', T=T_, callee=r'vm::operator\*<', spec=lambda p: mmul(p.a, p.b))
        args = ', '.join('x[%d]' % i for i in range(r * c))
        case(P, 'm_ctor' + q, 'x:A%d:S' % (r * c), 'a:%s b:%s' % (M, M), 'a = %s(%s); b = %s{%s};' % (CT, args, CT, args), T=T_,
             spec=lambda p, r=r, c=c: (lambda m: Rec(a=m, b=m))(Vec(Vec(p.x[i * c + j] for j in range(c)) for i in range(r))))
        case(P, 'm_copy' + q, 'a:' + M, 'r:%s s:%s' % (M, M), 'r = a; %s u(a); s = u;' % CT, T=T_, spec=lambda p: Rec(r=p.a, s=p.a))
        O = 'float' if T_ == 'double' else 'double'
        case(P, 'm_conv' + q, 'a:' + M, 'r:' + M, 'vm::mat<%s,%d,%d> u(a); r = %s(u);' % (O, r, c, CT), T=T_, mode='F',
             ens=lambda p, o: [('nearest', And([num(x, Fl(f1('fcvt', f1('fcvt', v.t, 'F32' if v.t.sort == 'F64' else 'F64'), v.t.sort))) for ro, rv in zip(o.r, p.a) for x, v in zip(ro, rv)]))])
        case(P, 'm_consts' + q, 'k:S', 'i:%s z:%s f:%s d:%s' % (M, M, M, M), 'i = %s::identity(); z = %s::zero(); f = %s::fill(k); d = %s();' % (CT, CT, CT, CT), T=T_,
             spec=lambda p, r=r, c=c: Rec(i=mz(r, c, lambda i, j: Re(int(i == j))), d=mz(r, c, lambda i, j: Re(int(i == j))), z=mz(r, c, lambda i, j: Re(0)), f=mz(r, c, lambda i, j: p.k)))
        case(P, 'm_index' + q, 'a:%s k:I(0,%d) l:I(0,%d)' % (M, r - 1, c - 1), 'e:S col:V%d' % r, 'e = a[(size_t)l][(size_t)k]; col = a[(size_t)l];', T=T_,
             spec=lambda p, r=r, c=c: Rec(e=pick([pick(row, p.l) for row in p.a], p.k), col=Vec(pick(row, p.l) for row in p.a)))
        case(P, 'm_set' + q, 'a:%s k:I(0,%d) l:I(0,%d) x:S' % (M, r - 1, c - 1), 'm:' + M, 'm = vm::set(a, (size_t)k, (size_t)l, x);', T=T_,
             spec=lambda p, r=r, c=c: mz(r, c, lambda i, j: ite(And(ieq(p.k, i), ieq(p.l, j)), p.x, p.a[i][j])))
        if r == c:
            case(P, 'm_transpose' + q, 'a:' + M, 'r:' + M, 'r = vm::transpose(a);', T=T_, callee='vm::transpose<', spec=lambda p: transp(p.a))
            case(P, 'm_mulv' + q, 'a:%s v:V%d' % (M, c), 'r:V%d' % r, 'r = a * v;', T=T_, callee=r'vm::operator\*<', spec=lambda p: mvec(p.a, p.v))
            case(P, 'm_vmul' + q, 'v:V%d a:%s' % (r, M), 'r:V%d' % c, 'r = v * a;', T=T_, callee=r'vm::operator\*<', spec=lambda p: vecm(p.v, p.a))
            H1 = lambda v: Vec(list(v) + [Re(1)])
            if r > 2:
                case(P, 'm_hmulv' + q, 'a:%s v:V%d' % (M, c - 1), 'r:V%d' % (r - 1), 'r = a * v;', T=T_, callee=r'vm::operator\*<', req=lambda p: [mvec(p.a, H1(p.v))[-1] != 0],
                     spec=lambda p: (lambda h: Vec(h[:-1]) / h[-1])(mvec(p.a, H1(p.v))))
                case(P, 'm_hvmul' + q, 'v:V%d a:%s' % (r - 1, M), 'r:V%d' % (r - 1), 'r = v * a;', T=T_, callee=r'vm::operator\*<', req=lambda p: [vecm(H1(p.v), p.a)[-1] != 0],
                     spec=lambda p: (lambda h: Vec(h[:-1]) / h[-1])(vecm(H1(p.v), p.a)))
                case(P, 'm_minor' + q, 'a:%s k:I(0,%d) l:I(0,%d)' % (M, r - 1, c - 1), 'm:M%dx%d' % (r - 1, c - 1), 'm = vm::extract_minor(a, (size_t)k, (size_t)l);', T=T_, opts=dict(enum=True),
                     spec=lambda p, n=r: mz(n - 1, n - 1, lambda i, j: pick([pick([p.a[i + (i >= a)][j + (j >= b)] for b in range(n)], p.l) for a in range(n)], p.k)))
            for n in range(1, r):
                case(P, 'm_slice%d_%s' % (n, q), 'a:%s k:I(0,%d) l:I(0,%d)' % (M, r - n, c - n), 'm:M%dx%d' % (n, n), 'm = vm::slice<%d,%d>(a, (size_t)k, (size_t)l);' % (n, n), T=T_,
                     spec=lambda p, n=n, r=r: mz(n, n, lambda i, j: pick([pick(p.a[i + a][j:j + r - n + 1], p.l) for a in range(r - n + 1)], p.k)))
            for e in range(r):
                case(P, 'm_zeroout%d_%s' % (e, q), '', 'm:' + M, 'm = %s::template zero_out<%d>();' % (CT, e), T=T_, spec=lambda p, r=r, e=e: mz(r, r, lambda i, j: Re(int(i == j and i != e))))
    A4 = 'vm::mat<T,4,4>::'
    def rot(ax, s):
        """rotation by s * 90 degrees (counter-clockwise seen against the axis); s = 2: half turn"""
        i, j = (ax + 1) % 3, (ax + 2) % 3
        m = [[Re(int(a == b)) for b in range(4)] for a in range(4)]
        c_, s_ = (-1, 0) if s == 2 else (0, s)
        m[i][i] = Re(c_); m[i][j] = Re(-s_); m[j][i] = Re(s_); m[j][j] = Re(c_)
        return Vec(Vec(r) for r in m)
    def mir(ax): return mz(4, 4, lambda i, j: Re(0 if i != j else -1 if i == ax else 1))
    for ax, n in enumerate('xyz'):
        case(P, 'm_const_%s_%s' % (n, t), '', 'cw:M4x4 ccw:M4x4 half:M4x4 mi:M4x4', 'cw = %srot_90_%s_cw(); ccw = %srot_90_%s_ccw(); half = %srot_180_%s(); mi = %smirror_%s();' % (A4, n, A4, n, A4, n, A4, n), T=T_,
             spec=lambda p, ax=ax: Rec(cw=rot(ax, -1), ccw=rot(ax, 1), half=rot(ax, 2), mi=mir(ax)))
