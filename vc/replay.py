"""Native execution of the wrappers (real code, g++) and counterexample search."""
import ctypes, os, struct, signal, random, math, time, pickle
from fractions import Fraction
from .terms import *
from . import terms as tm
from .evalc import Ev
from .symex import RV
from .contract import Case, goals_of, wrap_outs, make_inputs, _lst
import numpy as np

def native_call(so, c, fin, iin, timeout=10):
    """run the wrapper in a forked child; returns (status, fouts, iouts)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2); os.dup2(dn, 1)
            except OSError: pass
            signal.alarm(timeout)
            lib = ctypes.CDLL(so)
            FT = ctypes.c_double if c.w == 64 else ctypes.c_float
            a = (FT * max(1, c.nin))(*fin); b = (ctypes.c_long * max(1, c.niin))(*[sgn(x, 64) for x in iin])
            o = (FT * max(1, c.nout))(); io = (ctypes.c_long * max(1, c.niout))()
            fn = getattr(lib, c.name); fn.restype = None
            fn(a, b, o, io)
            data = pickle.dumps((list(o)[:c.nout], list(io)[:c.niout]))
            os.write(w, data)
            os._exit(0)
        except BaseException:
            os._exit(3)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ('timeout' if os.WTERMSIG(st) == signal.SIGALRM else 'crash:%d' % os.WTERMSIG(st), None, None)
    if not buf: return ('error', None, None)
    o, io = pickle.loads(buf)
    return ('ok', o, io)

def native_many(so, c, samples, timeout=60):
    """batch of samples in one child; list of (fouts, iouts) for as many as completed"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2); os.dup2(dn, 1)
            signal.alarm(timeout)
            lib = ctypes.CDLL(so)
            FT = ctypes.c_double if c.w == 64 else ctypes.c_float
            fn = getattr(lib, c.name); fn.restype = None
            with os.fdopen(w, 'wb') as f:
                for fin, iin in samples:
                    a = (FT * max(1, c.nin))(*fin); b = (ctypes.c_long * max(1, c.niin))(*[sgn(x, 64) for x in iin])
                    o = (FT * max(1, c.nout))(); io = (ctypes.c_long * max(1, c.niout))()
                    fn(a, b, o, io)
                    pickle.dump((list(o)[:c.nout], list(io)[:c.niout]), f); f.flush()
            os._exit(0)
        except BaseException:
            os._exit(3)
    os.close(w)
    out = []
    with os.fdopen(r, 'rb') as f:
        while True:
            try: out.append(pickle.load(f))
            except Exception: break
    _, st = os.waitpid(pid, 0)
    stt = 'ok'
    if os.WIFSIGNALED(st):
        stt = 'timeout' if os.WTERMSIG(st) == signal.SIGALRM else 'crash:%d' % os.WTERMSIG(st)
    return stt, out

def to_native(c, x):
    """Fraction or float -> python float at the case's precision"""
    try: v = float(x)
    except OverflowError: v = math.inf if x > 0 else -math.inf
    if c.w == 32:
        with np.errstate(all='ignore'): v = float(np.float32(v))
    return v

R_SPECIAL = [0, 1, -1, 2, -2, 3, Fraction(1, 2), Fraction(-1, 2), Fraction(1, 4), 4, -3, 5, 10, -10, Fraction(3, 4), 100, Fraction(1, 1024), Fraction(7, 2), -7, 1000]

def sample_real(rng, style):
    if style == 0: return Fraction(rng.randint(-2, 2))
    if style == 1: return Fraction(rng.randint(-8, 8))
    if style == 2: return Fraction(rng.randint(-64, 64), rng.choice([1, 2, 4, 8]))
    if style == 3: return Fraction(rng.choice(R_SPECIAL))
    if style == 4: return Fraction(rng.randint(-10 ** 6, 10 ** 6), 1024)
    if style == 5: return Fraction(rng.randint(-1000, 1000), 1 << rng.randint(0, 30))
    return Fraction(rng.uniform(-4, 4))

F_SPECIAL = [0.0, -0.0, 1.0, -1.0, math.nan, math.inf, -math.inf, 0.5, -0.5, 2.0, 3.0, -2.0, 1e300, -1e300, 5e-324, -5e-324, 2.2250738585072014e-308, 1.5, 2.5, -1.5, 0.1, 1e-3, 4503599627370497.0, 1.0000000000000002, 0.9999999999999999, 0.49999999999999994]

def sample_float(rng, style, c):
    if style == 0: v = rng.choice([0.0, 1.0, -1.0, 2.0, -0.0])
    elif style == 1: v = rng.choice(F_SPECIAL)
    elif style == 2: v = float(rng.randint(-8, 8)) / rng.choice([1, 2, 4])
    elif style == 3: v = rng.uniform(-100, 100)
    elif style == 4: v = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
    else: v = rng.choice([math.nan, 1.0, 2.0, 0.0])
    return to_native(c, v)

def harvest(terms):
    """numeric constants appearing in the terms (thresholds in the code)"""
    out = set()
    for t in tm.subterms(terms):
        if t.op == 'c':
            if t.sort == 'R': out.add(t.args[0])
            elif t.sort in ('F32', 'F64'):
                out.add(fbits2py(t.args[0], t.sort))
    return list(out)[:200]

def samples(c, run, rng, n, consts=()):
    """yield (float inputs as Fraction/float, ints)"""
    kinds = c.in_kinds()
    pool = []
    for k in consts:
        pool.append(k)
    for j in range(n):
        if c.gen and (c.opts.get('gen_only') or rng.random() < 0.7):
            g = c.gen(rng)
            fs, is_ = g if isinstance(g, tuple) else (g, [])
            fs = list(fs)
        else:
            st = rng.randint(0, 6)
            if c.mode == 'R':
                fs = [sample_real(rng, st if rng.random() < 0.8 else rng.randint(0, 6)) for _ in range(c.nin)]
                # correlations: repeat values between inputs
                if rng.random() < 0.5 and c.nin > 1:
                    for _ in range(rng.randint(1, max(1, c.nin // 2))):
                        a, b = rng.randrange(c.nin), rng.randrange(c.nin)
                        fs[a] = fs[b] * rng.choice([1, 1, 1, -1, 2])
            else:
                st = rng.randint(0, 5)
                fs = [sample_float(rng, st if rng.random() < 0.8 else rng.randint(0, 5), c) for _ in range(c.nin)]
                if rng.random() < 0.6 and c.nin > 1:
                    for _ in range(rng.randint(1, c.nin)):
                        a, b = rng.randrange(c.nin), rng.randrange(c.nin)
                        fs[a] = fs[b]
            is_ = []
        if pool and rng.random() < 0.3 and fs:
            k = rng.choice(pool)
            x = rng.randrange(len(fs))
            try:
                fs[x] = Fraction(k) * rng.choice([1, 1, -1, Fraction(1, 2), 2]) if c.mode == 'R' else to_native(c, k)
            except (OverflowError, ValueError): pass
        if len(is_) < c.niin:
            is_ = []
            for k in kinds:
                if k.lo is not None: is_.append(rng.randint(k.lo, k.hi) & (2 ** 64 - 1))
                else: is_.append((rng.randint(-10, 10) if rng.random() < 0.8 else rng.getrandbits(64)) & (2 ** 64 - 1))
        yield fs, is_

def env_of(c, run, fs, is_):
    env = {}
    for v, x in zip(run.fv, fs):
        env[v] = Fraction(x) if c.mode == 'R' else py2fbits(x, v.sort)
    for v, x in zip(run.iv, is_): env[v] = x & (2 ** 64 - 1)
    return env

def native_goal(c, run, fs, is_, fo, io, tol):
    """evaluate the contract's ensures on native outputs (outputs as constants); returns list of violated labels"""
    env = env_of(c, run, fs, is_)
    inex = []
    if c.mode == 'R':
        outs = []
        for k, x in enumerate(fo):
            if x != x: outs.append(RV(R0, nan=TRUE))
            elif math.isinf(x): outs.append(RV(R(1 if x > 0 else -1), inf=TRUE))
            else:
                ov = var('nat!out%d' % k, 'R'); env[ov] = Fraction(x); inex.append(ov)
                outs.append(RV(ov))
        for v, x in zip(run.fv, fs):
            if Fraction(to_native(c, x)) != x: inex.append(v)
    else:
        outs = [F(x, 'F%d' % c.w) for x in fo]
    o = wrap_outs(c, outs, [I(x, 64) for x in io])
    bad = []
    for lab, g in goals_of(c, run.p, o):
        v = Ev(env, tol, inex).ev(g)
        if v is False: bad.append(lab)
    return bad

def agree(c, env, run, fo, io, rel=None):
    """native outputs agree with the symbolic outputs evaluated at env"""
    rel = rel or (1e-6 if c.w == 64 else 2e-3)
    ev = Ev(env)
    for t, x in zip(run.iof, io):
        v = ev.ev(t)
        if v is None: return None
        if v != (x & (2 ** 64 - 1)): return False
    for t, x in zip(run.fo, fo):
        if isinstance(t, RV):
            n = ev.ev(t.nan); i = ev.ev(t.inf)
            if n is None or i is None: return None
            if n:
                if x == x: return False
                continue
            if i:
                if not math.isinf(x): return False
                continue
            v = ev.ev(t.v)
            if v is None: return None
            v = float(v)
            if x != x or math.isinf(x): return False
            if abs(v - x) > rel * (1 + abs(v) + abs(x)): return False
        else:
            v = ev.ev(t)
            if v is None: return None
            if v != py2fbits(x, t.sort): return False
    return True
