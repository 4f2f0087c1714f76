"""Parser for the textual LLVM IR that clang emits at -O0 (opaque pointers).

The verified text is exactly this IR: it is produced from /repo's headers on every
run by clang's C++ front end (no optimisation passes), so what is verified is the
code that runs, minus nothing: every function reachable from a wrapper is parsed.
Unknown syntax raises IRError (tool error), it is never skipped.
"""
import re, struct

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'packed', 'name', '_size', '_align')
    def __init__(self, k, w=0, n=0, el=None, els=None, packed=False, name=None):
        self.k = k; self.w = w; self.n = n; self.el = el; self.els = els
        self.packed = packed; self.name = name; self._size = None; self._align = None
    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.w
        if self.k == 'f': return 'f%d' % self.w
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.els))
        if self.k == 'named': return '%' + self.name
        return self.k

class Module:
    def __init__(self):
        self.types = {}      # name -> Ty
        self.globals = {}    # name -> (Ty, init const or None, is_const)
        self.funcs = {}      # name -> Func
        self.decls = set()

class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'order', 'entry', 'ipdom', 'retattrs')

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a')
    def __init__(self, op, res, ty, a):
        self.op = op; self.res = res; self.ty = ty; self.a = a
    def __repr__(self):
        return '%s = %s %r %r' % (self.res, self.op, self.ty, self.a)

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-A-Za-z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-A-Za-z$._0-9]+))
 | (?P<meta>![A-Za-z_.0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_][A-Za-z_0-9.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
 | (?P<ws>\s+)
 | (?P<cmt>;.*)
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        t = m(s, i)
        if not t:
            raise IRError('cannot tokenize: ' + s[i:i + 60])
        k = t.lastgroup
        if k == 'cmt':
            break
        if k != 'ws':
            out.append((k, t.group()))
        i = t.end()
    return out

def unq(name):
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name

# constants / operands are represented as tuples:
#  ('reg', name) ('glob', name) ('int', value) ('fp', doublebits) ('undef',) ('null',) ('zero',)
#  ('agg', [(ty, const)...]) ('str', bytes) ('ce', op, ...) constant expressions

class P:
    """token stream parser"""
    def __init__(self, mod, toks):
        self.mod = mod; self.t = toks; self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1
        return v
    def acc(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False
    def exp(self, s):
        if not self.acc(s):
            raise IRError('expected %s got %s in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)))
    def type(self):
        t = self.next()
        if t == 'double': ty = Ty('f', 64)
        elif t == 'float': ty = Ty('f', 32)
        elif t == 'ptr': ty = Ty('ptr')
        elif t == 'void': ty = Ty('void')
        elif t == 'metadata': ty = Ty('metadata')
        elif t == 'label': ty = Ty('label')
        elif t == 'x86_fp80': ty = Ty('f', 80)
        elif t == 'opaque': ty = Ty('opaque')
        elif re.fullmatch(r'i\d+', t): ty = Ty('i', int(t[1:]))
        elif t == '[':
            n = int(self.next()); self.exp('x'); el = self.type(); self.exp(']')
            ty = Ty('arr', n=n, el=el)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                els = self.typelist('}')
                self.exp('>')
                ty = Ty('struct', els=els, packed=True)
            else:
                n = int(self.next()); self.exp('x'); el = self.type(); self.exp('>')
                ty = Ty('vec', n=n, el=el)
        elif t == '{':
            ty = Ty('struct', els=self.typelist('}'))
        elif t.startswith('%'):
            ty = Ty('named', name=unq(t))
        else:
            raise IRError('bad type ' + t)
        # function type
        if self.peek() == '(' :
            d = 0
            while True:
                x = self.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
            ty = Ty('fn', el=ty)
        return ty
    def typelist(self, end):
        els = []
        if self.acc(end): return els
        while True:
            els.append(self.type())
            if self.acc(end): return els
            self.exp(',')
    PATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'signext', 'zeroext',
              'inreg', 'returned', 'immarg', 'nofree', 'readnone', 'dso_local', 'hidden', 'nest', 'allocptr', 'allocalign', 'writable', 'noext', 'dead_on_unwind', 'allocsize'}
    PATTRS_P = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'range', 'captures', 'elementtype', 'nofpclass', 'initializes'}
    def attrs(self):
        out = {}
        while True:
            t = self.peek()
            if t in self.PATTRS:
                self.next(); out[t] = True
            elif t == 'align' and self.t[self.i + 1][0] == 'num':
                self.next(); self.next()
            elif t in self.PATTRS_P:
                self.next()
                self.exp('(')
                if t in ('sret', 'byval'):
                    out[t] = self.type(); self.exp(')')
                else:
                    d = 1
                    while d:
                        x = self.next()
                        if x == '(': d += 1
                        elif x == ')': d -= 1
            else:
                return out
    def value(self, ty):
        k = self.kind()
        t = self.next()
        if k == 'loc': return ('reg', unq(t))
        if k == 'glob': return ('glob', unq(t))
        if k == 'num':
            if ty.k == 'f':
                if t.startswith('0x'):
                    return ('fp', int(t[2:], 16))
                return ('fp', struct.unpack('<Q', struct.pack('<d', float(t)))[0])
            return ('int', int(t))
        if k == 'str':
            return ('str', decode_cstr(t))
        if t == 'true': return ('int', 1)
        if t == 'false': return ('int', 0)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'null': return ('null',)
        if t == 'none': return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t in ('[', '{', '<'):
            end = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                end = '}'
                els = self.vallist(end); self.exp('>')
                return ('agg', els)
            return ('agg', self.vallist(end))
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            if self.peek() == 'inrange': raise IRError('inrange')
            self.exp('(')
            bt = self.type(); self.exp(',')
            ops = []
            while True:
                t2 = self.type(); ops.append((t2, self.value(t2)))
                if self.acc(')'): break
                self.exp(',')
            return ('ce', 'gep', bt, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            self.exp('(')
            t2 = self.type(); v = self.value(t2); self.exp('to'); t3 = self.type(); self.exp(')')
            return ('ce', t, t2, v, t3)
        if t in ('add', 'sub', 'mul'):
            while self.peek() in ('nsw', 'nuw'): self.next()
            self.exp('(')
            t2 = self.type(); v = self.value(t2); self.exp(',')
            t3 = self.type(); v3 = self.value(t3); self.exp(')')
            return ('ce', t, t2, v, v3)
        raise IRError('bad value %s in %s' % (t, ' '.join(x[1] for x in self.t)))
    def vallist(self, end):
        out = []
        if self.acc(end): return out
        while True:
            ty = self.type()
            self.attrs()
            out.append((ty, self.value(ty)))
            if self.acc(end): return out
            self.exp(',')
    def tv(self):
        ty = self.type(); return ty, self.value(ty)

def decode_cstr(t):
    s = t[1:] if t.startswith('c') else t
    s = s[1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}

def parse_instr(mod, line):
    toks = tokenize(line)
    p = P(mod, toks)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = unq(p.next()); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        ty = p.type()
        cnt = ('int', 1)
        if p.acc(','):
            if p.peek() != 'align':
                t2 = p.type(); cnt = p.value(t2)
        return Instr('alloca', res, ty, cnt)
    if op == 'load':
        p.acc('volatile')
        ty = p.type(); p.exp(','); pt = p.type(); v = p.value(pt)
        return Instr('load', res, ty, v)
    if op == 'store':
        p.acc('volatile')
        ty, v = p.tv(); p.exp(','); pt, q = p.tv()
        return Instr('store', None, ty, (v, q))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.exp(',')
        pt, base = p.tv()
        idx = []
        while p.acc(','):
            if p.kind() == 'meta': break
            idx.append(p.tv())
        return Instr('gep', res, bt, (base, idx))
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        while p.peek() in FMF: raise IRError('fast-math flag')
        ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Instr(op, res, ty, (a, b))
    if op == 'fneg':
        ty = p.type(); return Instr(op, res, ty, (p.value(ty),))
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'): fl.add(p.next())
        ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Instr(op, res, ty, (a, b, fl))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FMF: raise IRError('fast-math flag')
        pred = p.next(); ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Instr(op, res, ty, (pred, a, b))
    if op == 'select':
        ct, c = p.tv(); p.exp(','); ty, a = p.tv(); p.exp(','); _, b = p.tv()
        return Instr(op, res, ty, (c, a, b))
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.exp('['); v = p.value(ty); p.exp(','); lab = unq(p.next()); p.exp(']')
            inc.append((v, lab))
            if not p.acc(','): break
        return Instr(op, res, ty, inc)
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr'):
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        ty, a = p.tv(); p.exp('to'); t2 = p.type()
        return Instr(op, res, t2, (ty, a))
    if op == 'freeze':
        ty, a = p.tv()
        return Instr(op, res, ty, (a,))
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return Instr('br', None, None, unq(p.next()))
        ty, c = p.tv(); p.exp(','); p.exp('label'); a = unq(p.next()); p.exp(','); p.exp('label'); b = unq(p.next())
        return Instr('condbr', None, None, (c, a, b))
    if op == 'switch':
        ty, c = p.tv(); p.exp(','); p.exp('label'); d = unq(p.next()); p.exp('[')
        cases = []
        while not p.acc(']'):
            t2, v = p.tv(); p.exp(','); p.exp('label'); cases.append((v[1], unq(p.next())))
        return Instr('switch', None, ty, (c, d, cases))
    if op == 'ret':
        ty = p.type()
        return Instr('ret', None, ty, None if ty.k == 'void' else p.value(ty))
    if op == 'unreachable':
        return Instr('unreachable', None, None, None)
    if op in ('call', 'invoke'):
        while p.peek() in FMF: raise IRError('fast-math flag')
        rattrs = p.attrs()
        ty = p.type()
        if ty.k == 'fn': ty = ty.el
        k = p.kind()
        callee = p.value(Ty('ptr'))
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                at = p.type()
                if at.k == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x in '({[<': d += 1
                        if x in ')}]>': d -= 1
                    args.append((at, ('undef',), {}))
                else:
                    aa = p.attrs()
                    args.append((at, p.value(at), aa))
                if p.acc(')'): break
                p.exp(',')
        return Instr('call', res, ty, (callee, args))
    if op == 'extractvalue':
        ty, a = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return Instr(op, res, ty, (a, idx))
    if op == 'insertvalue':
        ty, a = p.tv(); p.exp(','); t2, b = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return Instr(op, res, ty, (a, t2, b, idx))
    if op == 'extractelement':
        ty, a = p.tv(); p.exp(','); t2, b = p.tv()
        return Instr(op, res, ty, (a, b))
    if op == 'insertelement':
        ty, a = p.tv(); p.exp(','); t2, b = p.tv(); p.exp(','); t3, c = p.tv()
        return Instr(op, res, ty, (a, b, c))
    if op == 'shufflevector':
        ty, a = p.tv(); p.exp(','); t2, b = p.tv(); p.exp(','); t3, c = p.tv()
        return Instr(op, res, ty, (a, b, t3, c))
    if op == 'fence':
        return Instr('nop', None, None, None)
    raise IRError('unsupported instruction: ' + line)

def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%'):
            p = P(mod, tokenize(ln))
            name = unq(p.next()); p.exp('='); p.exp('type')
            mod.types[name] = p.type()
        elif ln.startswith('@'):
            parse_global(mod, ln)
        elif ln.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
            mod.decls.add(unq('@' + m.group(1)))
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}': j += 1
            f = parse_func(mod, lines[i:j])
            mod.funcs[f.name] = f
            i = j
        i += 1
    return mod

LINKAGE = {'private', 'internal', 'linkonce_odr', 'linkonce', 'weak_odr', 'weak', 'external', 'unnamed_addr', 'local_unnamed_addr',
           'dso_local', 'hidden', 'available_externally', 'common', 'appending', 'thread_local', 'default', 'protected'}

def parse_global(mod, ln):
    p = P(mod, tokenize(ln))
    name = unq(p.next()); p.exp('=')
    ext = False
    while p.peek() in LINKAGE:
        if p.next() == 'external': ext = True
    k = p.next()
    if k == 'alias':
        ty = p.type(); p.exp(','); p.type(); mod.globals[name] = ('alias', p.value(Ty('ptr')), None)
        return
    if k not in ('constant', 'global'):
        raise IRError('global: ' + ln)
    ty = p.type()
    init = None
    if not ext:
        init = p.value(ty)
    mod.globals[name] = (ty, init, k == 'constant')

def parse_func(mod, lines):
    f = Func()
    hdr = lines[0]
    m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', hdr)
    f.name = unq('@' + m.group(1))
    pre = hdr[:m.start()]
    p = P(mod, tokenize(pre)); p.next()
    while p.peek() in LINKAGE: p.next()
    f.retattrs = p.attrs()
    f.ret = p.type()
    # params
    p = P(mod, tokenize(hdr[m.end():].rsplit('{', 1)[0]))
    f.params = []
    if not p.acc(')'):
        while True:
            if p.peek() == '...':
                p.next()
            else:
                ty = p.type(); at = p.attrs()
                f.params.append((ty, unq(p.next()), at))
            if p.acc(')'): break
            p.exp(',')
    f.blocks = {}
    f.order = []
    # entry label: the number following the params, or explicit label
    cur = None
    buf = None
    k = 1
    nparams_num = len([1 for q in f.params if q[1].isdigit()])
    body = lines[1:]
    first = True
    j = 0
    while j < len(body):
        ln = body[j]
        j += 1
        if not ln.strip(): continue
        mm = re.match(r'^("(?:[^"]*)"|[-A-Za-z$._0-9]+):', ln)
        if mm:
            cur = mm.group(1).strip('"')
            f.blocks[cur] = []; f.order.append(cur); first = False
            continue
        if first:
            cur = str(len(f.params))
            f.blocks[cur] = []; f.order.append(cur); first = False
        s = ln
        while s.rstrip().endswith('['):   # switch
            while True:
                s += ' ' + body[j].strip(); j += 1
                if s.rstrip().endswith(']') or re.search(r'\](, !.*)?$', s.rstrip()): break
            break
        s = re.sub(r', !(srcloc|tbaa|range|noundef|nonnull|prof|llvm\.loop|dbg|heapallocsite|noalias|alias\.scope)[^,]*', '', s)
        f.blocks[cur].append(parse_instr(mod, s))
    f.entry = f.order[0]
    f.ipdom = compute_ipdom(f)
    return f

EXIT = '<exit>'

def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == 'br': return [t.a]
    if t.op == 'condbr': return [t.a[1], t.a[2]]
    if t.op == 'switch': return [t.a[1]] + [c[1] for c in t.a[2]]
    return [EXIT]

def compute_ipdom(f):
    """immediate postdominators (virtual exit EXIT), simple set-based iteration"""
    nodes = f.order + [EXIT]
    su = {b: succs(f, b) for b in f.order}
    # reverse postorder on reversed graph
    preds = {b: [] for b in nodes}
    for b in f.order:
        for s in su[b]: preds[s].append(b)
    order = []; seen = set()
    st = [(EXIT, iter(preds[EXIT]))]; seen.add(EXIT)
    while st:
        x, it = st[-1]
        for y in it:
            if y not in seen:
                seen.add(y); st.append((y, iter(preds[y]))); break
        else:
            order.append(x); st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {EXIT: EXIT}
    changed = True
    def inter(a, b):
        while a != b:
            while num[a] > num[b]: a = idom[a]
            while num[b] > num[a]: b = idom[b]
        return a
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for s in su[b]:
                if s in idom:
                    new = s if new is None else inter(s, new)
            if new is not None and idom.get(b) != new:
                idom[b] = new; changed = True
    return idom
