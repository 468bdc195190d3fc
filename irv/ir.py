"""Parser for the textual LLVM 18 IR that clang emits for the C sources.

Only the subset that clang -O0 + mem2reg/sroa + loop-simplify produces for C89 code is
accepted; anything else raises Unsupported (the unit is then reported as not provable,
never as a violation).
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cmt>;.*)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<str>"[^"]*")
 | (?P<lid>%[-a-zA-Z$._0-9]+|%"[^"]*")
 | (?P<gid>@[-a-zA-Z$._0-9]+|@"[^"]*")
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[-+][0-9]+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token: %r' % s[i:i + 40])
        k = m.lastgroup
        if k == 'cmt':
            break
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'packed')

    def __init__(self, k, n=0, e=None, packed=False):
        self.k, self.n, self.e, self.packed = k, n, e, packed

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.e)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.e))
        return self.k


VOID = Ty('void')
PTR = Ty('ptr')
DBL = Ty('double')
FP80 = Ty('x86_fp80')
FLT = Ty('float')
LABEL = Ty('label')
META = Ty('metadata')
_ints = {}


def I(n):
    if n not in _ints:
        _ints[n] = Ty('i', n)
    return _ints[n]


def align_of(t):
    if t.k == 'i':
        b = (t.n + 7) // 8
        a = 1
        while a < b:
            a *= 2
        return min(a, 16)
    if t.k in ('ptr', 'double'):
        return 8
    if t.k == 'float':
        return 4
    if t.k == 'x86_fp80':
        return 16
    if t.k == 'arr':
        return align_of(t.e)
    if t.k == 'struct':
        return 1 if t.packed or not t.e else max(align_of(x) for x in t.e)
    raise Unsupported('align %r' % t)


def size_of(t):
    if t.k == 'i':
        a = align_of(t)
        b = (t.n + 7) // 8
        return (b + a - 1) // a * a
    if t.k in ('ptr', 'double'):
        return 8
    if t.k == 'float':
        return 4
    if t.k == 'x86_fp80':
        return 16
    if t.k == 'arr':
        return t.n * size_of(t.e)
    if t.k == 'struct':
        return struct_layout(t)[1]
    raise Unsupported('size %r' % t)


def struct_layout(t):
    off = 0
    offs = []
    for e in t.e:
        a = 1 if t.packed else align_of(e)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += size_of(e)
    a = align_of(t)
    off = (off + a - 1) // a * a
    return offs, off


def leaves(t, base=0):
    """(offset, scalar type) of every scalar in t."""
    if t.k == 'struct':
        offs, _ = struct_layout(t)
        for o, e in zip(offs, t.e):
            yield from leaves(e, base + o)
    elif t.k == 'arr':
        s = size_of(t.e)
        for i in range(t.n):
            yield from leaves(t.e, base + i * s)
    else:
        yield base, t


# ---------------------------------------------------------------- module
class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'flags', 'fn')

    def __init__(self, op, dst, ty, a, line=None, flags=()):
        self.op, self.dst, self.ty, self.a, self.line, self.flags = op, dst, ty, a, line, flags
        self.fn = None

    def __repr__(self):
        return '<%s %s %r>' % (self.op, self.dst, self.a)


class Block:
    __slots__ = ('name', 'insts', 'phis', 'succs')

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.phis = []
        self.succs = []


class Func:
    def __init__(self, name, ret, params, vararg, module, internal):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self.module, self.internal = module, internal
        self.blocks = {}
        self.order = []
        self.entry = None
        self._loops = None
        self._live = None
        self._rpo = {}

    def __repr__(self):
        return '<Func %s>' % self.name

    @property
    def single(self):
        return len(self.blocks) == 1

    def rpo_index(self, b):
        self.loops()
        return self._rpo.get(b, 1 << 30)

    def live_in(self, blk):
        """registers that may be read at or after the start of blk (its own phis included)"""
        if self._live is None:
            use, dfn = {}, {}

            def regs(x, out):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
                        out.add(x[1])
                    else:
                        for y in x:
                            regs(y, out)
                elif isinstance(x, list):
                    for y in x:
                        regs(y, out)
            edge = {}
            for b in self.order:
                u, d = set(), set()
                B = self.blocks[b]
                for ph in B.phis:
                    d.add(ph.dst)
                    for v, src in ph.a:
                        o = set()
                        regs(v, o)
                        edge.setdefault(src, set()).update(o)
                for i in B.insts:
                    o = set()
                    regs(i.a, o)
                    u |= o - d
                    if i.dst:
                        d.add(i.dst)
                use[b], dfn[b] = u, d
            live = {b: set() for b in self.order}
            ch = True
            while ch:
                ch = False
                for b in reversed(self.order):
                    o = set(edge.get(b, ()))
                    for s in self.blocks[b].succs:
                        o |= live[s] - set(p.dst for p in self.blocks[s].phis)
                    n = use[b] | (o - dfn[b])
                    if n != live[b]:
                        live[b] = n
                        ch = True
            for b in self.order:
                allu = set()
                for p in self.blocks[b].phis:
                    live[b].add(p.dst)
            self._live = live
        return self._live[blk]

    # -- natural loops
    def loops(self):
        if self._loops is not None:
            return self._loops
        succ = {b: self.blocks[b].succs for b in self.order}
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in succ[b]:
                preds[s].append(b)
        # reverse post order
        seen = set()
        rpo = []
        stack = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                rpo.append(b)
                stack.pop()
        rpo.reverse()
        idx = {b: i for i, b in enumerate(rpo)}
        self._rpo = idx
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        L = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = L.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in preds[x] if p in idx)
                elif idx[s] <= idx[b]:
                    raise Unsupported('irreducible control flow in %s' % self.name)
        self._loops = L
        self._idx = idx
        return L


class Global:
    def __init__(self, name, ty, init, const, module, internal):
        self.name, self.ty, self.init, self.const = name, ty, init, const
        self.module, self.internal = module, internal


# ---------------------------------------------------------------- parser
SKIP_WORDS = {
    'noundef', 'signext', 'zeroext', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
    'noalias', 'immarg', 'inreg', 'nofree', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'tail', 'musttail',
    'notail', 'fastcc', 'ccc', 'private', 'internal', 'external', 'common', 'hidden', 'linkonce_odr', 'weak',
    'nest', 'allocptr', 'allocalign', 'default', 'thread_local', 'dso_preemptable', 'nneg', 'disjoint', 'swiftself',
}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise Unsupported('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:200]))
        self.i += 1

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'range',
                     'captures', 'memory', 'alignstack', 'allocsize', 'preallocated', 'addrspace'):
                self.next()
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
                elif self.kind() == 'num':
                    self.next()
            elif p in SKIP_WORDS or self.kind() == 'attr':
                self.next()
            else:
                return

    def type(self):
        t = self.type0()
        while True:
            if self.peek() == '(':
                # function type
                self.next()
                args = []
                va = False
                while not self.accept(')'):
                    if self.kind() == 'dots':
                        self.next()
                        va = True
                    else:
                        args.append(self.type())
                        self.skip_attrs()
                    self.accept(',')
                t = Ty('fn', 0, (t, args, va))
            else:
                return t

    def type0(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if v == 'void':
                return VOID
            if v == 'ptr':
                self.skip_attrs()
                return PTR
            if v == 'double':
                return DBL
            if v == 'float':
                return FLT
            if v == 'x86_fp80':
                return FP80
            if v == 'label':
                return LABEL
            if v == 'metadata':
                return META
            if re.fullmatch(r'i\d+', v):
                return I(int(v[1:]))
            if v == 'opaque':
                return Ty('opaque')
        if k == 'lid':
            return self.mod.named(v)
        if v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return Ty('arr', n, e)
        if v == '{':
            es = []
            while not self.accept('}'):
                es.append(self.type())
                self.accept(',')
            return Ty('struct', 0, es)
        if v == '<' and self.peek() == '{':
            self.next()
            es = []
            while not self.accept('}'):
                es.append(self.type())
                self.accept(',')
            self.expect('>')
            return Ty('struct', 0, es, True)
        raise Unsupported('type %r' % v)

    # values: ('l',name) ('g',name) ('c',int) ('null',) ('undef',) ('zero',) ('str',bytes) ('agg',[(ty,val)])
    #         ('gep',srcTy,base(ty,val),[(ty,val)]) ('ce',op,...)
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'lid':
            return ('l', v)
        if k == 'gid':
            return ('g', v)
        if k == 'num':
            if ty.k in ('double', 'float'):
                return ('f', float(v))
            return ('c', int(v))
        if k == 'hex':
            return ('fx', v)
        if k == 'cstr':
            raw = v[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(raw[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(raw[i]))
                    i += 1
            return ('str', bytes(b))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                self.accept('inbounds')
                self.expect('(')
                st = self.type()
                self.expect(',')
                bt = self.type()
                bv = self.value(bt)
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('gep', st, (bt, bv), idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                ft = self.type()
                fv = self.value(ft)
                self.expect('to')
                tt = self.type()
                self.expect(')')
                return ('cast', v, ft, fv, tt)
        if v in ('[', '{') or (v == '<' and self.peek() == '{'):
            close = {'[': ']', '{': '}', '<': '}'}[v]
            if v == '<':
                self.next()
            es = []
            while not self.accept(close):
                t = self.type()
                es.append((t, self.value(t)))
                self.accept(',')
            if v == '<':
                self.expect('>')
            return ('agg', es)
        raise Unsupported('value %r' % v)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        if t.k == 'metadata':
            # swallow metadata operand
            d = 0
            while self.peek() is not None:
                if self.peek() in ('(', '{'):
                    d += 1
                if self.peek() in (')', '}'):
                    if d == 0:
                        break
                    d -= 1
                if self.peek() == ',' and d == 0:
                    break
                self.next()
            return (t, ('undef',))
        return (t, self.value(t))


class Module:
    def __init__(self, path, tag):
        self.tag = tag
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.dilines = {}
        self.parse(open(path).read())

    def named(self, v):
        if v not in self.types:
            self.types[v] = Ty('opaque')
        return self.types[v]

    def parse(self, text):
        lines = text.split('\n')
        # debug line table
        scopes = {}
        files = {}
        for m in re.finditer(r'^(!\d+) = (?:distinct )?!DI(\w+)\((.*)\)$', text, re.M):
            n, kind, body = m.groups()
            if kind == 'Location':
                ln = re.search(r'line: (\d+)', body)
                sc = re.search(r'scope: (!\d+)', body)
                ia = re.search(r'inlinedAt', body)
                self.dilines[n] = (int(ln.group(1)) if ln else 0, sc.group(1) if sc else None)
            elif kind in ('Subprogram', 'LexicalBlock', 'LexicalBlockFile'):
                f = re.search(r'file: (!\d+)', body)
                scopes[n] = f.group(1) if f else None
            elif kind == 'File':
                f = re.search(r'filename: "([^"]*)"', body)
                files[n] = f.group(1)
        self.scopefile = {s: files.get(f, '?') for s, f in scopes.items()}
        # types (two passes so forward references share the object)
        for l in lines:
            m = re.match(r'^(%[-\w.$"]+) = type (.*)$', l)
            if m:
                name = m.group(1)
                self.named(name)
        for l in lines:
            m = re.match(r'^(%[-\w.$"]+) = type (.*)$', l)
            if m:
                p = P(tokenize(m.group(2)), self)
                t = p.type()
                o = self.types[m.group(1)]
                o.k, o.n, o.e, o.packed = t.k, t.n, t.e, t.packed
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'):
                if not l.startswith("@llvm."):
                    self.parse_global(l)
            elif l.startswith('declare'):
                f = self.parse_sig(l)
                self.decls[f.name] = f
            elif l.startswith('define'):
                f = self.parse_sig(l)
                i += 1
                cur = None
                buf = None
                while lines[i] != '}':
                    s = lines[i]
                    i += 1
                    m = re.match(r'^([-\w.$]+|"[^"]*"):', s)
                    if m:
                        cur = Block('%' + m.group(1))
                        f.blocks[cur.name] = cur
                        f.order.append(cur.name)
                        continue
                    s = s.strip()
                    if not s or s.startswith(';') or s.startswith('#dbg'):
                        continue
                    # switch tables span lines
                    if s.startswith('switch ') and ']' not in s:
                        while ']' not in lines[i]:
                            s += ' ' + lines[i].strip()
                            i += 1
                        s += ' ' + lines[i].strip()
                        i += 1
                    if cur is None:
                        cur = Block('%entry.implicit')
                        f.blocks[cur.name] = cur
                        f.order.append(cur.name)
                    ins = self.parse_inst(s)
                    if ins is None:
                        continue
                    if ins.op == 'phi':
                        cur.phis.append(ins)
                    else:
                        cur.insts.append(ins)
                        if ins.op == 'br':
                            cur.succs = [x for x in ins.a if isinstance(x, str)]
                        elif ins.op == 'switch':
                            cur.succs = list(dict.fromkeys([ins.a[1]] + [c[1] for c in ins.a[2]]))
                f.entry = f.order[0]
                self.funcs[f.name] = f
            i += 1

    def parse_global(self, l):
        l2 = re.sub(r', (align \d+|comdat|section "[^"]*"|!dbg !\d+)', '', l)
        m = re.match(r'^(@[-\w.$"]+) = (.*)$', l2)
        name, rest = m.groups()
        p = P(tokenize(rest), self)
        internal = False
        ext = False
        const = False
        while True:
            v = p.peek()
            if v in ('private', 'internal'):
                internal = True
                p.next()
            elif v == 'external':
                ext = True
                p.next()
            elif v in SKIP_WORDS:
                p.next()
            elif v in ('global', 'constant'):
                const = v == 'constant'
                p.next()
                break
            else:
                raise Unsupported('global %r' % l[:80])
        t = p.type()
        init = None
        if not ext:
            init = p.value(t)
        self.globals[name] = Global(name, t, init, const, self, internal)

    def parse_sig(self, l):
        p = P(tokenize(l), self)
        p.next()
        internal = False
        while True:
            if p.peek() in ('internal', 'private'):
                internal = True
            before = p.i
            p.skip_attrs()
            if p.i == before:
                break
        rt = p.type0()
        p.skip_attrs()
        name = p.next()
        p.expect('(')
        params = []
        va = False
        n = 0
        while not p.accept(')'):
            if p.kind() == 'dots':
                p.next()
                va = True
            else:
                t = p.type()
                byval = None
                # byval parameters are not used by this code base on the verified paths
                while True:
                    b = p.i
                    if p.peek() == 'byval':
                        byval = True
                    p.skip_attrs()
                    if p.i == b:
                        break
                if t.k == 'metadata':
                    nm = None
                elif p.kind() == 'lid':
                    nm = p.next()
                else:
                    nm = '%' + str(n)
                n += 1
                params.append((t, nm, byval))
            p.accept(',')
        return Func(name, rt, params, va, self, internal)

    def parse_inst(self, s):
        line = None
        m = re.search(r', !dbg (!\d+)', s)
        if m:
            line = self.dilines.get(m.group(1))
            if line:
                line = (self.scopefile.get(line[1], '?'), line[0])
        s = re.sub(r', !\w[\w.]* !\d+', '', s)
        p = P(tokenize(s), self)
        dst = None
        if p.kind() == 'lid' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        flags = []
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz'):
                flags.append(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Inst(op, dst, t, (a, b), line, flags)
        if op == 'fneg':
            t = p.type()
            return Inst(op, dst, t, (p.value(t),), line)
        if op in ('icmp', 'fcmp'):
            pr = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Inst(op, dst, t, (pr, a, b), line)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
                  'fpext', 'fptrunc'):
            p.accept('nneg')
            ft, fv = p.tv()
            p.expect('to')
            tt = p.type()
            return Inst(op, dst, tt, (ft, fv), line)
        if op == 'freeze':
            t, v = p.tv()
            return Inst('copy', dst, t, (v,), line)
        if op == 'load':
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            pt, pv = p.tv()
            return Inst(op, dst, t, (pv,), line)
        if op == 'store':
            p.accept('volatile')
            t, v = p.tv()
            p.expect(',')
            pt, pv = p.tv()
            return Inst(op, None, t, (v, pv), line)
        if op == 'alloca':
            t = p.type()
            n = ('c', 1)
            nt = I(32)
            while p.accept(','):
                if p.peek() == 'align':
                    p.skip_attrs()
                else:
                    nt = p.type()
                    n = p.value(nt)
            return Inst(op, dst, t, (nt, n), line)
        if op == 'getelementptr':
            p.accept('inbounds')
            st = p.type()
            p.expect(',')
            bt, bv = p.tv()
            idx = []
            while p.accept(','):
                idx.append(p.tv())
            return Inst(op, dst, st, (bv, idx), line)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Inst(op, None, None, (p.next(),), line)
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return Inst(op, None, None, (c, a, b) if not isinstance(c, str) else None, line)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()))
            return Inst(op, None, t, (v, d, cases), line)
        if op == 'ret':
            t = p.type()
            if t.k == 'void':
                return Inst(op, None, t, (), line)
            return Inst(op, None, t, (p.value(t),), line)
        if op == 'unreachable':
            return Inst(op, None, None, (), line)
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            return Inst(op, dst, t, inc, line)
        if op == 'select':
            ct, c = p.tv()
            p.expect(',')
            t, a = p.tv()
            p.expect(',')
            t2, b = p.tv()
            return Inst(op, dst, t, (c, a, b), line)
        if op == 'call':
            p.skip_attrs()
            while p.peek() in ('fast', 'nnan'):
                p.next()
            t = p.type()
            if t.k == 'fn':
                rt = t.e[0]
            else:
                rt = t
            p.skip_attrs()
            if p.kind() == 'word' and p.peek() == 'asm':
                raise Unsupported('asm')
            callee = p.value(PTR)
            if callee[0] == 'g' and callee[1].startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.assume',
                                                          '@llvm.experimental')):
                return None
            p.expect('(')
            args = []
            while not p.accept(')'):
                args.append(p.tv())
                p.accept(',')
            return Inst(op, dst, rt, (callee, args), line)
        if op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Inst(op, dst, t, (v, idx), line)
        if op == 'insertvalue':
            t, v = p.tv()
            p.expect(',')
            et, ev = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Inst(op, dst, t, (v, et, ev, idx), line)
        raise Unsupported('instruction %r' % s[:80])


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        m = Module(f, f)
        for n, fn in m.funcs.items():
            print(n, len(fn.order), {h: len(b) for h, b in fn.loops().items()})
