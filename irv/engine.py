"""irv: a deductive verifier for C functions, working on the LLVM IR that clang emits for the
unmodified sources.

* every input is symbolic and unbounded (strings, tables and buffers have symbolic sizes);
* loops are either shown to leave within a small number of iterations on every path (complete
  unrolling) or cut at their header by an inductive invariant: candidates come from templates
  over the loop's own variables (values, not names), from recursive specification functions
  (sp_*) and from predicates written next to the contracts (inv_*), and are pruned to the
  largest inductive subset (Houdini); the final subset is re-checked for initiation and
  consecution, so a candidate is never trusted;
* calls to a function that has a contract run the contract (requires asserted, ensures assumed);
* every memory access, signed arithmetic operation and stated assertion is an obligation that
  z3 has to discharge for all inputs.
"""
import sys, time, itertools
import z3
from ir import *

sys.setrecursionlimit(20000)

BV8, BV16, BV32, BV64 = (z3.BitVecSort(n) for n in (8, 16, 32, 64))
SORT = {'b8': BV8, 'b16': BV16, 'b32': BV32, 'b64': BV64}
WIDTH = {'b8': 1, 'b16': 2, 'b32': 4, 'b64': 8, 'ptr': 8}
CLASSES = ('b8', 'b16', 'b32', 'b64', 'ptr')
MAXSZ = 1 << 40

def bv(v, n=64):
    return z3.BitVecVal(v, n)


def simp(t):
    return z3.simplify(t)


def narrow(a, b, pr):
    """the operands of a comparison without their common sign extension"""
    if pr in ('ult', 'ule', 'ugt', 'uge'):
        return a, b
    sa, sb = (z3.is_app_of(x, z3.Z3_OP_SIGN_EXT) for x in (a, b))
    if sa and sb:
        x, y = a.arg(0), b.arg(0)
        n = max(x.size(), y.size())
        return (x if x.size() == n else z3.SignExt(n - x.size(), x)), (y if y.size() == n else z3.SignExt(n - y.size(), y))
    if sa and isc(b):
        x, c = a.arg(0), b.as_signed_long()
        n = x.size()
        if -(1 << (n - 1)) <= c < (1 << (n - 1)):
            return x, z3.BitVecVal(c, n)
    if sb and isc(a):
        y, x = narrow(b, a, pr)
        return x, y
    return a, b


def isc(t):
    return z3.is_bv_value(t)


def cval(t):
    return t.as_long() if z3.is_bv_value(t) else None


def scval(t):
    return t.as_signed_long() if z3.is_bv_value(t) else None


class Ptr:
    __slots__ = ('rg', 'off')

    def __init__(self, rg, off):
        if not isinstance(rg, int):
            rg = simp(rg)
            if z3.is_bv_value(rg):
                rg = rg.as_long()
        self.rg = rg
        self.off = off

    def rgt(self):
        return z3.BitVecVal(self.rg, 16) if isinstance(self.rg, int) else self.rg

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.rg, self.off)


NULL = Ptr(0, bv(0))


class PtrInt:
    """result of ptrtoint, kept structured so that differences stay exact"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


_fresh = itertools.count()


RIDF = {}     # region -> when it was created


def fresh(prefix, sort):
    return z3.Const('%s!%d' % (prefix, next(_fresh)), sort)


def fresh_bv(prefix, n):
    return z3.BitVec('%s!%d' % (prefix, next(_fresh)), n)


_fv = {}


def freevars(t):
    """ids of uninterpreted constants in t"""
    k = t.get_id()
    r = _fv.get(k)
    if r is not None and r[0] is not None and r[0].eq(t):
        return r[1]
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    _fv[k] = (t, frozenset(out))
    return _fv[k][1]


# ------------------------------------------------------------------ memory
_ver = itertools.count(1)


class Node:
    __slots__ = ('kind', 'a', 'parent', 'ver', 'depth')

    def __init__(self, kind, a, parent=None):
        self.kind, self.a, self.parent = kind, a, parent
        self.ver = next(_ver)
        self.depth = parent.depth + 1 if parent else 0


class Obj:
    """a memory object. fam=None, or (shift, count): element i occupies offsets
    [i<<shift, (i<<shift)+esize(i))."""

    def __init__(self, rid, name, size, kind, const=False):
        self.rid, self.name, self.size, self.kind, self.const = rid, name, size, kind, const
        self.fam = None
        self.esize = None      # fn(idx)->BV64 for families
        self.nul = None        # fn(off)-> offset of the terminator that ends the string at off
        self.rules = []        # fn(state, cls, off, value): facts about the initial contents
        self.ftag = None       # function object for kind 'func'
        self.data = None       # bytes for constant strings
        self.input = None
        self.view = None       # fn(st, cls, off) -> value: contents given by a function

    def __repr__(self):
        return '<obj %d %s>' % (self.rid, self.name)


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'idx', 'env', 'dst', 'allocas', 'mark')

    def __init__(self, fn):
        self.fn = fn
        self.block = fn.entry
        self.prev = None
        self.idx = 0
        self.env = {}
        self.dst = None
        self.allocas = ()
        self.mark = None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.idx, f.dst = self.fn, self.block, self.prev, self.idx, self.dst
        f.env = dict(self.env)
        f.allocas = self.allocas
        f.mark = self.mark
        return f


class State:
    def __init__(self):
        self.pc = []
        self.mem = {}
        self.objs = {}
        self.freed = frozenset()
        self.frames = []
        self.inputs = ()
        self.unroll = {}
        self.sp = ()
        self.cov = ()
        self.facts = set()
        self.nlive = 0
        self.approx = False
        self.snaps = ()
        self.memo = {}
        self.rrules = {}
        self.rseen = {}
        self.zoffs = {}
        self.ukey = None

    def clone(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.objs = dict(self.objs)
        s.freed = self.freed
        s.frames = [f.clone() for f in self.frames]
        s.inputs = self.inputs
        s.unroll = dict(self.unroll)
        s.sp = self.sp
        s.cov = self.cov
        s.facts = set(self.facts)
        s.nlive = self.nlive
        s.approx = self.approx
        s.snaps = self.snaps
        s.memo = dict(self.memo)
        s.rrules = dict(self.rrules)
        s.rseen = dict(self.rseen)
        s.zoffs = dict(self.zoffs)
        s.ukey = None
        return s

    def assume(self, c):
        self.pc.append(c)

    def fact(self, c):
        """a consequence of the contracts of memory objects (not a branch condition)"""
        k = c.get_id()
        if k in self.facts:
            return
        self.facts.add(k)
        self.pc.append(c)


class Stop(Exception):
    """path ends (infeasible / terminated)"""


class Budget(Exception):
    pass


class Obligation:
    def __init__(self, kind, name, loc):
        self.kind, self.name, self.loc = kind, name, loc
        self.checks = 0
        self.status = 'proved'
        self.inputs = None
        self.detail = None
        self.time = 0.0

    def key(self):
        return '%s|%s|%s' % (self.kind, self.name, self.loc)


class LoopCtx:
    def __init__(self, depth, fn, header, body):
        self.depth, self.fn, self.header, self.body = depth, fn, header, body
        self.writes = set()
        self.symw = []
        self.cmps = {}
        self.backs = []
        self.exits = []
        self.frees = set()
        self.reads = set()


class Engine:
    def __init__(self, modules, harness_tag, opts=None):
        self.mods = modules
        self.htag = harness_tag
        self.o = dict(unroll=4, unroll_max={}, timeout=10000, feas_timeout=3000, inc_timeout=250, contracts={}, max_paths=200000,
                      bounded=None, fuel=1, deadline=None, overflow=True, verbose=0, loop_hint={}, nocut=(),
                      terminate=True, max_depth=40, recursion=12, merge_sharp=10, merge=1, opaque=())
        self.o.update(opts or {})
        self.solver = z3.Solver()
        self.solver.set('timeout', self.o['inc_timeout'])
        self.sstack = []
        self.obls = {}
        self.covers = set()
        self.stats = dict(paths=0, queries=0, qtime=0.0, steps=0, loops_cut=0, loops_unrolled=0, inst=0)
        self.checking = 1
        self.loops = []           # active LoopCtx
        self.cutset = {}          # (fn, header) -> True
        self.dropped = {}         # loop key -> set of candidate names known bad
        self.wcache = {}
        self.rcache = {}
        self.gobj = {}            # object -> (global name, module)
        self.loopinfo = {}        # report: loop -> surviving invariants
        self.rid = itertools.count(1)
        self.functions_seen = set()
        self.contracts_used = set()
        self.externals_used = set()
        self.fnobj = {}
        self.spfun = {}
        self.sp_unfold_depth = 0
        self.pure_depth = 0
        self.unsupported = []
        self.addrs = {}
        self.keep = []
        self.defs = {}
        import libc
        self.builtins = libc.table(self)

    # ---------------------------------------------------------------- symbols
    def find_func(self, name, mod):
        f = mod.funcs.get(name)
        if f:
            return f
        for m in self.mods:
            f = m.funcs.get(name)
            if f and not f.internal:
                return f
        if mod.tag == self.htag:
            c = [m.funcs[name] for m in self.mods if name in m.funcs]
            if len(c) == 1:
                return c[0]
        return None

    def find_global(self, name, mod):
        g = mod.globals.get(name)
        if g and g.init is not None:
            return g
        for m in self.mods:
            g = m.globals.get(name)
            if g and g.init is not None and not g.internal:
                return g
        if mod.tag == self.htag:
            c = [m.globals[name] for m in self.mods if name in m.globals and m.globals[name].init is not None]
            if len(c) == 1:
                return c[0]
        return mod.globals.get(name)

    # ---------------------------------------------------------------- objects
    def new_obj(self, st, name, size, kind, const=False):
        r = next(self.rid)
        RIDF[r] = next(_fresh)
        o = Obj(r, name, size if not isinstance(size, int) else bv(size), kind, const)
        st.objs[r] = o
        return o

    def func_ptr(self, st, fn, name):
        key = (fn.module.tag if fn else '', name)
        r = self.fnobj.get(key)
        if r is None:
            r = next(self.rid)
            RIDF[r] = next(_fresh)
            o = Obj(r, name, bv(0), 'func', True)
            o.ftag = fn if fn else name
            self.fnobj[key] = r
            self.addrs[r] = o
        if r not in st.objs:
            st.objs[r] = self.addrs[r]
        return Ptr(r, bv(0))

    def global_ptr(self, st, name, mod):
        fn = self.find_func(name, mod)
        if fn:
            return self.func_ptr(st, fn, name)
        g = self.find_global(name, mod)
        if g is None:
            if name in mod.decls:
                return self.func_ptr(st, None, name)
            raise Unsupported('global %s' % name)
        key = ('G', g.module.tag, g.name)
        if g.const and g.internal and g.name.startswith('@.str') and g.init and g.init[0] == 'str':
            key = ('S', g.init[1])     # equal string literals share one object
        r = self.fnobj.get(key)
        if r is None:
            r = next(self.rid)
            RIDF[r] = next(_fresh)
            self.fnobj[key] = r
            o = Obj(r, g.name, bv(size_of(g.ty)) if g.ty.k != 'opaque' else bv(8), 'global', g.const)
            if g.const and g.init and g.init[0] == 'str':
                o.data = g.init[1]
            elif g.const and g.init and g.init[0] == 'zero' and g.ty.k == 'arr' and g.ty.e.k == 'i' and g.ty.e.n == 8:
                o.data = bytes(g.ty.n)
            self.addrs[r] = o
            self.gobj[r] = (name, mod)
        if r not in st.objs:
            o = self.addrs[r]
            st.objs[r] = o
            if o.data is not None:
                st.mem[(r, 'b8')] = Node('bytes', o.data)
            elif g.init is not None:
                self.init_global(st, o, g)
            # else: external data object (stdin, environ): arbitrary contents
        return Ptr(r, bv(0))

    def init_global(self, st, o, g):
        for c in CLASSES:
            st.mem[(o.rid, c)] = Node('zero', c)

        def put(off, ty, v):
            if v[0] == 'zero' or v[0] == 'undef':
                return
            if v[0] == 'agg':
                if ty.k == 'struct':
                    offs, _ = struct_layout(ty)
                    for fo, (et, ev) in zip(offs, v[1]):
                        put(off + fo, et, ev)
                else:
                    s = size_of(ty.e)
                    for i, (et, ev) in enumerate(v[1]):
                        put(off + i * s, et, ev)
                return
            if v[0] == 'str':
                for i, b in enumerate(v[1]):
                    st.mem[(o.rid, 'b8')] = Node('st', (bv(off + i), bv(b, 8)), st.mem[(o.rid, 'b8')])
                return
            val = self.const_value(st, ty, v, g.module)
            c = self.cls(ty)
            st.mem[(o.rid, c)] = Node('st', (bv(off), self.tostore(val, ty)), st.mem[(o.rid, c)])
        put(0, g.ty, g.init)

    def cls(self, ty):
        if ty.k == 'ptr':
            return 'ptr'
        if ty.k == 'i':
            if ty.n <= 8:
                return 'b8'
            if ty.n <= 16:
                return 'b16'
            if ty.n == 32:
                return 'b32'
            if ty.n == 64:
                return 'b64'
        if ty.k == 'double':
            return 'b64'
        if ty.k == 'float':
            return 'b32'
        raise Unsupported('memory access of type %r' % ty)

    def tostore(self, v, ty):
        if ty.k == 'i' and ty.n == 1:
            return z3.If(v, bv(1, 8), bv(0, 8))
        return v

    def base(self, st, rid, cls):
        n = st.mem.get((rid, cls))
        if n is None:
            k = ('B', rid, cls)
            n = self.addrs.get(k)
            if n is None:
                if cls == 'ptr':
                    n = Node('base', (z3.Array('R_%d_rg' % rid, BV64, BV16), z3.Array('R_%d_po' % rid, BV64, BV64), ()))
                else:
                    n = Node('base', (z3.Array('R_%d_%s' % (rid, cls), BV64, SORT[cls]), None, ()))
                self.addrs[k] = n
            st.mem[(rid, cls)] = n
        return n

    def ite(self, c, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a.rg is b.rg or (isinstance(a.rg, int) and isinstance(b.rg, int) and a.rg == b.rg):
                rg = a.rg
            else:
                rg = z3.If(c, a.rgt(), b.rgt())
            return Ptr(rg, a.off if a.off.eq(b.off) else z3.If(c, a.off, b.off))
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def read_node(self, st, rid, cls, node, off, depth=0):
        """value at offset off in memory version node (an ite over unresolved layers)"""
        conds = []
        res = None
        off = simp(off)
        while True:
            k = node.kind
            if k == 'st':
                o, v = node.a
                d = simp(off - o)
                if isc(d):
                    if d.as_long() == 0:
                        res = v
                        break
                else:
                    conds.append((off == o, v))
                node = node.parent
            elif k == 'cp':
                do, n, snode, so, srid = node.a
                inr = simp(z3.ULT(off - do, n))
                if z3.is_true(inr):
                    res = self.read_node(st, srid, cls, snode, simp(off - do + so), depth + 1)
                    break
                if not z3.is_false(inr):
                    conds.append((inr, self.read_node(st, srid, cls, snode, simp(off - do + so), depth + 1)))
                node = node.parent
            elif k == 'map':
                for c, so in node.a[0](off):
                    c = simp(c)
                    if not z3.is_false(c):
                        conds.append((c, self.read_node(st, rid, cls, node.a[1], simp(so), depth + 1)))
                node = node.parent
            elif k == 'fill':
                do, n, v = node.a
                inr = simp(z3.ULT(off - do, n))
                if z3.is_true(inr):
                    res = v
                    break
                if not z3.is_false(inr):
                    conds.append((inr, v))
                node = node.parent
            elif k == 'zero':
                res = NULL if cls == 'ptr' else z3.BitVecVal(0, SORT[cls])
                break
            elif k == 'bytes':
                c = cval(off)
                if c is not None:
                    res = bv(node.a[c] if c < len(node.a) else 0, 8)
                else:
                    arr = self.addrs.get(('A', node.ver))
                    if arr is None:
                        arr = z3.K(BV64, bv(0, 8))
                        for i, b in enumerate(node.a):
                            if b:
                                arr = z3.Store(arr, bv(i), bv(b, 8))
                        self.addrs[('A', node.ver)] = arr
                    res = z3.Select(arr, off)
                break
            else:
                arr, arr2, rules = node.a
                if cls == 'ptr':
                    res = Ptr(z3.Select(arr, off), z3.Select(arr2, off))
                else:
                    res = z3.Select(arr, off)
                if node is self.addrs.get(('B', rid, cls)):
                    o = st.objs.get(rid)
                    if o is not None and o.view is not None:
                        v = o.view(st, cls, off)
                        if v is not None:
                            res = v
                            break
                if depth < 6:
                    self.inst_rules(st, rid, cls, node, off, res, depth)
                break
        for c, v in reversed(conds):
            res = self.ite(c, v, res)
        if not isinstance(res, Ptr):
            res = simp(res)
        return res

    def inst_rules(self, st, rid, cls, node, off, val, depth):
        key = ('I', node.ver, off.get_id())
        done = st.facts
        if key in done:
            return
        done.add(key)
        self.keep.append(off)
        o = st.objs.get(rid)
        if o is not None and node is self.addrs.get(('B', rid, cls)):
            for r in o.rules:
                self.stats['inst'] += 1
                r(st, cls, off, val)
        for r in node.a[2]:
            self.stats['inst'] += 1
            r(st, off, val, depth)

    def mem_read(self, st, p, cls):
        if self.loops:
            c = cval(simp(p.off))
            if c is not None:
                for L in self.loops:
                    L.reads.add((p.rg, cls, c))
        n = self.base(st, p.rg, cls)
        v = self.read_node(st, p.rg, cls, n, p.off)
        if cls == 'b8':
            self.note_read(st, n, simp(p.off), v)
        return v

    # facts of the form "for all k: ..." about one memory version, instantiated at every offset read
    def note_read(self, st, node, off, v):
        seen = st.rseen.get(node.ver, ())
        for o, _ in seen:
            if o.eq(off):
                return
        st.rseen[node.ver] = seen + ((off, v),)
        for f in st.rrules.get(node.ver, ()):
            self.stats['inst'] += 1
            st.fact(simp(f(st, off, v)))

    def add_rrule(self, st, node, f):
        st.rrules[node.ver] = st.rrules.get(node.ver, ()) + (f,)
        for o, v in st.rseen.get(node.ver, ()):
            self.stats['inst'] += 1
            st.fact(simp(f(st, o, v)))

    def mem_write(self, st, p, cls, v):
        n = self.base(st, p.rg, cls)
        off = simp(p.off)
        # overwrite directly if the newest layer is the same cell
        while n.kind == 'st' and simp(n.a[0] - off).eq(bv(0)):
            n = n.parent
        st.mem[(p.rg, cls)] = Node('st', (off, v), n)
        if cls == 'b8' and cval(v) == 0:
            z = st.zoffs.get(p.rg, ())
            if not any(o.eq(off) for o in z):
                st.zoffs[p.rg] = (z + (off,))[-8:]
        for L in self.loops:
            L.writes.add((p.rg, cls, cval(off)))
            if not isc(off):
                L.symw.append((p.rg, cls, off, v))

    # ---------------------------------------------------------------- solver
    def sync(self, pc):
        s = self.sstack
        i = 0
        n = min(len(s), len(pc))
        while i < n and s[i] is pc[i]:
            i += 1
        if len(s) > i:
            self.solver.pop(len(s) - i)
            del s[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            s.append(c)

    def cvc5(self, solver, tmo):
        import subprocess, tempfile
        try:
            f = tempfile.TemporaryFile()
            f.write(b'(set-logic ALL)\n' + solver.to_smt2().encode())
            f.seek(0)
            p = subprocess.Popen(['cvc5', '--lang=smt2', '--tlimit=%d' % (tmo + 1000)], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            f.close()
            return p
        except OSError:
            return None

    def cvc5_wait(self, p, secs):
        import subprocess
        if getattr(p, 'answer', None) is None:
            try:
                p.answer = p.communicate(timeout=secs)[0].decode(errors='replace').strip().split('\n')[0]
            except subprocess.TimeoutExpired:
                return None
            if p.answer == 'unsat':
                self.stats['cvc5'] = self.stats.get('cvc5', 0) + 1
        return p.answer

    def cvc5_end(self, p):
        if p.poll() is None:
            p.kill()
            p.communicate()

    def check(self, pc, *extra, timeout=None):
        self.stats['queries'] += 1
        if self.o['deadline'] and time.time() > self.o['deadline']:
            raise Budget('time budget')
        t = time.time()
        self.sync(pc)
        # incremental first; what that does not settle quickly goes to a fresh non-incremental solver, where z3
        # preprocesses the whole formula (usually far faster)
        self.last = self.solver
        r = self.solver.check(*extra)
        if r == z3.unknown:
            tmo = timeout or self.o['feas_timeout']
            s1 = z3.Solver()
            s1.set('timeout', min(tmo, 700))
            s1.add(*pc)
            s1.add(*extra)
            r = s1.check()
            self.last = s1
            self.stats['oneshot'] = self.stats.get('oneshot', 0) + 1
            if r == z3.unknown and tmo > 700:
                # the other solver, side by side
                p = self.cvc5(s1, tmo)
                s1.set('timeout', max(tmo - 700, 100) if tmo <= 3000 else tmo // 2)
                if p is not None and self.cvc5_wait(p, 1.5) == 'unsat':
                    r = z3.unsat
                else:
                    r = s1.check()
                    if r == z3.unknown and p is not None and self.cvc5_wait(p, tmo / 1000.0) == 'unsat':
                        r = z3.unsat
                if p is not None:
                    self.cvc5_end(p)
        dt = time.time() - t
        self.stats['qtime'] += dt
        if self.o.get('dump') and dt > self.o['dump']:
            self.ndump = getattr(self, 'ndump', 0) + 1
            q = z3.Solver()
            q.add(*pc)
            q.add(*extra)
            open('/tmp/q/%d.smt2' % self.ndump, 'w').write(q.to_smt2())
        if self.o['verbose'] > 2 and dt > 1:
            print('   slow query %.1fs %s (pc %d)' % (dt, r, len(pc)), flush=True)
        return r

    def feasible(self, st, c=None):
        if c is not None:
            c = simp(c)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            if self.sp_unfold_depth or self.pure_depth:
                return True
            return self.check(st.pc, c) != z3.unsat
        if self.sp_unfold_depth or self.pure_depth:
            return True
        return self.check(st.pc) != z3.unsat

    def entails(self, st, c, timeout=None):
        """True / False / None(unknown)"""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            # still true if the path is infeasible
            pass
        r = self.check(st.pc, z3.Not(c), timeout=timeout or self.o['timeout'])
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    # ---------------------------------------------------------------- obligations
    def loc(self, st):
        for f in reversed(st.frames):
            if f.idx < len(f.fn.blocks[f.block].insts):
                i = f.fn.blocks[f.block].insts[f.idx]
                if i.line:
                    return '%s:%d(%s)' % (i.line[0].split('/')[-1], i.line[1], f.fn.name[1:])
        return '?'

    def fnname(self, st):
        return st.frames[-1].fn.name[1:] if st.frames else '?'

    def oblige(self, st, cond, kind, name):
        cond = simp(cond)
        if self.sp_unfold_depth or self.pure_depth:
            # outside its precondition a specification expression has an unspecified value
            if z3.is_false(cond):
                raise Stop()
            if not z3.is_true(cond):
                st.assume(cond)
            return
        if not self.checking:
            if not z3.is_true(cond) and ('K', cond.get_id()) not in st.facts:
                st.assume(cond)
                st.facts.add(('K', cond.get_id()))
                self.keep.append(cond)
            return
        loc = self.loc(st)
        o = Obligation(kind, name, loc)
        o = self.obls.setdefault(o.key(), o)
        o.checks += 1
        if z3.is_true(cond):
            return
        kk = ('K', cond.get_id())
        if kk in st.facts:
            return      # already discharged on this path
        t = time.time()
        r = self.entails(st, cond)
        o.time += time.time() - t
        if r is True:
            st.facts.add(kk)
            self.keep.append(cond)
            if kind == 'memory' and self.o.get('lem'):
                st.fact(cond)
            return
        stt = 'failed' if r is False else 'unknown'
        if o.status == 'proved' or (o.status == 'unknown' and stt == 'failed') or (o.status == 'failed' and o.inputs is None):
            o.status = stt
            if r is False:
                o.inputs = self.model_inputs(st, z3.Not(cond))
                o.approx = st.approx
        if self.o['verbose']:
            print('  OBLIGATION %s: %s %s at %s' % (stt, kind, name, loc), flush=True)
        if not self.feasible(st, cond):
            raise Stop()
        st.assume(cond)

    def model_inputs(self, st, extra):
        """concrete values for the harness inputs on this path, preferring small ones"""
        s = z3.Solver()
        s.set('timeout', 8000)
        s.add(*st.pc)
        s.add(extra)
        small = []
        for inp in st.inputs:
            if inp[0] == 'cstr':
                small.append(z3.ULE(inp[2], 40))
            elif inp[0] in ('strfam',):
                pass
            elif inp[0] in ('size',):
                small.append(z3.ULE(inp[1], 40))
        # greedily keep the small-size constraints that are consistent
        if s.check() != z3.sat:
            return None
        m = s.model()
        for c in small:
            s.push()
            s.add(c)
            if s.check() == z3.sat:
                m = s.model()
            else:
                s.pop()
        out = []
        for inp in st.inputs:
            k = inp[0]
            if k in ('int', 'size'):
                out.append((k, m.eval(inp[1], model_completion=True).as_signed_long() if k == 'int'
                            else m.eval(inp[1], model_completion=True).as_long()))
            elif k == 'cstr':
                n = m.eval(inp[2], model_completion=True).as_long()
                if n > 5000:
                    return None
                node = self.addrs.get(('B', inp[1].rid, 'b8'))
                b = []
                for i in range(n):
                    if node is None:
                        b.append(97)
                        continue
                    v = m.eval(z3.Select(node.a[0], bv(i)), model_completion=True).as_long()
                    b.append(v if v else 97)
                out.append(('cstr', bytes(b).hex()))
            elif k == 'bytes':
                n = m.eval(inp[2], model_completion=True).as_long()
                if n > 5000:
                    return None
                node = self.addrs.get(('B', inp[1].rid, 'b8'))
                b = [0 if node is None else m.eval(z3.Select(node.a[0], bv(i)), model_completion=True).as_long()
                     for i in range(n)]
                out.append(('bytes', bytes(b).hex()))
            elif k == 'strfam':
                o, n = inp[1], inp[2]
                cnt = m.eval(n, model_completion=True).as_long()
                if cnt > 64:
                    return None
                node = self.addrs.get(('B', o.rid, 'b8'))
                strs = []
                for i in range(cnt):
                    ln = m.eval(o.lenf(bv(i)), model_completion=True).as_long()
                    if ln > 200:
                        return None
                    b = []
                    for j in range(ln):
                        v = 97 if node is None else m.eval(z3.Select(node.a[0], bv((i << o.fam[0]) + j)),
                                                          model_completion=True).as_long()
                        b.append(v if v else 97)
                    strs.append(bytes(b).hex())
                out.append(('strfam', ','.join(x or '-' for x in strs)))
            elif k == 'fam':
                o, n = inp[1], inp[2]
                cnt = m.eval(n, model_completion=True).as_long()
                if cnt > 64:
                    return None
                out.append(('size', cnt))
            else:
                return None
        return out

    # ---------------------------------------------------------------- pointers
    def resolve(self, st, p, what='pointer'):
        """list of (state, Ptr with concrete region); forks the state if several regions are possible"""
        if isinstance(p.rg, int):
            return [(st, p)]
        res = []
        excl = []
        while True:
            r = self.check(st.pc, *excl, timeout=self.o['timeout'])
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Unsupported('cannot enumerate the targets of a %s at %s' % (what, self.loc(st)))
            v = self.last.model().eval(p.rg, model_completion=True).as_long()
            if v != 0 and v not in st.objs and v in self.gobj:
                self.global_ptr(st, *self.gobj[v])     # a global this path has not touched yet
            elif v != 0 and v not in st.objs and v in self.addrs and isinstance(self.addrs[v], Obj):
                st.objs[v] = self.addrs[v]
            if v != 0 and v not in st.objs:
                excl0 = [p.rg == k for k in list(st.objs) + [0]]
                self.oblige(st, z3.Or(*excl0), 'memory', '%s points to a known object' % what)
                if not self.checking:
                    raise Stop()
                continue
            excl.append(p.rg != v)
            s2 = st.clone()
            s2.assume(p.rg == v)
            res.append((s2, Ptr(v, p.off)))
            if len(res) > 24:
                raise Unsupported('too many targets of a %s' % what)
        return res

    def size_at(self, o, off):
        """(base offset, size) of the part of object o that off belongs to"""
        if o.fam:
            sh = o.fam[0]
            idx = z3.LShR(off, sh)
            return idx, off & bv((1 << sh) - 1), o.esize(idx)
        return None, off, o.size

    def valid(self, st, p, n, write, what):
        """obligation: [p, p+n) lies inside a live object"""
        n = bv(n) if isinstance(n, int) else n
        if p.rg == 0:
            self.oblige(st, z3.BoolVal(False), 'memory', '%s through a null pointer' % what)
            raise Stop()
        o = st.objs.get(p.rg)
        if o is None:
            raise Unsupported('object %r at %s' % (p.rg, self.loc(st)))
        if o.kind == 'func':
            self.oblige(st, z3.BoolVal(False), 'memory', '%s of a function address' % what)
            raise Stop()
        if p.rg in st.freed:
            self.oblige(st, z3.BoolVal(False), 'memory', '%s of a freed object' % what)
            raise Stop()
        if write and o.const:
            self.oblige(st, z3.BoolVal(False), 'memory', '%s of a read-only object' % what)
            raise Stop()
        idx, off, size = self.size_at(o, p.off)
        c = z3.ULT(off, size) if cval(n) == 1 else z3.And(z3.ULE(n, size), z3.ULE(off, size - n))
        if idx is not None:
            c = z3.And(z3.ULT(idx, o.fam[1]), c)
            if hasattr(o, 'lenf'):
                st.fact(z3.ULT(o.lenf(simp(idx)), bv(1 << 39)))
        self.oblige(st, c, 'memory', '%s in bounds' % what)
        if o.kind == 'ffam' and not self.sp_unfold_depth:
            # family whose elements can be freed one by one
            f = self.read_node(st, p.rg, 'b8', self.base(st, -p.rg, 'b8'), simp(z3.LShR(p.off, o.fam[0])))
            self.oblige(st, f == 0, 'memory', '%s of a live element' % what)

    # ---------------------------------------------------------------- values
    def const_value(self, st, ty, v, mod):
        k = v[0]
        if k == 'c':
            if ty.k == 'i' and ty.n == 1:
                return z3.BoolVal(bool(v[1] & 1))
            return z3.BitVecVal(v[1], ty.n)
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.fresh_of(ty, 'undef')
        if k == 'zero':
            if ty.k == 'ptr':
                return NULL
            if ty.k == 'i':
                return z3.BitVecVal(0, ty.n) if ty.n > 1 else z3.BoolVal(False)
            if ty.k == 'double':
                return bv(0)
        if k == 'g':
            return self.global_ptr(st, v[1], mod)
        if k == 'gep':
            _, sty, (bt, bval), idx = v
            b = self.const_value(st, bt, bval, mod)
            return self.gep(st, sty, b, [(t, self.const_value(st, t, x, mod)) for t, x in idx])
        if k == 'cast':
            _, op, ft, fv, tt = v
            x = self.const_value(st, ft, fv, mod)
            return self.cast(st, op, ft, x, tt)
        if k == 'f':
            import struct
            return bv(int.from_bytes(struct.pack('<d', v[1]), 'little'))
        if k == 'fx':
            if ty.k == 'double':
                return bv(int(v[1], 16))
        raise Unsupported('constant %r' % (v,))

    def fresh_of(self, ty, pfx):
        if ty.k == 'i':
            return fresh(pfx, z3.BoolSort()) if ty.n == 1 else fresh_bv(pfx, ty.n)
        if ty.k == 'ptr':
            return Ptr(fresh_bv(pfx + 'r', 16), fresh_bv(pfx + 'o', 64))
        if ty.k == 'double':
            return fresh_bv(pfx, 64)
        if ty.k == 'float':
            return fresh_bv(pfx, 32)
        if ty.k == 'struct':
            return [self.fresh_of(t, pfx) for t in ty.e]
        raise Unsupported('fresh %r' % ty)

    def val(self, st, ty, v):
        if v[0] == 'l':
            x = st.frames[-1].env.get(v[1])
            if x is None:
                raise Unsupported('undefined register %s' % v[1])
            return x
        return self.const_value(st, ty, v, st.frames[-1].fn.module)

    def gep(self, st, sty, b, idx):
        off = b.off
        t, i0 = idx[0]
        off = off + self.scaled(i0, size_of(sty) if sty.k not in ('opaque',) else 1)
        cur = sty
        for t, i in idx[1:]:
            if cur.k == 'struct':
                offs, _ = struct_layout(cur)
                n = cval(i)
                off = off + bv(offs[n])
                cur = cur.e[n]
            elif cur.k == 'arr':
                cur = cur.e
                off = off + self.scaled(i, size_of(cur))
            else:
                raise Unsupported('gep into %r' % cur)
        return Ptr(b.rg, simp(off))

    def scaled(self, i, s):
        if isinstance(i, PtrInt):
            raise Unsupported('pointer integer used as an index')
        if i.size() < 64:
            i = z3.SignExt(64 - i.size(), i)
        return i * bv(s)

    def cast(self, st, op, ft, x, tt):
        if op == 'zext':
            if z3.is_bool(x):
                return simp(z3.If(x, z3.BitVecVal(1, tt.n), z3.BitVecVal(0, tt.n)))
            return simp(z3.ZeroExt(tt.n - ft.n, x))
        if op == 'sext':
            if z3.is_bool(x):
                return simp(z3.If(x, z3.BitVecVal(-1, tt.n), z3.BitVecVal(0, tt.n)))
            x = simp(x)
            if isc(x):
                return simp(z3.SignExt(tt.n - ft.n, x))
            return z3.SignExt(tt.n - ft.n, x)     # kept as it is: comparisons go back to the narrow value
        if op == 'trunc':
            if isinstance(x, PtrInt):
                x = self.ptrint(x)
            if z3.is_app_of(x, z3.Z3_OP_SIGN_EXT):
                y = x.arg(0)
                if y.size() == tt.n:
                    return y
                if y.size() < tt.n:
                    return z3.SignExt(tt.n - y.size(), y)
            if tt.n == 1:
                return simp(z3.Extract(0, 0, x) == 1)
            return simp(z3.Extract(tt.n - 1, 0, x))
        if op == 'ptrtoint':
            return PtrInt(x)
        if op == 'inttoptr':
            if isinstance(x, PtrInt):
                return x.p
            if cval(x) == 0:
                return NULL
            if cval(x) is not None:                   # a pointer that only marks something
                return self.func_ptr(st, None, '@address_%d' % cval(x))
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            return x
        raise Unsupported('cast %s' % op)

    def ptrint(self, x):
        """an integer value for an address: distinct per object, order-preserving inside one"""
        return z3.Concat(x.p.rgt(), z3.Extract(47, 0, x.p.off))

    def binop(self, st, ins, a, b):
        op = ins.op
        if isinstance(a, PtrInt) and isinstance(b, PtrInt) and op == 'sub':
            if isinstance(a.p.rg, int) and a.p.rg == b.p.rg:
                return simp(a.p.off - b.p.off)
            self.oblige(st, a.p.rgt() == b.p.rgt(), 'memory', 'pointer difference within one object')
            return simp(a.p.off - b.p.off)
        if isinstance(a, PtrInt) != isinstance(b, PtrInt):
            if op == 'add':
                p, i = (a, b) if isinstance(a, PtrInt) else (b, a)
                return PtrInt(Ptr(p.p.rg, simp(p.p.off + i)))
            if op == 'sub' and isinstance(a, PtrInt):
                return PtrInt(Ptr(a.p.rg, simp(a.p.off - b)))
            if op == 'urem' and isinstance(a, PtrInt) and cval(b) in (1, 2, 4, 8, 16) and isinstance(a.p.rg, int) \
                    and a.p.rg in st.objs and st.objs[a.p.rg].kind in ('heap', 'ffam'):
                return simp(z3.URem(a.p.off, b))       # blocks from malloc are 16-byte aligned
        if isinstance(a, PtrInt):
            a = self.ptrint(a)
        if isinstance(b, PtrInt):
            b = self.ptrint(b)
        if z3.is_bool(a):
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op]
            return simp(f(a, b))
        n = a.size()
        ov = 'nsw' in ins.flags and self.o['overflow'] and not (self.sp_unfold_depth or self.pure_depth)
        if op == 'add':
            if ov:
                self.oblige(st, z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), 'arith',
                            'no signed overflow in +')
            return simp(a + b)
        if op == 'sub':
            if ov:
                self.oblige(st, z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), 'arith',
                            'no signed overflow in -')
            return simp(a - b)
        if op == 'mul':
            if ov:
                self.oblige(st, self.mul_ok(a, b), 'arith', 'no signed overflow in *')
            return simp(a * b)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            self.oblige(st, b != 0, 'arith', 'no division by zero')
            if op[0] == 's':
                self.oblige(st, z3.Not(z3.And(a == z3.BitVecVal(1 << (n - 1), n), b == z3.BitVecVal(-1, n))), 'arith',
                            'no signed overflow in /')
            return simp({'sdiv': lambda: a / b, 'udiv': lambda: z3.UDiv(a, b), 'srem': lambda: z3.SRem(a, b),
                         'urem': lambda: z3.URem(a, b)}[op]())
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, z3.ULT(b, n), 'arith', 'shift amount in range')
            return simp({'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]())
        if op == 'and':
            return simp(a & b)
        if op == 'or':
            return simp(a | b)
        if op == 'xor':
            return simp(a ^ b)
        raise Unsupported('binop %s' % op)

    def mul_ok(self, a, b):
        n = a.size()
        for x, y in ((a, b), (b, a)):
            c = scval(x)
            if c is not None:
                if c == 0 or c == 1:
                    return z3.BoolVal(True)
                lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
                if c > 0:
                    l, h = -((-lo) // c), hi // c
                else:
                    l, h = -(hi // -c), (-lo) // (-c)
                    h = min(h, hi)
                return z3.And(y >= z3.BitVecVal(l, n), y <= z3.BitVecVal(h, n))
        return z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))

    def icmp(self, st, pr, a, b):
        if isinstance(a, PtrInt):
            a = a.p
        if isinstance(b, PtrInt):
            b = b.p
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = NULL if cval(a) == 0 else a
            if not isinstance(b, Ptr):
                b = NULL if cval(b) == 0 else b
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Unsupported('compare pointer with integer')
            if pr in ('eq', 'ne'):
                if isinstance(a.rg, int) and isinstance(b.rg, int):
                    e = simp(a.off == b.off) if a.rg == b.rg else z3.BoolVal(False)
                    if a.rg == b.rg == 0:
                        e = z3.BoolVal(True)
                elif b.rg == 0:
                    e = simp(a.rgt() == 0)
                elif a.rg == 0:
                    e = simp(b.rgt() == 0)
                else:
                    e = simp(z3.And(a.rgt() == b.rgt(), z3.Or(a.rgt() == 0, a.off == b.off)))
                if self.loops and isinstance(a.rg, int) and a.rg == b.rg:
                    self.note_cmp(a.off, b.off, 'off')
                return e if pr == 'eq' else simp(z3.Not(e))
            self.oblige(st, a.rgt() == b.rgt(), 'memory', 'pointers compared within one object')
            a, b = a.off, b.off
            # offsets are compared as signed: one-before-the-beginning is tolerated
            pr = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pr, pr)
        if z3.is_bool(a):
            e = a == b
            return simp(e if pr == 'eq' else z3.Not(e))
        if self.loops:
            self.note_cmp(a, b, 'int')
        a, b = narrow(a, b, pr)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[pr]()
        return simp(r)

    def note_cmp(self, a, b, kind):
        for x in (a, b):
            for L in self.loops:
                if len(L.cmps) < 400:
                    L.cmps.setdefault((x.get_id(), x.size()), x)
        for L in self.loops:
            L.keepc = getattr(L, 'keepc', [])
            L.keepc.append((a, b))

    # ---------------------------------------------------------------- execution
    def run(self, states):
        """explore every path; returns the list of finished states. States waiting at the same join block of the
        same frame are merged; the waiting state that comes first in reverse post order runs next."""
        done = []
        base_n = min(len(s.pc) for s in states)
        work = list(states)
        parked = {}          # (depth, rpo, fn id, block) -> [states]
        while work or parked:
            if work:
                st = work.pop()
            else:
                key = min(parked)
                g = parked.pop(key)
                if len(g) > 1 and self.o['merge'] > 1 and not (self.sp_unfold_depth or self.pure_depth):
                    g = self.merge_block(base_n, g)
                work.extend(reversed(g))
                continue
            try:
                out = self.run_path(st)
            except Stop:
                self.stats['paths'] += 1
                continue
            for kind, s in out:
                if kind == 'go':
                    f = s.frames[-1]
                    if f.idx == 0:
                        key = (-len(s.frames), f.fn.rpo_index(f.block), id(f.fn), f.block)
                        parked.setdefault(key, []).append(s)
                    else:
                        work.append(s)
                elif kind == 'done':
                    self.stats['paths'] += 1
                    done.append(s)
                    if self.stats['paths'] > self.o['max_paths']:
                        raise Budget('path budget')
        return done

    def merge_block(self, base_n, g):
        f0 = g[0].frames[-1]
        live = f0.fn.live_in(f0.block)
        depth = len(g[0].frames)
        inl = [h for h, b in f0.fn.loops().items() if f0.block in b]
        groups = {}
        for s in g:        # outer frames are shared: calls run in a nested exploration
            groups.setdefault(len(s.frames), []).append(s)
        out = []
        for k, ss in groups.items():
            ok = []
            for s in ss:
                s.ukey = tuple((h, s.unroll.get((depth, h), 0)) for h in inl)
                ok.append((s, {n: s.frames[-1].env[n] for n in live if n in s.frames[-1].env}))
            r = self.merge(base_n, ok, sharp=len(ok) <= self.o['merge_sharp'])
            for s, vals in r:
                e = s.frames[-1].env
                for n, v in vals.items():
                    e[n] = v
                s.frames[-1].allocas = tuple(dict.fromkeys(s.frames[-1].allocas))
                out.append(s)
        return out

    def run_path(self, st):
        """run until the path forks or ends; returns [(kind, state)]"""
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.block]
            ins = blk.insts[fr.idx]
            self.stats['steps'] += 1
            r = self.step(st, fr, ins)
            if r is not None:
                return r

    def goto(self, st, target):
        """take a CFG edge; returns None to continue on this state or a list of outcomes"""
        fr = st.frames[-1]
        src = fr.block
        depth = len(st.frames)
        loops = fr.fn.loops()
        # edges relative to the active cut loop of this frame
        if self.loops:
            L = self.loops[-1]
            if L.depth == depth and L.fn is fr.fn:
                if target == L.header:
                    fr.prev = src
                    L.backs.append((st, self.phi_values(st, fr, src, target)))
                    return []
                if target not in L.body:
                    fr.prev = src
                    L.exits.append((st, src, target))
                    return []
        if target in loops:
            body = loops[target]
            back = src in body
            key = (id(fr.fn), target)
            ukey = (depth, target)
            if not back and (self.cutset.get(key) or fr.fn.name[1:] in self.o.get('cut', ())) and not self.sp_unfold_depth and not self.pure_depth:
                return self.cut_loop(st, fr, src, target, body)
            if not back:
                st.unroll[ukey] = 0
            else:
                n = st.unroll.get(ukey, 0) + 1
                st.unroll[ukey] = n
                lim = self.o['unroll_max'].get(fr.fn.name[1:], self.o['unroll'])
                if self.o['bounded']:
                    lim = self.o['bounded']
                elif st.unroll.get(('c', depth, target), 1) == 0:
                    lim = self.o['cunroll']   # decided by constants so far
                if n > lim and not self.sp_unfold_depth:
                    if self.o['bounded']:
                        self.stats['bounded_cut'] = self.stats.get('bounded_cut', 0) + 1
                        raise Stop()
                    if self.feasible(st):
                        raise NeedCut(key, fr.fn.name, target)
                    raise Stop()
        self.enter(st, fr, src, target)
        return None

    def enter(self, st, fr, src, target):
        vals = self.phi_values(st, fr, src, target)
        fr.prev = src
        fr.block = target
        fr.idx = 0
        for d, v in vals.items():
            fr.env[d] = v

    def phi_values(self, st, fr, src, target):
        vals = {}
        for ph in fr.fn.blocks[target].phis:
            for v, b in ph.a:
                if b == src:
                    vals[ph.dst] = self.val(st, ph.ty, v)
                    break
            else:
                raise Unsupported('phi without incoming edge')
        return vals

    def branch(self, st, c, a, b):
        c = simp(c)
        if z3.is_true(c):
            r = self.goto(st, a)
            return r
        if z3.is_false(c):
            return self.goto(st, b)
        ft = self.feasible(st, c)
        ff = self.feasible(st, z3.Not(c)) if ft else True
        if ft and ff:
            s2 = st.clone()
            st.assume(c)
            s2.assume(simp(z3.Not(c)))
            out = []
            for s, t in ((s2, b), (st, a)):
                try:
                    r = self.goto(s, t)
                except Stop:
                    continue
                out.extend([('go', s)] if r is None else r)
            return out
        if ft:
            st.assume(c)
            return self.goto(st, a)
        st.assume(simp(z3.Not(c)))
        return self.goto(st, b)

    def step(self, st, fr, ins):
        op = ins.op
        env = fr.env
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            env[ins.dst] = self.binop(st, ins, self.val(st, ins.ty, ins.a[0]), self.val(st, ins.ty, ins.a[1]))
        elif op == 'icmp':
            env[ins.dst] = self.icmp(st, ins.a[0], self.val(st, ins.ty, ins.a[1]), self.val(st, ins.ty, ins.a[2]))
        elif op == 'load':
            p = self.val(st, PTR, ins.a[0])
            c = self.cls(ins.ty)
            rs = self.resolve(st, p, 'load')
            if len(rs) > 1:
                out = []
                for s, q in rs:
                    try:
                        self.do_load(s, q, c, ins)
                        s.frames[-1].idx += 1
                        out.append(('go', s))
                    except Stop:
                        pass
                return out
            if not rs:
                raise Stop()
            st2, q = rs[0]
            if st2 is not st:
                st.assume(p.rgt() == q.rg)
            self.do_load(st, q, c, ins)
        elif op == 'store':
            v = self.val(st, ins.ty, ins.a[0])
            p = self.val(st, PTR, ins.a[1])
            if isinstance(v, list):
                raise Unsupported('aggregate store')
            c = self.cls(ins.ty)
            if isinstance(v, PtrInt):
                v = simp(self.ptrint(v))
            v = self.tostore(v, ins.ty)
            rs = self.resolve(st, p, 'store')
            if not rs:
                raise Stop()
            if len(rs) > 1:
                out = []
                for s, q in rs:
                    try:
                        self.valid(s, q, WIDTH[c], True, 'write')
                        self.mem_write(s, q, c, v)
                        s.frames[-1].idx += 1
                        out.append(('go', s))
                    except Stop:
                        pass
                return out
            if rs[0][0] is not st:
                st.assume(p.rgt() == rs[0][1].rg)
            self.valid(st, rs[0][1], WIDTH[c], True, 'write')
            self.mem_write(st, rs[0][1], c, v)
        elif op == 'getelementptr':
            b = self.val(st, PTR, ins.a[0])
            idx = [(t, self.val(st, t, v)) for t, v in ins.a[1]]
            env[ins.dst] = self.gep(st, ins.ty, b, idx)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            ft, fv = ins.a
            env[ins.dst] = self.cast(st, op, ft, self.val(st, ft, fv), ins.ty)
        elif op == 'copy':
            env[ins.dst] = self.val(st, ins.ty, ins.a[0])
        elif op == 'select':
            c = self.val(st, I(1), ins.a[0])
            a = self.val(st, ins.ty, ins.a[1])
            b = self.val(st, ins.ty, ins.a[2])
            c = simp(c)
            if z3.is_true(c):
                env[ins.dst] = a
            elif z3.is_false(c):
                env[ins.dst] = b
            else:
                env[ins.dst] = self.ite(c, a, b)
        elif op == 'alloca':
            n = cval(self.val(st, ins.a[0], ins.a[1]))
            if n is None:
                raise Unsupported('variable length array')
            o = self.new_obj(st, '%s.%s' % (fr.fn.name[1:], ins.dst[1:]), size_of(ins.ty) * n, 'stack')
            fr.allocas = fr.allocas + (o.rid,)
            env[ins.dst] = Ptr(o.rid, bv(0))
        elif op == 'br':
            if len(ins.a) == 1:
                return self.goto(st, ins.a[0])
            c = self.val(st, I(1), ins.a[0])
            if self.o.get('cunroll') and fr.block in fr.fn.loops():
                c = simp(c)
                st.unroll[('c', len(st.frames), fr.block)] = 0 if z3.is_true(c) or z3.is_false(c) else 1
            return self.branch(st, c, ins.a[1], ins.a[2])
        elif op == 'switch':
            return self.do_switch(st, ins)
        elif op == 'ret':
            v = self.val(st, ins.ty, ins.a[0]) if ins.a else None
            return self.do_ret(st, v)
        elif op == 'unreachable':
            raise Stop()
        elif op == 'call':
            return self.do_call(st, fr, ins)
        elif op == 'extractvalue':
            v = self.val(st, ins.ty, ins.a[0])
            for i in ins.a[1]:
                v = v[i]
            env[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.ty, ins.a[0])
            if len(ins.a[3]) != 1:
                raise Unsupported('insertvalue')
            v = list(v)
            v[ins.a[3][0]] = self.val(st, ins.a[1], ins.a[2])
            env[ins.dst] = v
        elif op == 'fcmp':
            F = z3.Float64()
            a = z3.fpBVToFP(self.val(st, ins.ty, ins.a[1]), F)
            b = z3.fpBVToFP(self.val(st, ins.ty, ins.a[2]), F)
            pr = ins.a[0]
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            base = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}.get(pr[1:])
            if base is None:
                raise Unsupported('fcmp ' + pr)
            r = base(a, b)
            env[ins.dst] = simp(z3.And(z3.Not(un), r) if pr[0] == 'o' else z3.Or(un, r))
        else:
            raise Unsupported('instruction %s' % op)
        fr.idx += 1
        return None

    def do_load(self, st, p, c, ins):
        self.valid(st, p, WIDTH[c], False, 'read')
        v = self.mem_read(st, p, c)
        if ins.ty.k == 'i' and ins.ty.n == 1:
            v = simp(z3.Extract(0, 0, v) == 1)
        st.frames[-1].env[ins.dst] = v

    def do_switch(self, st, ins):
        v = self.val(st, ins.ty, ins.a[0])
        cases = ins.a[2]
        c = cval(v)
        if c is not None:
            for k, t in cases:
                if k % (1 << ins.ty.n) == c:
                    return self.goto(st, t)
            return self.goto(st, ins.a[1])
        groups = {}
        for k, t in cases:
            groups.setdefault(t, []).append(v == z3.BitVecVal(k, ins.ty.n))
        opts = []
        alls = []
        for t, cs in groups.items():
            opts.append((simp(z3.Or(*cs)), t))
            alls.extend(cs)
        opts.append((simp(z3.Not(z3.Or(*alls))), ins.a[1]))
        out = []
        for c, t in opts:
            if not self.feasible(st, c):
                continue
            s = st.clone()
            s.assume(c)
            try:
                r = self.goto(s, t)
            except Stop:
                continue
            out.extend([('go', s)] if r is None else r)
        return out

    def do_ret(self, st, v):
        fr = st.frames.pop()
        if fr.allocas:
            st.freed = st.freed | frozenset(fr.allocas)
        if fr.mark == 'sp':
            st.retval = v
            return [('done', st)]
        if not st.frames:
            st.retval = v
            return [('done', st)]
        if fr.mark == 'merge':
            if fr.allocas:
                for r in fr.allocas:
                    st.objs.pop(r, None)
                    for c in CLASSES:
                        st.mem.pop((r, c), None)
                st.freed = st.freed - frozenset(fr.allocas)
            st.retval = v
            return [('done', st)]
        c = st.frames[-1]
        if fr.dst is not None and v is not None:
            c.env[fr.dst] = v
        c.idx += 1
        return None

    # ---------------------------------------------------------------- merging
    def val_key(self, v, sharp):
        """values that must coincide for two states to be merged"""
        if v is None:
            return None
        if isinstance(v, Ptr):
            return ('p', v.rg if isinstance(v.rg, int) else v.rg.get_id())
        if isinstance(v, PtrInt):
            return ('o', self.val_key(v.p, sharp), v.p.off.get_id())
        if isinstance(v, list):
            return ('l', tuple(self.val_key(x, sharp) for x in v), id(v))
        if z3.is_bool(v):
            return ('b',)
        if isc(v) and v.size() <= 32 and sharp:
            return ('c', v.as_long())
        return ('s',)

    def merge(self, base_n, items, sharp=True):
        """items: [(state, {name: value})]; states that agree up to integer values and constant-offset cells
        become one (the path condition is the disjunction, selected by fresh booleans)"""
        if len(items) == 1:
            return items
        groups = {}
        order = []
        for s, vals in items:
            vk = tuple(sorted((k, self.val_key(v, sharp)) for k, v in vals.items()))
            key = (vk, frozenset(s.objs), s.freed, s.inputs, s.sp, s.snaps, s.nlive, s.approx, s.ukey)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((s, vals))
        out = []
        todo = []
        for key in order:
            g = groups[key]
            # within a group, memory may differ only in constant-offset cells
            while g:
                first, rest, same = g[0], [], [g[0]]
                for x in g[1:]:
                    (same if self.mem_diff(first[0], x[0], sharp) is not None else rest).append(x)
                todo.append(same)
                g = rest
        for gv in todo:
            if len(gv) == 1:
                out.append(gv[0])
                continue
            g = [x[0] for x in gv]
            vals = [x[1] for x in gv]
            n = base_n
            m = min(len(s.pc) for s in g)
            while n < m and all(s.pc[n] is g[0].pc[n] or s.pc[n].eq(g[0].pc[n]) for s in g[1:]):
                n += 1
            r = g[0]
            cells = {}
            for s in g[1:]:
                for (k, offs, anc) in self.mem_diff(r, s, sharp):
                    c0 = cells.get(k)
                    if c0 is None:
                        cells[k] = [set(offs), anc]
                    else:
                        c0[0] |= offs
                        if anc.depth < c0[1].depth:
                            c0[1] = anc
            cellvals = {}
            for k, (offs, anc) in cells.items():
                for s in g:
                    x = s.mem.get(k, None) or self.base(s, *k)
                    while x is not anc:
                        offs.add(cval(x.a[0]))
                        x = x.parent
                for o in offs:
                    cellvals[(k, o)] = [self.read_node(s, k[0], k[1], s.mem[k], bv(o)) for s in g]
            tails = [s.pc[n:] for s in g]
            shared = set.intersection(*[set(c.get_id() for c in t) for t in tails])
            sel = [fresh('sel', z3.BoolSort()) for s in g]
            pc = r.pc[:n] + [c for c in tails[0] if c.get_id() in shared]
            pc.append(z3.Or(*sel))
            for b, t in zip(sel, tails):
                for c in t:
                    if c.get_id() not in shared:
                        pc.append(z3.Implies(b, c))

            def join(vs):
                v = vs[-1]
                if isinstance(v, (PtrInt, list)) or v is None:
                    return v
                for x, c in list(zip(vs, sel))[-2::-1]:
                    v = self.ite(c, x, v)
                if isinstance(v, Ptr):
                    if z3.is_app_of(v.off, z3.Z3_OP_ITE):
                        k = fresh_bv('mo', 64)
                        pc.append(k == v.off)
                        v = Ptr(v.rg, k)
                elif not z3.is_bool(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
                    k = fresh_bv('mv', v.size())
                    pc.append(k == v)
                    v = k
                return v
            nv = {k: join([x[k] for x in vals]) for k in vals[0]}
            for k, (offs, anc) in cells.items():
                node = anc
                for o in sorted(offs):
                    node = Node('st', (bv(o), join(cellvals[(k, o)])), node)
                r.mem[k] = node
            r.pc = pc
            f = set(g[0].facts)
            mm = dict(g[0].memo)
            zo = dict(g[0].zoffs)
            un = dict(g[0].unroll)
            for s in g[1:]:
                f &= s.facts
                mm = {k: x for k, x in mm.items() if s.memo.get(k) is x}
                zo = {k: x for k, x in zo.items() if s.zoffs.get(k) is x}
                for k, x in s.unroll.items():
                    un[k] = max(x, un.get(k, 0))
            # quantified facts of one branch stay, guarded by its selector
            rr, rs = {}, {}
            todo2 = []
            for k in set().union(*[s.rrules for s in g]):
                n0 = min(common(g[0].rrules.get(k, ()), s.rrules.get(k, ())) for s in g)
                rules = list(g[0].rrules.get(k, ())[:n0])
                for b, s in zip(sel, g):
                    for fr_ in s.rrules.get(k, ())[n0:n0 + 12]:
                        gr = (lambda st, kk, v, b=b, fr_=fr_: z3.Implies(b, fr_(st, kk, v)))
                        rules.append(gr)
                        todo2.append((k, gr, s))
                rr[k] = tuple(rules)
            for k in set().union(*[s.rseen for s in g]):
                seen = list(g[0].rseen.get(k, ()))
                have = set(o.get_id() for o, v in seen)
                for s in g[1:]:
                    for o, v in s.rseen.get(k, ()):
                        if o.get_id() not in have:
                            have.add(o.get_id())
                            seen.append((o, v))
                rs[k] = tuple(seen)
            r.facts, r.memo, r.zoffs, r.unroll = f, mm, zo, un
            own = {id(s): {k: set(o.get_id() for o, v in x) for k, x in s.rseen.items()} for s in g}
            comm = {}
            r.rrules, r.rseen = rr, rs
            for k, gr, s in todo2:
                mine = own[id(s)].get(k, ())
                for o, v in rs.get(k, ()):
                    if o.get_id() not in mine:
                        r.fact(simp(gr(r, o, v)))
            for k, x in rs.items():
                n0 = min(common(g[0].rrules.get(k, ()), s.rrules.get(k, ())) for s in g) if k in rr else 0
                for o, v in x:
                    if not all(o.get_id() in own[id(s)].get(k, ()) for s in g):
                        for fr_ in rr.get(k, ())[:n0]:
                            r.fact(simp(fr_(r, o, v)))
            self.stats['merged'] = self.stats.get('merged', 0) + len(g) - 1
            out.append((r, nv))
        return out

    def mem_diff(self, a, b, sharp=False):
        """[(key, offsets, common ancestor)] if the memories differ only in constant cells, else None"""
        out = []
        for k in set(a.mem) | set(b.mem):
            x = a.mem.get(k) or self.base(a, *k)
            y = b.mem.get(k) or self.base(b, *k)
            if x is y:
                continue
            offs = set()
            while x is not y:
                if x.depth >= y.depth:
                    if x.kind != 'st' or not isc(x.a[0]):
                        return None
                    offs.add(cval(x.a[0]))
                    x = x.parent
                else:
                    if y.kind != 'st' or not isc(y.a[0]):
                        return None
                    offs.add(cval(y.a[0]))
                    y = y.parent
                if x is None or y is None:
                    return None
            if sharp and k[1] in ('b32', 'b8'):
                for o in offs:
                    p = self.read_node(a, k[0], k[1], a.mem[k], bv(o))
                    q = self.read_node(b, k[0], k[1], b.mem[k], bv(o))
                    if (isc(p) or isc(q)) and not p.eq(q):
                        return None
            if k[1] == 'ptr':
                for o in offs:
                    p = self.read_node(a, k[0], 'ptr', a.mem[k], bv(o))
                    q = self.read_node(b, k[0], 'ptr', b.mem[k], bv(o))
                    if not (isinstance(p.rg, int) and isinstance(q.rg, int) and p.rg == q.rg):
                        if not (not isinstance(p.rg, int) and not isinstance(q.rg, int) and p.rg.eq(q.rg)):
                            return None
            out.append((k, offs, x))
        return out

    def call_merged(self, st, nf, ins):
        nf.mark = 'merge'
        base_n = len(st.pc)
        st.frames.append(nf)
        fin = self.run([st])
        out = []
        items = []
        for s in fin:
            s.ukey = None
            items.append((s, {'ret': s.retval}))
        if len(items) > 1 and self.o['merge'] and not (self.sp_unfold_depth or self.pure_depth):
            items = self.merge(base_n, items, sharp=len(items) <= self.o['merge_sharp'])
        for s, vals in items:
            s.retval = vals['ret']
            f = s.frames[-1]
            if ins.dst is not None and s.retval is not None:
                f.env[ins.dst] = s.retval
            f.idx += 1
            out.append(('go', s))
        return out

    # ---------------------------------------------------------------- calls
    def do_call(self, st, fr, ins):
        callee, args = ins.a
        if callee[0] == 'g':
            name = callee[1]
            fn = self.find_func(name, fr.fn.module)
            return self.call_named(st, fr, ins, name, fn)
        p = self.val(st, PTR, callee)
        rs = self.resolve(st, p, 'call target')
        out = []
        single = len(rs) == 1
        for s, q in rs:
            try:
                if single:
                    if s is not st:
                        st.assume(p.rgt() == q.rg)
                    s = st
                if q.rg == 0:
                    self.oblige(s, z3.BoolVal(False), 'memory', 'call through a null pointer')
                    continue
                o = s.objs[q.rg]
                if o.kind != 'func':
                    self.oblige(s, z3.BoolVal(False), 'memory', 'call of a non-function')
                    continue
                if isinstance(o.ftag, str):
                    r = self.call_named(s, s.frames[-1], ins, o.ftag, None)
                else:
                    r = self.call_named(s, s.frames[-1], ins, o.ftag.name, o.ftag)
            except Stop:
                continue
            if single:
                return r
            out.extend([('go', s)] if r is None else r)
        return out

    def call_named(self, st, fr, ins, name, fn):
        nm = name[1:]
        if fr.fn.module.tag != self.htag or fr.mark == 'contract':
            stub = self.o['contracts'].get(nm)
            if stub:
                sf = self.find_func('@' + stub, self.hmod())
                if sf is None:
                    raise Unsupported('contract %s not found' % stub)
                self.contracts_used.add(nm)
                fn = sf
                nm = stub
        elif self.sp_unfold_depth == 0 and nm.startswith('sp_') and fn is not None:
            pass
        if nm.startswith(('sp_', 'pure_')) and fn is not None and fn.module.tag == self.htag:
            return self.call_sp(st, fr, ins, fn)
        if fn is None or nm in self.builtins and (fn is None or fn.module.tag == self.htag):
            h = self.builtins.get(nm)
            if h is None and nm.startswith('llvm.'):
                for k in self.builtins:
                    if k.endswith('*') and nm.startswith(k[:-1]):
                        h = self.builtins[k]
                        break
            if h is None:
                raise Unsupported('no contract for external function %s at %s' % (nm, self.loc(st)))
            if not nm.startswith(('vp_', 'llvm.')):
                self.externals_used.add(nm)
            vals = [self.val(st, t, v) for t, v in ins.a[1]]
            tys = [t for t, v in ins.a[1]]
            return self.call_builtin(st, ins, h, vals, tys)
        if len(st.frames) > self.o['max_depth']:
            raise Unsupported('call depth')
        if fn.module.tag != self.htag:
            self.functions_seen.add(nm)
            if sum(1 for f in st.frames if f.fn is fn) >= self.o['recursion']:
                raise Unsupported('recursion of %s without a contract' % nm)
        vals = [self.val(st, t, v) for t, v in ins.a[1]]
        nf = Frame(fn)
        for (t, pn, byv), v in zip(fn.params, vals):
            if byv:
                raise Unsupported('byval argument')
            if t.k == 'ptr' and z3.is_bv(v):          # contract of a variadic function: an integer
                v = Ptr(0, z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v)
            nf.env[pn] = v
        for t, pn, byv in fn.params[len(vals):]:      # contract of a variadic function
            nf.env[pn] = self.fresh_of(t, 'vararg')
        nf.dst = ins.dst
        if fn.entry in fn.loops():
            raise Unsupported('loop at function entry')
        return self.call_merged(st, nf, ins)

    def hmod(self):
        for m in self.mods:
            if m.tag == self.htag:
                return m

    def call_builtin(self, st, ins, h, vals, tys):
        """handlers return a value, or a list of (state, value) after forking; pointer arguments may be
        forked to concrete regions by raising ForkPtr"""
        try:
            r = h(st, vals, ins)
        except ForkPtr as e:
            out = []
            for s, q in self.resolve(st, e.p, 'argument'):
                nv = list(vals)
                nv[e.i] = q
                try:
                    r = self.call_builtin(s, ins, h, nv, tys)
                except Stop:
                    continue
                out.extend([('go', s)] if r is None else r)
            return out
        if isinstance(r, list):
            out = []
            for s, v in r:
                f = s.frames[-1]
                if ins.dst is not None:
                    f.env[ins.dst] = v
                f.idx += 1
                out.append(('go', s))
            return out
        f = st.frames[-1]
        if ins.dst is not None:
            f.env[ins.dst] = r if r is not None else self.fresh_of(ins.ty, 'ret')
        f.idx += 1
        return None

    # ---------------------------------------------------------------- specification functions
    def call_sp(self, st, fr, ins, fn):
        vals = [self.val(st, t, v) for t, v in ins.a[1]]
        for i, v in enumerate(vals):
            if isinstance(v, Ptr) and not isinstance(v.rg, int):
                out = []
                rs = self.resolve(st, v, 'specification argument')
                for s, q in rs:
                    vv = list(vals)
                    vv[i] = q
                    self.sp_fork(s, ins, fn, vv, out)
                return out
        r = self.sp_apply(st, fn, vals, unfold=self.unfolds(fn))
        if not self.sp_unfold_depth and not self.pure_depth and fn.name.startswith('@sp_'):
            st.sp = st.sp + ((fn, tuple(vals)),)
        fr.env[ins.dst] = r
        fr.idx += 1
        return None

    def unfolds(self, fn):
        nm = fn.name[1:]
        if nm in self.o['opaque']:
            return False
        return nm.startswith('pure_') or self.sp_unfold_depth < self.o['fuel']

    def sp_fork(self, s, ins, fn, vals, out):
        for i, v in enumerate(vals):
            if isinstance(v, Ptr) and not isinstance(v.rg, int):
                for s2, q in self.resolve(s, v, 'specification argument'):
                    vv = list(vals)
                    vv[i] = q
                    self.sp_fork(s2, ins, fn, vv, out)
                return
        f = s.frames[-1]
        r = self.sp_apply(s, fn, vals, unfold=self.unfolds(fn))
        if not self.sp_unfold_depth and not self.pure_depth and fn.name.startswith('@sp_'):
            s.sp = s.sp + ((fn, tuple(vals)),)
        f.env[ins.dst] = r
        f.idx += 1
        out.append(('go', s))

    def sp_app(self, st, fn, vals):
        key = [fn.name]
        args = []
        for v in vals:
            if isinstance(v, Ptr):
                d = st.objs[v.rg].data if v.rg in st.objs else None
                # constant strings are identified by their contents
                key.append('r%d' % v.rg if d is None else 'd' + d.hex())
                if v.rg and d is None:
                    for c in CLASSES:
                        n = st.mem.get((v.rg, c))
                        if n is not None and n is not self.addrs.get(('B', v.rg, c)) and n.kind != 'bytes':
                            key.append('%s%d' % (c, n.ver))
                args.append(v.off if v.rg else bv(0))
            elif z3.is_bool(v):
                args.append(z3.If(v, bv(1, 8), bv(0, 8)))
            else:
                args.append(v)
        nm = '_'.join(key).lstrip('@')
        args = [simp(a) for a in args]
        if fn.ret.k == 'ptr':
            raise Unsupported('pointer-valued specification function')
        f = self.spfun.get(nm)
        if f is None:
            rs = z3.BoolSort() if fn.ret.n == 1 else z3.BitVecSort(fn.ret.n)
            f = z3.Function(nm, *[a.sort() for a in args], rs) if args else None
            self.spfun[nm] = f
        return f(*args) if args else z3.Const(nm, z3.BitVecSort(fn.ret.n))

    def sp_post(self, st, fn, vals, app):
        """postcondition of a specification function (proved by induction in check_posts)"""
        pf = self.find_func('@post_' + fn.name[4:], self.hmod()) if fn.name.startswith('@sp_') else None
        if pf is None:
            return
        for v in vals:
            if isinstance(v, Ptr):
                o = st.objs.get(v.rg)
                if o is None or (o.nul is None and o.data is None):
                    return
                if st.mem.get((v.rg, 'b8')) is not None and st.mem[(v.rg, 'b8')] is not self.addrs.get(('B', v.rg, 'b8')) \
                        and o.data is None:
                    return
        key = ('P', app.get_id())
        if key in st.facts:
            return
        st.facts.add(key)
        self.keep = getattr(self, 'keep', [])
        self.keep.append(app)
        r = self.eval_pure(st, pf, list(vals) + [app])
        pre = []
        for v in vals:
            if isinstance(v, Ptr):
                o = st.objs[v.rg]
                if o.fam is None:
                    pre.append(z3.ULT(v.off, o.size))
        st.fact(simp(z3.Implies(z3.And(*pre), r != 0)))

    def check_posts(self):
        import libc
        for name, pf in list(self.hmod().funcs.items()):
            if not name.startswith('@post_'):
                continue
            fn = self.find_func('@sp_' + name[6:], self.hmod())
            if fn is None:
                raise Unsupported('no specification function for %s' % name)
            st = State()
            st.frames = []
            vals = []
            for (t, pn, byv) in fn.params:
                if t.k == 'ptr':
                    p = self.new_cstr(st, pn[1:], False)
                    off = fresh_bv('off', 64)
                    st.fact(z3.ULE(off, st.objs[p.rg].length))
                    vals.append(Ptr(p.rg, off))
                else:
                    vals.append(self.fresh_of(t, pn[1:]))
            app = self.sp_app(st, fn, vals)
            self.in_post = app.get_id()
            self.keep = getattr(self, 'keep', [])
            self.keep.append(app)
            st.facts.add(('P', app.get_id()))
            self.sp_apply(st, fn, vals, force=True)
            r = self.eval_pure(st, pf, vals + [app])
            ob = Obligation('lemma', 'post of specification function %s' % fn.name[1:], 'spec')
            self.obls[ob.key()] = ob
            ob.checks += 1
            if self.entails(st, r != 0) is not True:
                ob.status = 'unknown'
                if self.o['verbose']:
                    print('  OBLIGATION unknown: lemma for %s' % fn.name)
            self.sync([])

    def sp_apply(self, st, fn, vals, unfold=True, force=False):
        app = self.sp_app(st, fn, vals)
        self.sp_post(st, fn, vals, app)
        if not force and (not unfold or fn.name[1:] in self.o['opaque']):
            return app
        key = ('U', app.get_id())
        if key in st.facts:
            return app
        st.facts.add(key)
        self.keep = getattr(self, 'keep', [])
        self.keep.append(app)
        # unfold the definition once
        s = st.clone()
        base_n = len(s.pc)
        s.frames = []
        f = Frame(fn)
        f.mark = 'sp'
        for (t, pn, byv), v in zip(fn.params, vals):
            f.env[pn] = v
        s.frames.append(f)
        sv = (self.loops, self.checking)
        self.loops = []
        self.checking = 0
        pure = fn.name.startswith('@pure_')
        if pure:
            self.pure_depth += 1
        else:
            self.sp_unfold_depth += 1
        np = self.stats['paths']
        try:
            fin = self.run([s])
        finally:
            if pure:
                self.pure_depth -= 1
            else:
                self.sp_unfold_depth -= 1
            self.loops, self.checking = sv
            self.stats['paths'] = np
        self.merge_pure(st, fin, base_n, app)
        return app

    def merge_pure(self, st, fin, base_n, app):
        """record app == value on every path of a side-effect free evaluation"""
        for d in fin:
            conds = []
            for c in d.pc[base_n:]:
                if c.get_id() in d.facts:
                    if c.get_id() not in st.facts:
                        st.fact(c if not conds or c.get_id() in self.defs else z3.Implies(z3.And(*conds) if len(conds) > 1 else conds[0], c))
                else:
                    conds.append(c)
            # searches are defined independently of the path (a first occurrence exists or not): keep them
            for k, x in d.memo.items():
                if k[0] in ('find', 'findo') and k not in st.memo:
                    st.memo[k] = x
            for ver, rules in d.rrules.items():
                mine = st.rrules.get(ver, ())
                for f in rules:
                    if getattr(f, 'defn', False) and f not in mine:
                        mine = mine + (f,)
                        for o, v in st.rseen.get(ver, ()):
                            st.fact(simp(f(st, o, v)))
                if mine:
                    st.rrules[ver] = mine
            v = d.retval
            if v is None:
                raise Unsupported('void specification function')
            e = (z3.And(*conds) if conds else z3.BoolVal(True))
            st.fact(simp(z3.Implies(e, app == v)))

    def eval_pure(self, st, fn, vals):
        """value of a side-effect free harness function in st (branches merged)"""
        s = st.clone()
        base_n = len(s.pc)
        s.frames = []
        f = Frame(fn)
        f.mark = 'sp'
        for (t, pn, byv), v in zip(fn.params, vals):
            f.env[pn] = v
        s.frames.append(f)
        sv = (self.loops, self.checking)
        self.loops = []
        self.checking = 0
        ud = self.sp_unfold_depth
        self.sp_unfold_depth = 0
        self.pure_depth += 1
        np = self.stats['paths']
        try:
            fin = self.run([s])
        finally:
            self.pure_depth -= 1
            self.sp_unfold_depth = ud
            self.loops, self.checking = sv
            self.stats['paths'] = np
        r = fresh_bv('pure_' + fn.name[1:], fn.ret.n)
        self.merge_pure(st, fin, base_n, r)
        return r

    # ---------------------------------------------------------------- loops
    def cut_loop(self, st, fr, src, header, body):
        import inv
        return inv.cut(self, st, fr, src, header, body)

    def cover_names(self, fn):
        out = []
        for b in fn.blocks.values():
            for i in b.insts:
                if i.op == 'call' and i.a[0] == ('g', '@vp_cover'):
                    v = i.a[1][0][1]
                    g = self.find_global(v[1], fn.module)
                    out.append(g.init[1].split(b'\0')[0].decode())
        return out

    # ---------------------------------------------------------------- top level
    def verify(self, hname, time_budget=None):
        if time_budget:
            self.o['deadline'] = time.time() + time_budget
        fn = self.find_func('@' + hname, self.hmod())
        if fn is None:
            raise Unsupported('harness %s missing' % hname)
        t0 = time.time()
        while True:
            try:
                self.obls = {}
                self.covers = set()
                self.loops = []
                self.check_posts()
                st = State()
                st.frames.append(Frame(fn))
                self.finished = self.run([st])
                break
            except NeedCut as e:
                self.cutset[e.key] = True
                self.stats['restarts'] = self.stats.get('restarts', 0) + 1
                self.sync([])
                self.sp_unfold_depth = 0
                self.pure_depth = 0
                self.checking = 1
                if self.o['verbose']:
                    print('  cut loop %s %s' % (e.fn, e.header), flush=True)
        self.stats['wall'] = time.time() - t0
        return self.obls


def common(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]:
        n += 1
    return n


class NeedCut(Exception):
    def __init__(self, key, fn, header):
        self.key, self.fn, self.header = key, fn, header


class ForkPtr(Exception):
    def __init__(self, i, p):
        self.i, self.p = i, p
