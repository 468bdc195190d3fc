"""Loop cutting: candidate invariants, Houdini pruning, write-set fixpoint, termination measures."""
import time
import z3
from ir import *
from engine import *
import engine as E


def index_of(name):
    i = name.rfind('!')
    if i < 0:
        if name.startswith('R_') or name.startswith('len_'):
            n = name.split('_')[1]
            return E.RIDF.get(int(n), -1) if n.isdigit() else -1
        return -1
    try:
        return int(name[i + 1:])
    except ValueError:
        return -1


def invariant_term(t, mark):
    return all(index_of(n) < mark for n in freevars(t))


class Cand:
    __slots__ = ('name', 'fn', 'up', 'var', 'arr')

    def __init__(self, name, fn, var=None, up=None, arr=None):
        self.name, self.fn, self.var, self.up, self.arr = name, fn, var, up, arr


def callstring(st):
    return tuple((f.fn.name, f.block, f.idx) for f in st.frames[:-1])


def sx(t, n=64):
    return t if t.size() == n else z3.SignExt(n - t.size(), t)


def prune(en, st, pairs, keep_unknown=False):
    """pairs: [(cand, formula)]; returns the candidates whose formula is entailed by st"""
    live = []
    for c, f in pairs:
        f = simp(f)
        if z3.is_true(f):
            live.append((c, None))
        else:
            live.append((c, f))
    while True:
        todo = [(c, f) for c, f in live if f is not None]
        if not todo:
            break
        goal = z3.And(*[f for c, f in todo]) if len(todo) > 1 else todo[0][1]
        r = en.check(st.pc, z3.Not(goal), timeout=500)
        if r == z3.unsat:
            break
        if r == z3.sat:
            m = en.last.model()
            bad = set()
            for c, f in todo:
                v = m.eval(f, model_completion=True)
                if z3.is_false(v):
                    bad.add(id(c))
            if not bad:
                # cannot tell from the model: test one by one
                bad = individually(en, st, todo)
                live = [(c, f) for c, f in live if id(c) not in bad]
                break
            live = [(c, f) for c, f in live if id(c) not in bad]
        else:
            bad = individually(en, st, todo)
            live = [(c, f) for c, f in live if id(c) not in bad]
            break
    if en.o['verbose'] > 3:
        for c, f in pairs:
            if not any(x is c for x, _ in live) and (en.o['verbose'] > 4 or 'sp_' in c.name or 'inv_' in c.name):
                print('     drop', c.name, flush=True)
    return [c for c, f in live]


def entailed(en, st, view, cands, dropped):
    """the candidates that hold in st; each predicate supplied with the contracts is tried on a copy of its own, so that
    what one of them unfolds does not burden the others"""
    s = st.clone()
    v = view(s)
    pairs = []
    for c in cands:
        if not c.name.startswith('inv_'):
            f = holds(en, c, v)
            if f is not None:
                pairs.append((c, f))
    ok = set(id(c) for c in prune(en, s, pairs))
    for c in cands:
        if c.name.startswith('inv_'):
            s = st.clone()
            f = holds(en, c, view(s))
            if f is not None and prune(en, s, [(c, f)]):
                ok.add(id(c))
    for c in cands:
        if id(c) not in ok:
            dropped.add(c.name)
    return [c for c in cands if id(c) in ok]


def individually(en, st, todo):
    bad = set()
    t = en.o.get('cand_timeout', 2500)
    for c, f in todo:
        if id(c) in bad:
            continue
        r = en.check(st.pc, z3.Not(f), timeout=t * 8 if c.name.startswith('inv_') else t)
        if r == z3.sat:
            m = en.last.model()
            for c2, f2 in todo:
                if id(c2) not in bad and z3.is_false(m.eval(f2, model_completion=True)):
                    bad.add(id(c2))
        if r != z3.unsat:
            bad.add(id(c))
            if en.o['verbose'] > 2 and r != z3.sat:
                print('   undecided candidate', c.name)
    return bad


class Var:
    __slots__ = ('name', 'kind', 'key', 'ty', 'v0', 'rgs')

    def __init__(self, name, kind, key, v0):
        self.name, self.kind, self.key, self.v0 = name, kind, key, v0
        self.rgs = None


def cut(en, st, fr, src, header, body):
    # pointer phis whose region is still symbolic at entry: split first
    phis = fr.fn.blocks[header].phis
    entry = en.phi_values(st, fr, src, header)
    for ph in phis:
        v = entry[ph.dst]
        if isinstance(v, Ptr) and not isinstance(v.rg, int):
            out = []
            for s, q in en.resolve(st, v, 'loop variable'):
                # make the register itself concrete
                f2 = s.frames[-1]
                for k, x in list(f2.env.items()):
                    if isinstance(x, Ptr) and x.rg is v.rg:
                        f2.env[k] = Ptr(q.rg, x.off)
                try:
                    r = cut2(en, s, s.frames[-1], src, header, body, {ph.dst: q})
                except Stop:
                    continue
                out.extend(r)
            return out
    return cut2(en, st, fr, src, header, body, {})


def touch(en, st, writes):
    """globals written in the loop exist before it, also if nothing touched them yet"""
    for w in writes:
        if w[0] not in st.objs and w[0] in en.gobj:
            en.global_ptr(st, *en.gobj[w[0]])


def cut2(en, st, fr, src, header, body, force):
    phis = fr.fn.blocks[header].phis
    entry = en.phi_values(st, fr, src, header)
    entry.update(force)
    for ph in phis:
        v = entry[ph.dst]
        if isinstance(v, Ptr) and not isinstance(v.rg, int):
            rs = en.resolve(st, v, 'loop variable')
            out = []
            for s, q in rs:
                f2 = dict(force)
                f2[ph.dst] = q
                try:
                    out.extend(cut2(en, s, s.frames[-1], src, header, body, f2))
                except Stop:
                    pass
            return out
    lkey = (fr.fn.name, header)
    ckey = (callstring(st), fr.fn.name, header)
    depth = len(st.frames)
    en.stats['loops_cut'] += 1
    touch(en, st, en.wcache.get(ckey, ()))
    W = set(x for x in en.wcache.get(ckey, ()) if x[0] in st.objs)
    dropped = en.dropped.setdefault(ckey, set())
    phity = {ph.dst: ph.ty for ph in phis}
    rgs = {}
    anyrg = set()
    for d, v in entry.items():
        if isinstance(v, Ptr):
            rgs[('phi', d)] = {v.rg}
    mark = next(E._fresh)
    it = fresh_bv('it', 64)
    first = True
    data = None
    live_names = None
    rounds = 0
    outer_checking = en.checking
    while True:
        rounds += 1
        if rounds > 120:
            raise Unsupported('loop %s %s: no fixpoint' % lkey)
        # ---- havoc
        h = st.clone()
        hf = h.frames[-1]
        cur = {}
        for ph in phis:
            d = ph.dst
            v0 = entry[d]
            k = ('phi', d)
            cur[k] = havoc_value(en, h, v0, ph.ty, d[1:], rgs.get(k), k in anyrg)
            hf.env[d] = cur[k]
        hf.prev = src
        hf.block = header
        hf.idx = 0
        symarr = set()
        cells = set()
        for (r, c, o) in W:
            if r not in st.objs and r > 0:
                continue
            if o is None:
                symarr.add((r, c))
        for (r, c, o) in W:
            if o is not None:
                cells.add((r, c, o))
        newbase = {}
        for (r, c) in symarr:
            n = next(E._fresh)
            rules = []
            if c == 'ptr':
                node = Node('base', (z3.Array('H%d_%d_rg!%d' % (n, r, n), BV64, BV16),
                                     z3.Array('H%d_%d_po!%d' % (n, r, n), BV64, BV64), rules))
            else:
                node = Node('base', (z3.Array('H%d_%d_%s!%d' % (n, r, c, n), BV64, SORT[c]), None, rules))
            en.base(st, r, c)
            h.mem[(r, c)] = node
            newbase[(r, c)] = node
        # reads at constant offsets of havocked arrays are candidate "unchanged" cells
        en.rcache.setdefault(ckey, set()).update(data.reads if data else ())
        rcells = set((r, c, o) for (r, c, o) in en.rcache[ckey] if (r, c) in symarr and (r in st.objs or r < 0))
        ev = {}
        for ph in phis:
            ev[('phi', ph.dst)] = entry[ph.dst]
        for (r, c, o) in sorted(cells | rcells, key=str):
            v0 = en.read_node(st, r, c, en.base(st, r, c), bv(o))
            k = ('cell', r, c, o)
            if isinstance(v0, Ptr):
                if not isinstance(v0.rg, int):
                    # a pointer cell with several possible targets at entry
                    alts = []
                    try:
                        for s2, q in en.resolve(st.clone(), v0, 'cell'):
                            alts.append(q.rg)
                    except Unsupported:
                        anyrg.add(k)
                    rgs.setdefault(k, set()).update(alts)
                else:
                    rgs.setdefault(k, set()).add(v0.rg)
            ev[k] = v0
            nm = '%d.%s.%d%s' % (r, c, o, ' same' if isinstance(v0, Ptr) else '==entry')
            if (r, c) in symarr and (r, c, o) not in cells and nm not in dropped:
                # candidate "this cell keeps its value" (checked like the others): use the value itself
                cur[k] = v0
                h.mem[(r, c)] = Node('st', (bv(o), v0), h.mem[(r, c)])
            elif (r, c) in symarr:
                cur[k] = en.read_node(h, r, c, h.mem[(r, c)], bv(o))
            else:
                cur[k] = havoc_cell(en, h, v0, c, '%s+%d' % (st.objs[r].name if r in st.objs else 'x', o), rgs.get(k), k in anyrg)
                h.mem[(r, c)] = Node('st', (bv(o), cur[k]), en.base(h, r, c))
        h.assume(z3.ULT(it, bv(1 << 40)))
        h.approx = True
        h.snapmark = mark

        # ---- candidates
        cands = gen(en, st, ev, entry, it, mark, data, symarr, rgs, cells | rcells, ckey)
        cands = [c for c in cands if c.name not in dropped]
        # initiation
        cands = entailed(en, st, lambda s: View(en, s, ev, bv(0)), cands, dropped)
        # ---- assume
        hv = View(en, h, cur, it)
        for c in cands:
            if c.arr:
                add_rule(en, newbase, c, hv)
        for c in cands:
            if not c.arr:
                h.fact(simp(c.fn(hv)))
        if not en.feasible(h):
            # with the invariant the loop head is unreachable: only possible if entry is infeasible
            if not en.feasible(st):
                raise Stop()
            raise Unsupported('contradictory invariant')
        # ---- body
        L, = [LoopCtx(depth, fr.fn, header, body)]
        en.loops.append(L)
        en.checking = 0
        try:
            en.run([h.clone()])
        finally:
            en.loops.pop()
            en.checking = outer_checking
        if en.loops:
            for P in en.loops:
                for w in L.writes:
                    P.writes.add(w)
        touch(en, st, L.writes)
        neww = set(w for w in L.writes if (w[0] in st.objs or w[0] < 0)) - W
        # const-offset writes into arrays that are already havocked only matter as cells
        if neww:
            W |= neww
            en.wcache[ckey] = set(W)
            data = mergedata(data, L, st)
            continue
        if data is None:
            data = mergedata(data, L, st)
            first = False
            continue
        nd = mergedata(data, L, st)
        # ---- pointer regions at back edges
        changed = False
        for b, pv in L.backs:
            bview = backview(en, b, pv, cur)
            for k, v in bview.items():
                if isinstance(v, Ptr) and k not in anyrg:
                    allowed = rgs.setdefault(k, set())
                    if isinstance(v.rg, int):
                        if v.rg not in allowed:
                            if v.rg in st.objs or v.rg == 0:
                                allowed.add(v.rg)
                            else:
                                anyrg.add(k)
                            changed = True
                    else:
                        while True:
                            r = en.check(b.pc, z3.And(*[v.rg != a for a in allowed]))
                            if r == z3.unsat:
                                break
                            changed = True
                            if r != z3.sat:
                                anyrg.add(k)
                                break
                            nv = en.last.model().eval(v.rg, model_completion=True).as_long()
                            if nv in st.objs or nv == 0:
                                allowed.add(nv)
                            else:
                                anyrg.add(k)
                                break
                            if len(allowed) > 12:
                                anyrg.add(k)
                                break
            fr2 = b.freed - st.freed
            if any(x in st.objs and st.objs[x].kind == 'heap' for x in fr2):
                raise Unsupported('loop %s %s frees an object allocated before it' % lkey)
            if b.nlive != st.nlive:
                st.nlive = None
                h.nlive = None
        if changed:
            data = nd
            continue
        # ---- consecution
        before = len(cands)
        for b, pv in L.backs:
            if not en.feasible(b):
                continue
            bvw = backview(en, b, pv, cur)
            cands = entailed(en, b, lambda s: View(en, s, bvw, simp(it + 1)), cands, dropped)
        if en.o['verbose'] > 2:
            print('   round', lkey, rounds, before, '->', len(cands), 'backs', len(L.backs), '%.1f' % time.time(), flush=True)
        if len(cands) < before:
            data = nd
            continue
        # new information (bounds seen) may give new candidates
        newk = nd.key(mark)
        if newk != data.key(mark) and rounds < 40:
            data = nd
            continue
        break
    en.loopinfo['%s:%s' % (fr.fn.name[1:], header[1:])] = [c.name for c in cands]
    # ---- termination
    if en.o['terminate'] and outer_checking and fr.fn.name[1:] not in en.o.get('noterm', ()) and \
            fr.fn.module.tag != en.htag:
        term = termination(en, L, cands, cur, it, st)
        o = Obligation('termination', 'loop terminates', '%s:%s' % (fr.fn.name[1:], header[1:]))
        ln = next((i.line for i in fr.fn.blocks[header].insts if i.line), None)
        if ln:
            o.loc = '%s:%d(%s)' % (ln[0].split('/')[-1], ln[1], fr.fn.name[1:])
        o = en.obls.setdefault(o.key(), o)
        o.checks += 1
        if not term:
            o.status = 'unknown'
            if en.o['verbose']:
                print('  OBLIGATION unknown: termination at %s' % o.loc)
    # ---- final run, obligations on
    if outer_checking:
        L2 = LoopCtx(depth, fr.fn, header, body)
        en.loops.append(L2)
        # inner loops must not leak their contexts
        try:
            en.run([h.clone()])
        finally:
            en.loops.pop()
        L = L2
    out = []
    for (s, src2, tgt) in L.exits:
        # continue outside of the loop
        try:
            r = en.goto(s, tgt)
        except Stop:
            continue
        out.extend([('go', s)] if r is None else r)
    return out


class Data:
    def __init__(self):
        self.cmps = {}
        self.symw = []
        self.backdelta = {}
        self.reads = set()

    def key(self, mark):
        return (len(set(k for k, t in self.cmps.items() if invariant_term(t, mark))), len(self.reads))


def mergedata(old, L, st):
    d = Data()
    if old:
        d.cmps.update(old.cmps)
        d.keepc = getattr(old, 'keepc', [])
        d.reads |= old.reads
    d.keepc = getattr(d, 'keepc', []) + getattr(L, 'keepc', [])
    d.cmps.update(L.cmps)
    d.symw = L.symw
    d.reads |= set(x for x in L.reads if x[0] in st.objs)
    d.backs = L.backs
    return d


def havoc_value(en, h, v0, ty, name, rgset, anyrg):
    if isinstance(v0, PtrInt):
        raise Unsupported('pointer integer carried by a loop')
    if isinstance(v0, Ptr):
        off = fresh_bv(name + '.o', 64)
        if anyrg:
            return Ptr(fresh_bv(name + '.r', 16), off)
        if len(rgset) == 1:
            return Ptr(next(iter(rgset)), off)
        rg = fresh_bv(name + '.r', 16)
        h.fact(z3.Or(*[rg == r for r in sorted(rgset)]))
        return Ptr(rg, off)
    if z3.is_bool(v0):
        return fresh(name, z3.BoolSort())
    return fresh_bv(name, v0.size())


def havoc_cell(en, h, v0, cls, name, rgset, anyrg):
    if cls == 'ptr':
        return havoc_value(en, h, v0, PTR, name, rgset or set(), anyrg or not rgset)
    return fresh_bv(name, v0.size())


def backview(en, b, pv, cur):
    out = {}
    for k in cur:
        if k[0] == 'phi':
            out[k] = pv[k[1]]
        else:
            _, r, c, o = k
            out[k] = en.read_node(b, r, c, en.base(b, r, c), bv(o))
    return out


class View:
    def __init__(self, en, st, vals, it):
        self.en, self.st, self.vals, self.it = en, st, vals, it

    def __getitem__(self, k):
        return self.vals[k]


def holds(en, c, view):
    """formula of candidate c in the view (array candidates are skolemised)"""
    try:
        if not c.arr:
            return c.fn(view)
        r, cl = c.arr
        k = fresh_bv('k', 64)
        v = en.read_node(view.st, r, cl, en.base(view.st, r, cl), k)
        return c.fn(view, k, v)
    except Unsupported as e:
        if en.o['verbose'] > 3:
            print('     cannot evaluate', c.name, e)
        return None


def add_rule(en, newbase, c, hv):
    node = newbase.get(c.arr)
    if node is None:
        return

    def rule(st, off, val, depth):
        v = View(en, st, hv.vals, hv.it)
        st.fact(simp(c.fn(v, off, val)))
    node.a[2].append(rule)


def ptr_eq(a, b):
    if isinstance(a.rg, int) and isinstance(b.rg, int):
        return a.off == b.off if a.rg == b.rg else z3.BoolVal(False)
    return z3.And(a.rgt() == b.rgt(), a.off == b.off)


def gen(en, st, ev, entry, it, mark, data, symarr, rgs, cells, ckey):
    """candidate invariants for the loop whose variables have the entry values ev"""
    C = []
    add = C.append

    def name(k):
        return k[1][1:] if k[0] == 'phi' else '%d.%s.%d' % (k[1], k[2], k[3])

    # bounds seen in comparisons inside the body
    bounds = {}
    if data:
        for (i, n), t in data.cmps.items():
            t = simp(t)
            if invariant_term(t, mark):
                bounds.setdefault(n, {})[t.get_id()] = t
    for n in (8, 16, 32, 64):
        z = z3.BitVecVal(0, n)
        bounds.setdefault(n, {})[z.get_id()] = z
    # integer-like views of the variables
    iv = []     # (name, key, getter, guard getter or None, entry value)
    for k, v0 in ev.items():
        if isinstance(v0, Ptr):
            for r in sorted(rgs.get(k, ())):
                if r == 0:
                    continue
                multi = len(rgs[k]) > 1
                iv.append((name(k) + ('@%d' % r), k, r, v0.off if v0.rg == r else None, 64, multi))
        elif z3.is_bool(v0):
            add(Cand('%s==entry' % name(k), lambda V, k=k, v0=v0: V[k] == v0))
        else:
            iv.append((name(k), k, None, v0, v0.size(), False))

    def mk(nm, k, r, f, **kw):
        """f(term) -> Bool over the integer view of variable k"""
        if r is None:
            add(Cand(nm, lambda V: f(V[k], V), var=k, **kw))
        else:
            def g(V):
                p = V[k]
                if isinstance(p.rg, int):
                    return f(p.off, V) if p.rg == r else z3.BoolVal(True)
                return z3.Implies(p.rg == r, f(p.off, V))
            add(Cand(nm, g, var=k, **kw))

    def delta_consts(k, r):
        out = set()
        return out

    for nm, k, r, v0, n, multi in iv:
        if v0 is not None:
            mk('%s==entry' % nm, k, r, lambda t, V, v0=v0: t == v0)
            mk('%s>=entry' % nm, k, r, lambda t, V, v0=v0: t >= v0, up='lo')
            mk('%s<=entry' % nm, k, r, lambda t, V, v0=v0: t <= v0, up='hi')
            for c in (1, -1, 4, 8, 16, 24, 32, 2):
                mk('%s==entry%+d*it' % (nm, c), k, r,
                   lambda t, V, v0=v0, c=c, n=n: t == v0 + z3.BitVecVal(c, n) * (
                       V.it if n == 64 else z3.Extract(n - 1, 0, V.it)))
            if n == 32:
                for c in (1, -1):
                    mk('%s==entry%+d*it (wide)' % (nm, c), k, r,
                       lambda t, V, v0=v0, c=c: sx(t) == sx(v0) + (V.it if c == 1 else -V.it))
        for b in list(bounds.get(n, {}).values()):
            bn = str(b).replace('\n', ' ')
            if len(bn) > 80:
                bn = bn[:60] + '#%d' % (hash(bn) & 0xffff)
            mk('%s<=%s' % (nm, bn), k, r, lambda t, V, b=b: t <= b, up='hi')
            mk('%s>=%s' % (nm, bn), k, r, lambda t, V, b=b: t >= b, up='lo')
            if n >= 32 and not isc(b):
                mk('%s<=u%s' % (nm, bn), k, r, lambda t, V, b=b: z3.ULE(t, b), up='hi')
            if isc(b) and b.as_long() != 0:
                pass
            if isc(b):
                mk('%s!=%s' % (nm, bn), k, r, lambda t, V, b=b: t != b)
        if r is not None and r in st.objs:
            o = st.objs[r]
            if o.nul is not None and v0 is not None:
                nl = simp(o.nul(v0))
                mk('%s<=nul' % nm, k, r, lambda t, V, nl=nl: t <= nl, up='hi')
                if en.o.get('nulseg'):
                    pass
            elif o.data is not None:
                mk('%s<=len' % nm, k, r, lambda t, V, o=o: t <= bv(len(o.data) - 1), up='hi')
            if o.fam is None:
                mk('%s<=size' % nm, k, r, lambda t, V, o=o: t <= o.size, up='hi')
                mk('%s<size' % nm, k, r, lambda t, V, o=o: t < o.size, up='hi')
            elif v0 is not None:
                sh = o.fam[0]
                mk('%s same element' % nm, k, r, lambda t, V, v0=v0, sh=sh: z3.LShR(t, sh) == z3.LShR(v0, sh))
            if o.nul is not None and o.fam is None and (v0 is None):
                nl = simp(o.nul(bv(0)))
                mk('%s<=nul0' % nm, k, r, lambda t, V, nl=nl: t <= nl, up='hi')
                mk('%s>=0' % nm, k, r, lambda t, V: t >= 0, up='lo')
    # lockstep between variables
    vs = [x for x in iv if x[3] is not None]
    if len(vs) <= 14:
        for i in range(len(vs)):
            for j in range(i + 1, len(vs)):
                a, b = vs[i], vs[j]
                if a[5] or b[5]:
                    continue

                def val(V, x):
                    t = V[x[1]]
                    return t.off if isinstance(t, Ptr) else t
                if a[4] == b[4]:
                    add(Cand('%s~%s' % (a[0], b[0]),
                             lambda V, a=a, b=b: val(V, a) - a[3] == val(V, b) - b[3]))
                    if a[2] is None and b[2] is None:
                        add(Cand('%s==%s' % (a[0], b[0]), lambda V, a=a, b=b: val(V, a) == val(V, b)))
                    if (a[2] is None) == (b[2] is None):
                        add(Cand('%s<=%s' % (a[0], b[0]), lambda V, a=a, b=b: val(V, a) <= val(V, b)))
                        add(Cand('%s>=%s' % (a[0], b[0]), lambda V, a=a, b=b: val(V, a) >= val(V, b)))
                else:
                    add(Cand('%s~%s' % (a[0], b[0]),
                             lambda V, a=a, b=b: sx(val(V, a)) - sx(a[3]) == sx(val(V, b)) - sx(b[3])))
    # pointer variables equal to entry / each other
    pk = [k for k, v in ev.items() if isinstance(v, Ptr)]
    for k in pk:
        add(Cand('%s same' % name(k), lambda V, k=k: ptr_eq(V[k], ev[k])))
    for i in range(len(pk)):
        for j in range(i + 1, len(pk)):
            a, b = pk[i], pk[j]
            if len(pk) <= 10:
                add(Cand('%s eq %s' % (name(a), name(b)), lambda V, a=a, b=b: ptr_eq(V[a], V[b])))
    # constants assigned on back edges (flags)
    if data and getattr(data, 'backs', None):
        for nm, k, r, v0, n, multi in iv:
            if r is not None or v0 is None:
                continue
            consts = {}
            okc = True
            for b, pv in data.backs:
                if k[0] == 'phi':
                    t = pv[k[1]]
                else:
                    t = en.read_node(b, k[1], k[2], en.base(b, k[1], k[2]), bv(k[3]))
                t = simp(t)
                if isc(t):
                    consts[t.as_long()] = t
            if consts and len(consts) <= 6:
                cs = list(consts.values())
                add(Cand('%s in {entry,%s}' % (nm, sorted(consts)),
                         lambda V, k=k, v0=v0, cs=cs: z3.Or(V[k] == v0, *[V[k] == c for c in cs])))
    # ---- specification functions: value of the rest equals value of the whole
    seen = set()
    for fn, vals in (() if en.o.get('nosp') else st.sp):
        # positions that can be replaced by a loop variable
        choices = []
        for (t, pn, byv), v in zip(fn.params, vals):
            opts = [None]
            if isinstance(v, Ptr) and v.rg != 0:
                opts += [k for k in pk if isinstance(ev[k].rg, int) and ev[k].rg == v.rg]
            elif not isinstance(v, Ptr) and not z3.is_bool(v):
                opts += [x[1] for x in iv if x[2] is None and x[4] == v.size()]
            choices.append(opts)
        combos = list(itertools.product(*choices))
        if len(combos) > 60:
            combos = combos[:60]
        for combo in combos:
            if all(c is None for c in combo):
                continue
            base = [v if c is None else ev[c] for c, v in zip(combo, vals)]
            sig = (fn.name, tuple(combo), tuple(str(v) for v, c in zip(vals, combo) if c is None))
            if sig in seen:
                continue
            seen.add(sig)
            nmb = '%s(%s)' % (fn.name[1:], ','.join('_' if c is None else name(c) for c in combo))
            if sum(1 for x in seen) > 200:
                break
            nmb += '#%d' % (hash(str([str(v) for v, c in zip(vals, combo) if c is None])) & 0xfff)
            try:
                app0 = en.sp_apply(st, fn, base)
            except Unsupported:
                continue

            def spv(V, fn=fn, combo=combo, vals=vals):
                vv = [v if c is None else V[c] for c, v in zip(combo, vals)]
                for x in vv:
                    if isinstance(x, Ptr) and not isinstance(x.rg, int):
                        raise Unsupported('sp on a multi-region pointer')
                return V.en.sp_apply(V.st, fn, vv)
            add(Cand(nmb + ' kept', lambda V, spv=spv, app0=app0: spv(V) == app0))
            if not z3.is_bool(app0):
                n = app0.size()
                for c in combo:
                    if c is not None and isinstance(ev[c], Ptr) and n == 64:
                        add(Cand(nmb + ' kept+moved',
                                 lambda V, spv=spv, app0=app0, c=c: spv(V) + (V[c].off - ev[c].off) == app0))
                for x in iv:
                    if x[2] is None and x[4] == n and x[3] is not None:
                        add(Cand(nmb + ' + ' + x[0],
                                 lambda V, spv=spv, app0=app0, x=x: spv(V) + (V[x[1]] - x[3]) == app0))
    # ---- predicates supplied with the contracts
    hm = en.hmod()
    for fname, fn in hm.funcs.items():
        if not fname.startswith('@inv_'):
            continue
        choices = []
        for (t, pn, byv) in fn.params:
            if t.k == 'ptr':
                choices.append([k for k in pk])
            else:
                choices.append([x[1] for x in iv if x[2] is None and x[4] == t.n])
        for combo in itertools.islice((x for x in itertools.product(*choices) if len(set(x)) == len(x)), 80):
            nmb = '%s(%s)' % (fname[1:], ','.join(name(c) for c in combo))

            def uv(V, fn=fn, combo=combo):
                vv = [V[c] for c in combo]
                for x in vv:
                    if isinstance(x, Ptr) and not isinstance(x.rg, int):
                        raise Unsupported('inv on a multi-region pointer')
                return V.en.eval_pure(V.st, fn, vv) != 0
            add(Cand(nmb, uv))
    # ---- arrays written at varying offsets
    for (r, c) in sorted(symarr, key=str):
        old = en.base(st, r, c)
        w = WIDTH[c]

        def same(V, k, v, r=r, c=c, old=old):
            o = en.read_node(V.st, r, c, old, k)
            return ptr_eq(v, o) if c == 'ptr' else v == o
        consts = [o for (rr, cc, o) in cells if rr == r and cc == c]

        def notcell(k, consts=tuple(consts)):
            return z3.And(*[k != bv(o) for o in consts]) if consts else z3.BoolVal(True)
        # below / above fixed boundaries
        bnds = {}
        if data:
            for (rr, cc, off, v) in data.symw:
                if (rr, cc) == (r, c):
                    off = simp(off)
                    cst = const_part(off)
                    bnds['c%d' % cst] = bv(cst)
                    if invariant_term(off, mark):
                        bnds['t%d' % off.get_id()] = off
        for bn, b in bnds.items():
            add(Cand('frame<%d.%s.%s' % (r, c, bn), lambda V, k, v, b=b, same=same, notcell=notcell: z3.Implies(
                z3.And(k < b, k >= 0, notcell(k)), same(V, k, v)), arr=(r, c)))
            add(Cand('frame>%d.%s.%s' % (r, c, bn), lambda V, k, v, b=b, same=same, notcell=notcell: z3.Implies(
                z3.And(k > b, notcell(k)), same(V, k, v)), arr=(r, c)))
        # outside of the segment covered so far by a pointer variable of this object
        for k0 in pk:
            if isinstance(ev[k0].rg, int) and ev[k0].rg == r:
                p0 = ev[k0].off
                add(Cand('frame %d.%s outside [%s0,%s)' % (r, c, name(k0), name(k0)),
                         lambda V, k, v, k0=k0, p0=p0, same=same, notcell=notcell: z3.Implies(
                             z3.And(z3.Or(k < p0, k >= V[k0].off), notcell(k)), same(V, k, v)), arr=(r, c)))
                add(Cand('frame %d.%s outside (%s,%s0]' % (r, c, name(k0), name(k0)),
                         lambda V, k, v, k0=k0, p0=p0, same=same, notcell=notcell: z3.Implies(
                             z3.And(z3.Or(k > p0, k <= V[k0].off), notcell(k)), same(V, k, v)), arr=(r, c)))
        # everything from an integer variable (as an index) on
        if w > 1:
            for x in iv:
                if x[2] is None and x[4] in (32, 64) and x[3] is not None:
                    add(Cand('frame %d.%s from [%s]' % (r, c, x[0]), lambda V, k, v, x=x, w=w, same=same, notcell=notcell: z3.Implies(
                        z3.And(k >= bv(w) * sx(V[x[1]]), notcell(k)), same(V, k, v)), arr=(r, c)))
        # content written so far: iteration j wrote value g(j) at w0 + s*j
        if data:
            for (rr, cc, off, v) in data.symw[:6]:
                if (rr, cc) != (r, c):
                    continue
                for cand in content(en, st, ev, r, c, off, v, mark, data, name):
                    add(cand)
    # names must be unique
    out = []
    names = set()
    keep = en.o.get('keep')
    for c in C:
        if keep and not c.name.startswith('inv_') and not re.search(keep, c.name):
            continue
        if c.name not in names:
            names.add(c.name)
            out.append(c)
    return out


def const_part(t):
    """constant addend of a sum"""
    if isc(t):
        return t.as_signed_long()
    if t.decl().kind() == z3.Z3_OP_BADD:
        s = 0
        for x in t.children():
            if isc(x):
                s += x.as_signed_long()
        return s
    return 0


def content(en, st, ev, r, c, off, v, mark, data, name):
    """candidates of the form: for all j < it, mem[w0 + s*j] == const  or  == src[q0 + s*j]"""
    out = []
    w = WIDTH[c]
    # w0 candidates: entry value of the address, found by replacing loop variables by their entry values
    sub = []
    for k, v0 in ev.items():
        pass
    # pointer phi based writes
    starts = []
    for k, v0 in ev.items():
        if isinstance(v0, Ptr) and isinstance(v0.rg, int) and v0.rg == r:
            starts.append((v0.off, name(k)))
    cst = const_part(off)
    starts.append((bv(cst), 'c%d' % cst))
    consts = []
    if isinstance(v, Ptr):
        if isinstance(v.rg, int) and invariant_term(v.off, mark):
            consts.append(v)
    elif invariant_term(simp(v), mark):
        consts.append(v)
    for w0, wn in starts:
        for s in {w, 1}:
            if s < w:
                continue

            def inr(V, k, w0=w0, s=s):
                d = k - w0
                cond = z3.And(k >= w0, z3.ULT(z3.LShR(d, s.bit_length() - 1), V.it))
                if s > 1:
                    cond = z3.And(cond, z3.Extract(s.bit_length() - 2, 0, d) == 0)
                return cond
            for cv in consts:
                out.append(Cand('filled %d.%s from %s' % (r, c, wn),
                                lambda V, k, x, inr=inr, cv=cv: z3.Implies(
                                    inr(V, k), ptr_eq(x, cv) if isinstance(cv, Ptr) else x == cv), arr=(r, c)))
            # copies from another object: source starts at the entry value of any pointer variable or 0
            srcs = []
            for k2, v2 in ev.items():
                if isinstance(v2, Ptr) and isinstance(v2.rg, int) and v2.rg in st.objs and v2.rg != r:
                    srcs.append((v2.rg, v2.off, name(k2)))
            for (rr, cl) in src_arrays(en, st, v, c):
                srcs.append((rr, bv(0), 'obj%d' % rr))
            for (sr, so, sn) in srcs:
                node = en.base(st, sr, c)

                def f(V, k, x, inr=inr, sr=sr, so=so, node=node, w0=w0):
                    y = en.read_node(V.st, sr, c, node, simp(so + (k - w0)))
                    return z3.Implies(inr(V, k), ptr_eq(x, y) if c == 'ptr' else x == y)
                out.append(Cand('copy %d.%s from %s <- %s' % (r, c, wn, sn), f, arr=(r, c)))
    return out


def src_arrays(en, st, v, c):
    """objects whose initial contents v was read from"""
    names = set()
    ts = [v.rgt(), v.off] if isinstance(v, Ptr) else [v]
    for t in ts:
        names |= freevars(t)
    out = set()
    for rid in st.objs:
        for x in ('R_%d_rg' % rid, 'R_%d_%s' % (rid, c)):
            if x in names:
                out.add((rid, c))
        o = st.objs[rid]
        if o.view is not None:
            out.add((rid, c))
    return out


def termination(en, L, cands, cur, it, st):
    """some variable moves strictly towards a bound it never crosses"""
    ups = set(c.var for c in cands if c.up == 'hi')
    dns = set(c.var for c in cands if c.up == 'lo')
    backs = []
    for b, pv in L.backs:
        if en.feasible(b):
            backs.append((b, backview(en, b, pv, cur)))
    if not backs:
        return True

    def t(x):
        return x.off if isinstance(x, Ptr) else x
    # a variable that strictly rises (or falls) in a finite signed domain
    for k in cur:
        if not isinstance(cur[k], Ptr) and z3.is_bool(cur[k]):
            continue
        for dirn in ('up', 'dn'):
            ok = True
            for b, v in backs:
                if isinstance(v[k], Ptr) and not (isinstance(v[k].rg, int) and isinstance(cur[k].rg, int) and v[k].rg == cur[k].rg):
                    ok = False
                    break
                a, c = t(cur[k]), t(v[k])
                f = (c > a) if dirn == 'up' else (c < a)
                if en.entails(b, f, timeout=4000) is not True:
                    ok = False
                    break
            if ok:
                return True
    # so does the sum of two int variables
    ints = [k for k in cur if not isinstance(cur[k], Ptr) and not z3.is_bool(cur[k]) and cur[k].size() == 32]
    if len(ints) <= 8:
        for i in range(len(ints)):
            for j in range(i + 1, len(ints)):
                for sg, up in ((1, 1), (1, 0), (-1, 1), (-1, 0)):
                    ok = True
                    for b, v in backs:
                        def m(x):
                            p, q = sx(x[ints[i]]), sx(x[ints[j]])
                            return p + q if sg > 0 else p - q
                        if en.entails(b, m(v) > m(cur) if up else m(v) < m(cur), timeout=2000) is not True:
                            ok = False
                            break
                    if ok:
                        return True
    # distance between two variables shrinks and stays non-negative
    keys = [k for k in cur if not (not isinstance(cur[k], Ptr) and z3.is_bool(cur[k]))]
    if len(keys) <= 8:
        for a in keys:
            for b2 in keys:
                if a == b2 or isinstance(cur[a], Ptr) != isinstance(cur[b2], Ptr):
                    continue
                x, y = t(cur[a]), t(cur[b2])
                if x.size() != y.size():
                    continue
                ok = True
                for b, v in backs:
                    f = z3.And(x >= y, t(v[a]) - t(v[b2]) >= 0, t(v[a]) - t(v[b2]) < x - y, x - y >= 0)
                    if en.entails(b, f, timeout=3000) is not True:
                        ok = False
                        break
                if ok:
                    return True
    return False
