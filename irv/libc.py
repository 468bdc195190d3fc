"""Assumed contracts of the C library and the built-in vocabulary (vp_*) of the contract files."""
import z3
from ir import *
from engine import *
import engine as E

LIBC_ASSUMED = {}


def table(en):
    T = {}

    def reg(*names):
        def d(f):
            for n in names:
                T[n] = f
            return f
        return d

    def need(vals, i):
        v = vals[i]
        if isinstance(v, PtrInt):
            v = v.p
        if not isinstance(v.rg, int):
            raise ForkPtr(i, v)
        return v

    # ---------------------------------------------------------------- strings
    def strend(st, p, what='string argument'):
        """offset of the terminator of the string at p; obligation: p points into a terminated string"""
        if p.rg == 0:
            en.oblige(st, z3.BoolVal(False), 'memory', '%s is not null' % what)
            raise Stop()
        o = st.objs[p.rg]
        if o.kind == 'func':
            raise Unsupported('string in code')
        if p.rg in st.freed:
            en.oblige(st, z3.BoolVal(False), 'memory', '%s is live' % what)
            raise Stop()
        node = en.base(st, p.rg, 'b8')
        off = simp(p.off)
        if node.kind == 'bytes':
            d = node.a
            c = cval(off)
            if c is not None:
                i = d.find(b'\0', c)
                if i < 0 or c > len(d):
                    en.oblige(st, z3.BoolVal(False), 'memory', '%s is terminated' % what)
                    raise Stop()
                return bv(i)
            if d.count(b'\0') == 1 and d.endswith(b'\0'):
                en.oblige(st, z3.ULE(off, bv(len(d) - 1)), 'memory', '%s in bounds' % what)
                return bv(len(d) - 1)
            raise Unsupported('string with inner terminators')
        if o.nul is not None and node is en.addrs.get(('B', p.rg, 'b8')):
            nl = simp(o.nul(off))
            idx, so, size = en.size_at(o, off)
            c = z3.ULE(off, nl)
            if idx is not None:
                c = z3.And(z3.ULT(idx, o.fam[1]), z3.ULT(so, size))
            en.oblige(st, c, 'memory', '%s in bounds' % what)
            return nl
        if o.fam is not None:
            raise Unsupported('mutable string family')
        key = ('np', node.ver, off.get_id())
        r = st.memo.get(key)
        if r is None:
            en.valid(st, Ptr(p.rg, off), 1, False, what)
            r = fresh_bv('nul', 64)
            en.keep = getattr(en, 'keep', [])
            en.keep.append(off)
            st.memo[key] = r
            st.fact(r >= off)
            # positions that may hold a terminator
            zs = list(st.zoffs.get(p.rg, ()))
            n = node
            lim = 0
            while n is not None and lim < 60:
                lim += 1
                if n.kind == 'st':
                    zs.append(n.a[0])
                elif n.kind == 'fill':
                    zs.append(n.a[0])
                    zs.append(off)
                elif n.kind == 'zero':
                    zs.append(off)
                    break
                elif n.kind == 'cp':
                    do, ln, sn, so, srid = n.a
                    zs.append(simp(do + ln - 1))
                    zs.append(simp(do + ln))
                    so_ = st.objs.get(srid)
                    if so_ is not None and so_.nul is not None:
                        zs.append(simp(so_.nul(so) - so + do))
                elif n.kind == 'base':
                    break
                n = n.parent
            seen = set()
            for z in zs:
                z = simp(z)
                if z.get_id() in seen:
                    continue
                seen.add(z.get_id())
                v = en.read_node(st, p.rg, 'b8', node, z)
                st.fact(simp(z3.Implies(z3.And(z >= off, z < o.size, v == 0), r <= z)))
            for (o2, v2) in st.rseen.get(node.ver, ()):
                st.fact(simp(z3.Implies(z3.And(o2 >= off, v2 == 0), r <= o2)))
            # an earlier terminator search in the same version from a different start
            for (kk, rr) in list(st.memo.items()):
                if kk[0] == 'np' and kk[1] == node.ver and kk != key:
                    o3 = st.memo.get(('npo', kk[1], kk[2]))
                    if o3 is not None:
                        st.fact(z3.Implies(z3.And(o3 <= off, off <= rr), r == rr))
                        st.fact(z3.Implies(z3.And(off <= o3, o3 <= r), r == rr))
            st.memo[('npo', node.ver, off.get_id())] = off
            en.oblige(st, z3.And(r < o.size, r >= off), 'memory', '%s is terminated inside its object' % what)
            v = en.read_node(st, p.rg, 'b8', node, r)
            st.fact(simp(v == 0))
            en.add_rrule(st, node, lambda st, k, v, off=off, r=r: z3.Implies(z3.And(k >= off, k < r), v != 0))
        return r
    en.strend = strend

    @reg('strlen')
    def _(st, a, ins):
        p = need(a, 0)
        return simp(strend(st, p) - p.off)

    def rd(st, p, off):
        return en.mem_read(st, Ptr(p.rg, simp(off)), 'b8')

    def find(st, p, c, end, last):
        """first / last position of byte c in [p.off, end); memoised per memory version"""
        node = en.base(st, p.rg, 'b8')
        off = simp(p.off)
        key = ('find', last, node.ver, off.get_id(), simp(c).get_id())
        m = st.memo.get(key)
        if m is None:
            en.keep = getattr(en, 'keep', [])
            en.keep += [off, simp(c)]
            found, r = fresh('found', z3.BoolSort()), fresh_bv('pos', 64)
            m = (found, r)
            st.memo[key] = m
            v = en.read_node(st, p.rg, 'b8', node, r)
            df = z3.Implies(found, z3.And(r >= off, r < end, v == c))
            en.defs[df.get_id()] = df
            st.fact(df)
            if last:
                def rr(st, k, v):
                    return z3.And(z3.Implies(z3.And(found, k > r, k < end), v != c),
                                  z3.Implies(z3.And(z3.Not(found), k >= off, k < end), v != c))
            else:
                def rr(st, k, v):
                    return z3.And(z3.Implies(z3.And(found, k >= off, k < r), v != c),
                                  z3.Implies(z3.And(z3.Not(found), k >= off, k < end), v != c))
            rr.defn = True
            en.add_rrule(st, node, rr)
            # relate to an earlier search for the same byte in the same string
            for kk, (f2, r2) in [(k, v) for k, v in st.memo.items() if k[0] == 'find' and k[2] == node.ver and
                                 k[4] == key[4] and k != key]:
                o2 = st.memo.get(('findo',) + kk[1:])
                if o2 is None:
                    continue
                o2, end2 = o2
                if kk[1] == last and not last:
                    st.fact(z3.Implies(z3.And(f2, o2 <= off, off <= r2, end == end2), z3.And(found, r == r2)))
                    st.fact(z3.Implies(z3.And(found, off <= o2, o2 <= r, end == end2), z3.And(f2, r2 == r)))
                    st.fact(z3.Implies(z3.And(z3.Not(f2), o2 <= off, end == end2), z3.Not(found)))
                    st.fact(z3.Implies(z3.And(z3.Not(found), off <= o2, end == end2), z3.Not(f2)))
            st.memo[('findo',) + key[1:]] = (off, end)
        return m

    def strchr_like(st, a, last):
        p = need(a, 0)
        end = strend(st, p)
        c = simp(z3.Extract(7, 0, a[1]))
        node = en.base(st, p.rg, 'b8')
        if node.kind == 'bytes' and cval(p.off) is not None and cval(end) is not None and cval(end) - cval(p.off) <= 64:
            # constant string: enumerate positions
            s = node.a[cval(p.off):cval(end)]
            out = []
            order = range(len(s) - 1, -1, -1) if last else range(len(s))
            used = []
            for i in order:
                if s[i] in used:
                    continue
                used.append(s[i])
                cond = simp(c == s[i])
                if en.feasible(st, cond):
                    s2 = st.clone()
                    s2.assume(cond)
                    out.append((s2, Ptr(p.rg, simp(p.off + i))))
            cond = simp(c == 0)
            if en.feasible(st, cond):
                s2 = st.clone()
                s2.assume(cond)
                out.append((s2, Ptr(p.rg, end)))
            cond = simp(z3.And(c != 0, *[c != b for b in used]))
            if en.feasible(st, cond):
                s2 = st.clone()
                s2.assume(cond)
                out.append((s2, NULL))
            return out
        out = []
        if cval(c) != 0 and en.feasible(st, c != 0):
            s0 = st.clone()
            s0.assume(c != 0)
            f, r = find(s0, p, c, end, last)
            if en.feasible(s0, f):
                s1 = s0.clone()
                s1.assume(f)
                en.mem_read(s1, Ptr(p.rg, r), 'b8')
                out.append((s1, Ptr(p.rg, r)))
            if en.feasible(s0, z3.Not(f)):
                s0.assume(z3.Not(f))
                out.append((s0, NULL))
        if en.feasible(st, c == 0):
            s2 = st.clone()
            s2.assume(c == 0)
            out.append((s2, Ptr(p.rg, end)))
        return out

    @reg('strchr')
    def _(st, a, ins):
        return strchr_like(st, a, False)

    @reg('strrchr')
    def _(st, a, ins):
        return strchr_like(st, a, True)

    @reg('strcspn')
    def _(st, a, ins):
        p = need(a, 0)
        q = need(a, 1)
        end = strend(st, p)
        qe = strend(st, q)
        node = en.base(st, q.rg, 'b8')
        if not (node.kind == 'bytes' and cval(qe) is not None and cval(qe) - cval(q.off) == 1):
            raise Unsupported('strcspn with a general set')
        c = bv(node.a[cval(q.off)], 8)
        f, r = find(st, p, c, end, False)
        out = []
        if en.feasible(st, f):
            s1 = st.clone()
            s1.assume(f)
            en.mem_read(s1, Ptr(p.rg, r), 'b8')
            out.append((s1, simp(r - p.off)))
        if en.feasible(st, z3.Not(f)):
            st.assume(z3.Not(f))
            out.append((st, simp(end - p.off)))
        return out

    def compare(st, p, q, n):
        """strcmp/strncmp: sign of the comparison, as (equal, less) determined by the first difference"""
        pe, qe = strend(st, p), strend(st, q)
        pn, qn = en.base(st, p.rg, 'b8'), en.base(st, q.rg, 'b8')
        po, qo = simp(p.off), simp(q.off)
        key = ('cmp', pn.ver, po.get_id(), qn.ver, qo.get_id(), None if n is None else simp(n).get_id())
        m = st.memo.get(key)
        if m is not None:
            return m
        en.keep = getattr(en, 'keep', [])
        en.keep += [po, qo, n]
        # a short constant operand: expand
        for (cn, co, ce, on, oo, sw) in ((pn, po, pe, qn, qo, False), (qn, qo, qe, pn, po, True)):
            if cn.kind == 'bytes' and cval(co) is not None and cval(ce) is not None and cval(ce) - cval(co) <= 48:
                k = cval(ce) - cval(co)
                s = cn.a[cval(co):cval(ce) + 1]
                orid = q.rg if not sw else p.rg
                res = bv(0, 32)
                # build from the end: at position i, if equal and not terminator continue
                for i in range(k, -1, -1):
                    v = en.read_node(st, orid, 'b8', on, simp(oo + i)) if True else None
                    a_, b_ = (bv(s[i], 8), v) if not sw else (v, bv(s[i], 8))
                    d = z3.ZeroExt(24, a_) - z3.ZeroExt(24, b_)
                    nxt = res if s[i] != 0 else bv(0, 32)
                    res = z3.If(a_ == b_, nxt, d)
                    if n is not None:
                        res = z3.If(z3.ULE(n, i), bv(0, 32), res)
                res = simp(res)
                st.memo[key] = res
                return res
        # the outcome is a function of the two memories, positions and the limit: equal calls give equal results
        fd = z3.Function('cmpd_%s_%s' % (pn.ver, qn.ver), BV64, BV64, BV64, BV64)
        fr = z3.Function('cmpr_%s_%s' % (pn.ver, qn.ver), BV64, BV64, BV64, z3.BitVecSort(32))
        nn = bv(-1) if n is None else simp(n)
        d, res = fd(po, qo, nn), fr(po, qo, nn)
        st.memo[key] = res
        if en.o.get('lightcmp'):
            return res       # only "equal calls give equal results"

        def fact(f):
            f = simp(f)
            en.defs[f.get_id()] = f
            st.fact(f)
        a_ = en.read_node(st, p.rg, 'b8', pn, simp(po + d))
        b_ = en.read_node(st, q.rg, 'b8', qn, simp(qo + d))
        fact(z3.And(d >= 0, po + d <= pe, qo + d <= qe))
        lim = z3.BoolVal(False)
        if n is not None:
            fact(z3.ULE(d, n))
            lim = d == n
        fact(z3.If(lim, res == 0, z3.If(a_ == b_, z3.And(a_ == 0, res == 0),
                                        res == z3.ZeroExt(24, a_) - z3.ZeroExt(24, b_))))
        fact(z3.Implies(z3.And(z3.Not(lim), a_ != b_), res != 0))

        def pr(st, k, v):
            w = en.read_node(st, q.rg, 'b8', qn, simp(k - po + qo))
            return z3.Implies(z3.And(k >= po, k < po + d), z3.And(v == w, v != 0))

        def qr(st, k, v):
            w = en.read_node(st, p.rg, 'b8', pn, simp(k - qo + po))
            return z3.Implies(z3.And(k >= qo, k < qo + d), z3.And(v == w, v != 0))
        pr.defn = qr.defn = True
        en.add_rrule(st, pn, pr)
        en.add_rrule(st, qn, qr)
        # lengths: equal strings have equal lengths
        fact(z3.Implies(z3.And(z3.Not(lim), a_ == b_), pe - po == qe - qo))
        return res

    @reg('strcmp', 'strcoll')
    def _(st, a, ins):
        return compare(st, need(a, 0), need(a, 1), None)

    @reg('strncmp')
    def _(st, a, ins):
        return compare(st, need(a, 0), need(a, 1), a[2])

    def copy_range(st, d, s, n, classes=CLASSES):
        for c in classes:
            if c != 'b8' and (s.rg, c) not in st.mem and ('B', s.rg, c) not in en.addrs and \
                    (d.rg, c) not in st.mem and ('B', d.rg, c) not in en.addrs:
                continue
            sn = en.base(st, s.rg, c)
            dn = en.base(st, d.rg, c)
            st.mem[(d.rg, c)] = Node('cp', (simp(d.off), n, sn, simp(s.off), s.rg), dn)
            for L in en.loops:
                L.writes.add((d.rg, c, None))

    @reg('memcpy', 'memmove', 'llvm.memcpy*', 'llvm.memmove*', '__memcpy_chk')
    def _(st, a, ins):
        d, s, n = need(a, 0), need(a, 1), simp(a[2])
        if cval(n) == 0:
            return a[0]
        en.valid(st, d, n, True, 'memory copy destination')
        en.valid(st, s, n, False, 'memory copy source')
        copy_range(st, d, s, n)
        return a[0]

    @reg('memset', 'llvm.memset*')
    def _(st, a, ins):
        d, c, n = need(a, 0), a[1], simp(a[2])
        c = simp(z3.Extract(7, 0, c)) if c.size() > 8 else c
        if cval(n) == 0:
            return a[0]
        en.valid(st, d, n, True, 'memory fill')
        for cl in CLASSES:
            if cl != 'b8' and (d.rg, cl) not in st.mem and cval(c) != 0:
                continue
            if cl == 'ptr':
                v = NULL if cval(c) == 0 else Ptr(fresh_bv('fr', 16), fresh_bv('fo', 64))
            else:
                w = WIDTH[cl]
                v = simp(z3.Concat(*([c] * w))) if w > 1 else c
            st.mem[(d.rg, cl)] = Node('fill', (simp(d.off), n, v), en.base(st, d.rg, cl))
            for L in en.loops:
                L.writes.add((d.rg, cl, None))
        if cval(c) == 0:
            st.zoffs[d.rg] = (st.zoffs.get(d.rg, ()) + (simp(d.off),))[-8:]
        return a[0]

    def put0(st, p):
        en.mem_write(st, p, 'b8', bv(0, 8))

    @reg('strcpy', 'stpcpy')
    def _(st, a, ins):
        d, s = need(a, 0), need(a, 1)
        e = strend(st, s)
        n = simp(e - s.off)
        en.valid(st, d, simp(n + 1), True, 'string copy destination')
        copy_range(st, d, s, n, ('b8',))
        put0(st, Ptr(d.rg, simp(d.off + n)))
        return a[0]

    @reg('strcat')
    def _(st, a, ins):
        d, s = need(a, 0), need(a, 1)
        de = strend(st, d)
        e = strend(st, s)
        n = simp(e - s.off)
        en.valid(st, Ptr(d.rg, de), simp(n + 1), True, 'string append destination')
        copy_range(st, Ptr(d.rg, de), s, n, ('b8',))
        put0(st, Ptr(d.rg, simp(de + n)))
        return a[0]

    @reg('strncat')
    def _(st, a, ins):
        d, s, n = need(a, 0), need(a, 1), a[2]
        de = strend(st, d)
        e = strend(st, s)
        m = simp(z3.If(z3.ULT(n, e - s.off), n, e - s.off))
        en.valid(st, Ptr(d.rg, de), simp(m + 1), True, 'string append destination')
        copy_range(st, Ptr(d.rg, de), s, m, ('b8',))
        put0(st, Ptr(d.rg, simp(de + m)))
        return a[0]

    @reg('strncpy')
    def _(st, a, ins):
        d, s, n = need(a, 0), need(a, 1), a[2]
        e = strend(st, s)
        ln = simp(e - s.off)
        m = simp(z3.If(z3.ULT(n, ln), n, ln))
        en.valid(st, d, n, True, 'string copy destination')
        copy_range(st, d, s, m, ('b8',))
        st.mem[(d.rg, 'b8')] = Node('fill', (simp(d.off + m), simp(n - m), bv(0, 8)), en.base(st, d.rg, 'b8'))
        for L in en.loops:
            L.writes.add((d.rg, 'b8', None))
        return a[0]

    # ---------------------------------------------------------------- ctype (C locale)
    def inr(c, lo, hi):
        return z3.And(c >= lo, c <= hi)
    CT = {
        'isspace': lambda c: z3.Or(c == 32, inr(c, 9, 13)),
        'isdigit': lambda c: inr(c, 48, 57),
        'isupper': lambda c: inr(c, 65, 90),
        'islower': lambda c: inr(c, 97, 122),
        'isalpha': lambda c: z3.Or(inr(c, 65, 90), inr(c, 97, 122)),
        'isalnum': lambda c: z3.Or(inr(c, 65, 90), inr(c, 97, 122), inr(c, 48, 57)),
        'isxdigit': lambda c: z3.Or(inr(c, 65, 70), inr(c, 97, 102), inr(c, 48, 57)),
        'iscntrl': lambda c: z3.Or(inr(c, 0, 31), c == 127),
        'isprint': lambda c: inr(c, 32, 126),
        'isgraph': lambda c: inr(c, 33, 126),
        'ispunct': lambda c: z3.And(inr(c, 33, 126), z3.Not(z3.Or(inr(c, 65, 90), inr(c, 97, 122), inr(c, 48, 57)))),
        'isblank': lambda c: z3.Or(c == 32, c == 9),
    }
    for nm, f in CT.items():
        def h(st, a, ins, f=f):
            c = a[0]
            if z3.is_app_of(c, z3.Z3_OP_SIGN_EXT):
                c = c.arg(0)
            return simp(z3.If(f(c), bv(1, 32), bv(0, 32)))
        T[nm] = h
    def case(lo, hi, d):
        def h(st, a, ins):
            c = a[0]
            n = c.size()
            if z3.is_app_of(c, z3.Z3_OP_SIGN_EXT):
                c = c.arg(0)
            r = simp(z3.If(inr(c, lo, hi), c + d, c))
            return r if r.size() == n else simp(z3.SignExt(n - r.size(), r)) if isc(r) else z3.SignExt(n - r.size(), r)
        return h
    T['toupper'] = case(97, 122, -32)
    T['tolower'] = case(65, 90, 32)


    # ---------------------------------------------------------------- numbers
    def scan_num(st, a, kind, base, bits):
        p = need(a, 0)
        e = need(a, 1)
        nl = strend(st, p)
        node = en.base(st, p.rg, 'b8')
        off = simp(p.off)
        bk = base if isinstance(base, int) else None
        if bk is None:
            raise Unsupported('number conversion with a symbolic base')
        key = '%s%d_r%d_%s' % (kind, bk, p.rg, 'b' if node is en.addrs.get(('B', p.rg, 'b8')) or node.kind == 'bytes' else node.ver)
        fe = z3.Function(key + '_end', BV64, BV64)
        fv = z3.Function(key + '_val', BV64, z3.BitVecSort(bits))
        end, val = fe(off), fv(off)
        st.fact(z3.And(end >= off, end <= nl))
        if kind != 'strtod':
            st.fact(z3.Implies(end == off, val == 0))
        # a conversion consumes at least one character, so an empty string converts to nothing
        st.fact(z3.Implies(nl == off, end == off))
        if e.rg != 0:
            en.valid(st, e, 8, True, 'end pointer')
            en.mem_write(st, e, 'ptr', Ptr(p.rg, end))
        return val

    @reg('strtol', 'strtoll', '__isoc23_strtol', '__isoc23_strtoll')
    def _(st, a, ins):
        return scan_num(st, a, 'strtol', cval(a[2]), 64)

    @reg('strtoul', 'strtoull', '__isoc23_strtoul')
    def _(st, a, ins):
        return scan_num(st, a, 'strtoul', cval(a[2]), 64)

    @reg('strtod')
    def _(st, a, ins):
        return scan_num(st, a, 'strtod', 0, 64)

    # ---------------------------------------------------------------- heap
    def heap(st, n, zero=False):
        o = en.new_obj(st, 'heap', simp(n), 'heap')
        if st.nlive is not None:
            st.nlive += 1
        st.fact(z3.ULT(o.size, bv(MAXSZ))) if not isc(o.size) else None
        if zero:
            for c in CLASSES:
                st.mem[(o.rid, c)] = Node('zero', c)
        return Ptr(o.rid, bv(0))

    def alloc(st, n, zero):
        if en.o.get('malloc_fail'):
            s2 = st.clone()
            g = en.o.get('malloc_ghost')
            if g:
                gp = en.global_ptr(s2, '@' + g, en.hmod())
                old = en.mem_read(s2, gp, 'b32')
                en.mem_write(s2, gp, 'b32', simp(old + 1))
            return [(st, heap(st, n, zero)), (s2, NULL)]
        return heap(st, n, zero)

    @reg('malloc')
    def _(st, a, ins):
        return alloc(st, a[0], False)

    @reg('calloc')
    def _(st, a, ins):
        return alloc(st, simp(a[0] * a[1]), True)

    @reg('llvm.va_start*', 'llvm.va_end*')
    def _(st, a, ins):
        return None

    @reg('free')
    def _(st, a, ins):
        p = need(a, 0)
        if p.rg == 0:
            return None
        o = st.objs.get(p.rg)
        if o.kind == 'ffam':
            idx = simp(z3.LShR(p.off, o.fam[0]))
            en.oblige(st, z3.And(simp(p.off & bv((1 << o.fam[0]) - 1)) == 0, z3.ULT(idx, o.fam[1])), 'memory',
                      'free of the start of an object')
            v = en.read_node(st, p.rg, 'b8', en.base(st, -p.rg, 'b8'), idx)
            en.oblige(st, v == 0, 'memory', 'free of a live object')
            en.mem_write(st, Ptr(-p.rg, idx), 'b8', bv(1, 8))
            return None
        if o.kind != 'heap':
            en.oblige(st, z3.BoolVal(False), 'memory', 'free of a heap object')
            raise Stop()
        if p.rg in st.freed:
            en.oblige(st, z3.BoolVal(False), 'memory', 'no double free')
            raise Stop()
        en.oblige(st, p.off == 0, 'memory', 'free of the start of an object')
        st.freed = st.freed | {p.rg}
        if st.nlive is not None:
            st.nlive -= 1
        return None

    @reg('realloc')
    def _(st, a, ins):
        raise Unsupported('realloc')

    @reg('abort', 'exit', '_exit')
    def _(st, a, ins):
        raise Stop()

    @reg('__assert_fail')
    def _(st, a, ins):
        en.oblige(st, z3.BoolVal(False), 'assert', 'assertion in the code holds')
        raise Stop()

    @reg('getenv')
    def _(st, a, ins):
        if en.o.get('noenv'):
            return NULL
        s2 = st.clone()
        r = new_cstr(s2, 'env')
        return [(st, NULL), (s2, r)]

    @reg('warnx', 'fprintf', 'printf', 'fputs', 'fputc', 'puts', 'putchar')
    def _(st, a, ins):
        return None

    # ---------------------------------------------------------------- vp vocabulary
    def new_cstr(st, name, record=True):
        o = en.new_obj(st, name, bv(0), 'str', True)
        ln = fresh_bv('len', 64)
        o.size = simp(ln + 1)
        st.fact(z3.ULT(ln, bv(MAXSZ)))
        o.nul = lambda off, ln=ln: ln

        def rule(st, cls, off, v, ln=ln):
            if cls == 'b8':
                st.fact(z3.And(z3.Implies(z3.ULT(off, ln), v != 0), z3.Implies(off == ln, v == 0)))
        o.rules.append(rule)
        o.length = ln
        if record:
            st.inputs = st.inputs + (('cstr', o, ln),)
        if en.o.get('bounded_len'):
            st.fact(z3.ULE(ln, en.o['bounded_len']))
        return Ptr(o.rid, bv(0))

    en.new_cstr = new_cstr

    @reg('vp_cstr')
    def _(st, a, ins):
        return new_cstr(st, 'input')

    @reg('vp_mcstr')
    def _(st, a, ins):
        p = new_cstr(st, 'input')
        st.objs[p.rg].const = False
        return p

    @reg('vp_opt_cstr')
    def _(st, a, ins):
        s2 = st.clone()
        st.inputs = st.inputs + (('int', bv(1, 32)),)
        s2.inputs = s2.inputs + (('int', bv(0, 32)),)
        p = new_cstr(st, 'input')
        return [(st, p), (s2, NULL)]

    @reg('vp_int')
    def _(st, a, ins):
        v = fresh_bv('in', 32)
        st.inputs = st.inputs + (('int', v),)
        return v

    @reg('vp_long')
    def _(st, a, ins):
        v = fresh_bv('inl', 64)
        st.inputs = st.inputs + (('int', v),)
        return v

    @reg('vp_uchar')
    def _(st, a, ins):
        v = fresh_bv('inc', 8)
        st.inputs = st.inputs + (('int', v),)
        return v

    @reg('vp_range')
    def _(st, a, ins):
        v = fresh_bv('in', 32)
        st.inputs = st.inputs + (('int', v),)
        st.assume(z3.And(v >= a[0], v <= a[1]))
        return v

    @reg('vp_choice')
    def _(st, a, ins):
        n = cval(a[0])
        out = []
        for i in range(n):
            s = st.clone()
            s.inputs = s.inputs + (('int', bv(i, 32)),)
            out.append((s, bv(i, 32)))
        return out

    @reg('vp_size')
    def _(st, a, ins):
        """arbitrary size; the argument only bounds the native search"""
        v = fresh_bv('sz', 64)
        st.fact(z3.ULT(v, bv(MAXSZ >> 8)))
        st.inputs = st.inputs + (('size', v),)
        return v

    @reg('vp_buf')
    def _(st, a, ins):
        """heap object of the given size with arbitrary contents"""
        o = en.new_obj(st, 'buf', simp(a[0]), 'heap')
        st.fact(z3.ULT(o.size, bv(MAXSZ))) if not isc(o.size) else None
        st.inputs = st.inputs + (('bytes', o, o.size),)
        return Ptr(o.rid, bv(0))

    @reg('vp_assume')
    def _(st, a, ins):
        c = simp(a[0] != 0)
        if z3.is_false(c) or not en.feasible(st, c):
            raise Stop()
        st.assume(c)
        return None

    def cstring(st, p):
        node = en.base(st, p.rg, 'b8')
        return node.a[cval(p.off):node.a.find(b'\0', cval(p.off))].decode()

    @reg('vp_assert')
    def _(st, a, ins):
        en.oblige(st, a[0] != 0, 'property', cstring(st, a[1]))
        return None

    @reg('vp_lemma')
    def _(st, a, ins):
        en.oblige(st, a[0] != 0, 'lemma', cstring(st, a[1]))
        st.fact(simp(a[0] != 0))
        return None

    @reg('vp_requires')
    def _(st, a, ins):
        en.oblige(st, a[0] != 0, 'precondition', cstring(st, a[1]))
        return None

    @reg('vp_cover')
    def _(st, a, ins):
        nm = cstring(st, a[0])
        if nm not in en.covers and en.checking and en.feasible(st):
            en.covers.add(nm)
        return None

    @reg('vp_index')
    def _(st, a, ins):
        """an arbitrary index below n: proving P(k) for it proves P for all"""
        v = fresh_bv('idx', 64)
        st.inputs = st.inputs + (('size', v),)
        st.assume(z3.ULT(v, a[0]))
        if not en.feasible(st):
            raise Stop()
        return v

    @reg('vp_strfam')
    def _(st, a, ins):
        """family of n strings; element i via vp_fam(f, i)"""
        n = simp(a[0])
        o = en.new_obj(st, 'strings', bv(0), 'str', True)
        sh = 40
        o.fam = (sh, n)
        lenf = z3.Function('len_%d' % o.rid, BV64, BV64)
        o.lenf = lenf
        o.esize = lambda i: lenf(i) + 1
        o.nul = lambda off: ((z3.LShR(off, sh)) << sh) + lenf(z3.LShR(off, sh))

        def rule(st, cls, off, v):
            if cls == 'b8':
                i = simp(z3.LShR(off, sh))
                k = off & bv((1 << sh) - 1)
                l = lenf(i)
                st.fact(z3.And(z3.ULT(l, bv(1 << 39)), z3.Implies(z3.ULT(k, l), v != 0), z3.Implies(k == l, v == 0)))
        o.rules.append(rule)
        st.inputs = st.inputs + (('strfam', o, n),)
        return Ptr(o.rid, bv(0))

    @reg('vp_fam')
    def _(st, a, ins):
        """element i of a family"""
        f = need(a, 0)
        o = st.objs[f.rg]
        i = a[1]
        if i.size() < 64:
            i = z3.SignExt(64 - i.size(), i)
        if hasattr(o, 'lenf'):
            st.fact(z3.ULT(o.lenf(simp(i)), bv(1 << 39)))
        return Ptr(f.rg, simp(i << o.fam[0]))

    @reg('vp_family')
    def _(st, a, ins):
        """n separately allocated objects of size esz with arbitrary contents"""
        n, esz = simp(a[0]), cval(a[1])
        o = en.new_obj(st, 'objects', bv(0), 'ffam', False)
        o.fam = (24, n)
        o.esize = lambda i: bv(esz)
        st.mem[(-o.rid, 'b8')] = Node('zero', 'b8')
        st.inputs = st.inputs + (('fam', o, n),)
        ok = a[3] if len(a) > 3 else NULL
        if ok.rg != 0:
            fn = st.objs[ok.rg].ftag

            def rule(st, cls, off, v, fn=fn, o=o):
                i = simp(z3.LShR(off, 24))
                key = ('F', o.rid, i.get_id())
                if key in st.facts:
                    return
                st.facts.add(key)
                en.keep = getattr(en, 'keep', [])
                en.keep.append(i)
                s = st.clone()
                for c in CLASSES:
                    s.mem.pop((o.rid, c), None)
                n0 = len(s.pc)
                s.assume(z3.ULT(i, n))
                if not en.feasible(s):
                    return
                n1 = len(s.pc)
                r = en.eval_pure(s, fn, [Ptr(o.rid, simp(i << 24)), i])
                for c in s.pc[n1:]:
                    st.fact(simp(z3.Implies(z3.ULT(i, n), c)))
                st.facts |= set(k for k in s.facts if isinstance(k, tuple))
                st.fact(z3.Implies(z3.ULT(i, n), r != 0))
            o.rules.append(rule)
        return Ptr(o.rid, bv(0))

    @reg('vp_array')
    def _(st, a, ins):
        """one object of n elements of size esz (a power of two) with arbitrary contents, element i satisfying ok(p, i)"""
        n, esz = simp(a[0]), cval(a[1])
        sh = esz.bit_length() - 1
        if esz != 1 << sh:
            raise Unsupported('vp_array: element size')
        o = en.new_obj(st, 'array', simp(n << sh), 'heap')
        st.inputs = st.inputs + (('fam', o, n),)
        ok = a[3]
        fn = st.objs[ok.rg].ftag

        def rule(st, cls, off, v, fn=fn, o=o):
            i = index_at(off, sh)
            key = ('F', o.rid, i.get_id())
            if key in st.facts:
                return
            st.facts.add(key)
            en.keep.append(i)
            s = st.clone()
            for c in CLASSES:
                s.mem.pop((o.rid, c), None)
            s.assume(z3.ULT(i, n))
            if not en.feasible(s):
                return
            n1 = len(s.pc)
            r = en.eval_pure(s, fn, [Ptr(o.rid, simp(i << sh)), i])
            for c in s.pc[n1:]:
                st.fact(simp(z3.Implies(z3.ULT(i, n), c)))
            st.facts |= set(k for k in s.facts if isinstance(k, tuple))
            st.fact(z3.Implies(z3.ULT(i, n), r != 0))
        o.rules.append(rule)
        return Ptr(o.rid, bv(0))

    def index_at(off, sh):
        """off >> sh, kept as the index it was computed from (offsets beyond 2^60 are out of bounds anyway)"""
        def q(t):
            if z3.is_bv_value(t):
                v = t.as_signed_long()
                return bv(v >> sh)      # at most one constant: the other parts are multiples
            k = t.decl().kind()
            if k == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)):
                v = t.arg(0).as_signed_long()
                if v % (1 << sh) == 0:
                    r = t.arg(1)
                    for i in range(2, t.num_args()):
                        r = r * t.arg(i)
                    return bv(v >> sh) * r if v >> sh != 1 else r
            return None
        off = simp(off)
        parts = off.children() if z3.is_app(off) and off.decl().kind() == z3.Z3_OP_BADD else [off]
        qs = [q(t) for t in parts]
        if any(x is None for x in qs):
            return simp(z3.LShR(off, sh))
        r = qs[0]
        for x in qs[1:]:
            r = r + x
        return simp(r)
    en.index_at = index_at

    @reg('vp_ptrtable')
    def _(st, a, ins):
        """array of n pointers, entry i pointing to element i of the family (entry n, if extra, is null)"""
        f, n = need(a, 0), simp(a[1])
        fo = st.objs[f.rg]
        o = en.new_obj(st, 'table', simp(n * 8), 'heap')
        ln = fo.fam[1]

        def view(st, cls, off, f=f, sh=fo.fam[0], ln=ln):
            if cls != 'ptr':
                return None
            i = index_at(off, 3)
            p = Ptr(f.rg, simp(i << sh))
            if simp(ln - n).eq(bv(0)):
                return p
            c = simp(z3.ULT(i, ln))
            if z3.is_true(c):
                return p
            return Ptr(z3.If(c, bv(f.rg, 16), bv(0, 16)), p.off)
        o.view = view
        return Ptr(o.rid, bv(0))

    @reg('vp_off')
    def _(st, a, ins):
        p = need(a, 0)
        return p.off

    @reg('vp_same_object')
    def _(st, a, ins):
        p, q = a[0], a[1]
        return simp(z3.If(p.rgt() == q.rgt(), bv(1, 32), bv(0, 32)))

    @reg('vp_room')
    def _(st, a, ins):
        """bytes from p to the end of its object (0 if not inside a live object)"""
        p = need(a, 0)
        if p.rg == 0 or p.rg in st.freed or st.objs[p.rg].kind == 'func':
            return bv(0)
        o = st.objs[p.rg]
        idx, off, size = en.size_at(o, p.off)
        return simp(z3.If(z3.ULE(off, size), size - off, bv(0)))

    @reg('vp_live')
    def _(st, a, ins):
        p = need(a, 0)
        if p.rg == 0:
            return bv(0, 32)
        o = st.objs[p.rg]
        if o.kind == 'ffam':
            v = en.read_node(st, p.rg, 'b8', en.base(st, -p.rg, 'b8'), simp(z3.LShR(p.off, o.fam[0])))
            return simp(z3.If(v == 0, bv(1, 32), bv(0, 32)))
        return bv(0 if p.rg in st.freed else 1, 32)

    @reg('vp_heap_live')
    def _(st, a, ins):
        """number of live heap blocks allocated by the code"""
        if st.nlive is None:
            return fresh_bv('nlive', 32)
        return bv(st.nlive, 32)

    @reg('vp_havoc_int')
    def _(st, a, ins):
        p = need(a, 0)
        v = fresh_bv('hv', 32)
        en.mem_write(st, p, 'b32', v)
        return None

    @reg('vp_rotate')
    def _(st, a, ins):
        """exchange the adjacent blocks [s,e) and [e,end) of the pointer array p"""
        p, s, e, end = need(a, 0), simp(a[1]), simp(a[2]), simp(a[3])
        old = en.base(st, p.rg, 'ptr')
        b = index_at(p.off, 3)

        def f(off):
            i = simp(index_at(off, 3) - b)
            m = simp(s + end - e)
            return [(z3.And(i >= s, i < m), off + 8 * (e - s)), (z3.And(i >= m, i < end), off - 8 * (end - e))]
        st.mem[(p.rg, 'ptr')] = Node('map', (f, old), old)
        for L in en.loops:
            L.writes.add((p.rg, 'ptr', None))
        return None

    @reg('vp_havoc')
    def _(st, a, ins):
        """the n bytes from p on get arbitrary contents"""
        p, n = need(a, 0), simp(a[1])
        for c in CLASSES:
            if (p.rg, c) not in st.mem and ('B', p.rg, c) not in en.addrs and not (st.objs[p.rg].view and c == 'ptr'):
                continue
            k = next(E._fresh)
            if c == 'ptr':
                nn = E.Node('base', (z3.Array('V%d_rg!%d' % (k, k), E.BV64, E.BV16), z3.Array('V%d_po!%d' % (k, k), E.BV64, E.BV64), ()))
            else:
                nn = E.Node('base', (z3.Array('V%d_%s!%d' % (k, c, k), E.BV64, E.SORT[c]), None, ()))
            st.mem[(p.rg, c)] = Node('cp', (simp(p.off), n, nn, simp(p.off), -1), en.base(st, p.rg, c))
            for L in en.loops:
                L.writes.add((p.rg, c, None))
        return None

    @reg('vp_snapshot')
    def _(st, a, ins):
        """remember the contents of the object p points to; returns a handle"""
        p = need(a, 0)
        h = len(st.snaps)
        st.snaps = st.snaps + ((p.rg, tuple(en.base(st, p.rg, c) for c in CLASSES)),)
        return bv(h, 32)

    @reg('vp_unchanged')
    def _(st, a, ins):
        """1 iff every cell of the snapshotted object that lies in [lo,hi) (byte offsets from the object
        start) still has its value"""
        h = cval(a[0])
        rg, nodes = st.snaps[h]
        nodes = dict(zip(CLASSES, nodes))
        lo, hi = a[1], a[2]
        k = fresh_bv('cell', 64)
        conj = []
        for c in CLASSES:
            now = en.base(st, rg, c)
            if now is nodes[c]:
                continue
            x = en.read_node(st, rg, c, now, k)
            y = en.read_node(st, rg, c, nodes[c], k)
            if c == 'ptr':
                conj.append(z3.And(x.rgt() == y.rgt(), z3.Or(x.rgt() == 0, x.off == y.off)))
            else:
                conj.append(x == y)
        if not conj:
            return bv(1, 32)
        o = st.objs[rg]
        # sound in obligations only (negative polarity of the quantifier)
        return simp(z3.If(z3.Implies(z3.And(k >= lo, k < hi), z3.And(*conj)), bv(1, 32), bv(0, 32)))

    @reg('vp_same_value')
    def _(st, a, ins):
        return simp(z3.If(a[0] == a[1], bv(1, 32), bv(0, 32)))

    return T
