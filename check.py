#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current tree."""
import sys, os, time, json, subprocess, tempfile, shutil, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/irv')
import build, plan, native

T0 = time.time()
TOTAL = 820          # a quick check answers within 900 s


def left(total):
    return total - (time.time() - T0)


def run_workers(irdir, jobs, budget, scale, total, ncpu=8):
    """jobs: [(harness, inline)] -> results, in parallel processes"""
    todo = sorted(jobs, key=lambda j: -j[0].opts.get('cost', 10))
    run, res = [], {}
    while todo or run:
        while todo and len(run) < ncpu:
            h, inl = todo.pop(0)
            out = os.path.join(irdir, 'r_%s_%s_%d.json' % (h.unit, h.name, inl))
            b = min(h.opts.get('budget', budget), max(20, left(total) - 30))
            p = subprocess.Popen(['python3-vt', VERIF + '/irv/worker.py', irdir, h.unit, h.name, '1' if inl else '0', str(b), out,
                                  str(scale)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            run.append((h, inl, p, out, time.time() + b + 60))
        time.sleep(0.05)
        for x in list(run):
            h, inl, p, out, end = x
            if p.poll() is None and time.time() < end:
                continue
            run.remove(x)
            if p.poll() is None:
                p.kill()
            txt = p.communicate()[0].decode(errors='replace')
            try:
                res[(h.unit, h.name, inl)] = json.load(open(out))
            except (OSError, ValueError):
                res[(h.unit, h.name, inl)] = dict(unit=h.unit, harness=h.name, inline=inl, status='budget', obligations=[], loops={},
                                                 functions=[], contracts=[], externals=[], stats={}, covers=[], wall=0,
                                                 note='worker ended: ' + txt[-600:])
    return res


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    total = TOTAL if tier == 'quick' else 3000
    budget = 300 if tier == 'quick' else 1200
    scale = 1.0 if tier == 'quick' else 3.0
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        return decide(prop, tier, seed, total, budget, scale, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, total, budget, scale, work):
    hs, contracts = plan.for_prop(prop)
    if not hs:
        print('no harness for %s' % prop)
        return 2
    units = sorted(set(h.unit for h in hs))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', violations=0)
    notes = []
    irdir = os.path.join(work, 'ir')
    unit_err = {}
    res = {}
    final = {}
    try:
        build.ir_all(irdir)
    except build.BuildError as e:
        notes.append('the sources do not compile for extraction: ' + str(e)[-400:])
        units_ok = []
    else:
        units_ok = []
        for u in units:
            try:
                build.unit_ir(irdir, u)
                units_ok.append(u)
            except build.BuildError as e:
                unit_err[u] = str(e)[-600:]
                notes.append('contract file %s does not compile against this tree: %s' % (u, str(e)[-400:]))
    proofs = [h for h in hs if not h.native_only]
    res = run_workers(irdir, [(h, False) for h in proofs if h.unit in units_ok], budget, scale, total)

    byname = {(x.unit, x.name): x for x in proofs}

    def ok(h, seen=()):
        r = res.get((h.unit, h.name, False))
        if r is None or r['status'] != 'proved':
            return False
        # (a recursive function uses its own contract)
        return all(ok(byname[contracts[(h.unit, f)][1]], seen + (h,)) for f in h.use
                   if contracts[(h.unit, f)][1] in byname and byname[contracts[(h.unit, f)][1]] not in seen + (h,))
    # callers whose callee contracts do not hold on this tree are redone with the callee bodies
    redo = [h for h in proofs if prop in h.props and h.use and not ok(h) and h.unit in units_ok and not h.opts.get('nonative')]
    if redo:
        res.update(run_workers(irdir, [(h, True) for h in redo], budget * 0.8, scale, total))
    undecided = []       # (harness, why, failed obligations)
    for h in proofs:
        if prop not in h.props:
            # contract of a helper: matters only through the callers
            continue
        if ok(h):
            final[h] = res[(h.unit, h.name, False)]
            continue
        r = res.get((h.unit, h.name, True))
        if r is not None and r['status'] == 'proved':
            final[h] = r
            continue
        undecided.append(h)
    helpers_bad = [h for h in proofs if prop not in h.props and not ok(h)
                   and any(contracts[(g.unit, f)][1] == (h.unit, h.name) for g in undecided for f in g.use)]

    violation = None
    bounded = []
    native_note = {}
    natives = list(undecided) + [h for h in hs if h.native_only and (undecided or not h.backup(prop))]
    if tier == 'thorough':
        natives += [h for h in hs if h not in natives and prop in h.props]
    if natives:
        violation, native_note = hunt(prop, natives, res, seed, tier, total, work, unit_err)
    soft = None
    if violation is None:
        for h in undecided + helpers_bad:
            for inl in (True, False):
                r = res.get((h.unit, h.name, inl))
                if r is None:
                    continue
                bad = [o for o in r['obligations'] if o['status'] == 'failed']
                if r['status'] == 'failed' and (h in undecided or all(res.get((g.unit, g.name, True), {}).get('status') == 'failed'
                                                                     for g in undecided)):
                    if h in undecided and h.use and inl is False and (h.unit, h.name, True) in res:
                        continue     # the modular attempt relied on a contract that does not hold: the inlined one decides
                    soft = soft or (h, r, bad)
        for h in undecided + helpers_bad:
            bounded.append(h)
    vio = []
    rc = 0
    if violation:
        h, what, path = violation
        vio.append(dict(harness=str(h), what=what, replay=path))
        print('%s: %s' % (h, what))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif soft:
        h, r, bad = soft
        path = replay_path(prop, h)
        with open(path, 'w') as f:
            f.write('property %s\nharness %s\nfailed obligations:\n' % (prop, h))
            for o in bad:
                f.write('  [%s] %s at %s (%s)\n    model: %s\n' % (o['kind'], o['name'], o['loc'], o['status'], o['inputs']))
            f.write('\nnative search: %s\n' % json.dumps(native_note, indent=1))
            f.write('\nverifier output:\n%s\n' % json.dumps(r, indent=1))
        vio.append(dict(harness=str(h), what='; '.join('%s at %s' % (o['name'], o['loc']) for o in bad), replay=path))
        for o in bad:
            print('obligation not discharged: [%s] %s at %s' % (o['kind'], o['name'], o['loc']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        rc = 1
    ev['violations'] = len(vio)
    write_evidence(prop, tier, ev, hs, res, final, bounded, native_note, notes, contracts, rc, vio)
    if rc == 0:
        for h in bounded:
            r = res.get((h.unit, h.name, True)) or res.get((h.unit, h.name, False)) or {}
            print('BOUNDED %s: not proved on this tree (%s %s); searched: %s' % (h, r.get('status'), (r.get('note') or '')[:200].replace('\n', ' '),
                                                                              native_note.get(str(h))))
        nb = len([h for h in final if h.opts.get('bound')])
        print('%s: held (%d harnesses proved, %d bounded)' % (prop, len(final) - nb, len(bounded) + nb))
    return rc


def replay_path(prop, h):
    d = VERIF + '/replays'
    os.makedirs(d, exist_ok=True)
    return '%s/%s-%s.%s.txt' % (d, prop, h.unit, h.name)


def hunt(prop, hs, res, seed, tier, total, work, unit_err):
    """look for a failing input of the harnesses natively"""
    ndir = os.path.join(work, 'native')
    note = {}
    try:
        libobjs = native.lib(ndir)
    except build.BuildError as e:
        return None, {'build': str(e)[-600:]}
    exes = []
    units = {}
    for h in hs:
        if h.opts.get('nonative'):
            note[str(h)] = 'not executable natively'
            continue
        try:
            if h.unit not in units:
                units[h.unit] = native.unit_objs(ndir, h.unit, libobjs)
            r = res.get((h.unit, h.name, False))
            if r is not None and r['status'] == 'absent' and h.proves:
                note[str(h)] = 'function under contract absent'
                continue
            exes.append((h, native.link(ndir, h.unit, h.name, *units[h.unit])))
        except build.BuildError as e:
            note[str(h)] = 'native build failed: ' + str(e)[-300:]
    # 1. replay the verifier's models
    for h, exe in exes:
        for inl in (False, True):
            r = res.get((h.unit, h.name, inl))
            if not r:
                continue
            for o in r['obligations']:
                if o['status'] == 'failed' and o['inputs']:
                    d = tempfile.mkdtemp(dir=work)
                    bad, out = native.replay(exe, o['inputs'], d)
                    if bad:
                        return (h, native.describe(out), save(prop, h, 'counterexample of obligation [%s] %s at %s' % (
                            o['kind'], o['name'], o['loc']), out, r)), note
    if not exes:
        return None, note
    # 2. search
    if tier == 'quick':
        secs = max(5, min(75, (left(total) - 40) / max(1, (len(exes) + 3) // 4)))
        secs = min(secs, 25 if all(h.native_only for h, _ in exes) else 75)
    else:
        secs = max(20, min(240, (left(total) - 60) / max(1, (len(exes) + 1) // 2)))
    # harnesses side by side, 8 processes in all
    import threading
    hits = []
    width = min(len(exes), 8)
    jobs = max(1, 8 // width)
    queue = list(exes)
    lock = threading.Lock()

    def loop():
        while True:
            with lock:
                if not queue or hits:
                    return
                h, exe = queue.pop(0)
            d = tempfile.mkdtemp(dir=work)
            hit, n = native.search(exe, d, int(secs), seed, jobs)
            with lock:
                note[str(h)] = '%d executions in %ds x %d processes' % (n, secs, jobs)
                if hit:
                    hits.append((h, hit))
    th = [threading.Thread(target=loop) for _ in range(width)]
    [t.start() for t in th]
    [t.join() for t in th]
    if hits:
        h, (a, out) = hits[0]
        r = res.get((h.unit, h.name, True)) or res.get((h.unit, h.name, False))
        return (h, native.describe(out), save(prop, h, 'failing input found by search', out, r)), note
    return None, note


def save(prop, h, how, out, r):
    path = replay_path(prop, h)
    ins = re.findall(r'^INPUT (\S+) (\S+)(?:\s+# (.*))?$', out, re.M)
    with open(path, 'w') as f:
        f.write('property %s\nharness %s (units/%s.c)\n%s\nfailure on the real code: %s\n\ninputs, in the order the harness asks for them:\n' % (
            prop, h.name, h.unit, how, native.describe(out)))
        for k, v, c in ins:
            f.write('  %s %s  %s\n' % (k, v, c))
        f.write('\nnative output:\n%s\n' % out[-6000:])
        if r:
            f.write('\nobligations not discharged:\n')
            for o in r['obligations']:
                if o['status'] != 'proved':
                    f.write('  [%s] %s at %s: %s\n' % (o['kind'], o['name'], o['loc'], o['status']))
    return path


ASSUME = [
    'clang 18 front end and the LLVM passes mem2reg/sroa translate the C sources faithfully (the verified text is the IR of the unmodified /repo/src files)',
    'irv (own verification condition generator), z3 and cvc5 are sound',
    'C library functions behave as their contracts in irv/libc.py say (C locale, POSIX); ctype functions accept every char value',
    'objects are smaller than 2^40 bytes and distinct objects do not overlap',
]


def write_evidence(prop, tier, ev, hs, res, final, bounded, nat, notes, contracts, rc, vio):
    obl = dis = 0
    fns, ext, con = set(), set(), set()
    by = []
    st = dict(queries=0, qtime=0.0, cvc5=0)
    loops = {}
    used = set()
    for (u, n, inl), r in res.items():
        for o in r['obligations']:
            obl += 1
            dis += o['status'] == 'proved'
        fns |= set(r['functions'])
        ext |= set(r['externals'])
        con |= set(r['contracts'])
        st['queries'] += r['stats'].get('queries', 0)
        st['qtime'] += r['stats'].get('qtime', 0)
        st['cvc5'] += r['stats'].get('cvc5', 0)
        for k, v in r['loops'].items():
            loops['%s in %s' % (k, n)] = v
        by.append(dict(harness='%s.%s%s' % (u, n, ' (callees inlined)' if inl else ''), status=r['status'], obligations=len(r['obligations']),
                       discharged=sum(o['status'] == 'proved' for o in r['obligations']), checks=sum(o['checks'] for o in r['obligations']),
                       functions=r['functions'], contracts_used=r['contracts'], solver_s=round(r['stats'].get('qtime', 0), 2),
                       paths=r['stats'].get('paths'), covers=r['covers'], note=r['note']))
    standins = [h for h in hs if h.native_only and not h.backup(prop)]
    assumed = sorted(set('%s (contract stub %s%s)' % (f, contracts[(h.unit, f)][0], ', discharged by the check of ' + contracts[(h.unit, f)][1][1][4:]
                                                      if contracts[(h.unit, f)][1][1].startswith('see:') else '') for h in hs for f in plan.assumed(h, contracts, hs)))
    level = 'other' if bounded or not final else 'proof'
    a = list(ASSUME)
    if ext:
        a.append('assumed contracts of external functions: ' + ', '.join(sorted(ext)))
    for h in bounded:
        a.append('%s is not proved on this tree; bounded by native search: %s' % (h, nat.get(str(h))))
    if assumed:
        a.append('contracts of library functions used but not discharged (assumed): ' + ', '.join(assumed))
    for h in standins:
            a.append('%s is a bounded stand-in (executed, not proved): %s' % (h, nat.get(str(h))))
    for h in hs:
        if h.opts.get('bound') and h in final:
            a.append('%s is discharged up to a stated bound only (%s), not counted as proved' % (h, h.opts['bound'].replace('-', ' ')))
    a += notes
    ev['level'] = level
    ev['coverage'] = dict(obligations=obl, discharged=dis, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier),
                          trusted_base=['irv/engine.py, irv/inv.py, irv/ir.py, irv/libc.py', 'z3 (python3-vt), cvc5', 'clang-18, opt-18 (mem2reg, sroa)'],
                          functions_under_contract=sorted(fns), contracts_used=sorted(con), external_contracts=sorted(ext),
                          harnesses=by, solver_time_s=round(st['qtime'], 2), solver_queries=st['queries'], backend='z3 (%d queries), cvc5 (%d queries z3 did not decide)' % (st['queries'] - st['cvc5'], st['cvc5']), assumed_contracts=assumed,
                          loop_invariants=loops, native_search=nat)
    if vio:
        ev['coverage']['violations_found'] = vio
    ev['coverage']['proved_harnesses'] = sorted(str(h) for h in final if not h.opts.get('bound'))
    ev['coverage']['bounded_harnesses'] = {str(h): h.opts['bound'].replace('-', ' ') for h in final if h.opts.get('bound')}
    ev['coverage']['not_proved_on_this_tree'] = sorted(str(h) for h in bounded)
    ev['coverage']['bounded_stand_ins'] = {str(h): nat.get(str(h)) for h in standins}
    if level == 'other':
        ev['coverage']['explanation'] = ('not every obligation could be discharged on this tree; the harnesses listed under '
                                         'not_proved_on_this_tree were only searched for failing inputs (bounded, not a proof)')
    ev['assumptions'] = a
    ev['wall_s'] = round(time.time() - T0, 2)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
