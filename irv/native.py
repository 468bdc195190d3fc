"""Native side: the same contract files, compiled with the real sources under ASan/UBSan, to replay the model of a
failed obligation or to search for a failing input.  Never used to conclude that a property holds."""
import os, re, subprocess, glob, time, shutil, signal
from build import REPO, VERIF, BuildError, sources, run, DEFS, extract
from concurrent.futures import ThreadPoolExecutor

SAN = ['-g', '-O0', '-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize=alignment,function',
       '-fno-sanitize-recover=undefined', '-w']
ENV = dict(ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=0')


def lib(ndir):
    """objects of the library, allocation calls renamed so that the harness can count live blocks"""
    os.makedirs(ndir, exist_ok=True)

    def one(s):
        o = os.path.join(ndir, os.path.basename(s)[:-2] + '.o')
        run(['clang-18'] + DEFS + SAN + ['-c', s, '-o', o])
        run(['objcopy', '--redefine-sym', 'malloc=vpw_malloc', '--redefine-sym', 'calloc=vpw_calloc',
             '--redefine-sym', 'free=vpw_free', '--redefine-sym', 'realloc=vpw_realloc', o])
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, sources()))


def nm(o, flags):
    return subprocess.run(['nm'] + flags + [o], stdout=subprocess.PIPE).stdout.decode()


def unit_objs(ndir, unit, libobjs):
    uo = os.path.join(ndir, 'unit_%s.o' % unit)
    run(['clang-18', '-std=gnu11'] + DEFS[1:] + SAN + extract(ndir, unit) + ['-DVP_NATIVE', '-c', '%s/units/%s.c' % (VERIF, unit), '-o', uo])
    und = set(l.split()[-1] for l in nm(uo, ['-u']).splitlines() if l.strip())
    d = os.path.join(ndir, 'lib_' + unit)
    os.makedirs(d, exist_ok=True)
    out = []
    for o in libobjs:
        loc = set()
        for l in nm(o, []).splitlines():
            w = l.split()
            if len(w) == 3 and w[1] in 'tdbrs' and w[2] in und:
                loc.add(w[2])
        if loc:
            o2 = os.path.join(d, os.path.basename(o))
            cmd = ['objcopy']
            for x in loc:
                cmd += ['--globalize-symbol', x]
            run(cmd + [o, o2])
            o = o2
        out.append(o)
    return uo, out


def link(ndir, unit, harness, uo, objs):
    exe = os.path.join(ndir, '%s_%s' % (unit, harness))
    n = os.path.join(ndir, 'vpn_%s_%s.o' % (unit, harness))
    run(['clang-18', '-std=gnu11'] + DEFS[1:] + SAN + ['-DHARNESS=%s' % harness, '-c', VERIF + '/native/vp_native.c', '-o', n])
    run(['clang-18', '-g', '-fsanitize=address,undefined,fuzzer', n, uo] + objs +
        ['-Wl,--unresolved-symbols=ignore-all', '-lm', '-o', exe])
    return exe


def env(extra=None):
    e = dict(os.environ)
    e.update(ENV)
    e.update(extra or {})
    return e


def describe(out):
    for l in out.splitlines():
        if l.startswith('VP-FAIL'):
            return l[8:].strip()
    for pat in (r'runtime error: .*', r'SUMMARY: .*', r'ERROR: .*', r'Assertion.*', r'.*ALARM: working on.*'):
        m = re.search(pat, out)
        if m:
            return m.group(0)
    return 'abnormal end'


def replay(exe, inputs, cwd, timeout=20):
    """run the harness on recorded inputs; (failed, output)"""
    tape = os.path.join(cwd, 'tape.txt')
    with open(tape, 'w') as f:
        for k, v in inputs:
            f.write('%s %s\n' % (k, v if v != '' else '-'))
    try:
        p = subprocess.run([exe, '-runs=0'], env=env(dict(VP_TAPE=tape, VP_LOG='1')), cwd=cwd, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as e:
        return True, 'VP-FAIL does not terminate on this input\n' + (e.stdout or b'').decode(errors='replace')[-3000:]
    o = p.stdout.decode(errors='replace')
    bad = p.returncode not in (0, 77)
    return bad, o


def search(exe, cwd, seconds, seed, jobs):
    """fuzz; (artifact, output) of the first failing input or None"""
    procs = []
    for j in range(jobs):
        d = os.path.join(cwd, 'f%d' % j)
        os.makedirs(d + '/corpus', exist_ok=True)
        log = open(d + '/log', 'wb')
        procs.append((d, subprocess.Popen(
            [exe, 'corpus', '-max_total_time=%d' % seconds, '-timeout=10', '-seed=%d' % (seed + 1000 * j + 1), '-max_len=%d' % (256 if j % 2 else 96),
             '-len_control=0', '-rss_limit_mb=3000', '-use_value_profile=%d' % (j % 2), '-artifact_prefix=' + d + '/', '-print_final_stats=1', '-detect_leaks=0'],
            cwd=d, env=env(), stdout=log, stderr=log, stdin=subprocess.DEVNULL, preexec_fn=os.setsid)))
    end = time.time() + seconds + 30
    hit = None
    execs = 0
    while procs and time.time() < end and not hit:
        time.sleep(0.2)
        for d, p in list(procs):
            if p.poll() is not None:
                procs.remove((d, p))
                for a in glob.glob(d + '/crash-*') + glob.glob(d + '/timeout-*'):
                    try:
                        q = subprocess.run([exe, '-timeout=10', a], env=env(dict(VP_LOG='1')), cwd=d, timeout=40, stdin=subprocess.DEVNULL,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    except subprocess.TimeoutExpired:
                        continue
                    if q.returncode:
                        hit = (a, q.stdout.decode(errors='replace'))
                        break
    for d, p in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    for j in range(jobs):
        try:
            m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', open(os.path.join(cwd, 'f%d' % j, 'log'), errors='replace').read())
            if m:
                execs += int(m[-1])
        except OSError:
            pass
    return hit, execs
