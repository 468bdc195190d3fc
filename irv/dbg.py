"""developer tool: python3-vt irv/dbg.py unit harness [-v...] [inline=1] [budget=N] [engine options k=v]"""
import sys, os, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, worker


def main():
    unit, h = sys.argv[1:3]
    v = sum(1 for a in sys.argv if a == '-v')
    o = {}
    for a in sys.argv[3:]:
        if '=' in a:
            k, x = a.split('=')
            o[k] = eval(x)
    bdir = '/tmp/irvdbg/%d' % os.getpid()
    try:
        build.ir_all(bdir)
        build.unit_ir(bdir, unit)
        r, en = worker.run(bdir, unit, h, bool(o.pop('inline', 0)), o.pop('budget', 600), 1.0, v, o)
    finally:
        shutil.rmtree(bdir)
    ob = r['obligations']
    bad = [x for x in ob if x['status'] != 'proved']
    if v > 1:
        for x in sorted(ob, key=lambda x: -x['time'])[:8]:
            print('   %.1fs %s %s %s x%d' % (x['time'], x['kind'], x['name'], x['loc'], x['checks']))
        for k, n in r['loops'].items():
            print('   loop', k, n)
    print('obligations', len(ob), 'checks', sum(x['checks'] for x in ob), 'bad', len(bad), 'covers', r['covers'])
    for x in bad:
        print('  ', x['status'], x['kind'], x['name'], x['loc'], x['inputs'])
    print('fns', r['functions'], 'contracts', r['contracts'], 'ext', r['externals'])
    print(r['stats'])
    print('STATUS', r['status'], r['note'], 'wall %.1f' % r['wall'])


main()
