"""verify one harness: worker.py IRDIR UNIT HARNESS INLINE BUDGET OUT.json"""
import sys, os, time, json, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, plan


def run(irdir, unit, name, inline, budget, scale=1.0, verbose=0, extra=None):
    import engine
    hs, contracts = plan.load()
    h = hs[(unit, name)]
    o = plan.options(h, contracts, inline)
    o['verbose'] = verbose
    o.update(extra or {})
    o['timeout'] = int(o.get('timeout', 10000) * scale)
    o['feas_timeout'] = int(o.get('feas_timeout', 3000) * scale)
    mods = [ir.Module(os.path.join(irdir, f), f) for f in sorted(os.listdir(irdir))
            if f.endswith('.ll') and not f.startswith('unit_')]
    mods.append(ir.Module(os.path.join(irdir, 'unit_%s.ll' % unit), 'H'))
    res = dict(unit=unit, harness=name, inline=inline, status='proved', obligations=[], loops={}, functions=[],
               contracts=[], externals=[], stats={}, note='')
    t = time.time()
    en = engine.Engine(mods, 'H', o)
    hf = en.find_func('@' + name, en.hmod())
    try:
        missing = [f for f in h.proves if en.find_func('@' + f, en.hmod()) is None]
        if missing:
            res['status'] = 'absent'
            res['note'] = 'no function %s in this tree' % ', '.join(missing)
        elif not inline and [f for f in h.use if en.find_func('@' + f, en.hmod()) is None and f not in ('strftime', 'vsnprintf')]:
            res['status'] = 'absent'
            res['note'] = 'a function with a contract does not exist in this tree'
        else:
            en.verify(name, budget)
    except engine.Budget as e:
        res['status'] = 'budget'
        res['note'] = str(e)
    except ir.Unsupported as e:
        res['status'] = 'unsupported'
        res['note'] = str(e)
    except (RecursionError, KeyError, AttributeError, IndexError, AssertionError, TypeError, ValueError) as e:
        import traceback
        res['status'] = 'unsupported'
        res['note'] = 'verifier error: %r\n%s' % (e, traceback.format_exc()[-1500:])
    except Exception as e:
        if 'z3' not in type(e).__module__:
            raise
        res['status'] = 'unsupported'
        res['note'] = 'solver error: %s' % e
    for x in en.obls.values():
        res['obligations'].append(dict(kind=x.kind, name=x.name, loc=x.loc, checks=x.checks, status=x.status,
                                       time=round(x.time, 3), inputs=x.inputs))
    bad = [x for x in en.obls.values() if x.status != 'proved']
    if res['status'] == 'proved':
        if any(x.status == 'failed' for x in bad):
            res['status'] = 'failed'
        elif bad:
            res['status'] = 'unknown'
    elif any(x.status == 'failed' for x in bad):
        res['note'] = res['status'] + ': ' + res['note']
        res['status'] = 'failed'
    res['covers'] = sorted(en.covers)
    src = open(os.path.join(plan.VERIF, 'units', unit + '.c')).read()
    res['loops'] = en.loopinfo
    res['functions'] = sorted(en.functions_seen)
    res['contracts'] = sorted(en.contracts_used)
    res['externals'] = sorted(en.externals_used)
    res['stats'] = en.stats
    res['wall'] = time.time() - t
    # vacuity: the end of the harness and every cover point must have been reached
    if res['status'] == 'proved':
        want = set(en.cover_names(hf))
        if not want <= set(en.covers):
            res['status'] = 'vacuous'
            res['note'] = 'unreachable cover points: %s' % sorted(want - set(en.covers))
        if not any(x.kind == 'property' for x in en.obls.values()):
            res['status'] = 'vacuous'
            res['note'] = 'no property obligation was generated'
    return res, en


if __name__ == '__main__':
    irdir, unit, name, inline, budget, out, scale = sys.argv[1:8]
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        r, _ = run(irdir, unit, name, inline == '1', float(budget), float(scale))
    except MemoryError:
        r = dict(unit=unit, harness=name, inline=inline == '1', status='budget', note='memory', obligations=[], loops={},
                 functions=[], contracts=[], externals=[], stats={}, covers=[], wall=0)
    with open(out, 'w') as f:
        json.dump(r, f, default=str)
