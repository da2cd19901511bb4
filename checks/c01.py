"""C01: the cochain store."""
import random

import core
from core import Raw

TIMES = [0, 1, 2, 3, 5, 6, 8]
LONG = list(range(0, 40))


def run(ck):
    thorough = ck.tier == 'thorough'
    base = dict(Times={1, 2, 4, 5} if thorough else {1, 2, 4}, Vals={1, 2}, Autos={0, 1, 2}, MaxOps=1, Rec=False,
                Features={'cleanT', 'cleanAll', 'interp', 'lock'})
    ck.design('Cochain', 'store map and setting, histories of unbounded length', consts=base,
              invariants=['TypeOK'], properties=['NoDisturb'], workers=4)
    ck.design('Cochain', 'every generated step is admitted by the conformance predicate',
              consts=dict(base, Rec=True, Times={1, 2}, Autos={0, 2}, MaxOps=4 if thorough else 3), invariants=['TypeOK'],
              properties=['NoDisturb', 'SetConforms'], workers=4)
    rnd = random.Random(core.SEED)
    seen = set()
    for backend, allf in (('msepy', {'interp'}), ('msehtt', {'cleanT', 'cleanAll', 'interp'})):
        trs = []
        num = 600 if thorough else 150
        depth = 24 if thorough else 18
        for a, nn, times, depth, feats in (({0}, num, TIMES, depth, allf), ({0, 1, 2, 3}, num, TIMES, depth, allf),
                                           ({2, 3}, num, TIMES, depth, allf),
                                           ({1, 2, 10}, num // 25, LONG, 50, {'setonly'})):
            consts = dict(Times=set(times), Vals=set(range(1, 10)), Autos=a, MaxOps=depth, Rec=True, Features=feats)
            got = ck.generate('Cochain', nn, depth, consts=consts,
                              properties=['SetConforms'] if False else [])
            for g in got[:nn]:
                trs.append({'auto': 0, 'ops': g, 'times': times})
        rnd.shuffle(trs)
        n = 2
        res = ck.drive('drv_cochain.py', {'backend': backend, 'n': n, 'degree': 2, 'seed': core.SEED,
                                          'ks': [[0, 'inner'], [1, 'outer'], [1, 'inner'], [2, 'outer']],
                                          'traces': trs})
        if res.get('crash'):
            ck.violate('%s: driver' % backend, 'the %s store could not be exercised' % backend, res)
            continue
        ck.validate('CochainTrace', res['traces'], '%s cochain store' % backend,
                    consts=dict(Times=set(LONG), Vals={1}, Autos={0}, MaxOps=0, Rec=False, Features=allf),
                    keyof=lambda t, b: '%s: %s' % (backend, b['clause']))
        for t in res['traces']:
            for e in t['ev']:
                seen.add((backend, e['op'], e['res'], e.get('via')))
        ck.sample(str(res['traces'][0]['ev'][:4]))
    ck.cov['events_exercised'] = sorted(map(str, seen))
    for backend in ('msepy', 'msehtt'):
        for op in ('set', 'cleanNewest', 'cleanN', 'interp', 'auto'):
            ck.require(any(s[0] == backend and s[1] == op and s[2] == 'ok' for s in seen) or ck.violations,
                       '%s %s never succeeded' % (backend, op))
