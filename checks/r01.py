"""R01: interrupted and resumed iterations."""
import core
from core import Raw

PLANS = Raw('{<<<<1,2,3>>>>, <<<<2,1,2>>>>, <<<<1,2>>,<<3,4>>>>, <<<<1,2>>,<<1,2,3>>>>}')
DEEP = Raw('{<<<<1,2,3,4,2>>>>, <<<<2,2,2>>,<<2,2,2,3>>>>, <<<<1,2,3>>,<<4,5>>,<<6>>>>, <<<<3,1,2>>,<<3,1,2,4>>,<<5>>>>}')


def histories(got):
    keep, seen = [], set()
    for h in got:
        if h['pol'] == 'nocache':
            h['lives'] = h['lives'][:1]
        full = [i for i, x in enumerate(h['lives']) if x['phase'] == 'none' and x['cut'] == sum(map(len, h['plan']))]
        h['lives'] = h['lives'][:(full[1:2] or full or [99])[0] + 1]
        keep.append(h)
    out = []
    for h in keep:
        k = str((h['plan'], h['stop'], h['pol'], h['style'], h['lives']))
        if k in seen:
            continue
        seen.add(k)
        if any(g is not h and g['plan'] == h['plan'] and (g['stop'], g['pol'], g['style']) == (h['stop'], h['pol'], h['style'])
               and g['lives'][:len(h['lives'])] == h['lives'] and len(g['lives']) > len(h['lives']) for g in keep):
            continue
        h['pbar'] = len(out) % 2
        h['num'] = len(out) % 3 == 0
        out.append(h)
    return out


def run(ck):
    thorough = ck.tier == 'thorough'
    base = dict(Toks={0, 1, 2, 3, 4}, MaxLen=7, MaxLives=4 if thorough else 3, Pols={'each', 'some', 'never', 'nocache'},
                Styles={'int'}, Phases={'solve', 'encode', 'dump', 'write'}, FixedPlans=PLANS, Rec=False)
    ck.design('Iterator', 'deaths anywhere, also while the cache file is written', consts=dict(base, FixedPlans=DEEP if thorough else PLANS),
              invariants=['SameResults', 'SameState', 'DiskGood'], properties=['NeverLost'], workers=4)
    seen = {}

    def one(job):
        np, n, pols, styles, phases = job
        got = ck.generate('Iterator', n * (6 if thorough else 1), 120,
                          consts=dict(base, Rec=True, MaxLives=7 if styles == {'int', 'neg'} else 4, Styles=styles, Pols=pols, Phases=phases))
        hs = histories(got)
        res = ck.drive('drv_iter.py', {'histories': hs}, np=np, timeout=850)
        if res.get('crash'):
            return ck.violate('driver np=%d' % np, 'the iterator could not be exercised', res)
        ck.validate('IteratorTrace', res['traces'], 'iterations on %d process(es)' % np, consts=dict(base, Rec=False),
                    keyof=lambda t, b: '%s/%s: %s' % (t['pol'], t['style'], b['clause']))
        for h, t in zip(hs, res['traces']):
            for e in t['ev']:
                k = (np, e['op'], e.get('phase'))
                seen[k] = seen.get(k, 0) + 1
            k = (np, h['pol'], h['style'])
            seen[k] = seen.get(k, 0) + 1
        ck.sample(str(res['traces'][0])[:500])

    four = {'solve', 'encode', 'dump', 'write'}
    jobs = [(1, 45, {'each'}, {'int', 'neg'}, {'solve', 'dump'}),
            (1, 30, {'each'}, {'int', 'neg', 'float', 'tiny', 'half', 'np'}, four),
            (1, 22, {'each'}, {'form'}, four),
            (1, 22, {'some', 'never'}, {'int', 'tiny', 'form'}, {'solve', 'encode'}),
            (1, 6, {'nocache'}, {'int', 'float'}, {'solve'}),
            (2, 8, {'each', 'never'}, {'int', 'float', 'form'}, {'solve', 'encode'})]
    ck.parallel(one, jobs, workers=6)
    ck.cov['exercised'] = {str(k): v for k, v in seen.items()}
    for phase in sorted(four):
        ck.require(seen.get((1, 'crash', phase), 0) >= 5 or ck.violations, 'too few deaths in ' + phase)
    ck.require(seen.get((2, 'runend', None), 0) >= 5 or ck.violations, 'no parallel runs')
