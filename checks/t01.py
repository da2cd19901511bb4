"""T01: abstract time sequences, instants and intervals."""
import core

KEYS = core.Raw('{[a |-> a, p |-> p, q |-> q] : a \\in {0, 1, 2}, p \\in {0, 1, -1, 2}, q \\in {1, 2, 3}} \\cup '
                '{[a |-> 1, p |-> p, q |-> q] : p \\in {-3, 1, 3, 7}, q \\in {4, 5, 10}} \\cup {[a |-> -1, p |-> 5, q |-> 1]}')
KV = core.Raw('{<<p, 1>> : p \\in -1..6} \\cup {<<1, 2>>, <<5, 2>>, <<1, 3>>, <<7, 3>>, <<9, 2>>, <<333, 1000>>, <<1334, 1000>>, <<501, 1000>>, <<1201, 500>>}')
SPECS = core.Raw(
    '{[kind |-> "constant", t0 |-> t0, tm |-> t0 + len, n |-> nf[1], factor |-> nf[2], steps |-> <<1>>, si |-> <<1, 1>>] : '
    't0 \\in {0, 1, -2}, len \\in {1, 5}, nf \\in {<<3, 1>>, <<8, 2>>, <<6, 3>>, <<10, 10>>, <<15, 5>>, <<12, 4>>}} \\cup '
    '{[kind |-> "function", t0 |-> t0, tm |-> 0, n |-> 0, factor |-> 1, steps |-> st, si |-> si] : '
    't0 \\in {0, 3}, st \\in {<<1, 2>>, <<2, 1, 3>>}, si \\in {<<1, 1>>, <<1, 2>>}}')
SMALL = core.Raw(
    '{[kind |-> "constant", t0 |-> 1, tm |-> 2, n |-> 4, factor |-> 2, steps |-> <<1>>, si |-> <<1, 1>>], '
    '[kind |-> "function", t0 |-> 0, tm |-> 0, n |-> 0, factor |-> 1, steps |-> <<1, 2>>, si |-> <<1, 2>>]}')
SKEYS = core.Raw('{[a |-> 1, p |-> 0, q |-> 1], [a |-> 1, p |-> -1, q |-> 2], [a |-> 0, p |-> 1, q |-> 1]}')
SKV = core.Raw('{<<0, 1>>, <<1, 1>>, <<1, 2>>, <<3, 1>>}')


def run(ck):
    thorough = ck.tier == 'thorough'
    ck.design('TimeSeq', 'two sequences, two instants, one interval', workers=6,
              consts=dict(NSeq=2, Specs=SMALL, Keys=SKEYS, KVals=SKV, MaxOps=0, Rec=False),
              invariants=['Increasing', 'Monotone'], properties=['Stable', 'SpecifiedOnce'], constraints=['Small'])
    got = ck.generate('TimeSeq', 3000 if thorough else 500, 60,
                      consts=dict(NSeq=2, Specs=SPECS, Keys=KEYS, KVals=KV, MaxOps=60, Rec=True))
    res = ck.drive('drv_time.py', {'seed': core.SEED, 'nseq': 2, 'traces': got})
    if res.get('crash'):
        return ck.violate('driver', 'time sequences could not be exercised', res)
    cnt = {}
    for t in res['traces']:
        for e in t['ev']:
            k = (e['op'], 'refused' if e['obs'] == ['error'] else 'ok')
            cnt[k] = cnt.get(k, 0) + 1
    ck.validate('TimeSeqTrace', res['traces'], 'time requests', workers=4,
                consts=dict(NSeq=2, Specs=SMALL, Keys=SKEYS, KVals=SKV, MaxOps=0, Rec=False),
                keyof=lambda t, b: '%s: %s' % (t['ev'][b['step'] - 1]['op'], b['clause']))
    ck.cov['requests'] = {'%s/%s' % k: v for k, v in cnt.items()}
    ck.sample(str(res['traces'][0]['ev'][:6]))
    for k in ('specify', 'instant', 'interval', 'eval', 'evali'):
        ck.require(cnt.get((k, 'ok')), k + ' never succeeded')
    for k in ('specify', 'eval', 'evali', 'interval'):
        ck.require(cnt.get((k, 'refused')), k + ' never refused')
