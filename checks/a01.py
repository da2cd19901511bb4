"""A01: local matrices and vectors, their assembling and their customizations."""
import core
from core import Raw


def consts(rec, ops=0, objs=9, bigs='{}', nums=2, wide=False):
    if rec:
        return dict(MaxE=3, MaxL=3, NumG=nums, Vals=Raw('-2..2'), MaxObjs=objs, MaxOps=ops, Rec=True, GmSets=set(), Bigs=Raw(bigs))
    return dict(MaxE=2, MaxL=2, NumG=1, Vals={0, 2}, MaxObjs=objs, MaxOps=0, Rec=False, Bigs=set(),
                GmSets=Raw('{<<<<<<0, 1>>>>>>, <<<<<<0>>, <<1>>>>>>, <<<<<<0, 0>>>>>>%s}' % (', <<<<<<0, 1>>, <<1, 0>>>>>>' if wide else '')))


def run(ck):
    thorough = ck.tier == 'thorough'
    ck.design('LocalSystem', 'every small history over two gathering matrices', workers=6, consts=consts(False, objs=2, wide=thorough),
              invariants=['Sound'], properties=['OnlyThat'])
    num = 1200 if thorough else 280
    bigs = '{<<3, 60000>>, <<2, 40>>}'
    got = ck.generate('LocalSystem', num, 34, consts=consts(True, 30, 11, bigs, 2))
    got += ck.generate('LocalSystem', num // 3, 24, consts=consts(True, 20, 9, bigs, 1))
    parts = 4
    chunks = [got[i::parts] for i in range(parts)]
    recs = ck.parallel(lambda c: ck.drive('drv_local.py', {'seed': core.SEED, 'traces': c}, timeout=800), chunks)
    cnt = {}
    good = []
    for res in recs:
        if res.get('crash'):
            ck.violate('driver', 'local matrices and vectors could not be exercised', res)
            continue
        good.append(res['traces'])
        for t in res['traces']:
            for e in t['ev']:
                k = (e['op'] + (':' + e['kind'] if 'kind' in e else ''), e['res'])
                cnt[k] = cnt.get(k, 0) + 1
    ck.parallel(lambda ts: ck.validate('LocalSystemTrace', ts, 'msepy local algebra', timeout=850,
                                       consts=dict(MaxE=0, MaxL=0, NumG=0, Vals=set(), MaxObjs=0, MaxOps=0, Rec=True, GmSets=set(), Bigs=set()),
                                       keyof=lambda t, b: b['clause']), good)
    ck.cov['events'] = {'%s/%s' % k: v for k, v in sorted(cnt.items())}
    for op in ('mul', 'bmat', 'ls', 'iddiag', 'setv', 'vsets', 'lsdof', 'lslocal', 'update', 'find', 'read'):
        ck.require(cnt.get((op, 'ok')) or ck.violations, '%s was never exercised' % op)
