"""D01: the linear system at a time step (msepy and msehtt)."""
import core
import wfconf
import l01


def shares(tr, unk):
    """an essential condition on a row whose mass matrix, alone in its block, is also part of another row"""
    if not tr[0]['bc']:
        return False
    A = tr[-1]['calls'][0]['exp']['A']
    for q, row in enumerate(A):
        if not any(kind == 'tr' and x == unk[q] for _, (kind, x) in tr[0]['bc'] if q < len(unk)):
            continue
        for ts in row:
            if len(ts) == 1 and ts[0][0] == 2 and len(ts[0][1]) == 1 and ts[0][1][0][0] == 'M':
                m = ts[0][1][0]
                if any(m in ms for p, other in enumerate(A) if p != q for us in other for _, ms in us):
                    return True
    return False


def run(ck, confs=('ph2', 'ns3', 'in2', 'ph2p', 'ap3', 'wd2', 'ph2/htt', 'ns3/htt', 'ap3/htt')):
    thorough = ck.tier == 'thorough'
    cnt = {}

    def one(name):
        c = wfconf.conf(name.split('/')[0])
        htt = name.endswith('htt')
        consts = dict(Conf=l01.tla(c), MaxTerms=2, Ops={'rearr'}, MaxOps=0, MaxWf=24, TdMax=2, Rec=True)
        num = (240 if c['n'] == 3 else 30) * (3 if htt else 1)
        got = ck.generate('DynSystem', num * (5 if thorough else 1), 60, spec='DSpec', consts=consts)
        got.sort(key=lambda tr: not (htt and shares(tr, c['unk'])))
        got = got[:(400 if thorough else 60)]
        cnt[name + '/sharing'] = sum(shares(tr, c['unk']) for tr in got)
        res = ck.drive('drv_dls.py', {'seed': core.SEED, 'conf': dict(c, htt=htt), 'traces': got})
        if res.get('crash'):
            return ck.violate(name + ' driver', 'linear systems could not be implemented', res)
        reached = [t for t in res['traces'] if t['reached']]
        cnt[name + '/not reached'] = len(res['traces']) - len(reached)
        ck.validate('DynSystemTrace', reached, 'linear system at a step, ' + name, consts=dict(consts, Rec=False), workers=2,
                    keyof=lambda t, b: b['clause'])
        for t in reached:
            f = t['ev'][0]
            cnt[name] = cnt.get(name, 0) + 1
            for k in {'step' if f['td'] else 'time'} | {x[1][0] + x[0] for x in f['bcs']}:
                cnt[k] = cnt.get(k, 0) + 1
            for e in t['ev'][1:]:
                cnt['calls'] = cnt.get('calls', 0) + 1
                cnt['fixed'] = cnt.get('fixed', 0) + (e['fixed'] > 0)
        ck.sample(str(reached[0]['ev'][1])[:700])
    ck.parallel(one, confs, workers=6)
    ck.cov['systems'] = {str(k): v for k, v in sorted(cnt.items())}
    for name in confs:
        ck.require(cnt.get(name, 0) >= 8, name + ': too few systems')
    for k in ('step', 'time', 'fixed', 'tr1', 'tr2', 'trhs1', 'trhs2'):
        ck.require(cnt.get(k), 'nothing of kind ' + k)
