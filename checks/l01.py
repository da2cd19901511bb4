"""L01: the linear system of a weak formulation."""
import core
import wfconf
from core import Raw


def conf(name):
    c = wfconf.conf(name)
    return c


def tla(c):
    s = wfconf.tla_conf(c).s
    sp = ' @@ '.join('("%s" :> <<%d, "%s">>)' % (n, k, o) for n, (k, o) in c['roots'].items())
    tsp = ', '.join('("%d" :> <<%d, "%s">>)' % (j + 1, k, o) for j, (k, o) in enumerate(c['tests']))
    tsp = tsp.replace('), (', ') @@ (')
    return Raw(s[:-1] + ', sp |-> (%s), tsp |-> (%s), xs |-> <<%s>>]' % (sp, tsp, ', '.join('"%s"' % x for x in c['unk'])))


def run(ck, confs=('ph2', 'ns3', 'in2', 'ph2p', 'ap3')):
    thorough = ck.tier == 'thorough'
    cnt = {}

    def one(name):
        c = conf(name)
        consts = dict(Conf=tla(c), MaxTerms=2, Ops={'rearr'}, MaxOps=0, MaxWf=24, TdMax=2, Rec=True)
        got = ck.generate('AlgSystem', 600 if thorough else 120, 60, spec='ASpec', consts=consts)
        res = ck.drive('drv_alg.py', {'seed': core.SEED, 'conf': c, 'traces': got})
        if res.get('crash'):
            return ck.violate(name + ' driver', 'linear systems could not be assembled', res)
        reached = [t for t in res['traces'] if t['reached']]
        lost = len(res['traces']) - len(reached)
        cnt[name + '/not reached'] = lost
        if lost:
            ck.cov.setdefault('lost', []).append([t['ev'][0]['why'] for t in res['traces'] if not t['reached']][:3])
        ck.validate('AlgSystemTrace', reached, 'linear system ' + name, consts=dict(consts, Rec=False), workers=2,
                    keyof=lambda t, b: b['clause'])
        for t in reached:
            k = (name, t['res'])
            cnt[k] = cnt.get(k, 0) + 1
        ck.sample(str({k: reached[0][k] for k in ('A', 'b', 'x', 'bc')})[:700])
        for t in reached:
            for x in t['bc']:
                cnt[('bc', x[1])] = cnt.get(('bc', x[1]), 0) + 1
    ck.parallel(one, confs, workers=6)
    ck.cov['systems'] = {str(k): v for k, v in cnt.items()}
    for name in confs:
        ck.require(cnt.get((name, 'ok'), 0) >= 20, name + ': too few systems')
    for kind in ('essential', 'natural', 'manual'):
        ck.require(cnt.get(('bc', kind)), 'no %s boundary condition' % kind)
