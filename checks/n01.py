"""N01: natural boundary terms of hybrid meshes close the integration by parts."""
import core


def run(ck):
    thorough = ck.tier == 'thorough'
    cnt = {}

    def one(job):
        dim, routes, num, np = job
        name = '%d-d %s%s' % (dim, '/'.join(sorted(routes)), '' if np == 1 else ' np=%d' % np)
        consts = dict(Dim=dim, Routes=routes, Cols=0, MaxSec=4, Rec=False)
        if np == 1:
            ck.design('NatInt', 'integration by parts, ' + name, spec='NSpec', invariants=['Closed'], consts=consts,
                      simulate=120 * (5 if thorough else 1), depth=8)
        got = ck.generate('NatInt', num * (6 if thorough else 1), 6, spec='NSpec', consts=dict(consts, Rec=True))
        got = [t for t in got if len(t[0]['cells']) >= np]     # a process needs a cell
        tests = {0: dim + 1, dim - 1: 2 * dim}
        if dim == 3:
            tests[1] = 9
        res = ck.drive('drv_nat.py', {'seed': core.SEED, 'dim': dim, 'tests': [tests[i] for i in range(dim)], 'traces': got}, np=np, timeout=200)
        if res.get('crash'):
            return ck.violate(name + ' driver', 'natural boundary terms could not be made', res)
        ck.validate('NatIntTrace', res['traces'], 'natural boundary terms, ' + name, consts=consts, workers=2,
                    keyof=lambda t, b: '%s k=%d %s' % (b['clause'], t['ev'][0]['k'], t['ev'][0]['o']))
        for t in res['traces']:
            c = t['ev'][0]
            cnt[name] = cnt.get(name, 0) + 1
            for k in ['kind %d %d %s' % (dim, c['k'], c['o'])]:
                cnt[k] = cnt.get(k, 0) + sum(any(any(r) for r in e.get('vals', [])) for e in t['ev'][1:])
        ck.sample(str(res['traces'][0]['ev'][:2])[:700])
    jobs = [(2, {'box'}, 25, 1), (2, {'cells'}, 50, 1), (3, {'box'}, 25, 1), (2, {'box', 'cells'}, 25, 2), (3, {'box'}, 12, 3)]
    ck.parallel(one, jobs, workers=5)
    ck.cov['terms'] = {str(k): v for k, v in sorted(cnt.items())}
    for k in ('kind 2 0 inner', 'kind 2 0 outer', 'kind 2 1 inner', 'kind 2 1 outer', 'kind 3 0 inner', 'kind 3 1 inner', 'kind 3 2 inner'):
        ck.require(cnt.get(k, 0) >= 12, k + ': too few terms')
