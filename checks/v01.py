"""V01: the vector calculus of fields."""
import core


def run(ck):
    thorough = ck.tier == 'thorough'
    cnt = {}

    def one(job):
        dim, num, depth = job
        consts = dict(Dim=dim, Max=depth, Rec=False, Fits={('msepy', 2), ('msepy', 3), ('msehtt', 2), ('msehtt', 3)})
        ck.design('VecCalc', 'calculus of polynomial fields, %d-d' % dim, spec='VSpec', invariants=['Complex', 'Adjoint', 'Rules'], consts=consts,
                  simulate=60 * (6 if thorough else 1), depth=depth + 1)
        got = ck.generate('VecCalc', num * (8 if thorough else 1), depth + 2, spec='VSpec', consts=dict(consts, Rec=True))
        res = ck.drive('drv_vc.py', {'seed': core.SEED, 'dim': dim, 'traces': got}, timeout=300)
        if res.get('crash'):
            return ck.violate('%d-d driver' % dim, 'fields could not be made', res)
        ck.validate('VecCalcTrace', res['traces'], 'fields and their calculus, %d-d' % dim, consts=consts, workers=2,
                    keyof=lambda t, b: '%d-d %s %s' % (dim, b['clause'], what(t['ev'], b['step'])))
        for t in res['traces']:
            for e in t['ev']:
                k = e['op'] + ' ' + (e.get('f') or e.get('how') or (e['op'] == 'form' and ' '.join(map(str, e['x']))) or '')
                cnt['%d-d %s' % (dim, k)] = cnt.get('%d-d %s' % (dim, k), 0) + 1
        ck.sample(str(res['traces'][0]['ev'][:4])[:700])

    def what(ev, step):
        e = ev[step - 1]
        made = [x for x in ev if x['op'] != 'at']
        if e['op'] == 'at':
            if e['how'] != 'val':
                return e['how']
            e = made[e['a'] - 1]
        return ' '.join(str(_) for _ in (e['op'], e.get('f') or e.get('x') or ''))
    ck.parallel(one, [(1, 20, 12), (2, 300, 24), (3, 250, 24)], workers=3)
    ck.cov['operations'] = {k: v for k, v in sorted(cnt.items())}
    for k in ('1-d un derivative', '2-d un Laplacian', '2-d bin conv', '2-d bin outer', '2-d at int', '3-d bin cross', '3-d bin conv', '3-d un curl'):
        ck.require(cnt.get(k, 0) >= 3, k + ': too few operations')
