"""Q01: forms stand exactly for the polynomial fields of their spaces."""
import core


def run(ck):
    thorough = ck.tier == 'thorough'
    cnt = {}

    def one(job):
        lib, dim, routes, degs, num, depth, np = job
        name = '%s %d-d %s%s' % (lib, dim, '/'.join(sorted(routes)), '' if np == 1 else ' np=%d' % np)
        consts = dict(Dim=dim, Max=depth, Rec=False, Fits={('none', 0)}, Lib=lib, Routes=routes, Degs=degs)
        if np == 1:
            ck.design('FormCalc', 'fields of forms, ' + name, spec='FSpec', invariants=['Spaces', 'Psd'], consts=consts,
                      simulate=40 * (6 if thorough else 1), depth=depth + 1)
        got = ck.generate('FormCalc', num * (8 if thorough else 1), depth + 2, spec='FSpec', consts=dict(consts, Rec=True))

        def cells(c):
            m = 2 if c['route'] == 'tris' else 1
            for s in c['cuts']:
                m *= len(s) - 1
            return m
        got = [t for t in got if cells(t[0]) >= np]
        res = ck.drive('drv_poly.py', {'seed': core.SEED, 'dim': dim, 'lib': lib, 'traces': got}, np=np, timeout=400)
        if res.get('crash'):
            return ck.violate(name + ' driver', 'forms could not be made', res)
        ck.validate('FormCalcTrace', res['traces'], 'fields of forms, ' + name, consts=consts, workers=2,
                    keyof=lambda t, b: '%s %d-d %s %s k=%d %s' % (lib, dim, b['clause'], t['ev'][b['step'] - 1]['op'], t['ev'][0]['k'], t['ev'][0]['o']))
        for t in res['traces']:
            for e in t['ev']:
                k = '%s %d-d %s' % (lib, dim, e['op'])
                cnt[k] = cnt.get(k, 0) + 1
        ck.sample(str(res['traces'][0]['ev'][:4])[:700])
    jobs = [('msepy', 2, {'box'}, {1, 2}, 60, 24, 1), ('msepy', 3, {'box'}, {1, 2}, 60, 22, 1), ('msehtt', 2, {'box', 'cells'}, {1, 2}, 80, 24, 1),
            ('msehtt', 3, {'box'}, {1, 2}, 60, 22, 1), ('msehtt', 2, {'box', 'cells', 'tris'}, {1, 2}, 40, 20, 2),
            ('msehtt', 2, {'tris'}, {1, 2}, 40, 24, 1)]
    jobs += [(lib, dim, {'curved'}, {1, 2}, 50 if dim == 2 else 80, 16, 1) for lib in ('msepy', 'msehtt') for dim in (2, 3)]
    ck.parallel(one, jobs, workers=7)
    ck.cov['operations'] = {k: v for k, v in sorted(cnt.items())}
    for lib in ('msepy', 'msehtt'):
        for dim in (2, 3):
            for op in ('reduce', 'rec', 'norm', 'error', 'diff'):
                ck.require(cnt.get('%s %d-d %s' % (lib, dim, op), 0) >= 6, '%s %d-d %s: too few' % (lib, dim, op))
