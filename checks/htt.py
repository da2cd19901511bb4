"""Shared by the checks of static msehtt meshes (H01, H02, H03, H04, H07)."""
import core

KINDS = {'quad', 'rect', 't0', 't1', 'no'}


def consts(rec, ops=0, what=(), least=1):
    if rec:
        return dict(MaxOps=ops, Rec=True, Sizes=core.Raw('1..3' if least < 3 else '2..3'), MaxTs=2, Degrees=core.Raw('1..3'), Kinds=KINDS, Ops=set(what), MinElems=least)
    return dict(MaxOps=0, Rec=False, Sizes=core.Raw('1..2'), MaxTs=2, Degrees=core.Raw('1..3'), Kinds=KINDS, Ops=set(), MinElems=1)


def run(ck, judge, what, num, ops, invariants, parts=6, np=1):
    thorough = ck.tier == 'thorough'
    if thorough:
        num *= 5
    if invariants:
        ck.design('HttMesh', 'every mesh on grids up to 2 x 2', spec='DSpec', workers=6, consts=consts(False), invariants=invariants)
    got = ck.generate('HttMesh', num, ops + 8, consts=consts(True, ops, what, np))
    chunks = [got[i::parts] for i in range(parts)]
    recs = ck.parallel(lambda c: ck.drive('drv_htt.py', {'seed': core.SEED, 'traces': c}, timeout=800 if np == 1 else 240, np=np), chunks)
    cnt, kinds, good = {}, {}, []
    for res in recs:
        if res.get('crash'):
            ck.violate('driver', 'msehtt meshes could not be exercised', res)
            continue
        good.append(res['traces'])
        for t in res['traces']:
            for e in t['ev']:
                ok = 'ok' if e['obs']['ok'] else 'refused'
                if e['op'] == 'config':
                    ty = '+'.join(sorted({x['type'] for x in e['mesh']['elems']}))
                    k = 'config %s%s%s ts%d %s' % (e['route'], ' saved' if e['saved'] else '', ' trf%d' % len(e['trf']['th']) if e['trf']['th'] else '', e['ts'], ok)
                    kinds[ty] = kinds.get(ty, 0) + 1
                else:
                    k = '%s %s %s' % (e['op'], e['kind'] if 'kind' in e else '%d-form %s' % (e['k'], e['o']), ok)
                cnt[k] = cnt.get(k, 0) + 1
    ck.cov['requests'] = dict(sorted(cnt.items()))
    ck.cov['meshes of'] = dict(sorted(kinds.items()))
    c = dict(consts(False), Judge=set(judge))
    ck.parallel(lambda ts: ck.validate('HttMeshTrace', ts, 'msehtt mesh', consts=c,
                                       keyof=lambda t, b: '%s: %s' % (t['ev'][b['step'] - 1]['op'], b['clause'])), good)
    for k in ('quad+tri', 'tri'):
        ck.require(any(x.endswith(k) for x in kinds) or 'mass' in judge or ck.violations, 'no mesh of %s was made' % k)
    ck.sample(str([{k: e[k] for k in e if k not in ('obs', 'mesh')} for e in got[0][:4]]))
    return cnt
