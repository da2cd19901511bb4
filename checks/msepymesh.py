"""Shared configurations of the msepy mesh checks (M01, G01, I01)."""
import core

LAYS = '{<<1>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<1, 1, 1>>, <<1, 2, 1>>, <<2, 1, 1>>}'
SHORT = '{<<1>>, <<1, 1>>, <<1, 2>>, <<2, 1>>}'
DEGS = ('[n \\in 1..3 |-> IF n = 1 THEN {<<1>>, <<2>>, <<3>>} '
        'ELSE IF n = 2 THEN {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<3, 1>>, <<2, 3>>} '
        'ELSE {<<1, 1, 1>>, <<2, 2, 2>>, <<1, 2, 3>>, <<2, 1, 1>>, <<1, 1, 2>>, <<2, 3, 1>>, <<1, 3, 2>>, <<3, 3, 3>>}]')


def doms():
    def lay(n, rows, ls):
        return '[1..%d -> [1..%d -> %s]]' % (n, rows, ls)
    f = []
    for n, ls in ((1, LAYS), (2, LAYS), (3, LAYS), (3, SHORT)):
        f.append('{[kind |-> "box", n |-> %d, ns |-> [a \\in 1..%d |-> 1], per |-> pr, bend |-> b, lay |-> l] : '
                 'pr \\in BOOLEAN, b \\in {0, 10}, l \\in %s}' % (n, n, lay(n, 1, ls)))
    for n, ls in ((1, LAYS), (2, SHORT), (3, '{<<1>>, <<2, 1>>}')):
        f.append('{[kind |-> "multi", n |-> %d, ns |-> ns, per |-> pr, bend |-> b, lay |-> l] : '
                 'pr \\in BOOLEAN, b \\in {0, 10}, ns \\in [1..%d -> %s], l \\in %s}'
                 % (n, n, '1..3' if n < 3 else '1..2', lay(n, 3 if n < 3 else 2, ls)))
    f.append('{[kind |-> "step", n |-> 2, ns |-> <<2, 2>>, per |-> FALSE, bend |-> 0, lay |-> l] : l \\in %s}' % lay(2, 2, LAYS))
    f.append('{[kind |-> "step", n |-> 3, ns |-> <<2, 2, 1>>, per |-> pr, bend |-> 0, lay |-> l] : pr \\in BOOLEAN, l \\in %s}' % lay(3, 2, SHORT))
    f.append('{[kind |-> "cyl", n |-> 2, ns |-> <<3, 3>>, per |-> FALSE, bend |-> 1, lay |-> l] : l \\in %s}' % lay(2, 3, SHORT))
    return core.Raw('<<' + ', '.join(f) + '>>')


def small():
    one = '[1..2 -> [1..2 -> {<<1>>, <<1, 2>>}]]'
    return core.Raw('<<{[kind |-> "multi", n |-> 2, ns |-> ns, per |-> pr, bend |-> 0, lay |-> l] : pr \\in BOOLEAN, ns \\in [1..2 -> 1..2], l \\in %s}, '
                    '{[kind |-> "step", n |-> 2, ns |-> <<2, 2>>, per |-> FALSE, bend |-> 0, lay |-> l] : l \\in %s}, '
                    '{[kind |-> "box", n |-> 3, ns |-> <<1, 1, 1>>, per |-> pr, bend |-> 0, lay |-> <<<<<<1, 1>>>>, <<<<1>>>>, <<<<2, 1>>>>>>] : pr \\in BOOLEAN}>>' % (one, one))


SMALLDEGS = '[n \\in 1..3 |-> IF n = 1 THEN {<<2>>} ELSE IF n = 2 THEN {<<1, 1>>, <<2, 1>>} ELSE {<<1, 1, 1>>, <<1, 2, 1>>}]'


def consts(rec, ops=0, elems=12, what=('topology', 'space')):
    if rec:
        return dict(Doms=doms(), Degs=core.Raw(DEGS), MaxOps=ops, Rec=True, MaxElems=elems, Ops=set(what))
    return dict(Doms=small(), Degs=core.Raw(SMALLDEGS), MaxOps=0, Rec=False, MaxElems=elems, Ops=set(what))


def run(ck, judge, what, num, elems, invariants, parts=4):
    thorough = ck.tier == 'thorough'
    if thorough:
        num, elems = num * 5, elems * 2
    if invariants:
        ck.design('MsepyMesh', 'every small domain and request', workers=6, consts=consts(False, what=what), invariants=invariants, constraints=['OneAsk'])
    got = ck.generate('MsepyMesh', num, 14, consts=consts(True, 12, elems, what))
    chunks = [got[i::parts] for i in range(parts)]
    recs = ck.parallel(lambda c: ck.drive('drv_mesh.py', {'seed': core.SEED, 'traces': c}, timeout=800), chunks)
    cnt = {}
    good = []
    for res in recs:
        if res.get('crash'):
            ck.violate('driver', 'msepy meshes could not be exercised', res)
            continue
        good.append(res['traces'])
        for t in res['traces']:
            dom = None
            for e in t['ev']:
                dom = e['dom'] if e['op'] == 'config' else dom
                k = 'chain' if e['op'] == 'chain' else '%s/%s %s' % (e['op'], '%s%dd' % (dom['kind'], dom['n']) if e['op'] != 'space' else '%s%d in %dd' % (e['kind'], e['k'], dom['n']),
                                  'ok' if e['obs']['ok'] else 'refused')
                cnt[k] = cnt.get(k, 0) + 1
    ck.cov['requests'] = cnt

    def judgeone(ts):
        c = consts(False, what=what)
        c['Judge'] = set(judge)
        ck.validate('MsepyMeshTrace', ts, 'msepy mesh', consts=c, keyof=lambda t, b: '%s: %s' % (t['ev'][b['step'] - 1]['op'], b['clause']))
    ck.parallel(judgeone, good)
    ck.sample(str([{k: e[k] for k in e if k != 'obs'} for e in got[0][:3]]))
    return cnt
