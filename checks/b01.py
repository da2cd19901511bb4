"""B01: sections of the boundary of msepy domains and what lies on them."""
import core
from msepymesh import LAYS, SHORT


def lay(n, rows, ls):
    return '[1..%d -> [1..%d -> %s]]' % (n, rows, ls)


DEGS = ('[n \\in 1..3 |-> IF n = 1 THEN {} ELSE IF n = 2 THEN {<<1, 1>>, <<1, 1>>, <<2, 2>>, <<1, 2>>, <<3, 1>>} '
        'ELSE {<<1, 1, 1>>, <<1, 2, 3>>, <<2, 1, 1>>, <<1, 1, 2>>, <<2, 3, 1>>, <<2, 2, 2>>}]')
FIELDS = '{<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<2, -1, 3>>, <<0, 0, 0>>, <<-1, 2, 1>>}'


def doms(dims=(2, 3)):
    f = ['{[kind |-> "box", n |-> %d, ns |-> [a \\in 1..%d |-> 1], per |-> FALSE, bend |-> 0, lay |-> l] : l \\in %s}' % (n, n, lay(n, 1, ls))
         for n, ls in ((2, LAYS), (2, SHORT), (3, SHORT)) if n in dims]
    f += ['{[kind |-> "multi", n |-> %d, ns |-> ns, per |-> FALSE, bend |-> 0, lay |-> l] : ns \\in [1..%d -> 1..2], l \\in %s}' % (n, n, lay(n, 2, ls))
          for n, ls in ((2, SHORT), (3, '{<<1>>, <<2, 1>>}')) if n in dims]
    f.append('{[kind |-> "step", n |-> 2, ns |-> <<2, 2>>, per |-> FALSE, bend |-> 0, lay |-> l] : l \\in %s}' % lay(2, 2, SHORT))
    if 3 in dims:
        f.append('{[kind |-> "step", n |-> 3, ns |-> <<2, 2, 1>>, per |-> pr, bend |-> 0, lay |-> l] : pr \\in BOOLEAN, l \\in %s}' % lay(3, 2, SHORT))
    return core.Raw('<<' + ', '.join(f) + '>>')


def small():
    one = '[1..2 -> [1..2 -> {<<1>>, <<1, 2>>}]]'
    return core.Raw('<<{[kind |-> "multi", n |-> 2, ns |-> <<1, 2>>, per |-> FALSE, bend |-> 0, lay |-> l] : l \\in [1..2 -> [1..2 -> {<<1>>}]]}, '
                    '{[kind |-> "step", n |-> 2, ns |-> <<2, 2>>, per |-> FALSE, bend |-> 0, lay |-> <<<<<<1>>, <<1, 2>>>>, <<<<1>>, <<1>>>>>>]}, '
                    '{[kind |-> "box", n |-> 3, ns |-> <<1, 1, 1>>, per |-> FALSE, bend |-> 0, lay |-> <<<<<<1, 1>>>>, <<<<1>>>>, <<<<2, 1>>>>>>]}>>')


def consts(rec, ops=0, elems=16):
    if rec:
        return dict(Doms=doms(), Degs=core.Raw(DEGS), MaxOps=ops, Rec=True, MaxElems=elems, Ops=set(), Fields=core.Raw(FIELDS))
    return dict(Doms=small(), Degs=core.Raw('[n \\in 1..3 |-> {[a \\in 1..n |-> 1]}]'), MaxOps=0, Rec=False, MaxElems=elems, Ops=set(),
                Fields=core.Raw('{<<1, 0, 0>>, <<-2, 0, 0>>}'))


LOADS = core.Raw('{<<0, 1, 0, 0>>, <<1, 2, 0, 0>>, <<2, -1, 1, 0>>, <<-1, 0, 0, 2>>, <<3, 1, -1, 1>>}')


def syscon(rec, ops=0, elems=8):
    two = core.Raw('[n \\in 1..3 |-> IF n = 1 THEN {} ELSE IF n = 2 THEN {<<1, 1>>, <<2, 2>>, <<1, 2>>} ELSE {<<1, 1, 1>>}]')
    if rec:
        return dict(consts(True, ops, elems), Loads=LOADS, Degs=two, Doms=doms((2,)))
    return dict(consts(False), Loads=core.Raw('{<<0, 1, 0, 0>>, <<1, 0, 0, 1>>}'), Degs=core.Raw('[n \\in 1..3 |-> IF n = 2 THEN {<<1, 1>>} ELSE {}]'))


def systems(ck, thorough):
    ck.design('BoundarySystem', 'every section and step of small domains', spec='SSpec', workers=6, consts=syscon(False),
              invariants=['LevelIsBalanced', 'DivFree'], constraints=['OneAsk'])
    got = ck.generate('BoundarySystem', 160 if thorough else 30, 12, spec='SSpec', consts=syscon(True, 10, 12 if thorough else 8))
    recs = ck.parallel(lambda c: ck.drive('drv_bsys.py', {'seed': core.SEED, 'traces': c}, timeout=800), [got[i::6] for i in range(6)])
    good = []
    cnt = {}
    for res in recs:
        if res.get('crash'):
            ck.violate('driver', 'systems under boundary conditions could not be exercised', res)
            continue
        good.append(res['traces'])
        for t in res['traces']:
            for e in t['ev']:
                dom = e['dom'] if e['op'] == 'config' else dom
                k = '%s %s%dd' % (e['op'], dom['kind'], dom['n'])
                cnt[k] = cnt.get(k, 0) + 1
    ck.cov['systems'] = dict(sorted(cnt.items()))
    c = dict(syscon(False), Degs=core.Raw('[n \\in 1..3 |-> {}]'), Doms=core.Raw('<<>>'))
    ck.parallel(lambda ts: ck.validate('BoundarySystemTrace', ts, 'systems under boundary conditions', consts=c,
                                       keyof=lambda t, b: '%s: %s' % (t['ev'][b['step'] - 1]['op'], b['clause'])), good)
    ck.require(cnt.get('eval box2d') or ck.violations, 'no system was evaluated')


def run(ck):
    thorough = ck.tier == 'thorough'
    ck.design('MsepyBoundary', 'every section of small domains', spec='BSpec', workers=6, consts=consts(False),
              invariants=['SidesOfRegions', 'Partition', 'Closed'], constraints=['OneAsk'])
    got = ck.generate('MsepyBoundary', 400 if thorough else 120, 14, spec='BSpec', consts=consts(True, 12, 30 if thorough else 16))
    chunks = [got[i::4] for i in range(4)]
    recs = ck.parallel(lambda c: ck.drive('drv_bound.py', {'seed': core.SEED, 'traces': c}, timeout=800), chunks)
    cnt = {}
    good = []
    for res in recs:
        if res.get('crash'):
            ck.violate('driver', 'boundary sections could not be exercised', res)
            continue
        good.append(res['traces'])
        for t in res['traces']:
            dom = None
            for e in t['ev']:
                dom = e['dom'] if e['op'] == 'config' else dom
                k = '%s %s%dd%s' % (e['op'], dom['kind'], dom['n'], (' %d-form' % e['k']) if 'k' in e else '')
                cnt[k] = cnt.get(k, 0) + 1
    ck.cov['requests'] = dict(sorted(cnt.items()))
    c = dict(consts(False), Degs=core.Raw('[n \\in 1..3 |-> {}]'), Doms=core.Raw('<<>>'))
    ck.parallel(lambda ts: ck.validate('MsepyBoundaryTrace', ts, 'msepy boundary sections', consts=c,
                                       keyof=lambda t, b: '%s: %s' % (t['ev'][b['step'] - 1]['op'], b['clause'])), good)
    systems(ck, thorough)
    for k in ('faces box2d', 'dofs step2d 1-form', 'dofs multi3d 2-form', 'dofs step3d 0-form', 'natural step2d 0-form', 'natural multi2d 1-form'):
        ck.require(cnt.get(k) or ck.violations, '%s was never answered' % k)
    ck.sample(str([{k: e[k] for k in e if k != 'obs'} for e in got[0][:3]]))
