"""F01: the algebra of forms and spaces."""
import random
import core

UN = ['d', 'codiff', 'hodge', 'trace', 'ddt', 'smul', 'cmul', 'abmul', 'sdiv', 'log', 'at']
BI = ['wedge', 'tensor', 'cross', 'Cross', 'xCross', 'crossx', 'convect', 'plus', 'minus', 'project', 'multi']


def table(n):
    """every operator on every (pair of) root space(s), and on the traces / unknown-orientation spaces"""
    kinds = ('Lambda', 'bundle')
    ops = [{'op': 'root', 'kind': kd, 'k': k, 'ori': o, 'a': 0, 'b': 0}
           for kd in kinds for k in range(n + 1) for o in ('inner', 'outer')]
    m = len(ops)
    for op in UN:
        ops += [{'op': op, 'a': a, 'b': a} for a in range(1, m + 1)]
    wedges = len(ops)
    for op in BI:
        ops += [{'op': op, 'a': a, 'b': b} for a in range(1, m + 1) for b in range(1, m + 1)]
    traces = [m + UN.index('trace') * m + a for a in range(1, m + 1)]
    ops += [{'op': op, 'a': a, 'b': b} for op in ('wedge', 'plus', 'multi') for a in traces for b in traces]
    ops += [{'op': op, 'a': a, 'b': a} for op in UN for a in traces + [wedges + 2, wedges + 3, wedges + m + 1]]
    return ops


def nests(n, k, three):
    """every two-level nesting of sums, differences and scalings of forms in one space"""
    ops = [{'op': 'root', 'kind': 'Lambda', 'k': k, 'ori': 'outer', 'a': 0, 'b': 0} for _ in range(3 if three else 2)]
    roots = list(range(1, len(ops) + 1))

    def add(op, a, b):
        ops.append({'op': op, 'a': a, 'b': b})
        return len(ops)
    un = ['ddt'] if three else ['smul', 'cmul', 'abmul', 'sdiv', 'ddt']
    bi = ['plus', 'minus', 'multi'] if three else ['plus', 'minus'] + (['wedge'] if k == 0 else [])
    one = [add(op, a, b) for op in bi for a in roots for b in roots if a != b or not three]
    one += [add(op, a, a) for op in un for a in roots[:2]]
    for op in bi:
        for x in one:
            for a in roots:
                add(op, x, a)
                add(op, a, x)
    for op in un:
        for x in one:
            add(op, x, x)
    return ops


def run(ck):
    thorough = ck.tier == 'thorough'
    ops = {}

    def one(nm):
        n, m = nm
        rnd = random.Random('%d-%d-%d' % (core.SEED, n, m))
        base = dict(N=n, M=m, Kinds={'Lambda', 'bundle'}, Roots=1, MaxOps=3 if thorough else 2, Rec=False,
                    Ops=set(UN + BI), OneSpace=False)
        ck.design('FormAlgebra', 'laws and closure, n=%d m=%d' % (n, m), consts=base, invariants=['TypeOK', 'Laws'],
                  workers=4)
        trs = [{'n': n, 'm': m, 'ops': table(n), 'pre': pre} for pre in (0, 6)]
        trs += [{'n': n, 'm': m, 'ops': nests(n, k, three), 'pre': 0} for k in (0, 1) for three in (False, True)]
        sums = {'plus', 'minus', 'smul', 'cmul', 'abmul', 'sdiv'}
        for kinds, roots, depth, num, ops_, same in (
                ({'Lambda', 'bundle'}, 6, 40, 30, set(UN + BI), False), ({'Lambda'}, 5, 40, 60, set(UN + BI), False),
                ({'Lambda'}, 3, 60, 6, {'plus', 'minus', 'ddt'}, True), ({'Lambda'}, 2, 60, 6, sums, True),
                ({'Lambda'}, 2, 60, 6, {'wedge', 'plus', 'minus', 'd', 'hodge', 'ddt'}, True)):
            num = num * (4 if thorough else 1)
            got = ck.generate('FormAlgebra', num, depth,
                              consts=dict(base, Kinds=kinds, Roots=roots, MaxOps=depth, Rec=True, Ops=ops_, OneSpace=same))
            trs += [{'n': n, 'm': m, 'ops': g, 'pre': rnd.choice([0, 0, 3, 8])} for g in got]
        res = ck.drive('drv_forms.py', {'seed': core.SEED, 'traces': trs})
        if res.get('crash'):
            ck.violate('n%d driver' % n, 'the form algebra could not be exercised', res)
            return
        ck.validate('FormAlgebraTrace', res['traces'], 'form expressions n=%d m=%d' % (n, m),
                    consts=dict(base, Rec=False), workers=4,
                    keyof=lambda t, b: '%s: %s' % (t['ev'][b['step'] - 1]['op'], b['clause']))
        for t in res['traces']:
            for e in t['ev']:
                ops[(e['op'], e['res'])] = ops.get((e['op'], e['res']), 0) + 1
        ck.sample(str([(e['op'], e['a'], e['b'], e['res'], e['k'], e['or']) for e in res['traces'][0]['ev'][:9]]))

    ck.parallel(one, ((3, 3), (2, 2), (2, 3), (1, 2), (1, 1)), workers=5)
    ck.cov['operators'] = {'%s/%s' % k: v for k, v in sorted(ops.items())}
    for op in ('d', 'codiff', 'hodge', 'trace', 'wedge', 'plus', 'minus', 'cross', 'Cross', 'convect', 'tensor', 'multi', 'project'):
        ck.require(ops.get((op, 'ok')), '%s never succeeded' % op)
        if op not in ('hodge', 'multi'):
            ck.require(ops.get((op, 'refused')), '%s never refused' % op)
