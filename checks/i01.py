"""I01: incidence matrices."""
import msepymesh as mm


def run(ck):
    cnt = mm.run(ck, ('derivative',), ('space',), 90, 3, ['ExactSequence', 'PlusMinusOne'])
    for n in (1, 2, 3):
        for k in range(n):
            for kind in ('Lambda', 'bundle'):
                ck.require(cnt.get('space/%s%d in %dd ok' % (kind, k, n)), 'no incidence matrix of %s %d-forms in %d-d' % (kind, k, n))
