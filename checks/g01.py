"""G01: local and global numbering of degrees of freedom."""
import msepymesh as mm


def run(ck):
    cnt = mm.run(ck, ('dofs',), ('space',), 60, 12, ['Euler'])
    for n in (1, 2, 3):
        for k in range(n + 1):
            for kind in ('Lambda', 'bundle'):
                ck.require(cnt.get('space/%s%d in %dd ok' % (kind, k, n)), '%s %d-forms in %d-d never numbered' % (kind, k, n))
