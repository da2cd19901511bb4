"""H02: numbering of the degrees of freedom of forms on msehtt meshes."""
import htt


def run(ck):
    cnt = htt.run(ck, ('number',), ('space',), 60, 8, ['NamesDiffer', 'IsComplex', 'EulerHolds'])
    for k in range(3):
        for o in ('inner', 'outer'):
            ck.require(cnt.get('space %d-form %s ok' % (k, o)) or ck.violations, 'no %s %d-form was looked at' % (o, k))
