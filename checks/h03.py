"""H03: the exterior derivative on msehtt meshes."""
import htt


def run(ck):
    cnt = htt.run(ck, ('deriv',), ('space',), 60, 8, ['IsComplex', 'EulerHolds'])
    for k in range(2):
        for o in ('inner', 'outer'):
            ck.require(cnt.get('space %d-form %s ok' % (k, o)) or ck.violations, 'no %s %d-form was looked at' % (o, k))
