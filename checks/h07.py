"""H07: mass matrices on msehtt meshes."""
import htt


def run(ck):
    cnt = htt.run(ck, ('mass',), ('mass',), 50, 9, ['IsComplex', 'SplitIsFine'])
    for k in range(3):
        ck.require(any(x.startswith('mass %d-form' % k) and x.endswith('ok') for x in cnt) or ck.violations, 'no mass matrix of %d-forms was looked at' % k)
