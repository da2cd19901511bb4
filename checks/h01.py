"""H01: msehtt meshes: what is given, split, refined, renumbered or read back is a conforming mesh of the domain."""
import htt


def run(ck):
    cnt = htt.run(ck, ('mesh',), (), 110, 6, ['NamesDiffer', 'IsComplex', 'BoundaryClosed', 'SplitIsFine', 'CrossIsFine', 'Normals'])
    for k in ('phm', 'vtu', 'dict', 'trf1', 'trf2', 'saved', 'ts2'):
        ck.require(any(k in x and x.endswith('ok') for x in cnt) or ck.violations, 'no mesh was configured by %s' % k)
