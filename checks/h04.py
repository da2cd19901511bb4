"""H04: sections of the boundary of msehtt meshes and what lies on them."""
import htt


def run(ck):
    cnt = htt.run(ck, ('section',), ('section',), 80, 9, ['IsComplex', 'BoundaryClosed', 'Normals'])
    for k in ('all', 'ounv', 'line', 'segment', 'polygon'):
        ck.require(cnt.get('section %s ok' % k) or ck.violations, 'no section by %s was made' % k)
