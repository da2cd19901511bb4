"""M01: elements, neighbours, corners, edges and sides of msepy meshes."""
import msepymesh as mm


def run(ck):
    cnt = mm.run(ck, ('mesh',), ('topology',), 60, 14, ['Mutual', 'Faces'])
    for k in ('box1d', 'box2d', 'box3d', 'multi2d', 'multi3d', 'step2d', 'step3d', 'cyl2d'):
        ck.require(cnt.get('topology/%s ok' % k), 'the topology of %s was never answered' % k)
