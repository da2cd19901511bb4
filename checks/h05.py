"""H05: msehtt meshes do not depend on the number of processes."""
import htt


def run(ck):
    ck.design('HttMesh', 'every mesh on grids up to 2 x 2', spec='DSpec', workers=6, consts=htt.consts(False), invariants=['NamesDiffer', 'IsComplex', 'EulerHolds'])
    seen = set()
    for n in (2, 3, 5, 9) if ck.tier == 'quick' else (2, 3, 4, 5, 6, 7, 9, 10):
        cnt = htt.run(ck, ('mesh', 'number', 'deriv', 'section', 'mass'), ('space', 'mass', 'section'), 24, 8, [], parts=2 if n > 3 else 3, np=n)
        seen |= {(k, n) for k in ('space', 'section', 'bdofs', 'mass') if any(x.startswith(k) and x.endswith('ok') for x in cnt)}
        for k in ('space', 'section', 'bdofs'):
            ck.require(any(x.startswith(k) and x.endswith('ok') for x in cnt) or ck.violations, 'no %s was asked of %d processes' % (k, n))
    ck.require(any(k == 'mass' for k, n in seen) or ck.violations, 'no inner product was asked of several processes')
