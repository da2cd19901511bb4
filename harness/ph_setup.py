# -*- coding: utf-8 -*-
"""Small constructors on top of the public API (ph.manifold / ph.mesh / ph.space.new / ph.fem.apply)."""
import ph_env  # noqa
import phyem as ph


def abstract(n, ks=None, periodic=False, forms=True, m=None, degree=2, kinds=('Lambda',), prefix='', views=None):
    """Abstract manifold, mesh, spaces of every (k, orientation) and one root form in each."""
    ph.config.set_embedding_space_dim(m or n)
    manifold = ph.manifold(n, periodic=periodic)
    mesh = ph.mesh(manifold)
    spaces, fs = {}, {}
    if ks is None:
        ks = [(k, o) for k in range(n + 1) for o in ('inner', 'outer')]
    for kind in kinds:
        for k, o in ks:
            sp = ph.space.new(kind, k, orientation=o)
            spaces[(kind, k, o)] = sp
            if forms:
                tag = '%s%s%d%s' % (prefix, kind[0], k, o[0])
                fs[(kind, k, o)] = sp.make_form('f_{%s}' % tag, 'form %s' % tag)
    if views is not None:  # forms at an abstract time instant must exist before the degree is given
        views['ts'] = ph.time_sequence()
        for kk in fs:
            views[kk] = fs[kk] @ views['ts']['k']
    if degree is not None:
        ph.space.finite(degree)
    return manifold, mesh, spaces, fs


def msepy(n, layout, degree=2, bounds=None, periodic=False, c=0., manifold_type='crazy', ks=None, ts=None,
          kinds=('Lambda',)):
    man, mesh, spaces, fs = abstract(n, ks=ks, periodic=periodic, degree=degree, kinds=kinds)
    obj = {'man': man, 'mesh': mesh}
    obj.update({'sp%s%d%s' % (kk[0], kk[1], kk[2]): sp for kk, sp in spaces.items()})
    obj.update({'fm%s%d%s' % (kk[0], kk[1], kk[2]): f for kk, f in fs.items()})
    if ts is not None:
        obj['ts'] = ts
    impl, objs = ph.fem.apply('msepy', obj)
    if bounds is None:
        bounds = [[0, 1]] * n
    kw = {}
    if manifold_type == 'crazy':
        kw = dict(c=c, bounds=bounds, periodic=periodic)
    impl.config(objs['man'])(manifold_type, **kw)
    impl.config(objs['mesh'])(layout)
    forms = {kk: objs['fm%s%d%s' % (kk[0], kk[1], kk[2])] for kk in fs}
    return impl, objs, forms


def msehtt(n, indicator='crazy', degree=2, ks=None, apply='msehtt-s', kinds=('Lambda',), **kw):
    man, mesh, spaces, fs = abstract(n, ks=ks, degree=degree, kinds=kinds)
    obj = {'man': man, 'mesh': mesh}
    obj.update({'sp%s%d%s' % (kk[0], kk[1], kk[2]): sp for kk, sp in spaces.items()})
    obj.update({'fm%s%d%s' % (kk[0], kk[1], kk[2]): f for kk, f in fs.items()})
    impl, objs = ph.fem.apply(apply, obj)
    tgm = impl.tgm()
    impl.config(tgm)(indicator, **kw)
    impl.config(objs['mesh'])(tgm, including='all')
    forms = {kk: objs['fm%s%d%s' % (kk[0], kk[1], kk[2])] for kk in fs}
    return impl, objs, forms, tgm
