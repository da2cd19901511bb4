# -*- coding: utf-8 -*-
"""Build generated form expressions with the public operators; record the space of every result."""
import random

import ph_env
import phyem as ph

P = ph_env.load()
rnd = random.Random(P['seed'])


def fresh(n, m):
    ph.config.set_embedding_space_dim(m)
    man = ph.manifold(n)
    return ph.mesh(man)


def spell(ori):
    return rnd.choice({'inner': ['inner', 'i'], 'outer': ['outer', 'o']}[ori])


KIND = {'ScalarValuedFormSpace': 'Lambda', 'BundleValuedFormSpace': 'bundle',
        'DiagonalBundleValuedFormSpace': 'bundle-diagonal'}


def describe(f, mesh):
    s = f.space
    lvl = 0 if f.mesh is mesh else (1 if f.mesh is mesh.boundary() else 9)
    return dict(kind=s.indicator, k=s.k, **{'or': f.orientation if f.orientation == s.orientation else '??'}, lvl=lvl)


def snapshot(f):
    return (f._lin_repr, f._sym_repr, id(f.space), f.is_root(), f.orientation)


def apply(op, x, y, cs):
    if op == 'd':
        return rnd.choice([lambda: ph.d(x), lambda: x.exterior_derivative(), lambda: x.d()])()
    if op == 'codiff':
        return rnd.choice([lambda: ph.codifferential(x), lambda: x.codifferential()])()
    if op == 'hodge':
        return ph.Hodge(x)
    if op == 'trace':
        return ph.trace(x)
    if op == 'ddt':
        return rnd.choice([lambda: ph.time_derivative(x), lambda: x.time_derivative()])()
    if op == 'smul':
        return 2 * x
    if op == 'cmul':
        return cs[0] * x
    if op == 'abmul':
        return (cs[0] + cs[1]) * x
    if op == 'sdiv':
        return x / cs[1]
    if op == 'log':
        return x.log()
    if op == 'at':
        return x @ cs[2]['k']
    if op == 'wedge':
        return rnd.choice([lambda: ph.wedge(x, y), lambda: x.wedge(y)])()
    if op == 'tensor':
        return x.tensor_product(y)
    if op == 'cross':
        return x.cross_product(y)
    if op == 'Cross':
        return x.Cross_Product(y)
    if op == 'xCross':
        return x.CrossProduct(y)
    if op == 'crossx':
        return x.crossProduct(y)
    if op == 'convect':
        return x.convect(y)
    if op == 'plus':
        return x + y
    if op == 'minus':
        return x - y
    if op == 'project':
        return x.project_to(y.space)
    if op == 'multi':
        return x.multi(y, y.space)
    raise SystemExit('unknown op %s' % op)


out = []
for tr in P['traces']:
    mesh = fresh(tr['n'], tr['m'])
    cs = [ph.constant_scalar('c_a', 'scalar-a'), ph.constant_scalar('c_b', 'scalar-b'), ph.time_sequence()]
    pool, ev, roots, lins = [], [], {}, {}
    if tr.get('pre'):   # a different history of space requests
        order = [(kd, k, o) for kd in ('Lambda', 'bundle') for k in range(tr['n'] + 1)
                 for o in ('inner', 'outer', 'o', 'i', None)]
        rnd.shuffle(order)
        for kd, k, o in order[:tr['pre']]:
            ph.space.new(kd, k, orientation=o)
    for j, o in enumerate(tr['ops']):
        e = dict(op=o['op'], a=o['a'], b=o['b'], res='ok', why='', kind='', k=0, lvl=0, lin=0, mut=False, leaves=[],
                 space='same', rkind=o.get('kind', ''), rk=o.get('k', 0), ror=o.get('ori', ''))
        e['or'] = ''
        f = None
        try:
            if o['op'] == 'root':
                sp = ph.space.new(o['kind'], o['k'], orientation=spell(o['ori']))
                f = sp.make_form('f_{%d}' % j, 'form-%d' % j)
                roots[f._lin_repr] = j + 1
            else:
                x, y = pool[o['a'] - 1], pool[o['b'] - 1]
                if x is None or y is None:
                    raise NotImplementedError('operand refused')
                before = snapshot(x), snapshot(y)
                try:
                    f = apply(o['op'], x, y, cs)
                finally:
                    e['mut'] = (snapshot(x), snapshot(y)) != before
                if f is None or f.__class__.__name__ != 'Form':
                    raise NotImplementedError('no form')
            e.update(describe(f, mesh))
            e['lin'] = lins.setdefault(f._lin_repr, j + 1)
            e['leaves'] = sorted(roots.get(g._lin_repr, 99) for g in f.elementary_forms)
            again = ph.space.new(e['kind'], e['k'], mesh=f.mesh,
                                 orientation=None if e['or'] == 'unknown' else e['or'])
            e['space'] = 'same' if again is f.space else 'other'
        except Exception as ex:  # noqa
            e['res'] = 'refused'
            e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:80])
        pool.append(f if e['res'] == 'ok' else None)
        ev.append(e)
    out.append({'n': tr['n'], 'm': tr['m'], 'ev': ev})
ph_env.store({'traces': out})
