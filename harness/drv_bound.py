# -*- coding: utf-8 -*-
"""Configure generated msepy boundary sections and record what they answer."""
import gc

import numpy as np
import ph_env
import phyem as ph

P = ph_env.load()
W = 144


def near(x):
    q = np.rint(x)
    if not np.all(np.abs(x - q) < 1e-4):
        raise ValueError('not what exact arithmetic can give')
    return [int(y) for y in q]


class World:
    def __init__(self, e):
        d = e['dom']
        n = d['n']
        self.d, self.n = d, n
        per = d['per'] and d['kind'] not in ('step', 'cyl')
        ph.config.set_embedding_space_dim(n)
        man = ph.manifold(n, periodic=per)
        mesh = ph.mesh(man)
        bd = man.boundary()
        mesh.boundary()
        for s in bd.partition(r'\Gamma_1', r'\Gamma_2'):
            ph.mesh(s)
        obj = {'man': man, 'mesh': mesh}
        for k in range(n):
            for o in ('inner', 'outer'):
                sp = ph.space.new('Lambda', k, orientation=o)
                obj['s%d%s' % (k, o)] = sp
                obj['f%d%s' % (k, o)] = sp.make_form('f_{%d%s}' % (k, o), 'form %d %s' % (k, o))
        p = d['p']
        ph.space.finite(p[0] if len(set(p)) == 1 else tuple(p))
        impl, objs = ph.fem.apply('msepy', obj)
        if d['kind'] == 'step':
            kw = dict(x1=1, x2=1, y1=1, y2=1)
            if n == 3:
                kw.update(z=1, periodic=d['per'])
            impl.config(objs['man'])('backward_step', **kw)
        elif d['kind'] == 'multi':
            impl.config(objs['man'])('crazy_multi', c=0, Ns=list(d['ns']), periodic=per, bounds=[[0, x] for x in d['ns']])
        else:
            impl.config(objs['man'])('crazy', c=0, periodic=per, bounds=[[0, 1]] * n)
        ms = impl.base['manifolds']
        g1, g2 = ms[r'\Gamma_1'], ms[r'\Gamma_2']
        cover = {i: list(c) for i, c in enumerate(d['cover']) if sum(c) or i % 2}
        impl.config(g1)(objs['man'], cover)
        lay = {i: [self.one(x) for x in r] for i, r in enumerate(e['layouts'])}
        if len(lay) == 1 and d['kind'] == 'box':
            lay = lay[0]
        impl.config(objs['mesh'])(lay)
        self.objs, self.mesh = objs, objs['mesh']
        whole = [m for s, m in impl.base['manifolds'].items() if m.abstract is bd][0]
        self.secs = [impl.find_mesh_of_manifold(x) for x in (whole, g1, g2)]

    @staticmethod
    def one(x):
        return len(x) if len(set(x)) == 1 else [float(y) for y in x]

    def boxes(self):
        n = self.n
        lo = [np.array([-1.])] * n
        up = [np.array([1.])] * n
        out = []
        for e in range(len(self.mesh.elements)):
            ct = self.mesh.elements[e].ct
            a = near(np.array(ct.mapping(*lo)).ravel() * W)
            b = near(np.array(ct.mapping(*up)).ravel() * W)
            out.append([[x, y] for x, y in zip(a, b)])
        return out

    def sides(self, sec):
        m = self.secs[sec]
        return [[int(m.faces[i]._element), int(m.faces[i]._m), int(m.faces[i]._n)] for i in m.faces]

    def do(self, e):
        if e['op'] == 'faces':
            return {'whole': self.sides(0), 'one': self.sides(1), 'two': self.sides(2)}
        f = self.objs['f%d%s' % (e['k'], e['o'])]
        m = self.secs[e['sec']]
        gm = f.cochain.gathering_matrix
        ln = f.space.local_numbering(f.degree)
        ln = [[int(v) for v in c.ravel('F')] for c in ln]
        if e['op'] == 'dofs':
            faces = [self.side(m.faces[i]) + [[int(x) for x in np.array(m.faces[i].find_corresponding_local_dofs_of(f)).ravel('F')]]
                     for i in m.faces]
            g = np.array([[int(x) for x in gm[i]] for i in range(len(gm))])
            where = np.arange(g.size).reshape(g.shape)
            dofs, at = m.find_boundary_objects(f, 'gathering_matrix', where)
            return {'ln': ln, 'faces': faces, 'gm': g.tolist(), 'dofs': [int(x) for x in dofs],
                    'places': [[int(x) // g.shape[1], int(x) % g.shape[1]] for x in at]}
        a, b = e['fs']
        lin = [self.linear(c) for c in (a, b)]
        if e['k'] == 0:
            vc = ph.vc.vector(*lin)
            scale = 6 * W * W
        else:
            vc = ph.vc.scalar(lin[0])
            scale = 2 * W
        bi = f.bi.with_vc_over_boundary_section(0, vc, m)
        return {'ln': ln, 'bi': [near(r * scale) for r in bi]}

    @staticmethod
    def linear(c):
        return lambda t, x, y: c[0] + c[1] * x + c[2] * y + 0 * t

    @staticmethod
    def side(f):
        return [int(f._element), int(f._m), int(f._n)]


out = []
world = None
for evs in P['traces']:
    res = []
    for e in evs:
        e = dict(e)
        try:
            if e['op'] == 'config':
                world = None
                gc.collect()
                world = World(e)
                e['obs'] = {'ok': True, 'boxes': world.boxes()}
            else:
                e['obs'] = dict(world.do(e), ok=True)
        except Exception as ex:
            e['obs'] = {'ok': False, 'why': (type(ex).__name__ + ': ' + str(ex))[:200]}
            if e['op'] == 'config':
                res.append(e)
                break
        res.append(e)
    out.append({'ev': res})
ph_env.store({'traces': out})
