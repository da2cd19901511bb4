# -*- coding: utf-8 -*-
"""Configure generated msepy meshes and record what they answer about themselves and their spaces."""
import gc

import numpy as np
import ph_env
import phyem as ph
from phyem.msepy.tools.gathering_matrix import RegularGatheringMatrix
import ph_setup

P = ph_env.load()
W = 144
NAMES = {
    2: {'corner': ['UL', 'DL', 'UR', 'DR']},
    3: {'corner': ['NWB', 'SWB', 'NEB', 'SEB', 'NWF', 'SWF', 'NEF', 'SEF'],
        'edge': ['WB', 'EB', 'WF', 'EF', 'NB', 'SB', 'NF', 'SF', 'NW', 'SW', 'NE', 'SE'],
        'side': ['N', 'S', 'W', 'E', 'B', 'F']},
}


class World:
    def __init__(self, e):
        d = e['dom']
        self.d, n = d, d['n']
        self.n = n
        per = d['per'] and d['kind'] not in ('step', 'cyl')
        ph.config.set_embedding_space_dim(n)
        man = ph.manifold(n, periodic=per)
        mesh = ph.mesh(man)
        self.cache = {}
        obj = {'man': man, 'mesh': mesh}
        for kind in ('Lambda', 'bundle'):
            for k in range(n + 1):
                for o in ('inner', 'outer'):
                    sp = ph.space.new(kind, k, orientation=o)
                    obj['s_%s%d%s' % (kind, k, o)] = sp
        impl, objs = ph.fem.apply('msepy', obj)
        if d['kind'] == 'step':
            kw = dict(x1=1, x2=1, y1=1, y2=1)
            if n == 3:
                kw.update(z=1, periodic=d['per'])
            impl.config(objs['man'])('backward_step', **kw)
        elif d['kind'] == 'cyl':
            kw = dict(r=1, dl=3, dr=4, h=5)
            if n == 3:
                kw.update(w=1, periodic=d['per'])
            impl.config(objs['man'])('cylinder_channel', **kw)
        elif d['kind'] == 'multi':
            impl.config(objs['man'])('crazy_multi', c=d['bend'] / 100, Ns=list(d['ns']), periodic=per,
                                     bounds=[[0, x] for x in d['ns']])
        else:
            impl.config(objs['man'])('crazy', c=d['bend'] / 100, periodic=per, bounds=[[0, 1]] * n)
        lay = {i: [self.one(x) for x in r] for i, r in enumerate(e['layouts'])}
        if len(lay) == 1 and d['kind'] == 'box':
            lay = lay[0]
        impl.config(objs['mesh'])(lay)
        self.mesh = objs['mesh']
        self.objs = objs
        self.names = {k: v for k, v in objs.items()}

    @staticmethod
    def one(x):
        return len(x) if len(set(x)) == 1 else [float(y) for y in x]

    def pts(self, p):
        n = self.n
        key = tuple(p)
        if key not in self.cache:
            self.cache[key] = self._pts(p)
        return self.cache[key]

    def _pts(self, p):
        n = self.n
        ax = [np.linspace(-1, 1, 2 * q + 1) for q in p]
        grid = np.meshgrid(*ax, indexing='ij')
        xi = [g.ravel('F') for g in grid]
        co = [np.array(self.mesh.elements[e].ct.mapping(*xi)) for e in range(len(self.mesh.elements))]
        raw = np.array(co)                     # (element, axis, point)
        if raw.ndim != 3:
            raw = raw.reshape((len(co), n, -1))
        again = np.array(self.mesh.ct.mapping(*xi)).transpose(2, 0, 1)      # all elements at once: the same
        agree = np.abs(raw - again) < 1e-9
        out = np.zeros(raw.shape, dtype=int)
        ext = []
        if self.d['bend'] == 0:
            q = raw * W
            out = np.rint(q).astype(int)
            out[np.abs(q - out) > 1e-6] = -999
            out[~agree] = -999
            ext = [0] * n
        else:
            for a in range(n):                  # equal up to rounding -> equal integers
                v = np.unique(raw[:, a, :].ravel())
                lab = np.concatenate([[0], np.cumsum(np.diff(v) > 1e-9)])
                if not np.all(agree):
                    raise AssertionError('the mapping of all elements at once is not that of the elements')
                out[:, a, :] = lab[np.searchsorted(v, raw[:, a, :])]
                ext.append(int(lab[-1]))
        return [[[int(out[e, a, i]) for a in range(n)] for i in range(out.shape[2])] for e in range(out.shape[0])], ext

    def topology(self):
        n = self.n
        pts, ext = self.pts([1] * n)
        m = self.mesh.elements.map
        obs = {'ok': True, 'pts': pts, 'ext': ext, 'map': [[int(x) for x in m[i]] for i in range(len(m))]}
        tp = self.mesh.topology
        for w in ('corner', 'edge', 'side'):
            obs[w] = {'num': [], 'att': []}
            if n in NAMES and w in NAMES[n]:
                idx = {''.join(sorted(x)): i for i, x in enumerate(NAMES[n][w])}
                try:
                    num = getattr(tp, w + '_numbering')
                    att = getattr(tp, w + '_attachment')
                except Exception as e:
                    obs[w]['why'] = type(e).__name__
                    continue
                obs[w]['num'] = [[int(x) for x in r] for r in num]
                obs[w]['att'] = [[[int(t.split('-')[0]), idx[''.join(sorted(t.split('-')[1]))]]
                                  for t in att[i] if '-' in t] for i in range(len(att))]
        return obs

    def space(self, e):
        n = self.n
        p = [int(x) for x in e['p']]
        kind = e['kind']
        sp = self.objs['s_%s%d%s' % (kind, e['k'], e['o'])]
        same = len(set(p)) == 1
        if kind == 'bundle':
            degs = [[p[(a + j) % n] for a in range(n)] for j in range(n)]
            deg = p[0] if same else degs
        else:
            degs = [p]
            deg = p[0] if same else tuple(p)
        pts, ext = [], []
        for q in degs:
            x, y = self.pts(q)
            pts.append(x)
            ext.append(y)
        gm = sp.gathering_matrix(deg)
        J = n if kind == 'bundle' else 1
        ln, shp = self.ln(sp, deg, J)
        obs = {'ok': True, 'pts': pts, 'ext': ext, 'ln': ln, 'shp': shp,
               'nld': int(sp.num_local_dofs(deg)), 'ndofs': int(gm.num_dofs),
               'gm': [[int(x) for x in gm[i]] for i in range(len(gm))], 'inc': [], 'incshape': [0, 0], 'lnd': []}
        if e['k'] < n:
            E = sp.incidence_matrix(deg).tocoo()
            obs['inc'] = [[int(r), int(c), int(v)] for r, c, v in zip(E.row, E.col, E.data) if v != 0]
            obs['incshape'] = [int(x) for x in E.shape]
            dsp = self.objs['s_%s%d%s' % (kind, e['k'] + 1, e['o'])]
            obs['lnd'] = self.ln(dsp, deg, J)[0]
        return obs

    def chain(self, e):
        gms = []
        for r in e['parts']:
            p = [int(x) for x in r['p']]
            sp = self.objs['s_%s%d%s' % (r['kind'], r['k'], r['o'])]
            same = len(set(p)) == 1
            n = self.n
            if r['kind'] == 'bundle':
                deg = p[0] if same else [[p[(a + j) % n] for a in range(n)] for j in range(n)]
            else:
                deg = p[0] if same else tuple(p)
            g = sp.gathering_matrix(deg)
            # a matrix of one's own, gone with the request
            gms.append(RegularGatheringMatrix(np.array([[int(x) for x in g[i]] for i in range(len(g))])) if e['free'] else g)
        c = RegularGatheringMatrix(gms, chaining_method=e['how'])
        return {'ok': True, 'parts': [[[int(x) for x in g[i]] for i in range(len(g))] for g in gms],
                'got': [[int(x) for x in c[i]] for i in range(len(c))], 'ndofs': int(c.num_dofs)}

    @staticmethod
    def ln(sp, deg, J):
        ln = sp.local_numbering(deg)
        if isinstance(ln[0], np.ndarray):
            if J > 1:
                parts = [[x] for x in ln]
            else:
                parts = [list(ln)]
        else:
            parts = [list(x) for x in ln]
        return ([[[int(v) for v in c.ravel('F')] for c in part] for part in parts],
                [[[int(v) for v in c.shape] for c in part] for part in parts])


out = []
world = None
for evs in P['traces']:
    res = []
    for e in evs:
        e = dict(e)
        try:
            if e['op'] == 'config':
                world = None
                gc.collect()
                world = World(e)
                e['obs'] = {'ok': True}
            elif e['op'] == 'topology':
                e['obs'] = world.topology()
            elif e['op'] == 'chain':
                gc.collect()
                e['obs'] = world.chain(e)
            else:
                e['obs'] = world.space(e)
        except (Exception, RecursionError) as ex:
            e['obs'] = {'ok': False, 'why': (type(ex).__name__ + ': ' + str(ex))[:200]}
            if e['op'] == 'config':
                res.append(e)
                break
        res.append(e)
    out.append({'ev': res})
ph_env.store({'traces': out})
