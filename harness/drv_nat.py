# -*- coding: utf-8 -*-
"""Natural boundary terms of hybrid meshes, paired with polynomial test fields cell by cell."""
import gc
import os
import pickle
import shutil
import tempfile

import ph_env
import numpy as np
import phyem as ph
from phyem.src.config import RANK, MASTER_RANK, SIZE, COMM

P = ph_env.load()
n = P['dim']
TMP = COMM.bcast(tempfile.mkdtemp(prefix='nat_') if RANK == MASTER_RANK else None, root=MASTER_RANK)
SECTIONS = (r'\Gamma_{1}', r'\Gamma_{2}')


def with_args(g):
    """phyem counts the arguments"""
    return (lambda t, x, y: g(t, x, y)) if n == 2 else (lambda t, x, y, z: g(t, x, y, z))


def linear(s):
    s = [float(_) for _ in s]
    return with_args(lambda t, *x: s[0] + sum(c * _ for c, _ in zip(s[1:], x)))


def timed(s0, s1):
    f, g = linear(s0), linear(s1)
    return with_args(lambda t, *x: f(t, *x) + t * g(t, *x))


class World:
    def __init__(self, c):
        self.c = c
        gc.collect()
        ph.config.set_embedding_space_dim(n)
        man = ph.manifold(n)
        mesh = ph.mesh(man)
        mesh.boundary_partition(*SECTIONS)
        f = ph.space.new('Lambda', c['k'], orientation=c['o']).make_form('f', 'the-form')
        f.degree = c['deg']
        ms, obj = ph.fem.apply('msehtt-s', {'man': man, 'mesh': mesh, 'f': f})
        self.A = np.array(c['A'], dtype=float)
        if c['route'] == 'box':
            ms.config('tgm')('crazy', element_layout=c['lay'], c=0., bounds=[[0., self.A[i, i] * c['lay'][i]] for i in range(n)], periodic=False)
        else:
            fn = os.path.join(TMP, 'm.phm')
            if RANK == MASTER_RANK:
                with open(fn, 'wb') as file:
                    pickle.dump(self.cells(), file)
            COMM.barrier()
            ms.config('tgm')(fn)
            COMM.barrier()
        self.tgm = ms.base['the_great_mesh']
        me = ms.base['meshes'][mesh._sym_repr]
        ms.config(me)(self.tgm, including='all')
        nv = []
        for axis, end in c['pick']:
            if n == 2:
                v = np.array([self.A[1, 1], -self.A[0, 1]] if axis == 1 else [-self.A[1, 0], self.A[0, 0]]) * (1 if end else -1)
            else:
                v = np.eye(3)[axis - 1] * (1 if end else -1)
            nv.append(tuple(v / np.linalg.norm(v)))
        self.sec = []
        for s, how in zip(SECTIONS, ('ounv', 'except ounv')):
            m = next(m for key, m in ms.base['meshes'].items() if s in key)
            ms.config(m)(self.tgm, including={'type': 'boundary_section', 'partial elements': me, how: nv})
            self.sec.append(m)
        self.f = obj['f']
        self.at = {}
        for e in self.tgm.elements:
            x = self.tgm.elements[e].ct.mapping(*[np.array([0.])] * n)
            p = np.linalg.solve(self.A, np.array([float(np.ravel(_)[0]) for _ in x])) - 0.5
            self.at[e] = c['cells'].index([int(round(_)) for _ in p])
        self.tests = [self.f.reduce(self.test(i) @ 0.) for i in range(P['tests'][c['k']])]

    def cells(self):
        et, mp, pa, num = {}, {}, {}, {}
        for i, p in enumerate(self.c['cells']):
            ring = [(p[0], p[1]), (p[0] + 1, p[1]), (p[0] + 1, p[1] + 1), (p[0], p[1] + 1)]
            if self.c['orth'] and i % 2 == 0:
                ring = [ring[0], ring[1], ring[3], ring[2]]
                et[i] = 'orthogonal rectangle'
                lo, hi = self.A @ ring[0], self.A @ ring[3]
                pa[i] = {'origin': tuple(lo), 'delta': tuple(hi - lo)}
            else:
                r = (self.c['rot'] + i) % 4
                ring = ring[r:] + ring[:r]
                et[i] = 9
                pa[i] = [tuple(float(_) for _ in self.A @ q) for q in ring]
            mp[i] = [num.setdefault(q, len(num)) for q in ring]
        return {'etype_dict': et, 'map_dict': mp, 'parameter_dict': pa}

    def test(self, i):
        c = self.c
        if c['k'] == 0:
            return ph.vc.scalar(linear(np.eye(n + 1)[i]))
        if c['k'] == n - 1:
            w = np.zeros((n, 2))
            w[i // 2, i % 2] = 1.
            B = np.linalg.inv(self.A)

            def comp(j):
                def g(t, *x):
                    p = [sum(B[a, b] * x[b] for b in range(n)) for a in range(n)]
                    return sum(self.A[j, a] * (w[a, 0] + w[a, 1] * p[a]) for a in range(n)) + 0. * x[0]
                return with_args(g)
            g = [comp(j) for j in range(n)]
            if n == 2 and c['o'] == 'inner':
                m = g[1]
                g = [with_args(lambda t, *x: -m(t, *x)), g[0]]
            return ph.vc.vector(*g)
        s = np.zeros((3, 4))
        j, m = i // 3, i % 3
        s[j, m if m < j + 1 else m + 1] = 1.
        return ph.vc.vector(*[linear(_) for _ in s])

    def pair(self, e):
        c = self.c
        g = [timed(a, b) for a, b in zip(e['u0'], e['u1'])]
        u = ph.vc.scalar(g[0]) if len(g) == 1 else ph.vc.vector(*g)
        sec = self.sec[e['sec'] - 1]
        got = self.f.bi.with_vc_over_boundary_section(float(e['t']), u, sec)
        scale = 24 if n == 2 else 144
        mine = {}
        touched = {key[0] for key in sec.composition}
        zero = all(x in touched or not np.any(got[x]) for x in got)
        for x in self.at:
            row = [scale * float(np.ravel(got[x]) @ np.ravel(v[x])) if x in got else 0. for v in self.tests]
            mine[self.at[x]] = [int(round(_)) if abs(_ - round(_)) < 1e-6 else 987654321 for _ in row]
        all_ = {}
        for d in COMM.allgather(mine):
            all_.update(d)
        return [all_.get(i, [987654321]) for i in range(len(c['cells']))], all(COMM.allgather(zero))


out = []
for evs in P['traces']:
    res, world = [], None
    for e in evs:
        e = dict(e, why='')
        try:
            if e['op'] == 'config':
                world = None
                world = World(e)
            else:
                e['vals'], e['zero'] = world.pair(e)
        except Exception as ex:  # noqa
            if SIZE > 1:   # the other processes may wait for this one
                print(type(ex).__name__, ex, flush=True)
                COMM.Abort(1)
            e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:160]) or 'x'
        res.append(e)
        if e['why']:
            break
    out.append({'ev': res})
COMM.barrier()
if RANK == MASTER_RANK:
    shutil.rmtree(TMP)
    ph_env.store({'traces': out})
