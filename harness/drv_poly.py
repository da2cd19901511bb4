# -*- coding: utf-8 -*-
"""Polynomial fields on affine meshes, and what forms tell about them."""
import gc
import itertools
import os
import pickle
import shutil
import tempfile

import ph_env
import numpy as np
import phyem as ph
from phyem.src.config import RANK, MASTER_RANK, SIZE, COMM

P = ph_env.load()
n, LIB = P['dim'], P['lib']
ph.config.set_auto_cleaning(False)
TMP = COMM.bcast(tempfile.mkdtemp(prefix='poly_') if RANK == MASTER_RANK else None, root=MASTER_RANK)
BIG = 987654321


def fun(p):
    def g(t, *x):
        out = 0. * x[0] + 0. * t
        for c, m in p:
            term = float(c) * t ** m[0]
            for a, e in zip(x, m[1:]):
                term = term * a ** e
            out = out + term
        return out
    return (lambda t, x, y: g(t, x, y)) if n == 2 else (lambda t, x, y, z: g(t, x, y, z))


CURVED = False


def whole(v, tol=1e-6):
    v = float(v)
    if CURVED:
        return int(round(v)) if np.isfinite(v) and abs(v) < BIG else BIG
    return int(round(v)) if np.isfinite(v) and abs(v - round(v)) < tol + 1e-9 * abs(v) else BIG


class World:
    def __init__(self, c):
        global CURVED
        self.c = c
        CURVED = c['route'] == 'curved'
        bend = 0.1 if CURVED else 0.
        gc.collect()
        ph.config.set_embedding_space_dim(n)
        man = ph.manifold(n)
        mesh = ph.mesh(man)
        ns = {'man': man, 'mesh': mesh}
        for i, (k, deg) in enumerate(((c['k'], c['p']), (c['k'], c['p']), (c['k'] + 1, c['p']))):
            sp = ph.space.new('Lambda', k, orientation=c['o'])
            f = sp.make_form('f_{%d}' % i, 'form-%d' % i)
            f.degree = tuple(deg) if len(set(deg)) > 1 else deg[0]
            ns['f%d' % (i + 1)] = f
        fe, obj = ph.fem.apply('msepy' if LIB == 'msepy' else 'msehtt-s', ns)
        A = self.A = np.array(c['A'], dtype=float)
        widths = [[b - a for a, b in zip(s, s[1:])] for s in c['cuts']]
        lay = [len(w) if len(set(w)) == 1 else w for w in widths]
        if CURVED:
            lay = [3 if n == 2 else 2] * n
        bounds = [[A[i, i] * s[0], A[i, i] * s[-1]] for i, s in enumerate(c['cuts'])]
        if LIB == 'msepy':
            fe.config(obj['man'])('crazy', c=bend, bounds=bounds, periodic=False)
            fe.config(obj['mesh'])(lay)
            self.tgm = None
        else:
            if c['route'] in ('box', 'curved'):
                fe.config('tgm')('crazy', element_layout=lay, c=bend, bounds=bounds, periodic=False)
            else:
                fn = os.path.join(TMP, 'm.phm')
                if RANK == MASTER_RANK:
                    with open(fn, 'wb') as file:
                        pickle.dump(self.cells(), file)
                COMM.barrier()
                fe.config('tgm')(fn)
                COMM.barrier()
            self.tgm = fe.base['the_great_mesh']
            fe.config(obj['mesh'])(self.tgm, including='all')
        self.f = {i: obj['f%d' % i] for i in (1, 2, 3)}
        self.k = {1: c['k'], 2: c['k'], 3: c['k'] + 1}

    def cells(self):
        et, mp, pa, num = {}, {}, {}, {}
        cx, cy = self.c['cuts']
        i = 0
        for a, b in itertools.product(range(len(cx) - 1), range(len(cy) - 1)):
            ring = [(cx[a], cy[b]), (cx[a + 1], cy[b]), (cx[a + 1], cy[b + 1]), (cx[a], cy[b + 1])]
            r = (self.c['rot'] + i) % 4
            ring = ring[r:] + ring[:r]
            if self.c['route'] == 'tris':
                for tri in (ring[:3], [ring[0]] + ring[2:]):
                    r = (self.c['rot'] + len(et)) % 3
                    tri = tri[r:] + tri[:r]
                    j = len(et)
                    et[j] = 5
                    pa[j] = [tuple(float(_) for _ in self.A @ q) for q in tri]
                    mp[j] = [num.setdefault(q, len(num)) for q in tri]
                i += 1
                continue
            et[i] = 9
            pa[i] = [tuple(float(_) for _ in self.A @ q) for q in ring]
            mp[i] = [num.setdefault(q, len(num)) for q in ring]
            i += 1
        return {'etype_dict': et, 'map_dict': mp, 'parameter_dict': pa}

    def set(self, e):
        g = [fun(p) for p in e['comps']]
        self.f[e['f']].cf = ph.vc.scalar(g[0]) if len(g) == 1 else ph.vc.vector(*g)

    def view(self, e):
        if e['v'] == 'f':
            return self.f[e['f']]
        if e['v'] == 'd':
            return self.f[e['f']].d()
        return self.f[1] + self.f[2] if e['v'] == 'sum' else self.f[1] - self.f[2]

    def rec(self, f, t):
        tris = self.c['route'] == 'tris'
        ends = [np.array([-1., 1.])] * n if not tris else [np.array([0., 1.]), np.array([-1., 1.])]
        a, b = (2, 8) if tris else (1, 1)     # halves of sides and cubic polynomials there
        x, v = f[t].reconstruct(*ends)
        keys = range(len(x[0])) if LIB == 'msepy' else list(x[0])
        out = []
        for e in keys:
            X = [np.ravel(_[e]) for _ in x]
            V = [np.ravel(_[e]) for _ in v]
            assert all(len(_) == 2 ** n for _ in X + V)
            out.append([[[whole(a * _[q]) for _ in X], [whole(b * _[q]) for _ in V]] for q in range(2 ** n)])
        if SIZE > 1:
            out = [_ for part in COMM.allgather(out) for _ in part]
        return out

    def ask(self, e):
        op, S = e['op'], 60 ** n
        if op == 'rec':
            return self.rec(self.view(e), e['t'])
        if op == 'norm':
            return whole(S * self.view(e)[e['t']].norm() ** 2, 1e-4)
        if op == 'comp':
            return [whole(S * _ ** 2, 1e-4) for _ in self.view(e)[e['t']].norm(component_wise=True)]
        f = self.f[e['f']]
        if op == 'error':
            kw = {} if e['v'] == 'L2' else {'etype' if LIB == 'msepy' else 'error_type': e['v']}
            # derivatives of fields are found by differences
            return whole(S * f[e['t']].error(**kw) ** 2, 1e-4 if e['v'] == 'L2' else 0.4)
        if op == 'diff':
            if e['how'] == 'diff_to_t':
                return whole(S * f[e['t']].norm(diff_to_t=e['s']) ** 2, 1e-4)
            if e['how'] == 'latest':
                return whole(S * f.norm_residual() ** 2, 1e-4)
            return whole(S * f.norm_residual(from_time=e['s'], to_time=e['t']) ** 2, 1e-4)
        if op == 'ip':
            a, b = self.view({'v': e['v'], 'f': e['f']}), self.view({'v': e['w'], 'f': e['g']})
            return whole(S * a[e['t']].inner_product(b[e['s']]), 1e-4)
        return whole(S * f[e['t']].mass(), 1e-4)


out = []
for evs in P['traces']:
    res, world = [], None
    for e in evs:
        e = dict(e, why='')
        try:
            if e['op'] == 'config':
                world = None
                world = World(e)
            elif e['op'] == 'set':
                world.set(e)
            elif e['op'] == 'reduce':
                world.f[e['f']][e['t']].reduce()
            else:
                e['got'] = world.ask(e)
                if SIZE > 1 and e['op'] != 'rec':
                    assert len(set(map(str, COMM.allgather(e['got'])))) == 1
        except Exception as ex:  # noqa
            if SIZE > 1:   # the other processes may wait for this one
                print(type(ex).__name__, ex, flush=True)
                COMM.Abort(1)
            e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:160]) or 'x'
        res.append(e)
        if e['why']:
            break
    out.append({'ev': res})
COMM.barrier()
if RANK == MASTER_RANK:
    shutil.rmtree(TMP)
    ph_env.store({'traces': out})
