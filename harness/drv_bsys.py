# -*- coding: utf-8 -*-
"""Assemble a port-Hamiltonian system under natural and essential boundary conditions."""
import gc

import numpy as np
import ph_env
import phyem as ph

P = ph_env.load()
W = 144


def near(x):
    q = np.rint(x)
    if not abs(x - q) < 1e-2:
        return 'irrational'
    return int(q)


def one(x):
    return len(x) if len(set(x)) == 1 else [float(y) for y in x]


def load(c, n):
    if n == 2:
        return lambda t, x, y: c[0] + c[1] * t + c[2] * x + c[3] * y
    return lambda t, x, y, z: c[0] + c[1] * t + c[2] * x + c[3] * y


class World:
    """With `free`, every side is under the natural condition of no load."""

    def __init__(self, e, free):
        d = e['dom']
        n = d['n']
        self.n = n
        per = d['per'] and d['kind'] != 'step'
        ph.config.set_embedding_space_dim(n)
        manifold = ph.manifold(n, periodic=per)
        mesh = ph.mesh(manifold)
        ph.space.set_mesh(mesh)
        Out1 = ph.space.new('Lambda', n - 1, orientation='outer')
        Out2 = ph.space.new('Lambda', n, orientation='outer')
        a = Out2.make_form(r'\tilde{\alpha}', 'variable1')
        b = Out1.make_form(r'\tilde{\beta}', 'variable2')
        da_dt = a.time_derivative()
        db_dt = b.time_derivative()
        cd_a = a.codifferential()
        d_b = b.exterior_derivative()
        pde = ph.pde(['da_dt = + d_b', 'db_dt = - cd_a'], locals())
        pde.unknowns = [a, b]
        pde.bc.partition(r"\Gamma_{\alpha}", r"\Gamma_{\beta}")
        pde.bc.define_bc({r"\Gamma_{\alpha}": ph.trace(ph.Hodge(a)), r"\Gamma_{\beta}": ph.trace(b)})
        wf = pde.test_with([Out2, Out1], sym_repr=['p', 'q'])
        wf = wf.derive.integration_by_parts('1-1')
        wf = wf.derive.rearrange({0: '0, 1 = ', 1: '0, 1 = 2'})
        ts = ph.time_sequence()
        dt = ts.make_time_interval('k-1', 'k', sym_repr=r'\Delta t')
        td = wf.td
        td.set_time_sequence(ts)
        td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
        td.differentiate('0-0', 'k-1', 'k')
        td.average('0-1', b, ['k-1', 'k'])
        td.differentiate('1-0', 'k-1', 'k')
        td.average('1-1', a, ['k-1', 'k'])
        td.average('1-2', a, ['k-1/2'])
        wf = td()
        wf.unknowns = [a @ ts['k'], b @ ts['k']]
        wf = wf.derive.split('0-0', 'f0', [a @ ts['k'], a @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
        wf = wf.derive.split('1-0', 'f0', [b @ ts['k'], b @ ts['k-1']], ['+', '-'], factors=[1 / dt, 1 / dt])
        wf = wf.derive.split('0-2', 'f0', [(b @ ts['k']).exterior_derivative(), (b @ ts['k-1']).exterior_derivative()],
                             ['+', '+'], factors=[1 / 2, 1 / 2])
        wf = wf.derive.split('1-2', 'f0', [(a @ ts['k']), (a @ ts['k-1'])], ['+', '+'], factors=[1 / 2, 1 / 2])
        wf = wf.derive.rearrange({0: '0, 2 = 1, 3', 1: '2, 0 = 3, 1, 4'})
        p = d['p']
        ph.space.finite(p[0] if len(set(p)) == 1 else tuple(p))
        ls = wf.mp().ls()
        impl, obj = ph.fem.apply('msepy', locals())
        if d['kind'] == 'step':
            kw = dict(x1=1, x2=1, y1=1, y2=1)
            if n == 3:
                kw.update(z=1, periodic=d['per'])
            impl.config(obj['manifold'])('backward_step', **kw)
        elif d['kind'] == 'multi':
            impl.config(obj['manifold'])('crazy_multi', c=0, Ns=list(d['ns']), periodic=per, bounds=[[0, x] for x in d['ns']])
        else:
            impl.config(obj['manifold'])('crazy', c=0, periodic=per, bounds=[[0, 1]] * n)
        ms = impl.base['manifolds']
        ga, gb = ms[r'\Gamma_{\alpha}'], ms[r'\Gamma_{\beta}']
        if free:
            if d['kind'] == 'step':      # give the other section nothing
                impl.config(gb)(obj['manifold'], {i: [0] * (2 * n) for i in range(len(d['cover']))})
            else:
                impl.config(gb)(obj['manifold'], {i: [0] * (2 * n) for i in range(len(d['cover']))})
        else:
            impl.config(ga)(obj['manifold'], {i: list(c) for i, c in enumerate(d['cover']) if sum(c) or i % 2})
        lay = {i: [one(x) for x in r] for i, r in enumerate(e['layouts'])}
        impl.config(obj['mesh'])(lay[0] if len(lay) == 1 and d['kind'] == 'box' else lay)
        ts.specify('constant', [d['t0'], d['t0'] + 8 / d['q'], 16], 2)
        self.time = lambda k: d['t0'] + k / d['q']
        self.a, self.b = obj['a'], obj['b']
        self.mesh, self.impl = obj['mesh'], impl
        vec = ph.vc.vector(*[load(c, n) for c in d['ess'][:n]])
        self.b.cf = vec
        zero = load([0, 0, 0, 0], n)
        self.a.cf = ph.vc.scalar(zero)
        ls = obj['ls'].apply()
        ls.bc.config(ga)(ph.vc.scalar(zero if free else load(d['nat'], n)))
        ls.bc.config(gb)(self.b.cf if d['via'] == 'cf' else vec)
        self.ls = ls
        self.free = free

    def about(self):
        n = self.n
        lo, up = [np.array([-1.])] * n, [np.array([1.])] * n
        boxes = []
        for e in range(len(self.mesh.elements)):
            ct = self.mesh.elements[e].ct
            x, y = np.array(ct.mapping(*lo)).ravel() * W, np.array(ct.mapping(*up)).ravel() * W
            boxes.append([[near(u), near(v)] for u, v in zip(x, y)])
        gm = self.b.cochain.gathering_matrix
        ln = self.b.space.local_numbering(self.b.degree)
        return {'ok': True, 'boxes': boxes, 'gm': [[int(v) for v in gm[i]] for i in range(len(gm))],
                'ln': [[int(v) for v in c.ravel('F')] for c in ln]}

    def system(self, e):
        for f, m in ((self.a, 3), (self.b, 5)):
            gm = f.cochain.gathering_matrix
            v = np.array([((g * 7 + e['data'] * 11) % m) - 1. for g in range(gm.num_dofs)])
            f[self.time(e['k'] - 1)].cochain = np.array([v[gm[i]] for i in range(len(gm))])
        s = self.ls(k=e['k'])
        als = s.assemble()
        A = als.A._M.toarray()
        rhs = np.array(als.b._v).ravel()
        res = {'solved': True, 'kept': True}
        if e['sol'] and not self.free:
            x = als.solve()[0]
            x = np.array(x).ravel()
            res['solved'] = bool(np.max(np.abs(A @ x - rhs)) < 1e-7 * (1 + np.max(np.abs(x))))
            s.x.update(x)
            n0 = self.a.cochain.gathering_matrix.num_dofs
            for f, v in ((self.a, x[:n0]), (self.b, x[n0:])):
                gm = f.cochain.gathering_matrix
                got = f[self.time(e['k'])].cochain.local
                res['kept'] &= all(np.allclose(got[i], v[gm[i]]) for i in range(len(gm)))
        return A, rhs, res


def both(free, real, d, n0):
    (A0, b0, _), (A, b, res) = free, real
    sc = 4 * W * W * d['q']
    rows = []
    eye = np.eye(len(b))
    for g in range(n0, len(b)):
        kind = 'same' if np.allclose(A[g], A0[g], atol=1e-11) else 'unit' if np.array_equal(A[g], eye[g]) else 'other'
        rows.append([kind, near(b[g] * sc) if kind == 'unit' else 0, near((b[g] - b0[g]) * 4 * W * d['q']) if kind == 'same' else 0])
        for i in (1, 2):
            if isinstance(rows[-1][i], str):
                rows[-1][0], rows[-1][i] = 'not what exact arithmetic gives', 0
    others = bool(np.allclose(A[:n0], A0[:n0], atol=1e-11) and np.allclose(b[:n0], b0[:n0], atol=1e-11))
    return dict(res, ok=True, rows=rows, others=others)


out = []
for evs in P['traces']:
    res = []
    groups = []
    for e in evs:
        if e['op'] == 'config':
            groups.append([])
        groups[-1].append(dict(e))
    stop = False
    for g in groups:
        if stop:
            break
        try:
            w = None
            gc.collect()
            w = World(g[0], True)
            free = [w.system(e) for e in g[1:]]
            w = None
            gc.collect()
            w = World(g[0], False)
            g[0]['obs'] = w.about()
        except Exception as ex:
            g[0]['obs'] = {'ok': False, 'why': (type(ex).__name__ + ': ' + str(ex))[:200]}
            res.append(g[0])
            break
        res.append(g[0])
        n0 = w.a.cochain.gathering_matrix.num_dofs
        for e, f in zip(g[1:], free):
            try:
                if e['free']:
                    gc.collect()
                e['obs'] = both(f, w.system(e), g[0]['dom'], n0)
            except Exception as ex:
                e['obs'] = {'ok': False, 'why': (type(ex).__name__ + ': ' + str(ex))[:200]}
            res.append(e)
    out.append({'ev': res})
ph_env.store({'traces': out})
