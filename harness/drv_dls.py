# -*- coding: utf-8 -*-
"""Implement the linear systems of generated formulations; call, assemble and record them at time steps."""
import gc

import numpy as np
import ph_env
import phyem as ph
import drv_alg as A
import drv_wf as D
from phyem.msepy.main import base
from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
from phyem.msehtt.tools.matrix.static.local import MseHttStaticLocalMatrix

P, C, rnd = D.P, D.C, D.rnd
n = C['n']


def scalar(c):
    if n == 2:
        return lambda t, x, y: c[0] + c[1] * t + c[2] * x + c[3] * y
    return lambda t, x, y, z: c[0] + c[1] * t + c[2] * x + c[3] * y - c[2] * z


def vc(k, salt):
    r = np.random.RandomState(salt)
    f = [scalar([int(v) for v in r.randint(-3, 4, 4)]) for _ in range(n)]
    return ph.vc.scalar(f[0]) if k in (0, n) else ph.vc.vector(*f)


def dense(data, gm0, gm1):
    m = MsePyStaticLocalMatrix(data, gm0, gm1)
    return [m[e].toarray() for e in range(len(gm0))]


class System:
    def __init__(self, w, new, tags, bcs, fin, salt):
        pl = fin['pl']
        self.w, self.pl, self.td, self.bcs, self.salt = w, pl, fin['td'], bcs, salt
        w.c.value, w.e.value = pl['c'], pl['e']
        ph.space.finite(pl['deg'])
        self.p = pl['deg']
        if new.unknowns is None:
            new.unknowns = [w.root[x] @ w.ts['k'] for x in C['unk']]
        self.mls = new.mp().ls()
        self.names = dict(manifold=w.mesh.manifold, mesh=w.mesh, ls=self.mls, **{'f_' + x: f for x, f in w.root.items()})
        obj = self.implement(pl)
        self.form = {x: obj['f_' + x] for x in w.root}
        q = pl['q']
        w.ts.specify('constant', [pl['t0'], pl['t0'] + 8 / q, 16], 2)
        ls = obj['ls'].apply()
        ids = {v[0] + v[1]: k for k, v in tags.items()}
        raw = {id(f): f for f in w.keep}
        if ls.bc is not None:
            for sec, (kind, x) in bcs:
                if kind == 'tr' and x not in C['unk'] or kind == 'trhs' and sec not in self.natural(x, fin):
                    continue
                k = C['roots'][x][0]
                self.condition(ls, sec, kind, x, raw[ids[kind + x]], vc(k, self.field(kind, x, sec)))
        self.ls = ls
        self.sp = {}
        self.tests = [self.base['forms'][t._pure_lin_repr] for t in w.test]
        self.mem = {}
        self.uses = 0

    def implement(self, pl):
        impl, obj = ph.fem.apply('msepy', self.names)
        self.base = base
        impl.config(obj['manifold'])('crazy', c=0.1 if pl['warp'] else 0., bounds=[[0, 1]] * n, periodic=C['per'])
        self.gamma = {}
        if not C['per']:
            self.gamma = {s: impl.base['manifolds'][r] for s, r in A.SECTION.items()}
            impl.config(self.gamma['1'])(obj['manifold'], {0: list(pl['cover'])})
        impl.config(obj['mesh'])(list(pl['lay']))
        self.elements = range(len(obj['mesh'].elements))
        return obj

    def condition(self, ls, sec, kind, x, raw, f):
        ls.bc.config(self.gamma[sec], form=raw)(f)

    def natural(self, x, fin):
        return [s for s, (kind, y) in self.bcs if kind == 'trhs' and y == x
                and any(not m[1] and m[2] == x for row in fin['calls'][0]['exp']['b'] for m in row)]

    def field(self, kind, x, sec):
        """conditions on forms whose degrees of freedom sections share must agree"""
        k = C['roots'][x][0]
        return self.salt + 7 * sorted(C['roots']).index(x) + (100 if kind == 'tr' else 200) + (int(sec) if k == n - 1 or kind == 'trhs' else 0)

    def time(self, t2):
        return t2 / (2 * self.pl['q'])

    def space(self, s):
        if tuple(s) not in self.sp:
            self.sp[tuple(s)] = next(x for x in self.base['spaces'].values() if (x.abstract.k, x.abstract.orientation) == tuple(s))
        return self.sp[tuple(s)]

    def local(self, m, s, g):
        if m[0] == 'M':
            return dense(s.mass_matrix(self.p), g, g)
        if m[0] == 'W':
            return dense(s.wedge_matrix(self.space(m[2]), self.p, self.p), g, self.space(m[2]).gathering_matrix(self.p))
        return dense(s.incidence_matrix(self.p), s.gathering_matrix._next(self.p), g)

    def mat(self, m):
        key = str(m)
        if key not in self.mem:
            s = self.space(m[1])
            r = self.local(m, s, s.gathering_matrix(self.p))
            self.mem[key] = {e: x.T if m[0] == 'ET' else x for e, x in zip(self.elements, r)}
        return self.mem[key]

    def chain(self, ms, e):
        r = self.mat(ms[0])[e]
        for m in ms[1:]:
            r = r @ self.mat(m)[e]
        return r

    def set(self, call):
        """integer degrees of freedom for every form at the instants of the step, other ones in every call"""
        mid = 2 * self.pl['q'] * self.pl['t0'] + 2 * call['k']
        for i, (x, f) in enumerate(sorted(self.form.items())):
            gm = f.cochain.gathering_matrix
            for t2 in (mid - 2, mid - 1, mid):
                if t2 == mid and call['solve'] and x in C['unk']:
                    continue
                v = np.array([((g * 7 + call['dat'] * 11 + i * 3 + t2 % 4 * 5) % 9) - 4. for g in range(self.num(gm))])
                self.put(f, self.time(t2), {e: v[gm[e]] for e in self.elements})

    def num(self, gm):
        return gm.num_dofs

    def put(self, f, t, v):
        f[t].cochain = np.array([v[e] for e in self.elements])

    def get(self, f, t):
        return f[t].cochain.local

    def load(self, f, t, c, sec):
        loc = f.boundary_integrate.with_vc_over_boundary_section(t, c, self.section(sec))
        return {e: np.array(loc[e]).ravel() for e in self.elements}

    def on(self, f, sec):
        faces = self.section(sec).faces
        return [(faces[i]._element, d) for i in faces for d in faces[i].find_corresponding_local_dofs_of(f)]

    def reduced(self, f, t, c):
        return f.reduce(t, update_cochain=False, target=c)

    def assembled(self, s):
        als = s.assemble()
        return als.A._M.toarray(), np.array(als.b._v).ravel()

    def expected(self, exp):
        rows = [t.cochain.gathering_matrix for t in self.tests]
        cols = [self.form[x].cochain.gathering_matrix for x, _ in exp['x']]
        Ab = [[np.zeros((self.num(r), self.num(c))) for c in cols] for r in rows]
        bb = [np.zeros(self.num(r)) for r in rows]
        for q, row in enumerate(exp['A']):
            for j, ts in enumerate(row):
                for co, ms in ts:
                    for e in self.elements:
                        np.add.at(Ab[q][j], np.ix_(np.array(rows[q][e]), np.array(cols[j][e])), co / 2 * self.chain(ms, e))
        for q, ts in enumerate(exp['b']):
            for co, ms, x, t2 in ts:
                t = self.time(t2)
                if ms:
                    for e in self.elements:
                        np.add.at(bb[q], np.array(rows[q][e]), co / 2 * self.chain(ms, e) @ np.array(self.get(self.form[x], t)[e]))
                else:
                    for sec, (kind, y) in self.bcs:
                        if kind == 'trhs' and y == x:
                            loc = self.load(self.tests[q], t, vc(C['roots'][x][0], self.field(kind, x, sec)), sec)
                            for e in self.elements:
                                if e in loc:
                                    np.add.at(bb[q], np.array(rows[q][e]), co / 2 * loc[e])
        fixed = {}
        for sec, (kind, x) in self.bcs:
            if kind == 'tr' and x in C['unk']:
                j = C['unk'].index(x)
                f = self.form[x]
                t = self.time(exp['x'][j][1])
                loc = self.reduced(f, t, vc(C['roots'][x][0], self.field(kind, x, sec)))
                for e, d in self.on(f, sec):
                    g = int(cols[j][e][d])
                    fixed[j, g] = True
                    bb[j][g] = loc[e][d]
        for j, g in fixed:
            for m in range(len(cols)):
                Ab[j][m][g] = 0
            Ab[j][j][g, g] = 1
        return Ab, bb, [self.num(r) for r in rows], [self.num(c) for c in cols], len(fixed)

    def places(self, g, gms):
        """where the dofs of every block are in the system"""
        out = [np.full(self.num(x), -1) for x in gms]
        for e in self.elements:
            row, o = np.array(g[e]), 0
            for x, to in zip(gms, out):
                m = np.array(x[e])
                to[m] = row[o:o + len(m)]
                o += len(m)
        return out

    def section(self, sec):
        return next(m for m in self.base['meshes'].values() if m.manifold is self.gamma[sec])

    def run(self, call):
        self.set(call)
        k = call['k']
        s = self.ls(k=k) if self.td else self.ls(self.time(call['exp']['x'][0][1]))
        Ab, bb, nr, nc, fixed = self.expected(call['exp'])
        M, v = self.assembled(s)
        ev = dict(op='call', k=k, shape=M.shape == (sum(nr), sum(nc)), A=[], b=[], x=True, fixed=fixed)
        if not ev['shape']:
            return ev
        R, K = [t.cochain.gathering_matrix for t in self.tests], [self.form[x].cochain.gathering_matrix for x, _ in call['exp']['x']]
        ri, ci = (self.places(g, gms) for g, gms in zip(s.global_gathering_matrices, (R, K)))
        ev['shape'] = sorted(int(i) for r in ri for i in r) == list(range(len(v))) == sorted(int(i) for r in ci for i in r)
        if not ev['shape']:
            return ev

        def same(a, b):
            return bool(np.allclose(a, b, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(b), initial=0))))
        ev['A'] = [[same(M[np.ix_(ri[q], ci[j])], Ab[q][j]) for j in range(len(nc))] for q in range(len(nr))]
        ev['b'] = [same(v[ri[q]], bb[q]) for q in range(len(nr))]
        if call['solve']:
            sol = np.arange(float(sum(nc))) + k
            s.x.update(sol)
            for j, (x, t2) in enumerate(call['exp']['x']):
                got = self.get(self.form[x], self.time(t2))
                ev['x'] = ev['x'] and all(np.array_equal(np.array(got[e]).ravel(), sol[ci[j]][K[j][e]]) for e in self.elements)
        return ev


class Htt(System):
    """the implementation on hybrid meshes"""
    def implement(self, pl):
        ph.config.set_auto_cleaning(False)
        impl, obj = ph.fem.apply('msehtt-s', self.names)
        self.base = impl.base
        impl.config('tgm')('crazy', element_layout=list(pl['lay']), c=0.1 if pl['warp'] else 0., bounds=[[0., 1.]] * n, periodic=C['per'])
        tgm = self.base['the_great_mesh']
        mesh = self.base['meshes'][self.w.mesh._sym_repr]
        impl.config(mesh)(tgm, including='all')
        self.elements = sorted(tgm.elements)
        self.gamma = {}
        if not C['per']:
            nv = [tuple((-1. if s % 2 == 0 else 1.) if i == s // 2 else 0. for i in range(n)) for s in range(2 * n) if pl['cover'][s]]
            for s, r in A.SECTION.items():
                self.gamma[s] = next(m for k, m in self.base['meshes'].items() if k.endswith(r) or r in k)
                inc = {'type': 'boundary_section', 'partial elements': mesh, ('' if s == '1' else 'except ') + 'ounv': nv}
                impl.config(self.gamma[s])(tgm, including=inc)
        return obj

    def condition(self, ls, sec, kind, x, raw, f):
        ls.config(['natural bc' if kind == 'trhs' else 'essential bc', 1], self.gamma[sec], f, root_form=self.form[x])

    def section(self, sec):
        return self.gamma[sec]

    def local(self, m, s, g):
        data, key = (s.mass_matrix if m[0] == 'M' else s.incidence_matrix)(self.p)
        M = MseHttStaticLocalMatrix(data, g if m[0] == 'M' else s.gathering_matrix._next(self.p), g, cache_key=key)
        return [M[e].toarray() if hasattr(M[e], 'toarray') else np.array(M[e]) for e in self.elements]

    def num(self, gm):
        return gm.num_global_dofs

    def put(self, f, t, v):
        f[t].cochain = v

    def get(self, f, t):
        return f[t].cochain

    def load(self, f, t, c, sec):
        return f.bi.with_vc_over_boundary_section(t, c, self.gamma[sec])

    def on(self, f, sec):
        return [(e, d) for e, ds in self.gamma[sec].find_dofs(f, local=True).items() for d in ds]

    def reduced(self, f, t, c):
        return f.reduce(c @ t)

    def assembled(self, s):
        self.uses += 1
        als = s.assemble()
        return als.A.M.toarray(), np.array(als.b.V).ravel()


def main():
    out = []
    for no, tr in enumerate(P['traces']):
        fin = tr[-1]
        ev = [dict(op='fem', res='ok', why='', wf=[], td=fin['td'], pl=fin['pl'], bcs=tr[0]['bc'])]
        s = None
        gc.collect()
        try:
            w, new, tags = A.start(no, tr)
            ev[0]['wf'] = w.decode(new)
        except Exception as ex:  # noqa
            ev[0]['res'], ev[0]['why'] = 'not reached', '%s: %s' % (type(ex).__name__, str(ex)[:160])
            out.append({'ev': ev, 'reached': False})
            continue
        try:
            s = (Htt if C.get('htt') else System)(w, new, tags, tr[0]['bc'], fin, 1000 * (no % 5))
        except Exception as ex:  # noqa
            ev[0]['res'], ev[0]['why'] = 'refused', '%s: %s' % (type(ex).__name__, str(ex)[:160])
        if s is not None:
            for call in fin['calls']:
                try:
                    ev.append(dict(s.run(call), res='ok', why='', exp=call['exp']))
                except Exception as ex:  # noqa
                    ev.append(dict(op='call', res='failed', why='%s: %s' % (type(ex).__name__, str(ex)[:160]), exp=call['exp'], k=call['k'],
                                   shape=True, A=[], b=[], x=True, fixed=0))
                    break
        out.append({'ev': ev, 'reached': True})
    ph_env.store({'traces': out})


if __name__ == '__main__':
    main()
