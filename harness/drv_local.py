# -*- coding: utf-8 -*-
"""Make local matrices, vectors and linear systems of msepy from given data, and look at them."""
import ph_env
import numpy as np
import phyem as ph  # noqa
from scipy.sparse import csr_matrix, csc_matrix
from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix as Mat, bmat
from phyem.msepy.tools.vector.static.local import MsePyStaticLocalVector as Vec, concatenate
from phyem.msepy.tools.gathering_matrix import RegularGatheringMatrix as Gm
from phyem.msepy.tools.linear_system.static.local.main import MsePyStaticLocalLinearSystem as Ls
from phyem.msepy.form.cochain.vector.static import MsePyRootFormStaticCochainVector as Xvec

P = ph_env.load()


class Form:
    """Receives what a linear system writes back."""

    def __init__(self):
        self.got = []

    def __getitem__(self, t):
        form = self

        class At:
            def __setattr__(self, name, value):
                form.got.append((t, name, np.array(value)))
        return At()


def ints(a):
    b = np.rint(a).astype(int)
    if a.size and not np.all(np.abs(a - b) < 1e-9):
        raise ValueError('not integers')
    return b.tolist()


class World:
    def __init__(self, gms):
        self.gms = [Gm(np.array(g)) for g in gms]
        self.chains = {}
        self.objs = []
        self.given = []
        self.big = {}
        self.buf = {}
        self.lss = {}

    def chain(self, ch):
        ch = tuple(ch)
        return self.gms[ch[0] - 1] if len(ch) == 1 else Gm([self.gms[i - 1] for i in ch])

    def dofs(self, e):
        ds = e['ds']
        if e['style'] == 'list':
            return [int(d) for d in ds]
        if e['style'] == 'array':
            return np.array(ds)
        b = self.buf.setdefault(len(ds), np.zeros(len(ds), dtype=int))
        b[:] = ds
        return b

    def keep(self, obj):
        self.objs.append(obj)

    def mat(self, e):
        r, c = self.gms[e['r'] - 1], self.gms[e['c'] - 1]
        sp = csr_matrix if e['fmt'] == 'csr' else csc_matrix
        if e['kind'] == 'zero':
            return Mat(0, r, c)
        ms = [sp(np.array(m, dtype=float)) for m in e['data']]
        for m in ms:
            self.given.append((m, m.toarray()))
        if e['kind'] == 'const':
            return Mat(ms[0], r, c)
        if e['kind'] == 'dict':
            return Mat(dict(enumerate(ms)), r, c)
        kinds = []
        for m in sorted(e['data']):
            if m not in kinds:
                kinds.append(m)
        keys = ['1' * (kinds.index(m) + 1) for m in e['data']]
        return Mat(lambda i: ms[i], r, c, cache_key=lambda i: keys[i])

    def vec(self, e):
        g = self.gms[e['r'] - 1]
        a = np.array(e['data'], dtype=float)
        if e['kind'] == 'homo':
            return Vec(float(a[0, 0]), g)
        if e['kind'] == 'shared':
            a = [x for x in self.given if isinstance(x[0], np.ndarray) and x[2] == e['of']][0][0]
        if e['kind'] in ('arr', 'shared'):
            self.given.append((a, a.copy(), e['at']))
            return Vec(a, g)
        self.given.append((a, a.copy(), 0))
        return Vec(lambda i: a[i], g)

    def ref(self, i):
        return self.objs[i - 1] if i else None

    def do(self, e):
        op = e['op']
        if op == 'mat':
            self.keep(self.mat(e))
        elif op == 'vec':
            self.keep(self.vec(e))
        elif op == 'T':
            self.keep(self.ref(e['i']).T)
        elif op in ('neg', 'vneg'):
            self.keep(-self.ref(e['i']))
        elif op in ('scale', 'vscale'):
            self.keep(e['v'] * self.ref(e['i']))
        elif op in ('add', 'vadd'):
            self.keep(self.ref(e['i']) + self.ref(e['j']))
        elif op == 'sub':
            self.keep(self.ref(e['i']) - self.ref(e['j']))
        elif op in ('mul', 'matvec'):
            self.keep(self.ref(e['i']) @ self.ref(e['j']))
        elif op == 'bmat':
            self.keep(bmat([[self.ref(i) for i in row] for row in e['bl']]))
        elif op == 'concat':
            gm = Gm([self.gms[i - 1] for i in e['ch']])
            self.keep(concatenate([self.ref(i) for i in e['bs']], gm))
        elif op == 'ls':
            A = [[self.ref(i) for i in row] for row in e['bl']]
            forms = [Form() for _ in A[0]]
            cols = [[row[j] for row in A if row[j] is not None][0]._gm1_col for j in range(len(A[0]))]
            x = [Xvec(f, 0.5, None, g) for f, g in zip(forms, cols)]
            ls = Ls(A, x, [self.ref(i) for i in e['bs']])
            self.lss[e['at']] = (ls, forms)
            self.keep(ls.A._mA)
            self.keep(ls.b._vb)
        elif op == 'idrow':
            self.ref(e['i']).customize.identify_row(e['d'])
        elif op == 'iddiag':
            self.ref(e['i']).customize.identify_diagonal(self.dofs(e))
        elif op == 'zero':
            self.ref(e['i']).customize.set_zero(self.dofs(e))
        elif op == 'setv':
            self.ref(e['i']).customize.set_values(e['rows'], e['cols'], e['vals'])
        elif op == 'setz':
            self.ref(e['i']).customize.set_values_and_zero_rest(e['rows'], e['cols'], e['vals'])
        elif op == 'clear':
            self.ref(e['i']).customize.clear()
        elif op == 'vset':
            self.ref(e['i']).customize.set_value(e['d'], e['v'])
        elif op == 'vsets':
            self.ref(e['i']).customize.set_values(self.dofs(e), e['vals'][0] if e['scalar'] else e['vals'])
        elif op == 'lsdof':
            self.lss[e['i']][0].customize.set_dof(e['d'], e['v'])
        elif op == 'lslocal':
            c = self.lss[e['i']][0].customize
            if e['how'] == 'lsij':
                c.set_local_dof_ij_of_unknown_k_to_value(e['e'], e['l'], e['u'], e['v'])
            else:
                c.set_local_dof(e['u'], e['e'], e['l'], e['v'])
        elif op == 'update':
            ls, forms = self.lss[e['i']]
            for f in forms:
                f.got = []
            ls.x.update(np.array(e['x'], dtype=float))
            for f in forms:
                assert len(f.got) == 1 and f.got[0][0] == 0.5 and f.got[0][1] == 'cochain', 'written back otherwise'
            return [ints(f.got[0][2]) for f in forms]
        elif op == 'read':
            o = self.ref(e['i'])
            if e['i'] in self.lss and e['fmt'] == 'csc':
                return ints(self.lss[e['i']][0].assemble().A._M.toarray())
            if e['i'] - 1 in self.lss and e['fmt'] == 'csc':
                return ints(self.lss[e['i'] - 1][0].assemble().b._v)
            if isinstance(o, Vec):
                return ints(o.assemble()._v)
            return ints(o.assemble(format=e['fmt'])._M.toarray())
        elif op == 'find':
            if e['g']:
                g = self.gms[e['g'] - 1]
            else:
                k = (e['ne'], e['nl'])
                if k not in self.big:
                    self.big[k] = Gm(np.arange(k[0] * k[1]).reshape(k))
                g = self.big[k]
            v = Vec(0, g)
            v.customize.set_values(self.dofs(e), 7)
            return sorted(int(i) for i in np.flatnonzero(v.assemble()._v))
        else:
            raise RuntimeError('unknown operation %s' % op)
        return None

    def mutated(self):
        for x in self.given:
            now = x[0] if isinstance(x[0], np.ndarray) else x[0].toarray()
            if not np.array_equal(now, x[1]):
                return True
        return False


def run(trace):
    out = []
    w = None
    ops = list(trace)
    n = None
    k = 0
    while k < len(ops):
        e = dict(ops[k])
        k += 1
        if e['op'] == 'setup':
            w = World(e['gms'])
            e.update(res='ok', mut=False, obs=[])
        else:
            try:
                obs = w.do(e)
                e.update(res='ok', obs=[] if obs is None else obs)
            except Exception as ex:
                e.update(res='refused', obs=[], why='%s: %s' % (ex.__class__.__name__, str(ex)[:120]))
                if e['op'] not in ('read', 'find', 'update'):
                    if e['op'] in ('idrow', 'iddiag', 'lsdof', 'lslocal'):
                        pass
                    else:       # the object the specification has was not made: the rest means nothing
                        out.append(e)
                        e['mut'] = False
                        return {'ev': out}
            e['mut'] = w.mutated()
        out.append(e)
        if k == len(ops) and n is None:         # at last look at every object
            n = len(w.objs)
            ops += [{'op': 'read', 'i': i + 1, 'fmt': 'csc'} for i in range(n)]
    return {'ev': out}


ph_env.store({'traces': [run(t) for t in P['traces']]})
