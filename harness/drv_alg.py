# -*- coding: utf-8 -*-
"""Reduce generated formulations and assemble their linear systems; record every block."""
import drv_wf as D
import ph_env
import phyem as ph

P, C, rnd = D.P, D.C, D.rnd
names = sorted(C['roots'])
D.ROOTNAME.update({n: 'z' * (j + 1) for j, n in enumerate(names)})    # names that are prefixes of one another
SECTION = {'1': r'\Gamma_1', '2': r'\Gamma_2'}


class Coder:
    def __init__(self, w, degree):
        self.w, self.degree = w, degree
        self.space, self.form, self.ok = {}, {}, True
        for n, (k, o) in C['roots'].items():
            self.space[w.root[n].space._pure_lin_repr] = [k, o]
        for k in range(C['n'] + 1):
            for o in ('inner', 'outer'):
                self.space[ph.space.new('Lambda', k, orientation=o)._pure_lin_repr] = [k, o]
        for n in names:
            self.form[w.root[n]._pure_lin_repr] = ['r', n]
            for t in ('k-1', 'k-1/2', 'k'):
                self.form[(w.root[n] @ w.ts[t])._pure_lin_repr] = ['at', ['r', n], t]
        for j, t in enumerate(w.test):
            self.form[t._pure_lin_repr] = ['t', str(j + 1)]

    def vec(self, c):
        s = c._lin_repr
        s = s[len(r'\textbf{'):-1]
        return self.form.get(s[:-4], ['unknown', s]) if s.endswith('+vec') else ['unknown', s]

    def deg(self, *ds):
        for d in ds:
            if d != 'int>D<%d' % self.degree:
                self.ok = False

    def mat(self, c, trans):
        x = c._lin_repr[len(r'\textbf{'):-1].split(' ->- ')
        if x[0] == 'Mass:Mat':
            self.deg(*x[2:])
            return ['M', self.space[x[1]]]
        if x[0] in ('d:Mat', 'd:T:Mat'):
            self.deg(*x[2:])
            return ['ET' if (x[0] == 'd:T:Mat') != bool(trans) else 'E', self.space[x[1]]]
        if x[0] == 'Wedge:Mat' and not trans:
            self.deg(*x[3:])
            return ['W', self.space[x[1]], self.space[x[2]]]
        if x[0] == 'BoundaryDP:Vec' and not trans:
            return ['B', self.form[x[1][len('trStar['):-1]]] + ([] if self.form[x[2][len('tr['):-1]][0] == 't' else ['odd'])
        return ['unknown', ' '.join(x)]

    def entry(self, a, sign, vec):
        cs, ts = list(a._components), list(a._transposes)
        fac = self.w.fac.get(a._factor._lin_repr, a._factor._lin_repr)
        if vec and not cs[-1]._lin_repr.startswith(r'\textbf{BoundaryDP'):
            v = self.vec(cs[-1]) if not ts[-1] else ['transposed']
            cs, ts = cs[:-1], ts[:-1]
        else:
            v = ['none']
        ch = [self.mat(c, t) for c, t in zip(cs, ts)]
        return [sign, fac, ch] + ([v] if vec else [])

    def system(self, mls):
        ls = mls._ls
        n = ls.b_shape[0]
        A = [[[self.entry(a, s, False) for a, s in zip(*ls.A(i, j))] for j in range(n)] for i in range(n)]
        b = [[self.entry(a, s, True) for a, s in zip(*ls.b(i))] for i in range(n)]
        x = [self.vec(ls.x(j)[0][0]) for j in range(n)]
        return A, b, x


def index_ok(mp, mls):
    """'a-b' and 'a-b,c' give the terms of the blocks"""
    ls = mls._ls
    n = ls.b_shape[0]
    for i in range(n):
        if [id(t) for t in mp['0-%d' % i][0]] != [id(t) for t in ls.x(i)[0]]:
            return False
        for j in range(n):
            if [id(t) for t in mp['0-%d,%d' % (i, j)][0]] != [id(t) for t in ls.A(i, j)[0]] or mp['0-%d,%d' % (i, j)][1] != ls.A(i, j)[1]:
                return False
    return True


def bcs(coder, mls, tags):
    out, ok = [], True
    if mls.bc is None:
        return out, ok
    for sec in mls.bc:
        for o in mls.bc[sec]:
            kind = {'_EssentialBoundaryCondition': 'essential', '_NaturalBoundaryCondition': 'natural', '_ManualBoundaryCondition': 'manual'}[o.__class__.__name__]
            i = getattr(o, 'i', 0) if kind != 'manual' else 0
            if kind == 'natural':
                arr = mls._ls.b(o.i)[0][o.j]
                tok = coder.mat(arr._components[0], False)
                raw = tags[id(o._raw_bc_form)]
                ok = ok and tok[0] == 'B' and D.json.dumps(tok).count('"%s"' % raw[1]) == 1
                ok = ok and coder.form.get(o._provided_root_form._pure_lin_repr) == tok[1]
            if kind == 'essential':
                ok = ok and coder.form.get(o._provided_root_form._pure_lin_repr) == coder.vec(mls._ls.x(o.i)[0][0])
            out.append([{v: k for k, v in SECTION.items()}[sec], kind, i])
    return out, ok


def start(no, tr):
    """The world, the formulation the derivations of `tr` give, the tags of the boundary conditions"""
    w = D.World(no)
    new, tags = None, {}
    for o in tr[1:-1]:
        if o['op'] == 'pde':
            pde = D.pde_of(w, o['pde'])
            pde.unknowns = [w.root[x] for x in C['unk']]
            if not C['per']:
                pde.bc.partition(*SECTION.values())
                for sec, raw in tr[0]['bc']:
                    f = w.root[raw[1]]
                    f = ph.trace(f) if raw[0] == 'tr' else ph.trace(ph.Hodge(f))
                    tags[id(f)] = raw
                    w.keep.append(f)
                    pde.bc.define_bc({SECTION[sec]: f})
            w.spaces = [ph.space.new('Lambda', k, orientation=ori) for k, ori in C['tests']]
            new = pde.test_with(w.spaces, sym_repr=[r'\tau_%d' % j for j in range(len(w.spaces))])
            w.test = list(new._test_forms)
            for j in range(len(w.test)):
                w.form(['t', str(j + 1)])
            for eq in o['pde']:
                for side in 'lr':
                    for _, f in eq[side]:
                        w.learn(f[2] if f[0] == 'mul' else f)
        else:
            D.learn_wf(w, o.get('post'))
            new = D.do(w, o, new, {})
    return w, new, tags


def main():
    out = []
    for no, tr in enumerate(P['traces']):
        degree = rnd.choice([1, 2, 3])
        e = dict(res='ok', why='', A=[], b=[], x=[], bc=[], bcok=True, index=True, deg=True, again=True, wf=[], td=False, bcs=tr[0]['bc'])
        try:
            w, new, tags = start(no, tr)
            e['wf'] = w.decode(new)
        except Exception as ex:  # noqa
            e['res'], e['why'] = 'not reached', '%s: %s' % (type(ex).__name__, str(ex)[:160])
            out.append({'ev': [e], 'reached': False})
            continue
        fin = tr[-1]
        e['td'] = fin['td']
        try:
            ph.space.finite(degree)
            if new.unknowns is None:
                new.unknowns = [w.root[x] @ w.ts['k'] for x in C['unk']]
            mp = new.mp()
            mls = mp.ls()
            coder = Coder(w, degree)
            e['A'], e['b'], e['x'] = coder.system(mls)
            e['bc'], e['bcok'] = bcs(coder, mls, tags)
            e['index'] = index_ok(mp, mls)
            e['deg'] = coder.ok
            e['again'] = coder.system(mp.ls()) == (e['A'], e['b'], e['x']) and coder.system(new.mp().ls()) == (e['A'], e['b'], e['x'])
        except Exception as ex:  # noqa
            e['res'] = 'refused'
            e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:160])
        out.append(dict(e, ev=[{k: e[k] for k in ('res', 'why', 'wf', 'A', 'b', 'bc', 'bcs', 'td')}], reached=True))
    ph_env.store({'traces': out})


if __name__ == '__main__':
    main()
