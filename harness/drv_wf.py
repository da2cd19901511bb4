# -*- coding: utf-8 -*-
"""Test generated PDEs and derive / discretize their weak formulations; record every result."""
import json
import random

import ph_env
import phyem as ph

P = ph_env.load()
C = P['conf']
rnd = random.Random(P['seed'])
ROOTNAME = {}
SEP = (r'\{', r'\}')


def strip(s):
    """Form.replace substitutes text: the separators of composite forms are not significant here"""
    return s.replace(SEP[0], '').replace(SEP[1], '')


class World:
    def __init__(self, no):
        ph.config.set_embedding_space_dim(C['n'])
        man = ph.manifold(C['n'], periodic=C['per'])
        self.mesh = ph.mesh(man)
        self.ts = ph.time_sequence()
        self.root, self.space = {}, {}
        for name, (k, o) in C['roots'].items():
            sp = ph.space.new('Lambda', k, orientation=rnd.choice([o, o[0]]))
            self.root[name] = sp.make_form(name, ROOTNAME[name] if name in ROOTNAME else 'root-%s' % name)
        self.c, self.e = ph.constant_scalar('c', 'factor-c'), ph.constant_scalar('e', 'factor-e')
        self.half = 0.5
        self.forms, self.dts, self.dec, self.fac = {}, {}, {}, {}
        self.bad = set()
        self.test = None
        self.keep = []
        self.wfs, self.digests = [], []
        cs = ph.constant_scalar
        self.fac = {cs(1)._lin_repr: '1', self.c._lin_repr: 'c', self.e._lin_repr: 'e', cs(0.5)._lin_repr: '1/2'}
        self.facobj = {'1': 1, 'c': self.c, 'e': self.e, '1/2': 0.5}

    def dt(self, ks, ke):
        if (ks, ke) not in self.dts:
            self.dts[(ks, ke)] = self.ts.make_time_interval(ks, ke)
        return self.dts[(ks, ke)]

    def factor(self, name):
        if name == 'dt' and 'dt' not in self.facobj:
            self.facobj['dt'] = 1 / self.dt('k-1', 'k')
            self.fac[self.facobj['dt']._lin_repr] = 'dt'
        return self.facobj[name]

    def form(self, e):
        key = json.dumps(e)
        if key in self.forms:
            return self.forms[key]
        op = e[0]
        if op == 'r':
            f = self.root[e[1]]
        elif op == 't':
            f = self.test[int(e[1]) - 1]
        elif op == 'd':
            f = rnd.choice([ph.d, lambda x: x.exterior_derivative()])(self.form(e[1]))
        elif op == 'cd':
            f = rnd.choice([ph.codifferential, lambda x: x.codifferential()])(self.form(e[1]))
        elif op == 'hs':
            f = ph.Hodge(self.form(e[1]))
        elif op == 'tr':
            f = ph.trace(self.form(e[1]))
        elif op == 'pt':
            f = rnd.choice([ph.time_derivative, lambda x: x.time_derivative()])(self.form(e[1]))
        elif op == 'x':
            f = self.form(e[1]).cross_product(self.form(e[2]))
        elif op == 'mul':
            f = self.factor(e[1]) * self.form(e[2])
        elif op == 'plus':
            f = self.form(e[1]) + self.form(e[2])
        elif op == 'minus':
            f = self.form(e[1]) - self.form(e[2])
        elif op == 'at':
            f = self.form(e[1]) @ self.ts[e[2]]
        elif op == 'sdiv':
            f = self.form(e[1]) / int(e[2])
        elif op == 'ddt':
            f = self.form(e[1]) / self.dt(*e[2].split(','))
        else:
            raise SystemExit(e)
        self.forms[key] = f
        s = strip(f._lin_repr)
        if s in self.dec and self.dec[s] != e:
            self.bad.add(s)
        self.dec[s] = e
        return f

    def learn(self, e):
        try:
            self.form(e)
        except (AssertionError, NotImplementedError, Exception):  # noqa
            pass

    def expr(self, f):
        s = strip(f._lin_repr)
        if s in self.bad:
            return ['ambiguous ' + s]
        return self.dec.get(s, ['unknown ' + s])

    def term(self, t):
        c = {'L2InnerProductTerm': 'ip', 'DualityPairingTerm': 'dp'}[t.__class__.__name__]
        return dict(c=c, f0=self.expr(t._f0), f1=self.expr(t._f1),
                    fac=self.fac.get(t._factor._lin_repr, t._factor._lin_repr))

    def decode(self, wf):
        out = []
        for i in range(len(wf)):
            out.append({side: [[wf._sign_dict[i][j][m], self.term(t)] for m, t in enumerate(wf._term_dict[i][j])]
                        for j, side in enumerate('lr')})
        return out

    @staticmethod
    def digest(wf):
        return repr([[[(s, id(t), t._lin_repr) for s, t in zip(wf._sign_dict[i][j], wf._term_dict[i][j])]
                      for j in range(2)] for i in range(len(wf))]) + repr(sorted(wf)) + \
            repr(None if wf.unknowns is None else [id(u) for u in wf.unknowns])


def index_ok(wf):
    for i in range(len(wf)):
        k = 0
        for j in range(2):
            for s, t in zip(wf._sign_dict[i][j], wf._term_dict[i][j]):
                x = wf['%d-%d' % (i, k)]
                if x[0] != s or x[1] is not t or '%d-%d' % (i, k) not in wf:
                    return False
                k += 1
        if '%d-%d' % (i, k) in wf:
            return False
    return len(list(wf)) == sum(len(x) for i in range(len(wf)) for x in wf._term_dict[i])


def bare(e):
    return e if isinstance(e, str) else bare(e[2]) if e[0] == 'mul' else [bare(x) for x in e]


def pde_of(w, p):
    if rnd.random() < .7:     # forms that exist already must not matter
        for eq in p:
            for side in 'lr':
                for _, e in eq[side]:
                    w.learn(bare(e))
    expression, interpreter, n = [], {}, 0
    for eq in p:
        sides = []
        for side in 'lr':
            s = ''
            for sg, e in eq[side]:
                n += 1
                name = 'v%d' % n if rnd.random() < .5 else 'x%dy' % n
                interpreter[name] = w.form(e)
                s += (' ' if s else '') + ('' if (sg == '+' and not s) else sg + ('' if rnd.random() < .5 else ' ')) + name
            sides.append(s or '0')
        expression.append(rnd.choice([' = ', '=']).join(sides))
    return ph.pde(expression, interpreter)


def lone(cur, letters):
    return letters


def fmt(c, abc, p, side):
    a = [abc[j - 1] for j in p]
    x = a[1] + rnd.choice(['x', ' x ']) + a[2]
    br = '<|>' if c == 'dp' else '(,)'
    sp = rnd.choice(['', ' '])
    return br[0] + (a[0] + sp + br[1] + sp + x if side == 'r' else x + sp + br[1] + sp + a[0]) + br[2]


def do(w, o, wf, e):
    D = wf.derive
    op = o['op']
    if op == 'rearr':
        s = ','.join(map(str, o['l'])) + rnd.choice(['=', ' = ']) + ', '.join(map(str, o['r']))
        if o['l'] and not o['r'] and rnd.random() < .5:
            s = ', '.join(map(str, o['l']))
        arg = {o['q'] - 1: s}
        if 0 < o['q'] <= len(wf) and rnd.random() < .3:
            arg = [None] * len(wf)
            arg[o['q'] - 1] = s
        return D.rearrange(arg)
    if op == 'switch':
        rows = [x - 1 for x in o['rows']]
        return D.switch_sign(rows[0] if len(rows) == 1 and rnd.random() < .5 else rows)
    if op == 'td':
        td = wf.td
        td.set_time_sequence(w.ts)
        td.define_abstract_time_instants('k-1', 'k-1/2', 'k')
        for i in o['ins']:
            ix = '%d-%d' % (i['q'] - 1, i['k'])
            if i['kind'] == 'diff':
                td.differentiate(ix, *i['inst'])
            elif rnd.random() < .5:
                td.average(ix, w.root[i['f']], i['inst'])
            else:
                td.average(ix, w.root[i['f']], *i['inst'])
        return td()
    ix = '%d-%d' % (o['q'] - 1, o['k'])
    if op == 'delete':
        return D.delete(ix)
    if op == 'replace':
        terms = [ph.inner(w.form(t['f0']), w.form(t['f1']), factor=w.factor(t['fac'])) for _, t in o['new']]
        signs = [s for s, _ in o['new']]
        if len(terms) == 1 and rnd.random() < .5:
            return D.replace(ix, terms[0], signs[0])
        return D.replace(ix, terms, signs)
    if op == 'split':
        kw = {} if all(f == '1' for f in o['facs']) and rnd.random() < .5 else {'factors': [w.factor(f) for f in o['facs']]}
        return D.split(ix, o['f'], [w.form(f) for f in o['into']], o['signs'], **kw)
    if op == 'ibp':
        return D.integration_by_parts(ix, drop_bi_term=True) if o['drop'] else D.integration_by_parts(ix)
    if op == 'dual':
        return D.switch_to_duality_pairing(ix)
    if op == 'comm':
        t = wf[ix][1]
        c = {'L2InnerProductTerm': 'ip', 'DualityPairingTerm': 'dp'}[t.__class__.__name__]
        abc = rnd.choice(['ABC', 'BCA', 'QRS'])
        return D.commutation_wrt_inner_and_x(ix, fmt(c, abc, [1, 2, 3], o['cur']), fmt(c, abc, o['p'], o['side']))
    raise SystemExit(op)


def should(w, o, src):
    """does the cross product a commutation leads to exist, and does it pair with the remaining form?"""
    try:
        sides = src[o['q'] - 1]
        t = (sides['l'] + sides['r'])[o['k']][1]
        cr, ln = (t['f0'], t['f1']) if o['cur'] == 'l' else (t['f1'], t['f0'])
        abc = [ln, cr[1], cr[2]]
        y, a, b = [w.form(abc[j - 1]) for j in o['p']]
        z = a.cross_product(b)
        if t['c'] == 'ip':
            return y.space is z.space
        return y.space.k + z.space.k == y.mesh.ndim and y.mesh == z.mesh
    except Exception:  # noqa
        return False


def learn_wf(w, post):
    if isinstance(post, list):
        for eq in post:
            for side in 'lr':
                for _, t in eq[side]:
                    w.learn(t['f0'])
                    w.learn(t['f1'])
                    if t['fac'] == 'dt':
                        w.factor('dt')


def main():
    out = []
    for no, tr in enumerate(P['traces']):
        w = World(no)
        ev = []
        dec = []
        for o in tr:
            e = {k: v for k, v in o.items() if k != 'post'}
            e.update(res='ok', why='', wf=[], changed=0, unk='same', bc=True, test=True, index=True, should=True)
            new = None
            try:
                if o['op'] == 'pde':
                    pde = pde_of(w, o['pde'])
                    pde.unknowns = [w.root[x] for x in C['unk']]
                    if not C['per']:
                        pde.bc.partition(r'\Gamma_1', r'\Gamma_2')
                    w.spaces = [ph.space.new('Lambda', k, orientation=ori) for k, ori in C['tests']]
                    new = pde.test_with(w.spaces, sym_repr=[r'\tau_%d' % j for j in range(len(w.spaces))])
                    w.test = list(new._test_forms)
                    w.pde, w.bc = pde, pde._bc
                    for j in range(len(w.test)):
                        w.form(['t', str(j + 1)])
                    e['test'] = [t.space is s for t, s in zip(w.test, w.spaces)] == [True] * len(w.spaces)
                    src = pde
                    for eq in o['pde']:
                        for side in 'lr':
                            for _, f in eq[side]:
                                w.learn(f[2] if f[0] == 'mul' else f)
                else:
                    src = w.wfs[o['src'] - 1]
                    if src is None:
                        raise NotImplementedError('source refused')
                    if o['op'] == 'comm':
                        e['should'] = should(w, o, dec[o['src'] - 1])
                    learn_wf(w, o.get('post'))
                    new = do(w, o, src, e)
                e['wf'] = w.decode(new)
                if o['op'] == 'td':
                    e['unk'] = 'same' if new.unknowns is None else 'set'
                    if new.unknowns is None and rnd.random() < .5:
                        pass
                else:
                    e['unk'] = 'same' if (new.unknowns is None and src.unknowns is None) or (
                        len(new.unknowns) == len(src.unknowns) and all(a is b for a, b in zip(new.unknowns, src.unknowns))) else 'other'
                e['bc'] = new._bc is w.bc
                e['test'] = e['test'] and len(new._test_forms) == len(w.test) and all(a is b for a, b in zip(new._test_forms, w.test))
                e['index'] = index_ok(new)
            except Exception as ex:  # noqa
                e['res'] = 'refused'
                e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:120])
                new = None
            e['changed'] = sum(1 for a, b in zip(w.wfs, w.digests) if a is not None and w.digest(a) != b)
            w.wfs.append(new)
            w.digests.append(None if new is None else w.digest(new))
            dec.append(e['wf'])
            ev.append(e)
        out.append({'ev': ev})
    ph_env.store({'traces': out})


if __name__ == '__main__':
    main()
