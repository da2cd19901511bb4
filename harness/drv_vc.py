# -*- coding: utf-8 -*-
"""Fields and their calculus."""
import random
import ph_env
import numpy as np
import phyem as ph
from phyem.tools.functions.time_space._1d.wrappers.scalar import T1dScalar
from phyem.tools.functions.time_space._2d.wrappers.scalar import T2dScalar
from phyem.tools.functions.time_space._2d.wrappers.vector import T2dVector
from phyem.tools.functions.time_space._3d.wrappers.scalar import T3dScalar
from phyem.tools.functions.time_space._3d.wrappers.vector import T3dVector

P = ph_env.load()
n = P['dim']
SCALAR = {1: T1dScalar, 2: T2dScalar, 3: T3dScalar}[n]
VECTOR = {2: T2dVector, 3: T3dVector}.get(n)
rnd = random.Random(P['seed'])


def fun(p):
    """the function of a polynomial [[c, [et, e1, ..]], ..]"""
    def g(t, *x):
        out = 0. * x[0] + 0. * t
        for c, m in p:
            term = float(c) * t ** m[0]
            for a, e in zip(x, m[1:]):
                term = term * a ** e
            out = out + term
        return out
    return {1: lambda t, x: g(t, x), 2: lambda t, x, y: g(t, x, y), 3: lambda t, x, y, z: g(t, x, y, z)}[n]


def der(p, v):
    return [[c * m[v], [_ - (i == v) for i, _ in enumerate(m)]] for c, m in p if m[v] > 0]


def new(e):
    given = {(c - 1, v - 1) for c, v in e['given']}
    fs = [fun(p) for p in e['comps']]

    def g(c, v):
        if (c, v) not in given:
            return None
        d = der(e['comps'][c], v)
        if not d and e['zero']:
            return 0
        return fun(d)
    kw = {}
    if e['steady']:
        kw['steady'] = True
    if e['rank'] == 2:
        return ph.vc.tensor(*fs)
    if n == 1:
        return SCALAR(fs[0], **kw)
    if not given and not kw and rnd.random() < 0.7:
        return ph.vc.scalar(fs[0]) if e['rank'] == 0 else ph.vc.vector(*fs)
    if e['rank'] == 0:
        if given:
            kw['derivative'] = [g(0, v) for v in range(n + 1)]
        if n == 2 and e['second']:
            kw['second_derivative'] = [fun(der(der(e['comps'][0], a), b)) for a, b in ((0, 0), (1, 1), (1, 2), (2, 1), (2, 2))]
        return SCALAR(fs[0], **kw)
    if any(v > 0 for _, v in given):
        kw['Jacobian_matrix'] = [[g(c, v + 1) for v in range(n)] for c in range(n)]
    if any(v == 0 for _, v in given):
        td = [g(c, 0) for c in range(n)]     # a number is not said to be accepted here
        kw['time_derivative'] = [fun([]) if isinstance(_, int) else _ for _ in td]
    return VECTOR(*fs, **kw)


def rank(o):
    s = tuple(o.shape)
    return 2 if len(s) == 2 else 0 if s == (1,) else 1


FORMS = {}


def forms():
    """all kinds of forms on a mesh, by library"""
    if not FORMS:
        for lib in ('msepy', 'msehtt'):
            ph.config.set_embedding_space_dim(n)
            man = ph.manifold(n)
            mesh = ph.mesh(man)
            ns = {'man': man, 'mesh': mesh}
            fs = {}
            for k in range(n + 1):
                for o in ('inner', 'outer'):
                    for ind in ('Lambda', 'bundle'):
                        if ind == 'bundle' and (n == 3 or lib == 'msehtt'):
                            continue
                        f = ph.space.new(ind, k, orientation=o).make_form('f_{%d%s%s}' % (k, o, ind), 'f-%d-%s-%s' % (k, o, ind))
                        f.degree = 1
                        fs[k, o, ind] = f
            for i, f in enumerate(fs.values()):
                ns['f%d' % i] = f
            fe, obj = ph.fem.apply('msepy' if lib == 'msepy' else 'msehtt-s', ns)
            if lib == 'msepy':
                fe.config(obj['man'])('crazy', c=0., bounds=[[0, 1]] * n, periodic=False)
                fe.config(obj['mesh'])([1] * n)
            else:
                tgm = fe.tgm()
                fe.config(tgm)('crazy', element_layout=1, bounds=[[0, 1]] * n, periodic=False)
                fe.config(obj['mesh'])(tgm, including='all')
            for i, key in enumerate(fs):
                FORMS[(lib,) + key] = obj['f%d' % i]
    return FORMS


def un(o, e):
    f = e['f']
    if f == 'dt':
        return o.time_derivative
    if f == 'neg':
        return -o
    if f == 'times':
        return o * e['c'] if rnd.random() < 0.5 else float(e['c']) * o
    return getattr(o, f)


def two(a, b, f):
    if f == 'add':
        return a + b
    if f == 'sub':
        return a - b
    if f in ('mul', 'mulr'):
        return a * b if f == 'mul' else b * a
    return {'dot': lambda: a.dot(b), 'cross': lambda: a.cross_product(b), 'outer': lambda: a.tensor_product(b), 'conv': lambda: a.convection_by(b)}[f]()


def form(o, x):
    which, k, ori, ind, lib = x
    f = forms()[lib, k, ori, ind]
    f.cf = o
    got = {'d': f.cf.exterior_derivative, 'cd': f.cf.codifferential, 'dt': f.cf.time_derivative}[which]()
    if lib == 'msepy':
        assert len(got) == 1
        got = got[list(got)[0]]
    return got


def values(o, e):
    pts = np.array(e['pts'], dtype=float)
    shape = rnd.choice([(4,), (2, 2), (4, 1)])
    x = [pts[:, i].copy().reshape(shape) for i in range(n)]
    t = e['t'] if rnd.random() < 0.5 else float(e['t'])
    scale = 1
    if e['how'] == 'abs':
        o = o.abs
    elif e['how'] == 'norm':
        o = o.norm
    elif e['how'] == 'int':
        o, scale = o.integral(e['t0'], h=0.125), 6
    v = o(t, *x) if rnd.random() < 0.5 else (o[t] if n == 1 or rnd.random() < 0.3 else o @ t)(*x)
    if rank(o) == 2:
        v = [_ for row in v for _ in row]
    v = [np.array(_, dtype=float) + np.zeros(shape) for _ in v]
    assert all(_.shape == shape for _ in v), [_.shape for _ in v]
    v = [scale * _.ravel() for _ in v]
    if e['how'] == 'norm':
        v = [_ ** 2 for _ in v]
    tol = [1e-6, 1e-2, 0.3][e['n']]
    if e['how'] == 'norm' and e['n']:
        big = max(1., float(np.max(np.abs(v)))) ** 0.5
        tol = min(0.3, tol * 2 * big)
    return [[int(round(_[q])) if abs(_[q] - round(_[q])) < tol else 987654321 for _ in v] for q in range(4)]


out = []
for evs in P['traces']:
    res, objs = [], []
    for e in evs:
        e = dict(e, why='')
        try:
            if e['op'] == 'at':
                e['vals'] = values(objs[e['a'] - 1], e)
            else:
                o = new(e) if e['op'] == 'new' else un(objs[e['a'] - 1], e) if e['op'] == 'un' else form(objs[e['a'] - 1], e['x']) \
                    if e['op'] == 'form' else two(objs[e['a'] - 1], objs[e['b'] - 1], e['f'])
                e['got'] = rank(o)
                objs.append(o)
        except Exception as ex:  # noqa
            e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:160]) or 'x'
        res.append(e)
        if e['why']:
            break
    out.append({'ev': res})
ph_env.store({'traces': out})
