# -*- coding: utf-8 -*-
"""Perform generated cochain-store operations on real forms and observe the store after each one."""
import random

import ph_env
import numpy as np
import phyem as ph
import ph_setup  # noqa

P = ph_env.load()
BACK = P['backend']
N = P['n']
SC = 0.1
rnd = random.Random(P['seed'])


def build():
    views = {}
    man, mesh, spaces, fs = ph_setup.abstract(N, degree=P['degree'], ks=[tuple(x) for x in P['ks']], views=views)
    ts = views['ts']
    obj = {'man': man, 'mesh': mesh}
    for kk, sp in spaces.items():
        obj['sp%d%s' % kk[1:]] = sp
    for kk, f in fs.items():
        obj['f%d%s' % kk[1:]] = f
        obj['v%d%s' % kk[1:]] = views[kk]
    impl, objs = ph.fem.apply('msepy' if BACK == 'msepy' else 'msehtt-s', obj)
    if BACK == 'msepy':
        impl.config(objs['man'])('crazy', c=0., bounds=[[0, 1]] * N, periodic=False)
        impl.config(objs['mesh'])([2] * N)
    else:
        tgm = impl.tgm()
        impl.config(tgm)('crazy', element_layout=2, bounds=[[0, 1]] * N, periodic=False)
        impl.config(objs['mesh'])(tgm, including='all')
    return ts, [(objs['f%d%s' % kk[1:]], objs['v%d%s' % kk[1:]]) for kk in fs]


def shape(f):
    gm = f.cochain.gathering_matrix
    if BACK == 'msepy':
        return gm.shape
    return {e: gm.num_local_dofs(e) for e in gm}


def arr(f, v):
    if BACK == 'msepy':
        s = shape(f)
        return (np.arange(s[0] * s[1], dtype=float).reshape(s) + v * 1000.)
    d, k = {}, 0
    for e, m in shape(f).items():
        d[e] = np.arange(k, k + m, dtype=float) + v * 1000.
        k += m
    return d


def offset(f):
    return arr(f, 0)


def local(c, f):
    if BACK == 'msepy':
        return c.local
    return {e: np.array(c[e]) for e in f.cochain.gathering_matrix}


def factor(got, f):
    """the number x with got == offset + 1000 x everywhere, or None"""
    off = offset(f)
    if BACK == 'msepy':
        got, off = {0: np.asarray(got)}, {0: off}
    vals = np.concatenate([(got[k] - off[k]).ravel() for k in off])
    if vals.size == 0 or not np.allclose(vals, vals[0], atol=1e-6):
        return None
    return vals[0] / 1000.


def value(got, f):
    x = factor(got, f)
    if x is None or abs(x - round(x)) > 1e-6:
        return -7
    return int(round(x))


def abstract(view, t):
    """the copy of the form at the abstract time instant t_t (= t * SC)"""
    if BACK == 'msepy' and rnd.random() < 0.5:
        return view(k=t)
    return view[str(t)]


def noise():
    return rnd.choice([0., 3e-10, -3e-10, 8e-10])


def tt(t):
    return t * SC + noise()


def main():
    ts, pairs = build()
    ts.specify('constant', [0, 1000 * SC, 1000], 1)
    out = []
    for idx, tr in enumerate(P['traces']):
        if not hasattr(pairs[0][0], '_cochain'):
            ts, pairs = build()
            ts.specify('constant', [0, 1000 * SC, 1000], 1)
        f, view = pairs[idx % len(pairs)]
        f._cochain = None
        view._cochain = None
        a0 = tr['auto']
        setting(a0)
        rec = {'auto': a0, 'ev': []}
        times = tr['times']
        for o in tr['ops']:
            e = dict(o)
            e['res'] = 'ok'
            e['why'] = ''
            try:
                perform(e, f, view, ts)
            except Exception as ex:  # noqa
                e['res'] = 'error'
                e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:100])
            try:
                observe(e, f, view, times)
            except Exception as ex:  # noqa
                e.update(store=[[-9, -9]], newest=-9, len=-9, viewok=False, missing='?', newestread=False)
                e['why'] += ' observe: %s: %s' % (type(ex).__name__, str(ex)[:100])
            rec['ev'].append(e)
            if e['res'] == 'error' and e['op'] != 'interp':
                break
        out.append(rec)
    ph_env.store({'traces': out})


def setting(a):
    # 1 stands for the default setting (True)
    ph.config.set_auto_cleaning(False if a == 0 else (True if a == 1 else a))


def perform(e, f, view, ts):
    op = e['op']
    c = (view if rnd.random() < 0.3 else f).cochain
    if op == 'set':
        t, v = tt(e['t']), e['v']
        via = e['via']
        if via == 'cochain':
            f[t].cochain = arr(f, v)
        elif via == 'copy':
            view[t].cochain = arr(f, v)
        elif via == 'ati':
            abstract(view, e['t']).cochain = arr(f, v)
        else:
            data = arr(f, v)
            if BACK == 'msepy':
                f[t].cochain = lambda time: data
            else:
                f[t].cochain = lambda el: data[el]
    elif op == 'cleanNewest':
        c.clean()
    elif op == 'cleanN':
        c.clean(-e['n'])
    elif op == 'cleanT':
        c.clean(t=tt(e['t']))
    elif op == 'cleanAll':
        c.clean('all')
    elif op == 'auto':
        setting(e['n'])
    elif op == 'interp':
        t = e['t2'] * SC / 2 + noise()
        e['num'] = -1
        try:
            if BACK == 'msepy':
                got = c(t).local
            else:
                got = local(f(t).cochain, f)
            x = factor(got, f)
        except Exception as ex:
            e['res'] = 'error'
            e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:100])
            return
        # 2 * value * common denominator: the times are small integers, so 2*x*lcm is an integer
        e['num60'] = int(round(2 * x * 2520)) if x is not None else -1
        if x is not None and abs(2 * x * 2520 - round(2 * x * 2520)) > 1e-3:
            e['num60'] = -1


def observe(e, f, view, times):
    st = []
    viewok = True
    missing = 'refused'
    for t in times:
        here = tt(t) in f.cochain
        if (tt(t) in view.cochain) != here:
            viewok = False
        try:
            got = local(f[tt(t)].cochain, f)
            ok = True
        except Exception:  # noqa
            ok = False
        if ok and not here:
            missing = 'answered'
        if here and not ok:
            missing = 'lost'
        if here and ok:
            v = value(got, f)
            st.append([t, v])
            if value(local(view[tt(t)].cochain, f), f) != v or \
                    value(local(abstract(view, t).cochain, f), f) != v:
                viewok = False
    nw = f.cochain.newest
    e['newest'] = -1 if nw is None else int(round(nw / SC))
    if view.cochain.newest != nw:
        viewok = False
    e['len'] = len(f.cochain)
    if len(view.cochain) != len(f.cochain):
        viewok = False
    e['viewok'] = viewok
    e['missing'] = missing
    e['store'] = st
    if st:
        top = max(st)[1]
        try:
            e['newestread'] = bool(value(local(f[None].cochain, f), f) == top)
        except Exception:  # noqa
            e['newestread'] = False
    else:
        e['newestread'] = True


main()
