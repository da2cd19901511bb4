"""Drive static msehtt meshes: conforming plane meshes of triangles, quadrilaterals and rectangles.

Works under any number of MPI ranks: everything observed is collected over the ranks.
Local degrees of freedom are identified by what they measure (reductions of polynomial fields), not by how the
implementation numbers them."""
import contextlib
import io
import json
import os
import pickle
import sys
import tempfile
import traceback

import ph_env
import numpy as np
import phyem as ph
from phyem.src.config import RANK, MASTER_RANK, SIZE, COMM

SCALE = 2304
MS = None
TMP = None


def gather(d):
    """merge dictionaries of all ranks (the owner of every key is kept in the second result)."""
    got = COMM.gather(d, root=MASTER_RANK)
    if RANK == MASTER_RANK:
        out, own = {}, {}
        for r, g in enumerate(got):
            for k in g:
                own.setdefault(k, []).append(r)
                out[k] = g[k]
        got = (out, own)
    return COMM.bcast(got, root=MASTER_RANK)


CORN = {3: ([-1, 1, 1], [0, -1, 1])}


def corners(el):
    """the physical positions of the vertices of an element in the order of its map."""
    et = el.etype
    if 'triangle' in str(et) or et == 5:
        xi, eta = np.array([-1., 1., 1.]), np.array([0., -1., 1.])
    elif et in (9, 'unique curvilinear quad'):
        xi, eta = np.array([-1., 1., 1., -1.]), np.array([-1., -1., 1., 1.])
    else:
        xi, eta = np.array([-1., 1., -1., 1.]), np.array([-1., -1., 1., 1.])
    x, y = el.ct.mapping(xi, eta)
    return np.array([x, y]).T


def ring(n, et):
    """positions of the vertices in the map, going round the element."""
    if n == 3:
        return [0, 1, 2]
    return [0, 1, 2, 3] if et in (9, 'unique curvilinear quad') else [0, 1, 3, 2]


def etn(et):
    if et == 5 or 'triangle' in str(et):
        return 'tri'
    return 'quad' if et in (9, 'unique curvilinear quad') else 'rect'


# ------------------------------------------------------------------------------------------------------
class Session:
    def __init__(self):
        self.n = 0

    def config(self, ev, wanted, nsec):
        """a new implementation session with all the forms this mesh will be asked for."""
        self.obs = {}
        import gc
        gc.collect()       # objects of earlier sessions are gone, whatever was keyed on them
        s = self.s = 2. ** -ev['sc']
        ph.config.set_embedding_space_dim(2)
        man = ph.manifold(2)
        mesh = ph.mesh(man)
        whole = mesh.boundary()
        if nsec:
            mesh.boundary_partition(*[r'\Gamma_{%d}' % i for i in range(max(2, nsec))])
        secs = {}
        self.forms = {}
        spaces = {}
        for k, o, dg in wanted:
            if (k, o) not in spaces:
                spaces[k, o] = ph.space.new('Lambda', k, orientation=o)
            f = spaces[k, o].make_form('f^{%d}_{%s%d}' % (k, o, dg), 'f-%d-%s-%d' % (k, o, dg))
            f.degree = dg
            self.forms[k, o, dg] = f
        ns = {'man': man, 'mesh': mesh}
        self.ms, self.objs = ph.fem.apply('msehtt-s', ns)
        m = ev['mesh']
        self.base = self.ms.base
        kw = {}
        if ev['ts']:
            kw['ts'] = ev['ts']
        if ev['ren']:
            kw['renumbering'] = True
        names, xy = m['names'], m['xy']
        et, mp, pa, co = {}, {}, {}, {}
        for e in m['elems']:
            nm = self.ename(e['name'], ev['strs'])
            vs = list(e['vs'])
            pts = [[float(c) * s for c in xy[v - 1]] for v in vs]
            if e['type'] == 'rect':
                et[nm] = 'orthogonal rectangle'
                lo = [min(p[0] for p in pts), min(p[1] for p in pts)]
                hi = [max(p[0] for p in pts), max(p[1] for p in pts)]
                at = {tuple(p): v for p, v in zip(pts, vs)}
                vs = [at[lo[0], lo[1]], at[hi[0], lo[1]], at[lo[0], hi[1]], at[hi[0], hi[1]]]
                pa[nm] = {'origin': (lo[0], lo[1]), 'delta': (hi[0] - lo[0], hi[1] - lo[1])}
            else:
                et[nm] = 5 if e['type'] == 'tri' else 9
                pa[nm] = [tuple(p) for p in pts]
            mp[nm] = [names[v - 1] for v in vs]
            for v in vs:
                co[names[v - 1]] = tuple(float(c) * s for c in xy[v - 1])
        route = ev['route']
        if route == 'phm':
            self.n += 1
            fn = os.path.join(TMP, 'mesh%d.phm' % self.n)
            if RANK == MASTER_RANK:
                with open(fn, 'wb') as f:
                    pickle.dump({'etype_dict': et, 'map_dict': mp, 'parameter_dict': pa}, f)
            COMM.barrier()
            ind = fn
        elif route == 'vtu':
            from phyem.msehtt.static.mesh.great.config.vtu import MseHttVtuInterface
            # every rank reads the cells it holds; here all are read by the first
            if RANK == MASTER_RANK:
                ind = MseHttVtuInterface(co, mp, et, redistribute=True)
            else:
                ind = MseHttVtuInterface({}, {}, {}, redistribute=True)
        elif route == 'crazy':
            ind = 'crazy'
            nx, ny = max(p[0] for p in xy), max(p[1] for p in xy)
            kw.update(element_layout=[nx, ny], c=0, bounds=([0., nx * s], [0., ny * s]), periodic=False)
        else:
            d = dict(element_type_dict=et, element_map_dict=mp, element_parameter_dict=pa)
            ind = d if RANK == MASTER_RANK else {k: None for k in d}
        if True:
            tf = ev['trf']
            if tf['th']:
                c = [_ / 2 for _ in tf['c']]

                def rff(x, y):
                    return 10. - np.maximum(abs(x / s - c[0]), abs(y / s - c[1]))
                kw['trf'] = {'rff': rff, 'rft': [float(t) for t in tf['th']]}
                if tf['rcm'] != 'default':
                    kw['trf']['rcm'] = tf['rcm']
        self.ms.config('tgm')(ind, **kw)
        self.tgm = self.base['the_great_mesh']
        if ev['saved']:
            fn = self.save()
            self.ms, self.objs = ph.fem.apply('msehtt-s', ns)
            self.base = self.ms.base
            self.ms.config('tgm')(fn)
            self.tgm = self.base['the_great_mesh']
        self.mesh = self.base['meshes'][mesh._sym_repr]
        self.whole = self.base['meshes'][whole._sym_repr]
        self.ms.config(self.mesh)(self.tgm, including='all')
        self.secs = []
        for sym in self.base['meshes']:
            if 'Gamma' in sym:
                i = int(sym.split('Gamma_{')[1].split('}')[0])
                secs[i] = self.base['meshes'][sym]
        self.secs = [secs[i] for i in sorted(secs)]
        self.used = 0
        return self.topology()

    def ename(self, n, strs):
        return 'cell-%d' % n if strs else n

    def save(self):
        fn = os.path.join(TMP, 'saved%d.phm' % self.n)
        self.n += 1
        self.tgm.saveto(fn)
        COMM.barrier()
        return fn

    def topology(self):
        loc = {}
        for e in self.tgm.elements:
            el = self.tgm.elements[e]
            c = corners(el) / self.s
            mp = [int(_) for _ in el.map_]
            rg = ring(len(mp), el.etype)
            loc[str(e)] = [mp, c.tolist(), rg, etn(el.etype)]
        got, own = gather(loc)
        self.index = {e: i + 1 for i, e in enumerate(sorted(got))}
        self.geo = {}
        els, bad = [], False
        for e in sorted(got):
            mp, c, rg, et = got[e]
            c = np.array(c)
            q = np.round(c * SCALE)
            bad = bad or bool(np.max(abs(q - c * SCALE)) > 1e-5) or len(mp) != len(rg) or len(own[e]) != 1
            self.geo[e] = ([mp[i] for i in rg], c[rg])
            els.append({'type': et, 'vs': [mp[i] for i in rg], 'xy': [[int(v) for v in q[i]] for i in rg],
                        'rank': own[e][0]})
        st = self.tgm.elements.statistics
        return {'ok': True, 'exact': not bad, 'els': els, 'size': SIZE, 'total': int(st['total amount elements']),
                'plain': sorted(got) == sorted(str(i) for i in range(len(got)))}

    # --------------------------------------------------------------------------------------------
    def form(self, k, o, dg):
        return self.base['forms'][self.forms[k, o, dg]._pure_lin_repr]

    def measure(self, f, comps, t):
        k = f.space.abstract.k
        self.set(f, comps)
        f[t].reduce()
        return {str(e): np.array(f.cochain[t][e], float).ravel() / self.s ** k for e in self.tgm.elements}

    def set(self, f, comps):
        """fields are given in the coordinates of the specification."""
        s = self.s
        comps = [(lambda c: lambda t, x, y: c(t, x / s, y / s))(c) for c in comps]
        f.cf = ph.vc.vector(comps[0], comps[1]) if f.space.abstract.k == 1 else ph.vc.scalar(comps[0])

    def cells(self, k, o, dg):
        """what every local degree of freedom of the space is: (kind, a, b, m, sign), and its global number."""
        f = self.form(k, o, dg)
        one = lambda t, x, y: 1 + 0 * x
        zer = lambda t, x, y: 0 * x
        X = lambda t, x, y: x
        Y = lambda t, x, y: y
        if k == 0:
            ms = [self.measure(f, c, float(i)) for i, c in enumerate([(X,), (Y,)])]
        elif k == 2:
            ms = [self.measure(f, c, float(i)) for i, c in enumerate([(one,), (X,), (Y,)])]
        else:
            ms = [self.measure(f, c, float(i)) for i, c in
                  enumerate([(one, zer), (zer, one), (X, zer), (zer, X), (Y, zer), (zer, Y)])]
        gen = [lambda t, x, y: np.sin(0.37 * x + 0.2) * np.cos(0.29 * y) + 0.11 * x * y,
               lambda t, x, y: np.cos(0.23 * x - 0.31 * y) + 0.07 * x * x]
        vals = self.measure(f, gen if k == 1 else gen[:1], 9.0)
        gm = f.cochain.gathering_matrix
        loc = {}
        for e in self.tgm.elements:
            s = str(e)
            loc[s] = ([m[s].tolist() for m in ms], [int(g) for g in gm[e]], vals[s].tolist())
        got, own = gather(loc)
        out = {}
        pool = []
        for s in sorted(got):
            m, g, v = got[s]
            m = np.array(m)
            names, c = self.geo[s]
            nv = len(names)
            n = len(g)
            pos, tang, size = [], [], []
            for i in range(n):
                if k == 0:
                    pos.append((m[0][i], m[1][i]))
                    tang.append(None)
                elif k == 2:
                    a = m[0][i]
                    pos.append((m[1][i] / a, m[2][i] / a))
                    tang.append(a)
                else:
                    dx, dy = m[0][i], m[1][i]
                    L = dx * dx + dy * dy
                    pos.append(((m[2][i] * dx + m[3][i] * dy) / L, (m[4][i] * dx + m[5][i] * dy) / L))
                    tang.append((dx, dy) if o == 'inner' else (-dy, dx))
            rows = []
            edges = {}
            inner = 0
            for i in range(n):
                p = np.array(pos[i])
                kind, a, b, mm, sg = 'i', self.index[s], 0, 0, 1
                if k == 0:
                    for j in range(nv):
                        if np.max(abs(p - c[j])) < 1e-7:
                            kind, a, b = 'v', names[j], names[j]
                if kind == 'i' and k < 2:
                    for j in range(nv):
                        q0, q1 = c[j], c[(j + 1) % nv]
                        d = q1 - q0
                        w = p - q0
                        if abs(d[0] * w[1] - d[1] * w[0]) < 1e-7 and -1e-7 < w @ d < d @ d + 1e-7:
                            na, nb = names[j], names[(j + 1) % nv]
                            if k == 1 and abs(d[0] * tang[i][1] - d[1] * tang[i][0]) > 1e-7:
                                continue
                            par = w @ d / (d @ d)
                            up = 1
                            if na > nb:
                                na, nb, par, up = nb, na, 1 - par, -1
                            kind, a, b = 'e', na, nb
                            if k == 1:
                                sg = up * (1 if d @ np.array(tang[i]) > 0 else -1)
                            edges.setdefault((na, nb), []).append((par, i))
                if kind == 'i':
                    inner += 1
                    mm = inner
                if k == 2:
                    sg = 1 if tang[i] > 0 else -1
                rows.append({'g': g[i], 'kind': kind, 'a': a, 'b': b, 'm': mm, 's': sg, 'v': self.cluster(pool, v[i])})
            for ed in edges.values():
                for mm, (par, i) in enumerate(sorted(ed), 1):
                    rows[i]['m'] = mm
            # interior cells have to be different places
            pts = [tuple(np.round(pos[i], 6)) + ((tuple(np.round(np.abs(tang[i]), 6)) if k == 1 else ()))
                   for i in range(n) if rows[i]['kind'] == 'i']
            out[s] = rows
            if len(set(pts)) != len(pts):
                for r in rows:
                    if r['kind'] == 'i':
                        r['m'] = 1
        return out, int(gm.num_global_dofs), got

    @staticmethod
    def cluster(pool, v):
        import bisect
        i = bisect.bisect_left(pool, (v - 1e-7,))
        if i < len(pool) and pool[i][0] < v + 1e-7:
            return pool[i][1]
        pool.insert(bisect.bisect_left(pool, (v,)), (v, len(pool) + 1))
        return pool[bisect.bisect_left(pool, (v,))][1]

    def space(self, k, o, dg, mat):
        out, n, _ = self.cells(k, o, dg)
        self.rows = out
        obs = {'ok': True, 'n': n, 'els': [out[s] for s in sorted(out)], 'mat': [], 'stokes': []}
        if mat and k < 2:
            f = self.form(k, o, dg)
            E = f.incidence_matrix
            loc = {}
            for e in self.tgm.elements:
                A = E[e]
                A = A.toarray() if hasattr(A, 'toarray') else np.array(A)
                loc[str(e)] = [[[int(j) + 1, int(A[i, j])] for j in np.nonzero(A[i])[0]] for i in range(A.shape[0])], \
                    list(A.shape), bool(np.all(A == np.round(A)))
            got, _ = gather(loc)
            obs['mat'] = [got[s][0] for s in sorted(got)]
            obs['int'] = all(got[s][2] for s in got)
            obs['stokes'] = self.stokes(k, o, dg)
            up, _, _ = self.cells(k + 1, o, dg)
            obs['up'] = [up[s] for s in sorted(up)]
        return obs

    def mass(self, k, o, dg):
        """inner products of constant and linear fields over every element, by mass matrices."""
        f = self.form(k, o, dg)
        one, zer = (lambda t, x, y: 1 + 0 * x), (lambda t, x, y: 0 * x)
        fields = [(one, zer), (zer, one)] if k == 1 else [(one,), (lambda t, x, y: x,), (lambda t, x, y: y,)]
        c = [self.measure(f, q, float(i)) for i, q in enumerate(fields)]
        M, _ = self.ms.array('mass matrix', f)
        loc = {}
        for e in self.tgm.elements:
            A = M[e]
            A = A.toarray() if hasattr(A, 'toarray') else np.array(A)
            s = str(e)
            v = [_ * self.s ** (2 * k - 2) for _ in [c[0][s] @ A @ q[s] for q in c] + [c[1][s] @ A @ c[1][s]]]
            w = np.linalg.eigvalsh(A)
            loc[s] = v, bool(abs(A - A.T).max() < 1e-9 * abs(A).max()), bool(w[0] > 0)
        got, _ = gather(loc)
        res = []
        for s in sorted(got):
            v, sy, po = got[s]
            if k == 1:
                q = [v[0] * 2 * SCALE ** 2, v[1] * 2 * SCALE ** 2, v[2] * 2 * SCALE ** 2]
            else:
                q = [v[0] * 2 * SCALE ** 2, v[1] * 6 * 48 ** 3, v[2] * 6 * 48 ** 3]
            r = [int(round(_)) for _ in q]
            res.append({'v': r, 'near': bool(max(abs(a - b) for a, b in zip(q, r)) < 1e-2), 'sym': sy, 'pos': po})
        return {'ok': True, 'els': res}

    def stokes(self, k, o, dg):
        """E reduce(f) == reduce(df) for polynomial fields."""
        f, g = self.form(k, o, dg), self.form(k + 1, o, dg)
        gam = [(1, 0, 0), (0, 1, 0), (1, 1, 0), (2, 0, 0), (0, 2, 1), (2, 1, 0), (3, 0, 1), (1, 2, 0)]

        def mono(i, j, c=1.):
            return lambda t, x, y: c * x ** i * y ** j

        def der(i, j, ax, c=1.):
            if ax == 0:
                return (lambda t, x, y: c * i * x ** (i - 1) * y ** j) if i else (lambda t, x, y: 0 * x)
            return (lambda t, x, y: c * j * x ** i * y ** (j - 1)) if j else (lambda t, x, y: 0 * x)

        def neg(a):
            return lambda t, x, y: -a(t, x, y)

        def plus(a, b):
            return lambda t, x, y: a(t, x, y) + b(t, x, y)
        res = []
        E = f.incidence_matrix
        for i, j, _ in gam[:6]:
            if k == 0:
                c0 = (mono(i, j),)
                dx, dy = der(i, j, 0), der(i, j, 1)
                c1 = (dx, dy) if o == 'inner' else (dy, neg(dx))
            else:
                u, v = mono(i, j), mono(j, i, 2.)
                c0 = (u, v)
                if o == 'inner':
                    c1 = (plus(der(j, i, 0, 2.), neg(der(i, j, 1))),)
                else:
                    c1 = (plus(der(i, j, 0), der(j, i, 1, 2.)),)
            a = self.measure(f, c0, 20.)
            b = self.measure(g, c1, 20.)
            ok = True
            for e in self.tgm.elements:
                d = E[e] @ a[str(e)] - b[str(e)]
                ok = ok and bool(np.max(abs(d)) < 1e-6 * (1 + np.max(abs(b[str(e)]))))
            # the coboundary of the form itself
            if ok:
                self.set(f, c0)
                f[20.].reduce()
                sk = self.s ** k
                cb = f[20.].cochain.coboundary() if callable(getattr(f[20.].cochain, 'coboundary', None)) else f.cochain[20.].coboundary
                for e in self.tgm.elements:
                    ok = ok and bool(np.max(abs(np.array(cb(e) if callable(cb) else cb[e]) / sk - b[str(e)])) < 1e-6 * (1 + np.max(abs(b[str(e)]))))
            res.append(all(COMM.allgather(ok)))
        return res

    # --------------------------------------------------------------------------------------------
    def section(self, ev):
        if ev['kind'] == 'all':
            sec = self.whole
            if sec.__dict__.get('_composition') is not None:
                return self.faces(sec)
        else:
            sec = self.secs[self.used]
            self.used += 1
        kind, arg = ev['kind'], ev['arg']
        if kind == 'all':
            inc = self.mesh
        else:
            if kind == 'ounv':
                val = [(a / np.hypot(a, b), b / np.hypot(a, b)) for a, b in arg]
                key = 'ounv'
            elif kind == 'line':
                val, key = [[tuple(_ * self.s for _ in p) for p in l] for l in arg], 'on straight lines'
            elif kind == 'segment':
                val, key = [[tuple(_ * self.s for _ in p) for p in l] for l in arg], 'on straight segments'
            else:
                from phyem.tools.miscellaneous.geometries.m2n2 import Polygon2, Point2
                val, key = [Polygon2(*[Point2(*[_ * self.s for _ in p]) for p in l]) for l in arg], 'in polygons'
            inc = {'type': 'boundary_section', 'partial elements': self.mesh, ('except ' if ev['neg'] else '') + key: val}
        self.ms.config(sec)(self.tgm, including=inc)
        return self.faces(sec)

    def faces(self, sec):
        comp = sec.composition
        loc = {}
        for e, i in comp:
            el = self.tgm.elements[e]
            mp = el.map_
            loc.setdefault(str(e), []).append(sorted(int(mp[_]) for _ in el.face_setting()[i]))
        got, own = gather(loc)
        cut = []
        for s in sorted(got):
            for f in sorted(got[s]):
                cut.append([self.index[s], f[0], f[1]])
        self.cur = sec
        return {'ok': True, 'faces': cut, 'n': int(comp._num_global_faces)}

    def bdofs(self, ev):
        k, o, dg = ev['k'], ev['o'], ev['deg']
        f = self.form(k, o, dg)
        rows, n, _ = self.cells(k, o, dg)
        comp = self.cur.composition
        loc = {str(e): [int(_) for _ in v] for e, v in comp.find_dofs(f, local=True).items()}
        got, _ = gather(loc)
        glob = sorted(int(_) for _ in comp.find_dofs(f, local=False))
        same = COMM.allgather(glob)
        keep = ('kind', 'a', 'b', 'm')
        bynum = {}
        for s in rows:
            for r in rows[s]:
                bynum.setdefault(r['g'], r)
        out = []
        for s in sorted(got):
            for i in got[s]:
                out.append({'e': self.index[s], **{q: rows[s][i][q] for q in keep}})
        return {'ok': True, 'local': out, 'dup': any(len(set(v)) != len(v) for v in got.values()),
                'glob': [{q: bynum[g][q] for q in keep} if g in bynum else {'kind': '?', 'a': g, 'b': 0, 'm': 0} for g in glob],
                'same': all(_ == glob for _ in same)}


def safe(fn, *a):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a)
    except Exception as err:        # a refusal
        tb = traceback.extract_tb(sys.exc_info()[2])
        if SIZE > 1:                # the other processes may be waiting for this one
            print('REFUSED %s: %s at %s:%d' % (type(err).__name__, err, os.path.basename(tb[-1].filename), tb[-1].lineno), file=sys.stderr, flush=True)
            COMM.Abort(3)
        return {'ok': False, 'size': SIZE, 'err': (type(err).__name__ + ': ' + str(err))[:160],
                'at': '%s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)}


def play(tr):
    ss = Session()
    out = []
    for n, e in enumerate(tr):
        rest = []
        for x in tr[n + 1:]:
            if x['op'] == 'config':
                break
            rest.append(x)
        if e['op'] == 'config':
            want = []
            for x in rest:
                if x['op'] in ('space', 'bdofs', 'mass'):
                    for k in ((x['k'], x['k'] + 1) if x['op'] == 'space' and x['k'] < 2 else (x['k'],)):
                        if (k, x['o'], x['deg']) not in want:
                            want.append((k, x['o'], x['deg']))
            if not want:
                want = [(0, 'outer', 1)]
            obs = safe(ss.config, e, want, sum(x['op'] == 'section' and x['kind'] != 'all' for x in rest))
            dead = not obs['ok']
        elif dead:
            continue
        elif e['op'] == 'space':
            obs = safe(ss.space, e['k'], e['o'], e['deg'], True)
        elif e['op'] == 'mass':
            obs = safe(ss.mass, e['k'], e['o'], e['deg'])
        elif e['op'] == 'section':
            obs = safe(ss.section, e)
        elif e['op'] == 'bdofs':
            obs = safe(ss.bdofs, e)
        else:
            raise Exception(e['op'])
        out.append({**e, 'obs': obs})
    return {'ev': out}


def main():
    global TMP
    job = ph_env.load()
    TMP = COMM.bcast(tempfile.mkdtemp(prefix='htt') if RANK == MASTER_RANK else None, root=MASTER_RANK)
    try:
        res = [play(t) for t in job['traces']]
    finally:
        COMM.barrier()
        if RANK == MASTER_RANK:
            import shutil
            shutil.rmtree(TMP, ignore_errors=True)
    if RANK == MASTER_RANK:
        ph_env.store({'traces': res})


main()
