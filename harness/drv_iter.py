# -*- coding: utf-8 -*-
"""Run histories of the real iterator: processes (forked) that make the same runs, some of which die in the solver,
while the state of the objects is collected, while it is pickled, or while the file is written (file size limit).

Under mpirun the processes are replaced by lives inside one process; a death is an exception on all ranks."""
import ph_env  # noqa
import contextlib
import csv
import io
import json
import os
import re
import resource
import shutil
import tempfile
import time

import matplotlib.figure
import numpy as np
import phyem as ph
from phyem.src.config import RANK, SIZE, COMM

S0 = [1, 0]


_savefig = matplotlib.figure.Figure.savefig


def _cheap(self, fname, *a, **k):
    """Drawing the monitor's picture takes most of the time of a short run; it is drawn in some histories only."""
    with open(fname, 'wb') as f:
        f.write(b'picture')


class Die(BaseException):
    pass


class Life:
    """What a process knows: the state and where it has to die."""

    def __init__(self, h, spec, log, form):
        self.h, self.spec, self.log, self.form = h, spec, log, form
        self.s = list(S0)
        self.computed = 0
        self.saving = False
        self.run = 0
        if form is not None:
            if SIZE > 1:                      # no new process: forget the previous life
                form.cochain.clean('all')
            self.put()

    # state in a real form: the cochain at time <count> is <x> plus a pattern over the dofs
    def put(self):
        self.form[float(self.s[1])].cochain = {e: 1000. * self.s[0] + p for e, p in pattern(self.form).items()}

    def state(self):
        if self.form is None:
            return list(self.s)
        t = self.form.cochain.newest
        lc = self.form[t].cochain
        vals = {round(float(x), 6) for e, p in pattern(self.form).items() for x in (np.asarray(lc[e]) - p) / 1000.}
        x = vals.pop() if len(vals) == 1 else -1
        return [num(x), int(round(t))]

    def set(self, s):
        self.s = list(s)
        if self.form is not None:
            self.put()

    def die(self, phase):
        return self.spec['phase'] == phase and self.computed >= self.spec['at']

    def go(self):
        if SIZE > 1:
            raise Die
        self.log.close()
        os._exit(9)

    def solve(self, v):
        st = self.state()
        t = [(3 * st[0] + v + 1) % 101, st[1] + 1]
        self.computed += 1
        self.log.add(op='solve', v=v, s=st, run=self.run)
        if self.die('solve'):
            self.set([55, st[1] + 1])
            self.log.add(op='crash', phase='solve')
            self.go()
        if self.h['pol'] == 'some' and (v + self.computed) % 3 == 0:
            time.sleep(0.25)
        self.set(t)
        return (1 if v == self.h['stop'] else 0), 'v%d' % v, float(t[0]), float(t[1])


class Bomb:
    def __init__(self, life, data):
        self.life, self.data = life, data

    def __reduce__(self):
        if self.life.die('dump'):
            self.life.log.add(op='crash', phase='dump')
            self.life.go()
        return dict, (self.data,)


class Obj:
    """A cacheable object made of plain data: part j of the state."""

    def __init__(self, life, j):
        self.life, self.j, self.name = life, j, 'obj%d' % j

    def _make_cache_data(self, t=None):
        if self.j == 0:
            self.life.log.add(op='encode', s=self.life.state())
        if self.j == 1 and self.life.die('encode'):
            self.life.log.add(op='crash', phase='encode')
            self.life.go()
        if self.j == 1 and self.life.die('write') and SIZE == 1:
            self.life.log.add(op='crash', phase='write')
            resource.setrlimit(resource.RLIMIT_FSIZE, (700 * min(self.life.computed, 12),) * 2)
        data = {'v': self.life.s[self.j], 'pad': 'z' * 3000 * (self.j + 1)}
        if RANK != 0:
            return None
        return Bomb(self.life, data) if self.j == 1 else data

    def _read_cache_data(self, data):
        v = COMM.bcast(None if data is None else data['v'], root=0)
        self.life.s[self.j] = v


class FormObj:
    """A real discrete form, seen through the same interface."""

    def __init__(self, life, form):
        self.life, self.form, self.name = life, form, form.name

    def _make_cache_data(self, t=None):
        self.life.log.add(op='encode', s=self.life.state())
        if self.life.die('encode'):
            self.life.log.add(op='crash', phase='encode')
            self.life.go()
        if self.life.die('write') and SIZE == 1:
            self.life.log.add(op='crash', phase='write')
            resource.setrlimit(resource.RLIMIT_FSIZE, (150 * min(self.life.computed, 7),) * 2)
        data = self.form._make_cache_data(t=t)
        if self.life.die('dump'):
            data = dict(data)
            data['bomb'] = Bomb(self.life, {})
        return data

    def _read_cache_data(self, data):
        return self.form._read_cache_data(data)


class Log:
    def __init__(self, path):
        self.f = open(path, 'a') if path and RANK == 0 else None

    def add(self, **k):
        if self.f:
            self.f.write(json.dumps(k, default=ph_env._default) + '\n')
            self.f.flush()

    def close(self):
        if self.f:
            self.f.close()


VALUE = {
    'int': lambda v: v,
    'neg': lambda v: v - 4,
    'float': lambda v: v * 0.1,
    'tiny': lambda v: v * 1e-6,
    'half': lambda v: v / 2,
    'np': lambda v: np.float64(v) * 0.3,
    'form': lambda v: v,
}


def back(style, y):
    for v in range(0, 40):
        if VALUE[style](v) == y:
            return v
    return 99


def make_solver(life, style):
    def solver(k):
        """One step.

        Parameters
        ----------
        k : float

        Returns
        -------
        exit_code : int
        message : str
        x : float
        n : float
        """
        return life.solve(back(style, k))
    return solver


def make_solver2(life, style):
    def solver(k, j):
        """One step.

        Parameters
        ----------
        k : float
        j : float

        Returns
        -------
        exit_code : int
        message : str
        x : float
        n : float
        """
        v, w = back(style, k), back(style, j)
        return life.solve(v if w == v + 1 else 50)
    return solver


def ranges(style, r):
    if style in ('int', 'neg', 'form') and all(b == a + 1 for a, b in zip(r[:-1], r[1:])):
        return range(VALUE[style](r[0]), VALUE[style](r[-1]) + 1)
    return [VALUE[style](v) for v in r]


def num(x):
    return int(x) if x == int(x) else -1


def cut_to(plan, n):
    out = []
    for r in plan:
        if n <= 0:
            break
        out.append(r[:n])
        n -= len(r)
    return out


def logged(name):
    try:
        from phyem.tools.iterator.cache_reader import cache_reader
        cache = cache_reader(name)
        got = re.findall(r'(\d+)th cache', cache.get('log', ''))
        return int(got[-1]) if got else 0
    except Exception:
        return -1


def lifetime(h, spec, path, forms):
    """One process."""
    log = Log(path)
    form = None
    if h['style'] == 'form':
        form = forms()
    life = Life(h, spec, log, form)
    nocache = h['pol'] == 'nocache'
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            it = ph.iterator((make_solver2 if nocache else make_solver)(life, h['style']), [7., 8.],
                             monitoring_factor=0.1, name='it')
            if not nocache:
                objs = [FormObj(life, form)] if form is not None else [Obj(life, 0), Obj(life, 1)]
                kw = {'each': 1e-9, 'some': 0.2, 'never': np.inf}[h['pol']]
                it.cache(*objs, time=kw, **({'num': 1} if h.get('num') else {}))
            log.add(op='boot', cut=spec['cut'], cnt=-1 if nocache else logged('it'))
            for j, r in enumerate(cut_to(h['plan'], spec['cut'])):
                life.run = j + 1
                rg = [ranges(h['style'], r)]
                if nocache:
                    rg.append(ranges(h['style'], [v + 1 for v in r]))
                it.run(*rg, pbar=bool(h.get('pbar')))
                same = COMM.gather(life.state(), root=0)
                if RANK == 0:
                    df = it.RDF
                    rows = [[num(x) for x in row] for row in df[['x', 'n']].values.tolist()]
                    with open('it.csv') as f:
                        g = list(csv.reader(f))
                    ok = g[0][-2:] == ['x', 'n'] and [[num(float(x)) for x in z[-2:]] for z in g[1:]] == rows
                    log.add(op='runend', run=j + 1, rows=rows, s=life.state(), code=it.exit_code, csv=ok,
                            same=all(x == same[0] for x in same), cols=list(df.columns))
        log.add(op='exit')
    except Die:
        pass
    except BaseException as err:
        if spec['phase'] == 'write' and life.die('write'):
            pass
        else:
            import traceback
            log.add(op='error', why=repr(err)[:200], tb=traceback.format_exc()[-600:])
    log.close()


def pattern(f):
    gm = f.cochain.gathering_matrix
    return {e: np.arange(gm.num_local_dofs(e)) + 37. * (k % 8) for k, e in enumerate(sorted(gm, key=str))}


def make_form():
    """A real discrete form on a small msehtt mesh (made once, before any fork)."""
    import ph_setup
    views = {}
    man, mesh, spaces, fs = ph_setup.abstract(2, degree=2, ks=[(1, 'inner')], views=views)
    obj = {'man': man, 'mesh': mesh, 'ts': views['ts']}
    obj.update({'sp%d%s' % kk[1:]: sp for kk, sp in spaces.items()})
    obj.update({'f%d%s' % kk[1:]: f for kk, f in fs.items()})
    impl, objs = ph.fem.apply('msehtt-s', obj)
    tgm = impl.tgm()
    impl.config(tgm)('crazy', element_layout=2, bounds=[[0, 1]] * 2, periodic=False)
    impl.config(objs['mesh'])(tgm, including='all')
    return objs['f1inner']


def history(args):
    k, h, forms = args
    matplotlib.figure.Figure.savefig = _savefig if k % 8 == 0 else _cheap
    d = tempfile.mkdtemp(prefix='iter_') if RANK == 0 else None
    d = COMM.bcast(d, root=0)
    home = os.getcwd()
    os.chdir(d)
    path = os.path.join(d, 'log.jsonl')
    try:
        for spec in h['lives']:
            if SIZE > 1:
                lifetime(h, spec, path, forms)
                COMM.barrier()
                continue
            pid = os.fork()
            if pid == 0:
                try:
                    lifetime(h, spec, path, forms)
                finally:
                    os._exit(0)
            end = time.time() + 100
            while True:
                p, _ = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                if time.time() > end:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    with open(path, 'a') as f:
                        f.write(json.dumps({'op': 'error', 'why': 'hangs', 'tb': ''}) + '\n')
                    break
                time.sleep(0.02)
        ev = []
        if RANK == 0:
            with open(path) as f:
                ev = [json.loads(x) for x in f]
        return {'ev': ev, 'plan': h['plan'], 'stop': h['stop'], 'pol': h['pol'], 'style': h['style']}
    finally:
        os.chdir(home)
        COMM.barrier()
        if RANK == 0:
            shutil.rmtree(d, ignore_errors=True)


def main():
    data = ph_env.load()
    forms = None
    if any(h['style'] == 'form' for h in data['histories']):
        form = make_form()

        def forms():
            return form
    todo = [(k, h, forms) for k, h in enumerate(data['histories'])]
    if SIZE > 1:
        res = [history(t) for t in todo]
    else:
        res = fan(todo)
    if RANK == 0:
        ph_env.store({'traces': res})


def fan(todo, workers=7):
    """history() over forked workers (each history forks its own processes)."""
    pids = []
    d = tempfile.mkdtemp(prefix='fan_')
    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            try:
                for t in todo[w::workers]:
                    with open(os.path.join(d, '%d.json' % t[0]), 'w') as f:
                        json.dump(history(t), f, default=ph_env._default)
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    out = []
    for t in todo:
        with open(os.path.join(d, '%d.json' % t[0])) as f:
            out.append(json.load(f))
    shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == '__main__':
    main()
