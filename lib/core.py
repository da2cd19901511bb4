# -*- coding: utf-8 -*-
"""Shared machinery of the checks: run TLC, run code against /repo, judge, report.

A check is a list of *obligations*.  Each obligation is one of

* ``design``  -- TLC explores a specification exhaustively within stated constants and evaluates
                 its invariants / action properties;
* ``replay``  -- TLC (BFS or -simulate) prints behaviours with the observation the specification
                 predicts after every action; a driver performs the same actions on the real code
                 and compares;
* ``trace``   -- a driver records what the real code did (events, or its discrete data), and TLC
                 decides whether the record is a behaviour / a model of the specification.

Nothing here reads /verif/seeded.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
EVIDENCE = os.path.join(VERIF, 'evidence')
PHPY = '/opt/venv/bin/python'
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')


class CheckError(Exception):
    """The machinery itself could not give an answer (not a violation)."""


def code_env(extra=None):
    env = dict(os.environ)
    env.update({
        'HOME': env.get('HOME', '/root'), 'LC_ALL': 'C.UTF-8',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'OMPI_MCA_btl': 'self,vader', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_plm_rsh_agent': '',
        'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
        'OMPI_MCA_btl_vader_single_copy_mechanism': 'none',
        'MPLBACKEND': 'Agg',
        'PYTHONPATH': HARNESS + os.pathsep + os.path.join(VERIF, 'lib'),
    })
    env.pop('DISPLAY', None)
    if extra:
        env.update(extra)
    return env


class TLCResult:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = re.findall(r'(\d[\d,]*) states generated(?:[^,]*), (\d[\d,]*) distinct states found', out)
        if m:
            self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1])
        else:
            m = re.findall(r'The number of states generated: (\d+)', out)
            self.generated = int(m[-1]) if m else 0
            self.distinct = self.generated
        d = re.findall(r'The depth of the complete state graph search is (\d+)', out)
        self.depth = int(d[-1]) if d else 0
        self.violated = bool(re.search(
            r'Error: (Invariant|Action property|Temporal properties|Property|Deadlock|Assumption|Evaluating invariant)'
            r'|is violated|was violated|The postcondition', out))
        self.ok = rc == 0 and 'Error:' not in out

    def tagged(self, tag):
        """Strings printed by the specification with PrintT(<<tag, string>>) -> list of JSON values."""
        res = []
        pat = re.compile(r'^<<"%s", "(.*)">>$' % re.escape(tag))
        for line in self.out.splitlines():
            m = pat.match(line)
            if m:
                s = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
                res.append(json.loads(s))
        return res

    def error_text(self, n=40):
        lines = self.out.splitlines()
        for i, l in enumerate(lines):
            if l.startswith('Error:'):
                if 'Parsing' in l:
                    return '\n'.join(lines[-n:])
                return '\n'.join(lines[i:i + n])
        return '\n'.join(lines[-n:])


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='phv_%s_' % prop)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.notes = []
        self.assumptions = []
        self.violations = []
        self.known_seen = []
        self.vacuous = []
        self.known = load_known(prop)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, consts=None, invariants=(), properties=(), constraints=(), spec='Spec',
            extra_cfg='', env=None, simulate=None, depth=None, workers=1, timeout=600, xmx='4g',
            count=True, postcondition=None, view=None, deadlock=False, defs=''):
        """Run TLC on a generated wrapper of ``module``; consts go in as definitions."""
        run = tempfile.mkdtemp(prefix='tlc_', dir=self.scratch)
        mc = 'MC_' + module
        consts = consts or {}
        body = ['---- MODULE %s ----' % mc, 'EXTENDS %s' % module]
        cfg = []
        if spec:
            cfg.append('SPECIFICATION %s' % spec)
        for k, v in consts.items():
            body.append('const_%s == %s' % (k, tla(v)))
            cfg.append('CONSTANT %s <- const_%s' % (k, k))
        if defs:
            body.append(defs)
        body.append('====')
        for i in invariants:
            cfg.append('INVARIANT %s' % i)
        for p in properties:
            cfg.append('PROPERTY %s' % p)
        for c in constraints:
            cfg.append('CONSTRAINT %s' % c)
        if postcondition:
            cfg.append('POSTCONDITION %s' % postcondition)
        if view:
            cfg.append('VIEW %s' % view)
        cfg.append('CHECK_DEADLOCK %s' % ('TRUE' if deadlock else 'FALSE'))
        if extra_cfg:
            cfg.append(extra_cfg)
        with open(os.path.join(run, mc + '.tla'), 'w') as f:
            f.write('\n'.join(body) + '\n')
        with open(os.path.join(run, mc + '.cfg'), 'w') as f:
            f.write('\n'.join(cfg) + '\n')
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + xmx,
               '-DTLA-Library=' + SPEC,
               '-cp', TLA_CP, 'tlc2.TLC', '-metadir', os.path.join(run, 'states'), '-noGenerateSpecTE',
               '-config', mc + '.cfg', '-workers', str(workers)]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(SEED)]
            if depth:
                cmd += ['-depth', str(depth)]
        cmd.append(mc + '.tla')
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=run, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s exceeded %ss' % (module, timeout))
        r = TLCResult(p.returncode, p.stdout)
        shutil.rmtree(os.path.join(run, 'states'), ignore_errors=True)
        if count:
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.generated
        return r

    def design(self, module, what, **kw):
        """Exhaustive (or simulated) exploration of the design specification."""
        r = self.tlc(module, **kw)
        if not r.ok:
            if r.violated:
                # the design specification does not read the code: its failure is a defect of the spec
                raise CheckError('design spec %s rejected: %s' % (module, r.error_text()))
            raise CheckError('TLC failed on %s:\n%s' % (module, r.error_text()))
        self.notes.append('%s: %s (%d states generated, %d distinct, depth %d)'
                          % (module, what, r.generated, r.distinct, r.depth))
        return r

    def parallel(self, fn, items, workers=4):
        """Run independent obligations side by side (they are all subprocesses)."""
        with ThreadPoolExecutor(workers) as ex:
            return [f.result() for f in [ex.submit(fn, i) for i in items]]

    # ------------------------------------------------------------------ driver
    def drive(self, script, payload=None, timeout=600, np=1, cwd=None, env=None, allow_rc=(0,)):
        """Run harness/<script> with phyem's interpreter; JSON in, JSON out."""
        run = tempfile.mkdtemp(prefix='drv_', dir=self.scratch)
        inp = os.path.join(run, 'in.json')
        outp = os.path.join(run, 'out.json')
        with open(inp, 'w') as f:
            json.dump(payload, f)
        cmd = [PHPY, os.path.join(HARNESS, script), inp, outp]
        if np > 1:
            cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(np)] + cmd
        work = cwd or run
        penv = code_env(env)
        penv['OMPI_MCA_orte_tmpdir_base'] = run          # no session directory shared between drivers
        if np == 1:
            penv['OMPI_MCA_ess_singleton_isolated'] = '1'
        for last in (False, True):
            try:
                p = subprocess.run(cmd, cwd=work, env=penv, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
            except subprocess.TimeoutExpired as err:
                if np > 1:                # processes waiting for each other
                    return {'crash': True, 'rc': 'hangs', 'log': str(err.stdout)[-6000:]}
                raise CheckError('driver %s exceeded %ss' % (script, timeout))
            if p.returncode in allow_rc and os.path.exists(outp):
                break
            print('driver %s ended with %s: %s' % (script, p.returncode, p.stdout[-600:].replace('\n', ' | ')), file=sys.stderr)
            if last:                      # deterministic: it crashes every time
                return {'crash': True, 'rc': p.returncode, 'log': p.stdout[-6000:]}
        with open(outp) as f:
            res = json.load(f)
        if isinstance(res, dict):
            res.setdefault('log', p.stdout[-3000:])
        return res

    def generate(self, module, num, depth, tag='TR', **kw):
        """Behaviours printed by the specification under -simulate (seeded by VERIF_SEED)."""
        r = self.tlc(module, simulate=num, depth=depth + 2, count=False, **kw)
        if not r.ok:
            raise CheckError('generation from %s failed: %s' % (module, r.error_text()))
        seen, out = set(), []
        for t in r.tagged(tag):
            k = json.dumps(t, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(t)
        self.cov['transitions'] += r.generated
        return out

    def validate(self, module, traces, what, consts=None, spec='TraceSpec', keyof=None, timeout=800,
                 xmx='6g', workers=1, **kw):
        """TLC decides every recorded trace; every rejected one is a violation naming its clause."""
        if not traces:
            self.require(False, '%s: no trace recorded' % what)
            return 0
        fd, path = tempfile.mkstemp(prefix='trace_', suffix='.json', dir=self.scratch)
        os.close(fd)
        with open(path, 'w') as f:
            json.dump(traces, f)
        r = self.tlc(module, consts=consts, spec=spec, env={'PHV_TRACE': path}, timeout=timeout, xmx=xmx,
                     workers=workers, **kw)
        bad = r.tagged('BAD')
        okt = r.tagged('OKT')
        done = set(okt) | {b['trace'] for b in bad}
        for b in bad:
            t = traces[b['trace'] - 1]
            key = keyof(t, b) if keyof else '%s: %s' % (what, b['clause'])
            ev = None
            if isinstance(t, dict) and 'ev' in t and 0 < b.get('step', 0) <= len(t['ev']):
                ev = t['ev'][:b['step']]
            self.violate(key, '%s: %s (step %s)' % (what, b['clause'], b.get('step')),
                         {'verdict': b, 'trace': ev if ev is not None else t})
        if not r.ok:
            if bad:
                pass
            else:
                self.violate('%s: not decidable by the specification' % what,
                             'TLC could not interpret the record: ' + r.error_text(12),
                             {'tlc': r.error_text(60)})
        elif len(done) != len(traces):
            raise CheckError('%s: %d of %d traces decided' % (what, len(done), len(traces)))
        self.validated(len(set(okt)))
        self.notes.append('%s: %d/%d recorded traces accepted by %s' % (what, len(set(okt)), len(traces), module))
        return len(set(okt))

    # ------------------------------------------------------------------ verdicts
    def sample(self, s):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(s if len(str(s)) < 600 else str(s)[:600])

    def validated(self, n=1):
        self.cov['traces_validated_against_impl'] += n

    def require(self, cond, what):
        """Non-vacuity."""
        if not cond:
            self.vacuous.append(what)

    def violate(self, key, summary, detail=None):
        """``key`` identifies the failing input / call site / history."""
        for k in self.known:
            if re.fullmatch(k['match'], key):
                if key not in [s[0] for s in self.known_seen]:
                    self.known_seen.append((key, k['what']))
                return
        self.violations.append({'key': key, 'summary': summary, 'detail': detail})

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        rdir = os.path.join(EVIDENCE, 'replay')
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.vacuous and not self.violations:
            print('CHECK-ERROR %s: vacuous: %s' % (self.prop, '; '.join(self.vacuous)))
            return 3
        replay = None
        stale = os.path.join(rdir, '%s.json' % self.prop)
        if os.path.exists(stale):
            os.remove(stale)
        if self.violations:
            os.makedirs(rdir, exist_ok=True)
            replay = os.path.join(rdir, '%s.json' % self.prop)
            with open(replay, 'w') as f:
                json.dump(self.violations[:200], f, indent=1, default=str)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': SEED,
            'level': 'model_checking',
            'coverage': dict(self.cov, notes=self.notes),
            'wall_s': round(time.time() - self.t0, 2),
            'assumptions': self.assumptions or ['conformance is decided on the executions listed'],
            'violations': len(self.violations),
        }
        if replay:
            ev['replay'] = replay
        if self.known_seen:
            ev['known_findings'] = [k for k, _ in self.known_seen]
        with open(os.path.join(EVIDENCE, '%s.json' % self.prop), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        told = set()
        for key, what in self.known_seen:
            if what not in told:
                told.add(what)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        for v in self.violations[:20]:
            print('  - [%s] %s' % (v['key'], v['summary']))
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        print('OK property=%s tier=%s states=%d transitions=%d conformance=%d wall=%.1fs'
              % (self.prop, self.tier, self.cov['states'], self.cov['transitions'],
                 self.cov['traces_validated_against_impl'], time.time() - self.t0))
        return 0


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == prop]


def tla(v):
    """Python -> TLA+ literal."""
    if isinstance(v, Raw):
        return v.s
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v) if v >= 0 else '(-%d)' % -v
    if isinstance(v, str):
        return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
    if isinstance(v, (list, tuple)):
        return '<<%s>>' % ', '.join(tla(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return '{%s}' % ', '.join(tla(x) for x in sorted(v, key=repr))
    if isinstance(v, dict):
        if not v:
            return '<<>>'
        return '[%s]' % ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items())
    raise TypeError(type(v))


class Raw:
    def __init__(self, s):
        self.s = s
