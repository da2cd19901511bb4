# -*- coding: utf-8 -*-
"""Perform generated requests on abstract time sequences through ph.time_sequence()."""
import random
from fractions import Fraction

import ph_env
import phyem as ph

P = ph_env.load()
rnd = random.Random(P['seed'])
names = {}


def spell(ns, s, key):
    """one spelling per key and sequence: instants are named by their expression"""
    kk = (ns, s, key['a'], Fraction(key['p'], key['q']))
    if kk not in names:
        a, fr = key['a'], Fraction(key['p'], key['q'])
        base = rnd.choice(['k', '1*k', 'k*1']) if a == 1 else {0: '', 2: '2*k', -1: '-k'}[a]
        if fr == 0 and base:
            t = rnd.choice([base, base + '+0'])
        else:
            alts = ['%d/%d' % (abs(fr.numerator), fr.denominator)]
            if fr.denominator in (1, 2, 4, 5, 10):
                alts.append(repr(float(abs(fr))))
            if fr.denominator == 1:
                alts.append(str(abs(fr.numerator)))
            # the same number written as a sum
            if abs(fr) > 0:
                parts, rest = [], abs(fr)
                while rest > 0 and len(parts) < 9:
                    p = min(rest, Fraction(1, rnd.choice([2, 3, 5, 10])))
                    parts.append(p)
                    rest -= p
                if rest > 0:
                    parts.append(rest)
                sep = '-' if fr < 0 else '+'
                alts.append(sep.join('%d/%d' % (p.numerator, p.denominator) for p in parts))
            sign = '-' if fr < 0 else ('+' if base else '')
            t = base + sign + rnd.choice(alts)
        names[kk] = t
    return names[kk]


def norm(x):
    f = Fraction(x).limit_denominator(5000)
    if abs(float(f) - x) > 1e-6 * max(1, abs(x)):
        return [999999, 1]
    return [f.numerator, f.denominator]


def number(k):
    p, q = k
    return p if q == 1 else p / q


out = []
for ns, tr in enumerate(P['traces']):
    ph.config.set_embedding_space_dim(2)
    seqs = [ph.time_sequence() for _ in range(P['nseq'])]
    inst, ivl, ev, objs = [], [], [], {}
    for o in tr:
        e = dict(o, obs=['ok'], obj=0, why='', txt='')
        try:
            if o['op'] == 'specify':
                c = o['c']
                if c['kind'] == 'constant':
                    seqs[o['s'] - 1].specify('constant', [c['t0'], c['tm'], c['n']], c['factor'])
                else:
                    calls = []

                    def func(c=c, calls=calls):
                        calls.append(1)
                        return c['steps'][(len(calls) - 1) % len(c['steps'])]
                    seqs[o['s'] - 1].specify('function', c['t0'], func, step_interval=number(c['si']))
            elif o['op'] == 'instant':
                x = seqs[o['s'] - 1][spell(ns, o['s'], o['key'])]
                inst.append(x)
                e['txt'] = x.k
                e['obj'] = objs.setdefault(id(x), len(objs) + 1)
            elif o['op'] == 'interval':
                a, b = inst[o['a'] - 1], inst[o['b'] - 1]
                ivl.append(None)
                ts = a.time_sequence
                if b.time_sequence is ts and rnd.random() < .5:
                    a, b = a.k, b.k
                x = ts.make_time_interval(a, b)
                ivl[-1] = x
                e['obj'] = objs.setdefault(id(x), len(objs) + 1)
            elif o['op'] == 'eval':
                x = inst[o['a'] - 1]
                kw = {'k': number(o['k'])} if 'k' in x.k else {}
                e['txt'] = x.k
                e['obs'] = norm(x(**kw)())
            elif o['op'] == 'evali':
                x = ivl[o['v'] - 1]
                if x is None:
                    raise Exception('no interval')
                kw = {'k': number(o['k'])}
                r = {}
                if 'k' not in x.start.k or 'k' not in x.end.k:
                    from phyem.src.time_sequence import TimeInterval
                    r = TimeInterval(x.start(**(kw if 'k' in x.start.k else {})), x.end(**(kw if 'k' in x.end.k else {})))()
                else:
                    iv = x(**kw)
                    r = iv()
                    if abs((iv.end() - iv.start()) - r) > 1e-12:
                        r = 999999.
                e['obs'] = norm(r)
        except Exception as ex:  # noqa
            e['obs'] = ['error']
            e['why'] = '%s: %s' % (type(ex).__name__, str(ex)[:100])
        ev.append(e)
    out.append({'ev': ev})
ph_env.store({'traces': out})
