"""Catalogues of equations shared by W01, W02."""
from core import Raw


def r(x):
    return ['r', x]


def conf(name):
    if name == 'ph2':     # 2d, outer
        return dict(n=2, per=False, roots={'a': (2, 'outer'), 'b': (1, 'outer'), 'g': (1, 'outer'), 'q': (0, 'inner'), 'w': (0, 'outer')},
                    tests=[(2, 'outer'), (1, 'outer')], unk=['a', 'b'],
                    core=[['pt', r('a')], ['pt', r('b')]],
                    cat=[[['pt', r('a')], r('a'), ['d', r('b')], ['mul', 'c', r('a')], ['mul', 'c', ['d', r('b')]], ['hs', r('q')], ['plus', ['d', r('g')], r('a')], ['plus', ['pt', r('a')], ['d', r('g')]]],
                         [['pt', r('b')], r('g'), ['cd', r('a')], ['d', r('w')], ['x', r('w'), r('b')], ['mul', 'e', r('b')],
                          ['cd', ['d', r('b')]], ['mul', 'c', ['cd', r('a')]], ['mul', 'e', ['pt', r('g')]], ['plus', ['cd', r('a')], r('g')]]])
    if name == 'mix':     # factors inside sums: tested as they are, or refused
        return dict(conf('ph2'), tests=[(1, 'outer')], unk=['b'], core=[['pt', r('b')]],
                    cat=[[['plus', ['mul', 'c', r('b')], r('g')], ['plus', r('g'), ['mul', 'c', r('b')]], ['mul', 'e', ['plus', r('g'), r('b')]],
                          ['mul', 'c', ['minus', r('g'), ['cd', r('a')]]], ['minus', ['mul', 'c', ['cd', r('a')]], r('g')],
                          ['plus', ['mul', 'c', r('b')], ['mul', 'e', r('g')]], r('g')]])
    if name == 'long':    # equations of up to 13 terms
        c = conf('ph2')
        return dict(c, tests=[(1, 'outer')], unk=['b'], core=[['pt', r('b')]], cat=[c['cat'][1]])
    if name == 'ph2p':
        return dict(conf('ph2'), per=True)
    if name == 'ns3':
        return dict(n=3, per=False, roots={'u': (2, 'outer'), 'w': (1, 'outer'), 'P': (3, 'outer'), 'f': (2, 'outer')},
                    tests=[(2, 'outer'), (3, 'outer'), (1, 'outer')], unk=['u', 'P', 'w'],
                    core=[['pt', r('u')], r('P'), r('w')],
                    cat=[[['pt', r('u')], r('f'), ['x', r('w'), r('u')], ['cd', r('P')], ['d', r('w')], ['mul', 'c', ['cd', r('P')]], ['cd', ['d', r('u')]], ['mul', 'c', ['d', r('w')]]],
                         [['d', r('u')], r('P'), ['pt', r('P')], ['mul', 'e', ['d', r('f')]]],
                         [r('w'), ['cd', r('u')], ['mul', 'c', r('w')], ['x', r('u'), r('f')], ['mul', 'c', ['cd', r('u')]]]])
    if name == 'in2':     # 2d, inner, Hodge of cross products
        return dict(n=2, per=False, roots={'z': (2, 'inner'), 'b': (1, 'outer'), 'g': (1, 'outer'), 'w': (0, 'outer')},
                    tests=[(2, 'inner')], unk=['z'], core=[['pt', r('z')]],
                    cat=[[['hs', ['x', r('b'), r('g')]], ['hs', r('w')], r('z'), ['mul', 'c', ['hs', r('w')]], ['mul', 'e', r('z')]]])
    if name == 'ap3':     # 3d mixed orientations
        return dict(n=3, per=False, roots={'u': (2, 'outer'), 'v': (1, 'inner'), 'p': (0, 'inner'), 'e': (2, 'inner')},
                    tests=[(1, 'inner'), (0, 'inner')], unk=['v', 'p'], core=[['pt', r('v')], r('p')],
                    cat=[[['hs', r('u')], ['d', r('p')], ['cd', r('e')], r('v'), ['mul', 'c', ['hs', r('u')]], ['hs', ['d', r('v')]] if False else ['pt', r('v')]],
                         [r('p'), ['cd', r('v')], ['mul', 'c', ['cd', r('v')]], ['pt', r('p')]]])
    if name == 'wd2':     # 2d, duality pairings of 0-forms
        return dict(n=2, per=False, roots={'z': (0, 'inner'), 'y': (2, 'outer'), 'g': (0, 'inner'), 'b': (1, 'inner')},
                    tests=[(0, 'inner')], unk=['z'], core=[['pt', r('z')]],
                    cat=[[['hs', r('y')], ['pt', r('z')], r('z'), r('g'), ['mul', 'c', ['hs', r('y')]], ['cd', r('b')], ['cd', ['d', r('z')]], ['mul', 'e', r('g')]]])
    raise KeyError(name)


def tl(x):
    return Raw('<<' + ', '.join('"%s"' % y if isinstance(y, str) else tl(y).s for y in x) + '>>')


def tla_conf(c, small=False):
    cat = [set_(x[:3] if small else x) for x in c['cat']]
    return Raw('[n |-> %d, per |-> %s, tests |-> <<%s>>, root |-> {%s}, unk |-> {%s}, core |-> <<%s>>, cat |-> <<%s>>]' % (
        c['n'], 'TRUE' if c['per'] else 'FALSE', ', '.join('"%d%s"' % t for t in c['tests']),
        ', '.join('"%s"' % x for x in c['roots']), ', '.join('"%s"' % x for x in c['unk']), ', '.join(tl(x).s for x in c['core']), ', '.join(cat)))


def set_(xs):
    return '{' + ', '.join(tl(x).s for x in xs) + '}'
