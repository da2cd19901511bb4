"""W01: testing a PDE and deriving its weak formulation."""
import core
import wfconf
from core import Raw

DERIVE = {'rearr', 'switch', 'delete', 'replace', 'split', 'ibp', 'dual', 'comm'}


def design(ck, thorough):
    small = Raw('[n |-> 2, per |-> FALSE, tests |-> <<"1o">>, root |-> {"a"}, unk |-> {"a"}, core |-> << <<"cd", <<"r", "a">>>> >>, '
                'cat |-> << {<<"x", <<"r", "w">>, <<"r", "b">>>>, <<"hs", <<"r", "q">>>>} >>]')
    ck.design('WeakForm', 'derivations of small formulations keep their meaning', workers=4, timeout=800,
              consts=dict(Conf=small, MaxTerms=1, Ops={'rearr', 'switch', 'ibp', 'dual', 'comm'}, MaxOps=0,
                          MaxWf=4 if thorough else 3, TdMax=1, Rec=False), properties=['Meaning', 'Local'])


OTHER = {'mix': {'MaxTerms': 1, 'MaxWf': 4}, 'long': {'MaxTerms': 6, 'MaxWf': 10}}


def run(ck, ops=DERIVE, tag='derivations', confs=('ph2', 'ns3', 'in2', 'ph2p', 'ap3', 'mix', 'long')):
    thorough = ck.tier == 'thorough'
    cnt = {}

    def one(name):
        if name is None:
            return design(ck, thorough)
        c = wfconf.conf(name)
        consts = dict(Conf=wfconf.tla_conf(c), MaxTerms=2, Ops=ops, MaxOps=0, MaxWf=14, TdMax=2, Rec=True)
        got = ck.generate('WeakForm', 1500 if thorough else 250, 16, consts=dict(consts, **OTHER.get(name, {})))
        res = ck.drive('drv_wf.py', {'seed': core.SEED, 'conf': c, 'traces': got})
        if res.get('crash'):
            return ck.violate(name + ' driver', 'weak formulations could not be exercised', res)
        ck.validate('WeakFormTrace', res['traces'], '%s %s' % (tag, name), consts=dict(consts, Rec=False), workers=2,
                    keyof=lambda t, b: '%s: %s' % (t['ev'][b['step'] - 1]['op'], b['clause']))
        for t in res['traces']:
            for e in t['ev']:
                k = (e['op'], e['res'])
                cnt[k] = cnt.get(k, 0) + 1
        ck.sample(str(res['traces'][0]['ev'][1])[:500])
    ck.parallel(one, (None,) + tuple(confs), workers=6)
    ck.cov['events'] = {'%s/%s' % k: v for k, v in sorted(cnt.items())}
    for op in ops:
        ck.require(cnt.get((op, 'ok')), op + ' never succeeded')
        if op not in ('split', 'replace', 'td'):
            ck.require(cnt.get((op, 'refused')), op + ' never refused')
