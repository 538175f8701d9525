"""Y01: singletons.  spec/Single*.tla, harness/single.cpp."""
import itertools
import vf
from checks.wait import Gen

GET = ['get:0', 'gets:0:%d', 'get:1', 'gets:1:%d', 'get:2']
SAFE = GET + ['getn:0', 'getsn:0:%d', 'init:0:3', 'init:0:4', 'init:1:5', 'init:2:6', 'getn:1']
TAIL = ' see:0 see:1 gets:0:0 gets:1:1 gets:2:2 drop:0 drop:3'
REF = ['see:%d', 'drop:%d']


def at(ops, t):
    return ' '.join(o % t if '%d' in o else o for o in ops)


def seqs(big):
    g = Gen(91)
    for k, ops in (('sg', GET + REF), ('sf', SAFE + REF), ('in', SAFE + REF)):
        for n in (1, 2, 3) if big else (1, 2):
            for s in itertools.product(ops, repeat=n):
                g.add(k, [], [at(s, 0) + TAIL], preempt=0)
        for _ in range(3000 if big else 300):
            g.add(k, [], [' '.join(at([o], g.r.randint(0, 3)) for o in g.r.choices(ops, k=g.r.choice([3, 6, 12]))) + TAIL], preempt=0)
    return g.out


def progs(big):
    g = Gen(92)
    for k, ops in (('sg', GET[:4]), ('sf', SAFE[:2] + SAFE[5:9] + SAFE[2:3])):
        for a, b in itertools.product(ops, repeat=2):
            g.add(k, [], [at([a], 1), at([b], 2)], 'gets:0:0')
            g.add(k, [], [at([a, ops[0]], 1), at([b, 'see:%d'], 2)])
        for _ in range(200 if big else 30):
            g.add(k, [], [at(g.r.choices(ops, k=2), 1), at(g.r.choices(ops, k=2), 2)])
            g.add(k, [], [at(g.r.choices(ops, k=1), 1), at(g.r.choices(ops, k=1), 2), at(g.r.choices(ops, k=1), 3)])
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    for k in ('sg', 'sf', 'in'):
        inv = ['OneEach', 'AliveHeld', 'Distinct']
        chk.model('SingleMC', vf.cfg_text(dict(N='3' if big and k != 'in' else '2', Calls='2', Kind='"%s"' % k), spec='Spec', invariants=inv,
                                          properties=['Stable', 'Returns']), 'SingleMC ' + k)
    b = vf.build('single', [])
    vf.conc(chk, b, seqs(big), 'SingleTrace', dict(dfs=1, random=0, preempt=0, early=0, spurious=0), secs=200 if big else 30)
    opts = dict(dfs=10000 if big else 1000, random=10000 if big else 200, preempt=3 if big else 2,
                distinct=1000 if big else 150, spurious=0, early=0)
    vf.conc(chk, b, progs(big), 'SingleTrace', opts, secs=300 if big else 40)
    chk.assumptions = ['sequentially consistent memory', 'InitializableSingleton is used by one thread (documented)',
                       'destruction at the end of the process is not exercised']
    return chk.finish()


CHECKS = {'Y01': lambda: run('Y01')}
