"""N02: random managers.  spec/Rand*.tla, harness/rnd.cpp."""
import itertools
import vf
from checks.wait import Gen

OPS = ['seq', 'rand', 'seeded:1', 'seeded:3', 'rands:0', 'rands:9', 'pure', 'randp', 'seed:1', 'seed:4', 'seed:8', 'seed:0']


def seqs(big):
    g = Gen(81)
    for k in ('rm', 'ts'):
        for init in ([], [0], [1], [5], [9]):
            for n in (1, 2, 3) if not big else (1, 2, 3, 4):
                for ops in itertools.product(OPS, repeat=n) if init == [] or n < 3 else [g.r.choices(OPS, k=n) for _ in range(100)]:
                    g.add(k, init, [' '.join(ops) + ' seq seq'], preempt=0)
        for _ in range(2000 if big else 300):
            g.add(k, [g.r.randint(0, 9)], [g.seq(OPS + ['seq'] * 6, 30)], preempt=0)
    return g.out


def progs(big):
    g = Gen(82)
    one = ['seq', 'rand', 'seeded:3', 'rands:5', 'seed:4', 'pure', 'randp']
    for a, b in itertools.combinations_with_replacement(one, 2):
        for c, d in [('seq', 'seq'), ('seeded:2', 'seeded:7'), (g.r.choice(one), g.r.choice(one))]:
            g.add('ts', [g.r.choice([1, 3])], ['%s %s' % (a, c), '%s %s' % (b, d)])
    for a, b, c in itertools.combinations_with_replacement(one[:5], 3):
        g.add('ts', [2], [a, b, c])
    for _ in range(200 if big else 30):
        g.add('ts', [], [g.seq(one, 2), g.seq(one, 2), g.seq(one, 2)])
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    chk.model('RandMC', vf.cfg_text(dict(N='2', Calls='4' if big else '3'), spec='Spec', invariants=['Sequence'],
                                    properties=['Independent']), 'RandMC')
    b = vf.build('rnd', ['math/random/RandomManager', 'math/random/TSafeRandomManager'])
    vf.conc(chk, b, seqs(big), 'RandTrace', dict(dfs=1, random=0, preempt=0, early=0, spurious=0, steps=2000000),
            secs=200 if big else 30)
    opts = dict(dfs=2000 if big else 300, random=2000 if big else 100, preempt=2, distinct=1000 if big else 200, spurious=0,
                early=0, steps=2000000)
    vf.conc(chk, b, progs(big), 'RandTrace', opts, secs=300 if big else 30)
    chk.assumptions = ['a number is recognised by its value among the first 40 of ten seeds', 'sequentially consistent memory']
    return chk.finish()


CHECKS = {'N02': lambda: run('N02')}
