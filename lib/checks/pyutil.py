"""K02: timer, logger and debug helpers of py_utils.  spec/PyUtil*.tla, harness/pyutil.py."""
import os
import sys
import vf
from checks.wait import Gen

TECH = {'K02': 'TLA+ specification (PyUtil) model checked with TLC; generated programs run on the real py_utils and TLC validates every '
        'history against the specification'}
LV = [10, 20, 25, 30, 40, 50]


def log_op(g, n):
    l = g.r.randrange(1, n + 1)
    x = g.r.random()
    if x < .4:
        return 'log:%d:%d:%d' % (l, g.r.choice(LV), g.r.randrange(5))
    if x < .5:
        return 'lev:%d:%d' % (l, g.r.choice(LV))
    if x < .55:
        return 'std:%d:%d' % (l, g.r.choice(LV))
    if x < .6:
        return 'dbg:%d' % l
    if x < .7:
        return 'fmt:%d:%d' % (l, g.r.randrange(3))
    if x < .74:
        return 'addh:%d' % l
    if x < .79:
        return 'dis:%d' % g.r.choice([0, 0, 0, 10, 25, 30])
    if x < .85:
        return 'on:%d:%d' % (l, g.r.choice(LV))
    if x < .95:
        return 'call:%d:%d' % (g.r.randrange(1, 7), g.r.randrange(5))
    return 'intro:%d' % g.r.randrange(1, 5)


def progs(big):
    g = Gen(71)
    for _ in range(400 if big else 60):
        g.add('timer', [0], [' '.join(g.r.choice(['sleep:%d' % g.r.choice([1, 3, 20, 999, 60000, 600007]), 'reset', 'el', 'el']) for _ in range(8)) + ' el'])
    # every level against every level, before and after each way to change it
    for v in LV:
        for w in LV:
            for how in ('lev:1:%d' % w, 'std:1:%d' % w, 'dbg:1', 'dis:%d' % w, 'fmt:1:1', 'addh:1'):
                g.add('log', [20], ['log:1:%d:0 lev:1:%d log:1:%d:1 %s log:1:%d:0 on:1:%d' % (v, v, w, how, w, v)])
            g.add('log', [20, v], ['log:2:%d:0 lev:2:%d log:2:%d:0 log:1:%d:0 lev:1:%d log:2:%d:4' % (w, w, v, v, w, w)])
    for f in range(1, 7):
        for x in range(5):
            g.add('log', [20], ['call:%d:%d dbg:1 call:%d:%d lev:1:20 call:%d:%d' % ((f, x) * 3)])
    for o in range(1, 5):
        g.add('log', [20], ['intro:%d dbg:1 intro:%d fmt:1:2 intro:%d' % (o, o, o)])
    for _ in range(6000 if big else 500):
        n = g.r.choice([1, 1, 2, 3])
        g.add('log', [20] + [g.r.choice(LV) for _ in range(n - 1)], [' '.join(log_op(g, n) for _ in range(g.r.choice([6, 10, 14])))])
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    chk.model('PyUtilMC', vf.cfg_text(dict(Steps='6' if big else '4'), spec='Spec', invariants=['Printed', 'Transparent'], properties=['Apart']), 'PyUtilMC')
    os.environ['PYROOT'] = vf.REPO + '/py_utils'
    b = [sys.executable, vf.VERIF + '/harness/pyutil.py']
    vf.conc(chk, b, progs(big), 'PyUtilTrace', dict(dfs=1, random=0, preempt=0, early=0), secs=300 if big else 60)
    chk.assumptions = ['time is played by the scheduler; the standard logging module is trusted']
    return chk.finish()


CHECKS = {'K02': lambda: run('K02')}
SEQUENTIAL = ('K02',)
