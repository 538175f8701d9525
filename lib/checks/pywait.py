"""K01: wait handlers of py_utils.  spec/PyWait*.tla, harness/pywait.py (under harness/pysched.py)."""
import os
import sys
import vf
from checks.wait import Gen

TECH = {'K01': 'TLA+ specification (PyWait) model checked with TLC, and validation with TLC of every history that a deterministic scheduler '
        'of Python threads obtains from the real py_utils'}


def mc(chk, kind, n, calls, values):
    cfg = vf.cfg_text(dict(N=str(n), Calls=str(calls), Kind='"%s"' % kind, Ops='<- ' + {'int': 'IntOps', 'bool': 'BoolOps'}[kind],
                           Values=values), spec='Spec', invariants=['Reasons', 'QuietMeansServed'],
                      properties=['Truth', 'NoLostWakeup', 'BlockingReturns', 'NobodyLeft', 'CloseKeeps'])
    chk.model('PyWaitMC', cfg, 'PyWaitMC %s N=%d calls=%d' % (kind, n, calls))


def wait_op(g, kind, to=None):
    to = g.r.choice([0, 0, 5, 8]) if to is None else to
    if kind == 'bool':
        return 'wait:1:1:%d' % to
    return 'wait:%d:%d:%d' % (g.r.choice([1, 2, 3, 3, 4, 5, 6]), g.r.choice([0, 1, 2]), to)


def changers(kind):
    if kind == 'bool':
        return ['open', 'close', 'open', 'close', 'set:1', 'set:0', 'get']
    if kind == 'gen':
        return ['set:0', 'set:1', 'set:2', 'set:3', 'get']
    return ['inc', 'dec', 'inc:2', 'dec:3', 'inc:-1', 'set:1', 'set:0', 'set:2', 'get']


STATUS = ['dis', 'en', 'bdis', 'isen']


def progs(big):
    g = Gen(61)
    # alone: every relation, value, state, with and without timeout
    for kind in ('int', 'gen', 'bool'):
        for r in range(1, 7):
            for x in (0, 1, 2):
                if kind == 'bool' and (r, x) not in ((1, 1), (3, 1), (6, 2)):
                    continue
                for v in ((0, 1) if kind == 'bool' else (-1, 0, 1, 2)):
                    for en in (0, 1):
                        for to in (-1, 5):
                            g.add(kind, [v, en], ['wait:%d:%d:%d get isen' % (r, x, to)])
        for _ in range(60 if big else 20):
            g.add(kind, [g.r.choice([0, 1]), g.r.choice([0, 1])], [g.seq(changers(kind) + STATUS, 4) + ' get isen'])
    # two threads
    for kind in ('int', 'gen', 'bool'):
        c = changers(kind)
        w = {'int': 'wait:3:2:%d', 'gen': 'wait:1:2:%d', 'bool': 'wait:1:1:%d'}[kind]
        up = {'int': 'inc:2', 'gen': 'set:2', 'bool': 'open'}[kind]
        down = {'int': 'dec:2', 'gen': 'set:0', 'bool': 'close'}[kind]
        for to in (0, 5):
            for other in (up, down, 'dis', 'bdis', up + ' ' + down, 'dis en', 'bdis en', up + ' dis', 'get', 'isen'):
                g.add(kind, [0, 1], [w % to + ' get', other])
                g.add(kind, [0, 1], [w % to, w % 0, other])
            g.add(kind, [0, 1], [w % to, w % to, w % 0, 'sync:3 ' + up])
            g.add(kind, [0, 1], [w % to, w % to, w % 0, 'sync:3 dis'])
            g.add(kind, [0, 1], [w % to, w % to, w % 0, 'sync:3 bdis'])
            g.add(kind, [0, 1], [w % to, w % 0, 'sync:2 bdis en'])
            g.add(kind, [0, 1], [w % 0, w % 0, w % 0, 'sync:3 bdis en'])
            g.add(kind, [0, 1], [w % 0, 'sync:1 bdis en ' + up])
            g.add(kind, [0, 1], [w % to + ' ' + w % to, 'bdis'])
            g.add(kind, [0, 1], [w % to, 'bdis', 'bdis'])
            g.add(kind, [0, 1], [w % to, 'bdis', up])
            g.add(kind, [0, 1], [w % to, 'bdis', 'isen get'])
            g.add(kind, [0, 1], [w % to, 'bdis', 'en'])
            g.add(kind, [0, 0], [w % to, 'en', up])
            # whoever is enabled again before it looks stays, and so does blocking_disable
            for what in ('en ' + down, 'en ' + down + ' dis', 'en dis'):
                g.add(kind, [0, 1], [w % to, 'sync:1 bdis isen', what])
        g.add(kind, [0, 1], ['wait:6:2:0', up, 'dis'])
        g.add(kind, [0, 1], ['wait:6:2:5', up, down])
    # larger values
    for r, x in ((1, 1000), (2, 999), (3, 100000), (4, -1000), (5, -70000)):
        u = 'inc' if x > 0 else 'dec'
        g.add('int', [0, 1], ['wait:%d:%d:0 get' % (r, x), '%s:%d %s:%d' % (u, abs(x) - 300, u, 301 if r in (2, 4) else 300)])
        g.add('int', [0, 1], ['wait:%d:%d:5 get' % (r, x), 'set:%d' % (x + (1 if r == 2 else -1 if r == 4 else 0))])
    # every kind of change awakes everybody
    for kind, v, w, op in (('int', 2, 'wait:4:2:0', 'dec'), ('int', 2, 'wait:5:0:0', 'dec:2'), ('int', 0, 'wait:2:0:0', 'inc'),
                           ('int', 0, 'wait:1:-1:0', 'inc:-1'), ('int', 0, 'wait:1:5:0', 'set:5'), ('gen', 0, 'wait:6:1:0', 'set:7'),
                           ('bool', 0, 'wait:1:1:0', 'set:1')):
        g.add(kind, [v, 1], [w, w, 'sync:2 ' + op])
        g.add(kind, [v, 1], [w, w, w, 'sync:3 ' + op + ' isen'])
        g.add(kind, [v, 1], [w, w, op])
    for i in range(500 if big else 70):
        kind = g.r.choice(['int', 'bool', 'gen'])
        c = changers(kind)
        ths = [wait_op(g, kind), wait_op(g, kind) if g.r.random() < .5 else g.seq(c, 2), g.seq(c + STATUS, 2)]
        g.add(kind, [g.r.choice([0, 1]), g.r.choice([1, 1, 1, 0])], ths)
    for _ in range(60 if big else 10):
        g.add('int', [0, 1], [g.seq(['inc', 'dec', 'inc:2', 'dec:3'], 2) for _ in range(2)] + [g.seq(['inc', 'get'], 2)])
    return g.out


def progs_exact(big):
    g = Gen(62)
    for kind in ('int', 'gen', 'bool'):
        w, idle, meet = {'int': ('wait:1:7:%d', ['inc', 'dec', 'set:3', 'get'], 'set:7'),
                         'gen': ('wait:1:7:%d', ['set:3', 'set:2', 'get'], 'set:7'),
                         'bool': ('wait:1:1:%d', ['close', 'get', 'isen'], 'open')}[kind]
        for to in (3, 10):
            for step in (1, 2, 3, 7):
                for k in range(3):
                    g.add(kind, [0, 1], [w % to, ' '.join('at:%d %s' % (i * step, idle[k]) for i in range(1, 8))])
            for when in (1, to - 1, to + 1, 2 * to):
                for x in (meet, 'dis', 'bdis'):
                    g.add(kind, [0, 1], [w % to, w % (to + 4), 'at:%d %s' % (when, x)])
                    g.add(kind, [0, 1], [w % to + ' ' + w % to, 'at:%d %s' % (when, x)])
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    for k in ('int', 'bool'):
        mc(chk, k, 3, 1, '{0, 1}')
        if big:
            mc(chk, k, 2, 2, '{0, 1}')
    os.environ['PYROOT'] = vf.REPO + '/py_utils'
    b = [sys.executable, vf.VERIF + '/harness/pywait.py']
    vf.conc(chk, b, progs(big), 'PyWaitTrace',
            dict(dfs=20000 if big else 800, random=4000 if big else 60, preempt=3 if big else 2, early=1, distinct=5000 if big else 400),
            secs=300 if big else 70)
    vf.conc(chk, b, progs_exact(big), 'PyWaitTrace',
            dict(dfs=2000 if big else 100, random=100 if big else 10, preempt=1, early=0), secs=100 if big else 30)
    chk.assumptions = ['locks, and conditions (those of the threading module of Python) built on them, and time are played by the scheduler; '
                       'threads switch at locks and at accesses to the attributes that the handlers change']
    return chk.finish()


CHECKS = {'K01': lambda: run('K01')}
