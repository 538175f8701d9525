"""E01-E04: event handlers.  spec/Event*.tla, harness/event.cpp."""
import vf
from checks.wait import Gen, SRC

ESRC = SRC + ['event/MultipleEventHandler', 'event/PeriodicEventHandler']


def progs_e01(big):
    g = Gen(11)
    k, i = 'ev', [0, 0]
    for b in range(0, 8):
        if b == 5:
            continue
        g.add(k, i, ['set:1:%d ev:5 ev:6 count unset' % b])
        g.add(k, i, ['set:1:%d ev:5' % b, 'ev:7'])
        if b not in (1, 3):
            g.add(k, i, ['set:1:%d ev:5 unset' % b, 'ev:7 ev:8'])
            g.add(k, i, ['set:1:%d set:2:0' % b, 'ev:7 ev:8'])
            g.add(k, i, ['set:1:%d unset set:2:0' % b, 'ev:7', 'ev:8'])
    g.add(k, i, ['ev:5 set:1:0 ev:6 unset ev:7 set:2:0 ev:8'])
    g.add(k, i, ['unset unset set:1:0 set:2:0 set:3:0 ev:1 unset unset'])
    g.add(k, i, ['set:1:0', 'set:2:0', 'ev:5', 'ev:6'])
    g.add(k, i, ['set:1:0 unset', 'set:2:0 unset', 'ev:5 ev:6'])
    g.add(k, i, ['set:1:0 unset', 'unset set:2:0', 'ev:5 ev:6'])
    g.add(k, i, ['set:1:9 flag:7 unset', 'await:7 ev:5', 'await:7 flag:1'])
    g.add(k, i, ['set:1:9 flag:7', 'await:7 ev:5', 'await:7 unset', 'await:7 flag:1 ev:6'])
    g.add(k, i, ['set:1:0 ev:5 ev:6', 'set:2:0 ev:7 ev:8', 'unset'])
    for _ in range(400 if big else 60):
        ths = []
        b = g.r.choice([0, 0, 4, 6, 7, 2])
        ths.append(g.seq(['set:1:%d' % b, 'set:2:0', 'unset', 'ev:1'], 3))
        ths.append(g.seq(['ev:2', 'ev:3', 'set:3:%d' % b, 'unset', 'count'], 2))
        ths.append(g.seq(['ev:4', 'ev:5'], g.r.choice([1, 2])))
        g.add(k, i, ths)
    return g.out


def progs_e02(big):
    g = Gen(12)
    k, i = 'ev', [0, 0]
    g.add(k, i, ['count ev:1 count set:1:0 ev:1 count ev:2 count decr count decr decr count ev:3 reset count'])
    g.add(k, i, ['wait:1 wait:0 set:1:0 ev:1 wait:1 unset wait:1 wait:2 reset wait:1'])
    for n in (1, 2):
        w = 'wait:%d' % n
        g.add(k, i, ['set:1:0 ev:1 ev:2', w])
        g.add(k, i, ['set:1:0 flag:7 ev:1 ev:2', 'await:7 ' + w])
        g.add(k, i, ['set:1:0 flag:7 ev:1', 'await:7 ' + w, 'await:7 ev:2'])
        g.add(k, i, ['set:1:0 flag:7 ev:1 unset', 'await:7 ' + w])
        g.add(k, i, ['set:1:0 flag:7 unset', 'await:7 ' + w, 'await:7 ' + w])
        g.add(k, i, ['set:1:0 flag:7 unset set:2:0', 'await:7 ' + w, 'await:7 ev:4'])
        g.add(k, i, ['set:1:0 flag:7 sync:1 ev:1 ev:2', 'await:7 ' + w])
        g.add(k, i, ['set:1:0 flag:7 sync:2 ev:1 ev:2', 'await:7 ' + w, 'await:7 wait:1'])
        g.add(k, i, ['set:1:0 flag:7 sync:2 unset', 'await:7 ' + w, 'await:7 wait:2'])
        g.add(k, i, ['set:1:0 flag:7 sync:1 unset set:2:0', 'await:7 ' + w])
        g.add(k, i, ['set:1:0 flag:7 sync:2 unset set:2:0', 'await:7 ' + w, 'await:7 wait:2'])
        g.add(k, i, ['set:1:0 flag:7 ev:1 decr', 'await:7 ' + w])
        g.add(k, i, ['set:1:0 flag:7 ev:1 reset unset', 'await:7 ' + w])
        g.add(k, i, ['set:1:0 flag:7 ev:1 ev:2 unset', 'await:7 %s count' % w, 'await:7 decr'])
    g.add(k, i, ['set:1:0 flag:7', 'await:7 ev:1', 'await:7 ev:2', 'await:7 wait:2 count'])
    g.add(k, i, ['set:1:0 flag:7 ev:3', 'await:7 ev:1', 'await:7 ev:2', 'await:7 wait:3 count'])
    g.add(k, i, ['set:1:0 flag:7 ev:1', 'await:7 ev:1', 'await:7 decr', 'await:7 count count'])
    g.add(k, i, ['set:1:0 ev:1 ev:2 flag:7', 'await:7 decr', 'await:7 decr', 'await:7 ev:3 count'])
    g.add(k, i, ['set:1:0 ev:1 ev:2 flag:7 decr', 'await:7 decr', 'await:7 decr'])
    g.add(k, i, ['set:1:0 ev:1 ev:2 flag:7 reset', 'await:7 decr', 'await:7 ev:1 count'])
    # large counts
    for n in (15, 16, 17, 33, 127, 128, 129, 255, 256, 257, 300):
        g.add(k, i, ['set:1:0 ' + 'ev:1 ' * n + 'count wait:%d wait:%d decr count wait:%d unset wait:%d' % (n, n - 1, n - 1, n + 1)],
              preempt=0)
        if n < 130:
            g.add(k, i, ['set:1:0 flag:7 ' + 'ev:1 ' * (n - 1) + 'sync:1 ev:2', 'await:7 wait:%d count' % n], preempt=0)
            g.add(k, i, ['set:1:0 flag:7 ' + 'ev:1 ' * (n - 1) + 'sync:1 unset', 'await:7 wait:%d count' % n], preempt=0)
    for _ in range(400 if big else 60):
        ws = ['wait:1', 'wait:2', 'count', 'decr', 'reset', 'wait:1']
        ths = ['set:1:%d flag:7 ' % g.r.choice([0, 0, 4]) + g.seq(['ev:1', 'unset', 'set:2:0', 'ev:2'], 2),
               'await:7 ' + g.seq(ws, 2), 'await:7 ' + g.seq(ws + ['ev:3', 'ev:4', 'ev:5'], 2)]
        g.add(k, i, ths)
    return g.out


def progs_e03(big, strict):
    g = Gen(13 + strict)
    P = 10
    i = [strict, P]
    ctl = ['set:1:0 at:5 unset', 'set:1:0 at:10 unset', 'set:1:0 at:15 unset', 'set:1:0 at:35 count unset count',
           'set:1:0 at:25 unset at:31 set:2:0 at:52 unset', 'set:1:0 at:5 set:2:0 at:25 set:3:0 at:31 unset',
           'set:1:0 at:10 set:2:0 at:20 unset', 'set:1:0 at:4 unset set:2:0 at:13 unset', 'set:1:0 unset',
           'set:1:0 unset set:2:0 unset', 'at:7 set:1:0 at:17 unset', 'set:1:5 at:30 unset', 'set:1:5 at:13 unset',
           'set:1:5 at:12 set:2:0 at:44 unset', 'set:1:0 wait:2 unset', 'set:1:0 wait:1 reset wait:2 count unset',
           'set:1:0 at:3 unset at:12 unset set:1:0 at:24 del', 'set:1:0 at:20 del', 'set:1:0 at:18 del', 'set:1:5 at:14 del']
    if not strict:
        ctl = [c for c in ctl if ':5 ' not in c]
    for kind in ('per', 'perl'):
        for c in ctl:
            if kind == 'perl' and not c.startswith('set'):
                continue
            g.add(kind, i, [c])
    for c in ctl[:10]:
        g.add('per', i, [c, 'flag:0'])
        g.add('per', i, [c, 'at:10 ev:0'])
        g.add('per', i, [c, 'at:10 unset'])
        if 'del' not in c:
            g.add('per', i, [c, 'at:10 wait:1 count'])
            g.add('per', i, [c, 'wait:1'])
    g.add('per', i, ['make:0 make:5 make:1'])
    g.add('per', [strict, 1], ['set:1:0 at:3 unset'])
    g.add('per', [strict, 20], ['set:1:0 at:3 unset at:10 set:2:0 at:29 unset at:30'])
    g.add('per', i, ['set:1:9 at:11 unset', 'at:12 flag:1'])
    g.add('per', i, ['set:1:9 at:11 unset', 'at:25 flag:1'])
    for _ in range(200 if big else 25):
        t, ops = 0, []
        for _ in range(g.r.choice([2, 3, 4])):
            t += g.r.choice([0, 3, 5, 10, 10, 12])
            ops += ['at:%d' % t, g.r.choice(['set:1:0', 'set:2:0', 'unset', 'count', 'set:1:0'])]
        ops.append('unset')
        ths = [' '.join(ops)]
        if g.r.random() < .5:
            ths.append('at:%d %s' % (g.r.choice([0, 10, 13, 20]), g.r.choice(['ev:0', 'count', 'wait:1', 'decr', 'reset'])))
        g.add('per', i, ths)
    return g.out


def progs_e04(big):
    g = Gen(15)
    for kind in ('multi',):
        i = [0, 0, 0, 0]
        g.add(kind, i, ['set:1:0 reg:1 iev:5:1 reg:2 iev:6:2 iev:7:1 count icount:1 icount:2 unset iev:8:1 count icount:1'])
        g.add(kind, i, ['reg:1 iev:5:1 set:1:0 iev:6:1 unset iev:7:1 set:2:0 iev:8:1 count iev:9:2'])
        g.add(kind, i, ['iev:5:1 reg:1 reg:2 set:1:0 set:2:0 iev:6:1 iev:6:2 ev:0 reset iev:6:1 decr count'])
        g.add(kind, i, ['set:1:0 reg:1 reg:2', 'iev:5:1 iev:6:1', 'iev:7:2'])
        g.add(kind, i, ['set:1:0 reg:1 reg:2 flag:7 unset', 'await:7 iev:5:1 iev:6:1', 'await:7 iev:7:2'])
        g.add(kind, i, ['set:1:0 reg:1 reg:2 flag:7 set:2:0', 'await:7 iev:5:1 iev:6:1', 'await:7 iev:7:2'])
        g.add(kind, i, ['reg:1 reg:2 set:1:0 flag:7 wait:2', 'await:7 iev:5:1', 'await:7 iev:7:2'])
        g.add(kind, i, ['reg:1 reg:2 set:1:0 flag:7 wait:3 count', 'await:7 iev:5:1 iev:3:1', 'await:7 iev:7:2'])
        g.add(kind, i, ['set:1:0 reg:1 flag:7 reg:2 flag:6', 'await:7 iev:5:1 iev:6:1', 'await:6 iev:7:2', 'await:7 ev:0'])
        g.add(kind, i, ['reg:1 reg:2 set:1:0 flag:7 unset set:2:0', 'await:7 iev:5:1', 'await:7 iev:6:2 wait:1'])
        g.add(kind, i, ['reg:1 reg:2 set:1:9 flag:7 sync:1', 'await:7 iev:5:1', 'await:7 iev:6:2', 'await:7 flag:1'])
        g.add(kind, i, ['reg:1 reg:2 flag:7 set:1:0', 'await:7 iev:5:1', 'await:7 iev:6:1 iev:7:2'])
        # many internal handlers
        for n in (3, 4, 5, 7):
            regs = ' '.join('reg:%d' % (j + 1) for j in range(n))
            evs = ' '.join('iev:%d:%d' % (j + 5, j + 1) for j in range(n))
            j = [0] * (n + 2)
            g.add(kind, j, ['%s set:1:0 %s count unset %s set:2:0 %s count' % (regs, evs, evs, evs)], preempt=0)
            g.add(kind, j, ['set:1:0 %s %s count icount:%d icount:1 unset %s' % (regs, evs, n, evs)], preempt=0)
            g.add(kind, j, ['%s set:1:0 flag:7 wait:%d' % (regs, n), 'await:7 ' + evs], preempt=0)
        for _ in range(200 if big else 30):
            ths = ['reg:1 %s flag:7 ' % g.r.choice(['set:1:0', 'set:1:0', 'reg:2', ''])
                   + g.seq(['unset', 'set:1:0', 'set:2:0', 'count', 'iev:1:1'], 3)]
            ths.append('await:7 ' + g.seq(['iev:2:1', 'iev:3:1', 'iev:4:2', 'ev:0'], 2))
            ths.append('await:7 ' + g.seq(['iev:2:2', 'iev:3:1', 'ev:0', 'icount:1', 'count'], g.r.choice([1, 2])))
            g.add(kind, i, ths)
    return g.out


def progs_e04t(big):
    # handlers with a thread of their own
    g = Gen(16)
    for kind in ('multi',):
        for i in ([1, 0, 10, 0], [1, 0, 10, 15], [1, 0, 10, 10]):
            g.add(kind, i, ['set:1:0 reg:1 reg:2 at:25 del'])
            g.add(kind, i, ['set:1:0 reg:1 reg:2 at:20 del'])
            g.add(kind, i, ['reg:1 reg:2 at:15 set:1:0 at:25 unset at:32 set:2:0 wait:2 del'])
            g.add(kind, i, ['set:1:0 reg:1 reg:2 wait:3 del'])
            g.add(kind, i, ['set:1:0 reg:1 reg:2 flag:7 at:20 unset', 'await:7 iev:5:1', 'at:10 count'])
    return g.out


def model(chk, pid, big):
    inv = ['Serial', 'Exact', 'AfterUnset', 'TimerStops', 'Spaced']
    props = ['UnsetBlocks', 'UnsetReturns', 'WaitReturns']

    def mc(kind, n, calls, maxnow, nested, ps):
        chk.model('EventMC', vf.cfg_text(dict(Kind='"%s"' % kind, N=str(n), Calls=str(calls), MaxNow=str(maxnow),
                                              Nested='TRUE' if nested else 'FALSE'),
                                         spec='Spec', invariants=inv, properties=ps),
                  'EventMC %s threads=%d calls=%d' % (kind, n + 1, calls))
    if pid in ('E01', 'E02'):
        mc('ev', 2, 2, 0, False, props)
        mc('ev', 2, 1 if not big else 2, 0, True, [])
        if big:
            mc('ev', 3, 2, 0, False, [])
    elif pid == 'E03':
        mc('per', 1, 2, 6 if not big else 9, False, props)
        if big:
            mc('per', 2, 2, 6, False, [])
    else:
        mc('multi', 2, 1, 0, False, props + ['Relayed'])
        mc('multi', 2, 2, 0, False, ['UnsetBlocks'])
        if big:
            mc('multi', 2, 2, 0, False, props + ['Relayed'])
            mc('multi', 3, 2, 0, False, [])


def run(pid, progs, more=None):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    model(chk, pid, big)
    b = vf.build('event', ESRC)
    opts = dict(dfs=20000 if big else 2000, random=20000 if big else 400, preempt=3 if big else 2,
                distinct=4000 if big else 500)
    if pid == 'E03':
        o = dict(opts, early=0, spurious=1, distinct=300)
        vf.conc(chk, b, progs_e03(big, 1), 'EventTrace', o, secs=200 if big else 40)
        vf.conc(chk, b, progs_e03(big, 0), 'EventTrace', opts, secs=200 if big else 40)
    elif pid == 'E04':
        vf.conc(chk, b, progs_e04(big), 'EventTrace', opts, secs=200 if big else 40)
        o = dict(opts, early=0, distinct=200)
        vf.conc(chk, b, progs_e04t(big), 'EventTrace', o, secs=200 if big else 40)
    else:
        vf.conc(chk, b, progs(big), 'EventTrace', opts, secs=400 if big else 80)
    chk.assumptions = ['sequentially consistent memory',
                       'a callback does not set or unset its handler while another thread does (the locks of the two '
                       'directions are taken in opposite order)',
                       'a periodic handler is not unset by its own callback (its thread would join itself)']
    return chk.finish()


CHECKS = {'E01': lambda: run('E01', progs_e01), 'E02': lambda: run('E02', progs_e02),
          'E03': lambda: run('E03', None), 'E04': lambda: run('E04', progs_e04)}
