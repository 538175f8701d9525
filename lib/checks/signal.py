"""E05: signals.  spec/Signal*.tla, harness/signal.cpp."""
import vf
from checks.wait import Gen, SRC


def progs(big):
    g = Gen(21)
    k, i = 'sig', []
    for b in (0, 1):
        g.add(k, i, ['set:1:1:%d sig' % b])
        g.add(k, i, ['set:1:1:%d sig sig sig' % b])
        g.add(k, i, ['set:1:1:%d set:2:2 sig sig' % b])
        g.add(k, i, ['set:1:1:%d flag:7 sig' % b, 'await:7 sig'])
        g.add(k, i, ['set:1:1:%d set:2:2:%d flag:7' % (b, b), 'await:7 sig', 'await:7 sig'])
        g.add(k, i, ['areg:11:5:%d areg:12:6 sig' % b if not b else 'areg:11:5 sig sig'])
        g.add(k, i, ['set:1:1:%d sig wait:1:1 unset:1 sig count:1' % b])
        g.add(k, i, ['set:1:1:%d sig wait:1:1 set:1:2 sig wait:1:2 unset:1 set:1:3 sig' % b])
        g.add(k, i, ['set:1:1:%d set:2:2 flag:7 unset:1' % b, 'await:7 sig sig'])
        g.add(k, i, ['set:1:1:%d flag:7 unset:1 set:1:2' % b, 'await:7 sig'])
        g.add(k, i, ['set:1:1:%d flag:7 hdel:1' % b, 'await:7 sig'])
        g.add(k, i, ['set:1:1:%d flag:7 set:2:2' % b, 'await:7 sig sig'])
        g.add(k, i, ['set:1:1:%d flag:7 wait:1:2 count:1' % b, 'await:7 sig sig'])
        g.add(k, i, ['set:1:1:%d sig' % b, 'set:2:2', 'set:3:3'])
        g.add(k, i, ['set:1:1:%d set:2:2 flag:7 unset:1' % b, 'await:7 unset:2', 'await:7 sig'])
    g.add(k, i, ['set:1:1 set:2:2 sig wait:1:1 wait:2:1 unset:1 sig wait:2:2 count:1 unset:2 sig count:1 count:2'])
    g.add(k, i, ['mk:1 sig wait:1:1 count:1 set:1:3 sig wait:1:2 hdel:1 sig set:1:4 sig'])
    g.add(k, i, ['mk:1 mk:2 sig flag:7', 'await:7 wait:1:1', 'await:7 wait:2:1'])
    g.add(k, i, ['aunreg:11 areg:11:5 aunreg:11 aunreg:11 areg:11:6 areg:12:7 sig aunreg:12'])
    g.add(k, i, ['areg:11:5 areg:12:6 areg:13:7', 'sig', 'set:1:1'])
    g.add(k, i, ['areg:11:5', 'areg:12:6', 'areg:13:7'])
    g.add(k, i, ['areg:11:5 aunreg:11', 'areg:12:6 aunreg:12', 'sig'])
    g.add(k, i, ['set:1:1:2 flag:7 sig', 'await:7 sig', 'await:7 flag:1 sig'])
    g.add(k, i, ['set:1:1:2 set:2:2 sig sig flag:7', 'await:7 unset:1', 'await:7 sig flag:1'])
    # many entries and many signals, received one by one or while a callback runs
    full = 'set:1:1 set:2:2 set:3:3 areg:11:5 areg:12:6 areg:13:7 '
    g.add(k, i, [full + 'sig'], preempt=0)
    g.add(k, i, [full + 'unset:2 aunreg:12 sig'], preempt=0)
    g.add(k, i, ['mk:1 mk:2 mk:3 sig wait:1:1 wait:2:1 wait:3:1 ' * 3], preempt=0)
    for n in (5, 9, 20):
        g.add(k, i, ['set:1:1 ' + 'sig ' * n + 'wait:1:%d' % n], preempt=0)
        g.add(k, i, ['mk:1 ' + 'sig ' * n + 'wait:1:%d count:1' % n], preempt=0)
        g.add(k, i, ['set:1:1:2 ' + 'sig ' * n + 'flag:1 wait:1:%d' % n], preempt=0)
    for _ in range(200 if big else 30):
        b = g.r.choice([0, 0, 1])
        ths = ['set:1:1:%d %s flag:7 ' % (b, g.r.choice(['', 'set:2:2', 'areg:11:5']))
               + g.seq(['unset:1', 'set:1:3', 'set:2:4', 'sig', 'count:1'], 2),
               'await:7 ' + g.seq(['sig', 'sig', 'areg:12:6', 'count:1'], g.r.choice([1, 2]))]
        if g.r.random() < .5:
            ths.append('await:7 ' + g.seq(['sig', 'unset:1', 'count:1'], 1))
        g.add(k, i, ths)
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    inv = ['NoneLost', 'AtMost', 'CountIsCalls', 'NeverUnset']
    ps = ['UnsetNotRunning', 'Served', 'UnsetReturns']
    chk.model('SignalMC', vf.cfg_text(dict(N='2', Calls='2', Sigs='2'), spec='Spec', invariants=inv, properties=ps),
              'SignalMC 2 signals, 2 controllers with 2 calls')
    if big:
        chk.model('SignalMC', vf.cfg_text(dict(N='2', Calls='3', Sigs='3'), spec='Spec', invariants=inv),
                  'SignalMC 3 signals, 2 controllers with 3 calls')
    b = vf.build('signal', SRC)
    opts = dict(dfs=20000 if big else 2000, random=20000 if big else 400, preempt=3 if big else 2,
                distinct=4000 if big else 400, spurious=0, early=0)
    vf.conc(chk, b, progs(big), 'SignalTrace', opts, secs=400 if big else 60)
    chk.assumptions = ['sequentially consistent memory', 'the installed function is called by the harness instead of the kernel',
                       'a callback does not set or unset its own handler']
    return chk.finish()


CHECKS = {'E05': lambda: run('E05')}
