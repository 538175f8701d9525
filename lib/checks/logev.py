"""E07: log events.  spec/LogEv*.tla, harness/logev.cpp."""
import vf
from checks.wait import Gen, SRC

LSRC = SRC + ['event/logging/LogEventHandler', 'event/logging/LogSevereEventHandler',
              'event/logging/LogConsumerConnection', 'testing/LogChecker']


def progs(big):
    g = Gen(31)
    k, i = 'log', []
    allk = 'verb:2 log:0:1 log:1:2 log:2:3 log:1:4 log:0:5'
    # one thread: every kind against every threshold
    for b in (0, 1, 4):
        g.add(k, i, ['mkc:1:7:%d %s flush count:1' % (b, allk)])
        for thr in (0, 1, 2):
            g.add(k, i, ['mks:1:7:%d:%d %s flush count:1 unset:1 log:0:6 flush set:1:8 log:0:7 flush count:1' % (thr, b, allk)])
    for thr in (0, 1, 2):
        g.add(k, i, ['mks:1:7:%d log:0:1 log:1:2 log:2:3 flush count:1' % thr])
        for lo, hi in ((0, 0), (1, 0), (1, 2), (2, 1), (3, 1), (2, 2), (3, 3), (4, 5), (0, 9)):
            g.add(k, i, ['chk:1:%d:%d:%d valid:1 log:0:1 valid:1 verb:2 log:1:2 log:2:3 valid:1 log:0:4 log:2:5 valid:1 '
                         'log:1:6 log:1:7 valid:1' % (thr, lo, hi)])
    # many entries
    for n in (12, 40, 110):
        many = ' '.join('log:%d:%d' % (g.r.randint(0, 2), x % 60) for x in range(n))
        for mk in ('mkc:1:7:0', 'mks:1:7:1:0', 'mks:1:7:0:0', 'chk:1:0:2:3', 'chk:1:1:0:500', 'mk:1'):
            g.add(k, i, ['verb:2 %s %s flush %s log:0:1 log:1:2' % (mk, many, 'valid:1' if mk[0] == 'c' else 'count:1')], preempt=0)
        g.add(k, i, ['verb:2 mkc:1:7:0 mkc:2:8:0 mks:3:9:2:0 %s flush count:1 count:2 count:3' % many], preempt=0)
    g.add(k, i, ['mk:1 log:0:1 flush count:1 set:1:7 log:0:2 flush count:1 set:1:8 log:0:3 flush unset:1 log:0:4 flush count:1'])
    g.add(k, i, ['mkc:1:7 mks:2:8:0 verb:1 log:1:1 log:0:2 hdel:1 log:0:3 log:1:4 flush count:2'])
    g.add(k, i, ['mkc:1:7 log:0:1 wait:1:1 log:0:2 wait:1:2 count:1 unset:1 wait:1:3'])
    g.add(k, i, ['mkc:1:7:3 log:0:1 log:0:2 flush count:1 set:1:8 log:0:3 flush count:1'])
    # entries of other threads
    for mk in ('mkc:1:7', 'mks:1:7:0', 'mks:1:7:1', 'mkc:1:7:1', 'mks:1:7:0:4'):
        if not mk.endswith(':4'):      # (the callback uses the handler)
            g.add(k, i, ['verb:2 flag:7 ' + mk, 'await:7 log:0:1 log:1:2'])
        if not mk.endswith(':4'):      # (the callback uses the handler)
            g.add(k, i, ['verb:2 flag:7 ' + mk, 'await:7 log:2:1 log:1:2'])
        g.add(k, i, ['verb:2 %s flag:7 unset:1' % mk, 'await:7 log:0:1 log:1:2'])
        g.add(k, i, ['verb:2 %s flag:7 unset:1 set:1:8' % mk, 'await:7 log:0:1 log:0:2'])
        g.add(k, i, ['verb:2 %s flag:7 set:1:8' % mk, 'await:7 log:0:1 log:0:2'])
        g.add(k, i, ['verb:2 %s flag:7 hdel:1' % mk, 'await:7 log:0:1 log:1:2'])
        g.add(k, i, ['verb:2 %s flag:7 hdel:1' % mk, 'await:7 log:1:1 log:0:2'])
        g.add(k, i, ['verb:2 %s flag:7 hdel:1' % mk, 'await:7 log:2:1 log:2:2'])
        g.add(k, i, ['verb:2 %s mkc:2:8 flag:7 hdel:1' % mk, 'await:7 log:0:1'])
        g.add(k, i, ['verb:2 %s flag:7' % mk, 'await:7 log:0:1', 'await:7 log:0:2', 'await:7 wait:1:2 count:1'])
        g.add(k, i, ['verb:2 %s flag:7 sync:1 unset:1' % mk, 'await:7 wait:1:2', 'await:7 log:0:1'])
        g.add(k, i, ['verb:2 %s' % mk.replace(':0:4', ':0'), 'mkc:2:8', 'log:0:1'])
    for thr, lo, hi in ((0, 1, 1), (1, 1, 1), (1, 0, 0), (0, 0, 1), (2, 2, 2)):
        g.add(k, i, ['verb:2 flag:7 chk:1:%d:%d:%d valid:1' % (thr, lo, hi), 'await:7 log:0:1', 'await:7 log:1:2'])
        g.add(k, i, ['verb:2 chk:1:%d:%d:%d flag:7 valid:1' % (thr, lo, hi), 'await:7 log:2:1 log:1:2'])
    g.add(k, i, ['mkc:1:7:2 log:0:1 flag:7', 'await:7 unset:1 log:0:2', 'await:7 flag:1'])
    g.add(k, i, ['mkc:1:7:2 log:0:1 flag:7', 'await:7 hdel:1 log:0:2', 'await:7 flag:1'])
    g.add(k, i, ['mkc:1:7:2 log:0:1 flag:7', 'await:7 log:0:2 flag:1', 'await:7 set:1:8'])
    for _ in range(200 if big else 30):
        a = g.r.choice(['mkc:1:7', 'mks:1:7:0', 'mks:1:7:1', 'mkc:1:7:1'])
        ths = ['verb:2 %s flag:7 ' % a + g.seq(['unset:1', 'set:1:8', 'mks:2:9:%d' % g.r.randint(0, 2), 'count:1', 'log:1:1'], 2), 'await:7 ' + g.seq(['log:0:2', 'log:1:3', 'log:2:4'], 2)]
        if ths[0].count('mks:2') > 1:
            continue
        if g.r.random() < .5:
            ths.append('await:7 ' + g.seq(['log:0:5', 'log:1:6', 'unset:1', 'count:1', 'wait:1:1'], 1))
        g.add(k, i, ths)
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    inv = ['CountIsCalls', 'Severe', 'OnlySet', 'Exact']
    chk.model('LogEvMC', vf.cfg_text(dict(N='2', Calls='2', Logs='2'), spec='Spec', invariants=inv,
                                     properties=['UnsetNotRunning', 'Consumed', 'Returns']), 'LogEvMC 2 entries, 2 controllers')
    if big:
        chk.model('LogEvMC', vf.cfg_text(dict(N='2', Calls='3', Logs='3'), spec='Spec', invariants=inv),
                  'LogEvMC 3 entries, 2 controllers with 3 calls')
    b = vf.build('logev', LSRC)
    opts = dict(dfs=20000 if big else 1500, random=20000 if big else 300, preempt=3 if big else 2,
                distinct=4000 if big else 400, spurious=0, early=0)
    vf.conc(chk, b, progs(big), 'LogEvTrace', opts, secs=400 if big else 60)
    chk.assumptions = ['sequentially consistent memory', 'the log of Fast DDS is replaced by a stand-in with the same '
                       'interface, one thread and the same locks']
    return chk.finish()


CHECKS = {'E07': lambda: run('E07')}
