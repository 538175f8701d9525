"""E08: file watcher.  spec/FileWatch*.tla, harness/filewatch.cpp."""
import vf
from checks.wait import Gen, SRC


def progs(big):
    g = Gen(41)
    k = 'fw'
    for i in ([0], [1], [2]):
        g.add(k, i, ['mkc:7 mod:1 wait:1 count', 'flag:1'] if i != [2] else ['mkc:7 mod:1 mod:1 count'])
        g.add(k, i, ['mkc:7 mod:1 mod:2 mod:1 new:1 mod:1 rm:1 mv:1 touch:1 mod:11 mod:12 mod:1'])
        g.add(k, i, ['mkc:7 mod:2 mod:3 new:2 mod:2 rm:2'])
        g.add(k, i, ['mk mod:1 set:7 mod:1 unset mod:1 set:8 mod:1 unset'])
        g.add(k, i, ['mk mod:1 hdel mod:1'])
        g.add(k, i, ['mk unset set:7 unset unset set:8 set:9 mod:1'])
    i = [0]
    for b in (0, 4):
        g.add(k, i, ['mkc:7:%d mod:1 rm:1 mod:1 wait:2 count unset mod:1 count' % b])
        g.add(k, i, ['mkc:7:%d flag:7' % b, 'await:7 mod:1 mod:2 mod:1', 'await:7 wait:1'])
        g.add(k, i, ['mkc:7:%d flag:7 unset' % b, 'await:7 mod:1'])
        g.add(k, i, ['mkc:7:%d flag:7 unset set:8' % b, 'await:7 mod:1 mod:1'])
        g.add(k, i, ['mkc:7:%d flag:7 set:8' % b, 'await:7 mod:1 rm:1 mod:1'])
        g.add(k, i, ['mkc:7:%d flag:7 hdel' % b, 'await:7 mod:1 rm:1 mod:1'])
        g.add(k, i, ['mk flag:7 set:7:%d' % b, 'await:7 mod:1 rm:1 mod:1'])
        g.add(k, i, ['mk flag:7 set:7:%d unset' % b, 'await:7 mod:1 rm:1 mod:1'])
        g.add(k, i, ['mkc:7:%d flag:7 sync:1 unset' % b, 'await:7 wait:2', 'await:7 mod:1'])
        g.add(k, i, ['mkc:7:%d mod:1 unset' % b])
        g.add(k, i, ['mkc:7:%d mod:1 mod:2 mod:1 unset set:8 mod:1 hdel' % b])
    g.add(k, i, ['mkc:7'])
    g.add(k, i, ['mkc:7 unset set:8 unset'])
    g.add(k, i, ['mkc:7 hdel'])
    g.add(k, i, ['mkc:7:2 flag:7', 'await:7 mod:1 rm:1 mod:1 unset', 'await:7 mod:1 flag:1'])
    g.add(k, i, ['mkc:7:2 flag:7', 'await:7 mod:1 set:8', 'await:7 rm:1 mod:1 flag:1'])
    for _ in range(150 if big else 20):
        ths = ['mkc:7 flag:7 ' + g.seq(['unset', 'set:8', 'count', 'mod:1', 'rm:1'], 2),
               'await:7 ' + g.seq(['mod:1', 'mod:1', 'mod:2', 'new:1'], 3)]
        if g.r.random() < .5:
            ths.append('await:7 ' + g.seq(['mod:1', 'unset', 'set:9', 'rm:1'], 1))
        g.add(k, [g.r.choice([0, 0, 1])], ths)
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    inv = ['CountIsCalls', 'OnlySet', 'AtMostOnePerChange', 'OnlyTheFile']
    chk.model('FileWatchMC', vf.cfg_text(dict(N='2', Calls='2', Mods='2'), spec='Spec', invariants=inv,
                                         properties=['Reported', 'Returns']), 'FileWatchMC 2 changes, 2 controllers')
    if big:
        chk.model('FileWatchMC', vf.cfg_text(dict(N='2', Calls='3', Mods='4'), spec='Spec', invariants=inv),
                  'FileWatchMC 4 changes, 2 controllers with 3 calls')
    b = vf.build('filewatch', SRC + ['event/FileWatcherHandler'])
    opts = dict(dfs=10000 if big else 1000, random=10000 if big else 200, preempt=3 if big else 2,
                distinct=3000 if big else 300, spurious=0, early=0)
    vf.conc(chk, b, progs(big), 'FileWatchTrace', opts, secs=400 if big else 60)
    chk.assumptions = ['sequentially consistent memory', 'stat and inotify are played by the harness: one queue of changes '
                       'per watch, equal consecutive changes merged, a removed watch leaves IN_IGNORED',
                       'a callback does not set or unset its own handler']
    return chk.finish()


CHECKS = {'E08': lambda: run('E08')}
