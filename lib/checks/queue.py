"""W05: DBQueueWaitHandler (spec/Queue*.tla).  Q01: DBQueue (spec/DBQueue*.tla).  harness/queue.cpp."""
import vf
from checks.wait import Gen, SRC


def progs_w05(big):
    g = Gen(5)
    k = 'dbqwh'
    for ths in (['prod:1 prodmv:2', 'cons:0 cons:0'], ['prod:1', 'prodmv:2', 'cons:0', 'cons:0'],
                ['prod:1 prod:2', 'prodmv:3 prodmv:4', 'cons:0 cons:0 cons:0 cons:0'],
                ['prod:1 prod:2', 'cons:0', 'cons:0'], ['prod:1 prod:2 prod:3', 'cons:0 cons:0', 'cons:5'],
                ['prod:1', 'cons:0', 'dis'], ['prod:1', 'cons:5', 'dis en'], ['prod:1 prod:2', 'cons:0 ready', 'ready'],
                ['prod:1', 'cons:0', 'wall:0'], ['prod:1 prod:2 wall:0', 'cons:0 cons:0'], ['wall:0 ready', 'prod:1 cons:0'],
                ['cons:0', 'cons:0', 'bdis'], ['cons:0', 'wall:0', 'prod:1 sac'], ['prod:1 dis en', 'cons:0'],
                ['prod:1 prod:2 dis', 'cons:0 cons:0', 'en'], ['cons:5', 'prod:1'], ['cons:5 ready', 'cons:5', 'prodmv:1'],
                ['cons:0', 'sync:1 del'], ['cons:0', 'cons:5', 'sync:2 del'], ['prod:1 wall:0', 'sync:1 del'],
                ['cons:0', 'sync:1 sac'], ['cons:0', 'cons:0', 'sync:2 sac'], ['cons:0', 'sync:1 bdis en prod:1'],
                ['prod:1 wall:0', 'sync:1 sac'], ['cons:0', 'cons:5', 'sync:2 sac prod:1'],
                ['prod:1', 'cons:0', 'sac prod:2'], ['prod:1 cons:0', 'prod:2 cons:0'],
                ['prod:1 cons:0', 'prod:2 cons:0', 'cons:6'], ['prod:1', 'prod:2', 'wall:0', 'cons:0 cons:0']):
        for en in (1, 0):
            if en == 0 and any('del' in t for t in ths):
                continue
            g.add(k, [en], ths)
        if not any('del' in t for t in ths):
            g.add(k, [1], ths, post='en ready cons:1 cons:1')
    # many elements
    for n in (12, 40, 70):
        o = [' '.join('%s:%d' % (g.r.choice(['prod', 'prodmv']), x + 1) for x in range(n)), 'cons:0 ' * n]
        g.add(k, [1], [' '.join(o)], preempt=0)
        g.add(k, [1], [o[0] + ' wall:5 ' + o[1] + ' wall:0'], preempt=0)
    for i in range(600 if big else 90):
        v = [0]

        def prod():
            v[0] += 1
            return g.r.choice(['prod:%d', 'prodmv:%d']) % v[0]

        def thread(n):
            r = []
            for _ in range(n):
                x = g.r.random()
                r.append(prod() if x < .45 else g.r.choice(['cons:0', 'cons:0', 'cons:4', 'ready', 'wall:0', 'wall:7'])
                         if x < .9 else g.r.choice(['dis', 'en', 'sac', 'bdis']))
            return ' '.join(r)
        ths = [thread(g.r.choice([1, 2, 2])) for _ in range(3)]
        g.add(k, [g.r.choice([1, 1, 1, 0])], ths, post='en ready cons:1' if g.r.random() < .3 else '')
    return g.out


def progs_q01(big):
    g = Gen(6)
    take = 'empty swap fap'
    for ths in (['push:1 push:2', 'swap front pop swap fap'], ['push:1', 'push:2', 'swap fap fap swap fap'],
                ['push:1 push:2', 'push:3', 'swap size fap fap swap size fap'], ['push:1 push:2', 'bempty swap bempty fap'],
                ['push:1', 'bempty bempty', 'swap'], ['push:1 push:2', 'swap clear bempty size', 'push:3'],
                ['push:1', 'push:2', 'push:3', 'swap fap fap fap'], ['push:1 push:2 push:3', 'swap fap swap fap size'],
                ['push:1', 'size empty', 'swap pop'], ['push:1 push:2', take + ' ' + take], ['push:1', 'clear', 'push:2'],
                ['push:1 clear push:2', 'size', 'bempty']):
        g.add('dbq', [], ths, post='swap size front pop front pop front pop empty bempty')
    # several threads take from the foreground, which has enough for all of them
    for ths in (['fap fap', 'fap fap'], ['fap', 'fap', 'fap'], ['fap fap', 'size push:1', 'fap'],
                ['fap', 'pop', 'fap fap'], ['pop', 'pop', 'fap size'], ['fap push:2', 'fap push:1', 'bempty'],
                ['fap fap', 'fap empty', 'push:1 push:3']):
        g.add('dbq', [5], ths, post='size fap fap swap fap fap bempty')
    # many elements
    for n in (20, 33, 70, 140, 300):
        g.add('dbq', [], [' '.join('push:%d' % (x + 1) for x in range(n)) + ' bempty swap size ' + 'fap ' * (n // 2) + 'size push:999 '
                          + 'front pop ' * (n - n // 2) + 'empty size swap size fap'], preempt=0)
        g.add('dbq', [n], ['fap ' * n + 'push:998 swap size fap'], preempt=0)
        g.add('dbq', [], [' '.join('push:%d swap' % (x + 1) for x in range(n)) + ' size clear size push:997 swap fap'], preempt=0)
    # sequences of one thread
    ops = ['push', 'push', 'push', 'swap', 'front', 'pop', 'fap', 'size', 'empty', 'bempty', 'clear']
    for i in range(3000 if big else 400):
        v = 0
        r = []
        for _ in range(14):
            o = g.r.choice(ops[:-1] if g.r.random() < .9 else ops)
            if o == 'push':
                v += 1
                o = 'push:%d' % v
            r.append(o)
        g.add('dbq', [], [' '.join(r)], post='size swap size front')
    for i in range(300 if big else 60):
        v = 0
        ths = []
        for _ in range(2):
            r = []
            for _ in range(2):
                v += 1
                r.append('push:%d' % v)
            if g.r.random() < .3:
                r.append(g.r.choice(['bempty', 'size', 'empty']))
            ths.append(' '.join(r))
        ths.append(' '.join(g.r.choice(['swap', 'swap', 'front', 'pop', 'fap', 'fap', 'size', 'empty', 'bempty', 'clear'])
                            for _ in range(4)))
        g.add('dbq', [], ths, post='swap size fap fap fap fap')
    return g.out


def w05():
    chk = vf.Check('W05')
    big = vf.TIER == 'thorough'
    inv = ['Fifo', 'Accounting', 'NothingInProgress', 'BlockedOnlyIfEmpty']
    pr = ['WallTruth', 'ConsumeReturns', 'BlockingReturns']
    st = '{"dis", "en", "bdis", "sac"}'
    chk.model('QueueMC', vf.cfg_text(dict(N='3', Calls='1', Status=st), spec='Spec', invariants=inv, properties=pr),
              'QueueMC N=3 calls=1')
    chk.model('QueueMC', vf.cfg_text(dict(N='2', Calls='2', Status='{"dis", "en", "sac"}' if big else '{"dis"}'),
                                     spec='Spec', invariants=inv, properties=pr), 'QueueMC N=2 calls=2')
    if big:
        chk.model('QueueMC', vf.cfg_text(dict(N='3', Calls='2', Status='{"dis"}'), spec='Spec', invariants=inv),
                  'QueueMC N=3 calls=2 (safety)')
    b = vf.build('queue', SRC)
    opts = dict(dfs=30000 if big else 2000, random=20000 if big else 400, preempt=3 if big else 2,
                distinct=4000 if big else 500)
    vf.conc(chk, b, progs_w05(big), 'QueueTrace', opts, secs=400 if big else 60)
    chk.assumptions = ['sequentially consistent memory', 'the initial value of the counter is 0']
    return chk.finish()


def q01():
    chk = vf.Check('Q01')
    big = vf.TIER == 'thorough'
    chk.model('DBQueueMC', vf.cfg_text(dict(P='3', M='3' if big else '2'), spec='Spec', invariants=['NothingLost'],
                                       properties=['AllDelivered']), 'DBQueueMC')
    b = vf.build('queue', SRC)
    opts = dict(dfs=30000 if big else 3000, random=20000 if big else 400, preempt=3 if big else 2,
                distinct=6000 if big else 800, spurious=0)
    vf.conc(chk, b, progs_q01(big), 'DBQueueTrace', opts, secs=400 if big else 60)
    chk.assumptions = ['front, pop and front_and_pop are called on a foreground that nobody makes empty at the same time']
    return chk.finish()


CHECKS = {'W05': w05, 'Q01': q01}
