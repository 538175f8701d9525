"""T01, T02: SlotThreadPool.  spec/Pool*.tla, harness/pool.cpp."""
import vf
from checks.wait import Gen, SRC

PSRC = SRC + ['thread_pool/pool/SlotThreadPool', 'thread_pool/task/TaskId']


def progs_t01(big):
    g = Gen(7)
    k = 'pool'
    s3 = 'slot:1:0 slot:2:0 slot:3:0'
    for n in (1, 2):
        g.add(k, [n], [s3 + ' enable emit:1 emit:2 emit:3 wall:0'])
        g.add(k, [n], [s3 + ' emit:1 emit:2 enable wall:0'])
        g.add(k, [n], [s3 + ' enable emit:1 emit:1 emit:2 wall:0 disable'])
        g.add(k, [n], [s3 + ' enable flag:7', 'await:7 emit:1 emit:2', 'await:7 emit:3'])
        g.add(k, [n], [s3 + ' emit:1 enable disable emit:2 enable wall:0'])
        g.add(k, [n], [s3 + ' emit:1 emit:2 enable disable enable wall:0 disable'])
        g.add(k, [n], ['slot:1:2 slot:2:0 enable emit:1 emit:1 wall:0'])
        g.add(k, [n], ['slot:1:2 slot:2:2 slot:3:0 enable emit:1 await:6'])
        g.add(k, [n], ['slot:1:1 slot:2:3 slot:3:0 enable emit:1 emit:3', ''])
        g.add(k, [n], ['slot:1:1 slot:2:3 enable flag:7', 'await:7 emit:2 emit:1'])
        g.add(k, [n], ['slot:1:1 enable emit:1 flag:0 wall:0 disable'])
        g.add(k, [n], [s3 + ' enable flag:7 disable enable', 'await:7 emit:1 emit:2'])
        g.add(k, [n], [s3 + ' emit:1 flag:7 enable', 'await:7 emit:2 wall:0'])
    # many slots
    for n in (1, 2):
        g.add(k, [n], [' '.join('slot:%d:0' % j for j in range(1, 25)) + ' enable ' + ' '.join('emit:%d' % j for j in range(1, 25))
                       + ' wall:0 disable emit:24 slot:24:0 emit:25'], preempt=0)
        g.add(k, [n], ['slot:1:0 ' + 'emit:1 ' * 40 + 'enable wall:0 ' + 'emit:1 ' * 40 + 'wall:0'], preempt=0)
    # tasks that wait for each other need two threads
    g.add(k, [2], ['slot:1:4 slot:2:5 enable emit:1 emit:2 wall:0 disable'])
    g.add(k, [2], ['slot:1:4 slot:2:5 emit:1 emit:2 enable wall:0 disable'])
    g.add(k, [2], ['slot:1:4 slot:2:5 enable flag:7', 'await:7 emit:1', 'await:7 emit:2'])
    g.add(k, [2], ['slot:1:1 slot:2:3 enable emit:1 emit:2 wall:0 disable'])
    g.add(k, [3], ['slot:1:4 slot:2:5 slot:3:0 enable emit:1 emit:2 emit:3 emit:3 wall:0'])
    g.add(k, [1], ['slot:1:1 slot:2:3 enable emit:1 emit:2'])
    for i in range(200 if big else 24):
        ops = ['emit:1', 'emit:2', 'emit:3', 'emit:1', 'wall:0', 'wall:6']
        ctl = [s3, 'flag:7'] + [g.r.choice(ops + ['enable', 'disable', 'enable']) for _ in range(5)]
        ths = [' '.join(ctl)]
        if g.r.random() < .6:
            ths.append('await:7 ' + g.seq(['emit:1', 'emit:2', 'emit:3', 'wall:5'], 2))
        g.add(k, [g.r.choice([1, 2])], ths)
    return g.out


def progs_t02(big):
    g = Gen(8)
    k = 'pool'
    for n in (1, 2):
        g.add(k, [n], ['emit:1 slot:1:0 slot:1:3 emit:1 enable wall:0', ''])
        g.add(k, [n], ['slot:1:0', 'slot:1:0', 'slot:1:3 emit:1'])
        g.add(k, [n], ['slot:1:0 emit:2', 'slot:2:0', 'emit:2 enable'])
        g.add(k, [n], ['enable enable disable disable enable slot:1:0 emit:1 wall:0'])
        g.add(k, [n], ['disable slot:1:0 emit:1 enable enable wall:0 disable disable'])
        g.add(k, [n], ['slot:1:0 enable emit:1 emit:1 disable', ''])
        g.add(k, [n], ['slot:1:0 enable emit:1 emit:1 disable', 'wall:0'])
        g.add(k, [n], ['slot:1:0 enable emit:1 disable wall:0 emit:1 enable wall:0'])
        g.add(k, [n], ['slot:1:1 enable emit:1 flag:0 disable', 'flag:0'])
        g.add(k, [n], ['slot:1:0 enable flag:7 emit:1 del', ''])
        g.add(k, [n], ['slot:1:0 emit:1 emit:1 enable del'])
        g.add(k, [n], ['slot:1:0 emit:1 del'])
        g.add(k, [n], ['enable del'])
        g.add(k, [n], ['del'])
        g.add(k, [n], ['enable disable del'])
        g.add(k, [n], ['slot:1:0 slot:2:0 enable flag:7 emit:1 wall:0', 'await:7 emit:2 wall:0'])
        g.add(k, [n], ['slot:1:0 enable flag:7 emit:1', 'await:7 wall:4', 'await:7 wall:0'])
        g.add(k, [n], ['slot:1:0 emit:1 wall:3 enable wall:0'])
        g.add(k, [n], ['slot:1:2 slot:2:0 enable emit:1 disable'])
        g.add(k, [n], ['slot:1:0 enable flag:7', 'await:7 slot:2:0 emit:2', 'await:7 emit:1 slot:3:0'])
        # enabled by several threads: the workers are started once
        g.add(k, [n], ['slot:1:0 flag:7 enable emit:1', 'await:7 enable emit:1'], post='wall:0 disable')
        g.add(k, [n], ['slot:1:0 slot:2:0 flag:7', 'await:7 enable emit:1 emit:2', 'await:7 enable'], post='emit:1 disable enable')
        g.add(k, [n], ['slot:1:1 slot:2:1 flag:7 enable', 'await:7 enable emit:1 emit:2', 'await:7 enable emit:1'],
              post='flag:0 wall:0 disable')
    g.add(k, [1], ['uid uid', 'uid uid', 'uid'])
    g.add(k, [1], ['uid', 'uid', 'uid', 'uid'])
    g.add(k, [0], ['slot:1:0 enable emit:1 disable'])
    for i in range(200 if big else 30):
        ops = ['emit:1', 'emit:2', 'emit:1', 'wall:0', 'wall:6', 'slot:1:0', 'slot:2:0', 'slot:3:0', 'emit:3']
        ctl = ['slot:1:0', 'flag:7'] + [g.r.choice(ops + ['enable', 'disable'] * 4) for _ in range(6)]
        ths = [' '.join(ctl)]
        if g.r.random() < .6:
            ths.append('await:7 ' + g.seq(ops, 2))
        g.add(k, [g.r.choice([1, 2])], ths)
    return g.out


def run(pid, progs):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    inv = ['ExactlyOnce', 'Bounded']
    pr = ['DisabledMeansQuiet', 'NothingStartsDisabled', 'AllRun', 'DisableReturns', 'WaitAllReturns']
    chk.model('PoolMC', vf.cfg_text(dict(NW='2', Emitters='1', Emits='3', Ctl='3'), spec='Spec', invariants=inv,
                                    properties=pr), 'PoolMC 2 workers, 1 emitter')
    chk.model('PoolMC', vf.cfg_text(dict(NW='1', Emitters='2', Emits='2' if big else '1', Ctl='3' if big else '2'),
                                    spec='Spec', invariants=inv, properties=pr), 'PoolMC 1 worker, 2 emitters')
    b = vf.build('pool', PSRC)
    opts = dict(dfs=20000 if big else 2500, random=20000 if big else 600, preempt=3 if big else 2,
                distinct=4000 if big else 600, spurious=0)
    vf.conc(chk, b, progs(big), 'PoolTrace', opts, secs=400 if big else 80)
    # tasks that wait for each other need all the threads
    g = Gen(9)
    for n in (3, 5, 7, 9, 12):
        g.add('pool', [n], ['slot:1:1 slot:2:3 enable ' + 'emit:1 ' * (n - 1) + 'emit:2 wall:0 disable'])
        g.add('pool', [n], ['slot:1:1 slot:2:3 ' + 'emit:1 ' * (n - 1) + 'emit:2 enable wall:0 disable'])
        g.add('pool', [n], ['slot:1:1 slot:2:3 enable disable enable ' + 'emit:1 ' * (n - 1) + 'emit:2 disable'])
    vf.conc(chk, b, g.out, 'PoolTrace', dict(dfs=40, random=20, preempt=0, distinct=20, spurious=0), secs=40)
    chk.assumptions = ['sequentially consistent memory',
                       'disable and the destructor are not called while another thread calls enable or disable, nor from a task']
    return chk.finish()


CHECKS = {'T01': lambda: run('T01', progs_t01), 'T02': lambda: run('T02', progs_t02)}
