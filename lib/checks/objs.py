"""Sequential objects: U01 command history, P01 pool, Y02 fuzzy values and log configuration, Y04 tree, C01 timers,
L01 log consumer.  harness/objs.cpp; spec/Hist, UPool, FuzzyV, LogCons, TreeN, PTimer (+ MC, Trace)."""
import itertools
import vf
from checks.wait import Gen

SRC = ['history/CommandHistoryHandler', 'logging/BaseLogConfiguration', 'logging/BaseLogConsumer', 'logging/StdLogConsumer',
       'time/PausableTimer', 'time/Timer', 'utils', 'Formatter', 'exception/Exception', 'math/math_extension']
OPTS = dict(dfs=1, random=0, preempt=0, early=0, spurious=0, steps=5000000)


def go(chk, progs, module, key=None):
    b = vf.build('objs', SRC)
    vf.conc(chk, b, progs, module, OPTS, secs=200 if vf.TIER == 'thorough' else 40, key=key)


def product(g, kind, init, ops, n, tail='', limit=None, head=''):
    """Every sequence of up to n operations (a sample of limit of those of each length)."""
    for k in range(1, n + 1):
        if limit and len(ops) ** k > limit:
            for _ in range(limit):
                g.add(kind, init, [' '.join([head] + [g.r.choice(ops) for _ in range(k)] + [tail])], preempt=0)
        else:
            for s in itertools.product(ops, repeat=k):
                g.add(kind, init, [' '.join([head] + list(s) + [tail])], preempt=0)


def u01(chk, big):
    chk.model('HistMC', vf.cfg_text(dict(Cmds='{0, 1, 2}', Len_='8' if big else '6'), spec='Spec',
                                    invariants=['InRange', 'Recorded', 'Inverse'], properties=['Append1', 'Navigation']),
              'HistMC')
    g = Gen(91)
    # every sequence of additions (of new, repeated and empty commands) and movements
    product(g, 'hist', [], ['add:2', 'add:3', 'add:0', 'prev', 'next'], 6 if big else 5, limit=100000)
    product(g, 'hist', [], ['prev', 'next'], 9 if big else 7, head='add:2 add:1 add:3')
    for _ in range(3000 if big else 600):
        ops = ['add:%d' % g.r.randint(0, 20)] * g.r.randint(1, 3) + ['prev'] * g.r.randint(1, 4) + ['next'] * g.r.randint(1, 4)
        g.add('hist', [], [g.seq(ops, 60)], preempt=0)
    # long histories and long commands: to the oldest, to the newest and past both
    for n in (33, 70, 140, 300) + ((1100, 2100) if big else (1100,)):
        for first in (100, 10000):
            g.add('hist', [], [' '.join(['add:%d' % (first + i) for i in range(n)] + ['prev'] * (n + 2) + ['next'] * (n + 1)
                                        + ['add:5', 'prev', 'prev', 'next'])], preempt=0)
    for k in range(10):
        ops = ['add:%d' % g.r.choice([100 * g.r.randint(1, 90), 10000 + 777 * g.r.randint(0, 20)])] * g.r.randint(2, 4)
        g.add('hist', [], [' '.join(g.seq(['add:%d' % g.r.choice([g.r.randint(2, 90), 10000 + g.r.randint(0, 9999)]), 'prev', 'next'] * 3
                                          + ops, g.r.randint(5, 40)) for _ in range(8))], preempt=0)
    go(chk, g.out, 'HistTrace')


def p01(chk, big):
    chk.model('UPoolMC', vf.cfg_text(dict(Initials='{0, 1, 2}', Batches='{0, 1, 2, 3}', Loans='8' if big else '6'), spec='Spec',
                                     invariants=['Apart', 'Kept'], properties=['OnlyFree', 'Grows', 'Served']), 'UPoolMC')
    g = Gen(92)
    for kind in (0, 1):
        for ini in (0, 1, 2, 3):
            for batch in (1, 2, 3):
                mk = 'mk:%d:%d:%d' % (ini, batch, g.r.choice([0, 1, 50]))
                product(g, 'pool', [kind], ['loan', 'ret:0', 'ret:1'], 6 if big else 5, head=mk)
                for _ in range(200 if big else 25):
                    ops = ['loan'] * g.r.randint(1, 4) + ['ret:%d' % g.r.randint(0, 5) for _ in range(3)]
                    g.add('pool', [kind], [mk + ' ' + g.seq(ops, 50) + g.r.choice(['', ' del'])], preempt=0)
            g.add('pool', [kind], ['mk:%d:0:0' % ini], preempt=0)
    # made by create_pool: the default hooks, nothing in advance is needed
    for batch in (0, 1, 2, 5):
        product(g, 'pool', [3], ['loan', 'ret:0', 'ret:1'], 5, head='mk:0:%d:0' % batch) if batch else \
            g.add('pool', [3], ['mk:0:0:0'], preempt=0)
    # many elements at once and in advance: all lent, returned in another order, and lent again
    for kind in (0, 1):
        for ini, batch, n in ((0, 1, 40), (0, 1, 150), (0, 100, 150), (150, 1, 151), (300, 300, 301), (20, 37, 140)):
            for _ in range(2):
                o = ['loan'] * n + ['ret:%d' % g.r.randint(0, 9999) for _ in range(n - g.r.randint(0, 3))] + ['loan'] * n
                g.add('pool', [kind], ['mk:%d:%d:0 %s%s' % (ini, batch, ' '.join(o), g.r.choice(['', ' del']))], preempt=0)
    # a child pool that only overrides the hooks
    g.add('pool', [2], ['mk:1:1:0 del'], preempt=0)
    known = 'I,0,pool,1,2;C,1,mk,1,1,0;O,0,new,1,1;R,1,ok;C,1,del;O,0,del,1,0;R,1,ok;C,0,del;R,0,ok;'
    go(chk, g.out, 'UPoolTrace', key=lambda p, e: 'destructor without hooks' if e.hist.startswith(known) else '')


def y02(chk, big):
    chk.model('FuzzyVMC', vf.cfg_text(dict(Values='{0, 1}', Levels='<- MCLevels'), spec='Spec',
                                      invariants=['Levels2', 'Equiv'], properties=['Apart']), 'FuzzyVMC')
    chk.model('LogConsMC', vf.cfg_text(dict(Levels='<- MCLevels', Pats='{0, 3}'), spec='Spec',
                                       invariants=[], properties=['Monotone']), 'LogConsMC')
    g = Gen(93)
    levels = [-32768, -21, -20, -19, -1, 0, 1, 19, 20, 21, 39, 40, 41, 59, 60, 61, 32767]
    look = 'get:0 lstr:0 str:0 eqt:0:1 eqt:0:2 get:1 eq:0:1 eq:1:0 eq:0:0'
    one = ['new:0', 'mkd:0:1', 'mkmd:0:1', 'asg:0:1', 'asgm:0:1', 'cp:0:1', 'cpc:0:1', 'setvd:0:1', 'setld:0', 'unset:0',
           'ref:0:1', 'cast:0:1', 'arrow:0:1']
    for l in levels:
        for op in ('mk:0:1:%d', 'mkm:0:1:%d', 'setv:0:1:%d', 'setl:0:%d'):
            for second in one:
                g.add('fuzzy', [], [' '.join([op % l, look, second, look])], preempt=0)
        for m in levels:
            for v in (1, 2):
                g.add('fuzzy', [], ['mk:0:1:%d mk:1:%d:%d %s' % (l, v, m, look)], preempt=0)
    for _ in range(4000 if big else 600):
        ops = []
        for _ in range(14):
            k, v, l = g.r.randint(0, 2), g.r.randint(0, 3), g.r.choice(levels if g.r.random() < .4 else [-20, 0, 20, 40, 60])
            op = g.r.choice(one + ['mk', 'mkm', 'setv', 'setl', 'setv', 'setl', 'eq', 'eq', 'eqt', 'get', 'str']).split(':')[0]
            ops.append('%s:%d:%d%s' % (op, k, l if op == 'setl' else g.r.randint(0, 2) if op in ('cp', 'cpc', 'eq') else v,
                                       ':%d' % l))
        g.add('fuzzy', [], [' '.join(ops) + ' get:0 get:1 get:2 str:0 eq:0:1'], preempt=0)
    go(chk, g.out, 'FuzzyVTrace')
    g = Gen(94)
    ls = [-20, -1, 0, 20, 40, 41, 60]
    for l in ls:
        for m in ls:
            for k in range(3):
                g.add('log', [], ['setv:%d:%d strv dump setv:%d:%d dump strv' % (k, l, (k + 1) % 3, m)], preempt=0)
                f = [1, 0, 2, 0, 3, 0]
                h = [4, 0, 5, 0, 6, 0]
                f[2 * k + 1], h[2 * k + 1] = l, m
                g.add('log', [], ['setf:%s dump setf:%s dump str' % (':'.join(map(str, f)), ':'.join(map(str, h)))], preempt=0)
    for _ in range(3000 if big else 500):
        ops = []
        for _ in range(8):
            if g.r.random() < .4:
                ops.append('setv:%d:%d' % (g.r.randint(0, 2), g.r.choice(ls)))
            else:
                ops.append('setf:' + ':'.join('%d:%d' % (g.r.randint(0, 12), g.r.choice(ls)) for _ in range(3)))
            ops.append(g.r.choice(['dump', 'dump', 'str', 'strv']))
        g.add('log', [], [' '.join(ops)], preempt=0)
    go(chk, g.out, 'LogConsTrace')


def l01(chk, big):
    chk.model('LogConsMC', vf.cfg_text(dict(Levels='{0, 40}', Pats='{0, 3, 5}'), spec='Spec', invariants=['Filter'],
                                       properties=['Monotone']), 'LogConsMC')
    g = Gen(95)
    words, pats = range(13), range(13)
    # every verbosity and kind, with every pattern, category and message
    for v in range(3):
        for k in range(3):
            for p in pats:
                f = [0, 40, 0, 40, 0, 40]
                f[2 * k] = p
                f[2 * ((k + 1) % 3)] = g.r.choice([9, 3])
                logs = ['log:%d:%d:%d' % (k, c, m) for c in words for m in words]
                if not big and v != 2:
                    logs = g.r.sample(logs, 12)
                elif not big:
                    logs = g.r.sample(logs, 80)
                g.add('log', [], ['setv:%d:40 setf:%s con %s' % (v, ':'.join(map(str, f)), ' '.join(logs))], preempt=0)
    # a consumer keeps the configuration it was made with
    for _ in range(2000 if big else 300):
        ops = ['con']
        for _ in range(14):
            r = g.r.random()
            if r < .1:
                ops.append('setv:%d:%d' % (g.r.randint(0, 2), g.r.choice([-20, 0, 20, 40])))
            elif r < .25:
                ops.append('setf:' + ':'.join('%d:%d' % (g.r.choice(pats), g.r.choice([-20, 0, 20, 40])) for _ in range(3)))
            elif r < .35:
                ops.append('con')
            else:
                ops.append('log:%d:%d:%d' % (g.r.randint(0, 2), g.r.choice(words), g.r.choice(words)))
        g.add('log', [], [' '.join(ops)], preempt=0)
    go(chk, g.out, 'LogConsTrace')


def y04(chk, big):
    chk.model('TreeNMC', vf.cfg_text(dict(Calls='4' if big else '3'), spec='Spec', invariants=['Views'], properties=['Apart']),
              'TreeNMC')
    g = Gen(96)
    look = ' '.join('dump:%d leaf:%d depth:%d all:%d' % (k, k, k, k) for k in range(3))
    ops = ['addi:0:1', 'addim:0:2', 'addi:1:3', 'addn:0:1', 'addn:1:0', 'addm:0:1', 'addm:1:0', 'cp:0:1', 'cp:1:0', 'seti:0:4']
    product(g, 'tree', [], ops, 4 if big else 3, tail=look)
    for op in ('mk:0:5', 'mkm:0:5', 'mk0:0', 'mk2:0:3:4', 'addn:0:0', 'cp:0:0'):
        for a in ops:
            for b in ops:
                g.add('tree', [], [' '.join([a, op, look, b, look])], preempt=0)
    # chains, stars and combs
    for n in range(1, 8):
        g.add('tree', [], [' '.join(['mk:0:1'] + ['mk:1:%d addm:1:0 cp:0:1' % (i + 2) for i in range(n)] + [look])], preempt=0)
        g.add('tree', [], [' '.join(['addi:0:%d' % i for i in range(n)] + [look])], preempt=0)
        g.add('tree', [], [' '.join(['mk:0:1'] + ['mk:1:%d addi:1:8 addn:1:0 addi:1:9 cp:0:1' % (i + 2) for i in range(n)] + [look])],
              preempt=0)
    for n in (12, 18, 34, 70) + ((140,) if big else ()):
        g.add('tree', [], [' '.join(['mk:0:1'] + ['mk:1:%d addm:1:0 cp:0:1' % (i + 2) for i in range(n)] + [look])], preempt=0)
        g.add('tree', [], [' '.join(['addi:0:%d' % i for i in range(n)] + ['addim:1:%d' % i for i in range(n)] + ['addn:1:0', look])],
              preempt=0)
        g.add('tree', [], [' '.join(['mk:0:1'] + ['mk:1:%d addi:1:8 addn:1:0 addi:1:9 cp:0:1' % (i + 2) for i in range(n // 2)] + [look])],
              preempt=0)
    for _ in range(2000 if big else 300):
        o = []
        for _ in range(9):
            k = g.r.randint(0, 2)
            o.append(g.r.choice(['addi:%d:%d', 'addim:%d:%d', 'mk:%d:%d', 'addi:%d:%d']) % (k, g.r.randint(1, 9))
                     if g.r.random() < .6 else g.r.choice(['addn:%d:%d', 'addm:%d:%d', 'cp:%d:%d']) % (k, (k + g.r.randint(1, 2)) % 3))
        g.add('tree', [], [' '.join(o) + ' ' + look], preempt=0)
    go(chk, g.out, 'TreeNTrace')


def c01(chk, big):
    chk.model('PTimerMC', vf.cfg_text(dict(Steps='7' if big else '6'), spec='Spec', invariants=['Exact'], properties=['Grows']),
              'PTimerMC')
    g = Gen(97)
    for k in (0, 1):
        product(g, 'timer', [k], ['play', 'pause', 'reset', 'sleep:1700', 'el'], 6 if big else 5, tail='el elms playing sleep:900 el elms',
                limit=100000)
    product(g, 'timer', [2], ['reset', 'sleep:1700', 'el', 'elms'], 5, tail='el elms sleep:1 el')
    for _ in range(3000 if big else 500):
        k = g.r.choice([0, 1, 1, 2])
        ops = ['sleep:%d' % g.r.choice([1, 3, 999, 1000, 1001, 250000, 10000000]) for _ in range(4)] + ['el', 'elms', 'reset', 'el']
        if k < 2:
            ops += ['play', 'pause', 'play', 'pause', 'playing', 'playing']
        g.add('timer', [k], [g.seq(ops, 40)], preempt=0)
    go(chk, g.out, 'PTimerTrace')


def run(pid, f):
    chk = vf.Check(pid)
    f(chk, vf.TIER == 'thorough')
    chk.assumptions = ['the object is used by one thread, as documented']
    if pid == 'C01':
        chk.assumptions.append('the clock of the timers only moves forward (virtual time)')
    if pid == 'L01':
        chk.assumptions.append('patterns and words of the tables of LogCons.tla; the Fast DDS base consumer is a stand-in')
    return chk.finish()


CHECKS = {p: (lambda p=p, f=f: run(p, f)) for p, f in
          (('U01', u01), ('P01', p01), ('Y02', y02), ('Y04', y04), ('C01', c01), ('L01', l01))}
