"""W01-W04: wait handlers.  spec/Wait.tla, WaitMC.tla, WaitTrace.tla; harness/wait.cpp."""
import random
import vf

SRC = ['wait/BooleanWaitHandler', 'wait/CounterWaitHandler', 'wait/IntWaitHandler', 'time/time_utils',
       'exception/Exception', 'Formatter', 'utils', 'math/math_extension']


def mc(chk, kind, n, calls, values, ops=None):
    """Exhaustive check of the specification with clients that call anything."""
    ops = ops or {'int': 'IntOps', 'bool': 'BoolOps', 'cnt': 'CntOps'}[kind]
    cfg = vf.cfg_text(dict(N=str(n), Calls=str(calls), Kind='"%s"' % kind, Ops='<- ' + ops, Values=values),
                      spec='Spec', invariants=['Reasons', 'Conservation', 'Floor', 'QuietMeansServed'],
                      properties=['Truth', 'NoLostWakeup', 'BlockingReturns', 'NobodyLeft', 'WaitersDisabled'])
    chk.model('WaitMC', cfg, 'WaitMC %s N=%d calls=%d' % (kind, n, calls))


def mcs(chk, kinds):
    for k in kinds:
        v = '{0, 1, 2}' if k == 'cnt' else '{0, 1}'
        mc(chk, k, 3, 1, v)
        if vf.TIER == 'thorough':
            mc(chk, k, 2, 2, v)


class Gen:
    def __init__(self, salt):
        self.r = random.Random(vf.SEED * 7919 + salt)
        self.out = []

    def add(self, kind, init, threads, post='', preempt=-1):
        self.out.append(vf.program(len(self.out) + 1, kind, init, threads, post, preempt))

    def seq(self, ops, n):
        return ' '.join(self.r.choice(ops) for _ in range(n))


BOUNDS = [m * (2**k + d) for k in (7, 8, 15, 16, 24, 30) for d in (-1, 0, 1) for m in (1, -1)] + [2**31 - 3, 2 - 2**31]


def changers(kind):
    if kind == 'bool':
        return ['open', 'close', 'open', 'close', 'get']
    if kind == 'gen':
        return ['set:0:1', 'set:1:1', 'set:2:1', 'set:1:0', 'get']
    return ['inc', 'dec', 'inc', 'dec', 'set:1:1', 'set:0:1', 'set:2:1', 'set:1:0', 'get']


STATUS = ['dis', 'en', 'bdis', 'sac', 'isen']


def wait_op(g, kind, to=None):
    to = g.r.choice([0, 0, 5, 8]) if to is None else to
    if kind == 'bool':
        return 'wait:1:1:%d' % to
    if kind == 'gen':
        return 'wait:%d:%d:%d' % (g.r.choice([1, 3, 4, 6]), g.r.choice([0, 1]), to)
    return 'wait:%d:1:%d' % (g.r.randint(1, 5), to)


def progs_w01(big):
    g = Gen(1)
    for rel in range(1, 6):
        for to in (0, 5):
            for v in (0, 1, 2):
                for en in (1, 0):
                    w = 'wait:%d:1:%d' % (rel, to)
                    g.add('int', [v, en], [w + ' get', g.seq(changers('int') + STATUS, 2)])
    # values of any size
    for m in BOUNDS:
        for rel in range(1, 6):
            g.add('int', [m - 1, 1], ['wait:%d:%d:3 get inc wait:%d:%d:3 inc wait:%d:%d:3 get dec get' % ((rel, m) * 3)], preempt=0)
            g.add('int', [0, 1], ['wait:%d:%d:3 set:%d:1 wait:%d:0:3 get set:%d:0 wait:%d:%d:3' % (rel, m, m, rel, -m, rel, -m)], preempt=0)
    for rel in range(1, 6):
        for v in (-1, 0, 3):
            g.add('int', [v, 1], ['wait:%d:%d:0' % (rel, v), 'wait:%d:%d:4' % (rel, v - 1)])
    for to in (0, 5):
        for v in (0, 1):
            for en in (0, 1):
                g.add('bool', [v, en], ['wait:1:1:%d get' % to, g.seq(changers('bool') + STATUS, 3)])
                g.add('gen', [v, en], [wait_op(g, 'gen', to), g.seq(changers('gen') + STATUS, 3)])
    for i in range(600 if big else 90):
        kind = g.r.choice(['int', 'bool', 'gen'])
        c = changers(kind)
        ths = [wait_op(g, kind), wait_op(g, kind) if g.r.random() < .6 else g.seq(c, 2), g.seq(c + STATUS, 2)]
        g.add(kind, [g.r.choice([0, 1]), g.r.choice([1, 1, 1, 0])], ths)
    return g.out


def progs_w02(big):
    g = Gen(2)
    for kind in ('int', 'bool', 'gen'):
        op = {'int': 'inc', 'bool': 'open', 'gen': 'set:1:1'}[kind]
        no = {'int': 'dec', 'bool': 'close', 'gen': 'set:0:0'}[kind]
        w = {'int': 'wait:3:1:0', 'bool': 'wait:1:1:0', 'gen': 'wait:6:1:0'}[kind]
        wt = {'int': 'wait:3:1:5', 'bool': 'wait:1:1:5', 'gen': 'wait:6:1:5'}[kind]
        for ths in ([w, w, op], [w, w, w, op], [w, wt, op], [w, w, op + ' ' + no + ' ' + op], [w, op, no + ' ' + op],
                    [w, w, 'dis'], [w, w, w, 'dis'], [wt, wt, no], [wt, w, 'dis en ' + op], [w + ' ' + w, op + ' ' + no, op],
                    [w, w, 'dis en', op], [w + ' ' + w, op, 'sac'], [w, op, 'en'], [w, op, 'isen get'],
                    [wt, 'dis en'], [w, 'dis en', op]):
            for en in (1, 0):
                g.add(kind, [0, en], ths)
        # all the threads that wait are released by one change
        g.add(kind, [0, 1], [w, w, w, 'sync:3 ' + op])
        g.add(kind, [0, 1], [w, w, w, 'sync:3 dis'])
    # many threads
    for kind, w, op in (('int', 'wait:3:1:0', 'inc'), ('bool', 'wait:1:1:0', 'open')):
        g.add(kind, [0, 1], [w] * 5 + ['sync:5 ' + op], preempt=0)
        g.add(kind, [0, 1], [w] * 5 + ['sync:5 dis'], preempt=0)
    # different predicates on the same value
    for a, b, v in ((2, 4, 1), (3, 5, 1), (1, 1, 0), (2, 3, 0)):
        g.add('int', [v, 1], ['wait:%d:1:0' % a, 'wait:%d:1:0' % b, 'sync:2 inc', 'sync:2 dec'])
        g.add('int', [v, 1], ['wait:%d:1:0' % a, 'wait:%d:1:0' % b, 'set:2:1', 'set:0:1'])
        g.add('int', [v, 1], ['wait:%d:1:0' % a, 'wait:%d:1:0' % b, 'sync:2 inc inc dec dec'])
    # closing does not release
    g.add('bool', [0, 1], ['wait:1:1:0', 'close', 'close'])
    g.add('bool', [0, 1], ['wait:1:1:0 wait:1:1:0', 'sync:1 open close'])
    for i in range(600 if big else 90):
        kind = g.r.choice(['int', 'bool', 'gen'])
        c = changers(kind) + ['dis', 'en']
        n = g.r.choice([2, 2, 3])
        ths = [wait_op(g, kind, g.r.choice([0, 0, 0, 6])) for _ in range(n)] + [g.seq(c, 2)]
        if n == 2 and g.r.random() < .4:
            ths.append(g.seq(c, 1))
        g.add(kind, [g.r.choice([0, 1]), g.r.choice([1, 1, 1, 0])], ths)
    return g.out


def progs_w03(big):
    g = Gen(3)
    for kind, w, op, x in (('int', 'wait:3:1:0', 'inc', [0, 1]), ('bool', 'wait:1:1:0', 'open', [0, 1]),
                           ('gen', 'wait:6:1:0', 'set:1:1', [0, 1]), ('cnt', 'wdec:0', 'inc', [0, 1, 0]),
                           ('cnt', 'wthr:0', 'inc', [1, 1, 0])):
        wt = w[:-1] + '5'
        for rel in ('bdis', 'sac', 'dis', 'bdis en', 'sac sac', 'dis bdis', 'dis en bdis'):
            g.add(kind, x, [w, rel])
            g.add(kind, x, [wt, rel])
            g.add(kind, x, [w, w, rel])
            g.add(kind, x, [w, rel, op])
            g.add(kind, x, [w + ' ' + w, rel])
        for a, b in (('bdis', 'sac'), ('bdis', 'bdis'), ('bdis', 'en'), ('sac', 'sac'), ('sac', 'dis'), ('sac', 'en'),
                     ('bdis', 'dis'), ('dis', 'en')):
            g.add(kind, x, [w, a, b])
        g.add(kind, x, [w, w, 'sync:2 bdis', 'sync:2 isen'])
        g.add(kind, x, [w, w, 'sync:2 sac'])
        g.add(kind, x, [w, w, w, 'sync:3 sac'])
        # whoever was stopped changes the status while the other call is not over
        for rel in ('sac', 'bdis'):
            for ch in ('dis', 'en', 'sac', 'bdis'):
                g.add(kind, x, [w + ' %s isen' % ch, 'sync:1 %s isen' % rel])
        # destruction with threads inside
        g.add(kind, x, [w, 'sync:1 del'])
        g.add(kind, x, [wt, 'sync:1 del'])
        g.add(kind, x, [w, w, 'sync:2 del'])
        g.add(kind, x, [w, wt, 'sync:2 del'])
        g.add(kind, x, [w, w, 'sync:2 bdis del'])
        g.add(kind, x, [w, 'sync:1 dis del'])
        g.add(kind, x, [w, 'sync:1 %s del' % op])
        g.add(kind, [x[0], 0] + x[2:], [w, 'bdis sac', w])
    g.add('cnt', [1, 1, 0], ['wthr:0', 'wdec:0 wdec:0', 'sync:2 del'])
    g.add('cnt', [1, 1, 0], ['wthr:0', 'wdec:0 wdec:0', 'bdis'])
    g.add('cnt', [2, 1, 1], ['wthr:0', 'wthr:6', 'sync:2 bdis'])
    for i in range(500 if big else 60):
        kind = g.r.choice(['int', 'bool', 'gen', 'cnt', 'cnt'])
        if kind == 'cnt':
            ws = ['wdec:0', 'wdec:5', 'wthr:0', 'wthr:5']
            ths = [g.r.choice(ws), g.r.choice(ws), g.seq(['inc', 'bdis', 'sac', 'en', 'dis'], 2)]
            g.add('cnt', [g.r.choice([0, 1, 2]), 1, g.r.choice([0, 1])], ths)
        else:
            ths = [wait_op(g, kind), wait_op(g, kind), g.seq(STATUS, 2)]
            if g.r.random() < .3:
                ths[1] = g.seq(STATUS, 1)
            g.add(kind, [0, 1], ths)
    return g.out


def progs_w04(big):
    g = Gen(4)
    for thr in (0, 1):
        for v in (0, 1, 2, 3):
            for ths in (['wdec:0', 'wdec:0', 'inc inc'], ['wdec:0', 'wdec:0', 'inc', 'inc'], ['wdec:0 get', 'inc get'],
                        ['wdec:0', 'wdec:5', 'inc'], ['wdec:5 get', 'wdec:5', 'inc'], ['wthr:0', 'wdec:0 wdec:0', 'inc'],
                        ['wthr:0', 'wthr:5', 'wdec:0'], ['wthr:0', 'inc inc'], ['wthr:0', 'inc', 'inc'],
                        ['wdec:0', 'wdec:0', 'wdec:0', 'inc inc inc'], ['wdec:0', 'inc', 'dis'],
                        ['wdec:0 get', 'inc dis en inc'], ['wdec:0', 'wdec:0', 'inc sac inc']):
                if v in (0, 3) or thr == 0 or g.r.random() < .5:
                    g.add('cnt', [v, 1, thr], ths)
        g.add('cnt', [thr, 1, thr], ['wdec:0', 'wdec:0', 'wdec:0', 'sync:3 inc inc inc'])
        g.add('cnt', [thr, 1, thr], ['wdec:0', 'wdec:0', 'sync:2 inc', 'sync:2 inc'])
        g.add('cnt', [thr + 1, 1, thr], ['wthr:0', 'wthr:0', 'sync:2 wdec:0'])
    g.add('cnt', [0, 1, 2], ['wthr:0', 'inc inc'])
    g.add('cnt', [0, 1, 2], ['wthr:0', 'sync:1 inc inc'])
    g.add('cnt', [0, 1, 2], ['wthr:0 wdec:0', 'inc', 'inc inc'])
    g.add('cnt', [0, 0, 0], ['inc inc en', 'wdec:0 wdec:0', 'get'])
    g.add('cnt', [0, 0, 0], ['inc en', 'wdec:5 get', 'wdec:5'])
    # values and thresholds of any size
    for m in (b for b in BOUNDS if b > 0):
        g.add('cnt', [m + 1, 1, m], ['wdec:0 get wdec:3 wthr:0 inc wthr:3 wdec:0 get'], preempt=0)
        for x, y in ((0, m), (m, 0), (m, m - 2), (m - 2, m)):
            g.add('cnt', [x, 1, y], ['wdec:3 get wthr:3 inc wdec:3 get wthr:3'], preempt=0)
        g.add('cnt', [m, 1, m], ['wdec:0', 'sync:1 inc get'])
    n = 300
    g.add('cnt', [0, 1, 0], ['inc ' * n + 'get ' + 'wdec:0 ' * n + 'get wdec:3 wthr:0'], preempt=0)
    for i in range(500 if big else 70):
        ws = ['wdec:0', 'wdec:0', 'wdec:4', 'wthr:0', 'wthr:7']
        ths = [g.seq(ws, g.r.choice([1, 2])), g.seq(ws, 1), g.seq(['inc', 'inc', 'get', 'dis', 'en'], 2)]
        if g.r.random() < .3:
            ths.append(g.seq(['inc', 'inc', 'wdec:0'], 1))
        g.add('cnt', [g.r.choice([0, 1, 2]), g.r.choice([1, 1, 1, 0]), g.r.choice([0, 1])], ths)
    return g.out


def progs_exact(kinds, big):
    """The clock only advances when nothing else can happen: timeouts are exact, whatever goes on meanwhile."""
    g = Gen(5)
    for kind in kinds:
        w, idle, meet = {'int': ('wait:1:7:%d', ['inc', 'dec', 'set:3:1', 'set:2:0', 'get'], 'set:7:1'),
                         'gen': ('wait:1:7:%d', ['set:3:1', 'set:2:0', 'get'], 'set:7:1'),
                         'bool': ('wait:1:1:%d', ['close', 'get'], 'open'),
                         'cnt': ('wdec:%d', ['get', 'isen'], 'inc')}[kind]
        x = [0, 1, 0, 1]
        for to in (3, 10):
            for step in (1, 2, 3, 7):
                ats = ' '.join('at:%d %s' % (i * step, idle[0]) for i in range(1, 8))
                g.add(kind, x, [w % to, ats])
                g.add(kind, x, [w % to, w % (to + 4), ats])
                g.add(kind, x, [w % to + ' ' + w % 5, ats])
                g.add(kind, x, [w % to, 'at:%d %s' % (step, meet)])
                g.add(kind, x, [w % to, 'at:%d dis at:%d en' % (step, step + 1)])
        if kind == 'cnt':
            for to in (3, 10):
                g.add(kind, [2, 1, 0, 1], ['wthr:%d' % to, 'at:1 wdec:0 at:2 inc at:4 inc'])
                g.add(kind, [0, 1, 3, 1], ['wthr:%d' % to, 'wthr:2', 'at:1 inc at:2 inc at:3 inc'])
        for i in range(100 if big else 12):
            ths = [w % g.r.randint(1, 9) for _ in range(g.r.choice([1, 2]))]
            t, ops = 0, []
            for _ in range(6):
                t += g.r.randint(0, 4)
                ops.append('at:%d %s' % (t, g.r.choice(idle + [meet])))
            g.add(kind, x, ths + [' '.join(ops)])
    return g.out


def run(pid, progs, kinds):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    mcs(chk, kinds)
    b = vf.build('wait', SRC)
    opts = dict(dfs=30000 if big else 1500, random=20000 if big else 300, preempt=3 if big else 2,
                distinct=4000 if big else 500)
    vf.conc(chk, b, progs(big), 'WaitTrace', opts, secs=400 if big else 60)
    if pid in ('W02', 'W04'):
        ks = ['cnt'] if pid == 'W04' else ['int', 'bool', 'gen']
        vf.conc(chk, b, progs_exact(ks, big), 'WaitTrace', dict(opts, early=0, dfs=500 if big else 60,
                                                                 random=500 if big else 20, distinct=60), secs=15)
    chk.assumptions = ['sequentially consistent memory (data races are detected separately)',
                       'schedules with at most %d preemptions, early timeouts and spurious wake-ups, then random ones'
                       % opts['preempt']]
    return chk.finish()


CHECKS = {
    'W01': lambda: run('W01', progs_w01, ['int', 'bool']),
    'W02': lambda: run('W02', progs_w02, ['int', 'bool']),
    'W03': lambda: run('W03', progs_w03, ['int', 'cnt']),
    'W04': lambda: run('W04', progs_w04, ['cnt']),
}
