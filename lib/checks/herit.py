"""M02: Heritable.  spec/Herit*.tla, harness/herit.cpp."""
import itertools
import vf
from checks.wait import Gen

STATIC = [1, 1, 1, 2, 2, 3, 3]
ISA = {1: {1}, 2: {1, 2}, 3: {1, 3, 5}, 4: {1, 2, 4}}
NEW = ['new:%d:%d:%d' % (s, ty, 10 * s + ty) for s in range(7) for ty in ISA if STATIC[s] in ISA[ty]]
MAKE = ['make:%d:%d' % (s, 50 + s) for s in range(7)]
MOVE = ['%s:%d:%d' % (op, x, y) for op in ('copy', 'assign', 'mvc', 'mva') for x in range(7) for y in range(7)
        if not (op == 'mvc' and x == y)]
DROP = ['drop:%d' % s for s in range(7)]
LOOK = ' '.join('get:%d:%d' % (s, s % 3) for s in range(7))
USE = ['can:%d:%d' % (s, u) for s in range(7) for u in range(1, 6)] + ['dyn:%d:%d' % (s, u) for s in range(7) for u in range(1, 6)] \
    + ['dynset:%d:%d:%d' % (s, u, 3 + u) for s in range(7) for u in (1, 2, 3, 4)] + ['out:%d' % s for s in range(7)] \
    + ['set:%d:%d:%d' % (s, 7 + s, k) for s in range(7) for k in range(3)] + ['get:%d:%d' % (s, k) for s in range(7) for k in range(3)] \
    + ['%s:%d:%d' % (op, x, y) for op in ('eq', 'lt') for x in range(7) for y in range(7) if STATIC[x] == STATIC[y]] \
    + ['%s:%d:%d' % (op, x, 100 * STATIC[x] + v) for op in ('eqv', 'ltv') for x in range(7) for v in (0, 7, 10 * x + STATIC[x])]


def progs(big):
    g = Gen(71)

    def add(ops):
        g.add('herit', [], [' '.join(ops)], preempt=0)
    for n in NEW + MAKE:
        s = n.split(':')[1]
        for u in [u for u in USE if u.split(':')[1] == s]:
            add([n, u, LOOK])
        for m in [m for m in MOVE if m.split(':')[1] == s]:
            add([n, m, LOOK] + ['set:%s:9' % m.split(':')[2], LOOK, 'drop:' + s, LOOK])
            add([g.r.choice(NEW), n, g.r.choice(NEW), m, LOOK, 'drop:' + m.split(':')[2], LOOK])
    for a, b in itertools.product(NEW, repeat=2):
        x, y = a.split(':')[1], b.split(':')[1]
        if STATIC[int(x)] == STATIC[int(y)] and x != y:
            add([a, b, 'eq:%s:%s' % (x, y), 'lt:%s:%s' % (x, y), 'set:%s:5' % x, 'set:%s:5' % y, 'eq:%s:%s' % (x, y),
                 'lt:%s:%s' % (x, y), 'lt:%s:%s' % (y, x)])
    for _ in range(30000 if big else 5000):
        ops = [g.r.choice(g.r.choice([NEW, MAKE])) for _ in range(2)]
        for _ in range(g.r.choice([5, 10, 20])):
            ops.append(g.r.choice(g.r.choice([NEW, MOVE, MOVE, MOVE, DROP, USE, USE])))
        add(ops + [LOOK])
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    chk.model('HeritMC', vf.cfg_text(dict(Objs='3' if big else '2'), spec='Spec', invariants=['Alive', 'Once'],
                                     properties=['NoLeak', 'Shared']), 'HeritMC')
    b = vf.build('herit', ['exception/Exception', 'Formatter'])
    vf.conc(chk, b, progs(big), 'HeritTrace', dict(dfs=1, random=0, preempt=0, early=0, spurious=0), secs=300 if big else 60)
    chk.assumptions = ['a Heritable whose object has been moved away is only destroyed or assigned']
    return chk.finish()


CHECKS = {'M02': lambda: run('M02')}
