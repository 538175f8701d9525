"""M01: owner, lessee and guarded pointers.  spec/Owner*.tla, harness/owner.cpp."""
import vf
from checks.wait import Gen, SRC


def progs(big):
    g = Gen(51)
    k, i = 'own', []
    # one thread
    for b in (0, 1):
        g.add(k, i, ['oget:1:0 obool:1 lease:1:1 lbool:1 lock:1:1 get:1 arrow:1 star:1 lwe:1:1 mk:1:5:%d obool:1 oget:1:0 '
                     'oget:1:1 oget:1:2 oget:1:3 oget:1:4 lock:1:1 lease:1:1 lock:1:1 get:1 get:1:1 get:1:2 get:1:3 get:1:4 '
                     'unlock:1 arrow:1 star:1 lwe:1:2 unlock:2 lbool:1 reset:1 obool:1 lbool:1 lock:1:1 get:1 get:1:3 get:1:4 '
                     'arrow:1 star:1 lwe:1:1 oget:1:3 oget:1:4' % b])
        g.add(k, i, ['mk:1:5:%d lease:1:1 mk:1:6:%d lock:1:1 lease:1:2 lock:2:2 get:2 unlock:2 mknull:1 obool:1 lbool:2 '
                     'mkcnull:1 mkc:1:7:%d oget:1 odel:1' % (b, 1 - b, b)])
        g.add(k, i, ['mk:1:5:%d mk:2:6 lease:1:1 lease:2:2 omove:1:2 obool:2 oget:1 lock:1:1 lock:2:2 get:2 unlock:2 '
                     'omovec:3:1 lbool:2 oget:3 obool:1 mk:1:8 odel:1 lock:2:1 get:1' % b])
        g.add(k, i, ['mk:1:5:%d lease:1:1 omove:1:1 oget:1 lbool:1 lock:1:1 get:1' % b])
        g.add(k, i, ['mk:1:5:%d leasec:1:1 leasec:2:2 lock:1:1 get:1 unlock:1 lbool:2 omove:1:2 obool:1 omove:2:1 obool:2' % b])
    g.add(k, i, ['mk:1:5 lease:1:1 lcopy:1:2 lmove:1:3 lbool:1 lbool:2 lbool:3 lock:3:1 lock:2:2 gmove:1:2 get:2 get:1 '
                 'gmove:2:2 get:2 gmovec:2:3 get:3 unlock:3 ldel:2 reset:1 lbool:3'])
    g.add(k, i, ['mk:1:5 mk:2:6 lease:1:1 lease:2:2 lock:1:1 relock:2:1 get:1 reset:1 unlock:1 reset:2'])
    g.add(k, i, ['mk:1:5 lease:1:1 lock:1:1 relock:1:1 get:1 unlock:1 reset:1'])
    g.add(k, i, ['mk:1:5 lease:1:1 lock:1:1 relock:2:1 get:1 reset:1'])
    g.add(k, i, ['mk:1:5 mk:2:6 lease:1:1 lease:2:2 lock:1:1 lock:2:2 gmove:1:2 get:2 reset:2 unlock:2 reset:1'])
    # an owner that releases while others use the data
    pre = 'mk:1:5 mk:2:6:1 lease:1:1 lease:2:2 lease:1:3 flag:7 '
    uses = ['lock:1:1 get:1 get:1:1 unlock:1', 'arrow:1', 'lbool:1 lock:1:1 get:1', 'lwe:1:1 get:1', 'lbool:1 arrow:1 lbool:1',
            'lock:1:1 gmovec:1:2 get:2 unlock:2', 'lock:1:1 relock:2:1 get:1 unlock:1', 'lock:1:1 lock:1:2 unlock:1 get:2',
            'lcopy:1:4 lock:4:1 get:1', 'lock:1:1 lock:2:2 gmove:1:2 get:2 unlock:2', 'lock:1:1 relock:1:1 get:1']
    rels = ['reset:1', 'mk:1:7 lease:1:2', 'odel:1', 'omove:1:2 oget:1', 'omovec:3:1 oget:3 reset:3', 'mknull:1', 'mkc:1:8:1 reset:2']
    for u in uses:
        for r in rels if big else rels[:1] + [rels[1 + len(g.out) % 6], rels[1 + (len(g.out) + 1) % 6]]:
            if '2:2' in u and ':2' in r:
                continue            # (the lessee would be used by both)
            g.add(k, i, [pre + r, 'await:7 ' + u])
    for r in rels:
        g.add(k, i, [pre + r, 'await:7 lock:1:1 get:1 unlock:1', 'await:7 arrow:3'])
        g.add(k, i, [pre + r, 'await:7 lwe:1:1 get:1 gmove:1:2 get:2', 'await:7 lock:3:3 get:3 unlock:3'])
    g.add(k, i, [pre + 'reset:1 reset:2', 'await:7 lock:1:1 relock:2:1 get:1'])
    g.add(k, i, [pre + 'lock:3:3 unlock:3 reset:1', 'await:7 arrow:1', 'await:7 lbool:2 arrow:2 unlock:1'])
    g.add(k, i, ['mk:1:5 lease:1:1 lease:1:2 lock:1:1 flag:7 flag:6 unlock:1', 'await:7 reset:1', 'await:6 lock:2:2 get:2 unlock:2'])
    for _ in range(300 if big else 40):
        r = g.seq(['reset:1', 'mk:1:7', 'odel:1', 'omove:1:2', 'mk:1:8:1', 'oget:1'], 2)
        u = g.seq(['lock:1:1', 'get:1', 'unlock:1', 'arrow:1', 'lwe:1:2', 'gmove:1:2', 'get:2', 'relock:1:1', 'lbool:1'], 3)
        ths = [pre + r, 'await:7 ' + u]
        if g.r.random() < .6:
            ths.append('await:7 ' + g.seq(['arrow:3', 'lock:3:3', 'get:3', 'unlock:3', 'lbool:3'], 2))
        g.add(k, i, ths)
    return g.out


def star(big):
    g = Gen(52)
    g.out = [''] * 5000
    pre = 'mk:1:5 lease:1:1 flag:7 '
    for r in ('reset:1', 'mk:1:7', 'odel:1'):
        g.add('own', [], [pre + r, 'await:7 star:1'])
    return g.out[5000:]


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    chk.model('OwnerMC', vf.cfg_text(dict(N='2', Calls='2'), spec='Spec', invariants=['GuardedLives', 'OnceDeleted', 'OneOwner'],
                                     properties=['Released']), 'OwnerMC 2 threads with 2 calls')
    chk.model('OwnerMC', vf.cfg_text(dict(N='2', Calls='4' if big else '3'), spec='Spec',
                                     invariants=['GuardedLives', 'OnceDeleted', 'OneOwner']), 'OwnerMC 2 threads, safety')
    b = vf.build('owner', SRC)
    opts = dict(dfs=20000 if big else 1500, random=20000 if big else 300, preempt=3 if big else 2,
                distinct=4000 if big else 400, spurious=0, early=0)
    vf.conc(chk, b, progs(big) + star(big), 'OwnerTrace', opts, secs=400 if big else 60,
            key=lambda p, e: 'star' if '\t' + 'await:7 star:1' in p else '')
    chk.assumptions = ['sequentially consistent memory', 'an OwnerPtr, LesseePtr or GuardedPtr object itself is used by one '
                       'thread at a time']
    return chk.finish()


CHECKS = {'M01': lambda: run('M01')}
