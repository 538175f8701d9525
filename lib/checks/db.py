"""D01: SafeDatabase.  spec/Db*.tla, harness/db.cpp."""
import itertools
import vf
from checks.wait import Gen


def seqs(big):
    """One thread: every short sequence of calls, and longer random ones."""
    g = Gen(61)
    k, i = 'db', []
    look = ' size is:1 is:2 val:1 val:2 val:3 walk count:5'
    w = ['add:1:5', 'addc:1:6', 'mod:1:7', 'aom:1:8', 'aomc:1:9', 'erase:1', 'add:2:3', 'erase:2', 'aom:2:4', 'mod:2:2']
    for n in (1, 2, 3):
        for ops in itertools.product(w, repeat=n):
            g.add(k, i, [' '.join(ops) + look], preempt=0)
    # many elements, in any order
    for n in (9, 17, 40, 70, 140, 300):
        ks = list(range(1, n + 1))
        for _ in range(2):
            g.r.shuffle(ks)
            g.add(k, i, [' '.join('%s:%d:%d' % (g.r.choice(['add', 'addc', 'aom', 'aomc']), x, x % 50) for x in ks)
                         + look + ' size walk:1 ' + ' '.join('erase:%d' % x for x in ks[:n // 2]) + ' size walk '
                         + ' '.join('mod:%d:3' % x for x in ks) + ' size walk'], preempt=0)
    its = ['begin:0', 'end:1', 'find:0:2', 'find:2:1', 'copy:0:1', 'copy:1:0', 'move:0:3', 'move:3:1', 'drop:0', 'drop:1',
           'next:0', 'next:1', 'prev:0', 'prev:1', 'deref:0', 'deref:1', 'same:0:1', 'walk', 'walk:1', 'count:4', 'val:2',
           'add:2:9', 'mod:5:1', 'erase:5']
    free = ' drop:0 drop:1 drop:2 drop:3 aom:2:9 erase:1 walk:1'
    pre = 'add:1:3 add:2:6 add:3:4 '
    for n in (1, 2):
        for ops in itertools.product(its, repeat=n):
            g.add(k, i, [pre + ' '.join(ops) + ' deref:0 deref:1' + free], preempt=0)
    for _ in range(20000 if big else 3000):
        g.add(k, i, [pre + g.seq(its, g.r.choice([4, 8])) + free], preempt=0)
    for _ in range(6000 if big else 1000):
        g.add(k, i, [g.seq(w + ['add:3:1', 'add:4:6', 'aom:4:2', 'erase:4', 'mod:3:6'], 8) + look], preempt=0)
    return g.out


def progs(big):
    g = Gen(62)
    k, i = 'db', []
    pre = 'add:1:3 add:2:6 flag:7 '
    ws = ['erase:1', 'aom:1:7', 'mod:2:8', 'add:3:5', 'addc:3:5 erase:2', 'erase:1 add:1:9', 'aomc:4:1']
    rs = ['walk', 'walk:1', 'begin:0 deref:0 next:0 deref:0 drop:0', 'find:0:1 deref:0 drop:0', 'val:1 is:3 size',
          'begin:0 copy:0:1 drop:0 deref:1 drop:1', 'count:5', 'find:0:2 val:1 is:3 drop:0', 'val:3', 'find:0:3 deref:0 drop:0',
          'begin:0 move:0:1 drop:0 deref:1 drop:1', 'end:0 prev:0 deref:0 drop:0', 'begin:0 begin:1 same:0:1 drop:0 walk drop:1']
    for w in ws:
        for r in rs:
            g.add(k, i, [pre + w, 'await:7 ' + r])
        for w2 in ws:
            g.add(k, i, [pre + w, 'await:7 ' + w2 + ' walk'])
    other = ['find:3:1 deref:3 drop:3', 'begin:4 deref:4 drop:4', 'walk', 'val:1 val:3']
    for w in ws:
        for r in rs[:7]:
            g.add(k, i, [pre + w, 'await:7 ' + r, 'await:7 ' + g.r.choice(other)])
            g.add(k, i, [pre + w, 'await:7 ' + r, 'await:7 ' + g.r.choice(ws)])
    # iterators that stay, or are dropped by another thread
    g.add(k, i, ['add:1:3 begin:0 flag:7 await:6 drop:0 walk', 'await:7 begin:1 flag:6 deref:1 drop:1 erase:1'])
    g.add(k, i, ['add:1:3 begin:0 flag:7 erase:1', 'await:7 walk val:1'])
    g.add(k, i, ['add:1:3 begin:0 flag:7', 'await:7 drop:0 erase:1', 'await:7 add:2:2'])
    g.add(k, i, ['add:1:3 begin:0 copy:0:1 flag:7 drop:0', 'await:7 add:2:2 walk', 'await:7 walk drop:1'])
    g.add(k, i, ['add:1:3 find:0:1 flag:7 mod:1:4', 'await:7 val:1 deref:0 size is:1 walk count:1'])
    # every two ways to change the same key, absent or present at first
    ch = ['add:1:5', 'addc:1:6', 'aom:1:7', 'aomc:1:8', 'mod:1:9', 'erase:1']
    for x, y in itertools.combinations_with_replacement(ch, 2):
        for p in ('', 'add:1:3 '):
            g.add(k, i, [p + 'flag:7 ' + x + ' val:1', 'await:7 ' + y.replace(':1:', ':1:1') + ' val:1'], post='walk')
    for _ in range(300 if big else 40):
        ops = ['add:1:5', 'aomc:1:8', 'addc:1:4', 'mod:1:6', 'aom:1:7', 'erase:1', 'val:1', 'add:2:5', 'erase:2', 'walk', 'size', 'is:1']
        g.add(k, i, [g.seq(ops, 2), g.seq(ops, 2)] + ([g.seq(ops, 1)] if g.r.random() < .5 else []))
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    chk.model('DbMC', vf.cfg_text(dict(N='2', Calls='3' if big else '2', K='2'), spec='Spec', invariants=['Valid'],
                                  properties=['FrozenStays', 'Tells', 'Served']), 'DbMC')
    b = vf.build('db', ['exception/Exception', 'Formatter'])
    vf.conc(chk, b, seqs(big), 'DbTrace', dict(dfs=1, random=0, preempt=0, early=0, spurious=0), secs=300 if big else 40)
    opts = dict(dfs=20000 if big else 1000, random=20000 if big else 300, preempt=3 if big else 2,
                distinct=4000 if big else 300, spurious=0, early=0)
    vf.conc(chk, b, progs(big), 'DbTrace', opts, secs=400 if big else 60)
    chk.assumptions = ['sequentially consistent memory', 'an iterator object is used by one thread at a time',
                       'shared locks are granted while a writer waits (as in glibc; the library documents that Windows differs)']
    return chk.finish()


CHECKS = {'D01': lambda: run('D01')}
