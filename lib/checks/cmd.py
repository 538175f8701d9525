"""U02: CommandReader.  spec/Cmd*.tla, harness/cmd.cpp."""
import itertools
import vf
from checks.wait import Gen
from checks.stdin import SSRC


def key(s):
    return 'key:' + ':'.join(str(c) for c in s.encode('latin-1'))


def progs(big):
    """Lines, typed before they are asked for; the schedule does not matter."""
    g = Gen(51)

    def add(b, lines):
        g.add('cmd', [b], [' '.join('%s read' % key(x + '\n') for x in lines)], preempt=0)
    lines = [''.join(x) for n in range(7 if big else 6) for x in itertools.product('a "', repeat=n)]
    lines += [''.join(x) for n in range(5 if big else 4) for x in itertools.product('abA "', repeat=n)]
    for i in range(0, len(lines), 4):
        for b in range(4):
            add(b, lines[i:i + 4])
    pieces = ['a', 'b', 'ab', 'a b', 'aa', 'bb', 'A', '"', '""', ' ', '  ', '"a b"', '"a', 'b"', "'", '\\', '\t', '"aa" ', ' "b', 'x\xe9', '\xff"', '\\"']
    for _ in range(6000 if big else 800):
        add(g.r.randint(0, 3), [''.join(g.r.choice(pieces) for _ in range(g.r.randint(1, 6))) for _ in range(3)])
    for _ in range(200 if big else 40):
        add(g.r.randint(0, 3), [''.join(g.r.choice('ab "') for _ in range(g.r.randint(10, 60))) for _ in range(2)])
    # many arguments, and long ones
    for n in (7, 9, 17, 33, 70, 130):
        for b in range(4):
            add(b, ['a' + ' x%d' % (n * 7) * n, 'ab ' + ' '.join('"%d %d"' % (i, i) for i in range(n)), 'aa  ' + 'y ' * n,
                    'b ' + 'w' * n * 4 + ' ' + '"' + 'v w' * n + '" z', 'q' * n * 4])
    return g.out


def progs_conc(big):
    g = Gen(52)
    for b in (0, 1):
        g.add('cmd', [b], ['read', 'read', key('a\nb x\n')])
        g.add('cmd', [b], ['read read', key('a\n'), key('b\n')])
        g.add('cmd', [b], ['read', key('a') + ' ' + key('b "x') + ' ' + key(' y"\n')])
        g.add('cmd', [b], ['read', 'read', 'read', key('a\nab\nA\n')])
        g.add('cmd', [b], ['read read', 'read', key('a\nb\n')])
        g.add('cmd', [b], ['more ' + key('a\n') + ' del'])
        g.add('cmd', [b], ['more more ' + key('a\nb\n') + ' read del'])
        g.add('cmd', [b], ['more', key('a\nb\n') + ' read', 'read'])
        g.add('cmd', [b], [key('a\n') + ' read ' + key('\x1b[A\n') + ' read'])
        g.add('cmd', [b], ['ign:1 ' + key('a\n') + ' read ign:0 ' + key('b\n') + ' read ' + key('\x1b[A\n') + ' read'])
        g.add('cmd', [b], [key('a\n\x03\n\n') + ' read read read'])
        g.add('cmd', [b], ['read'])
        g.add('cmd', [b], ['del'])
    for _ in range(120 if big else 20):
        ops = ['read', 'read', key('a\n'), key('b b\n'), key('"a'), key('b"\n'), 'more', key('\n')]
        ts = [g.seq(ops, g.r.randint(1, 3)) for _ in range(2)]
        # always enough lines at the end
        g.add('cmd', [g.r.randint(0, 3)], ts + [key('a\n' * g.r.randint(1, 6))])
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    chk.model('CmdMC', vf.cfg_text(dict(Readers='3' if big else '2', Reads='2', Lines='4' if big else '3', N='3' if big else '2'),
                                   spec='Spec', invariants=['InOrder', 'OnDemand', 'NobodyLeft']), 'CmdMC')
    b = vf.build('cmd', SSRC + ['utils', 'math/math_extension'])
    o1 = dict(dfs=1, random=0, preempt=0, early=0, spurious=0)
    vf.conc(chk, b, progs(big), 'CmdTrace', o1, secs=300 if big else 60)
    o2 = dict(dfs=20000 if big else 2500, random=5000 if big else 400, preempt=3 if big else 2, early=0, spurious=0,
              distinct=2000 if big else 300)
    vf.conc(chk, b, progs_conc(big), 'CmdTrace', o2, secs=200 if big else 40)
    chk.assumptions = ['getchar, the terminal attributes and the width of the window are played by the harness',
                       'nothing is required of Command::command when the call returns false']
    return chk.finish()


CHECKS = {'U02': lambda: run('U02')}
