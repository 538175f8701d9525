"""E06: StdinEventHandler.  spec/Stdin*.tla, harness/stdin.cpp."""
import itertools
import vf
from checks.wait import Gen, SRC

SSRC = SRC + ['event/StdinEventHandler', 'history/CommandHistoryHandler']
ESC = '27:91:'
KEYS = {'a': '97', 'b': '98', 'up': ESC + '65', 'down': ESC + '66', 'right': ESC + '67', 'left': ESC + '68',
        'home': ESC + '72', 'end': ESC + '70', 'bs': '127', 'del': ESC + '51:126', 'enter': '10',
        # less used
        'bs2': '8', 'cr': '13', 'ctrlc': '3', 'ins': ESC + '50:126', 'pgup': ESC + '53:126', 'pgdn': ESC + '54:126',
        'unknown': ESC + '90', 'space': '32', 'e9': '233', 'ff': '255', 'nul': '0', 'tilde': '126', 'upper': '65',
        'baddel': ESC + '51:65', 'badpg': ESC + '53:10', 'escesc': '27:27:68', 'tab': '9'}
MAIN = ['a', 'b', 'up', 'down', 'right', 'left', 'home', 'end', 'bs', 'del', 'enter']
ALL = list(KEYS)


def word(ks):
    return 'key:' + ':'.join(KEYS[k] for k in ks)


def progs(big):
    """Sequences of keys, typed at once; the schedule does not matter."""
    g = Gen(31)

    def add(ks, width=80, lines=9, pre='', post=''):
        g.add('stdin', [lines, width], ['set:1 %s%s settle%s' % (pre, word(ks), post)], preempt=0)
    hist = 'key:120:10:121:122:10 settle '
    for n in range(1, 4 if big else 3):
        for ks in itertools.product(ALL, repeat=n):
            add(ks + ('a', 'enter'))
    for n in (1, 2, 3, 4) if big else (1, 2, 3):
        for ks in itertools.product(MAIN, repeat=n):
            add(ks + ('enter',), pre=hist)
    for n in range(12000 if big else 2500):
        ks = [g.r.choice(MAIN if g.r.random() < .7 else ALL) for _ in range(g.r.choice([5, 8, 12, 20]))]
        add(ks + ['enter'], width=g.r.choice([80, 80, 7, 5, 4, 1, 0, -1, 3]), pre=hist if g.r.random() < .4 else '',
            post=' count')
    for n in range(3000 if big else 600):
        bs = [g.r.choice([27, 91, 65, 66, 67, 68, 51, 53, 54, 126, 10, 127, 97, 98, 99, g.r.randint(0, 255)])
              for _ in range(g.r.choice([4, 8, 14]))]
        g.add('stdin', [9, g.r.choice([80, 6, 2])], ['set:1 key:%s:10 settle' % ':'.join(map(str, bs))], preempt=0)
    # long lines, edited at their ends and in the middle, and many of them
    for n in (78, 79, 80, 81, 126, 255, 256, 257, 520):
        for w in (80, 1000, 10):
            line = [g.r.choice('ab') for _ in range(n)]
            add(line + ['enter'], width=w)
            add(line + ['home', 'b', 'right', 'del', 'end', 'bs', 'a'] + ['left'] * (n // 2) + ['bs', 'a', 'b', 'enter', 'up', 'enter'], width=w)
    for n in (20, 60, 130):
        add(sum((['a'] * (1 + i % 3) + ['b'] * (i % 5) + ['enter'] for i in range(n)), []) + ['up'] * (n + 2) + ['down', 'enter'] + ['up'] * 9
            + ['enter'], lines=n + 9)
    for w in (80, 7, 4, 1, 0, -1):
        for k in ALL:
            add(['a', 'b', 'a', 'b', 'left', k, 'b', 'enter', 'up', k, 'enter'], width=w, pre=hist)
    return g.out


def progs_conc(big):
    g = Gen(32)
    k = 'stdin'
    e = '10'
    for i in ([0, 80], [1, 80], [2, 80]):
        g.add(k, i, ['set:1 key:97:10:98:10 settle count unset set:2 more key:99:10 settle'])
        g.add(k, i, ['set:1 unset key:97:10 settle set:2 settle more more settle count'])
        g.add(k, i, ['set:1 more key:97:10', 'key:98:10'])
        g.add(k, i, ['set:1 more more key:97:10', 'key:10'])
        g.add(k, i, ['set:1 more key:97:10 ign:1 key:98:10 more settle ign:0 more key:27:91:65:10 settle isign'])
        g.add(k, i, ['set:1 set:2 more key:97:10 set:3'])
        g.add(k, i, ['set:1 more key:97:10 unset'])
        g.add(k, i, ['set:1 more key:97:10:98:10 unset set:2 key:10'])
        g.add(k, i, ['set:1 key:97 unset', 'key:98:10'])
        g.add(k, i, ['set:1 more more key:97', 'key:98:10', 'key:10'])
        g.add(k, i, ['set:1 del'])
        g.add(k, i, ['set:1 unset set:2 unset set:3 del'])
        g.add(k, i, ['set:1 more key:97:-1 settle unset'])
        g.add(k, i, ['set:1 more more key:97:10:-1 settle count unset'])
        g.add(k, i, ['set:1 more key:27:-1 settle unset'])
        g.add(k, i, ['set:1 more key:-1 unset set:2 unset'])
        g.add(k, i, ['set:1 more key:27:91:51:-1'])
        g.add(k, i, ['set:1 more key:3 settle count more key:97:10:27:91:65:10 settle count'])
    for _ in range(150 if big else 20):
        ops = ['more', 'key:97:10', 'key:98', 'key:10', 'ign:1', 'ign:0', 'set:2', 'count', 'key:27:91:65:10', 'settle']
        g.add(k, [g.r.choice([0, 1, 3]), 80], ['set:1 ' + g.seq(ops, 5)])
    return g.out


def run(pid):
    chk = vf.Check(pid)
    big = vf.TIER == 'thorough'
    chk.model('StdinMC', vf.cfg_text(dict(Depth='7' if big else '6'), spec='Spec',
                                     invariants=['Consistent', 'Undo', 'HistoryIsLines']), 'StdinMC')
    b = vf.build('stdin', SSRC)
    o1 = dict(dfs=1, random=0, preempt=0, early=0, spurious=0)
    vf.conc(chk, b, progs(big), 'StdinTrace', o1, secs=300 if big else 60)
    o2 = dict(dfs=20000 if big else 1500, random=5000 if big else 300, preempt=3 if big else 2, early=0, spurious=0,
              distinct=2000 if big else 300)
    vf.conc(chk, b, progs_conc(big), 'StdinTrace', o2, secs=200 if big else 40)
    chk.assumptions = ['getchar, the terminal attributes and the width of the window are played by the harness',
                       'what is drawn on the terminal is not checked']
    return chk.finish()


CHECKS = {'E06': lambda: run('E06')}
