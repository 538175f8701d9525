"""K02: timer, logger and debug helpers of py_utils, one object of each kind per program."""
import ast
import logging      # with the locks of the system
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import pysched

pysched.install(os.environ['PYROOT'])
from py_utils.time.Timer import Timer      # noqa: E402
pysched.scan([sys.modules[Timer.__module__]])

FORMATS = [None, '%(message)s|one|%(levelname)s|%(name)s', '%(name)s>two>%(message)s|one|%(levelname)s|%(name)s']
HAND = 'H%(levelname)s/%(name)s/%(message)s'
LINES = [r'\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3}\]\[(?P<n>[^]]*)\]\[(?P<l>[^]]*)\] (?P<m>.*)', r'(?P<m>.*)\|one\|(?P<l>[^|]*)\|(?P<n>.*)',
         r'[^>]*>two>(?P<m>.*)\|one\|(?P<l>[^|]*)\|(?P<n>.*)', r'H(?P<l>[^/]*)/(?P<n>[^/]*)/(?P<m>.*)']
MSGS = [('plain',), ('%s-%03d', 'x', 5), ('100% of {}',), ('',), ('ñ|o>/',)]
TEXTS = ['plain', 'x-005', '100% of {}', '', 'ñ|o>/']
LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}


class Out:
    def __init__(self):
        self.text = ''

    def write(self, x):
        self.text += x

    def flush(self):
        pass

    def take(self):
        r, self.text = self.text.split('\n'), ''
        return r[:-1] if r[-1] == '' else r + ['no end of line']


def parse(line):
    for f in (2, 1, 3, 0):
        m = re.fullmatch(LINES[f], line, re.S)
        if m:
            n = 1 if m['n'] == 'GLOBAL_LOG' else int(m['n'][3:]) if re.fullmatch(r'LOG\d', m['n']) else -1
            lv = LEVELS.get(m['l']) or (int(m['l'][6:]) if re.fullmatch(r'Level \d+', m['l']) else -1)
            return n, f, lv, m['m']
    return -1, -1, -1, line


class A:
    def a1(self):
        pass

    def a2(self):
        pass
    a3 = 5


class B(A):
    a1 = 3

    def a4(self):
        pass


class C:
    pass


def objects():
    c = A()
    c.a5 = lambda: 0
    return [A(), B(), c, C()]


class World:
    def __init__(self, kind, init, s):
        self.s = s
        if kind == 'timer':
            self.t = Timer()
            return
        logging.disable(0)
        self.out = sys.stderr = Out()
        for m in [m for m in sys.modules if m.startswith(('py_utils.logging', 'py_utils.debugging'))]:
            del sys.modules[m]
        from py_utils.logging import log_utils
        self.logs = [log_utils.logger] + [log_utils.CustomLogger(v, 'LOG%d' % (i + 2)) if v != 20 else
                                          log_utils.CustomLogger(logger_name='LOG%d' % (i + 2)) for i, v in enumerate(init[1:])]
        from py_utils.debugging import debug_utils
        self.dbg = debug_utils
        d = debug_utils.debug_function_decorator
        out = self.out

        @d
        def inc(x):
            out.write('BODY\n')
            return x + 1

        @d
        def bad(x):
            out.write('BODY\n')
            raise KeyError(x)

        @d
        def fact(n):
            out.write('BODY\n')
            return 1 if n < 2 else n * fact(n - 1)

        @d
        def kw(a, *more, b=7, **rest):
            out.write('BODY\n')
            return 100 * a + 10 * b + len(more) + len(rest)

        @d
        def same(o):
            out.write('BODY\n')
            return o

        class O:
            v = 40

            @d
            def met(self, x):
                out.write('BODY\n')
                return self.v + x

            def __repr__(self):
                return 'O'
        self.fs = dict(inc=inc, bad=bad, fact=fact, kw=kw, same=same, O=O)

    def call(self, f, x):
        if f == 1:
            return 'inc', [('(%d,)' % x, '{}')], self.fs['inc'](x)
        if f == 2:
            return 'bad', [('(%d,)' % x, '{}')], self.fs['bad'](x)
        if f == 3:
            return 'fact', [('(%d,)' % (x - i), '{}') for i in range(max(x, 1))], self.fs['fact'](x)
        if f == 4:
            return 'kw', [('(%d, 9)' % x, "{'b': 4, 'z': 0}")], self.fs['kw'](x, 9, b=4, z=0)
        if f == 5:
            o = [[], 0.0, False, '', [x]][x]
            return 'same', [(str((o,)), '{}')], x if self.fs['same'](o) is o else -1
        return 'met', [('(O, %d)' % x, '{}')], self.fs['O']().met(x)

    def exec(self, t, op, a):
        if op == 'sleep':
            self.s.block(lambda: False, self.s.clock + a[0] / 10000)
            return 'ok', []
        if op == 'reset':
            self.t.reset()
            return 'ok', []
        if op == 'el':
            return 'val', [round(self.t.elapsed() * 10000)]
        if op == 'lev':
            self.logs[a[0] - 1].set_log_level(a[1])
        elif op == 'std':
            self.logs[a[0] - 1].setLevel(a[1])
        elif op == 'dbg':
            self.logs[a[0] - 1].activate_debug()
        elif op == 'fmt':
            x = self.logs[a[0] - 1]
            x.set_format(FORMATS[a[1]]) if a[1] else x.set_format()
        elif op == 'dis':
            logging.disable(a[0])
        elif op == 'addh':
            h = logging.StreamHandler()
            h.setFormatter(logging.Formatter(HAND))
            self.logs[a[0] - 1].addHandler(h)
        elif op == 'on':
            return 'val', [int(self.logs[a[0] - 1].isEnabledFor(a[1]))]
        elif op == 'log':
            x, m = self.logs[a[0] - 1], MSGS[a[2]]
            f = {10: x.debug, 20: x.info, 30: x.warning, 40: x.error, 50: x.critical}.get(a[1])
            f(*m) if f and a[2] != 2 else x.log(a[1], *m)
            r = []
            for y in self.out.take():
                n, f, lv, text = parse(y)
                r += [n, f, lv, a[2] if text == TEXTS[a[2]] else -1]
            return 'val', r
        elif op == 'call':
            tag, res, name, args = 'val', -1, None, None
            try:
                name, args, res = self.call(*a)
            except KeyError as e:
                tag, res, name, args = 'raised', e.args[0], 'bad', [('(%d,)' % a[1], '{}')]
            r, depth = [res], 0
            for y in self.out.take():
                if y == 'BODY':
                    r.append(2)
                    depth += 1
                    continue
                n, f, lv, text = parse(y)
                k = -1
                if n == 1 and lv == 10 and depth < len(args) and text == 'Function <%s> called with arguments: <%s>, <%s>' % ((name,) + args[depth]):
                    k = 1
                elif n == 1 and lv == 10 and text == 'Function <%s> finished' % name:
                    k = 3
                r.append(k)
            return tag, r
        elif op == 'intro':
            o = objects()[a[0] - 1]
            self.dbg.debug_object_introspection(o)
            r = []
            for y in self.out.take():
                n, f, lv, text = parse(y)
                m = re.search(r'\bClass: <?(\w+).*?(\[.*\])', text)
                names = ast.literal_eval(m[2]) if m else []
                r += [1 if n == 1 and lv == 10 and m and m[1] == type(o).__name__ and '__init__' in names and '__dict__' not in names else -1]
                r += [int(x[1:]) for x in names if re.fullmatch(r'a\d', x)]
            return 'val', r
        else:
            raise pysched.Stop('no operation ' + op)
        return 'ok', []


pysched.main(World, sys.argv)
