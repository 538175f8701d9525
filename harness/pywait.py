"""K01: the wait handlers of py_utils, under the scheduler of pysched."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import pysched

ROOT = os.environ['PYROOT']
pysched.install(ROOT)
from py_utils.wait.WaitHandler import WaitHandler, AwakeReason      # noqa: E402
from py_utils.wait.BooleanWaitHandler import BooleanWaitHandler     # noqa: E402
from py_utils.wait.IntWaitHandler import IntWaitHandler             # noqa: E402
pysched.scan([sys.modules[c.__module__] for c in (WaitHandler, BooleanWaitHandler, IntWaitHandler)])

REASON = {AwakeReason.disabled: 'disabled', AwakeReason.timeout: 'timeout', AwakeReason.condition_met: 'met'}
REL = {1: lambda x: (lambda v: v == x), 2: lambda x: (lambda v: v > x), 3: lambda x: (lambda v: v >= x),
       4: lambda x: (lambda v: v < x), 5: lambda x: (lambda v: v <= x), 6: lambda x: (lambda v: v % 2 == x)}


class World:
    def __init__(self, kind, init, s):
        self.kind, self.s = kind, s
        v, en = init[0], bool(init[1])
        if kind == 'bool':
            self.h = BooleanWaitHandler(en, bool(v))
        elif kind == 'int':
            self.h = IntWaitHandler(en, v) if v else IntWaitHandler(en)
        else:
            self.h = WaitHandler(en, v)

    def wait(self, r, x, to):
        h, k = self.h, self.kind
        t = to / 1000 if to > 0 else 0 if to < 0 else None
        if k == 'bool' and r == 1:
            return h.wait(t) if t is not None else h.wait()
        if k == 'int' and r in (1, 2, 3):
            f = {1: h.wait_equal, 2: h.wait_greater, 3: h.wait_greater_equal}[r]
            return f(x, t) if t is not None else f(x)
        w = h.wait if k == 'gen' else lambda **a: WaitHandler.wait(h, **a)
        if r == 6 and x == 2:
            return w(timeout=t) if t is not None else w()
        return w(predicate=REL[r](x), timeout=t)

    def exec(self, t, op, a):
        h = self.h
        if op == 'wait':
            t0 = self.s.clock
            r = self.wait(*a)
            tag = REASON.get(r, 'other')
            # when it said it waited for
            if tag == 'timeout':
                d = self.s.clock - t0 - max(a[2], 0) / 1000
                if d < -1e-7:
                    tag = 'early'
                elif d > 1e-7 and not self.s.opt.early:
                    tag = 'late'
            return tag, []
        if op == 'get':
            return 'val', [int(h.get_value())]
        if op == 'isen':
            return 'val', [int(h.enabled())]
        if op in ('inc', 'dec'):
            (h.increase if op == 'inc' else h.decrease)(*a)
        elif op == 'set':
            h.set_value(bool(a[0]) if self.kind == 'bool' else a[0])
        elif op == 'open':
            h.open()
        elif op == 'close':
            h.close()
        elif op == 'dis':
            h.disable()
        elif op == 'en':
            h.enable()
        elif op == 'bdis':
            h.blocking_disable()
        else:
            raise pysched.Stop('no operation ' + op)
        return 'ok', []


pysched.main(World, sys.argv)
