"""Deterministic scheduler of Python threads: locks (and everything of the threading module that is built on them) and time
are played by it, threads may be preempted at locks and at accesses to the attributes they share.
Prints the same lines as the programs made with conc.hpp."""
import _thread
import dis
import importlib.util
import os
import random
import sys
import time as real_time
import types


class Abort(BaseException):
    """The execution is over."""


class Stop(Exception):
    pass


class Opt:
    preempt = 2
    early = 1
    dfs = 1000
    random = 0
    seed = 1
    steps = 4000
    distinct = 1000000


class VThread:
    def __init__(self, n, label):
        self.n = n
        self.label = label
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.blocked = None         # condition (a function) it waits for
        self.deadline = None
        self.timed_out = False
        self.done = False
        self.in_cond = False        # in a wait of a condition variable
        self.op = ''


class Sched:
    """One execution."""

    def __init__(self, opt, prefix, rnd=None):
        self.opt, self.prefix, self.rnd = opt, prefix, rnd
        self.threads = []
        self.cur = None
        self.clock = 1000.0
        self.choices = []           # (taken, number of alternatives)
        self.used = 0
        self.nsteps = 0
        self.log = []
        self.outcome, self.detail = None, ''
        self.over = False
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.alive = 0

    # ---- choices
    def enabled(self, t):
        return not t.done and (t.blocked is None or t.blocked())

    def choose(self, n):
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                c = 0
        elif self.rnd is not None:
            c = self.rnd.randrange(n) if self.rnd.random() < .3 else 0
        else:
            c = 0
        self.choices.append((c, n))
        return c

    def pick(self, me):
        """The next thread to run; None: none can."""
        while True:
            left = self.opt.preempt - self.used if self.rnd is None else 1
            opts = []
            free = me is not None and self.enabled(me)
            if free:
                opts.append((me, 0, False))
            for t in self.threads:
                if t is not me and self.enabled(t):
                    opts.append((t, 1 if free else 0, False))
            some = bool(opts)
            if self.opt.early or not some:
                ds = sorted({t.deadline for t in self.threads if not t.done and t.blocked and t.deadline is not None and not self.enabled(t)})
                for t in self.threads:
                    if not t.done and t.blocked and t.deadline is not None and not self.enabled(t):
                        if some and not self.opt.early:
                            continue
                        if not some and t.deadline > ds[0] and not self.opt.early:
                            continue
                        opts.append((t, 1 if some else 0, True))
            opts = [o for o in opts if o[1] <= left]
            if not opts:
                return None
            c = self.choose(len(opts)) if len(opts) > 1 else 0
            t, cost, expired = opts[c]
            self.used += cost
            if expired:
                self.clock = max(self.clock, t.deadline)
                t.timed_out = True
                t.blocked = None
            return t

    # ---- from the threads
    def step(self):
        if self.over:
            raise Abort()
        self.nsteps += 1
        if self.nsteps > self.opt.steps:
            self.end('hang', 'more than %d steps' % self.opt.steps)
            raise Abort()

    def point(self):
        me = current()
        if me is None:
            return
        self.step()
        t = self.pick(me)
        if t is not me:
            self.switch(me, t)

    def switch(self, me, t):
        self.cur = t
        t.sem.release()
        me.sem.acquire()
        if self.over:
            raise Abort()

    def block(self, cond, deadline=None):
        """Until cond(); False if the deadline came first."""
        me = current()
        self.step()
        me.blocked, me.deadline, me.timed_out = cond, deadline, False
        t = self.pick(me)
        if t is None:
            self.end('deadlock', '')
            raise Abort()
        if t is not me:
            self.switch(me, t)
        me.blocked = me.deadline = None
        return not me.timed_out

    def end(self, outcome, detail):
        if not self.over:
            self.outcome, self.detail = outcome, detail
            self.blocked = ['%s:%s' % (t.label, t.op) for t in self.threads if not t.done]
            self.over = True
            for t in self.threads:
                if not t.done and t is not current():
                    t.sem.release()

    def main(self, t, f):
        t.sem.acquire()
        tls[_thread.get_ident()] = t
        try:
            if not self.over:
                sys.settrace(tracer)
                f()
        except Abort:
            pass
        except BaseException as e:
            if not self.over:
                self.end('crash', '%s: %s' % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            t.done = True
            if not self.over:
                nxt = self.pick(None)
                if nxt is None:
                    if all(x.done for x in self.threads):
                        self.end('done', '')
                    else:
                        self.end('deadlock', '')
                else:
                    self.cur = nxt
                    nxt.sem.release()
            del tls[_thread.get_ident()]
            with count_lock:
                self.alive -= 1
                last = self.alive == 0
            if last:
                self.finished.release()

    def run(self, bodies):
        global S
        S = self
        self.threads = [VThread(i + 1, 't%d' % (i + 1)) for i in range(len(bodies))]
        self.alive = len(bodies)
        for t, f in zip(self.threads, bodies):
            _thread.start_new_thread(self.main, (t, f))
        first = self.pick(None)
        self.cur = first
        first.sem.release()
        self.finished.acquire()
        return self


S = None
tls = {}
count_lock = _thread.allocate_lock()


def current():
    return tls.get(_thread.get_ident())


# ---- locks and time
class VLock:
    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        if S is None or current() is None:
            if self.held:
                if not blocking:
                    return False
                raise Stop('a lock nobody will release')
            self.held = True
            return True
        if S.over:
            raise Abort()
        if timeout is not None and timeout != -1 and timeout < 0:
            raise ValueError('timeout value must be a non-negative number')
        S.point()
        if self.held:
            if not blocking or timeout == 0:
                return False
            dl = None if timeout is None or timeout == -1 else S.clock + timeout
            me = current()
            me.in_cond = sys._getframe(1).f_code is sys.modules['threading'].Condition.wait.__code__
            got = S.block(lambda: not self.held, dl)
            me.in_cond = False
            if not got:
                return False
        self.held = True
        return True

    def release(self):
        if S is not None and S.over:
            return
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        if S is not None and current() is not None:
            S.point()

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.held = False


def vtime():
    return S.clock if S is not None else 1000.0


def vsleep(x):
    if S is None or current() is None:
        return
    if x < 0:
        raise ValueError('sleep length must be non-negative')
    if x == 0:
        S.point()
        return
    S.block(lambda: False, S.clock + x)


def install(root):
    """Put the stand-ins in place; the modules under root are imported afterwards."""
    fake = types.ModuleType('_thread')
    for k in dir(_thread):
        if k != 'RLock' and not k.startswith('__'):
            setattr(fake, k, getattr(_thread, k))
    fake.allocate_lock = fake.allocate = VLock
    fake.LockType = VLock
    import threading as orig
    spec = importlib.util.spec_from_file_location('threading', orig.__file__)
    m = importlib.util.module_from_spec(spec)
    sys.modules['_thread'] = fake
    try:
        spec.loader.exec_module(m)
    finally:
        sys.modules['_thread'] = _thread
    m._time = vtime
    vt = types.ModuleType('time')
    for k in dir(real_time):
        if not k.startswith('__'):
            setattr(vt, k, getattr(real_time, k))
    vt.monotonic = vt.time = vt.perf_counter = vtime
    vt.monotonic_ns = vt.time_ns = vt.perf_counter_ns = lambda: int(vtime() * 1e9)
    vt.sleep = vsleep
    sys.modules['threading'] = m
    sys.modules['time'] = vt
    sys.path.insert(0, root)
    global ROOT
    ROOT = os.path.realpath(root)


# ---- preemption at the attributes the threads share
ROOT = '/nowhere'
offsets = {}
shared = set()


def stored(code, inside=False):
    for i in dis.get_instructions(code):
        if i.opname == 'STORE_ATTR' and code.co_name != '__init__':
            shared.add(i.argval)
        elif i.opname == 'STORE_GLOBAL':
            shared.add(i.argval)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            stored(c, True)


def scan(modules):
    """Which attributes the functions of the modules (not their constructors) store."""
    for m in modules:
        with open(m.__file__) as f:
            stored(compile(f.read(), m.__file__, 'exec'))


def where(code):
    r = offsets.get(code)
    if r is None:
        r = offsets[code] = frozenset(i.offset for i in dis.get_instructions(code)
                                      if i.opname in ('LOAD_ATTR', 'STORE_ATTR', 'LOAD_GLOBAL', 'STORE_GLOBAL') and i.argval in shared)
    return r


def local(frame, event, arg):
    if event == 'opcode' and frame.f_lasti in where(frame.f_code):
        S.point()
    return local


def tracer(frame, event, arg):
    if event == 'call' and frame.f_code.co_filename.startswith(ROOT) and where(frame.f_code):
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return local
    return None


# ---- exploration
def explore(opt, make, report):
    """make() -> bodies of the threads of a new world.  Every schedule within the budget, then random ones."""
    n, steps = 0, 0
    prefix = []
    exhausted = False
    while n < opt.dfs:
        s = Sched(opt, prefix)
        s.run(make(s))
        n += 1
        steps += s.nsteps
        if not report(s):
            return n, steps, False
        ch = s.choices
        while ch and ch[-1][0] + 1 >= ch[-1][1]:
            ch.pop()
        if not ch:
            exhausted = True
            break
        prefix = [c for c, _ in ch[:-1]] + [ch[-1][0] + 1]
    if not exhausted:
        r = random.Random(opt.seed)
        for _ in range(opt.random):
            s = Sched(opt, [], r)
            s.run(make(s))
            n += 1
            steps += s.nsteps
            if not report(s):
                break
    return n, steps, exhausted


def ops_of(text):
    r = []
    for x in text.split():
        f = x.split(':')
        r.append((f[0], [int(v) for v in f[1:]]))
    return r


def ev(s, e, t, o, a=()):
    s.log.append('%s,%d,%s%s' % (e, t, o, ''.join(',%d' % v for v in a)))


def main(world, argv):
    """world(kind, init) -> object with exec(t, op, args) -> (tag, ints)."""
    a = dict(zip(argv[1::2], argv[2::2]))
    opt = Opt()
    for k in ('preempt', 'early', 'dfs', 'random', 'seed', 'distinct'):
        if '--' + k in a:
            setattr(opt, k, int(a['--' + k]))
    opt.seed = opt.seed or 1
    if opt.random == 0 and '--random' not in a:
        opt.random = 0
    shard, nshards = map(int, a.get('--shard', '0/1').split('/'))
    secs = float(a.get('--secs', '1e9'))
    progs = [x.rstrip('\n').split('\t') for x in open(a['--progs']) if x.strip()]
    default = opt.preempt

    def maker(p):
        def make(s):
            kind, init = p[2], [int(x) for x in p[3].split()]
            ths = [ops_of(x) for x in p[5:]]
            ev(s, 'I', 0, kind, [len(ths)] + init)
            global S
            S = None
            w = world(kind, init, s)

            def body(i):
                def f():
                    me = current()
                    for op, args in ths[i]:
                        me.op = op
                        if op == 'sync':
                            s.block(lambda: sum(1 for t in s.threads if t is not me and (t.done or t.blocked is not None)) >= args[0])
                            for j, t in enumerate(s.threads):
                                if t.in_cond and t.blocked is not None:
                                    ev(s, 'O', 0, 'inside', (j + 1,))
                            continue
                        if op == 'at':
                            s.block(lambda: s.clock >= 1000 + args[0] / 1000, 1000 + args[0] / 1000)
                            continue
                        ev(s, 'C', i + 1, op, args)
                        tag, v = w.exec(i + 1, op, args)
                        ev(s, 'R', i + 1, tag, v)
                return f
            return [body(i) for i in range(len(ths))]
        return make

    def out(pid, s):
        c = [x for x, _ in s.choices]
        while c and c[-1] == 0:
            c.pop()
        sys.stdout.write('H\t%s\t%s\t%s\t%s\t%s\t%s\n' % (pid, s.outcome, s.detail.replace('\n', ' ').replace('\t', ' '),
                                                          ','.join(map(str, c)), ' '.join(s.blocked) + ' ', ''.join(x + ';' for x in s.log)))
    if '--only' in a:
        for p in progs:
            if p[0] == a['--only']:
                s = Sched(opt, [int(x) for x in a.get('--choices', '').split(',') if x])
                s.opt.preempt = 10**6
                s.run(maker(p)(s))
                out(p[0], s)
        sys.stdout.flush()
        os._exit(0)
    t0 = real_time.time()
    tot = [0, 0, 0, 0]
    mine = [p for i, p in enumerate(progs) if i % nshards == shard]
    seen, over = [set() for _ in mine], set()
    full = opt.dfs, opt.random
    # every program a little first, then all of it
    for part in (10, 1):
        opt.dfs, opt.random = max(full[0] // part, 1), full[1] // part
        for i, p in enumerate(mine):
            if real_time.time() - t0 > secs:
                break
            if i in over:
                continue
            opt.preempt = int(p[1]) if int(p[1]) >= 0 else default
            bad = [0]

            def report(s):
                k = s.outcome + '|' + ''.join(x + ';' for x in s.log)
                if k not in seen[i]:
                    seen[i].add(k)
                    out(p[0], s)
                if s.outcome not in ('done', 'deadlock'):
                    bad[0] += 1
                return bad[0] < 5 and len(seen[i]) < opt.distinct and real_time.time() - t0 < secs
            n, st, ex = explore(opt, maker(p), report)
            tot[0] += part == 10
            tot[1] += n
            tot[2] += st
            tot[3] += ex
            if ex or bad[0] >= 5 or len(seen[i]) >= opt.distinct:
                over.add(i)
    sys.stdout.write('S\t%d\t%d\t%d\t%d\n' % tuple(tot))
    sys.stdout.flush()
    os._exit(0)
