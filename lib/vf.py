"""Common machinery of the checks: building, TLC, exploration of schedules, validation of histories, evidence."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPP = REPO + '/cpp_utils'
SPEC = VERIF + '/spec'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 8)

INC = ['-I' + VERIF + '/shim', '-I' + CPP + '/include', '-I' + CPP + '/src/cpp',
       '-I' + REPO + '/thirdparty/filewatch']


class Infra(Exception):
    """The check could not be carried out (not a verdict about the property)."""


def sh(cmd, timeout=800, env=None, inp=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, input=inp,
                          cwd=cwd, text=True, errors='replace')


# ------------------------------------------------------------------------------------------------ building
_tree_hash = None


def tree_hash():
    """Hash of everything that can be compiled into a harness."""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha1()
        for root in (CPP + '/include', CPP + '/src', REPO + '/thirdparty', VERIF + '/shim', VERIF + '/rt',
                     VERIF + '/harness'):
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.hpp', '.h', '.ipp', '.cpp', '.in')):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        h.update(open(p, 'rb').read())
        _tree_hash = h.hexdigest()[:16]
    return _tree_hash


def build_dir():
    d = os.path.join(VERIF, '.build', tree_hash() + ('-cov' if os.environ.get('VF_COV') else ''))
    os.makedirs(d, exist_ok=True)
    return d


def all_sources():
    r = []
    for d, ds, fs in os.walk(CPP + '/src/cpp'):
        for f in fs:
            if f.endswith('.cpp'):
                r.append(os.path.relpath(os.path.join(d, f), CPP + '/src/cpp')[:-4])
    return sorted(r)


def _compile(src, obj, flags):
    if os.path.exists(obj):
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    r = sh(['g++'] + flags + ['-c', src, '-o', tmp])
    if r.returncode:
        return 'compiling %s:\n%s' % (src, r.stderr[-3000:])
    os.rename(tmp, obj)
    return None


def build(harness, sources=None, sched=True, std='c++17', extra=(), pre_inc=(), defs=('-DNDEBUG',), tag='', subst=None):
    """Build harness/<harness>.cpp with the given sources of cpp_utils/src/cpp; returns the path of the program.

    sched: under the deterministic scheduler (code instrumented); otherwise an ordinary program.
    If the listed sources do not link, every source of the library is added.
    """
    bd = build_dir()
    key = hashlib.sha1(repr((harness, sources, sched, std, extra, pre_inc, defs, tag)).encode()).hexdigest()[:8]
    out = os.path.join(bd, '%s-%s' % (harness.replace('/', '_'), key))
    if os.path.exists(out):
        return out
    # (subst: where the directories named in pre_inc are, when that differs between runs; tag tells what they hold)
    inc = ['-I' + (subst or {}).get(p, p) for p in pre_inc] + INC
    base = ['-std=' + std, '-O1', '-g', '-w'] + list(defs) + list(extra) + inc
    flags = base + (['-fsanitize=thread', '-U_FORTIFY_SOURCE'] if sched else ['-fsanitize=address,undefined',
                                                                               '-fno-sanitize-recover=undefined'])
    cov = os.environ.get('VF_COV')          # (tools/cov.py: which code of the repository the checks reach)
    if cov:
        flags = flags + ['-fsanitize-coverage=trace-pc']
    fk = hashlib.sha1(repr(flags).encode()).hexdigest()[:8]

    def obj(s):
        return os.path.join(bd, s.replace('/', '_') + '-' + fk + '.o')

    jobs = []
    hobj = os.path.join(bd, 'H_' + harness.replace('/', '_') + '-' + key + '.o')
    jobs.append((VERIF + '/harness/' + harness + '.cpp', hobj, flags))
    shim = os.path.join(bd, 'shim-%s.o' % fk)
    jobs.append((VERIF + '/shim/shim.cpp', shim, base))
    objs = [hobj, shim]
    if cov:
        c = os.path.join(bd, 'cov.o')
        jobs.append((VERIF + '/tools/cov.cpp', c, ['-std=c++17', '-O1', '-w']))
        objs.append(c)
    if sched:
        rt = os.path.join(bd, 'vsched.o')
        jobs.append((VERIF + '/rt/vsched.cpp', rt, ['-std=c++17', '-O2', '-g', '-w', '-U_FORTIFY_SOURCE']))
        objs.append(rt)
    srcs = all_sources() if sources is None else [s for s in dict.fromkeys(sources) if os.path.exists(CPP + '/src/cpp/' + s + '.cpp')]
    for s in srcs:
        jobs.append((CPP + '/src/cpp/' + s + '.cpp', obj(s), flags))
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(lambda j: _compile(*j), jobs) if e]
    if errs:
        raise Infra('build failed: ' + errs[0])

    def link(ss):
        tmp = out + '.%d.tmp' % os.getpid()
        fl = [] if sched else ['-fsanitize=address,undefined']
        fl += ['-Wl,--wrap=_exit'] if cov else []
        r = sh(['g++'] + fl + objs + [obj(s) for s in ss] + ['-o', tmp, '-lpthread'])
        if r.returncode == 0:
            os.rename(tmp, out)
        return r
    r = link(srcs)
    if r.returncode and sources is not None:
        rest = [s for s in all_sources() if s not in srcs]
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda s: _compile(CPP + '/src/cpp/' + s + '.cpp', obj(s), flags), rest))
        r = link(srcs + [s for s in rest if os.path.exists(obj(s))])
    if r.returncode:
        raise Infra('link failed: ' + r.stderr[-3000:])
    return out


# ------------------------------------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.out = ''
        self.ok = False
        self.violation = None
        self.wall = 0.0


def cfg_text(constants=None, init=None, next_=None, spec=None, invariants=(), properties=(), constraint=None,
             view=None, symmetry=None):
    r = []
    if spec:
        r.append('SPECIFICATION ' + spec)
    else:
        r.append('INIT %s\nNEXT %s' % (init or 'Init', next_ or 'Next'))
    for k, v in (constants or {}).items():
        r.append('CONSTANT %s %s' % (k, v if v.startswith('<-') else '= ' + v))
    for i in invariants:
        r.append('INVARIANT ' + i)
    for i in properties:
        r.append('PROPERTY ' + i)
    if constraint:
        r.append('CONSTRAINT ' + constraint)
    if view:
        r.append('VIEW ' + view)
    if symmetry:
        r.append('SYMMETRY ' + symmetry)
    r.append('CHECK_DEADLOCK FALSE')
    return '\n'.join(r) + '\n'


def tlc(module, cfg=None, env=None, workers=NPROC, args=(), timeout=800, heap='6g', cwd=None):
    """Run TLC on spec/<module>.tla; cfg: text of the configuration, or None for spec/<module>.cfg."""
    md = tempfile.mkdtemp(prefix='vf-tlc-')
    cfgfile = module + '.cfg'
    if cfg:
        cfgfile = md + '/model.cfg'
        with open(cfgfile, 'w') as f:
            f.write(cfg)
    t0 = time.time()
    e = {'TRIE': '', 'DIAG': '0', 'PROGS': '', 'ROWS': ''}
    e.update(env or {})
    cmd = ['java', '-Djava.io.tmpdir=' + md, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', md, '-noGenerateSpecTE', '-config', cfgfile] + list(args) + [module + '.tla']
    try:
        r = sh(cmd, timeout=timeout, env=e, cwd=cwd or SPEC)
    except subprocess.TimeoutExpired:
        raise Infra('TLC did not finish on %s in %d s' % (module, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    t = TlcResult()
    t.wall = time.time() - t0
    t.out = r.stdout + r.stderr
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
    if m:
        t.states, t.distinct = int(m[-1][0]), int(m[-1][1])
    t.ok = 'Model checking completed. No error has been found.' in r.stdout
    if not t.ok:
        m = re.search(r'Error: (.*)', t.out)
        t.violation = m.group(1) if m else 'exit %d' % r.returncode
    return t


def model_check(module, cfg=None, **kw):
    """TLC on a specification whose properties must hold."""
    t = tlc(module, cfg, **kw)
    if not t.ok:
        raise Infra('TLC on %s: %s\n%s\n%s' % (module, t.violation, cfg or '', t.out[-3000:]))
    return t


# ------------------------------------------------------------------------------------------------ histories
def parse_event(x):
    f = x.split(',')
    if f[0] == 'O':
        return ('O', 0, f[2], tuple(int(v) for v in f[3:]))
    return (f[0], int(f[1]), f[2], tuple(int(v) for v in f[3:]))


class Trie:
    def __init__(self):
        self.nodes = [dict(e='', t=0, o='', a=(), k=[])]
        self.index = {}
        self.leaf = {}       # node -> list of records

    def add(self, events, record):
        n = 0
        for ev in events:
            key = (n, ev)
            c = self.index.get(key)
            if c is None:
                c = len(self.nodes)
                self.nodes.append(dict(e=ev[0], t=ev[1], o=ev[2], a=ev[3], k=[], p=n))
                self.nodes[n]['k'].append(c)
                self.index[key] = c
            n = c
        self.leaf.setdefault(n, []).append(record)
        return n

    def dump(self, path):
        with open(path, 'w') as f:
            f.write('[')
            f.write(',\n'.join(json.dumps(dict(e=x['e'], t=x['t'], o=x['o'], a=list(x['a']), k=[c + 1 for c in x['k']]))
                               for x in self.nodes))
            f.write(']')

    def path(self, n):
        r = []
        while n:
            x = self.nodes[n]
            r.append([x['e'], x['t'], x['o']] + list(x['a']))
            n = x['p']
        return r[::-1]


def validate(module, histories, timeout=800, heap='8g', diag=True):
    """histories: list of (events, record).  Returns (rejected, tlc result, trie) with rejected a list of
    (record, events, accepted prefix length)."""
    trie = Trie()
    for ev, rec in histories:
        trie.add(list(ev) + [('E', 0, '', ())], rec)
    d = tempfile.mkdtemp(prefix='vf-trie-')
    try:
        path = d + '/trie.json'
        trie.dump(path)
        t = tlc(module, env={'TRIE': path}, timeout=timeout, heap=heap)
        if not t.ok:
            raise Infra('TLC on %s: %s\n%s' % (module, t.violation, '\n'.join(x for x in t.out.splitlines() if not x.startswith(('Semantic', 'Parsing', 'Linting')))[-3000:]))
        acc = {int(x) - 1 for x in re.findall(r'<<"ACC", (\d+)>>', t.out)}
        rejected = []
        bad = [n for n in trie.leaf if n not in acc]
        if bad:
            # how far does the specification go along the first ones
            small = Trie()
            some = bad[:20]
            for n in some:
                small.add([tuple(e[:3]) + (tuple(e[3:]),) for e in trie.path(n)], n)
            small.dump(path)
            t2 = tlc(module, env={'TRIE': path, 'DIAG': '1'}, timeout=timeout, heap=heap)
            at = {int(x) - 1 for x in re.findall(r'<<"AT", (\d+)>>', t2.out)}
            depth = {}
            for leaf, recs in small.leaf.items():
                chain = []
                m = leaf
                while m:
                    chain.append(m)
                    m = small.nodes[m]['p']
                chain.reverse()
                k = 0
                while k < len(chain) and chain[k] in at:
                    k += 1
                for r in recs:
                    depth[r] = k
            for n in bad:
                for rec in trie.leaf[n][:1]:
                    rejected.append((rec, trie.path(n), depth.get(n)))
        return rejected, t, trie
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ programs
def program(pid, kind, init, threads, post='', preempt=-1):
    return '%d\t%d\t%s\t%s\t%s' % (pid, preempt, kind, ' '.join(map(str, init)), post) + \
        ''.join('\t' + t for t in threads)


class Exec:
    """One distinct execution."""
    __slots__ = ('pid', 'outcome', 'detail', 'choices', 'blocked', 'hist')

    def __init__(self, f):
        self.pid, self.outcome, self.detail, self.choices, self.blocked, self.hist = int(f[1]), f[2], f[3], f[4], \
            f[5], f[6]

    def events(self):
        return [parse_event(x) for x in self.hist.split(';') if x]


def explore(binary, progs, opts, secs=300, nshards=NPROC):
    """Run the programs (list of lines) under the schedules; returns (list of Exec, stats)."""
    d = tempfile.mkdtemp(prefix='vf-prog-')
    try:
        pf = d + '/progs'
        with open(pf, 'w') as f:
            f.write('\n'.join(progs) + '\n')
        base = (binary if isinstance(binary, list) else [binary]) + ['--progs', pf, '--secs', str(secs), '--seed', str(SEED)]
        for k, v in opts.items():
            base += ['--' + k, str(v)]

        def one(i):
            return sh(base + ['--shard', '%d/%d' % (i, nshards)], timeout=secs * 2 + 120, cwd=d)
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(one, range(nshards)))
        execs, st = [], dict(programs=0, executions=0, steps=0, exhausted=0)
        for r in rs:
            got = False
            for line in r.stdout.split('\n'):
                if line.startswith('H\t'):
                    execs.append(Exec(line.split('\t')))
                elif line.startswith('S\t'):
                    got = True
                    f = line.split('\t')
                    for k, v in zip(('programs', 'executions', 'steps', 'exhausted'), f[1:]):
                        st[k] += int(v)
            if not got:
                st.setdefault('died', []).append('exit %d: %s' % (r.returncode, r.stderr[-500:]))
        return execs, st
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(binary, prog, choices, opts):
    d = tempfile.mkdtemp(prefix='vf-prog-')
    try:
        pf = d + '/progs'
        with open(pf, 'w') as f:
            f.write(prog + '\n')
        cmd = (binary if isinstance(binary, list) else [binary]) + ['--progs', pf, '--only', prog.split('\t')[0], '--choices', choices]
        for k, v in opts.items():
            cmd += ['--' + k, str(v)]
        p = int(prog.split('\t')[1])
        if p >= 0:
            cmd += ['--preempt', str(p)]
        r = sh(cmd, timeout=60, cwd=d)
        for line in r.stdout.split('\n'):
            if line.startswith('H\t'):
                return Exec(line.split('\t'))
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violations = []
        self.known = []
        self.assumptions = []
        self.findings = known_findings(pid)
        self.notes = []

    def model(self, module, cfg=None, name=None, **kw):
        """Model check spec/<module>.tla in the background; joined by finish()."""
        if not hasattr(self, 'pool'):
            self.pool, self.jobs = ThreadPoolExecutor(2), []
        kw.setdefault('workers', 4)
        self.jobs.append((name or module, self.pool.submit(model_check, module, cfg, **kw)))

    def add_tlc(self, name, t):
        self.cov['states'] += t.distinct
        self.cov['transitions'] += t.states
        self.cov.setdefault('tlc_runs', []).append(
            dict(model=name, distinct_states=t.distinct, states_generated=t.states, wall_s=round(t.wall, 1)))

    def sample(self, x, limit=4):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(x)

    def violation(self, what, data, key=''):
        for k, text in self.findings:
            if k == key and key:
                if text not in self.known:
                    self.known.append(text)
                return
        self.violations.append((what, data, key))

    def finish(self, level='model_checking'):
        for name, j in getattr(self, 'jobs', []):
            self.add_tlc(name, j.result())
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for i, (what, data, key) in enumerate(self.violations[:5]):
            os.makedirs(VERIF + '/replays', exist_ok=True)
            p = VERIF + '/replays/%s-%d.json' % (self.pid, i)
            with open(p, 'w') as f:
                json.dump(dict(property=self.pid, what=what, key=key, data=data), f, indent=1)
            print('%s' % what)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        if os.environ.get('VF_ALL'):
            by = {}
            for what, data, key in self.violations:
                by.setdefault(re.sub(r'\d+', 'N', what.split(' [program')[0]), []).append(what)
            for k, v in sorted(by.items(), key=lambda x: -len(x[1])):
                print('  %4d %s   e.g. %s' % (len(v), k, v[0][-300:]))
        print('%s %s: %d violations, %d states, %d traces, %.1f s' % (
            self.pid, TIER, len(self.violations), self.cov['states'], self.cov['traces_validated_against_impl'],
            time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def known_findings(pid):
    """Lines 'finding: property=<id> key=<key> :: <text>' of known_findings.txt."""
    r = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)', line.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


BAD = {'race': 'data race', 'uaf': 'use of a destroyed object', 'crash': 'crash', 'terminate': 'std::terminate',
       'misuse': 'misuse of a synchronisation object', 'hang': 'endless loop', 'livelock': 'endless loop'}


MUTATE = int(os.environ.get('VF_MUTATE', '0'))


def corrupt(chk, module, hs):
    """Is the specification bound to the code?  Histories with one answer, observation or end changed: how many of
    them does the specification reject (some of the changed ones are possible in their own right)."""
    rnd = random.Random(SEED)
    seen, ans, obs = set(), {}, {}
    for ev, e in hs:
        seen.add(tuple(ev))
        call = {}
        for x in ev:
            if x[0] == 'C':
                call[x[1]] = x[2]
            elif x[0] == 'R':
                ans.setdefault(call.get(x[1]), {})[x[2:]] = 1
            elif x[0] == 'O':
                obs.setdefault(x[2], {})[x[3]] = 1
    new, done = [], set()
    tries = 0
    while len(new) < MUTATE and tries < 20 * MUTATE:
        tries += 1
        ev, e = hs[rnd.randrange(len(hs))]
        at = [i for i, x in enumerate(ev) if x[0] in 'RO']
        if not at:
            continue
        i = rnd.choice(at)
        x = ev[i]
        call = ''
        for y in ev[:i]:
            if y[0] == 'C' and y[1] == x[1]:
                call = y[2]
        how = rnd.choice(['value', 'value', 'other', 'drop', 'swap', 'cut'])
        n = list(ev)
        if how == 'value' and x[3]:
            v = list(x[3])
            v[rnd.randrange(len(v))] += rnd.choice([-1, 1, 1, 2])
            n[i] = x[:3] + (tuple(v),)
        elif how == 'other':
            if x[0] == 'R':
                o = rnd.choice(list(ans[call]) if call in ans else [x[2:]])
                n[i] = x[:2] + o
            else:
                n[i] = x[:3] + (rnd.choice(list(obs[x[2]])),)
        elif how == 'drop' and x[0] == 'O':
            del n[i]
        elif how == 'swap' and x[0] == 'O' and i + 1 < len(n):
            n[i], n[i + 1] = n[i + 1], n[i]
        elif how == 'cut' and x[0] == 'R' and i > len(ev) - 4:
            # this thread stays blocked, and the others ended
            if any(y[1] == x[1] for y in n[i + 1:] if y[0] != 'O'):
                continue
            del n[i]
        else:
            continue
        t = tuple(n)
        if t in seen or t in done:
            continue
        done.add(t)
        new.append((n, (how, x[0], call if x[0] == 'R' else x[2], x, e, i, t)))
    if not new:
        return
    rej, t, trie = validate(module, new)
    bad = {id(r) for rec, _, _ in rej for r in [rec]}
    table = {}
    for n, rec in new:
        k = (rec[0], rec[1], rec[2])
        c = table.setdefault(k, [0, 0, []])
        c[0] += 1
        if id(rec) in bad:
            c[1] += 1
        else:
            c[2].append(rec)
    tot, r = sum(c[0] for c in table.values()), sum(c[1] for c in table.values())
    print('CORRUPT %s: %d of %d rejected' % (module, r, tot))
    for k in sorted(table, key=str):
        c = table[k]
        print('  %-8s %s %-10s %d of %d rejected' % (k + (c[1], c[0])))
        if os.environ.get('VF_SHOW'):
            for rec in c[2][:2]:
                print('       ', rec[5], rec[3], '->', rec[6][rec[5]] if rec[5] < len(rec[6]) else '', ';'.join(
                    ','.join(map(str, (y[0], y[1], y[2]) + tuple(y[3]))) for y in rec[6])[:600])


def conc(chk, binary, progs, module, opts, key=None, secs=200, histmap=None, allow=()):
    """Explore the programs on the real code and validate every distinct history against spec/<module>.tla."""
    by_id = {int(p.split('\t')[0]): p for p in progs}
    execs, st = explore(binary, progs, opts, secs=secs)
    chk.cov.setdefault('schedules_executed', 0)
    chk.cov['schedules_executed'] += st['executions']
    chk.cov['client_programs'] = chk.cov.get('client_programs', 0) + st['programs']
    chk.cov['programs_with_all_schedules_within_budget'] = \
        chk.cov.get('programs_with_all_schedules_within_budget', 0) + st['exhausted']
    if st['programs'] < len(progs):
        chk.cov['client_programs_not_reached_in_time'] = chk.cov.get('client_programs_not_reached_in_time', 0) + len(progs) - st['programs']
    if st.get('died'):
        raise Infra('harness died: ' + '; '.join(st['died'])[:800])
    if not execs:
        raise Infra('no execution')
    good = []
    for e in execs:
        if e.outcome in BAD and e.outcome not in allow:
            r = replay(binary, by_id[e.pid], e.choices, opts)
            conf = r is not None and r.outcome == e.outcome
            chk.violation('%s: %s [program %s]' % (BAD[e.outcome], e.detail, by_id[e.pid].replace('\t', ' | ')),
                          dict(program=by_id[e.pid], choices=e.choices, outcome=e.outcome, detail=e.detail,
                               history=e.hist, confirmed_by_replay=conf),
                          key='%s %s' % (e.outcome, key(by_id[e.pid], e) if key else ''))
        else:
            good.append(e)
    # (should there be too many to be validated in time, as many of every program as possible)
    limit = 4000000 if TIER == 'thorough' else 1500000
    if sum(e.hist.count(';') for e in good) > limit:
        rank, order = {}, []
        for e in good:
            rank[e.pid] = rank.get(e.pid, 0) + 1
            order.append((rank[e.pid], len(order)))
        order.sort()
        kept, size = [], 0
        for _, i in order:
            size += good[i].hist.count(';')
            if size > limit:
                break
            kept.append(good[i])
        chk.cov['histories_not_validated'] = chk.cov.get('histories_not_validated', 0) + len(good) - len(kept)
        good = kept
    hs = []
    for e in good:
        ev = e.events()
        if histmap:
            ev = histmap(ev)
        hs.append((ev, e))
    if hs:
        rejected, t, trie = validate(module, hs)
        chk.add_tlc(module + ' (histories of the real code)', t)
        chk.cov['traces_validated_against_impl'] += len(trie.leaf) - len(rejected)
        chk.cov['history_events'] = chk.cov.get('history_events', 0) + len(trie.nodes) - 1
        for e in sorted(good, key=lambda e: -len(e.hist))[:2]:
            chk.sample(dict(program=by_id[e.pid], history=e.hist.split(';'), outcome=e.outcome))
        if MUTATE and not rejected:
            corrupt(chk, module, hs)
        for e, path, depth in rejected[:40]:
            r = replay(binary, by_id[e.pid], e.choices, opts)
            conf = r is not None and r.hist == e.hist
            why = 'the specification cannot produce this history'
            if depth is not None and depth < len(path):
                x = path[depth]
                if x[0] == 'E':
                    why = 'threads stay blocked (%s) although the specification lets them go on' % e.blocked.strip()
                    if e.outcome == 'done':
                        why = 'something that had to happen never did'
                else:
                    why = 'not allowed at this point: %s' % (x,)
            chk.violation('%s [program %s]' % (why, by_id[e.pid].replace('\t', ' | ')),
                          dict(program=by_id[e.pid], choices=e.choices, outcome=e.outcome, blocked=e.blocked,
                               history=path, accepted_prefix=depth, why=why, confirmed_by_replay=conf),
                          key='history %s' % (key(by_id[e.pid], e) if key else ''))
    return execs, st


# ------------------------------------------------------------------------------------------------ tables
def _cell(x):
    """Cell of a row for TLC: strings as sequences of character codes, numbers too big for TLC as decimal digits
    (least significant first)."""
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, str):
        return list(x.encode('latin-1'))
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Big):
        return [int(c) for c in reversed(str(int(x)))]
    if isinstance(x, (list, tuple)):
        return [_cell(y) for y in x]
    assert -2**31 < x < 2**31, x
    return x


class Big(int):
    """A number given to TLC as its decimal digits."""


def _arg(x):
    if isinstance(x, (bytes, bytearray)):
        return 's' + bytes(x).hex()
    if isinstance(x, str):
        return 's' + x.encode('latin-1').hex()
    if isinstance(x, (list, tuple)):
        return 'l' + ''.join('+' + (str(y) if isinstance(y, int) else _arg(y)[1:]) for y in x)
    return 'i%d' % x


def _res(f):
    if f[0] == 'i':
        v = int(f[1:])
        return v if abs(v) < 2**31 else Big(v)
    if f[0] == 'd':
        return Big(f[1:])
    if f[0] == 's':
        return bytes.fromhex(f[1:])
    return [bytes.fromhex(y) for y in f[2:].split('+')] if len(f) > 1 else []


def _show(x):
    if isinstance(x, (bytes, bytearray)):
        return repr(bytes(x))[1:]
    if isinstance(x, (list, tuple)):
        return '[' + ', '.join(_show(y) for y in x) + ']'
    return repr(x) if isinstance(x, str) else str(int(x))


def corrupt_rows(module, js, shown, path, timeout):
    """The same for tables: answers changed a little."""
    rnd = random.Random(SEED)
    new, names = [], []
    by = {}
    for j, x in enumerate(js):
        by.setdefault(x['f'], []).append(j)

    def other(v, ref):
        if isinstance(v, list):
            v = list(v)
            r = rnd.random()
            if not v:
                return [97] if not (ref and isinstance(ref[0], list)) else [[97]]
            i = rnd.randrange(len(v))
            if r < .25:
                del v[i]
            elif r < .5:
                v.insert(i, v[i])
            elif r < .7 and i + 1 < len(v):
                v[i], v[i + 1] = v[i + 1], v[i]
            else:
                v[i] = other(v[i], None) if isinstance(v[i], list) else v[i] + rnd.choice([-1, 1])
            return v
        return v + rnd.choice([-1, 1])
    for f in sorted(by):
        for j in rnd.choices(by[f], k=min(MUTATE, 4 * len(by[f]))):
            x = js[j]
            y = dict(x)
            r = rnd.random()
            o = js[rnd.choice(by[f])]
            if r < .3 or not x['r']:
                y['k'], y['r'] = o['k'], o['r']
            else:
                y['r'] = list(x['r'])
                i = rnd.randrange(len(y['r']))
                y['r'][i] = other(y['r'][i], None)
            if y != x:
                new.append(y)
                names.append('%s: %s %s -> %s %s' % (shown[j], x['k'], x['r'], y['k'], y['r']))
    with open(path, 'w') as f:
        f.write('[' + ',\n'.join(json.dumps(x) for x in new) + ']')
    t = tlc(module, 'INIT TInit\nNEXT TNext\nINVARIANT TInv\nCHECK_DEADLOCK FALSE\n', env={'ROWS': path}, timeout=timeout,
            heap='8g')
    if not t.ok:
        print('CORRUPT %s: TLC fails on a changed answer: %s' % (module, t.out[-600:]))
        return
    bad = {int(x) - 1 for x in re.findall(r'<<"BAD", (\d+)>>', t.out)}
    print('CORRUPT %s: %d of %d rejected' % (module, len(bad), len(new)))
    for f in sorted(by):
        k = [i for i in range(len(new)) if new[i]['f'] == f]
        ok = [i for i in k if i not in bad]
        print('  %-20s %d of %d rejected' % (f, len(k) - len(ok), len(k)))
        if os.environ.get('VF_SHOW'):
            for i in ok[:3]:
                print('      ', names[i][:300])


def table(chk, binary, rows, module, key=None, timeout=600, env=None, maxbad=40):
    """rows: list of (function, arguments).  Call them all in the real code and check every answer against
    the definition of the function in spec/<module>.tla (Ok(row))."""
    d = tempfile.mkdtemp(prefix='vf-table-')
    res = {}

    def shard(k):
        todo = list(range(k, len(rows), NPROC))
        out = '%s/out%d' % (d, k)
        bad = 0
        while todo:
            inp = '%s/in%d' % (d, k)
            with open(inp, 'w') as f:
                for i in todo:
                    f.write('\t'.join([str(i), rows[i][0]] + [_arg(x) for x in rows[i][1]]) + '\n')
            open(out, 'w').close()
            e = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=2000', UBSAN_OPTIONS='print_stacktrace=0', TZ='UTC')
            e.update(env or {})
            try:
                r = sh([binary, inp, out], timeout=timeout, env=e, cwd=d)
            except subprocess.TimeoutExpired:
                raise Infra('the rows took more than %d s' % timeout)
            cur, ended = None, False
            for line in open(out):
                line = line.rstrip('\n')
                if line[0] == 'B':
                    cur = int(line[2:])
                elif line[0] == 'R':
                    f = line[2:].split('\t')
                    res[int(f[0])] = (f[1], [_res(x) for x in f[2:]])
                    cur = None
                elif line == 'E':
                    ended = True
            if ended:
                return
            if cur is None:
                raise Infra('harness died: exit %d %s' % (r.returncode, r.stderr[-800:]))
            m = re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*|terminate called[^\n]*)', r.stderr)
            why = 'does not end' if r.returncode == -14 else m.group(1) if m else 'exit %d' % r.returncode
            res[cur] = ('DIED', why)
            bad += 15 if why == 'does not end' else 1
            if bad > maxbad:
                return
            todo = [i for i in todo if i > cur]

    def shown(i):
        return '%s(%s)' % (rows[i][0], ', '.join(_show(x) for x in rows[i][1]))
    try:
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(shard, range(NPROC)))
        ids, js = [], []
        for i in sorted(res):
            k, v = res[i]
            if k == 'DIED':
                chk.violation('%s: %s' % (shown(i), v), dict(function=rows[i][0], arguments=_show(rows[i][1]), died=v),
                              key='died %s' % (key(rows[i]) if key else ''))
                continue
            ids.append(i)
            js.append(dict(f=rows[i][0], a=[_cell(x) for x in rows[i][1]], k=k, r=[_cell(x) for x in v]))
        path = d + '/rows.json'
        with open(path, 'w') as f:
            f.write('[' + ',\n'.join(json.dumps(x) for x in js) + ']')
        t = tlc(module, 'INIT TInit\nNEXT TNext\nINVARIANT TInv\nCHECK_DEADLOCK FALSE\n', env={'ROWS': path}, timeout=timeout,
                heap='8g')
        if not t.ok:
            raise Infra('TLC on %s: %s\n%s' % (module, t.violation, '\n'.join(x for x in t.out.splitlines() if not x.startswith(('Semantic', 'Parsing', 'Linting')))[-3000:]))
        if t.distinct != len(js):
            raise Infra('TLC on %s looked at %d of %d rows' % (module, t.distinct, len(js)))
        bad = {int(x) - 1 for x in re.findall(r'<<"BAD", (\d+)>>', t.out)}
        chk.add_tlc(module + ' (answers of the real code)', t)
        chk.cov['traces_validated_against_impl'] += len(js) - len(bad)
        n = chk.cov.setdefault('rows', {})
        for i in ids:
            n[rows[i][0]] = n.get(rows[i][0], 0) + 1
        for j in sorted(range(len(ids)), key=lambda j: -len(str(js[j])))[:2]:
            chk.sample(dict(call=shown(ids[j])[:300], answer=str(res[ids[j]][0]) + ' ' + _show(res[ids[j]][1])[:300]))
        if MUTATE and not bad:
            corrupt_rows(module, js, [shown(i) for i in ids], path, timeout)
        for j in sorted(bad):
            i = ids[j]
            ans = res[i][0] if res[i][0] != 'ok' else _show(res[i][1])
            chk.violation('%s: %s is not what the specification defines' % (shown(i), ans),
                          dict(function=rows[i][0], arguments=_show(rows[i][1]), answer=ans),
                          key='row %s' % (key(rows[i]) if key else ''))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
