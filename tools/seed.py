"""Makes and verifies planted bugs.  A batch file (Python, run with `tools/seed.py make FILE`) calls
bug(id, prop, edits, demo, srcs=…, needs=…, what=…); `tools/seed.py verify ID...` confirms that the patch builds and
passes the stable tests, that the demo passes without it and fails with it, and runs the property's check against a
scratch copy of /repo (`tools/seed.py check ID...` only does the latter)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = VERIF + '/seeded'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this tree
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf -- "$t"' EXIT
g++ -std=c++17 %(flags)s -w -I"$here/shim" -Icpp_utils/include -Icpp_utils/src/cpp -Ithirdparty/filewatch -Ithirdparty/optionparser \\
    "$here/demo.cpp" %(srcs)s -o "$t/demo" -pthread -ldl || exit 2
cd "$t"
timeout -k 5 %(timeout)d "$t/demo"
'''


def bug(id, prop, edits, demo, srcs=(), needs='', what='', flags='-O1', timeout=60, script=None, shim=True):
    d = SEED + '/' + id
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        p = d + '/' + f
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    patch = ''
    t = tempfile.mkdtemp(prefix='seed')
    try:
        by = {}
        for f, a, b in edits:
            by.setdefault(f, []).append((a, b))
        for f, l in by.items():
            s = open('/repo/' + f, newline='').read()
            if '\r\n' in s:
                l = [(a.replace('\n', '\r\n'), b.replace('\n', '\r\n')) for a, b in l]
            n = s
            for a, b in l:
                assert n.count(a) == 1, '%s: %d matches of %r in %s' % (id, n.count(a), a, f)
                n = n.replace(a, b)
            for x, c in (('a', s), ('b', n)):
                os.makedirs('%s/%s/%s' % (t, x, os.path.dirname(f)), exist_ok=True)
                open('%s/%s/%s' % (t, x, f), 'w', newline='').write(c)
            patch += 'diff --git a/%s b/%s\n' % (f, f)
            patch += subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, capture_output=True).stdout.decode()
    finally:
        shutil.rmtree(t)
    import re
    patch = re.sub(r'^((?:---|\+\+\+) \S+)\t.*$', r'\1', patch, flags=re.M)
    open(d + '/patch.diff', 'w', newline='').write(patch)
    if script is None:
        if shim:
            shutil.copytree(VERIF + '/shim', d + '/shim')
        s = ['"cpp_utils/src/cpp/%s.cpp"' % x for x in srcs] + (['"$here/shim/shim.cpp"'] if shim else [])
        open(d + '/demo.cpp', 'w').write(demo)
        script = DEMO % dict(srcs=' '.join(s), flags=flags, timeout=timeout)
    open(d + '/demo.sh', 'w').write(script)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    print('made', id)


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)


def verify(ids, check_only=False):
    """/repo itself is used for build and tests (the scripts are bound to it), and put back"""
    ok = True
    for id in ids:
        d = SEED + '/' + id
        meta = json.load(open(d + '/meta.json'))
        out = []
        if not check_only:
            assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
            n = 3
            t = tempfile.mkdtemp(prefix='demo')
            shutil.copytree(d, t + '/d')
            for f in ('patch.diff', 'meta.json'):
                os.unlink(t + '/d/' + f)
            demo = 'bash %s/d/demo.sh' % t
            out.append('demo clean %s' % [sh(demo, '/repo').returncode for _ in range(n)])
            r = sh('git -C /repo apply %s/patch.diff' % d)
            try:
                out.append('apply %d %s' % (r.returncode, r.stderr.strip()))
                if r.returncode == 0:
                    if os.environ.get('TESTS', '1') == '1':
                        r = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
                        j = json.load(open('/tmp/seedtest.json'))
                        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
                        out.append('tests missing %s' % [x for x in st if x not in j['passed']])
                    rs = [sh(demo, '/repo') for _ in range(n)]
                    out.append('demo patched %s' % [r.returncode for r in rs])
                    if any(r.returncode == 2 for r in rs):
                        print(rs[0].stderr[:3000])
            finally:
                sh('git -C /repo checkout -- .')
                shutil.rmtree(t)
        c = tempfile.mkdtemp(prefix='seedrepo')
        try:
            sh('git -C /repo archive HEAD | tar -x -C %s' % c)
            r = sh('git apply --directory= %s/patch.diff' % d, c)
            r = sh('patch -p1 -s < %s/patch.diff' % d, c) if r.returncode else r
            e = dict(os.environ, VERIF_REPO=c, VERIF_TIER='quick', VERIF_SEED='1')
            r = sh('python3 run.py check %s quick' % meta['property'], VERIF, e)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('check %s: rc %d %s' % (meta['property'], r.returncode, v[:1]))
            if r.returncode == 0:
                out.append('MISSED')
            elif not v:
                print(r.stdout[-1500:], r.stderr[-1500:])
        finally:
            shutil.rmtree(c)
        print(id, '|', ' | '.join(out), flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for f in sys.argv[2:]:
            exec(compile(open(f).read(), f, 'exec'), dict(bug=bug, SEED=SEED))
    else:
        verify(sys.argv[2:] or sorted(os.listdir(SEED)), sys.argv[1] == 'check')
