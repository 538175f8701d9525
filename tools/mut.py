#!/usr/bin/env python3
"""Changes of the code that have no demonstration: which of them do the checks notice?
tools/mut.py FILE [ID...]; FILE: lines  mut('id', 'PROP PROP', (file, old, new[, nth])...)"""
import os
import subprocess
import sys
import tempfile
import shutil
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUTS = []


def mut(id, props, *edits):
    MUTS.append((id, props.split(), edits))


def run(id, props, edits):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % d, shell=True, check=True)
        for e in edits:
            p = '%s/%s' % (d, e[0])
            s = open(p).read()
            n = s.count(e[1])
            nth = e[3] if len(e) > 3 else 0
            if n == 0 or (n > 1 and len(e) < 4):
                print(id, 'NOMATCH %d in %s: %r' % (n, e[0], e[1][:60]), flush=True)
                return
            i = -1
            for _ in range(nth + 1):
                i = s.index(e[1], i + 1)
            s = s[:i] + e[2] + s[i + len(e[1]):]
            open(p, 'w').write(s)
        for pr in props:
            t = time.time()
            r = subprocess.run('timeout 880 python3 run.py check %s quick' % pr, shell=True, cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_TIER='quick', VERIF_SEED=os.environ.get('VERIF_SEED', '1')))
            v = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
            print('%-24s %s %s rc=%d %d s %s' % (id, pr, 'caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0
                                                 else 'ERROR', r.returncode, time.time() - t,
                                                 (r.stdout.splitlines() or [''])[0][:150] if r.returncode < 2
                                                 else (r.stdout + r.stderr)[-400:]), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), dict(mut=mut))
    for m in MUTS:
        if len(sys.argv) < 3 or m[0] in sys.argv[2:]:
            run(*m)
