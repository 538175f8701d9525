#!/usr/bin/env python3
"""Which lines of the code of /repo do the checks reach?  tools/cov.py ID... (all when none): lines never executed.
The programs are built with -fsanitize-coverage=trace-pc (VF_COV names the folder of the results)."""
import collections
import glob
import os
import re
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = '/tmp/vf-cov'


def main():
    ids = sys.argv[1:]
    if ids != ['-']:
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)
        if not ids:
            import json
            ids = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if False else \
                [json.loads(x)['id'] for x in open(V + '/properties.jsonl')]
        for i in ids:
            r = subprocess.run('python3 run.py check %s quick' % i, shell=True, cwd=V, env=dict(os.environ, VF_COV=D),
                               capture_output=True, text=True)
            print(i, r.returncode, r.stdout.splitlines()[-1:], flush=True)
    hit = collections.defaultdict(set)
    for f in glob.glob(D + '/*'):
        hit[os.path.basename(f).rsplit('.', 1)[0]] |= {int(x, 16) for x in open(f) if x.strip()}
    exes = {os.path.basename(p): p for p in glob.glob(V + '/.build/*-cov/*') if '.' not in os.path.basename(p)}
    cov, all_ = set(), set()
    for e, h in hit.items():
        if e not in exes:
            continue
        out = subprocess.run('objdump -d --no-show-raw-insn %s' % exes[e], shell=True, capture_output=True, text=True).stdout
        pts, nxt = [], False
        for l in out.splitlines():
            m = re.match(r'\s*([0-9a-f]+):', l)
            if m:
                if nxt:
                    pts.append(int(m.group(1), 16))
                nxt = '__sanitizer_cov_trace_pc' in l and 'call' in l
        base = 0 if min(pts) < 0x400000 else 0x400000
        r = subprocess.run(['addr2line', '-e', exes[e]], input=''.join('%x\n' % p for p in pts), capture_output=True, text=True)
        for p, l in zip(pts, r.stdout.splitlines()):
            l = l.split(' ')[0]
            if '/cpp_utils/' in l and '/verif/' not in l:
                f, n = l.rsplit(':', 1)
                k = (f[f.index('/cpp_utils/') + 1:], n)
                all_.add(k)
                if p - base in h:
                    cov.add(k)
    print('%d of %d points reached' % (len(cov), len(all_)))
    by = collections.defaultdict(list)
    for f, n in sorted(all_ - cov):
        if n.isdigit():
            by[f].append(int(n))
    for f in sorted(by):
        print(f, sorted(by[f]))


main()
