#!/usr/bin/env python3
"""run.py check <ID>     run the check of a property (tier from VERIF_TIER, seed from VERIF_SEED)
   run.py setup          build what can be built in advance
   run.py list"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/lib')
import vf  # noqa: E402


def checks():
    r = {}
    for f in sorted(os.listdir(HERE + '/lib/checks')):
        if f.endswith('.py') and f != '__init__.py':
            m = importlib.import_module('checks.' + f[:-3])
            r.update(m.CHECKS)
    return r


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cs = checks()
    if sys.argv[1] == 'list':
        print(' '.join(sorted(cs)))
        return 0
    if sys.argv[1] == 'setup':
        return 0
    if len(sys.argv) > 3:
        vf.TIER = sys.argv[3]
    try:
        return cs[sys.argv[2]]()
    except Exception:
        traceback.print_exc()
        print('INFRASTRUCTURE: the check of %s could not be carried out' % sys.argv[2])
        return 2


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
