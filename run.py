#!/opt/venv/bin/python
"""run.py C01 [--only substr] [-v] | run.py --replay file.json"""
import os
import sys
for k, v in (('PYTHONDONTWRITEBYTECODE', '1'), ('MPLBACKEND', 'Agg'), ('OMP_NUM_THREADS', '1'),
             ('OPENBLAS_NUM_THREADS', '1'), ('PYTHONHASHSEED', '0')):
    if os.environ.get(k) is None:
        os.environ[k] = v
        os.environ['_VREEXEC'] = '1'
if os.environ.pop('_VREEXEC', None):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
os.chdir(ROOT)
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')
from vlib import harness  # noqa


def main():
    a = sys.argv[1:]
    if a[0] == '--replay':
        return harness.replay(a[1])
    prop = a[0]
    only = None
    if '--only' in a:
        only = a[a.index('--only') + 1].split(',')
    return harness.run_check(prop, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
                             tier=os.environ.get('VERIF_TIER', 'quick') or 'quick',
                             only=only, verbose='-v' in a)


sys.exit(main())
