import os
import sys
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402

if __name__ == '__main__':
    a = sys.argv[1:]
    if len(a) == 3 and a[1] == '--replay':
        sys.exit(core.main(a[0], 'quick', a[2]))
    sys.exit(core.main(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))
