#!/opt/venv/bin/python
"""check.py <property> [--quick|--thorough] [--replay FILE]"""
import os
import sys

PY = '/opt/venv/bin/python'
if os.path.exists(PY) and sys.prefix != '/opt/venv':
    os.execv(PY, [PY] + sys.argv)
if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import runner, core          # noqa: E402
from sim.registry import CHECKS       # noqa: E402

if __name__ == '__main__':
    if sys.argv[1:2] == ['--self-test']:
        from sim import selftest
        sys.exit(selftest.main())
    if sys.argv[1:2] == ['--serve']:
        from sim import c_tools
        sys.exit(c_tools.serve())
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print('usage: check.py <%s> [--quick|--thorough] [--replay FILE]' % '|'.join(sorted(CHECKS)))
        sys.exit(2)
    try:
        rc = runner.main(CHECKS[sys.argv[1]](), sys.argv[2:])
    except core.HarnessError as e:
        print('ERROR: %s' % e)
        rc = 2
    sys.exit(rc)
