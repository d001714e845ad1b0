#!/opt/venv/bin/python
"""
run.py ID [--tier quick|thorough] [--replay FILE] [--jobs N]

Decide property ID on the code in /repo.  Exit 0: held on everything explored.
Exit 1: a line "VIOLATION property=ID replay=PATH" was printed.
"""
import os
import sys

for key in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[key] = '1'
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc.engine import main  # noqa: E402

if __name__ == '__main__':
    if sys.argv[1:2] == ['--selftest']:
        from mc.selftest import main as selftest
        sys.exit(selftest())
    sys.exit(main(sys.argv[1:]))
