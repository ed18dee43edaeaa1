#!/usr/bin/env python3
"""Entry point of every check:

    python3 check.py C02                      quick or thorough, by VERIF_TIER
    python3 check.py C02 --tier thorough
    python3 check.py C02 --replay replays/C02/xxxx.json
    python3 check.py --setup                  sanity check of the environment

See DESIGN.md.  The script re-executes itself with the interpreter that has
graph-scheduler's dependencies and with a fixed hash seed, so that a run is a
function of the code under test and VERIF_SEED only.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GSV_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
if not os.path.exists(PYTHON):
    PYTHON = sys.executable

_ENV = {
    'PYTHONHASHSEED': '0',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'PYTHONDONTWRITEBYTECODE': '1',
    'GSV_CHILD': '1',
}

if os.environ.get('GSV_CHILD') != '1':
    os.environ.update(_ENV)
    os.environ.pop('PYTHONPATH', None)
    os.execv(PYTHON, [PYTHON, '-B', os.path.abspath(__file__), *sys.argv[1:]])

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, 'src'))
# Hypothesis comes from the tools environment; it is last on the path so that
# the code under test keeps its own dependencies
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from gsv import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:], here=HERE, repo=REPO))
