#!/opt/venv/bin/python
"""Entry point: check.py run C01 [--tier quick|thorough] | replay FILE | one C01 7 | list"""
import os
import sys

# Everything that has to be fixed before the interpreter starts.
WANT = dict(PYTHONHASHSEED=os.environ.get('QSIM_HASHSEED', '0'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
            OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
            IPYTHONDIR='/tmp/qsim-ipython', MPLCONFIGDIR='/tmp/qsim-mpl')
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    py = '/opt/venv/bin/python'
    os.execv(py if os.path.exists(py) else sys.executable,
             [py if os.path.exists(py) else sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim.runner import main  # noqa: E402
sys.exit(main(sys.argv[1:]))
