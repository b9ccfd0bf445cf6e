#!/opt/venv/bin/python
"""python check.py ID            decide property ID (env VERIF_SEED, VERIF_TIER)
   python check.py ID --replay F  re-run one saved case, without Hypothesis"""
import os
import sys

# One BLAS thread and a fixed hash seed: a run is a function of the code and VERIF_SEED.
_want = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MPLBACKEND": "agg",
         "PYTHONDONTWRITEBYTECODE": "1"}
if any(os.environ.get(k) != v for k, v in _want.items()) or sys.executable != "/opt/venv/bin/python":
    os.environ.update(_want)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import bootstrap  # noqa

bootstrap.setup()
from vf import core  # noqa

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:], HERE))
