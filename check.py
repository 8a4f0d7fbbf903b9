#!/opt/venv/bin/python
"""Entry point: check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]."""
import os
import sys

ENV = dict(
    MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
    NUMEXPR_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
)
if any(os.environ.get(k) != v for k, v in ENV.items()) or sys.executable != "/opt/venv/bin/python":
    os.environ.update(ENV)
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), *sys.argv[1:]], os.environ)
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [repo, here]
from vlib.core import main  # noqa: E402

sys.exit(main())
