"""Process set-up shared by all checks: import enterprise from /repo's working tree, quietly."""
import os, sys, warnings, logging

REPO = os.environ.get("CV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
# z3 and the Lean driver's helpers come from the verification venv; it is appended, so that numpy and scipy
# are the ones the package under test runs with
_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if os.path.isdir(_vt) and _vt not in sys.path:
    sys.path.append(_vt)
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
