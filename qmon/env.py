"""Process set-up: must be imported before numpy and qudiet.

Imports the code under test from /repo's working tree (never from a copy or from stale
byte code) and pins every source of non-determinism that is not the workload's own."""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["MPLBACKEND"] = "Agg"
for _v in ("CUDA_HOME", "CUDA_PATH", "CUDA_VERSION", "CUDNN_VERSION", "COLAB_GPU"):
    os.environ.pop(_v, None)
# C25 runs the GPU backends on a stand-in for CuPy
STANDIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "standin")
if any("C25" in os.path.basename(_a) for _a in sys.argv[1:]):
    os.environ["CUDA_HOME"] = "/nonexistent-cuda"
    sys.path.insert(0, STANDIN)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
# never read byte code cached next to the sources: always compile the working tree
sys.pycache_prefix = "/nonexistent-qmon-pycache"

import warnings

warnings.simplefilter("ignore")

REPO = os.environ.get("QMON_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, SRC)

import qudiet  # noqa: E402

if not os.path.realpath(qudiet.__file__).startswith(os.path.realpath(SRC) + os.sep):
    raise SystemExit("qmon: qudiet was imported from %s, not from %s" % (qudiet.__file__, SRC))
