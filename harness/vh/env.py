"""Process environment of the checks.  Must be imported before numpy."""
import os
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parents[2]
SPEC = ROOT / "spec"
REPO = Path(os.environ.get("VH_REPO", "/repo"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"

for _k in ("OMP", "OPENBLAS", "MKL", "NUMBA"):
    os.environ[f"{_k}_NUM_THREADS"] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

# one fixed kernel, so that the sums do not depend on the machine
try:
    _flags = Path("/proc/cpuinfo").read_text()
    if " avx2" in _flags and " fma" in _flags:
        os.environ.setdefault("OPENBLAS_CORETYPE", "Haswell")
except OSError:
    pass

# the compiled functions are plain python functions without the compiler; VH_JIT=1
# runs them compiled
if os.environ.get("VH_JIT") != "1":
    os.environ["NUMBA_DISABLE_JIT"] = "1"

sys.path.insert(0, str(REPO / "src"))


def import_tranquilo():
    import warnings

    warnings.filterwarnings("ignore")
    import tranquilo
    import tranquilo.tranquilo as tm

    got = Path(tranquilo.__file__).resolve()
    if not got.is_relative_to((REPO / "src").resolve()):
        raise RuntimeError(f"tranquilo imported from {got}")
    return tm
