"""usage: run.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_k] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main("check_" + sys.argv[1].lower(), sys.argv[2:]))
