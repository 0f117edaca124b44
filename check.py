#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY-ID> [quick|thorough].  See DESIGN.md."""
import os, sys
VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == "__main__":
    if os.environ.get("MBV_REEXEC") != "1":
        env = dict(os.environ, MBV_REEXEC="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=HERE)
        env.pop("PYTHONHOME", None)
        os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], env)
    from mbv import core
    sys.exit(core.main(sys.argv[1:]))
