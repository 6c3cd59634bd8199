#!/bin/bash
# nothing to build: the verifier is Python; check that its parts import offline
cd "$(dirname "$0")" || exit 2
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "."); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jax, z3, mpmath, sympy
import vc.jx, vc.norm, vc.prove, vc.contract
print("ok", jax.__version__, z3.get_version_string())
P
