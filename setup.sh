#!/bin/bash
# builds the extensions of /repo's working tree, once as shipped and once each against the simulated OpenMP runtime and random numbers
cd "$(dirname "$0")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "."); from sim import env; print(env.build_all("omp", "rand"))'
