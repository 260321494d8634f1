#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough> [extra args]
# Runs one property's monitors against the code in /repo's working tree.
# sporco is pure Python: importing it from /repo *is* the build (byte code is
# not cached, so the current tree is always what runs).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"; tier="${2:-quick}"; shift 2
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 \
  NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=8 MKL_NUM_THREADS=1 \
  PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 \
  OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 \
  OMPI_MCA_btl=self OMPI_MCA_plm=isolated
scratch="$(mktemp -d /tmp/verif_scratch.XXXXXX)"
trap 'rm -rf -- "$scratch"' EXIT
export MPLCONFIGDIR="$scratch/mpl" TMPDIR="$scratch" PYTHONPYCACHEPREFIX="$scratch/pyc"
export PYTHONPATH="${VERIF_REPO:-/repo}:$here"
cd "$scratch" || exit 2
/opt/venv/bin/python -m rt.cli "$prop" --tier "$tier" "$@"
exit $?
