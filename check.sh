#!/bin/bash
# usage: check.sh <property id> [--thorough] [--replay FILE]
# Explores one property exhaustively within its bounds on the real code in /repo.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
scratch="$(mktemp -d /tmp/mcrun.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/mpl" "$scratch/tmp"
cd "$here"
id="$1"; shift
if [ "$1" = --thorough ]; then shift; VERIF_TIER=thorough; fi
preload=
case "$id" in C15|C21|C31)
  gcc -O1 -shared -fPIC -D_LARGEFILE64_SOURCE -o "$scratch/inject.so" mc/native/inject.c -ldl -lpthread 2>/dev/null || exit 2
  preload="LD_PRELOAD=$scratch/inject.so";;
esac
env -i $preload HOME="$scratch" LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin \
  MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" TMPDIR="$scratch/tmp" \
  PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" \
  PYTHONPATH="${MC_REPO:-/repo}:$here" \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 \
  NUMBA_BOUNDSCHECK=1 MALLOC_PERTURB_=184 PYTHONWARNINGS=ignore \
  MC_SCRATCH="$scratch" MC_REPO="${MC_REPO:-/repo}" MC_WORKERS="${MC_WORKERS:-8}" MC_EVIDENCE="${MC_EVIDENCE:-$here/evidence}" \
  VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" \
  /opt/venv/bin/python -m mc.run "$id" "$@"
rc=$?
exit $rc
