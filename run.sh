#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs one check against the tree in $VERIF_REPO (default /repo), from its current files.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset DESIMETER_DATA
export DESI_LOGLEVEL=CRITICAL   # C30 varies it
export PYTHONPATH="$VERIF_REPO/py:$here"
export PYTHONWARNINGS=ignore
scratch="$(mktemp -d /tmp/verif-XXXXXX)" || exit 2
trap 'case "$scratch" in /tmp/verif-??????) rm -rf -- "$scratch";; esac' EXIT
export TMPDIR="$scratch" VERIF_SCRATCH="$scratch" MPLCONFIGDIR="$scratch/mpl" XDG_CACHE_HOME="$scratch/cache" XDG_CONFIG_HOME="$scratch/config" HOME="$scratch"
mkdir -p "$MPLCONFIGDIR" "$XDG_CACHE_HOME" "$XDG_CONFIG_HOME"
cd "$scratch" || exit 2
# generous watchdog: an expiry is "no answer" (exit 3), never a verdict
t="${VERIF_WATCHDOG:-840}"
case " $* ${VERIF_TIER:-}" in *thorough*) t="${VERIF_WATCHDOG:-7200}";; esac
PYBIN="${VERIF_PYTHON:-/opt/venv/bin/python}"
timeout -k 10 "$t" "$PYBIN" -m vlib.main "$@"
rc=$?
[ "$rc" -eq 124 ] || [ "$rc" -eq 137 ] && { echo "INCONCLUSIVE: watchdog expired after ${t}s"; exit 3; }
exit "$rc"
