#!/bin/bash
# run.sh <check> [args]: one check, e.g. run.sh c01; VERIF_SEED and VERIF_TIER select seed and tier
cd "$(dirname "$0")" || exit 2
c=$1; shift
export PYTHONHASHSEED=0
exec /opt/veriftools/pyvenv/bin/python3 "checks/$c.py" "$@"
