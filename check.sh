#!/bin/bash
# check.sh PROPERTY [TIER]: rebuilds from /repo's working tree, searches for a
# violation and writes evidence/PROPERTY.json. Exit 0: none; 1: found.
cd "$(dirname "$0")" || exit 3
V=$PWD
tier=${2:-${VERIF_TIER:-quick}}
bash dst/build.sh || { echo "check: cannot build the simulator from /repo" >&2; exit 3; }
mkdir -p evidence out
exec .build/bin/dst check -prop "$1" -tier "$tier" -seed "${VERIF_SEED:-1}" \
  -evidence "$V/evidence/$1.json" -out "$V/out" -known "$V/known-findings.txt" ${DST_ARGS:-}
