#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the simulation from /repo's current
# working tree and search.
cd "$(dirname "$0")" || exit 2
. ./env.sh
. ./run.sh
run_sim "$1" check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
