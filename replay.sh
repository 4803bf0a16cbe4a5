#!/bin/bash
# replay.sh FILE: run one recorded violation again, with its trace.
file="$(realpath "$1")"
cd "$(dirname "$0")" || exit 2
. ./env.sh
. ./run.sh
run_sim "$(grep -o 'P[0-9][0-9]' "$file" | head -1)" replay "$file"
