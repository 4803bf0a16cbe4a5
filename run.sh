# sourced by check.sh and replay.sh: run_sim PROPERTY ARGS... with the programs
# that decide PROPERTY. owsim puts a model in V8's place; owfull runs on the
# real V8, for which the installed node serves as the library.
FULL_FROM=23
# decided by both
BOTH=" P02 P04 P06 P07 P08 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21 P22 "
build() {
  local log; log="$(mktemp)"
  if ! (cd sim && cargo build --locked -p "$1" >"$log" 2>&1); then
    tail -60 "$log" >&2
    rm -f "$log"
    echo "harness: the simulation did not build" >&2
    exit 2
  fi
  rm -f "$log"
}
run_model() { build owsim; OWSIM_VERIF="$PWD" target/debug/owsim "$@"; }
run_full() { build owfull; env OWFULL=1 OWSIM_VERIF="$PWD" LD_PRELOAD="$PWD/target/debug/libowfull.so" /usr/bin/node "$@"; }
run_sim() {
  local p="$1" n="${1#P}"; shift
  n=$((10#$n))
  if [ "$1" = replay ]; then
    if [ "$n" -ge "$FULL_FROM" ] || grep -qE '"scenario": "[A-Z_]+-(simple|multi)"' "$2"; then run_full "$@"; else run_model "$@"; fi
    exit
  fi
  [ "$n" -ge "$FULL_FROM" ] && { run_full "$@"; exit; }
  run_model "$@"
  local rc=$?
  case "$BOTH" in *" $p "*) ;; *) exit $rc ;; esac
  [ $rc -eq 0 ] || exit $rc
  OWSIM_SECOND=1 run_full "$@"
  exit
}
