#!/bin/bash
# usage: check.sh <property> [--replay FILE]     (tier from $VERIF_TIER, default quick)
# Rebuilds the harness crate of the property from /repo's working tree and runs it.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not run.
prop=$1
case "$prop" in
  C18|C19|C20|C21|C22|C23|C24|C25|C26|C27|C29|C31|C37) crate=algebra ;;
  C14|C15|C17|C28|C30) crate=crypto ;;
  C06|C07) crate=sched ;;
  C32|C33|C34) crate=evm ;;
  C35) crate=nostd ;;
  C36) crate=allocsched ;;
  *) crate=stark ;;
esac
export VERIF_DIR=/verif
once=
cd /verif || exit 2
log=/verif/target/build-$crate.log
mkdir -p /verif/target
case "$crate" in
  algebra|crypto|stark) bash /verif/build.sh "$crate" prod >"$log-prod" 2>&1 & second=$! ;;
esac
if ! bash /verif/build.sh "$crate" >"$log" 2>&1; then
  if [ "$crate" = sched ] && bash /verif/build.sh schedreal >>"$log" 2>&1; then
    # not buildable with the controlled scheduler: thread counts on the real one
    crate=schedreal
  elif [ "$crate" = allocsched ] && bash /verif/build.sh crypto >>"$log" 2>&1; then
    # not buildable with schedulable atomics: the sequential histories only
    crate=crypto; once=1
  else
    grep -E '^error' -A12 "$log" | head -60
    echo "check $prop: harness does not build against /repo"
    exit 2
  fi
fi
# run the binary $1 (rest: arguments); turns a crash of the code under test into a violation
run() {
  local bin=$1; shift
  "$bin" "$@" 2> >(tail -c 4000 >"/verif/target/stderr-$prop.log")
  local rc=$?
  case $rc in
    132|134|135|136|139)
      # the code under test aborted the process (double free, invalid access, stack overflow, ...)
      mkdir -p /verif/replays /verif/evidence
      f=/verif/replays/$prop-abort.txt
      { echo "property: $prop"; echo "message: the process was ended by signal $((rc-128)) while exploring"; tail -c 2000 "/verif/target/stderr-$prop.log"; } >"$f"
      printf '{"property": "%s", "tier": "quick", "seed": 1, "level": "model_checking", "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "rule": "exploration aborted by a crash of the code under test", "samples": ["crash"]}, "assumptions": [], "wall_s": 1, "violations": 1}\n' "$prop" >"/verif/evidence/$prop.json"
      echo "VIOLATION property=$prop replay=$f"
      exit 1 ;;
  esac
  return $rc
}
case "$*" in
  *--replay*-prod-*) ;;
  *) run "/verif/target/$crate/release/v$crate" "$@"; rc=$?; [ $rc = 0 ] || exit $rc ;;
esac
# the same cases with the release profile
case "$once $crate $*" in
  1*|" sched"*|" evm"*) ;;
  *--replay*-prod-*|" algebra C"??|" crypto C"??|" stark C"??)
    wait "$second"
    if [ -x "/verif/target/$crate-prod/release/v$crate" ]; then
      VERIF_PROD=1 VERIF_TIER=quick run "/verif/target/$crate-prod/release/v$crate" "$@"; rc=$?
    fi ;;
esac
exit $rc
