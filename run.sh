#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds from /repo's current tree in a scratch directory and runs the check.
P=$1; T=${2:-quick}; V=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d "${TMPDIR:-/tmp}/diva-$P.XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
mkdir -p "$V/evidence"
BUDGET=600; [ "$T" = thorough ] && BUDGET=7200
ARGS="--prop $P --tier $T --seed ${VERIF_SEED:-1} --outdir ${VF_OUT:-$V/evidence} --known $V/known_findings.txt --budget $BUDGET"
ulimit -c 0
case $P in
  C0[1-9]) "$V/build_filter.sh" "$B" || { echo "build failed"; exit 2; }; "$B/fcheck" $ARGS ;;
  C10) "$V/build_filter.sh" "$B" memory || { echo "build failed"; exit 2; }
       ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66:handle_segv=1:allocator_may_return_null=0 UBSAN_OPTIONS=exitcode=66 "$B/fcheck" $ARGS ;;
  C11|C12) "$V/build_index.sh" "$B" || { echo "build failed"; exit 2; }; "$B/icheck" $ARGS ;;
  C15) "$V/build_index.sh" "$B" memory || { echo "build failed"; exit 2; }
       ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66:handle_segv=1:allocator_may_return_null=0 UBSAN_OPTIONS=exitcode=66 "$B/icheck" $ARGS ;;
  C13) "$V/build_conc.sh" "$B" || { echo "build failed"; exit 2; }; "$B/ccheck" $ARGS ;;
  C14) "$V/build_bits.sh" "$B" || { echo "build failed"; exit 2; }; "$B/bcheck" $ARGS ;;
  *) echo "unknown property $P"; exit 2 ;;
esac
rc=$?
[ $rc -le 1 ] || rc=2
exit $rc
