#!/bin/bash
# check.sh PROPERTY [options of the harness]: builds the harness that decides the
# property from /repo's current tree, and explores.
cd "$(dirname "$0")" || exit 2
p=$1; shift
case $p in
  X0[1-5]) h=hcommon ;;
  S*|R*) h=hnode ;;
  M*) h=hmeta ;;
  *) echo "no harness for $p"; exit 2 ;;
esac
log=$PWD/evidence/build-$p.log
mkdir -p evidence
if ! ./build.sh $h >"$log" 2>&1; then
  tail -40 "$log"
  echo "the harness does not build"
  exit 2
fi
secs=()
if [ $h = hnode ] && [ "${VERIF_TIER:-quick}" = quick ] && [[ " $* " != *" --tier "* && " $* " != *" --secs "* ]]; then
  secs=(--secs 40)
fi
exec .target/debug/$h check --prop "$p" --root "$PWD" "${secs[@]}" "$@"
