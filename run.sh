#!/bin/bash
# run.sh PROPERTY TIER : rebuild from /repo's working tree, then search.
cd /verif || exit 2
tier=${2:-${VERIF_TIER:-quick}}
case $1 in
  C28) what=c bin=target/debug/simc ;;
  C25) what=py bin=target/py/debug/simpy ;;
  C26) what=js bin=target/js/debug/simjs ;;
  *) what=sim bin=target/debug/simcheck ;;
esac
./build.sh $what || { echo "the simulator does not build" >&2; exit 2; }
cap=240; [ "$tier" = thorough ] && cap=780
exec ./$bin run --prop "$1" --tier "$tier" --seed "${VERIF_SEED:-1}" --cap $cap
