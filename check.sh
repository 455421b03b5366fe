#!/bin/bash
# check.sh build | <property> quick|thorough | replay <file> | determinism <property> <runs>
cd "$(dirname "$0")" || exit 3
export SIM_VERIF="$PWD"
mkdir -p replays evidence
if ! bash sim/build.sh; then
  echo "the simulator does not build against /repo's working tree"
  exit 3
fi
[ "$1" = build ] && exit 0
bin="$PWD/sim/target/debug/simharness"
case "$1" in
  replay|determinism|show|trace|list) exec "$bin" "$@" ;;
  *) exec "$bin" check "$@" ;;
esac
