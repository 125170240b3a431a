#!/bin/bash
# run.sh <property> [quick|thorough]: decide one property on /repo's current tree
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
. /opt/vp/env.sh
bin=$here/checker/bin/checker
stale=1
if [ -x "$bin" ]; then
  stale=
  for f in "$here"/checker/*.go "$here"/checker/go.mod; do
    [ "$f" -nt "$bin" ] && stale=1
  done
fi
if [ -n "$stale" ]; then
  bash "$here/setup.sh" >"$here/checker/build.log" 2>&1 || {
    cat "$here/checker/build.log"
    echo "checker does not build"
    exit 2
  }
fi
cd "$here" && exec "$bin" -prop "$1" -tier "${2:-quick}" -repo /repo
