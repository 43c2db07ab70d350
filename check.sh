#!/bin/bash
# usage: check.sh PROPERTY   decides one property from /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
if ! "$here/build.sh" >"$here/evidence/.build.log" 2>&1; then
  cat "$here/evidence/.build.log"
  echo "the checker does not build"
  echo "VIOLATION property=$1 replay=evidence/.build.log"
  exit 1
fi
timeout 840 "$here/bin/csscheck" -repo "${VERIF_REPO:-/repo}" -verif "$here" "$1"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the analysis of $1 ended with status $rc, so the property is undecided"
  echo "VIOLATION property=$1 replay=evidence/$1.json"
  exit 1
fi
exit $rc
