#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the explorer from /repo's working
# tree and decides the property. Exit 0: held, 1: VIOLATION, other: no answer.
. /opt/vp/env.sh
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
B="$V/.build"; mkdir -p "$B" "$V/replays" "$V/evidence"
export GOFLAGS=-mod=readonly
if [ "$id" = P11 ]; then
  S="$B/sched.$$"; trap 'rm -rf "$S"' EXIT
  "$V/tools/build_sched.sh" /repo "$V/mc" "$S" >"$B/build.$id.log" 2>&1 || { cat "$B/build.$id.log" >&2; echo "check.sh: build failed" >&2; exit 3; }
  "$S/mc" -prop P11 -tier "$tier" -verif "$V"
  exit $?
fi
if ! (cd "$V/mc" && go build -o "$B/mc.$$" .) >"$B/build.$id.log" 2>&1; then
  cat "$B/build.$id.log" >&2; echo "check.sh: build failed" >&2; exit 3
fi
log="$V/replays/$id.log"
"$B/mc.$$" -prop "$id" -tier "$tier" -verif "$V" 2>"$log"
rc=$?
rm -f "$B/mc.$$"
cat "$log" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && [ $rc -ne 3 ] && grep -q '^\(fatal error\|panic\|runtime:\)' "$log" && grep -q '/repo/' "$log"; then
  # an error of the Go runtime inside of the implementation, that no harness can recover.
  echo "VIOLATION property=$id replay=$log"
  exit 1
fi
exit $rc
