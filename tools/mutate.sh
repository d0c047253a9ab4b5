#!/bin/bash
# mutate.sh PATCH|- ID...: runs the checks against a copy of /repo with the patch
# applied, outside of /repo and /verif. With TESTS=1 also runs the test suite.
# "-R COMMIT" as the patch reverts a commit of /repo instead.
. /opt/vp/env.sh
V="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
W=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$V/mc" "$W/mc"; mkdir -p "$W/v"; cp "$V/known-findings.txt" "$W/v/" 2>/dev/null
if [ "$1" = -R ]; then
  git -C "$W/repo" -c user.email=a@b -c user.name=n revert --no-commit "$2" >/dev/null 2>&1 || { echo "REVERT-CONFLICT $2"; exit 9; }
  shift 2
else
  [ "$1" = - ] || git -C "$W/repo" apply "$(realpath "$1")" || { echo "DOES NOT APPLY"; exit 9; }
  shift
fi
sed -i "s#=> /repo#=> $W/repo#" "$W/mc/go.mod"
(cd "$W/repo" && go build ./...) || { echo "DOES NOT BUILD"; exit 9; }
if [ -n "$TESTS" ]; then (cd "$W/repo" && go test ./... 2>&1 | grep -v "no test files" | grep -v ^ok); fi
(cd "$W/mc" && go build -o "$W/bin" .) || { echo "MC DOES NOT BUILD"; exit 9; }
export GOFLAGS=-mod=readonly
for id in "$@"; do
  if [ "$id" = P11 ]; then
    "$V/tools/build_sched.sh" "$W/repo" "$W/mc" "$W/sched" >"$W/err" 2>&1 || { cat "$W/err"; continue; }
    out=$(timeout 900 "$W/sched/mc" -prop P11 -tier "${TIER:-quick}" -verif "$W/v" 2>>"$W/err"); rc=$?
    echo "$id rc=$rc $(echo "$out" | grep -v '^VIOLATION' | tail -${LINES_OUT:-1} | cut -c1-${WIDTH:-220})"
    continue
  fi
  out=$(MC_REPO="$W/repo" timeout 900 "$W/bin" -prop "$id" -tier "${TIER:-quick}" -verif "$W/v" 2>"$W/err"); rc=$?
  echo "$id rc=$rc $(echo "$out" | grep -v '^VIOLATION' | tail -${LINES_OUT:-1} | cut -c1-${WIDTH:-220})"
done
