#!/bin/bash
# build_sched.sh REPO MC OUT: builds the explorer of schedules against copies of
# REPO's sources with yield points: OUT/mc, and OUT/mcrace with race detection.
set -e
repo="$1" mc="$2" out="$3"
mkdir -p "$out/src"
cd "$mc"
go run ./cmd/instrument "$repo" "$out/src" >"$out/instrument.txt"
go vet -tags sched -overlay "$out/src/overlay.json" . && go build -tags sched -overlay "$out/src/overlay.json" -o "$out/mc" .
CGO_ENABLED=1 go build -race -tags sched,netgo,osusergo -overlay "$out/src/overlay.json" -o "$out/mcrace" . 2>"$out/race.log" || { echo "no race detector: $(head -c 300 "$out/race.log")" >&2; rm -f "$out/mcrace"; }
