#!/bin/bash
# Warms the build cache and makes sure that the explorer builds.
. /opt/vp/env.sh
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$V/.build" "$V/evidence" "$V/replays"
export GOFLAGS=-mod=readonly
cd "$V/mc" && go build -o "$V/.build/mc.setup" . && rm -f "$V/.build/mc.setup"
