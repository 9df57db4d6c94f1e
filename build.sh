#!/bin/bash
# builds /verif/bin/govc from /verif/govc (offline)
V=$(cd "$(dirname "$0")" && pwd)
if [ -x "$V/bin/govc" ] && [ -z "$(find "$V/govc" -name '*.go' -newer "$V/bin/govc" -print -quit)" ]; then exit 0; fi
. "$V/env.sh"
mkdir -p "$V/bin"
cd "$V/govc" && GOFLAGS=-mod=mod go build -o "$V/bin/govc.$$" . && mv "$V/bin/govc.$$" "$V/bin/govc"
