#!/bin/bash
# check.sh <property> : builds the verifier if needed and decides one property on /repo's working tree
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" || exit 2
. "$V/env.sh"
exec "$V/bin/govc" check -repo /repo -verif "$V" -property "$1" -tier "${VERIF_TIER:-quick}"
